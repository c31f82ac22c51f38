"""Values of text terms for given leaves: what a derived text comes to for a given file name or given field contents."""
from __future__ import annotations

import codecs
import html
import os
import re
import shlex
import string
import textwrap
import unicodedata
import urllib.parse

from sa import terms as T
from sa.terms import Term

METHODS = {"endswith", "startswith", "lower", "upper", "casefold", "strip", "rstrip", "lstrip", "rsplit", "split", "partition", "rpartition", "count", "find",
           "rfind", "removesuffix", "removeprefix", "replace", "isprintable", "isalnum", "isalpha", "isascii", "isdigit", "isspace", "isupper", "islower",
           "isdecimal", "isnumeric", "isidentifier", "istitle", "title", "capitalize", "swapcase", "zfill", "ljust", "rjust", "center", "expandtabs", "splitlines",
           "encode", "index", "rindex", "translate", "hex"}
# Functions of the standard library whose result depends on nothing but their arguments, and its type.
PURE = {"html.escape": (html.escape, "str"), "html.unescape": (html.unescape, "str"), "unicodedata.normalize": (unicodedata.normalize, "str"),
        "urllib.parse.quote": (urllib.parse.quote, "str"), "urllib.parse.unquote": (urllib.parse.unquote, "str"), "urllib.parse.quote_plus": (urllib.parse.quote_plus, "str"),
        "urllib.parse.unquote_plus": (urllib.parse.unquote_plus, "str"), "shlex.quote": (shlex.quote, "str"), "re.escape": (re.escape, "str"), "re.sub": (re.sub, "str"),
        "re.split": (re.split, None), "re.findall": (re.findall, None), "re.match": (re.match, None), "re.search": (re.search, None), "re.fullmatch": (re.fullmatch, None),
        "string.capwords": (string.capwords, "str"), "textwrap.shorten": (textwrap.shorten, "str"), "textwrap.dedent": (textwrap.dedent, "str"),
        "textwrap.fill": (textwrap.fill, "str"), "codecs.decode": (codecs.decode, None), "codecs.encode": (codecs.encode, None), "shlex.split": (shlex.split, None)}
LOGIC = ("cmp", "ite", "poly", "lt0", "eq0", "not", "and", "or", "bool", "bin", "min", "max", "strcat")


def value(t, env):
    """Value of t when its leaves have the values of env; T.Undecided when that is not known."""
    try:
        return _value(t, env)
    except (T.Undecided, RecursionError):
        raise
    except Exception as e:  # pylint: disable=broad-except
        raise T.Undecided(str(e))


def _value(t, env):
    if not isinstance(t, Term):
        raise T.Undecided("not a term")
    if t in env:
        return env[t]
    op, a = t.op, t.args
    if op == "const":
        return a[1]
    if op == "decode":
        return _value(a[0], env).decode(a[1], a[2])
    if op == "fails" and a[0] == "decode":
        try:
            _value(a[1], env).decode(a[2])
            return False
        except UnicodeDecodeError:
            return True
    if op == "len":
        return len(_value(a[0], env))
    if op == "item":
        return _value(a[0], env)[_value(a[1], env)]
    if op == "bool":
        return bool(_value(a[0], env))
    if op == "and":
        return all(_value(x, env) for x in a[0])
    if op == "or":
        return any(_value(x, env) for x in a[0])
    if op == "not":
        return not _value(a[0], env)
    if op == "ite":
        return _value(a[1], env) if _value(a[0], env) else _value(a[2], env)
    if op == "tree":
        return tree(a[0], env)
    if op == "call":
        return call(t, env)
    if op in LOGIC:
        return T.ev(t, {x: _value(x, env) for x in parts(t, env)})
    raise T.Undecided(T.show(t)[:100])


def parts(t, env):
    """The subterms of arithmetic or logic that are neither."""
    out, todo = [], list(T.children(t))
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x.op == "const":
            continue
        if x.op in LOGIC and x not in env:
            todo.extend(T.children(x))
        elif x not in out:
            out.append(x)
    return out


def call(t, env):
    f = t.args[0]
    kw = {k: _value(v, env) for x in t.args[1:] if isinstance(x, tuple) for k, v in x}
    if kw and f not in PURE:
        raise T.Undecided("keyword arguments")
    xs = [_value(x, env) for x in t.args[1:] if isinstance(x, Term)]
    if f in ("splitext0", "splitext1"):
        return os.path.splitext(xs[0])[int(f[-1])]
    if f == "os.fspath":
        return xs[0]
    if f in ("os.path.basename", "os.path.dirname", "os.path.normpath"):
        return getattr(os.path, f.rsplit(".", 1)[-1])(xs[0])
    if f == "getitem":
        return xs[0][xs[1]]
    if f == "slice":
        return xs[0][xs[1]:xs[2]]
    if f == "slice3":
        return xs[0][xs[1]:xs[2]:xs[3]]
    if f == "contains":
        return xs[1] in xs[0]
    if f == "concat":
        return xs[0] + xs[1]
    if f == "join":
        return xs[0].join(xs[1]) if len(xs) == 2 else b"".join(xs[0])
    if f in ("str", "int", "ord", "chr", "repr", "ascii"):
        return {"str": str, "int": int, "ord": ord, "chr": chr, "repr": repr, "ascii": ascii}[f](*xs)
    if f in METHODS:
        return getattr(xs[0], f)(*xs[1:])
    if f in PURE:
        return PURE[f][0](*xs, **kw)
    raise T.Undecided(str(f))


def tree(x, env):
    """The value of a snapshot of a tuple or list."""
    if isinstance(x, Term):
        return _value(x, env)
    if isinstance(x, tuple) and x and x[0] == "tuple":
        return tuple(tree(y, env) for y in x[1])
    if isinstance(x, tuple) and x and x[0] == "list":
        out = []
        for s in x[1]:
            segment(s, env, out)
        return out
    raise T.Undecided("not a text")


def segment(s, env, out):
    """Adds the elements of one part of a list; True if a stop condition was met."""
    if s[0] == "item":
        if _value(s[1], env):
            out.append(tree(s[2], env))
    elif s[0] == "loop":
        _, g, trip, items, brk = s
        if not _value(g, env):
            return
        n = _value(trip, env) if trip is not None else 10000
        ks = {y for y in T.walk((items, brk)) if y.op == "iter" and y not in env}
        if len(ks) > 1:
            raise T.Undecided("nested loops")
        for k in range(min(n, 10000)):
            here = dict(env)
            for y in ks:
                here[y] = k
            if any(_value(b, here) for b in brk):
                break
            for i in items:
                segment(i, here, out)
        else:
            if n >= 10000:
                raise T.Undecided("an endless loop")
    else:
        raise T.Undecided("part of a list")


SAMPLES = [b"", b"\xef\xbf\xbdx", b"e\xcc\x81", b"\xef\xac\x81", b"%41+", b"&amp;", b"\xc4\xb0", b"# x", b"a", b"init", b"0", b" ", b"\xff", b"\xc3", b"\xa9b", b"caf\xc3\xa9", b"x\xc3", b" x ", b"\tx\n", b"A b", b"a/b:c", b"/usr/bin/x y", b"\xef\xbb\xbfx",
           b"\x01\x7f", b"\xe2\x80\xa8x", b"A-Z_1%s{0}", b"\\x41\\", b"\"'", b"a\xf0\x9f\x98\x80b", b"\xed\xa0\x80", b"x" * 14, b"y" * 15, b"(kworker/0:1)",
           b"word " * 60, b"n" * 254, b"\xc3\xa9" * 127, b"\xff" * 255]


BYTES = [bytes((n,)) for n in range(256)]


def source(x):
    while isinstance(x, Term) and x.op == "decode":
        x = x.args[0]
    return x


def contents(field):
    """Sample contents of a text field: of a single character every one, of a character array what its length admits."""
    k = field.args[2] if isinstance(field, Term) and field.op == "load" else None
    if k == "c1":
        return BYTES
    n = k[1] if isinstance(k, tuple) and len(k) == 2 and k[0] == "c" else None
    n = n if isinstance(n, int) else getattr(n, "args", (None, None))[1] if isinstance(n, Term) and n.op == "const" else None
    if n is None:
        return SAMPLES
    return list(dict.fromkeys([w[:n] for w in SAMPLES] + [w[-n:] for w in SAMPLES] + [b"z" * n, b"\xc3" * n]))


def others(x, field):
    """Values for the other fields a text depends on."""
    ls = [t for t in T.walk((x,)) if t.op == "load" and t != field and isinstance(t.args[0], Term)]
    texts = [t for t in ls if isinstance(t.args[2], tuple) or t.args[2] == "c1"]
    nums = [t for t in ls if t not in texts]
    if not ls:
        return [{}]
    if len(ls) > 6:
        return []
    return [{**{t: w[:len(contents(t)[-1])] for t in texts}, **{t: n for t in nums}} for w in (b"other", b"") for n in (0, 1)]


def compare(got, want, given=None):
    """("ne", contents, got, required) for contents on which got is not the required text, ("eq",) if they agree on all contents
    of a single character, ("unk",) if no difference was found, None if neither got nor what is given speaks of that text."""
    if not (isinstance(want, Term) and want.op == "decode" and isinstance(got, Term)):
        return None
    field = source(want)
    given = given if given is not None else T.TRUE
    if field not in set(T.walk((got, given))):
        return None
    undecided = False
    rest = others((got, given), field)
    for w in contents(field):
        for more in rest:
            env = {**more, field: w}
            try:
                if not value(given, env):
                    continue
                a = value(got, env)
                b = value(want, env)
            except T.Undecided:
                undecided = True
                continue
            if type(a) is not type(b) or a != b:
                return "ne", w, a, b
    if not undecided and rest == [{}] and field.args[2] == "c1":
        return ("eq",)
    return ("unk",)
