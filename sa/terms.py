"""Immutable abstract values ("terms") and their normal forms.

A term is a node of the value-dependence graph of a function: where a value comes from, not what it is.
Integer arithmetic is kept as a polynomial over opaque leaves, so that algebraically equal expressions are equal
terms; comparisons of integers are kept as (polynomial <0) or (polynomial ==0).
"""
from __future__ import annotations

import itertools


class Term:
    __slots__ = ("op", "args", "_h", "_k")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))
        self._k = None

    def __eq__(self, other):
        return self is other or (isinstance(other, Term) and self._h == other._h and self.op == other.op and self.args == other.args)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


def const(v):
    # Keep True and 1 (and 1.0) apart.
    return Term("const", type(v).__name__, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
ZERO, ONE = const(0), const(1)


def is_const(t, *types):
    return isinstance(t, Term) and t.op == "const" and (not types or isinstance(t.args[1], types))


def is_int_const(t):
    return is_const(t, int) or is_const(t, bool)


def cval(t):
    return t.args[1]


INT_KINDS = {"u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8"}


def ty(t):
    """Static type of a term, or None when it is not known."""
    if not isinstance(t, Term):
        return None
    op = t.op
    if op == "const":
        return t.args[0]
    if op == "load":
        k = t.args[2]
        if isinstance(k, tuple):
            return "bytes"
        k = k.lstrip(">").split(":")[0]
        if k in INT_KINDS:
            return "int"
        if k == "b1":
            return "bool"
        if k == "c1":
            return "bytes"
        return "float"
    if op in ("poly", "iter", "nread", "len", "min", "max", "pos", "size", "plen", "niter"):
        return "int"
    if op in ("lt0", "eq0", "not", "and", "or", "isinst", "bool", "cmp", "fails", "exists", "loopexit", "fresh", "same"):
        return "bool"
    if op in ("bytes", "decomp", "decompobj"):
        return "bytes"
    if op in ("decode", "fmt", "strcat"):
        return "str"
    if op == "item" and t.args[0].op == "sym" and str(t.args[0].args[0]).startswith("args."):
        return "str"  # an argument of the command line
    if op in ("phi", "sym", "loopout", "call", "opaque"):
        return t.args[-1]
    if op == "ite":
        a, b = ty(t.args[1]), ty(t.args[2])
        return a if a == b else None
    if op == "bin":
        return t.args[-1]
    return None


def is_num(t):
    return ty(t) in ("int", "bool")


# ---------------------------------------------------------------- polynomials
def _poly(t):
    if t.op == "poly":
        return dict(t.args[0])
    if is_int_const(t):
        v = int(cval(t))
        return {(): v} if v else {}
    return {(t,): 1}


def _key(t):
    """A total, deterministic order of terms (cached)."""
    if t._k is None:
        t._k = t.op + "(" + ",".join(_akey(a) for a in t.args) + ")"
    return t._k


def _akey(a):
    if isinstance(a, Term):
        return _key(a)
    if isinstance(a, (tuple, list)):
        return "<" + ",".join(_akey(x) for x in a) + ">"
    if isinstance(a, frozenset):
        return "{" + ",".join(sorted(_akey(x) for x in a)) + "}"
    return repr(a)


def _mk(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return Term("poly", frozenset(p.items()))


def add(a, b, k=1):
    p = _poly(a)
    for m, c in _poly(b).items():
        p[m] = p.get(m, 0) + k * c
    return _mk(p)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    r = {}
    for m1, c1 in _poly(a).items():
        for m2, c2 in _poly(b).items():
            m = tuple(sorted(m1 + m2, key=_key))
            r[m] = r.get(m, 0) + c1 * c2
    return _mk(r)


def divexact(a, b):
    """a / b when b divides every monomial of a, else None."""
    pb = _poly(b)
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    r = {}
    for m, c in _poly(a).items():
        if c % cb:
            return None
        rest = list(m)
        for f in mb:
            if f not in rest:
                return None
            rest.remove(f)
        r[tuple(rest)] = c // cb
    return _mk(r)


# ---------------------------------------------------------------- booleans
def neg(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "lt0":  # not (p<0)  <=>  -p-1 < 0
        return lt0(sub(sub(ZERO, c.args[0]), ONE))
    if c.op == "and":
        return disj([neg(x) for x in c.args[0]])
    if c.op == "or":
        return conj([neg(x) for x in c.args[0]])
    return Term("not", c)


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args[0])
        else:
            out.append(c)
    return out


def _nary(op, cs):
    """Conjunction or disjunction with unit propagation and absorption."""
    unit, absorb, dual = (TRUE, FALSE, "or") if op == "and" else (FALSE, TRUE, "and")
    while True:
        s = []
        for c in _flat(op, cs):
            if c == absorb:
                return absorb
            if c != unit and c not in s:
                s.append(c)
        ss = set(s)
        if any(neg(c) in ss for c in s if c.op not in ("and", "or")):
            return absorb
        out, changed = [], False
        for c in s:
            if c.op == dual and len(s) > 1:
                rest = ss - {c}
                if any(x in rest for x in c.args[0]):
                    changed = True
                    continue
                kept = [x for x in c.args[0] if x.op in ("and", "or") or neg(x) not in rest]
                if len(kept) != len(c.args[0]):
                    changed = True
                    c = (disj if op == "and" else conj)(kept)
            out.append(c)
        if not changed:
            break
        cs = out
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    return Term(op, tuple(sorted(s, key=_key)))


def conj(cs):
    return _nary("and", cs)


def disj(cs):
    return _nary("or", cs)


RANGE = {"u1": (0, 2**8 - 1), "u2": (0, 2**16 - 1), "u4": (0, 2**32 - 1), "u8": (0, 2**64 - 1)}


def lower(t):
    """A lower bound of a term if one is known."""
    if is_int_const(t):
        return int(cval(t))
    if t.op == "load" and isinstance(t.args[2], str) and t.args[2].lstrip(">") in RANGE:
        return 0
    if t.op in ("len", "nread", "iter", "pos", "size", "plen", "niter"):
        return 0
    if t.op == "min":
        ls = [lower(x) for x in t.args[0]]
        return None if None in ls else min(ls)
    if t.op == "max":
        ls = [l for l in (lower(x) for x in t.args[0]) if l is not None]
        return max(ls) if ls else None
    if t.op == "poly":
        tot = 0
        for m, c in t.args[0]:
            if c < 0 and m:
                return None
            v = c
            for f in m:
                l = lower(f)
                if l is None:
                    return None
                v *= l
            tot += v
        return tot
    return None


def upper(t):
    """An upper bound of a leaf if one is known."""
    if t.op == "load" and isinstance(t.args[2], str):
        k = t.args[2].lstrip(">")
        if k[0] == "u" and k[1:].isdigit():
            return 2 ** (8 * int(k[1:])) - 1
        if k[0] == "i" and k[1:].isdigit():
            return 2 ** (8 * int(k[1:]) - 1) - 1
    return None


def indicators(p):
    """(constant, [(coefficient, condition, value, other value)]) of a sum whose terms are constants chosen by conditions."""
    out, c0 = [], 0
    for mono, k in _poly(p).items():
        if not mono:
            c0 = k
            continue
        a = mono[0]
        if len(mono) != 1 or not isinstance(a, Term) or a.op != "ite" or not is_int_const(a.args[1]) or not is_int_const(a.args[2]):
            return None
        out.append((a.args[0], k * int(cval(a.args[1])), k * int(cval(a.args[2]))))
    return (c0, out) if out else None


def _choose(p, test):
    """The condition that a sum of indicators fulfils test, or None."""
    got = indicators(p)
    if got is None:
        return None
    c0, xs = got
    lo, hi = c0 + sum(min(a, b) for _, a, b in xs), c0 + sum(max(a, b) for _, a, b in xs)
    least = conj([c if a < b else neg(c) for c, a, b in xs if a != b])
    most = conj([c if a > b else neg(c) for c, a, b in xs if a != b])
    if test(lo) and test(hi) and test is _neg:
        return TRUE
    if not test(lo) and not test(hi) and (test is _neg or lo > 0 or hi < 0):
        return FALSE
    if test is _zero and lo == 0:
        return least
    if test is _zero and hi == 0:
        return most
    if test is _neg and hi == 0:
        return neg(most)
    if len(xs) > 4:
        return None

    def go(v, i):
        if i == len(xs):
            return TRUE if test(v) else FALSE
        c, a, b = xs[i]
        return disj([conj([c, go(v + a, i + 1)]), conj([neg(c), go(v + b, i + 1)])])
    return go(c0, 0)


def _neg(v):
    return v < 0


def _zero(v):
    return v == 0


def lt0(p):
    if is_int_const(p):
        return TRUE if int(cval(p)) < 0 else FALSE
    c = _choose(p, _neg)
    if c is not None:
        return c
    l = lower(p)
    if l is not None and l >= 0:
        return FALSE
    return Term("lt0", p)


def eq0(p):
    if is_int_const(p):
        return TRUE if int(cval(p)) == 0 else FALSE
    c = _choose(p, _zero)
    if c is not None:
        return c
    l = lower(p)
    if l is not None and l > 0:
        return FALSE
    n = sub(ZERO, p)
    if _key(n) < _key(p):
        p = n
    l = lower(p)
    if l is None:
        l2 = lower(sub(ZERO, p))
        if l2 is not None and l2 > 0:
            return FALSE
    return Term("eq0", p)


def compare(op, a, b):
    """Comparison of two terms as a normalised condition (or an opaque one)."""
    if op in ("!=", "is not", "not in"):
        return neg(compare({"!=": "==", "is not": "is", "not in": "in"}[op], a, b))
    if is_num(a) and is_num(b):
        if op == "<":
            return lt0(sub(a, b))
        if op == "<=":
            return lt0(sub(sub(a, b), ONE))
        if op == ">":
            return lt0(sub(b, a))
        if op == ">=":
            return lt0(sub(sub(b, a), ONE))
        if op in ("==", "is"):
            return eq0(sub(a, b))
    if op in ("==", "is"):
        if a == b:
            return TRUE
        if is_const(a) and is_const(b):
            try:
                return TRUE if (cval(a) == cval(b) if op == "==" else a == b) else FALSE
            except Exception:
                pass
        ta, tb = ty(a), ty(b)
        if ta is not None and tb is not None and ta != tb and not ({ta, tb} <= {"int", "bool", "float"}):
            return FALSE
        if op == "==" and {ta, tb} == {"bytes"}:
            for x, y in ((a, b), (b, a)):
                if is_const(x) and cval(x) == b"":
                    return eq0(length(y))
        x, y = sorted((a, b), key=_key)
        return Term("cmp", "==", x, y)
    if is_const(a) and is_const(b):
        try:
            x, y = cval(a), cval(b)
            r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "in": lambda: x in y}[op]()
            return TRUE if r else FALSE
        except Exception:
            pass
    if op == ">":
        return Term("cmp", "<", b, a)
    if op == ">=":
        return Term("cmp", "<=", b, a)
    return Term("cmp", op, a, b)


def length(t):
    if is_const(t, str, bytes):
        return const(len(cval(t)))
    if t.op == "bytes" and t.args[2] is not None and t.args[3] is True:
        return t.args[2]
    if t.op == "load" and t.args[2] == "c1":
        return ONE
    return Term("len", t)


def truthy(t):
    """Condition for the truth of a term."""
    if is_const(t):
        return TRUE if cval(t) else FALSE
    k = ty(t)
    if k == "bool":
        if t.op in ("lt0", "eq0", "not", "and", "or", "isinst", "cmp", "bool", "fails", "exists", "loopexit", "fresh", "const"):
            return t
        if t.op == "ite":
            return disj([conj([t.args[0], truthy(t.args[1])]), conj([neg(t.args[0]), truthy(t.args[2])])])
        return Term("bool", t)
    if k == "int":
        return neg(eq0(t))
    if t.op == "strcat" and any(is_const(x, str) and cval(x) for x in t.args[0]):
        return TRUE
    if t.op == "ite" and isinstance(t.args[1], Term) and isinstance(t.args[2], Term):
        return disj([conj([t.args[0], truthy(t.args[1])]), conj([neg(t.args[0]), truthy(t.args[2])])])
    if k in ("bytes", "str"):
        return neg(eq0(length(t)))
    if t.op in ("cmp",):
        return t
    if t.op == "ite":
        return disj([conj([t.args[0], truthy(t.args[1])]), conj([neg(t.args[0]), truthy(t.args[2])])]) \
            if isinstance(t.args[1], Term) and isinstance(t.args[2], Term) else Term("bool", t)
    return Term("bool", t)


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "fails" and a.op == b.op == "decode" and c.args[0] == "decode" and c.args[1] == b.args[0] == a.args[0] \
            and b.args[2] == "strict" and a.args[1] == b.args[1]:
        return a  # strict decoding that falls back to a tolerant one
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return neg(c)
    if a == TRUE and ty(b) == "bool":
        return disj([c, truthy(b)])
    if a == FALSE and ty(b) == "bool":
        return conj([neg(c), truthy(b)])
    if b == TRUE and ty(a) == "bool":
        return disj([neg(c), truthy(a)])
    if b == FALSE and ty(a) == "bool":
        return conj([c, truthy(a)])
    if isinstance(a, Term) and a.op == "ite" and a.args[0] == c:
        a = a.args[1]
    if isinstance(b, Term) and b.op == "ite" and b.args[0] == c:
        b = b.args[2]
    if isinstance(a, Term) and a.op == "ite" or isinstance(b, Term) and b.op == "ite":
        n = neg(c)
        if isinstance(a, Term) and a.op == "ite" and a.args[0] == n:
            a = a.args[2]
        if isinstance(b, Term) and b.op == "ite" and b.args[0] == n:
            b = b.args[1]
    return a if a == b else Term("ite", c, a, b)


def tmin(xs, op="min"):
    flat = []
    for x in xs:
        flat.extend(x.args[0] if x.op == op else [x])
    cs = [int(cval(x)) for x in flat if is_int_const(x)]
    rest = sorted({x for x in flat if not is_int_const(x)}, key=_key)
    if cs:
        c = (min if op == "min" else max)(cs)
        # Drop a bound that can never be the smaller (larger) one.
        if op == "max" and rest and any((lower(x) or 0) >= c and lower(x) is not None for x in rest):
            cs = []
        else:
            rest = rest + [const(c)]
    if len(rest) == 1:
        return rest[0]
    return Term(op, tuple(rest))


def bound_of(g, kappa, stop=False, natural=None):
    """n when the condition g says kappa >= n (for some n free of kappa), else None; stop: g ends the turns.

    natural: tells whether a value is known not to be negative where the turns begin."""
    if g.op == "lt0":
        p = dict(_poly(g.args[0]))
        if p.get((kappa,)) == -1:
            rest = sub(_mk(p), mul(const(-1), kappa))  # p = rest - kappa < 0  <=>  kappa >= rest + 1
            if not contains(rest, kappa):
                return add(rest, ONE)
    if stop and g.op == "eq0":
        p = dict(_poly(g.args[0]))
        k = p.get((kappa,))
        if k in (1, -1):  # kappa == n: the first turn for which kappa >= n when n is not negative
            n = mul(const(-k), sub(_mk(p), mul(const(k), kappa)))
            if not contains(n, kappa) and ((lower(n) if lower(n) is not None else -1) >= 0 or natural is not None and natural(n)):
                return n
    return None


def contains(t, leaf):
    return any(x == leaf for x in walk(t))


_n_opaque = [0]


def opaque(reason, typ=None):
    _n_opaque[0] += 1
    return Term("opaque", _n_opaque[0], reason, typ)


def unknowns(t):
    """Reasons why a term is not fully known."""
    return [str(x.args[1]) for x in walk(t) if x.op == "opaque"] + [f"loop carried value {_short(x.args[1])}" for x in walk(t)
                                                               if x.op in ("phi", "loopout") and x.args[-1] is None]


# ---------------------------------------------------------------- traversal
def children(x):
    if isinstance(x, Term):
        for a in x.args:
            yield from _sub(a)


def _sub(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, (tuple, frozenset, list)):
        for b in a:
            yield from _sub(b)
    elif hasattr(a, "subvals"):
        for b in a.subvals():
            yield from _sub(b)


def walk(x):
    seen = set()
    stack = list(_sub(x))
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        stack.extend(children(t))


def subst(x, m):
    """Replace terms by the mapping m, renormalising arithmetic."""
    return _subst(x, m, {}) if m else x


def _subst(x, m, memo):
    if isinstance(x, tuple):
        return tuple(_subst(y, m, memo) for y in x)
    if not isinstance(x, Term):
        return x.subst(m) if hasattr(x, "subst") else x
    if x.op == "const" and x not in m:
        return x
    r = memo.get(x)
    if r is None:
        r = memo[x] = m[x] if x in m else _subst1(x, m, memo)
    return r


def _subst1(x, m, memo):
    if x.op == "poly":
        tot = ZERO
        for mono, c in x.args[0]:
            p = const(c)
            for f in mono:
                p = mul(p, _subst(f, m, memo))
            tot = add(tot, p)
        return tot
    if x.op == "and":
        return conj([_subst(y, m, memo) for y in x.args[0]])
    if x.op == "or":
        return disj([_subst(y, m, memo) for y in x.args[0]])
    if x.op == "not":
        return neg(_subst(x.args[0], m, memo))
    if x.op == "lt0":
        return lt0(_subst(x.args[0], m, memo))
    if x.op == "eq0":
        return eq0(_subst(x.args[0], m, memo))
    if x.op == "ite":
        return ite(_subst(x.args[0], m, memo), _subst(x.args[1], m, memo), _subst(x.args[2], m, memo))
    if x.op in ("min", "max"):
        return tmin([_subst(y, m, memo) for y in x.args[0]], x.op)
    if x.op in ("cmp", "bool", "len"):
        a = [_subst(y, m, memo) for y in x.args]
        if a == list(x.args):
            return x
        if all(isinstance(y, Term) for y in a[-1:] if x.op != "cmp") and all(isinstance(y, Term) for y in a[1:] if x.op == "cmp"):
            return compare(*a) if x.op == "cmp" else truthy(a[0]) if x.op == "bool" else length(a[0])
        return Term(x.op, *a)
    return Term(x.op, *[_subst(a, m, memo) if isinstance(a, (Term, tuple)) or hasattr(a, "subst") else a for a in x.args])


# ---------------------------------------------------------------- finite orderings
class Undecided(Exception):
    pass


def ev(t, env):
    """Value of an abstract condition or integer term under an assignment of its leaves."""
    if t in env:
        return env[t]
    op, a = t.op, t.args
    if op == "const":
        return a[1]
    if op == "poly":
        tot = 0
        for mono, c in a[0]:
            v = c
            for f in mono:
                v *= ev(f, env)
            tot += v
        return tot
    if op == "lt0":
        return ev(a[0], env) < 0
    if op == "eq0":
        return ev(a[0], env) == 0
    if op == "not":
        return not ev(a[0], env)
    if op == "and":
        return all(ev(x, env) for x in a[0])
    if op == "or":
        return any(ev(x, env) for x in a[0])
    if op == "ite":
        return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
    if op == "min":
        return min(ev(x, env) for x in a[0])
    if op == "max":
        return max(ev(x, env) for x in a[0])
    if op == "bool":
        return bool(ev(a[0], env))
    if op == "bin":
        x, y = ev(a[1], env), ev(a[2], env)
        try:
            if a[0] in ("//", "%", "/", "ceildiv") and y == 0:
                raise Undefined("division by zero")
            return {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, ">>": lambda: x >> y, "<<": lambda: x << y,
                    "//": lambda: x // y, "%": lambda: x % y, "ceildiv": lambda: -(-x // y), "/": lambda: x / y,
                    "**": lambda: x ** y}[a[0]]()
        except Undefined:
            raise
        except Exception as e:
            raise Undecided(str(e))
    if op == "cmp":
        x, y = ev(a[1], env), ev(a[2], env)
        try:
            return {"==": lambda: x == y, "<": lambda: x < y, "<=": lambda: x <= y, "in": lambda: x in y, "is": lambda: x is y}[a[0]]()
        except Exception as e:
            raise Undecided(str(e))
    if op == "strcat":
        return "".join(str(ev(x, env)) for x in (a[0] if len(a) == 1 and isinstance(a[0], tuple) else a))
    if op == "call" and a[0] in ("str", "int", "hex") and len(a) == 3:
        return {"str": str, "int": int, "hex": hex}[a[0]](ev(a[1], env))
    if op == "len":
        try:
            return len(ev(a[0], env))
        except TypeError as e:
            raise Undecided(str(e))
    raise Undecided(f"no value for {show(t)}")


class Undefined(Exception):
    """The expression has no value under an assignment (division by zero, negative shift): the code raises there."""


def _code(t, names, extra, budget):
    """A Python expression for t over the variables in names."""
    if t in names:
        return names[t]
    budget[0] -= 1
    if budget[0] < 0:
        raise OverflowError
    op, a = t.op, t.args

    def c(x):
        return _code(x, names, extra, budget)
    if op == "const" and isinstance(a[1], (bool, int)):
        return f"({a[1]!r})"
    if op == "poly":
        return "(" + "+".join("*".join([str(n) if n >= 0 else f"({n})"] + [c(f) for f in m]) for m, n in a[0]) + ")"
    if op == "lt0":
        return f"({c(a[0])}<0)"
    if op == "eq0":
        return f"({c(a[0])}==0)"
    if op == "not":
        return f"(not {c(a[0])})"
    if op in ("and", "or") and a[0]:
        return "(" + f" {op} ".join(c(x) for x in a[0]) + ")"
    if op == "ite":
        return f"({c(a[1])} if {c(a[0])} else {c(a[2])})"
    if op in ("min", "max") and len(a[0]) > 1:
        return f"{op}({','.join(c(x) for x in a[0])})"
    if op == "bool":
        return f"bool({c(a[0])})"
    if op == "bin" and a[0] in ("&", "|", "^", ">>", "<<", "//", "%"):
        return f"({c(a[1])}{a[0]}{c(a[2])})"
    if op == "cmp" and a[0] in ("==", "<", "<="):
        return f"({c(a[1])}{a[0]}{c(a[2])})"
    extra.append(t)
    return f"_ev(_x[{len(extra) - 1}],dict(zip(_k,v)))"


def evaluator(t, ls, fixed=None):
    """ev(t, ...) as a function of the tuple of the values of the leaves ls."""
    ls = list(ls)
    keys = ls + list(fixed or ())
    rest = tuple((fixed or {}).values())
    try:
        names = {l: f"v[{i}]" for i, l in enumerate(keys)}
        extra = []
        code = _code(t, names, extra, [4000])
        f = eval(f"lambda v: {code}", {"_ev": ev, "_x": extra, "_k": keys, "__builtins__": {"min": min, "max": max, "bool": bool, "dict": dict, "zip": zip}})
    except (OverflowError, RecursionError, SyntaxError, MemoryError):
        def f(v):
            return ev(t, dict(zip(keys, v)))

    def g(v):
        try:
            return f(v + rest)
        except (ZeroDivisionError, ValueError) as e:
            raise Undefined(str(e))
        except TypeError as e:
            raise Undecided(str(e))
    return g


STRUCTURAL = {"const", "poly", "lt0", "eq0", "not", "and", "or", "ite", "min", "max", "bool", "bin", "cmp"}


def leaves(*ts):
    out, seen, stack = [], set(), [t for t in ts]
    while stack:
        t = stack.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.op not in STRUCTURAL or (t.op == "bin" and t.args[0] not in ("&", "|", "^", ">>", "<<", "//", "%", "ceildiv")):
            out.append(t)
        elif t.op == "cmp" and not (is_num(t.args[1]) or is_num(t.args[2])):
            out.append(t)
        else:
            stack.extend(children(t))
    return sorted(out, key=_key)


def constants(*ts):
    s = set()
    for t in ts:
        for x in walk(t):
            if is_int_const(x):
                s.add(int(cval(x)))
            if x.op == "poly":
                s |= {abs(c) for m, c in x.args[0] if m == ()}
    return s


def atoms(*ts):
    """The comparisons (and other indivisible parts) of some conditions or integer terms."""
    out, seen, stack = [], set(), list(ts)
    while stack:
        t = stack.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.op in ("and", "or", "not", "ite", "bool"):
            stack.extend(children(t))
        else:
            out.append(t)
    return out


def bit_patterns(ts):
    """Values that tell bitwise operations on a leaf from other conditions on it."""
    out = {}
    for x in walk(tuple(ts)):
        if x.op == "bin" and x.args[0] in ("&", "|", "^", "%", "//", ">>"):
            for l, c in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if is_int_const(c) and l.op not in STRUCTURAL and cval(c) >= 0:
                    c = int(cval(c))
                    s = out.setdefault(l, set())
                    if x.args[0] in ("%", "//"):
                        s |= {2 * c - 1, 2 * c, 2 * c + 1}
                    elif x.args[0] == ">>":
                        s |= {1 << c, (1 << c) - 1, 3 << c} if c < 64 else set()
                    else:
                        n = max(c.bit_length(), 8)
                        s |= {c ^ (1 << k) for k in (0, 1, n // 2, n - 1, n)} | {0xFF, 0x55, (1 << n) - 1, ((1 << n) - 1) ^ c}
    return out


class Assignments:
    """Representative assignments covering the orderings of the leaves of ts against each other and the constants."""

    def __init__(self, ts, extra=(), fixed=None, limit=60000, signed=False):
        self.fixed = fixed or {}
        self.ls = [l for l in leaves(*ts) if l not in self.fixed]
        # Leaves that meet in a comparison share their constants.
        group = {l: {l} for l in self.ls}
        consts = {l: set() for l in self.ls}
        whole = any(is_num(t) for t in ts)  # integer results: all leaves belong together
        for at in ([Term("and", tuple(ts))] if whole else atoms(*ts)):
            here = [l for l in leaves(*(at.args[0] if whole else (at,))) if l in group]
            cs = constants(*(at.args[0] if whole else (at,)))
            g = set()
            for l in here:
                g |= group[l]
            for l in g:
                group[l] = g
            for l in here:
                consts[l] |= cs
        near_bits = bit_patterns(ts)
        self.doms = []
        for l in self.ls:
            base = {0, 1, 2, 3} | near_bits.get(l, set())
            cs = set(extra)
            for m in group[l]:
                cs |= consts[m]
            for c in cs:
                if abs(c) <= 2**64:
                    base |= {c - 1, c, c + 1}
                    if signed and lower(l) is None and c > 3:
                        base |= {-c - 1, -c, -c + 1}
            if ty(l) == "bool" or l.op in ("cmp", "opaque", "isinst", "bool"):
                self.doms.append([False, True])
            elif ty(l) == "int":
                lo = lower(l)
                hi = upper(l)
                if lo is None:
                    lo = (-hi - 1 if l.op == "load" and hi is not None else -2**64) if signed else 0
                    if signed:
                        base.add(-1)
                self.doms.append(sorted(v for v in base if v >= lo and (hi is None or v <= hi)))
            else:
                raise Undecided(f"no finite ordering for {show(l)}")
        # Shrink the domains if the product is too large.
        self.shrunk = False
        n = 1
        for d in self.doms:
            n *= len(d)
        while n > limit and any(len(d) > 4 for d in self.doms):
            i = max(range(len(self.doms)), key=lambda j: len(self.doms[j]))
            n //= len(self.doms[i])
            self.doms[i] = self.doms[i][::2]
            self.shrunk = True
            n *= len(self.doms[i])
        if n > limit * 4:
            raise Undecided("too many orderings")

    def __iter__(self):
        for vals in itertools.product(*self.doms):
            yield self.env(vals)

    def env(self, vals):
        env = dict(zip(self.ls, vals))
        env.update(self.fixed)
        return env

    def points(self):
        return itertools.product(*self.doms)

    def fn(self, t):
        return evaluator(t, self.ls, self.fixed)


def assignments(ts, extra=(), fixed=None, limit=60000, signed=False):
    return Assignments(ts, extra, fixed, limit, signed)


def strip_common(a, b):
    """Two conjunctions without the independent conjuncts they share."""
    ca = list(a.args[0]) if a.op == "and" else [a]
    cb = list(b.args[0]) if b.op == "and" else [b]
    common = [c for c in ca if c in cb]
    ra, rb = [c for c in ca if c not in common], [c for c in cb if c not in common]
    used = set(leaves(*ra, *rb))
    keep, todo = [], common
    while True:
        more = [c for c in todo if set(leaves(c)) & used]
        if not more:
            break
        keep += more
        todo = [c for c in todo if c not in more]
        for c in more:
            used |= set(leaves(c))
    return conj(keep + ra), conj(keep + rb)


def by_parts(a, b, extra, signed):
    """Compares two conjunctions (or disjunctions) whose conjuncts fall into groups without common leaves."""
    if "or" in (a.op, b.op) and "and" not in (a.op, b.op):
        a, b = neg(a), neg(b)
    ca = list(a.args[0]) if a.op == "and" else [a]
    cb = list(b.args[0]) if b.op == "and" else [b]
    groups = []  # (leaves, conjuncts of a, conjuncts of b)
    for n, c in [(1, c) for c in ca] + [(2, c) for c in cb]:
        g = [set(leaves(c)), [], []]
        g[n].append(c)
        keep = []
        for h in groups:
            if h[0] & g[0]:
                g = [h[0] | g[0], h[1] + g[1], h[2] + g[2]]
            else:
                keep.append(h)
        groups = keep + [g]
    if len(groups) < 2:
        return NotImplemented
    sat, found = [], []
    for _, xa, xb in groups:
        pa, pb = conj(xa), conj(xb)
        asg = Assignments([pa, pb], extra=extra, signed=signed)
        sa = sb = da = db = None
        fa, fb = asg.fn(pa), asg.fn(pb)
        for vals in asg.points():
            try:
                va, vb = fa(vals), fb(vals)
            except Undefined:
                continue
            if not va and not vb:
                continue
            env = None
            if va and sa is None:
                sa = env = asg.env(vals)
            if vb and sb is None:
                sb = env = env or asg.env(vals)
            if va and not vb and da is None:
                da = env or asg.env(vals)
            if vb and not va and db is None:
                db = env or asg.env(vals)
        if asg.shrunk and None in (sa, sb, da, db):
            return NotImplemented
        sat.append((sa, sb))
        found.append((da, db))
    for k in (0, 1):  # a true and b false, then the reverse
        if any(s[k] is None for s in sat):
            continue
        for i, f in enumerate(found):
            if f[k] is not None:
                out = {}
                for j, s in enumerate(sat):
                    out.update(f[k] if i == j else s[k])
                return out
    return None


def differ(a, b, extra=(), given=None, signed=False):
    """None if a and b agree under every ordering (restricted to `given`), else a witness assignment."""
    if a == b:
        return None
    if given is not None:
        a, b = conj([a, given]) if ty(a) == "bool" == ty(b) else a, conj([b, given]) if ty(b) == "bool" == ty(a) else b
        if a == b:
            return None
    if ty(a) == "bool" == ty(b):
        a, b = strip_common(a, b)
        if a == b:
            return None
        r = by_parts(a, b, extra, signed)
        if r is not NotImplemented:
            return r
    ts = [a, b] + ([given] if given is not None else [])
    try:
        asg = Assignments(ts, extra=extra, signed=signed)
    except Undecided:
        env = near(a, b, given, ts, extra, signed)
        if env is not None:
            return env
        raise
    fa, fb, fg = asg.fn(a), asg.fn(b), asg.fn(given) if given is not None else None
    for vals in asg.points():
        try:
            if (fg is None or fg(vals)) and fa(vals) != fb(vals):
                return asg.env(vals)
        except Undefined:
            continue
    if asg.shrunk:
        env = near(a, b, given, ts, extra, signed)
        if env is not None:
            return env
        raise Undecided("too many orderings to cover all of them")
    return None


def texts_differ(a, b, given):
    """A witness for a choice between decoded texts, one of them of another entry; None when nothing is known."""
    def leaves(x):
        return leaves(x.args[1]) + leaves(x.args[2]) if x.op == "ite" else [x]

    def conds(x):
        return [x.args[0]] + conds(x.args[1]) + conds(x.args[2]) if x.op == "ite" else []
    ls = list(dict.fromkeys(leaves(a) + leaves(b)))
    if not all(x.op == "decode" or is_const(x, str) for x in ls):
        return None
    cs = conds(a) + conds(b) + ([given] if given is not None else [])
    seen = set(walk(tuple(cs)))
    other = [x for x in ls if x.op == "decode" and any(t.op == "sym" and str(t.args[0]).startswith("earlier ") for t in walk((x,)))]
    if not other or any(t in seen for x in ls if x.op == "decode" for t in walk((x.args[0],)) if t.op == "load" and t.args[2][:1] == "c" or t.op == "sym" and str(t.args[0]).startswith("earlier ")):
        return None
    m = {x: const(i + 1) for i, x in enumerate(ls)}
    try:
        return differ(_leaf_subst(a, m), _leaf_subst(b, m), given=given)
    except Undecided:
        return None


def _leaf_subst(x, m):
    return ite(x.args[0], _leaf_subst(x.args[1], m), _leaf_subst(x.args[2], m)) if x.op == "ite" else m[x]


def near(a, b, given, ts, extra, signed):
    """A witness close to an assignment that fulfils all equalities, when there are too many orderings to cover."""
    try:
        asg = Assignments(ts, extra=extra, signed=signed, limit=float("inf"))
    except Undecided:
        return None
    dom = dict(zip(asg.ls, asg.doms))
    bases = []
    for src in (b, a) + (() if given is None else (conj([b, given]), given)):
        env = {l: d[0] for l, d in dom.items()}
        for at in conjuncts_of(src):
            if at in dom:
                env[at] = True
            p = _poly(at.args[0]) if at.op in ("eq0", "lt0") else {}
            ms = [m for m in p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and abs(p[ms[0]]) == 1 and ms[0][0] in env:
                env[ms[0][0]] = -p.get((), 0) * p[ms[0]] - (1 if at.op == "lt0" and p[ms[0]] == 1 else -1 if at.op == "lt0" else 0)
        bases.append(env)

    fa, fb, fg = asg.fn(a), asg.fn(b), asg.fn(given) if given is not None else None
    bounds = {l: (lower(l) if lower(l) is not None else (-1 if signed else 0), upper(l)) for l in asg.ls}

    def ok(env):
        for l, v in env.items():
            if not isinstance(v, bool):
                lo, hi = bounds[l]
                if v < lo or hi is not None and v > hi:
                    return False
        vals = tuple(env[l] for l in asg.ls)
        try:
            return (fg is None or fg(vals)) and fa(vals) != fb(vals)
        except Undefined:
            return False
    try:
        for env in bases:
            if ok(env):
                return env
            for l, d in dom.items():
                for v in d:
                    e = dict(env)
                    e[l] = v
                    if ok(e):
                        return e
            near_ab = [l for l in leaves(a, b) if l in dom][:12]
            for x, y in itertools.combinations(near_ab, 2):
                for vx, vy in itertools.product(dom[x], dom[y]):
                    e = dict(env)
                    e[x], e[y] = vx, vy
                    if ok(e):
                        return e
            nums = [l for l in dom if ty(l) == "int"][:24]
            for x, y in itertools.permutations(nums, 2):
                for dx, dy in ((1, -1), (1, 1), (4, -4)):
                    e = dict(env)
                    e[x] += dx
                    e[y] += dy
                    if ok(e):
                        return e
    except Undecided:
        return None
    return None


def conjuncts_of(c):
    return list(c.args[0]) if c.op == "and" else [c]


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return getattr(t, "show", lambda: repr(t))() if not isinstance(t, str) else t
    op, a = t.op, t.args
    d = depth + 1
    if d > 12:
        return "..."
    if op == "const":
        return repr(a[1])
    if op == "load":
        k = a[2]
        k = f"{k[0]}[{k[1]}]" if isinstance(k, tuple) else k
        return f"{k}@{show(a[0], d)}+{show(a[1], d)}"
    if op == "poly":
        parts = []
        for m, c in sorted(a[0], key=lambda mc: _akey(mc[0])):
            f = "*".join(show(x, d) for x in m)
            parts.append(f if c == 1 and f else (f"{c}*{f}" if f else str(c)))
        return "(" + " + ".join(parts) + ")"
    if op == "lt0":
        return f"{show(a[0], d)} < 0"
    if op == "eq0":
        return f"{show(a[0], d)} == 0"
    if op == "not":
        return f"not({show(a[0], d)})"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(show(x, d) for x in a[0]) + ")"
    if op == "iter":
        return f"i.{_short(a[0])}"
    if op == "phi":
        return f"phi.{_short(a[0])}.{show(a[1], d)}"
    if op == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if op == "bytes":
        return f"bytes({show(a[0], d)}+{show(a[1], d)}, len={show(a[2], d) if a[2] is not None else 'end'})"
    if op == "stream":
        return str(a[0])
    return f"{op}({', '.join(show(x, d) if isinstance(x, (Term, tuple)) or hasattr(x, 'show') else str(x) for x in a)})"


def _short(x):
    return str(x).rsplit("/", 1)[-1]
