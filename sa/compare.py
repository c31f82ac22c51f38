"""Comparison of derived abstract values with required ones."""
from __future__ import annotations

from sa import terms as T
from sa import texts
from sa.terms import FALSE, TRUE, ZERO, Term, const, is_const

VAGUE = {"opaque", "cobject", "loopout", "niter", "loopexit", "item", "tree", "t", "phiroot", "exists", "plen"}
VAGUE_CALLS = {"attr", "getitem", "concat", "slice", "slice3", "contains", "sortidx", "id", "hash", "getsizeof", "excattr"}


def is_vague(x):
    if x.op in VAGUE:
        return True
    if x.op == "phi":
        return True
    if x.op == "call" and x.args[0] in VAGUE_CALLS:
        return True
    if x.op in ("load", "bytes") and isinstance(x.args[0], Term) and x.args[0].op == "call":
        return True  # data made by a function from other data
    return False


def vague(got, want=()):
    """Subterms of got whose meaning is not known, ignoring those the requirement itself speaks of."""
    known = set(T.walk((want,))) if want != () else set()
    return [x for x in T.walk((got,)) if is_vague(x) and x not in known]


class Diff:
    def __init__(self, kind, path, text):
        self.kind, self.path, self.text = kind, path, text

    def __repr__(self):
        return f"{self.kind} at {self.path or '.'}: {self.text}"


def sh(x, n=160):
    s = show_val(x)
    return s if len(s) <= n else s[:n] + "..."


def show_val(x):
    if isinstance(x, Term):
        return T.show(x)
    if isinstance(x, tuple) and x:
        if x[0] == "struct":
            return f"{str(x[1]).rsplit('.', 1)[-1]} at {T.show(x[2])}+{T.show(x[3])}"
        if x[0] == "dict":
            return "{" + ", ".join(f"{T.show(k) if isinstance(k, Term) else k}: {show_val(v)}" + ("" if g == TRUE else f" if {T.show(g)}") for k, g, v in x[1]) + "}"
        if x[0] in ("list", "tuple", "deque"):
            return f"{x[0]}[" + ", ".join(show_val(s) for s in x[1]) + "]"
        if x[0] == "item":
            return show_val(x[2]) + ("" if x[1] == TRUE else f" if {T.show(x[1])}")
        if x[0] == "loop":
            return f"({', '.join(show_val(s) for s in x[3])} repeated {T.show(x[2]) if x[2] is not None else 'without end'} times" + \
                (f" until {' or '.join(T.show(b) for b in x[4])}" if x[4] else "") + ")" + ("" if x[1] == TRUE else f" if {T.show(x[1])}")
        if x[0] == "ite":
            return f"({show_val(x[2])} if {T.show(x[1])} else {show_val(x[3])})"
        return f"{x[0]}({', '.join(sh(y, 60) for y in x[1:])})"
    return str(x)


def under(x, given):
    """The alternative of a conditional value that a known fact leaves."""
    if given is None or not isinstance(x, Term) or not any(y.op == "ite" for y in T.walk((x,))):
        return x
    m = {}
    for c in given.args[0] if given.op == "and" else [given]:
        if c not in (TRUE, FALSE):
            m[c], m[T.neg(c)] = TRUE, FALSE
    return T.subst(x, m)


def cmp_term(got, want, path, given=None, signed=False, clamp=False):
    got, want = under(got, given), under(want, given)
    if got == want:
        return []
    if not isinstance(got, Term) or not isinstance(want, Term):
        v = vague(got, want)
        if v:
            return [Diff("unk", path, f"{sh(v[0], 80)}")]
        return [Diff("ne", path, f"found {sh(got)}, required {sh(want)}")]
    t = texts.compare(got, want, given)
    if t is not None and t[0] != "unk":
        return [] if t[0] == "eq" else [Diff("ne", path, f"found {sh(got)}, required {sh(want)} (for the bytes {t[1]!r} it is {t[2]!r}, required {t[3]!r})")]
    v = vague(got, want)
    if t is not None and not v:
        if T.texts_differ(got, want, given) is not None:
            return [Diff("ne", path, f"found {sh(got)}, required {sh(want)}")]
        return [Diff("unk", path, f"cannot compare {sh(got)} with {sh(want)}")]
    if v:
        why = T.unknowns(v[0]) or [T.show(v[0])]
        return [Diff("unk", path, f"not determined ({str(why[0])[:120]})")]
    a, b = got, want
    if clamp:
        a, b = T.tmin([ZERO, a], "max"), T.tmin([ZERO, b], "max")
        if a == b:
            return []
    num_a, num_b = T.ty(a) in ("int", "bool"), T.ty(b) in ("int", "bool")
    if num_a and num_b:
        try:
            w = T.differ(a, b, given=given, signed=signed)
        except (T.Undecided, RecursionError) as e:
            return [Diff("unk", path, f"cannot compare {sh(got)} with {sh(want)}: {e}")]
        if w is None:
            return []
        ws = ", ".join(f"{T.show(k)}={x}" for k, x in list(w.items())[:4])
        return [Diff("ne", path, f"found {sh(got)}, required {sh(want)}" + (f" (they differ when {ws})" if ws else ""))]
    if isinstance(a, Term) and (a.op == "ite" or b.op == "ite"):
        m = {}
        ia, ib = numbered(a, m), numbered(b, m)
        try:
            w = T.differ(ia, ib, given=given, signed=signed)
        except (T.Undecided, RecursionError) as e:
            return [Diff("unk", path, f"cannot compare {sh(got)} with {sh(want)}: {e}")]
        if w is None:
            return []
        ws = ", ".join(f"{T.show(k)}={x}" for k, x in list(w.items())[:4])
        return [Diff("ne", path, f"found {sh(got)}, required {sh(want)} (they differ when {ws})")]
    return [Diff("ne", path, f"found {sh(got)}, required {sh(want)}")]


def numbered(t, m):
    """A choice between values as a choice between numbers, equal values having the same number."""
    if t.op == "ite":
        return T.ite(t.args[0], numbered(t.args[1], m), numbered(t.args[2], m))
    if t not in m:
        m[t] = const(1000 + len(m))
    return m[t]


def cmp_cond(got, want, path, given=None, signed=False):
    return cmp_term(got, want, path, given, signed)


def strip(segs):
    return [s for s in segs if not (s[0] in ("item", "loop") and s[1] == FALSE)]


def cmp_val(got, want, path="", given=None, order=False, signed=True):
    """Differences between two snapshots."""
    if got == want:
        return []
    if isinstance(want, Term) or isinstance(got, Term):
        if isinstance(got, tuple) and got and got[0] == "ite":
            return gate(got, want, path, given, order, signed)
        return cmp_term(got, want, path, given, signed)
    if isinstance(got, tuple) and got and got[0] == "ite" and not (isinstance(want, tuple) and want and want[0] == "ite"):
        return gate(got, want, path, given, order, signed)
    if not isinstance(got, tuple) or not isinstance(want, tuple) or not got or not want:
        return [] if got == want else [Diff("ne", path, f"found {sh(got)}, required {sh(want)}")]
    k = want[0]
    if k == "same":  # anything that equals a given key, e.g. a struct by its name only
        return []
    if k in ("seqlike",):
        k = got[0] if got[0] in ("list", "tuple") else "list"
        want = (k,) + want[1:]
    if got[0] != k:
        v = vague(got, want)
        if v or got[0] in ("object", "gone", "value", "ext", "generator", "cycle") and got[0] != k:
            return [Diff("unk" if v else "ne", path, f"found {sh(got)}, required {sh(want)}")]
        return [Diff("ne", path, f"found {sh(got)}, required {sh(want)}")]
    out = []
    if k == "tuple":
        if len(got[1]) != len(want[1]):
            return [Diff("ne", path, f"found {len(got[1])} elements, required {len(want[1])}")]
        for n, (a, b) in enumerate(zip(got[1], want[1])):
            out += cmp_val(a, b, f"{path}[{n}]", given, order, signed)
        return out
    if k in ("list", "deque"):
        return cmp_segs(got[1], want[1], path, given, order, signed)
    if k == "dict":
        return cmp_dict(got, want, path, given, order, signed)
    if k == "struct":
        if want[1] is not None and got[1] != want[1]:
            out.append(Diff("ne", path, f"found a {got[1]}, required a {want[1]}"))
        out += cmp_term(got[2], want[2], path + "<data>", given, signed)
        out += cmp_term(got[3], want[3], path + "<offset>", given, signed)
        if len(got) > 5:
            out.append(Diff("ne", path, "fields overwritten after decoding: " + sh(got[5])))
        return out
    if k == "ite":
        d = cmp_term(got[1], want[1], path + "<condition>", given, signed)
        if d:
            return d
        return cmp_val(got[2], want[2], path, given, order, signed) + cmp_val(got[3], want[3], path, given, order, signed)
    if k == "inst":
        a, b = dict(got[2]), dict(want[2])
        for n in b:
            if n not in a:
                out.append(Diff("ne", f"{path}.{n}", "attribute missing"))
            else:
                out += cmp_val(a[n], b[n], f"{path}.{n}", given, order, signed)
        return out
    v = vague(got, want)
    return [Diff("unk" if v else "ne", path, f"found {sh(got)}, required {sh(want)}")]


def gate(got, want, path, given, order, signed):
    _, c, a, b = got
    ga = T.conj([x for x in (given, c) if x is not None])
    gb = T.conj([x for x in (given, T.neg(c)) if x is not None])
    out = []
    for g, x in ((ga, a), (gb, b)):
        if g == FALSE:
            continue
        d = cmp_val(x, want, path, g, order, signed)
        if d and reachable(g) is False:
            continue
        for y in d:
            out.append(Diff(y.kind if not vague(c) else "unk", y.path, f"{y.text} when {sh(g, 100)}"))
    return out


def reachable(g):
    try:
        return T.differ(g, FALSE) is not None
    except (T.Undecided, RecursionError):
        return None


def cmp_dict(got, want, path, given, order, signed):
    out = []
    if got[2]:
        v = T.opaque("keys added in a loop")
        return [Diff("unk", path, "keys added in a loop")]
    if got[3] != want[3]:
        kind = "unk" if vague(got[3] or (), want) else "ne"
        return [Diff(kind, path, f"found a mapping based on {sh(got[3])}, required {sh(want[3])}")]
    a = {key(k): (g, v) for k, g, v in got[1]}
    b = {key(k): (g, v) for k, g, v in want[1]}
    if any(isinstance(k, Term) and not is_const(k) for k in a):
        return [Diff("unk", path, f"key not determined: {sh(next(k for k in a if isinstance(k, Term) and not is_const(k)))}")]
    for k in b:
        p = f"{path}[{k!r}]"
        if k not in a:
            out.append(Diff("ne", p, "entry missing"))
            continue
        out += cmp_term(a[k][0], b[k][0], p + "<present>", given, signed)
        g = b[k][0]
        out += cmp_val(a[k][1], b[k][1], p, given if g == TRUE else T.conj([x for x in (given, g) if x is not None]), order, signed)
    for k in a:
        if k not in b and a[k][0] != FALSE:
            d = cmp_term(a[k][0], FALSE, f"{path}[{k!r}]<present>", given, signed)
            if d:
                out.append(Diff(d[0].kind, f"{path}[{k!r}]", f"unexpected entry {sh(a[k][1])}"))
    if order and not out:
        ka, kb = [key(k) for k, g, _ in got[1] if g != FALSE], [key(k) for k, _, _ in want[1]]
        if ka != kb:
            out.append(Diff("ne", path, f"entries in order {ka}, required {kb}"))
    return out


def key(k):
    return T.cval(k) if isinstance(k, Term) and is_const(k) else k


def cmp_segs(ga, wa, path, given, order, signed):
    ga, wa = strip(ga), strip(wa)
    if ga == wa:
        return []
    if len(ga) != len(wa):
        v = vague(tuple(ga), tuple(wa))
        if any(s[0] == "prev" for s in ga):
            v = v or [True]
        if v:
            return [Diff("unk", path, "list contents not determined: " + sh(("list", tuple(ga))))]
        return [Diff("ne", path, f"found {sh(('list', tuple(ga)))}, required {sh(('list', tuple(wa)))}")]
    out = []
    for n, (a, b) in enumerate(zip(ga, wa)):
        p = f"{path}[{n}]" if len(wa) > 1 else f"{path}[]"
        if a[0] != b[0]:
            v = vague(a, b)
            out.append(Diff("unk" if v or a[0] == "prev" else "ne", p, f"found {sh(a)}, required {sh(b)}"))
            continue
        some = given  # a repetition that is left out when its count is zero is the same repetition
        if b[0] == "loop" and isinstance(b[2], Term) and a[1] != b[1]:
            some = T.conj([x for x in (given, T.compare(">", b[2], ZERO)) if x is not None])
        out += cmp_term(a[1], b[1], p + "<present>", some, signed)
        if a[0] == "item":
            out += cmp_val(a[2], b[2], p, given, order, signed)
        elif a[0] == "loop":
            if (a[2] is None) != (b[2] is None):
                out.append(Diff("ne", p + "<count>", f"found {sh(a[2])}, required {sh(b[2])}"))
            elif a[2] is not None:
                out += cmp_term(a[2], b[2], p + "<count>", given, signed, clamp=True)
            out += cmp_term(T.disj(list(a[4])), T.disj(list(b[4])), p + "<end>", given, signed)
            gi = T.conj([x for x in (given, T.neg(T.disj(list(b[4])))) if x is not None])
            gi = None if gi == TRUE else gi
            ga2 = [(s[0], T.conj([s[1], T.neg(T.disj(list(a[4])))]) if a[4] and s[0] != "prev" else s[1]) + tuple(s[2:]) for s in a[3]]
            wa2 = [(s[0], T.conj([s[1], T.neg(T.disj(list(b[4])))]) if b[4] and s[0] != "prev" else s[1]) + tuple(s[2:]) for s in b[3]]
            out += cmp_segs(ga2, wa2, p, None, order, signed)
    return out
