"""What generate_statistics does for one sample, in terms of the position p of its record."""
from __future__ import annotations

import copy

from sa import terms as T
from sa.compare import cmp_term, vague
from sa.ctx import H, NEWEST, RAW, VERSIONS, equalities, fn_where, has_cgroups, word
from sa.expect import Layouts
from sa.interp import Event
from sa.terms import FALSE, TRUE, ZERO, Term, conj, const, disj, neg
from sa.values import conjuncts

P = Term("sym", "p", "int")
FLAG = T.truthy(Term("sym", "raise_on_truncation", "bool"))
LIMIT = Term("sym", "max_samples", "int")


class Sample:
    """The sample loop of one run, normalised."""

    def __init__(self, ctx, v, variant, r, own=None):
        self.ctx, self.v, self.variant, self.r = ctx, v, variant, r
        self.own = own or v  # the version the log states; v is the one whose layouts apply
        self.cgroups = has_cgroups(self.own)
        self.name = f"{self.own} ({'header read' if not variant else 'header given' if variant is True else 'header lengths unchecked'})"
        self.where = fn_where(ctx, H + "generate_statistics")
        self.problem = None
        self.lid = self.phi = None
        ys = r.of("yield")
        self.eq = {k: x for k, x in equalities(r.st.pc).items()}
        self.yields = ys
        if not ys:
            self.problem = "nothing is yielded"
            return
        loops = {l for e in ys for l in e.loops}
        # The sample loop is the loop that moves the file position.
        cand = [(l, ph) for l, info in r.loops.items() for ph in info.phis if ph.op == "phi" and ph.args[1] == ("pos", r.stream.oid)]
        live = [(l, ph) for l, ph in cand if any(e.kind in ("read", "yield") and l in e.loops for e in r.events)]
        if len(live) != 1:
            self.problem = f"{len(live)} loops move the file position"
            return
        self.lid, self.phi = live[0]
        self.info = r.loops[self.lid]
        self.start, self.next = self.info.phis[self.phi]

    def norm(self, x):
        return T.subst(T.subst(x, {self.phi: P} if self.phi is not None else {}), self.eq)

    def histories(self):
        """(which, substitution, what must have happened before) for the first samples of a log."""
        k = Term("iter", self.lid)
        first = {ph: T.subst(init, self.eq) for ph, (init, _) in self.info.scalars.items() if ph != self.phi}
        first[k] = ZERO
        here = dict(first)
        here[self.phi] = const(480)
        second = {ph: T.subst(T.subst(nxt, here), self.eq) for ph, (_, nxt) in self.info.scalars.items() if ph != self.phi}
        second[k] = T.ONE
        again = neg(T.subst(T.subst(disj([without_fails(x[0]) for x in self.info.breaks]), here), self.eq))
        many = T.compare(">", LIMIT, const(8))
        return [("the first sample", first, many), ("the second sample", second, conj([again, many]))]

    def diffs(self, got, want, path="", given=None, signed=False, clamp=False):
        """Compares a condition or number of one iteration, the first two iterations too if it depends on earlier ones."""
        ds = cmp_term(got, want, path, given, signed, clamp)
        if not ds or ds[0].kind == "ne" or self.lid is None or not isinstance(got, Term):
            return ds
        for name, m, pc in self.histories():
            g = T.subst(got, m)
            if vague((g, pc)):
                continue
            hs = cmp_term(g, want, path, conj([x for x in (given, pc) if x is not None]), signed, clamp)
            if hs and hs[0].kind == "ne":
                hs[0].text = f"for {name}: {hs[0].text}"
                return hs
        return ds

    def inside(self, e):
        return self.lid in e.loops

    def reads(self):
        """Read events of one iteration, in order."""
        return [e for e in self.r.of("read") if self.inside(e) and e.data["stream"] == "raw_file"]


def world(r, flag):
    """The part of a run that can happen for one value of raise_on_truncation."""
    m = {FLAG: flag}
    w = copy.copy(r)
    w.events = []
    for e in r.events:
        g, outer = T.subst(e.guard, m), tuple(T.subst(o, m) for o in e.outer)
        if conj(list(outer) + [g]) == FALSE:
            continue
        e2 = Event(e.kind, g, outer, e.line, e.path, e.func, e.loops, e.tries, e.data, e.idx, e.node)
        if e.kind == "handler":
            e2.data = dict(e.data, completes=T.subst(e.completes, m), hcond=T.subst(e.hcond, m), exits=[(k, T.subst(g, m), i) for k, g, i in e.exits])
        w.events.append(e2)
    live = {l for e in w.events for l in e.loops}
    w.loops = {l: i for l, i in r.loops.items() if l in live}
    return w


def views(ctx, v, variant, r, own=None):
    """[(flag, Sample)]: one for the whole run, or one for each value of raise_on_truncation where that decides between loops."""
    s = Sample(ctx, v, variant, r, own)
    if s.problem:
        both = [(b, Sample(ctx, v, variant, world(r, b), own)) for b in (TRUE, FALSE)]
        if not any(x.problem for _, x in both):
            for b, x in both:
                x.name += f" ({'raising' if b == TRUE else 'lenient'})"
            return both
    return [(FLAG, s)]


class Want:
    """The required consumption of one sample at position p."""

    def __init__(self, ctx, v, own=None):
        self.L = Layouts(ctx.layout)
        cg = has_cgroups(own or v)
        self.v = v
        L = self.L
        self.rec = lambda n: L.load(v, "Record", n, RAW, P)
        self.head = lambda n: L.load(v, "Header", n, RAW)
        self.recsize = const(L.size(v, "Record"))
        p = T.add(P, self.recsize)
        self.parts = []  # (name, position, length)
        names = ["scomplen", "pcomplen"] + (["ccomplen", "icomplen"] if cg else [])
        for n in names:
            self.parts.append((n, p, self.rec(n)))
            p = T.add(p, self.rec(n))
        self.end = p
        self.stop = neg(T.lt0(T.sub(ZERO, self.rec("scomplen"))))  # scomplen <= 0
        hdr = [e["name"] for e in L.top(v, "Header")["fields"]]
        self.tstatlen = self.head("tstatlen" if "tstatlen" in hdr else "pstatlen")
        recf = [e["name"] for e in L.top(v, "Record")["fields"]]
        self.tasks = self.rec("nlist" if v == "1.26" else "ndeviat")
        self.cgroups = self.rec("ncgroups") if cg else None

    def part(self, n):
        return next(x for x in self.parts if x[0] == n)


OTHER = ["2.13", "3.0", "3.12", "2.2", "1.30", "1.5", "0.11"]  # versions that are not listed


def samples(ctx, variants=(False, True), tier="quick"):
    for v in VERSIONS:
        for var in variants:
            for _, s in views(ctx, v, var, ctx.gen_run(word(v), var)):
                yield s, Want(ctx, v)
    for own in OTHER:
        for var in variants if tier == "thorough" else variants[:1]:
            for _, s in views(ctx, NEWEST, var, ctx.gen_run(word(own), var), own):
                yield s, Want(ctx, NEWEST, own)


def block(root):
    """(stream, position, length) of the compressed bytes a decompressed block came from, None when it is none."""
    if isinstance(root, Term) and root.op == "decomp" and isinstance(root.args[0], Term) and root.args[0].op == "bytes":
        b = root.args[0]
        return b.args[0], b.args[1], b.args[2]
    return None


def parts_of(e):
    """The four values of a yielded group, or None."""
    val = e.data["value"]
    if isinstance(val, tuple) and val and val[0] in ("tuple", "list") and len(val[1]) == 4:
        xs = val[1] if val[0] == "tuple" else [s[2] for s in val[1] if s[0] == "item"]
        return xs if len(xs) == 4 else None
    return None


def without_fails(c):
    """A condition when no modelled step fails."""
    m = {t: FALSE for t in T.walk((c,)) if t.op == "fails"}
    return T.subst(c, m) if m else c


def no_short(c):
    """...and all decompressed data is long enough."""
    return without_fails(c)
