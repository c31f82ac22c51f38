"""C08: every cgroup is paired with its own statistics and process ids."""
from __future__ import annotations

from sa import terms as T
from sa.checks.c07 import norm_list
from sa.compare import cmp_term, is_vague, sh, vague
from sa.convert import prefix
from sa.ctx import has_cgroups
from sa.samples import P, block, parts_of, samples, without_fails
from sa.terms import FALSE, TRUE, ZERO, Term, conj, const, neg

COUNT = "as many cgroups as the record declares"
STAT = "statistics start where the previous entry's declared length ended"
PIDS = "process ids are the declared number, right after the previous entry's"
SHORT = "missing bytes raise an error"


def check(ctx, rep, tier):
    for s, w in samples(ctx, (False, True, "loose"), tier):
        if not s.cgroups:
            continue
        rep.cover("runs")
        if s.problem:
            rep.unk(COUNT, s.name, s.where, s.problem)
            continue
        for e in s.yields:
            xs = parts_of(e)
            if xs is None:
                rep.unk(COUNT, s.name, e.where, "the yielded group is not determined")
                continue
            judge(rep, s, w, e, xs[3])


def judge(rep, s, w, e, cg):
    if isinstance(cg, tuple) and cg and cg[0] == "sorted" and cg[1] == TRUE:
        rep.bad(COUNT, s.name, e.where, "in an order that depends on what the entries contain")
        return
    x = norm_list(s, cg)
    if x is None:
        (rep.unk if not isinstance(cg, Term) or vague((cg,)) else rep.bad)(COUNT, s.name, e.where, f"cgroup list not determined: {sh(cg)}")
        return
    segs = [prefix(g) for g in x if g[1] != FALSE]
    if len(segs) != 1 or segs[0][0] != "loop":
        (rep.unk if vague(tuple(segs)) or any(g[0] == "prev" for g in segs) else rep.bad)(
            COUNT, s.name, e.where, f"found {sh(('list', tuple(segs)))}, required one entry per declared cgroup")
        return
    _, g, trip, items, breaks = segs[0]
    given = neg(w.stop)
    where = place(s, e)
    if g != TRUE:
        # A list that is left out when there is nothing to list is the same list.
        rep.cond(COUNT, s.name + "<present>", where, without_fails(g), TRUE, conj([given, T.compare(">", w.cgroups, ZERO)]))
    if trip is None:
        blind = w.cgroups not in (seen := set(T.walk(influences(s, breaks)))) and not [x for x in seen if is_vague(x) and x.op not in ("phi", "loopexit")]
        (rep.unk if vague(tuple(breaks)) and not blind else rep.bad)(
            COUNT, s.name, where, f"cgroups are decoded until {sh(tuple(breaks))}, not as many as declared")
    else:
        rep.diffs(COUNT, s.name, where, cmp_term(trip, w.cgroups, "", given, True, clamp=True))
    rep.diffs(SHORT, s.name, where, diffs(s, without_fails(T.disj(list(breaks))), FALSE, "<the list ends early>", conj([given, T.compare(">", w.cgroups, const(2))])))
    if len(items) != 1 or items[0][0] != "item":
        (rep.unk if vague(tuple(items)) else rep.bad)(COUNT, s.name, where, f"{len(items)} entries per declared cgroup: {sh(tuple(items))}")
        return
    ig = without_fails(items[0][1])
    inst = items[0][2]
    if not (isinstance(inst, tuple) and inst and inst[0] == "inst"):
        (rep.unk if vague((inst,)) or isinstance(inst, tuple) and inst and inst[0] in ("ite", "ext", "tuple", "value") else rep.bad)(
            COUNT, s.name, where, f"entries are {sh(inst)}")
        return
    at = dict(inst[2])
    c, p = fused(at.get("cstat")), fused(at.get("proclist"))
    L = w.L
    nprocs = structlen = None
    if isinstance(c, tuple) and c and c[0] == "struct" and c[1] != "array":
        root, off = c[2], c[3]
        b = block(root)
        if b is None:
            (rep.unk if vague((root,)) else rep.bad)(STAT, s.name, where, f"decoded from {sh(root)}")
        else:
            rep.eq(STAT, s.name + "<block>", where, b[1], w.part("ccomplen")[1])
        structlen = L.load(s.v, "CStat", "gen.structlen", root, off)
        nprocs = L.load(s.v, "CStat", "gen.nprocs", root, off)
        sane = conj([neg(T.lt0(structlen)), neg(T.lt0(nprocs))])
        recurrence(rep, s, STAT, where, off, structlen, "statistics", sane)
        if ig != TRUE and not breaks:
            rep.diffs(COUNT, s.name, where, diffs(s, ig, TRUE, "<kept>", conj([T.compare(">", w.cgroups, const(8)), sane]), ig))
    else:
        (rep.unk if c is None or vague((c,)) or isinstance(c, tuple) and c[0] in ("ite", "ext") else rep.bad)(STAT, s.name, where, f"statistics are {sh(c)}")
    if isinstance(p, tuple) and p and p[0] == "struct" and p[1] == "array":
        root, off = p[2], p[3]
        b = block(root)
        if b is None:
            (rep.unk if vague((root,)) else rep.bad)(PIDS, s.name, where, f"decoded from {sh(root)}")
        else:
            rep.eq(PIDS, s.name + "<block>", where, b[1], w.part("icomplen")[1])
        if nprocs is not None:
            n, elem = array_type(p)
            if n is None:
                rep.unk(PIDS, s.name, where, f"number of ids not determined: {sh(p)}")
            else:
                rep.diffs(PIDS, s.name + "<count>", where, diffs(s, n, nprocs, "", sane))
                if elem != "i4":
                    rep.bad(PIDS, s.name, where, f"ids are decoded as {elem}")
            recurrence(rep, s, PIDS, where, off, T.mul(const(4), nprocs), "process ids", sane)
    elif isinstance(p, tuple) and p and p[0] in ("list", "tuple"):
        rep.unk(PIDS, s.name, where, f"process ids not determined: {sh(p)}")
    else:
        (rep.unk if p is None or vague((p,)) or isinstance(p, tuple) and p[0] in ("ite", "ext") else rep.bad)(PIDS, s.name, where, f"process ids are {sh(p)}")


def influences(s, terms):
    """The terms, and everything the loop-carried values in them are computed from."""
    out, todo = [], list(terms)
    scalars = {ph: x for info in s.r.loops.values() for ph, x in info.scalars.items()}
    seen = set()
    while todo:
        t = todo.pop()
        out.append(t)
        for x in T.walk((t,)):
            if x in scalars and x not in seen and x != s.phi:
                seen.add(x)
                todo += [s.norm(y) for y in scalars[x]]
    return tuple(out)


def entries(s, *terms, keep=None):
    """(name, substitution) for the first entries of the cgroup list: what earlier entries left behind is worked out."""
    used = {x.args[0] for x in T.walk(terms) if x.op == "phi"} - {s.lid}
    for lid in sorted(used):
        info = s.r.loops.get(lid)
        if info is None:
            continue
        k = Term("iter", info.space)
        first = {ph: s.norm(init) for ph, (init, _) in info.scalars.items()}
        first.update({s.norm(ph): x for ph, x in list(first.items())})
        first[k] = ZERO
        sizes = [x for x in dict.fromkeys(T.walk(terms)) if x.op == "plen" and x.args[0] == lid and x not in first]
        if len(sizes) == 1 and keep is not None:
            first[sizes[0]] = ZERO
        second = {ph: T.subst(s.norm(nxt), first) for ph, (_, nxt) in info.scalars.items()}
        second.update({s.norm(ph): x for ph, x in list(second.items())})
        second[k] = T.ONE
        if len(sizes) == 1 and keep is not None:
            second[sizes[0]] = T.ite(T.subst(keep, first), T.ONE, ZERO)
        yield "the first entry", first
        yield "the second entry", second


def diffs(s, got, want, path, given=None, keep=None):
    """Compares a value of one entry; if it depends on earlier entries, for the first two."""
    ds = cmp_term(got, want, path, given, True)
    if not ds or ds[0].kind == "ne" or not isinstance(got, Term):
        return ds
    for name, m in entries(s, got, want, keep=keep):
        g, x, pc = (T.subst(y, m) if isinstance(y, Term) else y for y in (got, want, given))
        if vague((g, x) + ((pc,) if pc is not None else ())):
            continue
        hs = cmp_term(g, x, path, pc, True)
        if hs and hs[0].kind == "ne":
            hs[0].text = f"for {name}: {hs[0].text}"
            return hs
    return ds


def fused(p):
    """A choice between two structures (or arrays) of the same kind in the same data, as one structure at a chosen place."""
    if not (isinstance(p, tuple) and len(p) == 4 and p[0] == "ite"):
        return p
    g, a, b = p[1], fused(p[2]), fused(p[3])
    if not all(isinstance(x, tuple) and x and x[0] == "struct" for x in (a, b)) or a[1:3] != b[1:3] or len(a) != len(b):
        return p
    if a[1] != "array":
        return a[:3] + (T.ite(g, a[3], b[3]),) + a[4:] if a[4:] == b[4:] else p
    (n, e), (m, f) = array_type(a), array_type(b)
    return a[:3] + (T.ite(g, a[3], b[3]), ("array", e, T.ite(g, n, m))) if e == f and n is not None and m is not None else p


def array_type(p):
    """(number of elements, element kind) of an array snapshot."""
    t = p[4] if len(p) > 4 else None
    if isinstance(t, tuple) and t and t[0] == "array":
        return t[2], t[1]
    return None, None


def place(s, e):
    ms = [x for x in s.r.of("mayraise") if x.exc == "ValueError" and x.data.get("short") and s.inside(x) and len(x.loops) > 1 and "cstat" in x.func]
    return ms[-1].where if ms else e.where


def recurrence(rep, s, rule, where, off, step, what, given=None):
    """off must start at zero and advance by step per entry."""
    if not (isinstance(off, Term) and off.op == "phi"):
        k = Term("iter", "#0")
        if isinstance(off, Term) and not vague((off,)):
            rep.bad(rule, s.name, where, f"{what} of entry n start at {sh(off)}")
        else:
            want, found = ZERO, False
            for name, m in entries(s, off):
                got = T.subst(off, m)
                if not vague((got, want)) and not (want == ZERO and any(t.op == "sym" and str(t.args[0]).startswith(("some earlier", "earlier")) for t in T.walk((got,)))):
                    ds = cmp_term(got, want, "", T.subst(given, m) if isinstance(given, Term) else given, True)
                    if ds and ds[0].kind == "ne":
                        ds[0].text = f"for {name}: {ds[0].text}"
                        rep.diffs(rule, f"{s.name} {what}", where, ds)
                        found = True
                        break
                want = T.add(want, T.subst(step, m))
            if not found:
                rep.unk(rule, s.name, where, f"start of {what} not determined: {sh(off)}")
        return
    for lid, info in s.r.loops.items():
        for ph, (init, nxt) in info.phis.items():
            if ph == off or s.norm(ph) == off:
                rep.eq(rule, f"{s.name} {what}<first>", where, s.norm(init), ZERO)
                got = T.subst(s.norm(nxt), {s.norm(ph): off, ph: off})
                rep.diffs(rule, f"{s.name} {what}", where, diffs(s, T.sub(got, off), step, "", given))
                return
    rep.unk(rule, s.name, where, f"start of {what} not determined: {sh(off)}")

