"""C07: the task list holds every task the record declares, in order."""
from __future__ import annotations

from sa import terms as T
from sa.compare import cmp_segs, cmp_term, sh, vague
from sa.convert import prefix
from sa.samples import block, parts_of, samples, without_fails
from sa.terms import FALSE, TRUE, ZERO, Term, conj, const, neg

COUNT = "as many tasks as the record declares"
SLOT = "task n is decoded from slot n"
SHORT = "missing tasks raise an error"
K = Term("iter", "#0")


def check(ctx, rep, tier):
    for s, w in samples(ctx, (False, True, "loose"), tier):
        rep.cover("runs")
        if s.problem:
            rep.unk(COUNT, s.name, s.where, s.problem)
            continue
        for e in s.yields:
            xs = parts_of(e)
            if xs is None:
                rep.unk(COUNT, s.name, e.where, "the yielded group is not determined")
                continue
            judge(rep, s, w, e, xs[2])


def judge(rep, s, w, e, ts):
    if isinstance(ts, tuple) and ts and ts[0] == "sorted" and ts[1] == TRUE:
        rep.bad(COUNT, s.name, e.where, "in an order that depends on what the entries contain")
        return
    x = norm_list(s, ts)
    if x is None:
        (rep.unk if not isinstance(ts, Term) or vague((ts,)) else rep.bad)(COUNT, s.name, e.where, f"task list not determined: {sh(ts)}")
        return
    segs = [prefix(g) for g in x if g[1] != FALSE]
    loops = [g for g in segs if g[0] == "loop"]
    if len(segs) != 1 or not loops:
        (rep.unk if vague(tuple(segs)) or any(g[0] == "prev" for g in segs) else rep.bad)(
            COUNT, s.name, e.where, f"found {sh(('list', tuple(segs)))}, required one task per declared task")
        return
    _, g, trip, items, breaks = segs[0]
    where = list_where(s, e)
    given = neg(w.stop)
    if g != TRUE:
        # An empty list needs no loop: the guard may exclude a count of zero.
        rep.cond(COUNT, s.name + "<present>", where, conj([without_fails(g)]), TRUE, conj([given, T.compare(">", w.tasks, ZERO)]))
    if trip is None:
        (rep.unk if vague(tuple(breaks)) else rep.bad)(COUNT, s.name, where, f"tasks are decoded until {sh(tuple(breaks))}, not as many as declared")
    else:
        rep.diffs(COUNT, s.name, where, cmp_term(trip, w.tasks, "", given, True, clamp=True))
    br = without_fails(T.disj(list(breaks)))
    rep.diffs(SHORT, s.name, where, cmp_term(br, FALSE, "<the list ends early>", conj([given, T.compare("<", K, w.tasks)])))
    if len(items) != 1 or items[0][0] != "item":
        (rep.unk if vague(tuple(items)) else rep.bad)(COUNT, s.name, where, f"{len(items)} entries per declared task: {sh(tuple(items))}")
        return
    ig = without_fails(items[0][1])
    if breaks:
        ig = conj([ig, TRUE])
    elif ig != TRUE:
        rep.diffs(COUNT, s.name, where, cmp_term(ig, TRUE, "<kept>", None))
    t = items[0][2]
    if not (isinstance(t, tuple) and t and t[0] == "struct"):
        (rep.unk if vague((t,)) or isinstance(t, tuple) and t and t[0] in ("ite", "inst", "ext") else rep.bad)(SLOT, s.name, where, f"found {sh(t)}")
        return
    root, off = t[2], t[3]
    b = block(root)
    if b is None:
        (rep.unk if vague((root,)) else rep.bad)(SLOT, s.name, where, f"decoded from {sh(root)}")
    else:
        rep.eq(SLOT, s.name + "<block>", where, b[1], w.part("pcomplen")[1])
    rep.eq(SLOT, s.name, where, off, T.mul(K, s.norm(w.tstatlen)))


def list_where(s, e):
    ms = [x for x in s.r.of("mayraise") if x.exc == "ValueError" and x.data.get("short") and s.inside(x) and len(x.loops) > 1]
    return ms[0].where if ms else e.where


def norm_list(s, ts):
    """The segments of a list, in terms of p."""
    ts = s.norm(ts) if isinstance(ts, tuple) else ts
    if isinstance(ts, tuple) and ts and ts[0] == "list":
        return list(ts[1])
    if isinstance(ts, tuple) and ts and ts[0] == "ite":
        a, b = norm_list(s, ts[2]), norm_list(s, ts[3])
        if a is None or b is None:
            return None
        c = ts[1]
        return [(g[0], conj([c, g[1]])) + tuple(g[2:]) for g in a] + [(g[0], conj([neg(c), g[1]])) + tuple(g[2:]) for g in b]
    return None
