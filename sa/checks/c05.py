"""C05: one group per record, in order, until the end or the limit."""
from __future__ import annotations

from sa import terms as T
from sa.compare import cmp_term, sh, vague
from sa.ctx import RAW, VERSIONS, has_cgroups, leaf_items, word
from sa.samples import LIMIT, P, Sample, parts_of, samples, without_fails
from sa.terms import FALSE, TRUE, ZERO, Term, conj, const, disj, neg
from sa.values import conjuncts

ONE = "one group per record"
END = "ends exactly at the first record without system data"
MAX = "never more than the requested maximum"
WHEN = "yielded once its own bytes are read and before any other"
DEFAULT = "one sample per second of a day when no maximum is requested"
DAY = const(86400)
GROUP = "the group is (record, system data, tasks, cgroups) of that record"


def check(ctx, rep, tier):
    for s, w in samples(ctx, tier=tier):
        rep.cover("runs")
        if s.problem:
            if s.problem == "nothing is yielded":
                rep.bad(ONE, s.name, s.where, "nothing is ever yielded")
            else:
                streamed(rep, s)
                rep.unk(ONE, s.name, s.where, s.problem)
            continue
        inside = [e for e in s.yields if s.inside(e)]
        outside = [e for e in s.yields if not s.inside(e)]
        for e in outside:
            if e.full_guard() != FALSE:
                late = not inside and all(x.idx < e.idx for x in s.reads())
                (rep.unk if vague((e.guard,)) and not late else rep.bad)(WHEN, s.name, e.where, "yields outside the loop that reads the samples")
        if not inside:
            continue
        deep = [e for e in inside if e.loops[-1] != s.lid]
        if deep:
            (rep.unk if any(vague((s.r.loops[e.loops[-1]].trip,)) for e in deep if e.loops[-1] in s.r.loops and s.r.loops[e.loops[-1]].trip is not None)
             else rep.bad)(ONE, s.name, deep[0].where, "yields in a loop within the reading of one sample")
            continue
        ahead(rep, s, inside)
        # Number of groups per iteration, and when.
        cond = disj([s.norm(without_fails(e.guard)) for e in inside])
        stop = s.norm(without_fails(disj([x[0] for x in s.info.breaks])))
        base = entry_guard(s)
        given = base
        if len(inside) > 1:
            twice = FALSE
            for i, a in enumerate(inside):
                for b in inside[i + 1:]:
                    twice = disj([twice, conj([s.norm(a.guard), s.norm(b.guard)])])
            rep.cond(ONE, s.name, inside[1].where, conj([twice, given]) if given is not None else twice, FALSE)
        rep.diffs(ONE, s.name, inside[0].where, s.diffs(cond, T.neg(w.stop), "<when>", given))
        # End of the iteration.
        if s.info.trip is None:
            extra = counter(s, w)
            if extra is None:
                rep.diffs(END, s.name, s.where, s.diffs(stop, w.stop, "", given))
                if vague((stop,)) and unlimited(s, stop):
                    rep.bad(MAX, s.name, s.where, f"more samples than requested can be read: the iteration goes on unless {sh(stop)}")
                elif vague((stop,)) and (n := counted(s, stop, cond)):
                    rep.bad(MAX, s.name, s.where, f"{n[1]} samples are read where {n[0]} were requested")
                elif vague((stop,)):
                    rep.unk(MAX, s.name, s.where, f"number of iterations not determined: {sh(stop)}")
                else:
                    rep.bad(MAX, s.name, s.where, "the number of samples is not limited")
            else:
                rep.diffs(END, s.name, s.where, s.diffs(extra, w.stop, "", given))
                rep.ok(MAX, s.name)
        else:
            rep.diffs(END, s.name, s.where, s.diffs(stop, w.stop, "", given))
            rep.diffs(MAX, s.name, s.where, cmp_term(s.norm(s.info.trip), LIMIT, "", None, True, clamp=True))
        # Timing.
        ev = s.reads()
        last = inside[-1]
        before = [e for e in ev if e.idx < inside[0].idx]
        after = [e for e in ev if e.idx > last.idx]
        total = ZERO
        known = set(conjuncts(s.norm(without_fails(disj([x.guard for x in inside])))))
        for e in before:
            g = conj([c for c in conjuncts(s.norm(without_fails(e.guard))) if c not in known])
            n = s.norm(e.data["n"]) if isinstance(e.data["n"], Term) else None
            total = T.add(total, n if g == TRUE else T.ite(g, n, ZERO)) if n is not None and isinstance(total, Term) else None
        want = T.sub(w.end, P)
        if total is None:
            rep.bad(WHEN, s.name, before[-1].where, "reads everything up to the end of the file before yielding")
        elif after:
            for e in after:
                own = within(s, w, e)
                if own is True:
                    rep.bad(WHEN, s.name, e.where, "bytes of the sample are read after it was yielded")
                elif own is None:
                    rep.unk(WHEN, s.name, e.where, "read after the yield")
                else:
                    rep.ok(WHEN)
        else:
            rep.diffs(WHEN, s.name, (before[-1] if before else last).where, s.diffs(total, want, "<bytes read before the yield>", None))
        # The group.
        for e in inside:
            group(ctx, rep, s, w, e)
    for v in VERSIONS:
        default(ctx, rep, v)


def default(ctx, rep, v):
    """The limit that applies when the caller names none."""
    s = Sample(ctx, v, False, ctx.gen_run(word(v), False, False))
    s.name = f"{v} (default arguments)"
    rep.cover("runs")
    if s.problem:
        rep.unk(DEFAULT, s.name, s.where, s.problem)
    elif s.info.trip is not None:
        rep.diffs(DEFAULT, s.name, s.where, cmp_term(s.norm(s.info.trip), DAY, "", None, True, clamp=True))
    else:
        stop = s.norm(without_fails(disj([x[0] for x in s.info.breaks])))
        lim = T.compare(">=", Term("iter", s.lid), DAY)
        if lim in (stop.args[0] if stop.op == "or" else [stop]):
            rep.ok(DEFAULT, s.name)
        else:
            rep.unk(DEFAULT, s.name, s.where, f"the end of the iteration is not determined: {sh(stop)}")


def ahead(rep, s, inside):
    """Bytes read before the yield that are only kept for a later iteration."""
    oids, terms, out = set(), set(), set()
    for o, t in s.info.carried.values():
        oids |= o
        terms |= {x for x in T.walk(tuple(t)) if x.op == "bytes"}
    values = [y.data["value"] for y in inside]
    for y in inside:
        out |= y.data["refs"]
    for e in s.reads():
        if e.idx > inside[0].idx:
            continue
        b = e.data["buf"]
        mine = [t for t in terms if t.args[1] == e.data["pos"]]
        if b is not None and b in oids and b not in out or b is None and mine and not any(t in set(T.walk((v,))) for t in mine for v in values):
            rep.bad(WHEN, s.name, e.where, "bytes read before the yield are not those of the sample but kept for a later one")
        else:
            rep.ok(WHEN)


def entry_guard(s):
    """What always holds when an iteration starts."""
    outer = [s.norm(without_fails(x)) for x in s.yields[0].outer]
    return conj(outer) if outer else None


def streamed(rep, s):
    """Yields in a loop that reads nothing while another loop reads: the samples were collected first."""
    for e in s.yields:
        if e.loops and not any(x.kind == "read" and e.loops[0] in x.loops for x in s.r.events):
            if any(x.kind == "read" and x.loops for x in s.r.events):
                rep.bad(WHEN, s.name, e.where, "yields in a loop that reads nothing: samples are held back")
                return


def unlimited(s, stop):
    """Whether a second sample can be read although only one was requested."""
    (_, first, _), (_, second, _) = s.histories()
    go = [T.subst(neg(T.subst(stop, m)), {LIMIT: T.ONE, P: at}) for m, at in ((first, const(480)), (second, P))]
    if vague(tuple(go)):
        return False
    try:
        return T.differ(conj(go), FALSE) is not None
    except (T.Undecided, RecursionError):
        return False


def counted(s, stop, cond):
    """(samples requested, samples yielded) where the counting of the loop goes wrong; None when it was not seen to."""
    k = Term("iter", s.info.space)
    own = {s.norm(ph): (s.norm(init), s.norm(nxt)) for ph, (init, nxt) in s.info.scalars.items() if T.ty(ph) == "int"}

    def closed(x, names):
        return all(t.op != "load" and (t.op not in ("phi", "sym", "loopout", "plen", "bytes", "opaque", "fails") or t in names or t == LIMIT) for t in T.walk((x,)))
    while True:
        names = set(own)
        less = {ph: v for ph, v in own.items() if all(isinstance(x, Term) and closed(x, names) for x in v)}
        if len(less) == len(own):
            break
        own = less
    ends = [c for c in (stop.args[0] if stop.op == "or" else [stop]) if closed(c, own)]
    gives = [c for c in conjuncts(cond) if closed(c, own)]
    if not own or not ends:
        return None
    if len(own) == 1 and not any(t == k for v in own.values() for t in T.walk(v)) and [v[0] for v in own.values()] == [LIMIT]:
        # One number counted down from the request: after one sample, the loop is where it would start for one less.
        (ph, (_, nxt)), = own.items()
        numbers = {abs(T.cval(t)) for t in T.walk((nxt, *ends)) if T.is_int_const(t)} | {abs(c) for t in T.walk((nxt, *ends)) if t.op == "poly" for mono, c in t.args[0] if not mono}
        for c in sorted(numbers):
            for limit in (c, c + 1, c - 1):
                at = {ph: const(limit), LIMIT: const(limit)}
                left = T.subst(nxt, at)
                if limit > 1 and T.is_int_const(left) and left != const(limit - 1) and all(T.subst(x, at) == FALSE for x in ends) and all(T.subst(x, at) == TRUE for x in gives):
                    return limit, f"another number than one more than with {T.cval(left)}"
    for limit in (1, 2, 3, 10, 50, 1000):
        m = {LIMIT: const(limit)}
        now = {ph: T.subst(init, m) for ph, (init, _) in own.items()}
        n = 0
        for turn in range(limit + 2):
            at = {**m, **now, k: const(turn)}
            if any(not T.is_const(x) for x in now.values()):
                return None
            over = [T.subst(c, at) for c in ends]
            goes = [T.subst(c, at) for c in gives]
            if any(c not in (TRUE, FALSE) for c in over + goes):
                return None
            n += FALSE not in goes
            if TRUE in over:
                break
            now = {ph: T.subst(nxt, at) for ph, (_, nxt) in own.items()}
        if n != limit:
            return limit, n
    return None


def within(s, w, e):
    at = s.norm(e.data["pos"])
    d = T.sub(at, w.end)
    if vague((at,)) and at != w.end:
        return None
    return not (T.is_const(d) and T.cval(d) >= 0)


def counter(s, w):
    """For a loop without a trip count: its remaining end condition once the sample limit is taken out."""
    stop = s.norm(without_fails(disj([x[0] for x in s.info.breaks])))
    cs = list(stop.args[0]) if stop.op == "or" else [stop]
    k = Term("iter", s.lid)
    lim = T.compare(">=", k, LIMIT)
    if lim in cs:
        return disj([c for c in cs if c != lim])
    return None


def group(ctx, rep, s, w, e):
    xs = parts_of(e)
    val = e.data["value"]
    if xs is None:
        if isinstance(val, tuple) and val and val[0] in ("tuple", "list", "dict", "struct"):
            rep.bad(GROUP, s.name, e.where, f"yields {sh(val)}")
        else:
            rep.unk(GROUP, s.name, e.where, f"not determined: {sh(val)}")
        return
    rec, ss, ts, cg = xs
    cl = ctx.classes(s.v)
    for what, x, top in (("record", rec, "Record"), ("system data", ss, "SStat")):
        if not (isinstance(x, tuple) and x):
            rep.unk(GROUP, f"{s.name} {what}", e.where, f"not determined: {sh(x)}")
        elif x[0] != "struct":
            (rep.unk if vague((x,)) or x[0] == "ite" else rep.bad)(GROUP, f"{s.name} {what}", e.where, f"found {sh(x)}")
        else:
            root, off = s.norm(x[2]), s.norm(x[3])
            if top == "Record":
                if root.op == "bytes":
                    root, off = root.args[0], T.add(root.args[1], off)
                rep.eq(GROUP, f"{s.name} {what}", e.where, off, P)
            else:
                own(rep, s, w, f"{s.name} {what}", root, e)
    for what, x in (("tasks", ts), ("cgroups", cg)):
        if what == "cgroups" and not s.cgroups:
            if isinstance(x, tuple) and x and x[0] in ("list", "tuple"):
                rep.diffs(GROUP, f"{s.name} {what}", e.where, [] if not x[1] else rep_diff(f"found {sh(x)}, required an empty list"))
                if x[0] != "list":
                    rep.bad(GROUP, f"{s.name} {what}", e.where, "not a list")
            elif isinstance(x, Term) and not vague((x,)):
                rep.bad(GROUP, f"{s.name} {what}", e.where, f"found {sh(x)}, required an empty list")
            else:
                rep.unk(GROUP, f"{s.name} {what}", e.where, f"not determined: {sh(x)}")
            continue
        if isinstance(x, tuple) and x and x[0] == "list":
            rep.ok(GROUP, f"{s.name} {what}")
            for it in leaf_items(x):
                if isinstance(it, tuple) and it and it[0] == "struct":
                    own(rep, s, w, f"{s.name} {what}", s.norm(it[2]), e)
        elif isinstance(x, Term) and not vague((x,)) or isinstance(x, tuple) and x and x[0] in ("generator", "dict", "struct", "deque", "set"):
            rep.bad(GROUP, f"{s.name} {what}", e.where, f"found {sh(x)}, required a list")
        elif not mixed(rep, s, w, f"{s.name} {what}", what, x, e):
            rep.unk(GROUP, f"{s.name} {what}", e.where, f"not determined: {sh(x)}")


def mixed(rep, s, w, name, what, x, e):
    """Reports one of several alternative lists that can be handed out and holds something else than it should."""
    todo = [(TRUE, x)]
    while todo:
        c, y = todo.pop()
        if isinstance(y, tuple) and y and y[0] == "ite":
            todo += [(conj([c, y[1]]), y[2]), (conj([c, neg(y[1])]), y[3])]
        elif isinstance(y, tuple) and y and y[0] == "list":
            wrong = [i for i in leaf_items(y) if isinstance(i, tuple) and i and (i[0] == "inst") != (what == "cgroups") and i[0] in ("inst", "struct")]
            if not wrong:
                continue
            c = s.norm(without_fails(c))
            if vague((c,)):
                continue
            try:
                if T.differ(c, FALSE, given=neg(w.stop)) is None:
                    continue
            except (T.Undecided, RecursionError):
                continue
            rep.bad(GROUP, name, e.where, f"holds {sh(wrong[0])} when {sh(c)}")
            return True
    return False


def rep_diff(text):
    from sa.compare import Diff
    return [Diff("ne", "", text)]


def own(rep, s, w, name, root, e):
    """The data must come from bytes of this very sample."""
    from sa.samples import block
    b = block(root)
    if b is None:
        rep.unk(GROUP, name, e.where, f"source not determined: {sh(root)}")
        return
    d = T.sub(b[1], P)
    if vague((b[1],)):
        rep.unk(GROUP, name, e.where, f"position not determined: {sh(b[1])}")
    elif T.contains(b[1], P):
        rep.ok(GROUP, name)
    else:
        rep.bad(GROUP, name, e.where, f"decoded from bytes at {sh(b[1])}, which are not those of its record")
