"""C12: every parseable column reports the statistic it is named after."""
from __future__ import annotations

from sa import terms as T
from sa.compare import cmp_dict, cmp_term, sh, vague
from sa.convert import entries, is_decode, relax
from sa.parse import K, parses
from sa.terms import TRUE

RULE = "column equals its documented statistic"


def rows(segs, given=TRUE):
    """(inside a loop, condition, row) of every row of a list."""
    for s in segs:
        if s[0] == "item":
            yield False, T.conj([given, s[1]]), s[2]
        elif s[0] == "loop":
            g = T.conj([given, s[1], T.neg(T.disj(list(s[4])))])
            for inner, g2, r in rows(s[3], g):
                yield (True if not inner else None), g2, r


def check(ctx, rep, tier):
    for c in parses(ctx, rep, RULE):
        rep.cover("formats")
        if not c.run.alive:
            rep.unk(RULE, c.name, c.where, "never returns rows")
            continue
        if not (isinstance(c.got, tuple) and c.got[0] == "list"):
            rep.unk(RULE, c.name, c.where, f"rows not determined: {sh(c.got)}")
            continue
        (inloop, _, want), = list(rows(c.want[1]))
        found = list(rows(c.got[1]))
        if not found:
            rep.unk(RULE, c.name, c.where, "no row was found")
        for lp, g, got in found:
            if lp is not inloop:
                rep.unk(RULE, c.name, c.where, "rows are not made as one per entry")
                continue
            if not (isinstance(got, tuple) and got[0] == "dict"):
                d = [x for x in flat(got)]
                if not d:
                    rep.unk(RULE, c.name, c.where, f"row not determined: {sh(got)}")
                    continue
            else:
                d = [(TRUE, got)]
            for g2, row in d:
                one(rep, c, T.conj([g, g2]), row, want)


def flat(v, g=TRUE):
    if isinstance(v, tuple) and v and v[0] == "ite":
        return flat(v[2], T.conj([g, v[1]])) + flat(v[3], T.conj([g, T.neg(v[1])]))
    return [(g, v)] if isinstance(v, tuple) and v and v[0] == "dict" else []


def once(c, x, w, given):
    """Value x as it is when the loops it was worked out by turn once, or find zeros from the second turn on, and the condition for it; None when it depends on no such loop."""
    outs = [t for t in T.walk((x,)) if t.op == "loopout"] if isinstance(x, T.Term) else []
    known = set(T.walk((x, w) + ((given,) if given is not None else ())))
    m, conds = {}, [given] if given is not None else []
    for t in outs:
        info = c.run.loops.get(t.args[0])
        key = t.args[1]
        if info is None or info.trip is None or info.breaks or not isinstance(key, tuple) or key[0] != "env":
            return None
        first = {ph: init for ph, (init, _) in info.scalars.items()}
        mine = [nxt for ph, (_, nxt) in info.scalars.items() if ph.args[1] == key[1]]
        if len(mine) != 1:
            return None
        turns = T.cval(info.trip) if T.is_int_const(info.trip) else 1
        if not 0 < turns <= 128:
            return None
        for n in range(turns):
            step = {T.Term("iter", info.space): T.const(n)}
            nxts = {ph: T.subst(nxt, step) for ph, (_, nxt) in info.scalars.items()}
            if n:
                # All statistics of the later turns may be zero.
                zero = {y: T.ZERO for nxt in nxts.values() for y in T.walk((nxt,)) if y.op == "load" and T.ty(y) == "int" and y not in known}
                nxts = {ph: T.subst(nxt, zero) for ph, nxt in nxts.items()}
            first = {ph: T.subst(nxt, first) for ph, nxt in nxts.items()}
            last = next(nxt for ph, nxt in first.items() if ph.args[1] == key[1])
        m[t] = last
        if not T.is_int_const(info.trip):
            conds.append(T.compare("==", info.trip, T.ONE))
    return (T.subst(x, m), T.conj(conds)) if m else None


def one(rep, c, g, row, want):
    a = {k: v for k, v in entries(row).items() if v[0] != T.FALSE}
    b = entries(want)
    given = None if g == TRUE else g
    for k, (_, w) in b.items():
        rep.cover("columns")
        name = f"{c.name}.{k}"
        if k not in a:
            if row[2] or row[3] is not None or any(isinstance(x, T.Term) for x in a):
                rep.unk(RULE, name, c.where, "keys not determined")
            else:
                rep.bad(RULE, name, c.where, "the column is missing")
            continue
        if a[k][0] != TRUE:
            rep.cond(RULE, name + "<present>", c.where, a[k][0], TRUE, given)
        got = relax(a[k][1], w)
        again = once(c, got, w, given)
        if again is not None and (ds := cmp_term(again[0], w, "", again[1], True)) and ds[0].kind == "ne" and not vague((again[0],)):
            ds[0].text = f"{ds[0].text}"
            rep.diffs(RULE, name, c.where, ds)
            continue
        rep.eq(RULE, name, c.where, got, w, given)
    for k in a:
        if k not in b:
            kk = T.show(k) if isinstance(k, T.Term) else k
            if isinstance(k, T.Term):
                rep.unk(RULE, f"{c.name}.{kk}", c.where, "column not determined")
            # A further column is an addition, not a wrong statistic.
