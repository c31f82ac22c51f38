"""C13: parseable formats emit one row per active item, in order."""
from __future__ import annotations

from sa import terms as T
from sa.checks.c10 import counts
from sa.checks.c12 import rows
from sa.compare import cmp_segs, sh, vague
from sa.parse import K, TASK, Columns, parses
from sa.terms import Term, is_const

RULE = "rows are the active items, each once"
ORDER = "row n is item n"


def check(ctx, rep, tier):
    C = Columns(ctx)
    for c in parses(ctx, rep, RULE):
        rep.cover("formats")
        if not c.run.alive:
            rep.bad(RULE, c.name, c.where, "never returns rows")
            continue
        if not (isinstance(c.got, tuple) and c.got[0] == "list"):
            rep.unk(RULE, c.name, c.where, f"rows not determined: {sh(c.got)}")
            continue
        rep.diffs(RULE, c.name, c.where, cmp_segs(counts(c.got[1]), counts(c.want[1]), "", None, False, True))
        order(rep, C, c)
        for e in c.run.of("raise"):
            if c.run.escapes(e):
                g = e.full_guard()
                (rep.unk if vague((g,)) else rep.bad)(RULE, c.name, e.where, f"raises {'/'.join(e.exc)} when {T.show(g)[:160]}")


def order(rep, C, c):
    w = C.formats[c.name]["rows"].split()
    if w[0] == "one":
        return
    for lp, g, row in rows(c.got[1]):
        for t in T.walk((row,)):
            if t.op == "load":
                d = place(C, w, t)
                if d is None:
                    continue
                rep.cover("item accesses")
                if d == "":
                    rep.ok(ORDER, f"{c.name} {T.show(t)}")
                elif d == "?":
                    rep.unk(ORDER, c.name, c.where, f"item not determined: {sh(t)}")
                else:
                    rep.bad(ORDER, c.name, c.where, f"{sh(t)} {d}")
    if w[0] == "count":
        for lp, g, row in rows(c.got[1]):
            if isinstance(row, tuple) and row[0] == "dict":
                for k, _, v in row[1]:
                    if k == T.const("proc"):
                        rep.eq("rows are numbered in order", c.name + ".proc", c.where, v, K)


def place(C, w, t):
    """'' when the load reads item n in row n; None when it does not read an item."""
    root, off = t.args[0], t.args[1]
    if w[0] == "tasks":
        if isinstance(root, Term) and root.op == "elem":
            if root == TASK:
                return ""
            return "?" if vague((root,)) else "does not belong to the task of its row"
        return None
    path = (w[1] if w[0] == "unnamed" else w[3] + "[]").split(".", 1)[1]
    path = path[:path.rindex("[]") + 2] if not path.endswith("[]") else path
    if root != Term("sym", "S", "bytes"):
        return None
    o, sh_ = 0, C.L.top(C.v, "SStat")
    for p in path.split("."):
        e = C.L.field(sh_, p[:-2] if p.endswith("[]") else p)
        o += e["off"]
        if p.endswith("[]"):
            n, stride = e["type"]["n"], e["type"]["stride"]
            break
        sh_ = C.L.shapes[e["type"]]
    if is_const(off):
        c0 = T.cval(off)
        return None if not o <= c0 < o + n * stride else "reads the same item in every row"
    rest = T.sub(off, T.mul(T.const(stride), K))
    if is_const(rest):
        c0 = T.cval(rest) - o
        if 0 <= c0 < stride:
            return ""
        if -stride * n < c0 < stride * n:
            return "reads another item than that of its row"
        return None
    if vague((off,)):
        return "?"
    return "does not read the item of its row" if T.contains(off, K) else None
