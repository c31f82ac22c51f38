"""C16: returned samples are independent snapshots."""
from __future__ import annotations

from sa import terms as T
from sa.compare import sh, vague
from sa.convert import conversions
from sa.ctx import H, VERSIONS, fn_where, word
from sa.parse import parses
from sa.samples import samples
from sa.terms import FALSE, Term
from sa.values import (BufObj, DictObj, ExtObj, GenObj, InstObj, Item, IterObj, ListObj, LoopSeg, Ref, SeqV, StreamObj, StructObj, TupleV)

FRESH = "every object of a sample is created while that sample is read"
APART = "no object is part of two places of a sample"
COPY = "converted data holds nothing of its source"
ROW = "every row is a new mapping"
HEADER = "every header is a new object"
KEPT = "no object of a sample is kept where a later call finds it"
LATER = "nothing handed out is written afterwards"
MUTABLE = (ListObj, DictObj, InstObj, StructObj, BufObj)


def check(ctx, rep, tier):
    for s, w in samples(ctx, tier=tier):
        rep.cover("runs")
        if s.problem:
            rep.unk(FRESH, s.name, s.where, s.problem)
            continue
        for e in s.yields:
            one(ctx, rep, s, e)
            kept(rep, s, e)
        later(rep, s.name, s.r)
    for v in VERSIONS:
        header(ctx, rep, v)
    for c in conversions(ctx, rep, COPY):
        result(ctx, rep, c)
    for c in parses(ctx, rep, ROW):
        rows(ctx, rep, c)


def later(rep, name, r):
    for e in r.of("ymut"):
        rep.bad(LATER, name, e.where, f"{e.data['target']} is written ({e.data['what']}) after it was handed out")
    rep.ok(LATER, name)


def kept(rep, s, e):
    """Objects of the sample that were stored in something that outlives the call."""
    heap = e.data["heap"] or s.r.st.heap
    mine = {o for o in e.data["refs"] if isinstance(heap.get(o), MUTABLE)}
    for x in s.r.of("gmut", "pmut"):
        if x.data.get("oid") == s.r.stream.oid or x.data.get("new") is None:
            continue
        was = reach_of(heap, x.data.get("old"))
        for oid in sorted((reach_of(heap, x.data["new"]) - was) & mine):
            if s.r.alloc[oid].phase == "run":
                rep.bad(KEPT, f"{s.name} {type(heap[oid]).__name__} of {s.r.alloc[oid].func.rsplit('.', 1)[-1]}", x.where,
                        f"{x.data['target']} keeps an object of the sample ({x.data['what']})")
    rep.ok(KEPT, s.name)


def reach_of(heap, o):
    """Objects reachable from a heap object or value."""
    if isinstance(o, (Ref, TupleV, SeqV)):
        vs = [o]
    elif isinstance(o, ListObj):
        vs = [x.value for g in o.segs for x in (g.items if isinstance(g, LoopSeg) else [g]) if isinstance(x, Item)]
    elif isinstance(o, DictObj):
        vs = [y for k, _, v in o.entries for y in (k, v)]
    elif isinstance(o, (InstObj, StructObj)):
        vs = [v for _, v in o.attrs]
    elif hasattr(o, "attrs"):
        vs = [v for _, v in o.attrs]
    else:
        vs = []
    return set().union(*[reach(heap, v) for v in vs]) if vs else set()


def kind(r, oid):
    o = r.st.heap.get(oid)
    return {"ListObj": "list", "DictObj": "mapping", "InstObj": "object", "StructObj": "structure", "BufObj": "data of a structure"}.get(type(o).__name__, "object")


def where_of(r, oid):
    a = r.alloc[oid]
    return f"{a.path}:{a.line} in {a.func}"


def one(ctx, rep, s, e):
    """All objects reachable from a yield."""
    heap = e.data["heap"] or s.r.st.heap
    for oid in sorted(e.data["refs"]):
        o = heap.get(oid)
        a = s.r.alloc[oid]
        if not isinstance(o, MUTABLE):
            continue
        rep.cover("objects of a sample")
        name = f"{s.name} {type(o).__name__} of {a.func.rsplit('.', 1)[-1]}"
        if isinstance(o, BufObj) and not o.mutable:
            rep.ok(FRESH)
        elif a.phase == "module":
            rep.bad(FRESH, name, where_of(s.r, oid), "the sample holds an object that exists once for all calls")
        elif a.phase == "param" or oid in s.r.param_oids:
            rep.bad(FRESH, name, e.where, "the sample holds an object that was passed in")
        elif s.lid not in a.loops and s.inside(e):
            rep.bad(FRESH, name, where_of(s.r, oid), "the sample holds an object created once for all samples")
        else:
            rep.ok(FRESH, f"{name} created at {where_of(s.r, oid)}")
    apart(ctx, rep, s, e, heap)


def apart(ctx, rep, s, e, heap):
    """Objects must not be reachable in two ways; list elements must be made in the loop that appends them."""
    raw = e.data["raw"]
    o = heap.get(raw.oid) if isinstance(raw, Ref) else None
    items = list(raw.items) if isinstance(raw, TupleV) else [x.value for x in o.segs if isinstance(x, Item)] if isinstance(o, ListObj) else None
    if items is None:
        rep.unk(APART, s.name, e.where, "the group was not determined")
        return
    seen = {}
    for n, x in enumerate(items):
        for oid in reach(heap, x):
            if isinstance(heap.get(oid), MUTABLE):
                if oid in seen and seen[oid] != n:
                    rep.bad(APART, f"{s.name} {type(heap[oid]).__name__} in parts {seen[oid]} and {n}", where_of(s.r, oid), "the same object is part of both")
                seen.setdefault(oid, n)
    for oid in list(seen):
        lst = heap.get(oid)
        if isinstance(lst, ListObj):
            elements(rep, APART, s.name, s.r, heap, lst)


def elements(rep, rule, name, r, heap, lst):
    used = {}
    for n, seg in enumerate(lst.segs):
        if isinstance(seg, LoopSeg):
            for it in seg.items:
                if not isinstance(it, Item):
                    continue
                for oid in reach(heap, it.value):
                    o = heap.get(oid)
                    if not isinstance(o, MUTABLE):
                        continue
                    a = r.alloc[oid]
                    deep = any(l == seg.space or r.loops.get(l) is not None and r.loops[l].space == seg.space for l in a.loops)
                    what = f"{name} element {type(o).__name__} of {a.func.rsplit('.', 1)[-1]}"
                    if deep or isinstance(o, BufObj) and not o.mutable:
                        rep.ok(rule)
                    elif isinstance(o, BufObj) and moving(heap, it.value, oid, seg.space):
                        step, size = overlap(r, heap, it.value, oid)
                        if step is None:
                            rep.ok(rule)
                        else:
                            rep.bad(rule, what, where_of(r, oid), f"elements of {sh(size)} bytes are views of it only {sh(step)} bytes apart")
                    elif seg.space in r.loops or len(a.loops) <= len(r.loops.get(seg.space, a).loops):
                        rep.bad(rule, what, where_of(r, oid), "all elements of a list share it")
                    else:
                        rep.unk(rule, what, where_of(r, oid), "elements may share it")
        elif isinstance(seg, Item):
            for oid in reach(heap, seg.value):
                if isinstance(heap.get(oid), MUTABLE):
                    if oid in used:
                        rep.bad(rule, f"{name} {type(heap[oid]).__name__}", where_of(r, oid), "two elements of a list share it")
                    used[oid] = n


def moving(heap, v, buf, space):
    """Whether every view of buffer buf in v sits at an offset that moves with the loop."""
    for oid in reach(heap, v):
        o = heap.get(oid)
        if isinstance(o, StructObj) and o.buf == buf:
            if not any(t.op in ("iter", "phi") for t in T.walk((o.off,))):
                return False
    return True


def overlap(r, heap, v, buf):
    """(distance, size) of the views of a writable buffer that may share bytes, or (None, None)."""
    if not heap[buf].mutable:
        return None, None
    for oid in reach(heap, v):
        o = heap.get(oid)
        if not (isinstance(o, StructObj) and o.buf == buf):
            continue
        size = r.interp.size_term(o.cls)
        for info in r.loops.values():
            for ph, (init, nxt) in info.scalars.items():
                if ph != o.off or not isinstance(nxt, Term):
                    continue
                step = T.sub(nxt, ph)
                if not isinstance(size, Term) or any(x.op != "phi" for x in vague((step, size))):
                    continue
                try:
                    w = T.differ(T.compare("<", step, size), FALSE)
                except (T.Undecided, RecursionError):
                    continue
                if w is not None:
                    return step, size
    return None, None


def reach(heap, v):
    class St:
        pass
    st = St()
    st.heap = heap
    from sa.models import Models
    return Models.reach(None, st, v)


def header(ctx, rep, v):
    for compat in (True, False):
        r = ctx.header_run(word(v), compat)
        if not r.alive:
            rep.unk(HEADER, v, fn_where(ctx, H + "get_header"), "never returns")
            continue
        for oid in sorted(ctx.i.reach(r.st, r.value)):
            o = r.st.heap.get(oid)
            a = r.alloc[oid]
            if not isinstance(o, MUTABLE) or isinstance(o, BufObj) and not o.mutable:
                continue
            rep.cover("header objects")
            if a.phase == "module":
                rep.bad(HEADER, f"{v} {type(o).__name__}", where_of(r, oid), "the header holds an object that exists once for all calls")
            elif oid == r.stream.oid:
                rep.bad(HEADER, f"{v} {type(o).__name__}", where_of(r, oid), "the header holds the stream")
            else:
                rep.ok(HEADER, f"{v} {type(o).__name__}")


def result(ctx, rep, c):
    r = c.run
    if not r.alive:
        rep.unk(COPY, c.name, c.where, "never returns")
        return
    rep.cover("conversions")
    heap = r.st.heap
    for oid in sorted(ctx.i.reach(r.st, r.value)):
        o = heap.get(oid)
        if not isinstance(o, MUTABLE) or isinstance(o, BufObj) and not o.mutable:
            continue
        a = r.alloc[oid]
        what = f"{c.name} {type(o).__name__} of {a.func.rsplit('.', 1)[-1]}"
        if oid in r.param:
            rep.bad(COPY, what, c.where, "the result holds an object of the structure it was made from")
        elif a.phase == "module":
            rep.bad(COPY, what, where_of(r, oid), "the result holds an object that exists once for all calls")
        else:
            rep.ok(COPY)
        if isinstance(o, ListObj):
            elements(rep, COPY, c.name, r, heap, o)


def rows(ctx, rep, c):
    r = c.run
    o = r.st.heap.get(r.value.oid) if isinstance(r.value, Ref) else None
    if not isinstance(o, ListObj):
        rep.unk(ROW, c.name, c.where, "the rows were not determined")
        return
    rep.cover("formats")
    heap = r.st.heap
    elements(rep, ROW, c.name, r, heap, o)
    for oid in sorted(ctx.i.reach(r.st, r.value)):
        x = heap.get(oid)
        a = r.alloc[oid]
        if not isinstance(x, MUTABLE) or isinstance(x, BufObj) and not x.mutable or oid == r.value.oid:
            continue
        what = f"{c.name} {type(x).__name__} of {a.func.rsplit('.', 1)[-1]}"
        if oid in r.param:
            rep.bad(ROW, what, c.where, "a row holds an object of the sample")
        elif a.phase == "module":
            rep.bad(ROW, what, where_of(r, oid), "a row holds an object that exists once for all calls")
        else:
            rep.ok(ROW)
