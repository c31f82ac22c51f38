"""C06: truncated or corrupt data surfaces exactly as requested."""
from __future__ import annotations

from sa import terms as T
from sa.compare import cmp_term, sh, vague
from sa.ctx import H, VERSIONS, find_structs, fn_where, has_cgroups, leaf_items, word
from sa.samples import FLAG, Sample, Want, block, parts_of, views, without_fails
from sa.terms import FALSE, TRUE, Term, conj, disj, neg

CAUGHT = "compression errors end the iteration, and are raised exactly when requested"
OTHER = "no other error is swallowed"
PARTIAL = "no sample is yielded unless all of its data decompressed"
WHOLE = "truncation is noticed: every block is decompressed as a whole"
SHORT = "too little decompressed data is reported as ValueError"
DEFAULT = "raising is the default"
HARMLESS = {"AttributeError", "KeyError", "StopIteration", "IndexError", "LookupError", "NameError", "GeneratorExit"}
ZLIB = "zlib.error"


def check(ctx, rep, tier):
    for v in VERSIONS:
        for var in (False, True):
            r = ctx.gen_run(word(v), var)
            for flag, s in views(ctx, v, var, r):
                rep.cover("runs")
                whole(rep, s)
                handlers(ctx, rep, s, flag)
                order(rep, s)
                complete(rep, s, Want(ctx, v))
                refused(rep, s)
                if not s.problem:
                    short(rep, s)
        r = ctx.gen_run(word(v), False, False)
        s = Sample(ctx, v, False, r)
        s.name = f"{v} (default arguments)"
        rep.cover("runs")
        handlers(ctx, rep, s, TRUE, DEFAULT)


def decompressions(s):
    return s.r.of("decompress")


def whole(rep, s):
    ds = decompressions(s)
    if not ds:
        rep.unk(WHOLE, s.name, s.where, "no decompression found")
    n = {True: 0, False: 0}
    for e in ds:
        t = e.data["term"]
        fails = [x for x in s.r.of("mayraise") if x.exc == ZLIB and x.fails.op == "fails" and len(x.fails.args) > 1 and x.fails.args[1] == e.data["data"]]
        if isinstance(t, Term) and t.op == "decompobj":
            if any(x.kind == "eofcheck" for x in s.r.events):
                rep.unk(WHOLE, s.name, e.where, "stream decompression with a check of its end")
            else:
                rep.bad(WHOLE, s.name, e.where, "decompresses as a stream, which accepts data that was cut short")
        elif not fails:
            rep.unk(WHOLE, s.name, e.where, "the failure of this decompression was not followed")
        else:
            rep.ok(WHOLE, f"{s.name} {e.where}")


def handlers(ctx, rep, s, flag, rule=CAUGHT):
    r = s.r
    where = s.where
    broad(ctx, rep, s)
    # Every compression error is caught once and passed on exactly when asked for.
    for e in r.of("mayraise"):
        if e.exc != ZLIB:
            continue
        hs = r.last_catchers(e)
        if not hs and r.catchers(e):
            rep.unk(rule, s.name, e.where, "what becomes of the error was not followed")
            continue
        for want, m in worlds(e, flag):
            if not hs:
                if want == TRUE:
                    rep.ok(rule, f"{s.name} {e.where}: never caught")
                else:
                    rep.bad(rule, s.name, e.where, "the compression error is raised even when it should end the iteration quietly")
            for h in hs:
                judge_handler(rep, s, e, h, want, rule, m)


def worlds(e, flag):
    """The flag values to judge e under: both at once, unless e can only happen for one of them."""
    if flag != FLAG:
        return [(flag, {})]
    g = e.full_guard()
    live = [b for b in (TRUE, FALSE) if T.subst(g, {FLAG: b}) != FALSE]
    return [(FLAG, {})] if len(live) == 2 else [(b, {FLAG: b}) for b in live]


def judge_handler(rep, s, e, h, flag, rule, m):
    r = s.r
    inh = [x for x in r.events if (h.tryid, h.part) in x.tries]
    re = [x for x in inh if x.kind == "reraise" and x.tryid == h.tryid and r.escapes(x)]
    # Kept by the handler and raised further on.
    re += [x for x in r.of("raise") if x.data.get("again") == (h.tryid, h.part) and x not in inh and r.escapes(x)]
    other = [x for x in inh if x.kind == "raise" and x not in re]
    got = failing(s, e, disj([x.guard for x in re]), m)
    trips = [T.compare("<", Term("iter", l), r.loops[l].trip) for l in e.loops if l in r.loops and isinstance(r.loops[l].trip, Term)]
    given = failing(s, e, conj([e.full_guard()] + trips), m, own=False)
    rep.diffs(rule, s.name, (re[0].where if re else h.where), s.diffs(got, flag, "", given))
    for x in other:
        names = x.exc
        g = failing(s, e, x.full_guard(), m)
        if g == FALSE:
            continue
        if ZLIB in names and flag != FALSE:
            rep.diffs(rule, s.name, x.where, cmp_term(conj([g, neg(flag)]), FALSE, "", given))
        else:
            rep.bad(rule, s.name, x.where, f"raises {'/'.join(map(str, names))} instead of the compression error")
    # Quiet end: nothing follows.
    for y in r.of("yield"):
        if (h.tryid, h.part) in y.tries:
            rep.bad(PARTIAL, s.name, y.where, "yields while handling a compression error")
    if s.lid is not None and s.lid in h.data["in_loops"]:
        inloop(rep, s, e, h)


def parts(c):
    return list(c.args[0]) if c.op == "and" else ([] if c == TRUE else [c])


def drop(c, base):
    """c without the conjuncts known to hold."""
    if c.op == "and":
        return conj([drop(x, base) for x in c.args[0] if x not in base])
    if c.op == "or":
        return disj([drop(x, base) for x in c.args[0]])
    return TRUE if c in base else c


def failing(s, e, c, m, own=True):
    """The condition c in a run where the step e is reached and is the first to fail."""
    x = {}
    for t in T.walk((c, e.full_guard())):
        if t.op == "fails":
            x[t] = FALSE
    x[e.fails] = TRUE
    if own:
        for g in parts(e.full_guard()):
            if g.op not in ("or", "fails"):
                x[neg(g)] = FALSE
                x[g] = TRUE
    c = s.norm(T.subst(c, x))
    return T.subst(c, m) if m else c


def inloop(rep, s, e, h):
    """The handler lies in the sample loop: after it the loop must end without another group."""
    f = e.fails
    allowed = neg(FLAG)
    stop = disj([x[0] for x in s.info.breaks])
    g = conj([e.guard, f, allowed])
    # Conditions under which iteration goes on although this step failed.
    go = conj([g, neg(stop)])
    try:
        w = T.differ(go, FALSE)
    except (T.Undecided, RecursionError) as x:
        rep.unk(CAUGHT, s.name, h.where, f"whether the iteration ends could not be decided: {x}")
        return
    if w is None:
        rep.ok(CAUGHT, f"{s.name} ends at {h.where}")
    elif vague((stop,)) and any(v for v in vague((stop,)) if v.op != "phi"):
        rep.unk(CAUGHT, s.name, h.where, "whether the iteration ends was not determined")
    else:
        rep.bad(CAUGHT, s.name, h.where, "the iteration goes on after a compression error")
    for y in s.yields:
        if s.inside(y) and y.idx > e.idx:
            if h.data["completes"] == FALSE:
                rep.ok(PARTIAL)
                continue
            try:
                w = T.differ(conj([y.guard, g]), FALSE)
            except (T.Undecided, RecursionError):
                rep.unk(PARTIAL, s.name, y.where, "whether a partial sample is yielded could not be decided")
                continue
            if w is None:
                rep.ok(PARTIAL)
            else:
                rep.bad(PARTIAL, s.name, y.where, "yields a sample although decompressing part of it failed")


def broad(ctx, rep, s):
    """Handlers that would take errors other than compression errors."""
    r = s.r
    for h in r.of("handler"):
        names = [n for n in h.names if n != ZLIB and n not in HARMLESS]
        body = [e for e in r.events if any(t == h.tryid and p == "body" for t, p in e.tries)]
        risky = [e for e in body if e.kind in ("read", "decompress") or e.kind == "mayraise" and e.exc != ZLIB or e.kind == "raise"]
        # What other errors arise in the body and are taken by this handler?
        taken = sorted({c[0] for c in h.caught if c[0] != ZLIB and c[0] not in HARMLESS})
        re = [x for x in r.of("reraise") if x.tryid == h.tryid and (h.tryid, h.part) in x.tries]
        if not taken and not (names and any(e.kind == "read" for e in body)):
            rep.ok(OTHER, f"{s.name}: {'/'.join(h.names)}")
            continue
        mixed = [n for n in names if not n.startswith("?")]
        always = [x for x in re if drop(x.guard, parts(x.guard)) == TRUE and raises_all(s, h, x)]
        if always:
            rep.ok(OTHER, f"{s.name}: passed on")
            continue
        inh = [x for x in r.events if x.kind in ("raise",) and (h.tryid, h.part) in x.tries]
        quiet = completes_quietly(s, h)
        if quiet is False and not inh:
            rep.ok(OTHER, f"{s.name}: never swallowed")
            continue
        what = ", ".join(taken or mixed)
        if quiet is None:
            rep.unk(OTHER, s.name, h.where, f"what becomes of {what} was not determined")
        elif quiet is False:
            kinds = sorted({n for x in inh for n in x.exc})
            if all(ctx.i.exc_caught(n, ["ValueError"]) for n in kinds) and all(t == "ValueError" for t in taken) and not any(n in BROAD for n in mixed):
                rep.ok(OTHER, f"{s.name}: reported as {kinds}")
            elif rescue(h, r):
                rep.ok(OTHER)
            else:
                rep.bad(OTHER, s.name, h.where, f"{what} is turned into {', '.join(map(str, kinds))}")
        elif not any(e.kind in ("read", "decompress", "mayraise") for e in body) and not taken:
            rep.ok(OTHER)
        else:
            rep.bad(OTHER, s.name, h.where, f"{what} can be swallowed here" + (f" (raised at {h.caught[0][2][0]}:{getattr(h.caught[0][1], 'lineno', 0)})" if taken and h.caught else ""))
    if not r.of("handler"):
        rep.ok(OTHER, f"{s.name}: no handler")


BROAD = {"Exception", "BaseException", "OSError", "EOFError"}


def raises_all(s, h, x):
    return h.completes == FALSE and not [k for k, g, i in h.exits if k != "raise"]


def rescue(h, r):
    return False


def completes_quietly(s, h):
    """Whether the handler may end without raising: True, False, or None."""
    c = T.subst(h.completes, s.eq) if isinstance(h.completes, Term) else None
    quiet = [k for k, g, i in h.exits if k in ("return", "break", "continue")]
    if quiet:
        return True
    if c == FALSE:
        return False
    if not h.caught:
        return True
    return True


def order(rep, s):
    """A group leaves only after the last decompression of its sample."""
    ds = [e for e in decompressions(s) if s.lid is None or s.inside(e)]
    ys = [e for e in s.yields if s.lid is None or s.inside(e)]
    if not ds or not ys:
        return
    late = [d for d in ds if d.idx > min(y.idx for y in ys)]
    if late:
        # Harmless only if it belongs to the next sample.
        for d in late:
            b = s.norm(d.data["data"]) if isinstance(d.data["data"], Term) else None
            rep.bad(PARTIAL, s.name, d.where, f"decompresses {sh(b, 80)} after the sample was yielded") if b is not None and not vague((b,)) else \
                rep.unk(PARTIAL, s.name, d.where, "decompression after the yield")
    else:
        rep.ok(PARTIAL, s.name)


def complete(rep, s, w):
    """Whenever a group is yielded, every block its record declares was decompressed."""
    if s.problem:
        return
    ds = [(d, block(s.norm(Term("decomp", d.data["data"])))) for d in decompressions(s) if s.inside(d) and isinstance(d.data["data"], Term)]
    for y in s.yields:
        if not s.inside(y):
            continue
        for name, pos, n in w.parts:
            mine = [d for d, b in ds if b is not None and b[1] == pos]
            if not mine:
                if any(b is None or vague(tuple(x for x in b if x is not None)) for _, b in ds):
                    rep.unk(PARTIAL, f"{s.name} {name}", y.where, "the decompression of this block was not found")
                else:
                    rep.bad(PARTIAL, f"{s.name} {name}", y.where, "yields without decompressing this block")
                continue
            done = disj([s.norm(without_fails(d.full_guard())) for d in mine])
            rep.diffs(PARTIAL, f"{s.name} {name}", mine[0].where, s.diffs(conj([s.norm(without_fails(y.full_guard())), neg(done)]), FALSE))


def short(rep, s):
    """Every structure of a sample is made by a step that raises ValueError when its data is too short."""
    made = [e for e in s.r.of("mayraise") if e.exc == "ValueError" and e.data.get("short")]
    places = {(s.norm(e.root)) for e in made}
    for e in s.yields:
        xs = parts_of(e)
        if xs is None:
            rep.unk(SHORT, s.name, e.where, "the yielded group is not determined")
            continue
        todo = [("system data", xs[1])] + [("task data", x) for x in leaf_items(xs[2])]
        if s.cgroups:
            from sa.checks.c04 import arrays
            its = tuple(leaf_items(xs[3]))
            todo += [("cgroup data", x) for x in find_structs(its)[:1]] + [("process ids", x) for x in arrays(its)]
        for what, x in todo:
            if not (isinstance(x, tuple) and x and x[0] == "struct"):
                rep.unk(SHORT, f"{s.name} {what}", e.where, f"not determined: {sh(x)}")
                continue
            root = s.norm(x[2])
            if len(x) > 5 and x[5]:
                rep.bad(SHORT, f"{s.name} {what}", e.where, "filled piecewise from the data, whatever its length")
            elif padded(root):
                rep.bad(SHORT, f"{s.name} {what}", e.where, f"data that is too short is filled up: {sh(root)}")
            elif root in places:
                hit = [m for m in made if s.norm(m.root) == root]
                if any(s.r.escapes(m) for m in hit):
                    rep.ok(SHORT, f"{s.name} {what}")
                # caught: judged by the swallowing rule
            elif (fs := [f for f in s.r.of("filled") if s.norm(f.root) == root]):
                filled(rep, s, f"{s.name} {what}", e, root, fs[-1])
            elif root.op in ("decomp", "bytes"):
                rep.unk(SHORT, f"{s.name} {what}", e.where, "how its length is checked was not determined")
            else:
                rep.unk(SHORT, f"{s.name} {what}", e.where, f"source not determined: {sh(root)}")


def refused(rep, s):
    """Data of the wrong length is no compression error: nothing may report it as one."""
    for x in s.r.of("raise"):
        if ZLIB not in x.exc or x.data.get("again") or x.tries and any(p.startswith("handler") for _, p in x.tries):
            continue
        g = s.norm(without_fails(x.full_guard()))
        if any(t.op == "len" and any(y.op == "decomp" for y in T.walk((t,))) for t in T.walk((g,))):
            rep.bad(SHORT, s.name, x.where, f"reported as a compression error when {sh(g, 120)}")


def filled(rep, s, name, e, root, f):
    """A structure filled from the data as far as it goes: the group must not leave when that was too little."""
    g = s.norm(without_fails(e.full_guard()))
    n = Term("len", root)
    lacks = T.compare("<", n, f.size)
    try:
        w = T.differ(conj([g, lacks]), FALSE)
    except (T.Undecided, RecursionError):
        w = 0
    if w:
        rep.bad(SHORT, name, f.where, f"a structure of {sh(f.size)} bytes is filled from data that may be shorter")
    elif w is None and any(x.exc == ("ValueError",) or "ValueError" in x.exc for x in s.r.of("raise") if s.r.escapes(x)):
        rep.ok(SHORT, name)
    else:
        rep.unk(SHORT, name, f.where, "whether too little data is reported was not determined")


def padded(root):
    """Whether bytes are added to decompressed data."""
    def longer(x):
        return x.op in ("pad", "zero") or x.op == "call" and (x.args[0] in ("ljust", "rjust", "center", "zfill") or x.args[0] == "concat" and any(
            isinstance(y, Term) and T.is_const(y) and T.cval(y) for y in x.args[1:]))
    return any(longer(x) and any(y.op in ("decomp", "bytes") for y in T.walk((x,))) or x.op == "zero" for x in T.walk((root,)))
