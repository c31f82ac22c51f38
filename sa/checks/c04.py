"""C04: reading consumes exactly the declared bytes, in order."""
from __future__ import annotations

from sa import terms as T
from sa.compare import cmp_term, sh, vague
from sa.ctx import RAW, find_structs, has_cgroups, leaf_items
from sa.samples import P, Sample, block, parts_of, samples
from sa.terms import TRUE, ZERO, Term, const

NEXT = "a sample's bytes are exactly its record and the blocks it declares"
FROM = "each part is decoded from its own bytes"
START = "the first record follows one header"
SEEK = "the file is only read forwards"
ORDER = "blocks are read one after another"


def check(ctx, rep, tier):
    for s, w in samples(ctx, tier=tier):
        rep.cover("runs")
        if s.problem:
            (rep.bad if s.problem == "nothing is yielded" else rep.unk)(NEXT, s.name, s.where, s.problem)
            continue
        # Forward only.
        bad = [e for e in s.r.of("stream") if e.data["stream"] == "raw_file"]
        for e in bad:
            if e.data["what"] in ("tell", "readable", "seekable", "fileno", "flush"):
                continue
            (rep.bad if e.data["what"] in ("seek", "truncate", "detach", "wrap") else rep.unk)(SEEK, s.name, e.where, f"{e.data['what']} on the log file")
        if not bad:
            rep.ok(SEEK, s.name)
        # The first record.
        rep.eq(START, s.name, s.where, s.norm(s.start), const(480))
        heads = [e for e in s.r.of("read") if not s.inside(e) and e.data["stream"] == "raw_file"]
        n = [e.data["n"] for e in heads]
        if not s.variant and len(heads) == 1 and n[0] == const(480) or s.variant and not heads:
            rep.ok(START)
        elif any(vague((e.guard,)) or not isinstance(e.data["n"], Term) or vague((e.data["n"],)) for e in heads):
            rep.unk(START, s.name, s.where, f"bytes read outside the sample loop not determined: {sh(tuple(n))}")
        elif s.norm(s.start) != const(480):
            pass  # reported above
        else:
            rep.bad(START, s.name, (heads[-1].where if heads else s.where), f"reads outside the sample loop: {[sh(x) for x in n]}")
        # Consumption.
        rep.diffs(NEXT, s.name, s.where, s.diffs(s.norm(s.next), w.end, given=T.neg(w.stop), signed=True))
        # Order of the reads.
        pos = P
        ok = True
        for e in s.reads():
            rep.cover("reads")
            at = s.norm(e.data["pos"])
            ds = s.diffs(at, pos)
            if ds:
                g = s.norm(e.full_guard())
                ok = False
                (rep.unk if ds[0].kind == "unk" or vague((g,)) else rep.bad)(ORDER, s.name, e.where, f"read at {sh(at)}, required {sh(pos)}")
                break
            if e.data["n"] is None:
                ok = False
                rep.bad(ORDER, s.name, e.where, "reads everything up to the end of the file")
                break
            pos = T.add(at, s.norm(e.data["n"]))
        if ok:
            rep.ok(ORDER, s.name)
        # Provenance of what is handed out.
        for e in s.yields:
            xs = parts_of(e)
            if xs is None:
                rep.unk(FROM, s.name, e.where, f"the yielded group is not determined: {sh(e.data['value'])}")
                continue
            rec, ss, ts, cg = xs
            direct(rep, s, "record", rec, e, P)
            packed(rep, s, w, "system data", [ss], e, "scomplen")
            packed(rep, s, w, "task data", leaf_items(ts), e, "pcomplen")
            if s.cgroups:
                its = leaf_items(cg)
                structs = find_structs(tuple(its))
                packed(rep, s, w, "cgroup data", structs[:1] if structs else its, e, "ccomplen")
                arr = arrays(tuple(its))
                packed(rep, s, w, "process ids", arr, e, "icomplen")


def arrays(x):
    out = []
    if isinstance(x, tuple):
        if x and x[0] == "struct" and x[1] == "array":
            out.append(x)
        else:
            for y in x:
                out.extend(arrays(y))
    return out


def direct(rep, s, what, x, e, at):
    if not (isinstance(x, tuple) and x and x[0] == "struct"):
        rep.unk(FROM, f"{s.name} {what}", e.where, f"not determined: {sh(x)}")
        return
    root, off = s.norm(x[2]), s.norm(x[3])
    if root.op == "bytes":
        root, off = root.args[0], T.add(root.args[1], off)
    rep.eq(FROM, f"{s.name} {what}<file>", e.where, root, RAW)
    rep.eq(FROM, f"{s.name} {what}<position>", e.where, off, at)


def packed(rep, s, w, what, xs, e, part):
    _, pos, n = w.part(part)
    if not xs:
        rep.unk(FROM, f"{s.name} {what}", e.where, "elements not determined")
    for x in xs:
        if not (isinstance(x, tuple) and x and x[0] == "struct"):
            rep.unk(FROM, f"{s.name} {what}", e.where, f"not determined: {sh(x)}")
            continue
        root = s.norm(x[2])
        b = block(root)
        if b is None:
            (rep.unk if vague((root,)) else rep.bad)(FROM, f"{s.name} {what}", e.where, f"decoded from {sh(root)}, required the decompressed bytes at {sh(pos)}")
            continue
        rep.eq(FROM, f"{s.name} {what}<file>", e.where, b[0], RAW)
        rep.eq(FROM, f"{s.name} {what}<position>", e.where, b[1], pos)
        if b[2] is None:
            rep.bad(FROM, f"{s.name} {what}<length>", e.where, "decompresses everything up to the end of the file")
        else:
            rep.eq(FROM, f"{s.name} {what}<length>", e.where, b[2], n)
