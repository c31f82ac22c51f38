"""C09: dictionary conversion keeps every field under its own name, in order, with its own value."""
from __future__ import annotations

from sa import terms as T
from sa.compare import vague
from sa.convert import conversions, entries, is_decode, relax
from sa.terms import TRUE

RULE = "entries, order and values of the dictionary"


def check(ctx, rep, tier):
    for c in conversions(ctx, rep, RULE):
        rep.cover("structures")
        if not c.run.alive:
            rep.bad("conversion returns", c.name, c.where, "conversion never returns a dictionary")
            continue
        if not (isinstance(c.got, tuple) and c.got[0] == "dict"):
            rep.eq(RULE, c.name, c.where, c.got, c.want)
            continue
        got = relax(c.got, c.want)
        a = {k: v for k, v in entries(got).items() if v[0] != T.FALSE}
        b = entries(c.want)
        for k in b:
            rep.cover("fields")
            if k not in a:
                if got[2] or got[3] is not None:
                    rep.unk(RULE, f"{c.name}.{k}", c.where, "keys not determined")
                else:
                    rep.bad(RULE, f"{c.name}.{k}", c.where, "the entry is missing")
                continue
            if a[k][0] != TRUE:
                rep.cond(RULE, f"{c.name}.{k}<present>", c.where, a[k][0], TRUE, signed=True)
            rep.eq(RULE, f"{c.name}.{k}", c.where, a[k][1], b[k][1], order=True)
        for k in a:
            if k not in b:
                kk = k if not isinstance(k, T.Term) else T.show(k)
                if vague((a[k][0],)) or (isinstance(k, T.Term)):
                    rep.unk(RULE, f"{c.name}.{kk}", c.where, "additional entry not determined")
                else:
                    rep.bad(RULE, f"{c.name}.{kk}", c.where, "entry that is no field of the structure")
        ka, kb = [k for k in a if k in b], [k for k in b if k in a]
        if ka != kb:
            rep.bad("entries in field order", c.name, c.where, f"entries in order {ka}, required {kb}"[:300])
        else:
            rep.ok("entries in field order")
        muts = [e for e in c.run.of("structwrite", "pmut") if e.data.get("oid") in c.run.param or e.data.get("buf") in c.run.param]
        for e in muts:
            rep.bad("the structure is not modified", c.name, e.where, f"writes to the structure: {e.data.get('what') or e.data.get('off')}")
        if not muts:
            rep.ok("the structure is not modified")
        fails(rep, c)


def fails(rep, c):
    """Conversion must return for every content (undecodable text is judged by C11)."""
    rule = "conversion returns for every content"
    for e in [e for e in c.run.of("raise") if c.run.escapes(e)]:
        g = e.full_guard()
        if vague((g,)):
            rep.unk(rule, c.name, e.where, f"may raise {e.exc}")
        elif g != T.FALSE:
            rep.bad(rule, c.name, e.where, f"raises {'/'.join(e.exc)}" + ("" if g == TRUE else f" when {T.show(g)[:200]}"))
    if not c.run.of("raise"):
        rep.ok(rule)
