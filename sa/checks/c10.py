"""C10: per-resource lists hold exactly the recorded number of entries."""
from __future__ import annotations

from sa import terms as T
from sa.compare import cmp_segs, sh, vague
from sa.convert import conversions, prefix, walk_lists
from sa.terms import TRUE

RULE = "list length is the recorded count of that list"


def counts(segs):
    """The list with its values left out."""
    out = []
    for s in segs:
        if s[0] == "loop":
            s = prefix(s)
            out.append(("loop", s[1], s[2], tuple(x if x[0] != "item" else ("item", x[1], TRUE) for x in counts(s[3])), s[4]))
        elif s[0] == "item":
            out.append(("item", s[1], TRUE))
        else:
            out.append(s)
    return out


def check(ctx, rep, tier):
    for c in conversions(ctx, rep, RULE):
        rep.cover("structures")
        if not c.run.alive:
            rep.unk(RULE, c.name, c.where, "conversion never returns")
            continue
        for path, got, want in walk_lists(c.got, c.want):
            name = f"{c.name}.{path}"
            rep.cover("lists")
            if isinstance(got, tuple) and got and got[0] in ("list", "tuple") and got[0] == "list":
                rep.diffs(RULE, name, c.where, cmp_segs(counts(got[1]), counts(want[1]), "", None, False, True))
            elif got is None:
                if c.got[0] == "dict" and (c.got[2] or c.got[3] is not None):
                    rep.unk(RULE, name, c.where, "keys not determined")
                else:
                    rep.unk(RULE, name, c.where, "the list was not found in the result")
            elif vague((got,)):
                rep.unk(RULE, name, c.where, f"not determined: {sh(got)}")
            else:
                rep.bad(RULE, name, c.where, f"found {sh(got)}, required {sh(want)}")
