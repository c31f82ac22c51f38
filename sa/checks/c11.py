"""C11: no byte sequence in a text field can abort conversion."""
from __future__ import annotations

from sa.compare import sh, vague
from sa.convert import conversions, entries, is_decode
from sa.parse import parses
from sa.texts import compare, source

RULE = "text fields are decoded as UTF-8 without undecodable bytes"
ESC = "no decoding step can raise"


def texts(got, want, path=""):
    """(path, got, want) of every required text."""
    if is_decode(want):
        yield path, got, want
        return
    if not isinstance(want, tuple) or not want:
        return
    if want[0] == "dict":
        a = entries(got) if isinstance(got, tuple) and got and got[0] == "dict" else {}
        for k, (g, v) in entries(want).items():
            yield from texts(a.get(k, (None, None))[1], v, f"{path}.{k}" if path else str(k))
    elif want[0] == "list":
        gi = [s for s in got[1] if s[0] in ("loop", "item")] if isinstance(got, tuple) and got and got[0] == "list" else []
        for n, s in enumerate(want[1]):
            if s[0] == "loop" and s[3] and s[3][0][0] == "item":
                sub = gi[n][3][0][2] if len(gi) == len(want[1]) and gi[n][0] == "loop" and gi[n][3] and gi[n][3][0][0] == "item" else None
                yield from texts(sub, s[3][0][2], path + "[]")
            elif s[0] == "item":
                yield from texts(gi[n][2] if len(gi) == len(want[1]) and gi[n][0] == "item" else None, s[2], path)


def check(ctx, rep, tier):
    for c in list(conversions(ctx, rep, RULE)) + list(parses(ctx, rep, RULE)):
        rep.cover("conversions")
        if not c.run.alive:
            rep.unk(RULE, c.name, c.where, "never returns")
            continue
        for path, got, want in texts(c.got, c.want):
            rep.cover("text fields")
            name = f"{c.name}.{path}"
            if got == want:
                rep.ok(RULE, name)
                continue
            w = compare(got, want)
            if w is not None and w[0] == "eq":
                rep.ok(RULE)
            elif w is not None and w[0] == "ne" and not (is_decode(got) and got.args[1:] == ("utf-8", "strict")):
                rep.bad(RULE, name, c.where, f"for the bytes {w[1]!r} the text is {w[2]!r}, required {w[3]!r}")
            elif got is None or not is_decode(got) or vague((got,), (want,)):
                rep.unk(RULE, name, c.where, f"text not determined: {sh(got)}")
            elif source(got) != source(want):
                rep.ok(RULE)  # another field's text: judged by C09 and C12, as text it is converted safely below
            elif got.args[2] == "strict" and got.args[1] == "utf-8":
                rep.ok(RULE)  # judged by the raising step itself
            else:
                rep.bad(RULE, name, c.where, f"rendered as {sh(got)}, required {sh(want)}")
        bad = 0
        for e in c.run.of("mayraise", "raise"):
            names = e.exc if isinstance(e.exc, tuple) else (e.exc,)
            if not any("Unicode" in n for n in names):
                continue
            bad += 1
            if not c.run.escapes(e):
                rep.ok(ESC)
                continue
            f = e.data.get("fails")
            rep.bad(ESC, f"{c.name}: {sh(f) if f is not None else ''}", e.where, "raises UnicodeDecodeError for bytes that are not valid UTF-8")
        if not bad:
            rep.ok(ESC, c.name)
