"""The state an entry point leaves behind, with everything that came from the file it worked on renamed: what a later call on another
file finds."""
from __future__ import annotations

import dataclasses

from sa import terms as T
from sa.terms import Term, TRUE

LEAVES = {"stream", "sym", "elem", "seq"}
SAME = ("sym('pretty_print'", "sym('raise_on_truncation'", "sym('max_samples'")  # options, not data


def leaves(x):
    m = {}
    for t in T.walk((x,)):
        if t.op in ("tasks", "groups"):
            m[t] = Term(t.op, Term("earlier", *t.args))
        elif t.op == "elem" and T.is_const(t.args[0], str):
            m[t] = Term("elem", T.const("earlier " + T.cval(t.args[0])), *t.args[1:])
        elif t.op in LEAVES and t.args and isinstance(t.args[0], str) and not t.args[0].startswith(("earlier ", "args.", "pretty_print", "raise_on", "max_samples")):
            m[t] = Term(t.op, "earlier " + t.args[0], *t.args[1:])
    return m


class Renamer:
    def __init__(self):
        self.done = {}

    def __call__(self, x):
        if isinstance(x, Term):
            r = self.done.get(x)
            if r is None:
                m = leaves(x)
                r = self.done[x] = T.subst(x, m) if m else x
            return r
        if isinstance(x, tuple):
            ys = [self(y) for y in x]
            return x if all(a is b for a, b in zip(x, ys)) else type(x)(*ys) if hasattr(x, "_fields") else tuple(ys)
        if dataclasses.is_dataclass(x) and not isinstance(x, type) and type(x).__dataclass_params__.frozen:
            new = {}
            for f in dataclasses.fields(x):
                a = getattr(x, f.name)
                if f.name == "name" and a == "raw_file":
                    b = "earlier raw_file"
                else:
                    b = self(a)
                if b is not a:
                    new[f.name] = b
            return dataclasses.replace(x, **new) if new else x
        return x


def earlier(st):
    """A copy of state st in which the file, and all that was read from it, is another one."""
    ren = Renamer()
    s = st.clone()
    s.frames = {k: {n: ren(v) for n, v in f.items()} for k, f in s.frames.items()}
    s.heap = {k: ren(o) for k, o in s.heap.items()}
    s.pc, s.outer = TRUE, ()
    return s


class Base:
    def __init__(self, run):
        self.st = earlier(run.st)
