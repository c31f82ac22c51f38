"""Collects the obligations of one property and their verdicts."""
from __future__ import annotations

from sa import compare
from sa import terms as T


EFFECTS = ("C18",)  # properties about which operations occur, not about their results


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.ctx = None
        self.discharged = 0
        self.violations = []  # (rule, construct, where, text)
        self.undecided = []
        self.rules = {}  # rule -> count
        self.samples = []
        self.covered = {}

    def total(self):
        return self.discharged + len(self.violations) + len(self.undecided)

    def cover(self, what, n=1):
        self.covered[what] = self.covered.get(what, 0) + n

    def ok(self, rule, note=None):
        self.discharged += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if note is not None and len(self.samples) < 8 and self.rules[rule] <= 2:
            self.samples.append(f"{rule}: {note}"[:300])

    def bad(self, rule, construct, where, text, run=None):
        """A violation. run: the only run it was derived from, if there is just one."""
        lost = self.ctx.i.lost if self.ctx is not None and self.prop not in EFFECTS else None
        if lost and run is not None and not run.of("unsupported") and not self.ctx.lost0:
            lost = None
        if lost:
            # Something with effects was not modelled: what was derived after it may be wrong.
            self.unk(rule, construct, where, f"{text} (but {lost[0]} has no model)")
            return
        self.rules[rule] = self.rules.get(rule, 0) + 1
        v = (rule, construct, where, text)
        if v not in self.violations:
            self.violations.append(v)

    def unk(self, rule, construct, where, text):
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.undecided.append((rule, construct, where, text))

    def diffs(self, rule, construct, where, ds, note=None):
        """Record the outcome of a comparison as one obligation."""
        if not ds:
            self.ok(rule, note or construct)
            return True
        ne = [d for d in ds if d.kind == "ne"]
        if ne:
            for d in ne[:3]:
                self.bad(rule, construct + d.path, where, d.text)
        else:
            self.unk(rule, construct + ds[0].path, where, ds[0].text)
        return False

    def eq(self, rule, construct, where, got, want, given=None, order=False, signed=True, note=None):
        return self.diffs(rule, construct, where, compare.cmp_val(got, want, "", given, order, signed), note)

    def cond(self, rule, construct, where, got, want, given=None, signed=False, note=None):
        return self.diffs(rule, construct, where, compare.cmp_term(got, want, "", given, signed), note)
