"""Facets: executable properties over generated plain-data cases.

A facet is a function f(case, ctx) registered for one property, with a
hypothesis strategy that generates `case`.  It raises Violation (through
ctx.check and friends) or lets an exception of the code under test escape.
"""
import hashlib
import json
import math
import os
import random
import shutil
import sys
import time
import traceback

FACETS = {}


class Violation(AssertionError):
    pass


class Facet:
    def __init__(self, prop, name, strategy, fn, quick, thorough, budget, rule):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.budget, self.rule = quick, thorough, budget, rule


def facet(prop, strategy, quick=150, thorough=None, budget=60, name=None, rule=None):
    def deco(fn):
        n = name or fn.__name__
        d = FACETS.setdefault(prop, {})
        assert n not in d, (prop, n)
        d[n] = Facet(prop, n, strategy, fn, quick, thorough or quick * 12, budget,
                     rule or (fn.__doc__ or "").strip())
        return fn
    return deco


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Ctx:
    """Per-case services: labels, checks, scratch directory, known findings."""

    def __init__(self, run):
        self._run = run
        self.labels = set()
        self._nt = False
        self._tmp = None

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    @staticmethod
    def check(cond, msg="", *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    @staticmethod
    def equal(got, want, msg=""):
        if not (got == want):
            raise Violation("%s: got %s, expected %s" % (msg, short(got, 300), short(want, 300)))

    @staticmethod
    def close(got, want, msg="", rtol=1e-9, atol=1e-12):
        import numpy as np
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            try:
                g, w = np.broadcast_arrays(g, w)
            except ValueError:
                raise Violation("%s: shape %s, expected %s" % (msg, g.shape, w.shape))
        bad = ~(np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
        if bad.any():
            i = tuple(int(k[0]) for k in np.nonzero(np.atleast_1d(bad)))
            raise Violation("%s: got %s, expected %s (first mismatch at %s: %r vs %r)" % (
                msg, short(g, 250), short(w, 250), i,
                float(np.atleast_1d(g)[i]), float(np.atleast_1d(w)[i])))

    @staticmethod
    def raises(exc, fn, msg=""):
        try:
            r = fn()
        except exc as e:
            return e
        raise Violation("%s: accepted, returned %s; expected %s" % (msg, short(r, 200), exc))

    def tmpdir(self):
        if self._tmp is None:
            self._run.ntmp += 1
            self._tmp = os.path.join(os.environ["VERIF_SCRATCH"], "case%d" % self._run.ntmp)
            os.makedirs(self._tmp)
        return self._tmp

    def known(self, what):
        """A listed genuine defect was observed: counted and reported, never an alarm."""
        self._run.known.add(what)

    def close_case(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)


def reseed(n=1):
    import numpy as np
    random.seed(n)
    np.random.seed(n % (2 ** 32))
    m = sys.modules.get("gnome.cy_gnome.cy_helpers")
    if m is not None:
        m.srand(n % (2 ** 31))


class Run:
    def __init__(self, f, tier, seed, journal=None, shard=0):
        self.f, self.tier, self.seed, self.journal, self.shard = f, tier, seed, journal, shard
        self.evals = 0
        self.skipped = 0
        self.ntmp = 0
        self.known = set()
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.fail = None          # (size, case, text)
        self.t_fail = None

    def one(self, case):
        reseed(self.seed)
        ctx = Ctx(self)
        try:
            self.f.fn(case, ctx)
        finally:
            ctx.close_case()
        return ctx

    def execute(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        t0 = time.time()
        n = self.f.quick if self.tier == "quick" else self.f.thorough
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
        budget = self.f.budget if self.tier == "quick" else self.f.budget * 14
        shrink_s = float(os.environ.get("VERIF_SHRINK", "20" if self.tier == "quick" else "90"))

        def wrapper(case):
            now = time.time()
            if self.fail is None:
                if now - t0 > budget and self.evals >= 5:
                    self.skipped += 1
                    return
            elif now - self.t_fail > shrink_s:
                return          # out of shrink budget: the best failure is kept
            if self.journal:
                with open(self.journal, "w") as fd:
                    fd.write(repr(case))
            self.evals += 1
            try:
                ctx = self.one(case)
            except (hypothesis.errors.HypothesisException, KeyboardInterrupt):
                raise
            except BaseException as e:
                if type(e).__name__ in ("UnsatisfiedAssumption", "StopTest"):
                    raise
                txt = "".join(traceback.format_exception(e))[-6000:]
                size = len(repr(case))
                if self.fail is None or size <= self.fail[0]:
                    self.fail = (size, case, txt)
                if self.t_fail is None:
                    self.t_fail = time.time()
                raise
            if ctx._nt:
                r = repr(case)
                h = hashlib.md5(r.encode()).digest()
                if h not in self.hashes:
                    self.hashes.add(h)
                    if len(self.hashes) in (2, 9, 30):
                        self.samples.append({"facet": self.f.name, "case": r[:700]})
            for lab in ctx.labels:
                self.labels[lab] = self.labels.get(lab, 0) + 1

        test = given(self.f.strategy)(wrapper)
        test = settings(max_examples=n, deadline=None, database=None,
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink))(test)
        # independent stream for each facet, fixed by VERIF_SEED
        key = "%d/%s/%s" % (self.seed, self.f.prop, self.f.name) + ("/%d" % self.shard if self.shard else "")
        s = int.from_bytes(hashlib.sha256(key.encode()).digest()[:6], "big")
        test = hypothesis.seed(s)(test)
        err = None
        try:
            test()
        except BaseException as e:
            if self.fail is None:
                err = "".join(traceback.format_exception(e))[-6000:]
        res = {"facet": self.f.name, "evaluations": self.evals, "skipped": self.skipped,
               "distinct_nontrivial": len(self.hashes), "hashes": [h.hex() for h in self.hashes], "samples": self.samples,
               "labels": self.labels, "known": sorted(self.known),
               "wall_s": round(time.time() - t0, 2), "error": err, "fail": None,
               "rule": self.f.rule}
        if self.fail:
            res["fail"] = {"case": repr(self.fail[1]), "text": self.fail[2]}
        return res
