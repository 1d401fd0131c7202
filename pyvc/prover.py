"""Obligations: run a function on symbolic arguments, check its contract."""
import copy
import os
import pickle
import sys
import time
import traceback
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, Unsupported,
                   Dead, STR, Exit, Func)
from .interp import Interp, Modules
from .solve import Stats


def debug():
    if os.environ.get("PYVC_TB"):
        traceback.print_exc(limit=-int(os.environ["PYVC_TB"]))


class Run:
    """All exits of one function on symbolic arguments."""

    def __init__(self, prover, name, I, exits):
        self.p, self.name, self.I, self.exits = prover, name, I, exits
        self.inexact, self.lazy, self.known = False, False, {}

    def returns(self):
        return [e for e in self.exits if e.kind == "return"]

    def raises(self):
        return [e for e in self.exits if e.kind == "raise"]

    def check(self, clause, goal, exits=None):
        """goal(exit) holds at every exit (of those given)."""
        exits = self.exits if exits is None else exits
        name = f"{self.name}: {clause}"
        bad, unk, reasons, n = [], [], [], 0
        t0 = time.time()
        for i, e in enumerate(exits):
            if self.p.expired():
                unk.append(i)
                reasons.append("time budget of the prover used up")
                break
            exit_, e = e, copy.copy(e)      # (a clause may assume something)
            try:
                self.I.st = e.state = e.state.copy()
                before = list(self.I.exits)
                try:
                    g = goal(e)
                finally:
                    raised = len(self.I.exits) > len(before)
                    self.I.exits[:] = before
                    if raised and not self.impossible(exit_):
                        raise Unsupported("the clause raises an exception")
            except Unsupported as ex:
                if self.impossible(exit_):
                    continue
                unk.append(i)
                reasons.append(f"exit {i}: {ex}")
                continue
            except Dead:
                continue
            n += 1
            if self.lazy and self.known.get(id(exit_)):
                continue
            r, model = self.p.stats.check(self.I.facts, e.state.pc, g,
                                          self.p.timeout)
            if r != "proved" and self.impossible(exit_):
                continue
            if r == "refuted":
                bad.append(i)
                reasons.append(f"exit {i} ({e.kind}"
                               f"{' ' + e.value.name if e.kind == 'raise' else ''}"
                               f"): {short(model)}")
            elif r == "unknown":
                unk.append(i)
                reasons.append(f"exit {i}: the solvers gave no answer")
        st = "refuted" if bad else "unknown" if unk else "proved"
        if st == "refuted" and (self.p.inexact or self.inexact):
            st = "unknown"
        self.p.add(name, st, "; ".join(reasons)[:600], n, time.time() - t0)
        return st

    def impossible(self, e):
        """The exit cannot be reached (decided where it matters)."""
        if not self.lazy:
            return False
        if id(e) not in self.known:
            self.known[id(e)] = not self.I.possible_deep(e.state, (), 300)
        return self.known[id(e)]

    def check_complete(self, cond, clause, kind, names=None):
        """The exits of the kind are reached exactly under cond."""


def short(m):
    if m is None:
        return ""
    return ", ".join(f"{d.name()}={str(m[d])[:40]}" for d in m.decls()[:12]
                     if d.arity() == 0)


class Prover:
    def __init__(self, root, budget=200, timeout=8, only=None):
        self.mods = Modules(root)
        self.stats = Stats()
        self.obligations = []
        self.functions = {}
        self.trusted, self.lib_used = set(), set()
        self.t0, self.budget, self.timeout = time.time(), budget, timeout
        self.inexact = False
        self.vacuity = {"preconditions": 0, "canaries": 0, "failed": []}
        self.bounded = []
        self.only = only
        self.jobs = int(os.environ.get("PYVC_JOBS", "1"))
        self.children, self.place = [], 0

    # ------------------------------------------- functions in parallel
    def run(self, qual, setup, clauses, contracts=None, label=None,
            havoc=False):
        """setup(I) -> (args, kw, ctx); clauses: [(text, goal(I, e, ctx)[,
        selector(e)])].  The function is executed symbolically and every
        clause checked at the exits (in a process of its own)."""
        args = (qual, setup, clauses, contracts, label, havoc)
        if self.jobs < 2:
            self.run_(*args)
            return
        while len([c for c in self.children if c[3] is None]) >= self.jobs:
            self.collect()
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            self.children.append([pid, r, len(self.obligations), None,
                                  label or qual, clauses])
            return
        status = 1
        try:
            os.close(r)
            self.children, self.obligations = [], []
            self.functions, self.bounded = {}, []
            self.vacuity = {"preconditions": 0, "canaries": 0, "failed": []}
            self.stats = Stats()
            self.run_(*args)
            out = pickle.dumps((
                self.obligations, self.functions, self.trusted,
                self.lib_used, self.vacuity, self.bounded, self.stats.by,
                self.stats.time))
            with os.fdopen(w, "wb") as f:
                f.write(out)
            status = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(status)

    def collect(self):
        """Wait for the oldest process."""
        c = [c for c in self.children if c[3] is None][0]
        with os.fdopen(c[1], "rb") as f:
            data = f.read()
        os.waitpid(c[0], 0)
        c[3] = data

    def finish(self):
        while any(c[3] is None for c in self.children):
            self.collect()
        done = []
        n = 0
        for pid, _, at, data, label, clauses in self.children:
            done += self.obligations[n:at]
            n = at
            try:
                ob, fs, tr, lu, va, bo, by, t = pickle.loads(data)
            except Exception:
                done += [{"name": f"{label}: {c[0]}", "status": "unknown",
                          "reason": "the prover's process ended", "vcs": 0,
                          "time": 0.0} for c in clauses]
                continue
            done += ob
            self.functions.update(fs)
            self.trusted |= tr
            self.lib_used |= lu
            self.bounded += bo
            for k in ("preconditions", "canaries", "failed"):
                self.vacuity[k] += va[k]
            for k, v in by.items():
                self.stats.by[k] = self.stats.by.get(k, 0) + v
            self.stats.time += t
        self.obligations = done + self.obligations[n:]
        self.children = []

    def expired(self):
        return time.time() - self.t0 > self.budget

    def add(self, name, status, reason="", vcs=0, t=0.0):
        self.obligations.append({"name": name, "status": status, "reason":
                                 reason, "vcs": vcs, "time": round(t, 2)})

    def interp(self, contracts=None):
        I = Interp(self.mods, contracts)
        I.deadline = self.t0 + self.budget
        return I

    def run_(self, qual, setup, clauses, contracts, label, havoc):
        label = label or qual.replace("sofar.", "")
        f = self.mods.find(qual) if isinstance(qual, str) else qual
        if f is None:
            for c in clauses:
                self.add(f"{label}: {c[0]}", "unknown",
                         f"{qual} does not exist")
            return None
        I = self.interp(contracts)
        I.havoc = havoc
        try:
            args, kw, ctx = setup(I)
            pre = I.st.pc
            if not I.feasible(timeout=3000):
                self.vacuity["failed"].append(f"precondition of {label}")
            self.vacuity["preconditions"] += 1
            exits = execute(I, f, args, kw)
        except Unsupported as ex:
            debug()
            for c in clauses:
                self.add(f"{label}: {c[0]}", "unknown", f"unsupported: {ex}")
            return None
        except Exception as ex:
            debug()
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            for c in clauses:
                self.add(f"{label}: {c[0]}", "unknown",
                         f"engine: {type(ex).__name__} {str(ex)[:120]} "
                         f"({tb.filename.split('/')[-1]}:{tb.lineno})")
            return None
        self.functions[label] = sorted(I.inlined)
        self.trusted |= I.trusted
        self.lib_used |= I.lib_used
        lazy = len(exits) > 20
        if not lazy:
            exits = [e for e in exits if I.possible_deep(e.state, (), 300)]
        # canary: `False` must not be provable at the exits
        ok = False
        for e in exits:
            if self.stats.check(I.facts, e.state.pc, False, 1, False)[0] != \
                    "proved":
                ok = True
                break
        self.vacuity["canaries"] += 1
        if not ok:
            self.vacuity["failed"].append(f"no feasible exit of {label}")
        r = Run(self, label, I, exits)
        r.inexact, r.lazy = havoc, lazy
        for c in clauses:
            sel = c[2] if len(c) > 2 else (lambda e: True)
            try:
                mine = [e for e in exits if sel(e)]
                if not mine and all(e.kind == "raise" for e in exits):
                    self.add(f"{label}: {c[0]}", "unknown",
                             "the function never returns normally")
                    continue
                r.check(c[0], lambda e: c[1](I, e, ctx), mine)
            except Exception as ex:
                debug()
                tb = traceback.extract_tb(ex.__traceback__)[-1]
                self.add(f"{label}: {c[0]}", "unknown",
                         f"engine: {type(ex).__name__} {str(ex)[:120]} "
                         f"({tb.filename.split('/')[-1]}:{tb.lineno})")
        return r

    def lemma(self, name, facts, hyps, goal):
        st, m = self.stats.check(facts, hyps, goal, self.timeout)
        self.add(name, {"proved": "proved", "refuted": "refuted"}.get(
            st, "unknown"), short(m), 1)


def execute(I, f, args, kw):
    """All exits of f(*args, **kw); contracts apply to its callees only."""
    saved, I.exits = I.exits, []
    I.depth = 0
    out = call_top(I, f, list(args), dict(kw))
    out += I.exits
    I.exits = saved
    return out


def call_top(I, f, args, kw):
    """Like Interp.call_func, but returns the exits unjoined."""
    res = []
    orig = I.join

    def join(rets, n):
        if I.depth == 0 and not res:
            res.extend(rets)
            raise Dead()
        return orig(rets, n)
    I.join = join
    try:
        v = Interp.call_func(I, f, args, kw)
        return [Exit("return", I.st, v)]
    except Dead:
        return list(res)
    finally:
        I.join = orig
