"""Discharge of verification conditions: z3, then cvc5.

Universally quantified facts are instantiated with the ground terms that
occur at the matching argument positions (by hand, so that the solver gets a
quantifier free problem): `unsat` is a proof, `sat` a candidate
counterexample.
"""
import itertools
import subprocess
import time
import z3
from .abstr import abstractly_unsat
from .core import And_, B, is_z3, STR


class Node:
    """Cached structure of a term (the term is kept alive)."""
    __slots__ = ("t", "ch", "leaves", "fun", "sort", "sym", "sig")


_nodes = {}


def node(t):
    i = t.get_id()
    n = _nodes.get(i)
    if n is not None:
        return n
    todo = [(t, None)]
    while todo:
        x, ch = todo.pop()
        i = x.get_id()
        if i in _nodes:
            continue
        if ch is None:
            ch = [] if z3.is_quantifier(x) else x.children()
            todo.append((x, ch))
            for c in ch:
                if c.get_id() not in _nodes:
                    todo.append((c, None))
            continue
        n = Node()
        n.t, n.ch = x, tuple(c.get_id() for c in ch)
        n.fun, n.leaves, n.sym, n.sig = None, frozenset(), None, ()
        n.sort = x.sort().name()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if ch:
                n.fun = x.decl().get_id()
                if x.decl().name().startswith("member_of"):
                    n.fun = -1
                if x.decl().name().startswith("str_"):
                    # (library function: constant arguments have to agree)
                    n.sig = tuple((k, c.get_id()) for k, c in enumerate(ch)
                                  if z3.is_string_value(c))
            else:
                n.leaves = frozenset([i])
        if ch:
            n.leaves = n.leaves.union(*[_nodes[c].leaves for c in n.ch])
        _nodes[i] = n
    return _nodes[t.get_id()]


def walk(i, seen, out):
    todo = [i]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        out.append(i)
        todo += _nodes[i].ch


def patterns(vs, f):
    """var -> set of (function, argument position) where it occurs."""
    pos = {v.get_id(): set() for v in vs}
    seen, out = set(), []
    walk(node(f).t.get_id(), seen, out)
    for i in out:
        n = _nodes[i]
        if n.fun is not None and n.fun != -1:
            for k, c in enumerate(n.ch):
                if c in pos:
                    pos[c].add((n.fun, k, n.sig))
    return pos


def joint(vs, f):
    """Patterns of the variables: ways to cover them with one or two terms
    of f, each given as (function, {variable: argument position})."""
    ids = [v.get_id() for v in vs]
    seen, out, apps = set(), [], {}
    walk(node(f).t.get_id(), seen, out)
    for i in out:
        n = _nodes[i]
        if n.fun is not None and n.fun != -1:
            at = tuple((v, n.ch.index(v)) for v in ids if v in n.ch)
            if at:
                apps[n.fun, at] = None
    apps = list(apps)
    one = [(a,) for a in apps if len(a[1]) == len(ids)]
    if one:
        return one
    two = []
    for a, b in itertools.combinations(apps, 2):
        va, vb = {v for v, _ in a[1]}, {v for v, _ in b[1]}
        if va | vb == set(ids) and not (va <= vb or vb <= va):
            two.append((len(va & vb), (a, b)))
    # (those that share variables are more specific)
    most = max((n for n, _ in two), default=0)
    return [c for n, c in two if n == most] if most else []


def matches(cover, vs, apps):
    """Tuples of terms for the variables."""
    ids = [v.get_id() for v in vs]
    rows = [{}]
    for fun, at in cover:
        index = {}
        known = [v for v, _ in at if v in rows[0]] if rows else []
        for a in apps.get(fun, ()):
            r = {v: a[k] for v, k in at}
            index.setdefault(tuple(r[v] for v in known), []).append(r)
        rows = [{**x, **r} for x in rows
                for r in index.get(tuple(x[v] for v in known), ())]
        if len(rows) > MAXINST:
            return []
    return [tuple(r[i] for i in ids) for r in rows]


MAXINST = 6000
_inst = {}


def add(s, fs):
    c, r = z3.main_ctx().ref(), s.solver
    for f in fs:
        z3.Z3_solver_assert(c, r, B(f).as_ast())


def symbols(i):
    """(fresh constants, texts) of a term."""
    n = _nodes[i]
    if n.sym is None:
        seen, out = set(), []
        walk(i, seen, out)
        fresh, lits = set(), set()
        for j in out:
            x = _nodes[j]
            if x.leaves and len(x.leaves) == 1 and j in x.leaves:
                if "!" in x.t.decl().name():
                    fresh.add(j)
            elif not x.ch and z3.is_string_value(x.t):
                lits.add(j)
        n.sym = frozenset(fresh), frozenset(lits)
    return n.sym


def relevant(ground, roots):
    """The facts that share constants with the condition."""
    fresh, lits = set(), set()
    for r in roots:
        a, b = symbols(node(r).t.get_id())
        fresh |= a
        lits |= b
    rest = [(f, *symbols(node(f).t.get_id())) for f in ground]
    out = []
    while True:
        now = [x for x in rest if (x[1] & fresh if x[1] else
                                   x[2] <= lits)]
        if not now:
            return out
        rest = [x for x in rest if not (x[1] & fresh if x[1] else
                                        x[2] <= lits)]
        for f, a, b in now:
            out.append(f)
            fresh |= a
            lits |= b


def instantiate(univ, roots, rounds=3, left=False, focus=False):
    out = [f for vs, f in univ if not vs]
    if focus:
        out = relevant(out, roots)
    quant = [(vs, f, patterns(vs, f), joint(vs, f) if len(vs) > 1
              else None) for vs, f in univ if vs]
    allvars = frozenset(v.get_id() for vs, *_ in quant for v in vs)
    wanted = {a[0] for q in quant if q[3] for c in q[3] for a in c}
    apps = {}
    if left:
        # an iteration that left a loop early is a constant of the condition
        allvars -= frozenset().union(*[node(r).leaves for r in roots])
    seen, terms = set(), []
    for r in roots + out:
        walk(node(r).t.get_id(), seen, terms)
    at, bysort = {}, {}
    done = set()
    start = 0
    for _ in range(rounds):
        for i in terms[start:]:
            n = _nodes[i]
            if not n.leaves.isdisjoint(allvars):
                if n.fun is None or n.fun == -1:
                    continue
            else:
                bysort.setdefault(n.sort, {})[i] = n.t
            if n.fun in wanted and all(_nodes[c].leaves.isdisjoint(allvars)
                                       for c in n.ch):
                apps.setdefault(n.fun, {})[n.ch] = None
            if n.fun is not None and n.fun != -1:
                for k, c in enumerate(n.ch):
                    if _nodes[c].leaves.isdisjoint(allvars):
                        at.setdefault((n.fun, k, ()), {})[c] = _nodes[c].t
                        if n.sig:
                            at.setdefault((n.fun, k, n.sig), {})[c] = \
                                _nodes[c].t
        start = len(terms)
        new = []
        for q, (vs, f, pos, pats) in enumerate(quant):
            cands, size = [], 1
            if pats:
                combos = {m for c in pats for m in matches(c, vs, apps)}
                combos = [[(i, _nodes[i].t) for i in c] for c in combos]
            for v in vs if not pats else ():
                c = {}
                for p in pos[v.get_id()]:
                    c.update(at.get(p, {}))
                if not pos[v.get_id()]:
                    c = bysort.get(v.sort().name(), {})
                cands.append(list(c.items()))
                size *= len(c)
            if size > MAXINST:
                continue
            for combo in combos if pats else itertools.product(*cands):
                key = (q,) + tuple(i for i, _ in combo)
                if key in done:
                    continue
                done.add(key)
                key = (f.get_id(),) + key[1:]
                t = _inst.get(key)
                if t is None:
                    t = z3.substitute(f, *zip(vs, [t for _, t in combo]))
                    _inst[key] = t, f       # (keeps the identifiers valid)
                else:
                    t = t[0]
                new.append(t)
        if not new:
            break
        out += new
        for g in new:
            walk(node(g).t.get_id(), seen, terms)
        if len(out) > 4 * MAXINST:
            break
    return out


def cvc5_check(s, timeout):
    text = "(set-logic ALL)\n(set-option :strings-exp true)\n" + \
        "\n".join(x for x in s.to_smt2().splitlines()
                  if not x.startswith("(set-"))
    try:
        r = subprocess.run(["cvc5", "--lang", "smt2", f"--tlimit="
                            f"{int(timeout * 1000)}"], input=text,
                           capture_output=True, text=True,
                           timeout=timeout + 5)
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return "unknown"
    w = r.stdout.split()
    return w[0] if w and w[0] in ("sat", "unsat") else "unknown"


def split(g, limit=60):
    """Conjuncts of a goal, also below disjunctions."""
    if z3.is_and(g):
        return [y for x in g.children() for y in split(x, limit)]
    if z3.is_not(g):
        x = g.arg(0)
        if z3.is_or(x):
            return [z for y in x.children() for z in split(
                z3.Not(y), limit)]
        if z3.is_not(x):
            return split(x.arg(0), limit)
        return [g]
    if z3.is_implies(g):
        return split(z3.Or(z3.Not(g.arg(0)), g.arg(1)), limit)
    if z3.is_or(g):
        for i, x in enumerate(g.children()):
            p = split(x, limit)
            if 1 < len(p) <= limit:
                rest = [y for k, y in enumerate(g.children()) if k != i]
                return [z for y in p for z in split(z3.Or(*rest, y),
                                                    limit // len(p))]
    return [g]


class Stats:
    def __init__(self):
        self.vcs, self.time = 0, 0.0
        self.by = {}
        self.cache = {}

    def check(self, facts, pc, goal, timeout=12, hard=True):
        """'proved', 'refuted' or 'unknown' for facts, pc |- goal"""
        if goal is True:
            self.by["syntactic"] = self.by.get("syntactic", 0) + 1
            self.vcs += 1
            return "proved", None
        hyp = [B(c) for c in pc]
        parts = split(goal) if is_z3(goal) else [goal]
        if len(parts) > 1 and hasattr(facts, "patience"):
            q = hyp + [z3.Not(goal)]
            few = instantiate(facts.univ, q, 2, False, True)
            if abstractly_unsat(q + few, facts.patience):
                self.vcs += 1
                self.by["z3"] = self.by.get("z3", 0) + 1
                return "proved", None
        if len(parts) > 1:
            # conjunct by conjunct
            if len(parts) > 12:
                r = self.unsat(facts, hyp + [z3.Not(goal)], 1, False)
                if r[0] == "proved":
                    return r
            worst = "proved", None
            for g in parts:
                r = self.unsat(facts, hyp + [z3.Not(g)], timeout)
                if r[0] == "refuted":
                    return r
                if r[0] == "unknown":
                    worst = r
            return worst
        neg = z3.Not(B(goal))
        return self.unsat(facts, hyp + [neg], timeout, hard)

    def unsat(self, facts, asserts, timeout=12, hard=True):
        self.vcs += 1
        t = time.time()
        try:
            s = z3.Solver()
            s.set("timeout", int(timeout * (300 if hard else 1000)))
            if len(asserts) > 6:
                # often the path does not matter
                f = z3.Solver()
                f.set("timeout", 100)
                f.add(asserts[-1])
                if f.check() == z3.unsat:
                    self.by["z3"] = self.by.get("z3", 0) + 1
                    return "proved", None
            for left in (False, True):
                few = instantiate(facts.univ, asserts, 2, left, True)
                f = z3.Solver()
                f.set("timeout", getattr(facts, "patience", 500))
                add(f, asserts)
                add(f, few)
                if f.check() == z3.unsat:
                    self.by["z3"] = self.by.get("z3", 0) + 1
                    return "proved", None
                if (left or hasattr(facts, "patience")) and \
                        abstractly_unsat(list(asserts) + few):
                    self.by["z3"] = self.by.get("z3", 0) + 1
                    return "proved", None
            inst = instantiate(facts.univ, asserts)
            if hard and abstractly_unsat(list(asserts) + inst, 3000):
                self.by["z3"] = self.by.get("z3", 0) + 1
                return "proved", None
            add(s, asserts)
            add(s, inst)
            r = s.check()
            if r != z3.unsat:
                more = instantiate(facts.univ, asserts, left=True)
                if len(more) > len(inst):
                    s = z3.Solver()
                    s.set("timeout", int(timeout * 300))
                    add(s, asserts)
                    add(s, more)
                    r = s.check()
            if r == z3.unsat:
                self.by["z3"] = self.by.get("z3", 0) + 1
                return "proved", None
            if r == z3.sat:
                return "refuted", s.model()
            if not hard:
                return "unknown", None
            r = cvc5_check(s, timeout)
            if r == "unsat":
                self.by["cvc5"] = self.by.get("cvc5", 0) + 1
                return "proved", None
            s.set("timeout", int(timeout * 1000))
            r = s.check()
            if r == z3.unsat:
                self.by["z3"] = self.by.get("z3", 0) + 1
                return "proved", None
            if r == z3.sat:
                return "refuted", s.model()
            return "unknown", None
        finally:
            self.time += time.time() - t
