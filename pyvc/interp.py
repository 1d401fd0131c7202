"""Symbolic interpreter: from the source of a function to its exits.

The interpreter reads the abstract syntax tree of the code under test, runs a
function on symbolic arguments and yields every way in which it can be left
(return, exception) with the path condition, result, and heap of that exit.
Control flow is joined, loops over symbolic collections are summarised by the
rule for independent iterations (`for_comp`), calls are replaced by the
contract of the callee if there is one and inlined otherwise.
"""
import ast
import os
import time
import z3
from .solve import add, relevant, instantiate, abstractly_unsat
from .core import *  # noqa: F403,F401
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, is_str, is_sstr,
                   is_int, is_bool, is_pv, is_sint, is_sbool, If_, const_str,
                   pystr, U, Tup, Seq, Rope, Text, LoopText, Rec, Ref, Idx,
                   MaxV, Undef, Exc, Opaque, Func, Bound, Method, Cls, Lib,
                   Py, Obj, MapBase, EMPTY, SetOp, DelOp, Bulk, Elem, Comp,
                   subst, same, box, concat, merge, merge_many, State, Exit,
                   merge_states, common_prefix, guard_op, Facts, Unsupported,
                   Dead, PV, STR, INT, BOOL, V)


class Acc(V):
    """Content of a text variable at the start of a loop iteration."""

    def __init__(self, name):
        self.name = name


class Modules:
    """Parsed source of the package."""

    def __init__(self, root, package="sofar"):
        self.root, self.package = root, package
        self.tree, self.src, self.glob = {}, {}, {}
        base = os.path.join(root, package)
        for f in sorted(os.listdir(base)):
            if f.endswith(".py"):
                name = package if f == "__init__.py" else \
                    f"{package}.{f[:-3]}"
                with open(os.path.join(base, f), encoding="utf-8") as fid:
                    self.src[name] = fid.read()
                self.tree[name] = ast.parse(self.src[name])
        for name in self.tree:
            self.glob[name] = self._globals(name)

    def _globals(self, mod):
        g = {}
        for n in ast.walk(ast.Module(self.tree[mod].body, [])):
            pass
        for n in self.tree[mod].body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    g[a.asname or a.name.split(".")[0]] = \
                        ("import", a.name if a.asname else
                         a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                m = n.module or ""
                if n.level:
                    m = self.package + ("." + m if m else "")
                for a in n.names:
                    g[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(n, ast.FunctionDef):
                g[n.name] = ("def", n)
            elif isinstance(n, ast.ClassDef):
                g[n.name] = ("class", n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        g[t.id] = ("const", n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                g[n.target.id] = ("const", n.value)
        return g

    def find(self, qual):
        """'sofar.sofa.Sofa.verify' -> Func or Cls."""
        for mod in sorted(self.tree, key=len, reverse=True):
            if qual.startswith(mod + "."):
                rest = qual[len(mod) + 1:].split(".")
                d = self.glob[mod].get(rest[0])
                if d is None:
                    return None
                if d[0] == "from" and len(rest) >= 1:
                    return self.find(".".join([d[1], d[2]] + rest[1:]))
                if d[0] == "def" and len(rest) == 1:
                    return Func(mod, d[1])
                if d[0] == "class":
                    if len(rest) == 1:
                        return Cls(mod, d[1])
                    m = class_members(d[1]).get(rest[1])
                    if m is not None and m[0] in ("method", "static",
                                                  "property", "classmethod"):
                        return Func(mod, m[1], d[1].name)
        return None


def class_members(node):
    """name -> (kind, node)"""
    out = {}
    for n in node.body:
        if isinstance(n, ast.FunctionDef):
            kind = "method"
            for d in n.decorator_list:
                if isinstance(d, ast.Name) and d.id == "staticmethod":
                    kind = "static"
                elif isinstance(d, ast.Name) and d.id == "classmethod":
                    kind = "classmethod"
                elif isinstance(d, ast.Name) and d.id == "property":
                    kind = "property"
                elif isinstance(d, ast.Attribute) and d.attr == "setter":
                    kind = "setter"
                else:
                    kind = "decorated"
            if kind == "setter":
                out[n.name + ".setter"] = ("setter", n)
            else:
                out[n.name] = (kind, n)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = ("var", n.value)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            out[n.target.id] = ("var", n.value)
    return out


OBJECT_DUNDERS = ["__class__", "__dict__", "__doc__", "__module__",
                  "__init__", "__repr__", "__str__", "__eq__", "__ne__",
                  "__hash__", "__reduce__", "__reduce_ex__", "__new__",
                  "__setattr__", "__getattribute__", "__delattr__",
                  "__sizeof__", "__format__", "__dir__", "__weakref__",
                  "__init_subclass__", "__subclasshook__", "__lt__", "__le__",
                  "__gt__", "__ge__", "__getstate__"]

EXC_BASES = {"KeyError": ["LookupError"], "IndexError": ["LookupError"],
             "UnboundLocalError": ["NameError"],
             "UnicodeEncodeError": ["ValueError"],
             "JSONDecodeError": ["ValueError"],
             "FileNotFoundError": ["OSError"], "AxisError": ["ValueError"]}


def exc_matches(name, handler):
    if handler in ("Exception", "BaseException") or name == handler:
        return True
    return any(exc_matches(b, handler) for b in EXC_BASES.get(name, []))


class Carried(Unsupported):
    def __init__(self, oid, key):
        Unsupported.__init__(self, f"loop carried attribute {key}")
        self.oid, self.key = oid, key


class Interp:
    def __init__(self, mods, contracts=None, lib=None, methods=None):
        self.mods = mods
        self.facts = Facts()
        self.objs = {}
        self.st = State()
        self.exits = []
        self.contracts = contracts or {}
        from . import lib as L
        self.L = L
        self.reads = None
        self.immutable = {}
        self.prune = False
        self.plain, self.reserved = None, ()
        self.depth = 0
        self.called = {}
        self.inlined = set()
        self.lib_used = set()
        self.nsat = 0
        self.tsat = 0.0
        self._solver = None
        self._cmod = {}
        self.bulk_cache, self.sat_cache = {}, {}
        self.space = 0
        self.io = self.new("list", name="io")
        self.hooks = {}
        self.copied = {}
        self.deadline = None
        self.nofeas = False
        self.havoc = False
        self.trusted = set()
        self.lengths = []
        self.arr_seen = {}
        self.opaque_attrs, self.opaque_methods, self.cms = {}, {}, {}
        self.now_text = z3.Const("now", STR)

    # ------------------------------------------------------------- allocation
    def new(self, kind, base=None, cls=None, name=None, log=(), meta=None):
        oid = len(self.objs) + 1
        if base is None and kind in ("map", "inst"):
            base = EMPTY
        self.objs[oid] = Obj(kind, oid, base, cls, name, meta)
        self.st.heap[oid] = tuple(log)
        return Ref(oid)

    def obj(self, ref):
        return self.objs[ref.oid]

    def log(self, ref, st=None):
        return (st or self.st).heap.get(ref.oid, ())

    def put(self, ref, op):
        self.st.heap[ref.oid] = self.log(ref) + (op,)

    def new_list(self, vals):
        return self.new("list", log=[Elem(True, v) for v in vals])

    def new_map(self, items):
        return self.new("map", log=[SetOp(True, k, v) for k, v in items])

    def do_io(self, *vals):
        self.put(self.io, Elem(True, Opaque(*vals)))

    # ---------------------------------------------------------------- solving
    def feasible(self, st=None, extra=(), timeout=40):
        st = st or self.st
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("symbolic execution took too long")
        for c in st.pc + tuple(extra):
            if c is False or (is_z3(c) and z3.is_false(c)):
                return False
        cs = [B(c) for c in st.pc + tuple(extra)]
        key = frozenset(c.get_id() for c in cs)
        old = self.sat_cache.get(key)
        if old is not None and (not old[0] or old[1:3] == (
                len(self.facts.univ), timeout)):
            return old[0]
        s = z3.Solver()
        # (a resource limit, to be independent of the load of the machine)
        s.set("rlimit", 1000 * timeout)
        s.set("timeout", 10 * timeout)
        add(s, relevant([f for _, f in self.facts.univ], cs))
        add(s, cs)
        t = time.time()
        r = s.check()
        self.nsat += 1
        self.tsat += time.time() - t
        self.sat_cache[key] = (r != z3.unsat, len(self.facts.univ), timeout,
                               cs)
        return r != z3.unsat

    def possible_deep(self, st, extra, timeout=2000):
        """Like feasible(), with the facts instantiated."""
        if not self.feasible(st, extra):
            return False
        asserts = [B(c) for c in st.pc + tuple(extra)]
        s = z3.Solver()
        s.set("rlimit", 1000 * timeout)
        s.set("timeout", 5 * timeout)
        add(s, asserts)
        few = instantiate(self.facts.univ, asserts, 2, True, True)
        add(s, few)
        r = s.check()
        if r != z3.unknown:
            return r == z3.sat
        if self.prune and abstractly_unsat(asserts + few, 5 * timeout):
            return False
        s = z3.Solver()
        s.set("rlimit", 1000 * timeout)
        s.set("timeout", 10 * timeout)
        add(s, asserts)
        add(s, instantiate(self.facts.univ, asserts, rounds=2, left=True))
        return s.check() != z3.unsat

    def known(self, c):
        """True / False if decided by the path condition, else None."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for p in self.st.pc:
            if is_z3(p) and p.eq(c):
                return True
        if not self.feasible(extra=(c,)):
            return False
        if not self.feasible(extra=(z3.Not(c),)):
            return True
        return None

    def possible(self, v):
        """The value without the alternatives that can not occur here."""
        if not isinstance(v, U) or box(v) is not None:
            return v
        cs = [(g, x) for g, x in v.cases if box(x) is not None or
              self.possible_deep(self.st, (B(g),))]
        return merge_many(cs) if cs else v

    def narrow(self, v):
        """The term without alternatives that the path condition excludes."""
        if not isinstance(v, z3.ExprRef) or not z3.is_app(v):
            return v
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            k = self.known(v.arg(0))
            return v if k is None else self.narrow(v.arg(1 if k else 2))
        if v.num_args() == 1 and v.arg(0).sort() == PV:
            x = self.narrow(v.arg(0))
            if not x.eq(v.arg(0)):
                return z3.simplify(v.decl()(x))
        return v

    # ---------------------------------------------------------------- control
    def assume(self, *c):
        self.st.assume(*c)

    def raise_(self, name, *args):
        self.exits.append(Exit("raise", self.st.copy(), Exc(name, args)))
        raise Dead()

    def raise_if(self, cond, name, *args):
        """Raise under cond, continue otherwise."""
        if cond is False:
            return
        if is_z3(cond) and z3.is_false(z3.simplify(cond)):
            return
        if cond is True:
            self.raise_(name, *args)
        if self.feasible(extra=(cond,)):
            st = self.st.copy()
            st.assume(cond)
            self.exits.append(Exit("raise", st, Exc(name, args)))
        self.assume(Not_(cond))
        if not self.feasible():
            raise Dead()

    def branch(self, cases, merge_value=True):
        """Run the thunk of every feasible case and join."""
        base = self.st
        cases = [(g, f) for g, f in cases if g is not False]
        res, exhaustive = [], True
        for g, f in cases:
            st = base.copy()
            st.assume(g)
            if g is not True and not self.feasible(st):
                continue
            self.st, exits = st, self.exits
            try:
                v = f()
            except Dead:
                exhaustive = False
                continue
            except Unsupported as ex:
                self.unreachable(ex, exits)
                exhaustive = False
                continue
            res.append((g, self.st, v))
        if not res:
            self.st = base
            raise Dead()
        if len(res) == 1:
            self.st = res[0][1]
            return res[0][2]
        st = merge_states([(g, s) for g, s, _ in res])
        n = len(base.pc)
        pc = list(base.pc)
        if not exhaustive:
            pc.append(B(Or_(*[g for g, _, _ in res])))
        for g, s, _ in res:
            for c in s.pc[n:]:
                if c is g or (is_z3(c) and is_z3(g) and c.eq(g)):
                    continue
                c = Imp_(g, c)
                if c is not True:
                    pc.append(c)
        st.pc = tuple(pc)
        self.st = st
        if not merge_value:
            return None
        return merge_many([(g, v) for g, _, v in res])

    def unreachable(self, ex, exits):
        """What is not supported does not matter where it cannot be reached;
        `exits` are those when the evaluation began (others would be lost)."""
        if getattr(ex, "possible", False) or isinstance(ex, Carried):
            raise ex
        ex.possible = True
        if self.exits is not exits or self.possible_deep(self.st, ()):
            raise ex

    def cond(self, c, then, els):
        """Python level if on a truth value."""
        if isinstance(c, bool):
            return then() if c else els()
        c = z3.simplify(c)
        if z3.is_true(c):
            return then()
        if z3.is_false(c):
            return els()
        return self.branch([(c, then), (Not_(c), els)])

    def lift(self, f, *vals):
        """Apply f to the alternatives of guarded unions."""
        for i, v in enumerate(vals):
            if isinstance(v, U):
                return self.branch([
                    (g, (lambda x: lambda: self.lift(
                        f, *vals[:i], x, *vals[i + 1:]))(x))
                    for g, x in v.cases])
            if isinstance(v, Undef):
                raise Unsupported(f"use of {v.why}")
        return f(*vals)

    # ------------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        return self.lift(lambda f: self._call(f, list(args), dict(kw)), f)

    def _call(self, f, args, kw):
        if isinstance(f, Py):
            return f.fn(self, *args, **kw)
        if isinstance(f, Bound):
            return self._call(f.func, [f.obj] + args, kw)
        if isinstance(f, Func):
            c = self.contracts.get(f.qualname)
            if c is not None:
                self.called[f.qualname] = self.called.get(f.qualname, 0) + 1
                return c(self, *args, **kw)
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            c = self.contracts.get(f"{f.module}.{f.name}")
            if c is not None:
                self.called[f"{f.module}.{f.name}"] = 1
                return c(self, *args, **kw)
            return self.instantiate(f, args, kw)
        if isinstance(f, Lib):
            return self.L.call_lib(self, f.path, args, kw)
        if isinstance(f, Method):
            return self.lift(lambda o: self.L.call_method(
                self, o, f.name, args, kw), f.obj)
        if isinstance(f, Opaque):
            return self.L.call_opaque(self, f, args, kw)
        raise Unsupported(f"call of {type(f).__name__}")

    def instantiate(self, cls, args, kw):
        ref = self.new("inst", cls=cls, name=cls.name)
        m = class_members(cls.node)
        if "__init__" in m:
            self.call(Bound(ref, Func(cls.module, m["__init__"][1],
                                      cls.name)), args, kw)
        return ref

    def call_func(self, f, args, kw):
        if self.depth > 24:
            raise Unsupported("recursion")
        node = f.node
        self.inlined.add(f.qualname)
        a = node.args
        loc = dict(f.closure or {})
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        args = list(args)
        for n in names:
            if args:
                loc[n] = args.pop(0)
            elif n in kw:
                loc[n] = kw.pop(n)
            elif n in defaults:
                loc[n] = self.eval_const(f.module, defaults[n])
            else:
                self.raise_("TypeError", f"missing argument {n}")
        if a.vararg:
            loc[a.vararg.arg] = Tup(args)
            args = []
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg in kw:
                loc[n.arg] = kw.pop(n.arg)
            elif d is not None:
                loc[n.arg] = self.eval_const(f.module, d)
            else:
                self.raise_("TypeError", f"missing argument {n.arg}")
        if a.kwarg:
            loc[a.kwarg.arg] = self.new_map(list(kw.items()))
            kw = {}
        if args or kw:
            self.raise_("TypeError", "unexpected argument")
        loc["__module__"], loc["__cls__"] = Py(None, f.module), \
            Py(None, f.cls or "")
        saved, saved_exits = self.st.loc, self.exits
        self.st.loc, self.exits = loc, []
        self.depth += 1
        entry = self.st.pc
        fell = None
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body)
                self.exits.append(Exit("return", self.st, v))
            else:
                self.block(node.body)
                fell = self.st
        except Dead:
            fell = None
        finally:
            self.depth -= 1
            mine, self.exits = self.exits, saved_exits
        if fell is not None:
            mine.append(Exit("return", fell, None))
        rets = []
        for e in mine:
            e.state.loc = saved
            if e.kind == "return":
                rets.append(e)
            elif e.kind == "raise":
                self.exits.append(e)
            else:
                raise Unsupported("break outside of a loop")
        if not rets:
            raise Dead()
        if len(rets) == 1:
            self.st = rets[0].state
            return rets[0].value
        return self.join(rets, len(entry))

    def join(self, exits, n):
        """Join exits with a common path condition of at least n conjuncts."""
        n = max(n, 0)
        n = min(n, common_prefix([e.state.pc for e in exits]))
        gs = [And_(*e.state.pc[n:]) for e in exits]
        # telescoping guards:  the path conditions of a function with early
        # returns overlap in their prefixes, the simplifier removes that
        gs = [z3.simplify(B(g)) for g in gs]
        pairs = [(g, e.state) for g, e in zip(gs, exits)]
        pc = exits[0].state.pc[:n]
        st = merge_states(pairs)
        whole = z3.simplify(B(Or_(*gs)))
        st.pc = pc if z3.is_true(whole) else pc + (whole,)
        self.st = st
        return merge_many([(g, e.value) for g, e in zip(gs, exits)])

    # -------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            exits = self.exits
            try:
                getattr(self, "x_" + type(s).__name__, self.x_unknown)(s)
            except Unsupported as ex:
                self.unreachable(ex, exits)
                raise Dead()

    def x_unknown(self, s):
        raise Unsupported(f"statement {type(s).__name__}")

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Import(self, s):
        for a in s.names:
            self.st.loc[a.asname or a.name.split(".")[0]] = \
                self.lib(a.name if a.asname else a.name.split(".")[0])

    def x_ImportFrom(self, s):
        m = s.module or ""
        if s.level:
            m = self.mods.package + ("." + m if m else "")
        for a in s.names:
            self.st.loc[a.asname or a.name] = self.lib(f"{m}.{a.name}")

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            try:
                new = self.L.inplace(self, s.op, old, self.eval(s.value))
            except Unsupported:
                if os.environ.get("PYVC_DBG"): print("AUG", s.lineno, old, self.st.loc.get("shape_act"))
                raise
            self.assign(t, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr,
                         self.L.inplace(self, s.op, old, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o, i = self.eval(t.value), self.eval(t.slice)
            old = self.L.getitem(self, o, i)
            self.L.setitem(self, o, i, self.L.inplace(
                self, s.op, old, self.eval(s.value)))
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.loc[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.L.setitem(self, o, self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            if star:
                raise Unsupported("starred assignment")
            for x, w in zip(t.elts, self.L.unpack(self, v, len(t.elts))):
                self.assign(x, w)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.loc.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value), t.attr)
            elif isinstance(t, ast.Subscript):
                self.L.delitem(self, self.eval(t.value), self.eval(t.slice))
            else:
                raise Unsupported("del")

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        self.cond(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.exits.append(Exit("return", self.st, v))
        raise Dead()

    def x_Raise(self, s):
        if s.exc is None:
            cur = self.st.loc.get("__exc__")
            if cur is None:
                raise Unsupported("bare raise")
            self.exits.append(Exit("raise", self.st.copy(), cur))
            raise Dead()
        e = self.eval(s.exc)
        if isinstance(e, Lib):
            e = Exc(e.path.split(".")[-1])
        if not isinstance(e, Exc):
            raise Unsupported("raise of a value")
        self.exits.append(Exit("raise", self.st.copy(), e))
        raise Dead()

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.raise_if(Not_(c), "AssertionError")

    def x_Break(self, s):
        self.exits.append(Exit("break", self.st))
        raise Dead()

    def x_Continue(self, s):
        self.exits.append(Exit("continue", self.st))
        raise Dead()

    def x_FunctionDef(self, s):
        self.st.loc[s.name] = Func(self.module(), s, None,
                                   closure=self.st.loc)

    def x_Global(self, s):
        raise Unsupported("global")

    def x_Try(self, s):
        self.try_(lambda: self.block(s.body), s.handlers, s.orelse,
                  s.finalbody)

    def try_(self, body, handlers, orelse=(), finalbody=()):
        saved = self.exits
        self.exits = []
        loc_exc = self.st.loc.get("__exc__")
        normal = []
        n0 = len(self.st.pc)
        try:
            body()
            normal.append(Exit("normal", self.st))
        except Dead:
            pass
        inner, self.exits = self.exits, []
        out = []
        left = []
        for e in inner:
            (left if e.kind == "raise" else out).append(e)
        for h in handlers:
            if h.type is None:
                names = ["BaseException"]
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) \
                    else [h.type]
                names = []
                for t in ts:
                    names.append(t.attr if isinstance(t, ast.Attribute)
                                 else t.id)
            mine = [e for e in left
                    if any(exc_matches(e.value.name, n) for n in names)]
            left = [e for e in left if e not in mine]
            if not mine:
                continue
            for e in mine:
                e.state.loc = dict(e.state.loc)
                e.state.loc["__exc__"] = e.value
                if h.name:
                    e.state.loc[h.name] = e.value
            if len(mine) == 1:
                self.st = mine[0].state
            else:
                self.join(mine, n0)
                ev = merge_many_exc([e.value for e in mine])
                self.st.loc["__exc__"] = ev
                if h.name:
                    self.st.loc[h.name] = ev
            try:
                self.block(h.body)
                self.st.loc["__exc__"] = loc_exc
                normal.append(Exit("normal", self.st))
            except Dead:
                pass
        out += left + self.exits
        self.exits = []
        if orelse:
            raise Unsupported("try/else")
        if finalbody:
            res = []
            for e in out:
                self.st = e.state
                try:
                    self.block(finalbody)
                    e.state = self.st
                    res.append(e)
                except Dead:
                    pass
            res += self.exits
            self.exits = []
            out = res
        self.exits = saved + out
        if not normal:
            raise Dead()
        if len(normal) == 1:
            self.st = normal[0].state
        else:
            self.join(normal, n0)
        if finalbody:
            self.block(finalbody)

    def x_With(self, s):
        self.with_(s.items, s.body)

    def with_(self, items, body):
        if not items:
            self.block(body)
            return
        it = items[0]
        cm = self.eval(it.context_expr)
        if isinstance(cm, Opaque) and cm.tag == "suppress":
            h = [ast.ExceptHandler(type=ast.Name(n, ast.Load()), name=None,
                                   body=[ast.Pass()]) for n in cm.args]
            return self.try_(lambda: self.with_(items[1:], body), h)
        v = self.L.enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        saved = self.exits
        self.exits = []
        ok = False
        try:
            self.with_(items[1:], body)
            ok = True
        except Dead:
            pass
        inner, self.exits = self.exits, []
        normal = self.st
        res = []
        for e in inner:
            self.st = e.state
            self.L.leave(self, cm)
            e.state = self.st
            res.append(e)
        self.exits = saved + res
        if not ok:
            raise Dead()
        self.st = normal
        self.L.leave(self, cm)

    # ------------------------------------------------------------------- loops
    def x_For(self, s):
        if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
                and s.iter.func.id == "iter":
            raise Unsupported("iter()")
        segs = self.L.iterate(self, self.eval(s.iter))
        assigned = assigned_names(s.body) | target_names(s.target)

        def body(v):
            self.assign(s.target, v)
            self.block(s.body)

        outer = self.immutable
        self.immutable = self.immutables(assigned, s.body)
        try:
            self.loop(segs, body, assigned, s.orelse)
        finally:
            self.immutable = outer

    def immutables(self, names, stmts):
        """Variables that a loop leaves with an immutable (or new) value: an
        immutable one before, and assigned by literals, and by += with a
        display of a tuple (tuples) or with anything (texts) only."""
        mark = self.L.IMMUTABLE
        out = {}
        for name in names:
            v = self.st.loc.get(name)
            text = v is not None and self.L.textual(self, v)
            if not text and not isinstance(v, (Tup, Seq)) and not (
                    isinstance(v, Opaque) and v.tag == "unknown"
                    and v.args and mark in str(v.args[0])):
                continue
            ok = True
            for s in stmts:
                allowed = set()
                for n in ast.walk(s):
                    if isinstance(n, ast.AugAssign) \
                            and isinstance(n.target, ast.Name) \
                            and isinstance(n.op, ast.Add) \
                            and (text or isinstance(n.value, ast.Tuple)):
                        allowed.add(id(n.target))
                    elif isinstance(n, ast.Assign) and isinstance(
                            n.value, (ast.Constant, ast.JoinedStr,
                                      ast.Tuple)):
                        allowed |= {id(t) for t in n.targets}
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and n.id == name and \
                            not isinstance(n.ctx, ast.Load) \
                            and id(n) not in allowed:
                        ok = False
            if ok:
                out[name] = mark
        return out

    def havoc_while(self, s):
        """Invariant: the objects are as they were before the loop; nothing
        is known about the local variables it assigns."""
        if s.orelse:
            raise Unsupported("while/else")
        heap = dict(self.st.heap)
        self.st.loc = dict(self.st.loc)
        names = assigned_names(s.body)
        mark = self.immutables(names, s.body)
        for n in names:
            self.st.loc[n] = Opaque(
                "unknown", f"{n} in a loop" + mark.get(n, ""))
        c = self.truth(self.eval(s.test))
        after = self.st.copy()
        after.assume(Not_(c))
        saved, self.exits = self.exits, []
        ends = [Exit("normal", after)]
        n0 = len(after.pc) - 1
        try:
            self.assume(c)
            self.block(s.body)
            self.exits.append(Exit("continue", self.st))
        except Dead:
            pass
        mine, self.exits = self.exits, saved
        for e in mine:
            if e.kind in ("continue", "break") and any(
                    e.state.heap.get(k) != v for k, v in heap.items()):
                raise Unsupported("while loop: effects on objects")
            if e.kind == "break":
                ends.append(e)
            elif e.kind != "continue":
                self.exits.append(e)
        if len(ends) == 1:
            self.st = ends[0].state
        else:
            self.join(ends, n0)

    def x_While(self, s):
        if self.havoc:
            return self.havoc_while(s)
        # complete unrolling; the bound is checked, not assumed
        saved = self.exits
        brk = []
        n0 = len(self.st.pc)
        done = []
        dead = False
        for _ in range(9):
            try:
                c = self.truth(self.eval(s.test))
            except Unsupported as ex:
                self.unreachable(ex, saved)
                dead = True
                break
            k = self.known(c)
            if k is False:
                break
            if k is None:
                st = self.st.copy()
                st.assume(Not_(c))
                done.append(Exit("normal", st))
                self.assume(c)
            self.exits = []
            alive = True
            try:
                self.block(s.body)
            except Dead:
                alive = False
            mine, self.exits = self.exits, saved
            cont = []
            for e in mine:
                if e.kind == "break":
                    brk.append(e)
                elif e.kind == "continue":
                    cont.append(e)
                else:
                    saved.append(e)
            if alive:
                cont.append(Exit("normal", self.st))
            if not cont:
                dead = True
                break
            if len(cont) == 1:
                self.st = cont[0].state
            else:
                self.join(cont, n0)
        else:
            self.unreachable(Unsupported(
                "while loop: no bound on the iterations"), saved)
            dead = True
        self.exits = saved
        ends = done + ([] if dead else [Exit("normal", self.st)])
        if s.orelse:
            raise Unsupported("while/else")
        ends += brk
        if not ends:
            raise Dead()
        if len(ends) == 1:
            self.st = ends[0].state
        else:
            self.join(ends, n0)

    def loop(self, segs, body, assigned, orelse=()):
        """Run body(value) for the elements of the segments in order."""
        n0 = len(self.st.pc)
        breaks = []
        alive = True
        for sg in segs:
            saved = self.exits
            self.exits = []
            try:
                if isinstance(sg, Elem):
                    self.elem_iter(sg, body)
                else:
                    self.for_comp(sg, body, assigned)
            except Dead:
                alive = False
            mine, self.exits = self.exits, saved
            for e in mine:
                if e.kind == "break":
                    breaks.append(e)
                elif e.kind == "continue":
                    raise Unsupported("continue")
                else:
                    self.exits.append(e)
            if not alive:
                break
        if alive and orelse:
            try:
                self.block(orelse)
            except Dead:
                alive = False
        ends = ([Exit("normal", self.st)] if alive else []) + breaks
        if not ends:
            raise Dead()
        if len(ends) == 1:
            self.st = ends[0].state
        else:
            self.join(ends, n0)

    def run_iter(self, thunk):
        """Run one iteration; continue exits are joined with the end."""
        saved = self.exits
        self.exits = []
        n0 = len(self.st.pc)
        alive = True
        try:
            thunk()
        except Dead:
            alive = False
        mine, self.exits = self.exits, saved
        ends = [Exit("normal", self.st)] if alive else []
        for e in mine:
            if e.kind == "continue":
                ends.append(Exit("normal", e.state))
            else:
                self.exits.append(e)
        if not ends:
            raise Dead()
        if len(ends) == 1:
            self.st = ends[0].state
        else:
            self.join(ends, n0)

    def elem_iter(self, sg, body):
        sg = Elem(sg.g, self.force(sg.val))
        if sg.g is True:
            self.run_iter(lambda: body(sg.val))
        else:
            self.branch([(sg.g, lambda: self.run_iter(lambda: body(sg.val))),
                         (Not_(sg.g), lambda: None)], merge_value=False)

    def force(self, v):
        if isinstance(v, Lazy):
            return v.read(v.key)
        if isinstance(v, Tup):
            return Tup([self.force(x) for x in v.items])
        return v

    def for_comp(self, comp, body, assigned):
        """Iterations for all elements of a comprehension; attributes that
        one iteration passes to the next are treated like variables."""
        carried = {}
        while True:
            pre, saved, reads = self.st, self.exits, self.reads
            try:
                return self.for_comp_(comp, body, assigned, carried)
            except Carried as c:
                if (c.oid, c.key) in carried:
                    raise
                self.st, self.exits, self.reads = pre, saved, reads
                h, v = self.map_read(Ref(c.oid), c.key)
                if h is not True or not is_bool(v):
                    raise
                carried[c.oid, c.key] = self.facts.fresh(
                    "acc_" + c.key, BOOL)

    def for_comp_(self, comp, body, assigned, carried):
        F = self.facts
        e = F.fresh("e", comp.gen.sort())
        pairs = [(comp.gen, e)]
        dom = subst(comp.dom, pairs)
        items = [subst(x, pairs) for x in comp.items]
        pre = self.st
        oid0 = len(self.objs)
        st = pre.copy()
        st.assume(dom)
        if not self.feasible(st):
            return
        # locals at the start of an arbitrary iteration
        start = {}
        for name in assigned:
            if name not in pre.loc:
                continue
            v = pre.loc[name]
            F.gens.append(e)
            if is_str(v) or isinstance(v, Rope):
                start[name] = Rope([(True, Acc(name))])
            elif is_bool(v):
                start[name] = F.fresh("acc_" + name, BOOL)
            elif is_int(v) or isinstance(v, MaxV):
                start[name] = F.fresh("acc_" + name, INT)
            elif isinstance(v, Ref):
                start[name] = v
            else:
                start[name] = Undef(f"loop carried variable {name}"
                                    + self.immutable.get(name, ""))
            F.gens.pop()
            st.loc[name] = start[name]
        attrs = {}
        if carried:
            heap0 = pre
            pre = pre.copy()
            for (oid, key), acc in carried.items():
                attrs[oid, key] = (acc, self.map_read(
                    Ref(oid), key, heap0)[1])
                op = SetOp(True, key, acc)
                for x in (pre, st):
                    x.heap[oid] = x.heap[oid] + (op,)
        n1 = len(st.pc)
        outer_reads = self.reads
        self.reads = []
        saved = self.exits
        self.exits = []
        F.gens.append(e)
        self.st = st
        end = None
        try:
            for it in items:
                if isinstance(it, Elem):
                    self.elem_iter(it, body)
                else:
                    self.for_comp(it, body, assigned)
            end = self.st
        except Dead:
            pass
        finally:
            F.gens.pop()
        mine, self.exits = self.exits, saved
        reads, self.reads = self.reads, outer_reads
        if self.reads is not None:
            self.reads += reads
        if end is None and not mine:
            # no iteration can happen
            self.st = pre
            none = Not_(dom)
            self.forall_here(e, none)
            return
        # ---- effects of one completed iteration
        bulk = {}
        stable = {}
        if end is not None:
            for oid, lg in end.heap.items():
                if oid > oid0 or oid not in pre.heap:
                    continue
                n = len(pre.heap[oid])
                if len(lg) > n:
                    assert common_prefix([lg, pre.heap[oid]]) == n
                    ops = [self.freeze(x, end, oid0) for x in lg[n:]]
                    bulk[oid] = ops
            final = {a: self.as_bool(self.map_read(
                Ref(a[0]), a[1], end)[1], end) for a in attrs}
            self.check_independent(e, dom, pre, end, n1, bulk, reads, mine,
                                   attrs)
            for a, r in final.items():
                acc, old = attrs[a]
                r = B(r)
                if z3.is_true(z3.simplify(z3.substitute(
                        r, (acc, z3.BoolVal(True))))):
                    F.fact(Imp_(old, acc))
                if z3.is_false(z3.simplify(z3.substitute(
                        r, (acc, z3.BoolVal(False))))):
                    F.fact(Imp_(acc, old))
        rest = end.pc[n1:] if end is not None else (False,)
        all_rest = And_(*rest)
        exits = bool(mine)
        normal_flag = None
        if exits or all_rest is not True:
            normal_flag = F.fresh("completed", BOOL) if exits else True
        # ---- exits of the loop: `e` is the iteration that leaves
        lt = F.fresh_fun("before", e.sort(), e.sort(), BOOL)
        for x in mine:
            s = x.state
            if normal_flag is not None and normal_flag is not True:
                s.assume(z3.Not(normal_flag))
            # earlier iterations
            for oid, ops in bulk.items():
                n = len(pre.heap[oid])
                e2 = z3.Const(f"prev!{next(F.count)}", e.sort())
                d2 = And_(subst(dom, [(e, e2)]), lt(e2, e), Not_(e2 == e))
                ops2 = [subst(o, [(e, e2)]) for o in ops]
                s.heap[oid] = pre.heap[oid] + (
                    self.pack(oid, e2, d2, ops2),) + \
                    tuple(self.freeze(o, s, oid0) if x.kind == "break" else o
                          for o in s.heap[oid][n:])
            if x.kind == "break":
                for name in start:
                    endv = end.loc.get(name) if end is not None else \
                        start[name]
                    unchanged = end is None or same(endv, start[name])
                    v = s.loc.get(name)
                    if unchanged:
                        s.loc[name] = self.undo_acc(v, name, start[name],
                                                    pre.loc[name])
                    elif isinstance(v, Ref):
                        pass
                    elif mentions(v, start[name]):
                        s.loc[name] = Undef(f"{name} after break")
            self.exits.append(x)
        if end is None:
            # completes only without iterations
            self.st = pre
            st2 = pre.copy()
            st2.assume(normal_flag)
            self.st = st2
            self.forall_under(normal_flag, e, Not_(dom))
            if not self.feasible():
                raise Dead()
            return
        # ---- normal completion
        post = State(pre.pc, dict(end.loc), dict(end.heap))
        if normal_flag is not None and normal_flag is not True:
            post.assume(normal_flag)
        if all_rest is not True:
            if normal_flag is True:
                # consequences of the domain that cannot fail
                F.fact(Imp_(And_(*pre.pc, dom), all_rest), (e,))
            else:
                self.forall_under(normal_flag, e, Imp_(dom, all_rest))
        for oid, ops in bulk.items():
            post.heap[oid] = pre.heap[oid] + (self.pack(oid, e, dom, ops),)
        for (oid, key), (acc, old) in attrs.items():
            post.heap[oid] = post.heap[oid] + (SetOp(True, key, \
                self.after_loop(key, final[oid, key], acc, old, e, dom)),)
        for name in list(post.loc):
            if name in start:
                post.loc[name] = self.after_loop(
                    name, end.loc.get(name), start[name], pre.loc[name],
                    e, dom)
            elif name in assigned:
                post.loc[name] = Undef(f"loop variable {name}")
        self.st = post

    def forall_here(self, e, f):
        """f holds for all e in the current state."""
        flag = self.facts.fresh("here", BOOL)
        self.assume(flag)
        self.forall_under(flag, e, f)

    def forall_under(self, flag, e, f):
        self.facts.fact(Imp_(flag, f), (e,))

    def pack(self, oid, e, dom, ops):
        if self.objs[oid].kind in ("list", "set"):
            space = None
            if len(ops) == 1 and isinstance(ops[0], Elem) and \
                    ops[0].g is True:
                self.space += 1
                space = self.space
            return Comp(e, dom, ops, space)
        return Bulk(e, dom, ops)

    def undo_acc(self, v, name, start, old):
        """Value at a break of a variable no completed iteration changed."""
        if same(v, start):
            return old
        if isinstance(v, Rope) and isinstance(start, Rope):
            if v.parts and isinstance(v.parts[0][1], Acc):
                o = old.parts if isinstance(old, Rope) else ((True, old),)
                return Rope(tuple(o) + v.parts[1:])
            return v
        if is_z3(start) and is_z3(v):
            old = lit(old) if not isinstance(old, MaxV) else None
            if old is None:
                return Undef(name)
            return z3.simplify(z3.substitute(v, (start, old)))
        return v

    def after_loop(self, name, r, start, old, e, dom):
        """Value of a variable after all iterations."""
        F = self.facts
        mark = self.immutable.get(name, "")
        if r is None:
            return Undef(name + mark)
        if same(r, start):
            return old
        if isinstance(start, Rope):
            if not isinstance(r, Rope) or not r.parts or \
                    not isinstance(r.parts[0][1], Acc) or \
                    any(isinstance(c, Acc) for _, c in r.parts[1:]):
                return Undef(f"{name} after loop" + mark)
            parts = r.parts[1:]
            body = Rope(parts)
            some = present(body)
            ex = self.exists(e, And_(dom, some), "text_" + name)
            o = old.parts if isinstance(old, Rope) else \
                (((True, old),) if const_str(old) != "" else ())
            return Rope(tuple(o) + ((True, LoopText(e, dom, body, ex)),))
        if is_sbool(start) and is_bool(r):
            r = B(r)
            lo = z3.simplify(z3.substitute(r, (start, z3.BoolVal(False))))
            hi = z3.simplify(z3.substitute(r, (start, z3.BoolVal(True))))
            if z3.is_true(hi):          # r = start or lo
                return Or_(old, self.exists(e, And_(dom, lo), name))
            if z3.is_false(lo):         # r = start and hi
                return And_(old, Not_(self.exists(
                    e, And_(dom, Not_(hi)), name)))
            if lo.eq(hi) and (z3.is_true(lo) or z3.is_false(lo)):
                ex = self.exists(e, dom, name)
                return If_(ex, z3.is_true(lo), old)
            # value of some iteration
            if lo.eq(hi):
                ex, w = self.exists_w(e, dom, name)
                return If_(ex, z3.substitute(lo, (e, w)), old)
            if os.environ.get("PYVC_DBG"):
                print("AFTER", name, r, lo, hi)
            return Undef(f"{name} after loop" + mark)
        if is_sint(start):
            terms = None
            if isinstance(r, MaxV) and any(
                    is_z3(t) and t.eq(start) and g is True
                    for g, t in r.terms):
                terms = [(g, t) for g, t in r.terms
                         if not (is_z3(t) and t.eq(start))]
            if terms is not None and not any(
                    mentions(t, start) or mentions(g, start)
                    for g, t in terms):
                m = F.fresh("max_" + name, INT)
                olds = old.terms if isinstance(old, MaxV) else [(True, old)]
                opts = []
                for g, t in olds:
                    F.fact(Imp_(g, m >= t))
                    opts.append(And_(g, m == t))
                for g, t in terms:
                    F.fact(Imp_(And_(dom, g), m >= t), (e,))
                    ex, w = self.exists_w(
                        e, And_(dom, g, m == t), name)
                    opts.append(ex)
                F.fact(Or_(*opts))
                return m
            if is_int(r) and not mentions(r, start):
                ex, w = self.exists_w(e, dom, name)
                return If_(ex, z3.substitute(lit(r), (e, w)), old)
            return Undef(f"{name} after loop" + mark)
        if isinstance(start, Ref):
            return Undef(f"{name} rebound in a loop")
        if isinstance(start, Undef):
            return Undef(f"{name} after loop" + mark)
        if os.environ.get("PYVC_DBG"):
            print("AFTER?", name, start, r)
        return Undef(name + mark)

    def exists(self, e, f, name="ex"):
        return self.exists_w(e, f, name)[0]

    def exists_w(self, e, f, name="ex"):
        """Flag that is true iff f(e) for some e, and a witness."""
        if f is False:
            return False, None
        F = self.facts
        if is_z3(f) and not mentions(f, e):
            return f, F.fresh("any", e.sort())
        ex = F.fresh("ex_" + name, BOOL)
        w = F.fresh("w_" + name, e.sort())
        F.fact(Imp_(ex, subst(B(f), [(e, w)])))
        F.fact(Imp_(f, ex), (e,))
        return ex, w

    # ---- independence of the iterations
    def collide(self, e, e2, dom, k, k2):
        """Can the keys of different iterations be equal at all?"""
        k, k2 = lit(k), subst(lit(k2), [(e, e2)])
        if k.sort() != k2.sort():
            return True
        q = [B(dom), B(subst(dom, [(e, e2)])), z3.Not(e2 == e), k == k2]
        s = z3.Solver()
        s.set("timeout", 2000)
        add(s, q)
        add(s, instantiate([x for x in self.facts.univ if len(x[0]) > 1], q,
                           1, True))
        return s.check() != z3.unsat

    def check_independent(self, e, dom, pre, end, n1, bulk, reads, exits,
                          attrs=()):
        e2 = z3.Const(f"other!{next(self.facts.count)}", e.sort())
        for oid in list(bulk):
            o = self.objs[oid]
            if o.kind in ("list", "set"):
                if any(r[0] == oid for r in reads):
                    raise Unsupported("list read and changed in a loop")
                continue
            ops = flatten_ops(bulk[oid])
            # locations with a constant key whose value is restored
            consts = {const_str(k) for _, k, _ in ops
                      if const_str(k) is not None}
            for k in list(consts):
                if (oid, k) in attrs:
                    bulk[oid] = drop_key(bulk[oid], k)
                    ops = [x for x in ops if const_str(x[1]) != k]
                    continue
                mine = [x for x in ops if const_str(x[1]) == k]
                h0, v0 = self.map_read(Ref(oid), k, pre)
                h1, v1 = self.map_read(Ref(oid), k, end)
                try:
                    eq = And_(Iff_(h0, h1), Or_(Not_(h0), self.L.equal(
                        self, v0, v1, strict=True)))
                except Unsupported:
                    eq = False
                st = end
                if eq is not False and not self.feasible(st, (Not_(eq),)):
                    bulk[oid] = drop_key(bulk[oid], k)
                    ops = [x for x in ops if const_str(x[1]) != k]
                    continue
                ends = [x for x in reads if x[0] == oid and
                        const_str(x[1]) == k]
                if ends:
                    if os.environ.get("PYVC_DBG"):
                        print("CARRIED", k, mine, ends, v0, v1)
                    raise Carried(oid, k)
            if not bulk[oid]:
                del bulk[oid]
                continue
            # reads of this iteration vs. writes of another one
            for r in reads:
                if r[0] != oid:
                    continue
                for g, k, gens in ops:
                    k2, g2 = subst(lit(k), [(e, e2)]), subst(g, [(e, e2)])
                    c = And_(subst(dom, [(e, e2)]), g2, Not_(e2 == e),
                             lit(r[1]) == k2)
                    if lit(r[1]).sort() != k2.sort():
                        continue
                    s = State(r[2])
                    if self.collide(e, e2, dom, r[1], k) and \
                            self.possible_deep(s, (c,)):
                        raise Unsupported(
                            f"iterations depend on each other ({r[1]} / {k})")
            # different writes
            if len(ops) > 1:
                dis = True
                for i, (g, k, _) in enumerate(ops):
                    for g_, k_, _ in ops:
                        if not dis or same(k, k_) and is_z3(k) and k.eq(e):
                            continue
                        c = And_(dom, g, subst(dom, [(e, e2)]),
                                 subst(g_, [(e, e2)]), Not_(e2 == e),
                                 lit(k) == subst(lit(k_), [(e, e2)]))
                        if self.collide(e, e2, dom, k, k_) and \
                                self.possible_deep(State(pre.pc), (c,), 1000):
                            if os.environ.get("PYVC_DBG"):
                                print("COLLIDE", k, "|", k_, "|", g, g_)
                            dis = False
                if not dis:
                    if any(isinstance(x, DelOp) for x in bulk[oid]):
                        raise Unsupported("deletions collide in a loop")
                    bulk[oid] = [Choice(bulk[oid])]

    def as_bool(self, v, st, g=True):
        """A boolean, from a value all of whose possible cases are
        booleans; None if no case is possible."""
        if isinstance(v, U):
            cs = [(h, self.as_bool(x, st, And_(g, h))) for h, x in v.cases]
            cs = [(h, x) for h, x in cs if x is not None]
            return merge_many(cs) if cs else None
        if is_bool(v):
            return v
        if is_pv(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
            c, a, b = v.children()
            a = self.as_bool(a, st, And_(g, c))
            b = self.as_bool(b, st, And_(g, Not_(c)))
            return b if a is None else a if b is None else If_(c, a, b)
        if is_pv(v) and v.decl().eq(PV.bool):
            return v.arg(0)
        if not self.possible_deep(st, (B(g),)):
            return None
        raise Unsupported("truth of a carried value")

    def freeze(self, op, st, oid0):
        """Replace references to objects of the iteration by records."""
        def f(v):
            if isinstance(v, Ref) and v.oid > oid0:
                o = self.objs[v.oid]
                lg = st.heap[v.oid]
                if o.kind == "map" and o.base is EMPTY and all(
                        isinstance(x, SetOp) and x.g is True and
                        const_str(x.key) is not None for x in lg):
                    return Rec({const_str(x.key): f(x.val) for x in lg})
                if o.kind == "list":
                    return Opaque("frozenlist", *[
                        self.freeze(x, st, oid0) for x in lg])
                return Opaque("escaped", v.oid)
            if isinstance(v, U):
                return U([(g, f(x)) for g, x in v.cases])
            if isinstance(v, Tup):
                return Tup([f(x) for x in v.items])
            return v
        if isinstance(op, SetOp):
            return SetOp(op.g, op.key, f(op.val))
        if isinstance(op, Elem):
            return Elem(op.g, f(op.val))
        if isinstance(op, Bulk):
            return Bulk(op.gen, op.dom, [self.freeze(x, st, oid0)
                                         for x in op.ops])
        if isinstance(op, Comp):
            return Comp(op.gen, op.dom, [self.freeze(x, st, oid0)
                                         for x in op.items], op.space)
        return op

    # -------------------------------------------------------------------- maps
    def map_read(self, ref, k, st=None):
        """(has, value) of a map or instance dictionary at key k."""
        st = st or self.st
        o = self.obj(ref)
        k = k if const_str(k) is None else const_str(k)
        cases, done = [], False
        for op in reversed(self.log(ref, st)):
            if self.prune and isinstance(op, (SetOp, DelOp)) and \
                    const_str(op.key) is not None and is_z3(k) and \
                    self.differs(st, k, lit(op.key) == k, const_str(op.key)):
                continue
            if self.prune and isinstance(op, (SetOp, DelOp)) and \
                    is_z3(op.key) and isinstance(k, str) and \
                    const_str(op.key) is None and \
                    self.differs(st, op.key, op.key == lit(k), k):
                continue
            for g, has, val in self.op_cases(op, k):
                if is_z3(g) and (z3.is_false(z3.simplify(g)) or any(
                        is_z3(c) and c.eq(g) for c, _, _ in cases)):
                    continue
                if g is False or self.never_private(op, g, k):
                    continue
                cases.append((g, has, val))
                done = g is True or (is_z3(g) and z3.is_true(z3.simplify(g)))
                if done:
                    break
            if done:
                break
        if not done:
            cases.append((True, o.base.has(lit(k)), None))
        # (the first condition that is true decides)
        has, vals = False, []
        for g, h, v in reversed(cases):
            has = If_(g, h, has) if g is not True else h
        for g, h, v in cases:
            if h is not False:
                vals.append((g, o.base.get(lit(k)) if v is None else v[0]))
        if not vals:
            return False, Undef("missing key")
        return has, merge_many(vals)

    def never_private(self, op, g, k):
        """A loop over entries does not write this private attribute."""
        if not (isinstance(op, (Bulk, SetOp)) and is_z3(g) and
                isinstance(k, str) and k.startswith("_")):
            return False
        if isinstance(op, SetOp) and const_str(op.key) is not None:
            return False
        key = ("private", g.get_id(), k)
        if key not in self.bulk_cache:
            self.bulk_cache[key] = (not self.possible_deep(
                State(()), (g,)), g)
        return self.bulk_cache[key][0]

    def op_cases(self, op, k):
        """Cases (guard, has, (value,)) in which op decides key k; in order
        of priority, later ones exclude earlier ones."""
        if isinstance(op, SetOp):
            return [(And_(op.g, keq(op.key, k)), True, (op.val,))]
        if isinstance(op, DelOp):
            return [(And_(op.g, keq(op.key, k)), False, None)]
        if isinstance(op, Fill):
            if isinstance(k, str) and k.startswith("_"):
                return []
            return [(And_(op.g, op.cond(k)), True, (op.val(k),))]
        if isinstance(op, Bulk):
            out = []
            ops = op.ops
            if len(ops) == 1 and isinstance(ops[0], Choice):
                return self.choice_cases(op, ops[0].ops, k)
            for x in reversed(ops):
                out += self.bulk_cases(op, x, k)
            return out
        raise Unsupported("op_cases")

    def choice_cases(self, op, ops, k):
        cs = []
        for x in ops:
            cs += self.bulk_cases(op, x, k)
        # some writer wins
        out = []
        anyw = Or_(*[c for c, _, _ in cs])
        rest = True
        for i, (c, h, v) in enumerate(cs):
            key = ("choice", id(op), i, k if isinstance(k, str)
                   else k.get_id())
            if key not in self.bulk_cache:
                self.bulk_cache[key] = (self.facts.fresh("pick", BOOL), op, k)
            p = self.bulk_cache[key][0]
            # exactly one pick among the writers
            out.append((c, p, h, v))
        picks = [And_(c, p) for c, p, _, _ in out]
        key = ("choicefact", id(op), k if isinstance(k, str) else k.get_id())
        if key not in self.bulk_cache:
            self.bulk_cache[key] = True
            self.facts.fact(Imp_(anyw, Or_(*picks)))
        return [(And_(c, p), h, v) for c, p, h, v in out]

    def bulk_cases(self, bulk, op, k):
        gen, dom = bulk.gen, bulk.dom
        if isinstance(op, Bulk):
            # nested loop
            inner = Bulk(op.gen, And_(dom, op.dom), op.ops)
            out = []
            for x in reversed(op.ops):
                if x.key is not None and not isinstance(x, Bulk) and \
                        is_z3(x.key) and x.key.eq(op.gen) and \
                        not mentions(op.gen, gen):
                    # inner key decides the inner element; outer by witness
                    kk = lit(k)
                    f = And_(subst(dom, []), subst(op.dom, [(op.gen, kk)]),
                             subst(x.g, [(op.gen, kk)]))
                    ex, w = self.exists_cached(gen, f, k)
                    val = None
                    if isinstance(x, SetOp):
                        val = (subst(subst(x.val, [(op.gen, kk)]),
                                     [(gen, w)]),) if w is not None else \
                            (subst(x.val, [(op.gen, kk)]),)
                    out.append((ex, isinstance(x, SetOp), val))
                else:
                    raise Unsupported("nested bulk update")
            return out
        key = op.key
        is_set = isinstance(op, SetOp)
        if isinstance(k, str) and self.excluded(dom, key, k):
            return []
        if is_z3(key) and key.eq(gen):
            kk = lit(k)
            p = [(gen, kk)]
            return [(subst(And_(dom, op.g), p), is_set,
                     (subst(op.val, p),) if is_set else None)]
        f = And_(dom, op.g, keq(key, k))
        if f is False:
            return []
        ex, w = self.exists_cached(gen, f, k)
        if ex is False:
            return []
        return [(ex, is_set, (subst(op.val, [(gen, w)]),) if is_set
                 else None)]

    def excluded(self, dom, key, k):
        """No element of the domain has this key (decided by the facts on
        single elements alone)."""
        if const_str(key) is not None or not is_z3(key):
            return False
        dom = B(dom)
        c = ("excluded", dom.get_id(), key.get_id(), k)
        if c not in self.bulk_cache:
            q = [dom, key == lit(k)]
            cls = self.mods.find("sofar.sofa.Sofa")
            if cls is not None and self.is_member(cls, k) is True:
                q.append(B(self.is_member(cls, key)))
            s = z3.Solver()
            s.set("timeout", 1000)
            add(s, q)
            add(s, instantiate([x for x in self.facts.univ
                                if len(x[0]) == 1], q, 1, True))
            self.bulk_cache[c] = (s.check() == z3.unsat, dom, key)
        return self.bulk_cache[c][0]

    def exists_cached(self, gen, f, k):
        if f is True:
            return True, self.facts.fresh("any", gen.sort())
        fs = z3.simplify(B(f))
        if z3.is_false(fs):
            return False, None
        key = (gen.get_id(), B(f).get_id(),
               k if isinstance(k, str) else k.get_id())
        if key not in self.bulk_cache:
            # (the terms are kept alive by the cache)
            self.bulk_cache[key] = (self.exists_w(gen, f, "key"), f, gen, k)
        return self.bulk_cache[key][0]

    def note_read(self, ref, k):
        if self.reads is not None:
            self.reads.append((ref.oid, k, self.st.pc))

    # -------------------------------------------------------------- attributes
    def members(self, cls):
        key = (cls.module, cls.name)
        if key not in self._cmod:
            self._cmod[key] = class_members(cls.node)
        return self._cmod[key]

    def class_names(self, cls):
        return [n for n in self.members(cls) if not n.endswith(".setter")] \
            + [n for n in OBJECT_DUNDERS if n not in self.members(cls)]

    def is_plain(self, k, c):
        """The name k is, by assumption, no reserved name, and c is one."""
        return self.plain is not None and (
            c.startswith("_") or c in self.reserved) and self.plain(k)

    def is_member(self, cls, name):
        """name is a member of the class."""
        c = const_str(name)
        if c is not None:
            return c in self.class_names(cls)
        f = z3.Function(f"member_of_{cls.name}", STR, BOOL)
        key = ("members", cls.module, cls.name)
        if key not in self.bulk_cache:
            self.bulk_cache[key] = True
            gens, self.facts.gens = self.facts.gens, []
            for n in self.class_names(cls):
                self.facts.fact(f(lit(n)))
            self.facts.gens = gens
        if self.prune and self.differs(self.st, name, f(name), "member"):
            return False
        return f(name)

    def differs(self, st, k, c, tag):
        """The condition on the name k is false, because of what the loops
        are about and the facts on single elements."""
        if self.plain is not None and (
                tag == "member" or tag in self.reserved or
                tag.startswith("_")) and self.plain(k):
            return True
        pc = [x for x in st.pc if is_z3(x) and z3.is_app(x) and
              x.num_args() and
              x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        key = ("differs", k.get_id(), tag) + tuple(x.get_id() for x in pc)
        if key not in self.bulk_cache:
            s = z3.Solver()
            s.set("timeout", 1000)
            q = pc + [c]
            add(s, q)
            add(s, instantiate([x for x in self.facts.univ
                                if len(x[0]) == 1], q, 1, True))
            self.bulk_cache[key] = (s.check() == z3.unsat, k, pc)
        return self.bulk_cache[key][0]

    def getattr(self, o, name, default=None, has_default=False):
        return self.lift(lambda o, n: self._getattr(
            o, n, default, has_default), o, name)

    def _getattr(self, o, name, default=None, has_default=False):
        if isinstance(o, Ref) and self.obj(o).kind == "inst":
            return self.inst_getattr(o, name, default, has_default)
        n = const_str(name) if not isinstance(name, str) else name
        if n is None:
            raise Unsupported("getattr with symbolic name on a value")
        return self.L.attribute(self, o, n, default, has_default)

    def inst_getattr(self, o, name, default=None, has_default=False):
        cls = self.obj(o).cls
        m = self.members(cls)
        n = const_str(name)
        if n is not None:
            if n == "__dict__":
                return Opaque("instdict", o)
            if n == "__class__":
                return cls
            if n in m and m[n][0] == "property":
                return self.call(Bound(o, Func(cls.module, m[n][1],
                                               cls.name)))
            self.note_read(o, n)
            has, val = self.map_read(o, n)
            k = self.known(has)
            if k is True:
                return val
            if k is False:
                return self.class_attr(o, cls, m, n, default, has_default)
            return self.branch([
                (has, lambda: val),
                (Not_(has), lambda: self.class_attr(
                    o, cls, m, n, default, has_default))])
        # symbolic name
        self.note_read(o, name)
        has, val = self.map_read(o, name)
        val = self.possible(val)
        inclass = self.is_member(cls, name)

        def other():
            if not self.possible_deep(self.st, (B(inclass),)):
                return self.missing_attr(o, name, default, has_default)
            return self.branch([
                (inclass, lambda: Opaque("classattr", name)),
                (Not_(inclass), lambda: self.missing_attr(
                    o, name, default, has_default))])
        k = self.known(has)
        if k is True:
            return val
        return self.branch([(has, lambda: val), (Not_(has), other)])

    def missing_attr(self, o, name, default, has_default):
        cls = self.obj(o).cls
        m = self.members(cls)
        if "__getattr__" in m:
            return self.call(Bound(o, Func(cls.module, m["__getattr__"][1],
                                           cls.name)), [name])
        if has_default:
            return default
        self.raise_("AttributeError", name)

    def class_attr(self, o, cls, m, n, default, has_default):
        if n in m:
            kind, node = m[n]
            if kind == "method":
                return Bound(o, Func(cls.module, node, cls.name))
            if kind == "static":
                return Func(cls.module, node, cls.name)
            if kind == "classmethod":
                return Bound(cls, Func(cls.module, node, cls.name))
            if kind == "var":
                return self.eval_const(cls.module, node)
            raise Unsupported(f"class attribute {n}")
        if n in OBJECT_DUNDERS:
            if n in ("__setattr__", "__delattr__"):
                return Bound(o, Lib(f"object.{n}"))
            return Opaque("classattr", n)
        return self.missing_attr(o, n, default, has_default)

    def hasattr(self, o, name):
        return self.lift(self._hasattr, o, name)

    def _hasattr(self, o, name):
        if isinstance(o, Ref) and self.obj(o).kind == "inst":
            cls = self.obj(o).cls
            if "__getattr__" in self.members(cls):
                raise Unsupported("hasattr with __getattr__")
            self.note_read(o, name)
            has, _ = self.map_read(o, name)
            n = const_str(name)
            if n is not None:
                return True if n in self.class_names(cls) else has
            return Or_(has, self.is_member(cls, name))
        return self.L.has_attribute(self, o, name)

    def setattr(self, o, name, v):
        return self.lift(lambda o, n: self._setattr(o, n, v), o, name)

    def _setattr(self, o, name, v):
        if isinstance(o, Ref) and self.obj(o).kind == "inst":
            cls = self.obj(o).cls
            m = self.members(cls)
            if "__setattr__" in m:
                q = Func(cls.module, m["__setattr__"][1], cls.name)
                self.call(Bound(o, q), [name, v])
                return None
            return self.object_setattr(o, name, v)
        return self.L.set_attribute(self, o, name, v)

    def object_setattr(self, o, name, v):
        cls = self.obj(o).cls
        m = self.members(cls)
        props = [x[:-7] for x in m if x.endswith(".setter")]
        ro = [x for x in m if m[x][0] == "property" and x not in props]
        n = const_str(name)

        def plain():
            self.put(o, SetOp(True, name if n is None else n, v))

        if n is not None:
            if n in props:
                return self.call(Bound(o, Func(
                    cls.module, m[n + ".setter"][1], cls.name)), [v])
            if n in ro:
                self.raise_("AttributeError", n)
            return plain()
        cases, notyet = [], True
        for p in props:
            c = lit(name) == lit(p)
            if self.prune and self.differs(self.st, lit(name), c, p):
                continue
            cases.append((And_(notyet, c), (lambda p: lambda: self.call(Bound(
                o, Func(cls.module, m[p + ".setter"][1], cls.name)),
                [v]) and None)(p)))
            notyet = And_(notyet, Not_(c))
        for p in ro:
            c = lit(name) == lit(p)
            if self.prune and self.differs(self.st, lit(name), c, p):
                continue
            cases.append((And_(notyet, c),
                          lambda: self.raise_("AttributeError")))
            notyet = And_(notyet, Not_(c))
        if not cases:
            return plain()
        cases.append((notyet, plain))
        self.branch(cases, merge_value=False)

    def delattr(self, o, name):
        return self.lift(self._delattr, o, name)

    def _delattr(self, o, name):
        if isinstance(o, Ref) and self.obj(o).kind == "inst":
            cls = self.obj(o).cls
            m = self.members(cls)
            if "__delattr__" in m:
                q = Func(cls.module, m["__delattr__"][1], cls.name)
                self.call(Bound(o, q), [name])
                return None
            return self.object_delattr(o, name)
        raise Unsupported("delattr")

    def object_delattr(self, o, name):
        self.note_read(o, name)
        has, _ = self.map_read(o, name)
        self.raise_if(Not_(has), "AttributeError", name)
        self.put(o, DelOp(True, name))

    # -------------------------------------------------------------- expressions
    def module(self):
        return self.st.loc["__module__"].name

    def eval_const(self, module, node):
        """Evaluate a default / module constant in its module."""
        saved = self.st.loc
        self.st.loc = {"__module__": Py(None, module),
                       "__cls__": Py(None, "")}
        try:
            return self.eval(node)
        finally:
            self.st.loc = saved

    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, bytes) and self.hooks.get("bytes"):
            return e.value.decode("latin-1")
        return e.value if e.value is not Ellipsis else Opaque("ellipsis")

    def e_Name(self, e):
        return self.lookup(e.id)

    def lookup(self, name):
        if name in self.st.loc:
            v = self.st.loc[name]
            if self.havoc and isinstance(v, Undef):
                return self.L.maybe_raise(
                    self, "variable of a loop" + (
                        self.L.IMMUTABLE if self.L.IMMUTABLE in v.why
                        else ""), "UnboundLocalError")
            if isinstance(v, Undef):
                raise Unsupported(f"use of {v.why}")
            if isinstance(v, U) and any(isinstance(x, Undef)
                                        for _, x in v.cases):
                ok = []
                for g, x in v.cases:
                    if isinstance(x, Undef):
                        if self.feasible(extra=(g,)):
                            if x.why.endswith("may be unbound"):
                                self.raise_if(g, "UnboundLocalError", name)
                                continue
                            raise Unsupported(f"use of {x.why}")
                    else:
                        ok.append((g, x))
                v = merge_many(ok) if len(ok) > 1 else ok[0][1]
                self.st.loc[name] = v
            return v
        return self.global_name(self.module(), name)

    def global_name(self, mod, name):
        g = self.mods.glob[mod].get(name)
        if g is None:
            from builtins import __dict__ as bi
            if name in bi:
                return Lib(f"builtins.{name}")
            self.raise_("NameError", name)
        if g[0] == "def":
            return Func(mod, g[1])
        if g[0] == "class":
            return Cls(mod, g[1])
        if g[0] == "import":
            return self.lib(g[1])
        if g[0] == "from":
            return self.lib(f"{g[1]}.{g[2]}")
        if g[0] == "const":
            return self.eval_const(mod, g[1])

    def lib(self, path):
        """External name, or a name of the package itself."""
        p = self.mods.package
        if path == p or path.startswith(p + "."):
            if path in self.mods.tree:
                return Opaque("module", path)
            mod, _, name = path.rpartition(".")
            if mod in self.mods.tree:
                return self.global_name(mod, name)
            raise Unsupported(f"import {path}")
        return Lib(path)

    def e_Attribute(self, e):
        # super.__setattr__ / super().__setattr__
        v = e.value
        if isinstance(v, ast.Name) and v.id == "super" or (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and
                v.func.id == "super"):
            if e.attr in ("__setattr__", "__delattr__", "__init__",
                          "__getattribute__"):
                f = Lib(f"object.{e.attr}")
                if isinstance(v, ast.Call):
                    return Bound(self.st.loc["self"], f)
                return f
            raise Unsupported("super()")
        o = self.eval(v)
        if isinstance(o, Lib):
            if o.path == "numpy" and e.attr == "newaxis":
                return None
            return Lib(f"{o.path}.{e.attr}")
        if isinstance(o, Opaque) and o.tag == "module":
            if e.attr in self.mods.glob[o.args[0]]:
                return self.global_name(o.args[0], e.attr)
            if f"{o.args[0]}.{e.attr}" in self.mods.tree:
                return Opaque("module", f"{o.args[0]}.{e.attr}")
            if e.attr == "__version__":
                return "version"
            if e.attr == "__file__":
                return Opaque("pkgpath", o.args[0])
            raise Unsupported(f"module attribute {e.attr}")
        if isinstance(o, Cls):
            m = self.members(o)
            if e.attr in m and m[e.attr][0] in ("static", "method"):
                return Func(o.module, m[e.attr][1], o.name)
            if e.attr in m and m[e.attr][0] == "var":
                return self.eval_const(o.module, m[e.attr][1])
            if e.attr == "__name__":
                return o.name
            raise Unsupported(f"class attribute {e.attr}")
        return self.getattr(o, e.attr)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        i = self.eval(e.slice)
        return self.L.getitem(self, o, i)

    def e_Slice(self, e):
        f = lambda x: None if x is None else self.eval(x)  # noqa: E731
        return Opaque("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        if isinstance(f, Lib) and f.path in ("builtins.any", "builtins.all") \
                and len(e.args) == 1 and isinstance(
                    e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.any_all(f.path, e.args[0])
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                if isinstance(v, Tup):
                    args += v.items
                elif isinstance(v, Ref) and self.obj(v).kind == "list" and \
                        all(isinstance(x, Elem) and x.g is True
                            for x in self.log(v)):
                    args += [x.val for x in self.log(v)]
                else:
                    raise Unsupported("starred argument")
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("** argument")
            kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw)

    def any_all(self, which, comp):
        """any()/all() of a comprehension as an accumulated flag."""
        isany = which.endswith("any")
        name = f"$flag{comp.lineno}_{comp.col_offset}_{self.depth}"
        self.st.loc[name] = not isany

        def innermost():
            c = self.truth(self.eval(comp.elt))
            cur = self.st.loc[name]
            self.st.loc[name] = Or_(cur, c) if isany else And_(cur, c)
        self.st.loc[name] = False if isany else True
        self.comp_loops(comp.generators, innermost, {name})
        return self.st.loc.pop(name)

    def e_BinOp(self, e):
        return self.L.binop(self, e.op, self.eval(e.left),
                            self.eval(e.right))

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return Not_(self.truth(v))
        if isinstance(e.op, ast.USub):
            if is_int(v) or isinstance(v, float):
                return -v
        raise Unsupported("unary operator")

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for nxt in e.values[1:]:
            c = self.truth(v)
            if isinstance(c, bool):
                if c == isand:
                    v = self.eval(nxt)
                    continue
                return v
            if is_bool(v):
                # plain booleans
                if isand:
                    v = self.branch([(c, lambda: self.bool_only(nxt)),
                                     (Not_(c), lambda: False)])
                else:
                    v = self.branch([(c, lambda: True),
                                     (Not_(c), lambda: self.bool_only(nxt))])
            else:
                old = v
                if isand:
                    v = self.branch([(c, lambda: self.eval(nxt)),
                                     (Not_(c), lambda: old)])
                else:
                    v = self.branch([(c, lambda: old),
                                     (Not_(c), lambda: self.eval(nxt))])
        return v

    def bool_only(self, node):
        return self.eval(node)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.cond(c, lambda: self.eval(e.body),
                         lambda: self.eval(e.orelse))

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.L.compare(self, op, left, right)
            if len(e.ops) == 1:
                return c
            res = And_(res, self.truth(c))
            left = right
        return res

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append((True, x.value))
            else:
                v = self.eval(x.value)
                if x.format_spec is not None:
                    parts.append((True, Text(Opaque("formatted", v))))
                    continue
                if x.conversion not in (-1, 115):
                    parts.append((True, Text(Opaque("repr", v))))
                elif is_str(v) or isinstance(v, Rope):
                    parts.append((True, v))
                else:
                    parts.append((True, Text(v)))
        r = Rope(parts)
        if all(is_str(c) for _, c in parts):
            return concat([c for _, c in parts])
        return r

    def e_List(self, e):
        return self.new_list([self.eval(x) for x in e.elts])

    def e_Tuple(self, e):
        return Tup([self.eval(x) for x in e.elts])

    def e_Set(self, e):
        return self.new("set", log=[Elem(True, self.eval(x))
                                    for x in e.elts])

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("** in dict")
            items.append((self.eval(k), self.eval(v)))
        return self.new_map(items)

    def e_Lambda(self, e):
        return Func(self.module(), e, None, closure=self.st.loc)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_ListComp(self, e):
        out = self.new("list")
        self.comp_loops(e.generators,
                        lambda: self.put(out, Elem(True, self.eval(e.elt))),
                        set())
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        out = self.new("set")
        self.comp_loops(e.generators,
                        lambda: self.put(out, Elem(True, self.eval(e.elt))),
                        set())
        return out

    def e_DictComp(self, e):
        out = self.new("map")

        def put():
            k = self.eval(e.key)
            self.put(out, SetOp(True, self.L.key(self, k),
                                self.eval(e.value)))
        self.comp_loops(e.generators, put, set())
        return out

    def comp_loops(self, gens, innermost, carried):
        names = set()
        for g in gens:
            names |= target_names(g.target)
        saved = {n: self.st.loc[n] for n in names if n in self.st.loc}

        def run(i):
            if i == len(gens):
                return innermost()
            g = gens[i]
            if g.is_async:
                raise Unsupported("async")
            segs = self.L.iterate(self, self.eval(g.iter))

            def body(v):
                self.assign(g.target, v)

                def filt(j):
                    if j == len(g.ifs):
                        return run(i + 1)
                    c = self.truth(self.eval(g.ifs[j]))
                    self.cond(c, lambda: filt(j + 1), lambda: None)
                filt(0)
            self.loop(segs, body, names | carried)
        run(0)
        for n in names:
            self.st.loc.pop(n, None)
        self.st.loc.update(saved)

    # ------------------------------------------------------------------- truth
    def truth(self, v):
        if is_bool(v):
            return v
        if isinstance(v, U):
            return self.lift(self.truth, v)
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            return v != ""
        return self.L.truth(self, v)


def keq(a, b):
    ca, cb = const_str(a), const_str(b)
    if ca is not None and cb is not None:
        return ca == cb
    if same(a, b):
        return True
    x, y = lit(a), lit(b)
    if x.sort() != y.sort():
        raise Unsupported("keys of different kind")
    return x == y


def flatten_ops(ops):
    """(guard, key, inner generics) of the writes of one iteration."""
    out = []
    for o in ops:
        if isinstance(o, (SetOp, DelOp)):
            out.append((o.g, o.key, ()))
        elif isinstance(o, Bulk):
            for g, k, gs in flatten_ops(o.ops):
                out.append((And_(o.dom, g), k, gs + (o.gen,)))
        elif isinstance(o, Choice):
            out += flatten_ops(o.ops)
    return out


def drop_key(ops, k):
    out = []
    for o in ops:
        if isinstance(o, (SetOp, DelOp)) and const_str(o.key) == k:
            continue
        if isinstance(o, Bulk):
            inner = drop_key(o.ops, k)
            if not inner:
                continue
            o = Bulk(o.gen, o.dom, inner)
        out.append(o)
    return out


_ids = {}


def mentions(v, t):
    """Does the value contain the z3 term t?"""
    if isinstance(v, z3.ExprRef):
        if not is_z3(t):
            return False
        seen = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if x.eq(t):
                return True
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            todo += x.children()
        return False
    if isinstance(v, U):
        return any(mentions(g, t) or mentions(x, t) for g, x in v.cases)
    if isinstance(v, (Tup,)):
        return any(mentions(x, t) for x in v.items)
    if isinstance(v, Rope):
        if isinstance(t, Rope):
            return any(isinstance(c, Acc) for _, c in v.parts)
        return any(mentions(x, t) or mentions(g, t) for g, x in v.parts)
    if isinstance(v, MaxV):
        return any(mentions(x, t) or mentions(g, t) for g, x in v.terms)
    return False


def present(r):
    """Condition under which a text is not empty."""
    if isinstance(r, str):
        return r != ""
    if is_sstr(r):
        return r != lit("")
    if isinstance(r, LoopText):
        return r.present
    if isinstance(r, Text):
        v = r.value
        if is_str(v) or isinstance(v, Rope):
            return present(v)
        if is_pv(v):
            return z3.Not(z3.And(PV.is_str(v), PV.s(v) == lit("")))
        return True
    if isinstance(r, Rope):
        return Or_(*[And_(g, present(c)) for g, c in r.parts])
    if isinstance(r, Acc):
        raise Unsupported("loop carried text")
    raise Unsupported(f"present({type(r).__name__})")


def merge_many_exc(es):
    if all(e.name == es[0].name for e in es):
        return Exc(es[0].name, es[0].args)
    return Exc("Exception", ())


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                              ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.NamedExpr):
                out |= target_names(n.target)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out
