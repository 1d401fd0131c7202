"""Values, heap, path state and logical facts of the verification engine.

Everything that a run of the symbolic interpreter produces is made of z3 terms
and of the few Python classes below; the classes can be substituted into
(`subst`) and merged under a guard (`merge`), which is what joins of control
flow and the loop rule need.
"""
import itertools
import os
import z3

STR, INT, BOOL = z3.StringSort(), z3.IntSort(), z3.BoolSort()
ARR = z3.DeclareSort("Arr")      # numpy array
NUM = z3.DeclareSort("Num")      # numeric scalar (float, or numpy number)
OBJ = z3.DeclareSort("Oth")      # any other object
_pv = z3.Datatype("PV")
_pv.declare("none")
_pv.declare("bool", ("b", BOOL))
_pv.declare("int", ("i", INT))
_pv.declare("flt", ("f", NUM))
_pv.declare("str", ("s", STR))
_pv.declare("npnum", ("n", NUM))
_pv.declare("arr", ("a", ARR))
_pv.declare("list", ("l", OBJ))
_pv.declare("tuple", ("t", OBJ))
_pv.declare("dict", ("d", OBJ))
_pv.declare("other", ("o", OBJ))
PV = _pv.create()


class Unsupported(Exception):
    """The construct is outside the verified subset of the language."""


class Dead(Exception):
    """The current path is infeasible or has ended."""


# ------------------------------------------------------------ boolean helpers
def And_(*xs):
    out = []
    for x in xs:
        if x is True or z3.is_true(x) if not isinstance(x, bool) else x:
            continue
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not_(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Imp_(a, b):
    return Or_(Not_(a), b)


def Iff_(a, b):
    if isinstance(a, bool):
        return b if a else Not_(b)
    if isinstance(b, bool):
        return a if b else Not_(a)
    return a == b


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def lit(x):
    """Python constant -> z3 term."""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, str):
        return z3.StringVal(x)
    return x


def is_z3(x, sort=None):
    return isinstance(x, z3.ExprRef) and (sort is None or x.sort() == sort)


def is_sstr(x):
    return is_z3(x, STR)


def is_str(x):
    return isinstance(x, str) or is_sstr(x)


def is_sint(x):
    return is_z3(x, INT)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or is_sint(x)


def is_sbool(x):
    return isinstance(x, z3.BoolRef)


def is_bool(x):
    return isinstance(x, bool) or is_sbool(x)


def is_pv(x):
    return is_z3(x, PV)


def If_(c, a, b):
    """a, b z3 terms of the same sort or constants of the same kind."""
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else Not_(c)
        if a is True:
            return Or_(c, b)
        if a is False:
            return And_(Not_(c), b)
        if b is True:
            return Or_(Not_(c), a)
        if b is False:
            return And_(c, a)
    a, b = lit(a), lit(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


_strval = {}


def const_str(x):
    """String constant behind a value or None."""
    if isinstance(x, str):
        return x
    if is_sstr(x) and z3.is_string_value(x):
        return pystr(x)
    return None


def pystr(x):
    # as_string() escapes non ASCII characters
    s = x.as_string()
    if "\\u{" in s:
        import re
        s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    return s


# ------------------------------------------------------------------- values
class V:
    """Base of structured values."""


class U(V):
    """Guarded union; the guards are exhaustive and mutually exclusive."""

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return f"U({self.cases})"


class Tup(V):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Seq(V):
    """Tuple of symbolic length n <= len(items): items[:n]."""

    def __init__(self, n, items):
        self.n, self.items = n, tuple(items)

    def __repr__(self):
        return f"Seq({self.n}, {self.items})"


class Rope(V):
    """Text assembled from parts, each present under its guard.

    parts: list of (guard, content): content is a str, z3 string, PV/other
    value (its text), or Ex (text of a loop: present iff the flag is set).
    """

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"Rope({self.parts})"


class Text(V):
    """str(value) of a value, as a part of a rope."""

    def __init__(self, value):
        self.value = value


class LoopText(V):
    """Concatenation over a loop; `body` is the rope of the generic iteration
    (generic constant `gen`, domain `dom`)."""

    def __init__(self, gen, dom, body, present):
        self.gen, self.dom, self.body, self.present = gen, dom, body, present


class Rec(V):
    """Immutable record with constant keys (frozen dict literal, or entry of
    a trusted table)."""

    def __init__(self, fields, has=None):
        self.fields = dict(fields)
        self.has = dict(has or {})

    def __repr__(self):
        return f"Rec({self.fields})"


class Ref(V):
    """Reference to a heap object."""

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f"Ref({self.oid})"


class Idx(V):
    """Position in a list: `w` is the element of the index space."""

    def __init__(self, space, w):
        self.space, self.w = space, w


class MaxV(V):
    """max of guarded integers."""

    def __init__(self, terms):
        self.terms = tuple(terms)


class Undef(V):
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Undef({self.why})"


class Exc(V):
    """Exception value."""

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return f"Exc({self.name}, {self.args})"


class Opaque(V):
    """Value of a trusted library, described by a tag and arguments."""

    def __init__(self, tag, *args, **kw):
        self.tag, self.args, self.kw = tag, args, kw

    def __repr__(self):
        return f"Opaque({self.tag}, {self.args})"


class Lazy(V):
    """Value of a map at a key, read when it is used."""

    def __init__(self, read, key):
        self.read, self.key = read, key


class Func(V):
    def __init__(self, module, node, cls=None, closure=None):
        self.module, self.node, self.cls, self.closure = \
            module, node, cls, closure

    @property
    def qualname(self):
        n = getattr(self.node, "name", "<lambda>")
        return f"{self.module}.{self.cls + '.' if self.cls else ''}{n}"

    def __repr__(self):
        return f"Func({self.qualname})"


class Bound(V):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Method(V):
    """Method of a builtin or library value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Cls(V):
    def __init__(self, module, node):
        self.module, self.node = module, node

    @property
    def name(self):
        return self.node.name


class Lib(V):
    """Name of an external library (module, function, or type)."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Lib({self.path})"


class Py(V):
    """Python callable used as a function value (library results)."""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


# --------------------------------------------------------------- heap objects
class Obj:
    """Static part of a heap object. kind: inst, map, list, set."""

    def __init__(self, kind, oid, base=None, cls=None, name=None, meta=None):
        self.kind, self.oid, self.base = kind, oid, base
        self.cls, self.name, self.meta = cls, name, meta or {}


class MapBase:
    """Initial content of a map: closures over key terms (no generics).

    has(k) -> z3 Bool, get(k) -> value; `keys`: None (iterate over all k with
    has(k)), or list of constants."""

    def __init__(self, has, get, sort=STR, desc=""):
        self.has, self.get, self.sort, self.desc = has, get, sort, desc


EMPTY = MapBase(lambda k: False, lambda k: Undef("empty map"), STR, "empty")


class SetOp:
    def __init__(self, g, key, val):
        self.g, self.key, self.val = g, key, val


class DelOp:
    def __init__(self, g, key):
        self.g, self.key = g, key


class Fill:
    """Every key k with cond(k) gets the value val(k)."""

    def __init__(self, g, cond, val):
        self.g, self.cond, self.val = g, cond, val


class Bulk:
    """Operations of all iterations of a loop: for all `gen` with `dom`.
    `ops` are SetOp/DelOp/Bulk in program order of one iteration.
    `wit`: per op index: (ex, W, D) where ex(k...) decides whether some
    iteration writes k and W(k...) is such an iteration."""

    def __init__(self, gen, dom, ops, wit=None, only=None):
        self.gen, self.dom, self.ops, self.wit = gen, dom, ops, wit or {}


class Choice:
    """Operations of which, per key, some writer wins."""
    key = None

    def __init__(self, ops):
        self.ops = ops


class Elem:
    def __init__(self, g, val):
        self.g, self.val = g, val


class Cell(Elem):
    """Element of a list that was assigned by its index."""


class Comp:
    """List segment: for all `gen` with `dom`, in some order, the items."""

    def __init__(self, gen, dom, items, space=None):
        self.gen, self.dom, self.items, self.space = gen, dom, items, space


# ------------------------------------------------------------------ substitute
def subst(v, pairs):
    if not pairs:
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return v
    if isinstance(v, (Ref, Func, Cls, Lib, Undef, Py)):
        return v
    r = lambda x: subst(x, pairs)  # noqa: E731
    if isinstance(v, U):
        return U([(r(g), r(x)) for g, x in v.cases])
    if isinstance(v, Tup):
        return Tup([r(x) for x in v.items])
    if isinstance(v, Seq):
        return Seq(r(v.n), [r(x) for x in v.items])
    if isinstance(v, Rope):
        return Rope([(r(g), r(x)) for g, x in v.parts])
    if isinstance(v, Text):
        return Text(r(v.value))
    if isinstance(v, LoopText):
        return LoopText(r(v.gen), r(v.dom), r(v.body), r(v.present))
    if isinstance(v, Rec):
        return Rec({k: r(x) for k, x in v.fields.items()},
                   {k: r(x) for k, x in v.has.items()})
    if isinstance(v, Idx):
        return Idx(v.space, r(v.w))
    if isinstance(v, MaxV):
        return MaxV([(r(g), r(x)) for g, x in v.terms])
    if isinstance(v, Exc):
        return Exc(v.name, [r(x) for x in v.args])
    if isinstance(v, Opaque):
        return Opaque(v.tag, *[r(x) for x in v.args],
                      **{k: r(x) for k, x in v.kw.items()})
    if isinstance(v, Lazy):
        return Lazy(v.read, r(v.key))
    if isinstance(v, Bound):
        return Bound(r(v.obj), v.func)
    if isinstance(v, Method):
        return Method(r(v.obj), v.name)
    if isinstance(v, (tuple, list)):
        return type(v)(r(x) for x in v)
    if isinstance(v, dict):
        return {k: r(x) for k, x in v.items()}
    if isinstance(v, SetOp):
        return SetOp(r(v.g), r(v.key), r(v.val))
    if isinstance(v, DelOp):
        return DelOp(r(v.g), r(v.key))
    if isinstance(v, Elem):
        return Elem(r(v.g), r(v.val))
    if isinstance(v, Comp):
        return Comp(r(v.gen), r(v.dom), [r(x) for x in v.items], v.space)
    if isinstance(v, Bulk):
        return Bulk(r(v.gen), r(v.dom), [r(x) for x in v.ops], v.wit)
    if isinstance(v, Choice):
        return Choice([r(x) for x in v.ops])
    raise Unsupported(f"subst in {type(v).__name__}")


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, int, float, str, bytes, type(None))):
        return a == b
    if isinstance(a, Ref):
        return a.oid == b.oid
    if isinstance(a, Lib):
        return a.path == b.path
    if isinstance(a, (Tup,)):
        return len(a.items) == len(b.items) and all(
            same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Seq):
        return same(a.n, b.n) and len(a.items) == len(b.items) and all(
            same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Rope):
        return len(a.parts) == len(b.parts) and all(
            same(g, h) and same(x, y)
            for (g, x), (h, y) in zip(a.parts, b.parts))
    if isinstance(a, Text):
        return same(a.value, b.value)
    if isinstance(a, U):
        return len(a.cases) == len(b.cases) and all(
            same(g, h) and same(x, y)
            for (g, x), (h, y) in zip(a.cases, b.cases))
    if isinstance(a, Opaque):
        return a.tag == b.tag and len(a.args) == len(b.args) and all(
            same(x, y) for x, y in zip(a.args, b.args)) and \
            a.kw.keys() == b.kw.keys() and all(
                same(a.kw[k], b.kw[k]) for k in a.kw)
    if isinstance(a, Undef):
        return True
    if isinstance(a, Exc):
        return a.name == b.name and len(a.args) == len(b.args) and all(
            same(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, (Func,)):
        return a.node is b.node
    return False


def box(v):
    """Value -> PV term, or None."""
    if is_pv(v):
        return v
    if v is None:
        return PV.none
    if is_bool(v):
        return PV.bool(B(v))
    if is_int(v):
        return PV.int(lit(v))
    if is_str(v):
        return PV.str(lit(v))
    if isinstance(v, float):
        return PV.flt(z3.Const(f"flt!{v!r}", NUM))
    if is_z3(v, ARR):
        return PV.arr(v)
    if is_z3(v, NUM):
        return PV.npnum(v)
    if isinstance(v, Rope):
        s = rope_str(v)
        return None if s is None else PV.str(lit(s))
    if isinstance(v, U):
        bs = [(g, box(x)) for g, x in v.cases]
        if any(b is None for _, b in bs):
            return None
        out = bs[-1][1]
        for g, b in reversed(bs[:-1]):
            out = z3.If(B(g), b, out)
        return out
    return None


def rope_str(r):
    """Rope without optional parts -> str or z3 string; None otherwise."""
    out = []
    for g, c in r.parts:
        if not (g is True):
            return None
        if isinstance(c, Rope):
            c = rope_str(c)
            if c is None:
                return None
        if isinstance(c, Text):
            c = text_of(c.value)
            if c is None:
                return None
        if not is_str(c):
            return None
        out.append(c)
    return concat(out)


def concat(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return z3.Concat(*[lit(p) for p in out])


F_tostr = z3.Function("py_str", PV, STR)


def text_of(v):
    """str(v)."""
    if is_str(v):
        return v
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    if is_sint(v):
        return z3.Function("int_str", INT, STR)(v)
    if isinstance(v, Rope):
        return rope_str(v)
    if is_pv(v):
        return z3.If(PV.is_str(v), PV.s(v), F_tostr(v))
    b = box(v)
    if b is not None:
        return text_of(b)
    if isinstance(v, U):
        ts = [(g, text_of(x)) for g, x in v.cases]
        if any(t is None for _, t in ts):
            return None
        out = ts[-1][1]
        for g, t in reversed(ts[:-1]):
            out = If_(g, t, out)
        return out
    return None


def merge(c, a, b):
    """Value that is a if c, else b."""
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if (is_bool(a) and is_bool(b)) or (is_int(a) and is_int(b)) or \
            (is_str(a) and is_str(b)):
        return If_(c, a, b)
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if (is_pv(a) or is_pv(b)):
        x, y = box(a), box(b)
        if x is not None and y is not None:
            return z3.If(c, x, y)
    if isinstance(a, Rope) or isinstance(b, Rope):
        # common prefix: only the added parts are guarded
        pa = a.parts if isinstance(a, Rope) else \
            (((True, a),) if is_str(a) else None)
        pb = b.parts if isinstance(b, Rope) else \
            (((True, b),) if is_str(b) else None)
        if pa is not None and pb is not None:
            n = 0
            while n < len(pa) and n < len(pb) and \
                    same(pa[n][0], pb[n][0]) and same(pa[n][1], pb[n][1]):
                n += 1
            if n < len(pa) and n < len(pb) and pa[n][0] is True and \
                    pb[n][0] is True:
                # constants with the same beginning
                x, y = const_str(pa[n][1]), const_str(pb[n][1])
                t = os.path.commonprefix([x, y]) if x is not None and \
                    y is not None else ""
                if t:
                    f = lambda p, x: p[:n] + ((True, t),) + (  # noqa: E731
                        ((True, x[len(t):]),) if x != t else ()) + p[n + 1:]
                    pa, pb = f(tuple(pa), x), f(tuple(pb), y)
                    n += 1
            # (an empty text is an empty rope)
            ra = [(And_(c, g), x) for g, x in pa[n:] if const_str(x) != ""]
            rb = [(And_(Not_(c), g), x) for g, x in pb[n:]
                  if const_str(x) != ""]
            return Rope(pa[:n] + tuple(ra) + tuple(rb))
    if isinstance(a, Tup) and isinstance(b, Tup) and \
            len(a.items) == len(b.items):
        return Tup([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        n = max(len(a.items), len(b.items))
        pad = lambda s: list(s.items) + [s.items[-1] if s.items else 0] * (n - len(s.items))  # noqa
        return Seq(If_(c, a.n, b.n),
                   [merge(c, x, y) for x, y in zip(pad(a), pad(b))])
    if isinstance(a, MaxV) and (isinstance(b, MaxV) or is_int(b)) or \
            isinstance(b, MaxV) and is_int(a):
        terms = []
        for g, v in ((c, a), (Not_(c), b)):
            for h, t in (v.terms if isinstance(v, MaxV) else ((True, v),)):
                for i, (x, y) in enumerate(terms):
                    if same(y, t):
                        terms[i] = (z3.simplify(B(Or_(x, And_(g, h)))), y)
                        if z3.is_true(terms[i][0]):
                            terms[i] = (True, y)
                        break
                else:
                    terms.append((And_(g, h), t))
        return MaxV(terms)
    cases = []
    for g, v in ([(And_(c, g), x) for g, x in a.cases]
                 if isinstance(a, U) else [(c, a)]) + \
            ([(And_(Not_(c), g), x) for g, x in b.cases]
             if isinstance(b, U) else [(Not_(c), b)]):
        for i, (h, w) in enumerate(cases):
            if same(v, w):
                cases[i] = (Or_(h, g), w)
                break
        else:
            cases.append((g, v))
    cases = [(g, v) for g, v in cases if g is not False]
    if len(cases) == 1:
        return cases[0][1]
    return U(cases)


def merge_many(cases):
    """[(guard, value)], exhaustive and exclusive."""
    out = cases[-1][1]
    for g, v in reversed(cases[:-1]):
        out = merge(g, v, out)
    return out


# --------------------------------------------------------------------- state
class State:
    __slots__ = ("pc", "loc", "heap")

    def __init__(self, pc=(), loc=None, heap=None):
        self.pc, self.loc, self.heap = tuple(pc), loc if loc is not None \
            else {}, heap if heap is not None else {}

    def copy(self):
        return State(self.pc, dict(self.loc), dict(self.heap))

    def assume(self, *cs):
        for c in cs:
            if c is True:
                continue
            if c is False:
                self.pc = self.pc + (z3.BoolVal(False),)
                continue
            self.pc = self.pc + (c,)


def pc_rest(pc, prefix):
    return And_(*pc[len(prefix):])


def common_prefix(seqs):
    n = min(len(s) for s in seqs)
    for i in range(n):
        x = seqs[0][i]
        if not all(s[i] is x or (isinstance(x, z3.ExprRef) and
                                 isinstance(s[i], z3.ExprRef) and
                                 x.eq(s[i])) for s in seqs[1:]):
            return i
    return n


def guard_op(op, g):
    if g is True:
        return op
    if isinstance(op, SetOp):
        return SetOp(And_(g, op.g), op.key, op.val)
    if isinstance(op, DelOp):
        return DelOp(And_(g, op.g), op.key)
    if isinstance(op, Fill):
        return Fill(And_(g, op.g), op.cond, op.val)
    if isinstance(op, Elem):
        return Elem(And_(g, op.g), op.val)
    if isinstance(op, Comp):
        return Comp(op.gen, And_(g, op.dom), op.items, op.space)
    if isinstance(op, Bulk):
        return Bulk(op.gen, And_(g, op.dom), op.ops, op.wit)
    raise Unsupported("guard_op")


def merge_states(pairs):
    """[(guard, state)] -> state; the guards are exclusive.  The path
    condition of the result is common prefix + disjunction."""
    if len(pairs) == 1:
        return pairs[0][1]
    sts = [s for _, s in pairs]
    n = common_prefix([s.pc for s in sts])
    pc = sts[0].pc[:n] + ((B(Or_(*[And_(*s.pc[n:]) for s in sts])),)
                          if any(len(s.pc) > n for s in sts) else ())
    pc = tuple(c for c in pc if not z3.is_true(c))
    loc = {}
    names = set()
    for s in sts:
        names |= set(s.loc)
    for name in sorted(names):
        vs = [(g, s.loc.get(name, Undef(f"{name} may be unbound")))
              for g, s in pairs]
        loc[name] = merge_many(vs)
    heap = {}
    for oid in {o for s in sts for o in s.heap}:
        logs = [(g, s.heap[oid]) for g, s in pairs if oid in s.heap]
        if any(isinstance(x, Cell) for _, lg in logs for x in lg) and len(
                {len(lg) for _, lg in logs}) == 1 and all(isinstance(
                    x, Elem) and x.g is True for _, lg in logs for x in lg):
            # assigned by index: position by position
            heap[oid] = tuple(
                xs[0] if all(x is xs[0] for x in xs) else
                Cell(True, merge_many([(g, x.val) for (g, _), x in zip(
                    logs, xs)])) for xs in zip(*[lg for _, lg in logs]))
            continue
        m = common_prefix([lg for _, lg in logs])
        out = list(logs[0][1][:m])
        for g, lg in logs:
            out += [guard_op(op, g) for op in lg[m:]]
        heap[oid] = tuple(out)
    return State(pc, loc, heap)


class Exit:
    def __init__(self, kind, state, value=None):
        self.kind, self.state, self.value = kind, state, value


# --------------------------------------------------------------------- facts
class Facts:
    """Ground and universally quantified facts; `fresh` terms are functions
    of the generic constants of the enclosing loops."""

    def __init__(self):
        self.univ = []        # (vars, formula, note)
        self.gens = []        # enclosing generic constants
        self.count = itertools.count()
        self.assumptions = set()
        self.inexact = set()

    def fresh(self, name, sort):
        name = f"{name}!{next(self.count)}"
        if not self.gens:
            return z3.Const(name, sort)
        return z3.Function(name, *[g.sort() for g in self.gens], sort)(
            *self.gens)

    def fresh_fun(self, name, *sorts):
        """Function of additional arguments (result sort last)."""
        name = f"{name}!{next(self.count)}"
        gens = list(self.gens)
        f = z3.Function(name, *[g.sort() for g in gens], *sorts)
        return (lambda *a: f(*gens, *a))

    def fact(self, f, extra=()):
        """f holds for all values of the enclosing generics and `extra`."""
        if f is True or z3.is_true(f):
            return
        self.univ.append((tuple(self.gens) + tuple(extra), B(f)))
