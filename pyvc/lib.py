"""Semantics of the operators, builtins and libraries the code uses.

Everything here is part of the trusted base: the meaning of Python operators,
and the assumed contracts of the standard library, numpy and netCDF4.  A
construct that is not described raises Unsupported; nothing is guessed.
"""
import ast
import re as _re
import z3
from .core import *  # noqa: F401,F403
from .core import (Cell, And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, is_str, is_sstr,
                   is_int, is_bool, is_pv, is_sint, If_, const_str, U, Tup,
                   Seq, Rope, Text, LoopText, Rec, Ref, Idx, MaxV, Undef, Exc,
                   Opaque, Func, Bound, Method, Cls, Lib, Py, SetOp, DelOp,
                   Bulk, Elem, Comp, subst, same, box, concat, merge,
                   merge_many, rope_str, text_of, EMPTY, Unsupported, Dead,
                   PV, STR, INT, BOOL, ARR, NUM, OBJ)
from . import nump as N


def _interp():
    from . import interp
    return interp


EXCEPTIONS = {"ValueError", "TypeError", "KeyError", "AttributeError",
              "RuntimeError", "Exception", "IndexError", "OSError",
              "FileNotFoundError", "NotImplementedError", "AssertionError",
              "UserWarning", "DeprecationWarning", "ImportError",
              "PermissionError"}

# ----------------------------------------------------------- string functions
F_lower = z3.Function("str_lower", STR, STR)
F_upper = z3.Function("str_upper", STR, STR)
F_count = z3.Function("str_count", STR, STR, INT)
F_repl = z3.Function("str_replace_all", STR, STR, STR, STR)
F_stem = z3.Function("str_stem", STR, STR, STR)     # before the last sep
F_last = z3.Function("str_last", STR, STR, STR)     # after the last sep
F_head = z3.Function("str_head", STR, STR, STR)     # before the first sep
F_tail = z3.Function("str_tail", STR, STR, STR)     # after the first sep
F_second = z3.Function("str_second", STR, STR, STR)
F_rindex = z3.Function("str_rindex", STR, STR, INT)
F_strip = z3.Function("str_strip", STR, STR)
F_float = z3.Function("str_float", STR, z3.RealSort())
F_int = z3.Function("str_int", STR, INT)
F_isint = z3.Function("str_isint", STR, BOOL)
F_isfloat = z3.Function("str_isfloat", STR, BOOL)
F_ver = z3.Function("version_number", STR, z3.RealSort())
F_numval = z3.Function("num_value", NUM, z3.RealSort())


def s_lower(I, s):
    c = const_str(s)
    if c is not None:
        return c.lower()
    if z3.is_app(s) and s.num_args() == 1 and s.decl().eq(F_lower):
        return s
    if z3.is_app(s) and s.num_args() == 1 and s.decl().eq(F_upper) and \
            single_char(s.arg(0)):
        return s_lower(I, s.arg(0))
    r = F_lower(s)
    I.facts.fact(F_lower(r) == r)
    if single_char(s):
        I.facts.fact(z3.Length(r) == z3.Length(s))
    return r


def s_upper(I, s):
    c = const_str(s)
    if c is not None:
        return c.upper()
    if z3.is_app(s) and s.num_args() == 1 and s.decl().eq(F_upper):
        return s
    if z3.is_app(s) and s.num_args() == 1 and s.decl().eq(F_lower) and \
            single_char(s.arg(0)):
        return s_upper(I, s.arg(0))
    r = F_upper(s)
    I.facts.fact(F_upper(r) == r)
    if single_char(s):
        I.facts.fact(z3.Length(r) == z3.Length(s))
    return r


def single_char(s):
    return z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and \
        z3.is_int_value(s.arg(2)) and s.arg(2).as_long() == 1


def s_contains(I, s, sub):
    a, b = const_str(s), const_str(sub)
    if a is not None and b is not None:
        return b in a
    return z3.Contains(lit(s), lit(sub))


def s_count(I, s, sub):
    a, b = const_str(s), const_str(sub)
    if a is not None and b is not None:
        return a.count(b)
    r = F_count(lit(s), lit(sub))
    I.facts.fact(And_(r >= 0, Iff_(r == 0, Not_(z3.Contains(lit(s),
                                                            lit(sub))))))
    return r


def s_replace(I, s, old, new):
    a, o, n = const_str(s), const_str(old), const_str(new)
    if None not in (a, o, n):
        return a.replace(o, n)
    r = F_repl(lit(s), lit(old), lit(new))
    I.facts.fact(Imp_(Not_(z3.Contains(lit(s), lit(old))), r == lit(s)))
    if o is not None and n is not None and o and o not in n:
        I.facts.fact(Not_(z3.Contains(r, lit(old))))
    return r


def s_split_facts(I, s, sep):
    """s = stem + sep + last if sep occurs."""
    x, p = lit(s), lit(sep)
    I.facts.fact(Imp_(z3.Contains(x, p), And_(
        x == z3.Concat(F_stem(x, p), p, F_last(x, p)),
        Not_(z3.Contains(F_last(x, p), p)),
        F_rindex(x, p) == z3.Length(F_stem(x, p)))))


def s_first_facts(I, s, sep):
    x, p = lit(s), lit(sep)
    I.facts.fact(Imp_(z3.Contains(x, p), And_(
        x == z3.Concat(F_head(x, p), p, F_tail(x, p)),
        Not_(z3.Contains(F_head(x, p), p)))))


def as_str(I, v):
    """z3 string / str of a value known to be a string, else None."""
    if is_str(v):
        return v
    if isinstance(v, Rope):
        return rope_str(v)
    if is_pv(v):
        k = I.known(PV.is_str(v))
        if k is True:
            return I.narrow(PV.s(v))
    return None


# ------------------------------------------------------------------- kinds
def tag_is(I, v, tag):
    return getattr(PV, "is_" + tag)(v)


def pv_split(I, v, handlers, other):
    """Branch on the kind of a PV. handlers: {tag: fn(payload)}."""
    cases, rest = [], True
    pay = {"str": PV.s, "int": PV.i, "bool": PV.b, "flt": PV.f, "arr": PV.a,
           "npnum": PV.n, "list": PV.l, "tuple": PV.t, "dict": PV.d,
           "other": PV.o, "none": lambda v: None}
    for tag, fn in handlers.items():
        g = z3.simplify(tag_is(I, v, tag))
        cases.append((g, (lambda fn, x: lambda: fn(x))(fn, pay[tag](v))))
        rest = And_(rest, Not_(g))
    if other is not None:
        cases.append((rest, other))
    cases = [(g, f) for g, f in cases
             if not (is_z3(g) and z3.is_false(g))]
    for g, f in cases:
        if g is True or (is_z3(g) and z3.is_true(g)):
            return f()
    return I.branch(cases)


TYPE_TAGS = {
    "builtins.str": ["str"], "builtins.dict": ["dict"],
    "numpy.ndarray": ["arr"], "builtins.list": ["list"],
    "builtins.tuple": ["tuple"], "builtins.bool": ["bool"],
    "builtins.int": ["int", "bool"], "numpy.number": ["npnum"],
    "numpy.integer": [], "builtins.float": ["flt"],
    "numpy.str_": [], "numpy.generic": ["npnum"]}


def isinstance_(I, v, t):
    if isinstance(t, Tup):
        return Or_(*[isinstance_(I, v, x) for x in t.items])
    if isinstance(t, Cls):
        if isinstance(v, Ref) and I.obj(v).kind == "inst":
            return I.obj(v).cls.node is t.node
        return False
    if not isinstance(t, Lib):
        raise Unsupported("isinstance of a computed type")
    p = t.path
    if isinstance(v, U):
        return Or_(*[And_(g, isinstance_(I, x, t)) for g, x in v.cases])
    if is_pv(v):
        if p not in TYPE_TAGS:
            raise Unsupported(f"isinstance {p}")
        if p in ("numpy.integer", "numpy.str_"):
            raise Unsupported(f"isinstance {p}")
        r = Or_(*[tag_is(I, v, x) for x in TYPE_TAGS[p]])
        if p == "builtins.float":
            # numpy.float64 is a subclass of float
            r = Or_(r, And_(PV.is_npnum(v), N.F_isf64(PV.n(v))))
        return r
    if is_str(v) or isinstance(v, Rope):
        return p == "builtins.str"
    if is_bool(v):
        return p in ("builtins.bool", "builtins.int")
    if is_int(v):
        return p == "builtins.int"
    if isinstance(v, float) or isinstance(v, Opaque) and v.tag == "float":
        return p == "builtins.float"
    if v is None:
        return False
    if is_z3(v, ARR):
        return p == "numpy.ndarray"
    if is_z3(v, NUM):
        return p in ("numpy.number", "numpy.generic") if p != \
            "builtins.float" else N.F_isf64(v)
    if isinstance(v, Ref):
        k = I.obj(v).kind
        return {"list": "builtins.list", "map": "builtins.dict",
                "set": "builtins.set"}.get(k) == p
    if isinstance(v, Rec):
        return p == "builtins.dict"
    if isinstance(v, (Tup, Seq)):
        return p == "builtins.tuple"
    if isinstance(v, Opaque) and v.tag == "frozenlist":
        return p == "builtins.list"
    raise Unsupported(f"isinstance({v}, {p})")


# --------------------------------------------------------------------- truth
def truth(I, v):
    if is_pv(v):
        return z3.If(PV.is_none(v), False, z3.If(
            PV.is_bool(v), PV.b(v), z3.If(
                PV.is_int(v), PV.i(v) != 0, z3.If(
                    PV.is_str(v), PV.s(v) != lit(""),
                    z3.Function("py_truth", PV, BOOL)(v)))))
    if is_sstr(v):
        return v != lit("")
    if is_sint(v):
        return v != 0
    if isinstance(v, Rope):
        return _interp().present(v)
    if isinstance(v, Tup):
        return bool(v.items)
    if isinstance(v, Seq):
        return v.n != 0
    if isinstance(v, Ref):
        k = I.obj(v).kind
        if k == "inst":
            return True
        if k in ("list", "set"):
            return nonempty(I, v)
        return map_nonempty(I, v)
    if isinstance(v, (Func, Bound, Cls, Lib, Py, Method)):
        return True
    if isinstance(v, Rec):
        return bool(v.fields)
    if isinstance(v, Opaque):
        if v.tag == "unknown":
            return I.facts.fresh("unknown_truth", BOOL)
        if v.tag == "frozenlist":
            return Or_(False, *[seg_nonempty(I, s) for s in v.args])
    raise Unsupported(f"truth of {v}")


def nonempty(I, ref):
    return Or_(*[seg_nonempty(I, s) for s in I.log(ref)])


def seg_nonempty(I, s):
    if isinstance(s, Elem):
        return s.g
    inner = Or_(*[seg_nonempty(I, x) for x in s.items])
    return I.exists(s.gen, And_(s.dom, inner), "nonempty")


def map_nonempty(I, ref):
    o = I.obj(ref)
    if o.base is EMPTY and all(isinstance(x, SetOp) for x in I.log(ref)):
        return Or_(*[x.g for x in I.log(ref)])
    k = I.facts.fresh("anykey", o.base.sort)
    h, _ = I.map_read(ref, k)
    return I.exists(k, h, "nonempty")


# ------------------------------------------------------------------- equality
def equal(I, a, b, strict=False):
    """a == b (strict: same value, also for arrays)."""
    if isinstance(a, U):
        return Or_(*[And_(g, equal(I, x, b, strict)) for g, x in a.cases])
    if isinstance(b, U):
        return Or_(*[And_(g, equal(I, a, x, strict)) for g, x in b.cases])
    if isinstance(a, Undef) or isinstance(b, Undef):
        if same(a, b):
            return True
        raise Unsupported("comparison of an undefined value")
    if same(a, b):
        return True
    if is_str(a) and is_str(b):
        ca, cb = const_str(a), const_str(b)
        if ca is not None and cb is not None:
            return ca == cb
        if ca is not None and I.is_plain(b, ca) or \
                cb is not None and I.is_plain(a, cb):
            return False
        return lit(a) == lit(b)
    if is_bool(a) and is_bool(b):
        return Iff_(a, b)
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return lit(a) == lit(b)
    if isinstance(a, Rope) or isinstance(b, Rope):
        if isinstance(b, Rope) and not isinstance(a, Rope):
            a, b = b, a
        if b is None:
            return False
        return rope_equal(I, a, b)
    if is_pv(a) or is_pv(b):
        if not is_pv(a):
            a, b = b, a
        if is_z3(b, NUM):
            return a == PV.npnum(b)
        if strict or is_str(b) or b is None or is_bool(b):
            x = box(b)
            if x is not None:
                return a == x
            return False if isinstance(b, (Rec, Ref, Tup)) else \
                _unsup("equality")
        if is_int(b):
            x = Or_(And_(PV.is_int(a), PV.i(a) == lit(b)),
                    And_(PV.is_bool(a), If_(PV.b(a), 1, 0) == lit(b)))
            y = And_(Or_(PV.is_npnum(a), PV.is_flt(a)), F_numval(
                z3.If(PV.is_npnum(a), PV.n(a), PV.f(a))) == lit(b))
            return Or_(x, y)
        if is_pv(b):
            return And_(a == b)
        raise Unsupported(f"equality of {a} and {b}")
    if a is None or b is None:
        return a is b
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        return And_(*[equal(I, x, y, strict)
                      for x, y in zip(a.items, b.items)])
    if isinstance(a, (Seq, Tup)) and isinstance(b, (Seq, Tup)):
        a, b = as_seq(a), as_seq(b)
        n = min(len(a.items), len(b.items))
        return And_(Iff_(True, equal(I, a.n, b.n)),
                    Or_(*[And_(equal(I, a.n, i), *[
                        equal(I, a.items[j], b.items[j]) for j in range(i)])
                        for i in range(n + 1)]))
    if is_z3(a) and is_z3(b) and a.sort() == b.sort() and (
            strict or a.sort() not in (ARR,)):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        ka, kb = I.obj(a).kind, I.obj(b).kind
        if strict:
            return a.oid == b.oid
        if ka == kb == "set":
            return set_equal(I, a, b)
        if ka == kb == "list":
            x, y = const_items(I, a), const_items(I, b)
            if x is not None and y is not None:
                if len(x) != len(y):
                    return False
                return And_(*[equal(I, p, q) for p, q in zip(x, y)])
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    kinds = [(_kind(a)), (_kind(b))]
    for x, y, k in ((a, b, kinds[1]), (b, a, kinds[0])):
        # list, dictionary, or set and text
        if isinstance(x, Ref) and k == "str" and I.obj(x).kind in (
                "list", "map", "set"):
            return False
    if None not in kinds and kinds[0] != kinds[1]:
        return False
    raise Unsupported(f"equality of {a} and {b}")


def _unsup(msg):
    raise Unsupported(msg)


def _kind(v):
    if is_str(v) or isinstance(v, Rope):
        return "str"
    if is_bool(v) or is_int(v) or isinstance(v, float):
        return "num"
    if v is None:
        return "none"
    if isinstance(v, (Tup, Seq)):
        return "tuple"
    if isinstance(v, Rec):
        return "dict"
    if isinstance(v, Opaque) and v.tag == "float":
        return "num"
    return None


def as_seq(v):
    return v if isinstance(v, Seq) else Seq(len(v.items), v.items)


def rope_equal(I, a, b):
    """Text a == b, where b is a constant or a rope with the same beginning.
    """
    pa = list(a.parts)
    if isinstance(b, Rope):
        pb = list(b.parts)
    else:
        pb = [(True, b)] if const_str(b) != "" else []
    n = 0
    while n < len(pa) and n < len(pb) and same(pa[n][0], pb[n][0]) and \
            same(pa[n][1], pb[n][1]) and not isinstance(
                pa[n][1], _interp().Acc):
        n += 1
    pa, pb = pa[n:], pb[n:]
    P = _interp().present
    if not pb:
        return Not_(P(Rope(pa)))
    if not pa:
        return Not_(P(Rope(pb)))
    # constant prefix of the first part
    if len(pb) == 1 and const_str(pb[0][1]) is not None:
        t = const_str(pb[0][1])
        if pa[0][0] is True and const_str(pa[0][1]) is not None:
            s = const_str(pa[0][1])
            if t.startswith(s):
                return rope_equal(I, Rope(pa[1:]), t[len(s):])
            if not s.startswith(t):
                return False
            if len(s) > len(t):
                return False
        # cannot be decided exactly: both empty or unknown
    sa, sb = rope_str(Rope(pa)), rope_str(Rope(pb))
    if sa is not None and sb is not None:
        return lit(sa) == lit(sb)
    import os
    if os.environ.get("PYVC_DBG"):
        print("TEXTS", pa, "|||", pb)
    raise Unsupported("comparison of texts")


def rope_contains(I, r, sub):
    """sub in r: a text the code puts there, or user text that has it."""
    c = const_str(sub)
    if c is None:
        raise Unsupported("symbolic text in text")
    must, may = [], []

    def walk(g, x):
        if isinstance(x, str) or const_str(x) is not None:
            if c in const_str(x):
                must.append(g)
            return
        if isinstance(x, LoopText):
            m0, y0 = len(must), len(may)
            for h, y in x.body.parts:
                walk(h, y)
            if len(must) > m0:
                conds = must[m0:]
                del must[m0:]
                must.append(And_(g, I.exists(x.gen, And_(
                    x.dom, Or_(*conds)), "contains")))
            if len(may) > y0:
                del may[y0:]
                may.append(And_(g, x.present))
            return
        if isinstance(x, Rope):
            for h, y in x.parts:
                walk(And_(g, h), y)
            return
        may.append(g)
    for g, x in r.parts:
        walk(g, x)
    # (pieces of the text that form `sub` across parts: not excluded)
    u = I.facts.fresh("user_text", BOOL)
    I.facts.inexact.add(u.decl().name())
    return Or_(*must, And_(Or_(*may), u))


def set_equal(I, a, b):
    """Sets of strings."""
    e = z3.Const(f"se!{next(I.facts.count)}", STR)
    ina, inb = contains(I, a, e), contains(I, b, e)
    return Not_(I.exists(e, Not_(Iff_(ina, inb)), "setdiff"))


# ------------------------------------------------------------------ containers
def const_items(I, ref):
    if isinstance(ref, Ref) and all(
            isinstance(x, Elem) and x.g is True for x in I.log(ref)):
        return [x.val for x in I.log(ref)]
    if isinstance(ref, Tup):
        return list(ref.items)
    if isinstance(ref, Opaque) and ref.tag == "frozenlist" and all(
            isinstance(x, Elem) and x.g is True for x in ref.args):
        return [x.val for x in ref.args]
    return None


def seg_contains(I, s, x, g=True):
    if isinstance(s, Elem):
        return And_(s.g, equal(I, s.val, x))
    if len(s.items) == 1 and isinstance(s.items[0], Elem):
        it = s.items[0]
        if is_z3(it.val) and it.val.eq(s.gen) and is_pv(x) and \
                s.gen.sort() == STR:
            return And_(PV.is_str(x), *[subst(B(y), [(s.gen, PV.s(x))])
                                        for y in (s.dom, it.g)])
        if is_z3(it.val) and it.val.eq(s.gen) and is_z3(lit(x)) and \
                lit(x).sort() == s.gen.sort():
            return And_(*[subst(B(y), [(s.gen, lit(x))])
                          for y in (s.dom, it.g)])
    inner = Or_(*[seg_contains(I, y, x) for y in s.items])
    return I.exists(s.gen, And_(s.dom, inner), "in")


def contains(I, c, x):
    """x in c"""
    if isinstance(c, U) or isinstance(x, U):
        return I.lift(lambda c, x: contains(I, c, x), c, x)
    if isinstance(c, (Tup,)):
        return Or_(*[equal(I, y, x) for y in c.items])
    if isinstance(c, Rec):
        if const_str(x) is not None:
            n = const_str(x)
            return c.has.get(n, n in c.fields)
        return Or_(*[And_(c.has.get(k, True), equal(I, x, k))
                     for k in c.fields])
    if isinstance(c, Ref):
        k = I.obj(c).kind
        if k in ("list", "set"):
            return Or_(*[seg_contains(I, s, x) for s in I.log(c)])
        if k == "map":
            if is_pv(x):
                return And_(PV.is_str(x),
                            contains(I, c, PV.s(x)))
            if not is_str(x):
                raise Unsupported("key")
            I.note_read(c, x)
            return I.map_read(c, x)[0]
    if is_str(c) or isinstance(c, Rope):
        s = as_str(I, x)
        if s is None:
            raise Unsupported("in text")
        if isinstance(c, Rope):
            t = rope_str(c)
            if t is None:
                return rope_contains(I, c, s)
            c = t
        return s_contains(I, c, s)
    if isinstance(c, Opaque):
        if c.tag == "keys":
            return contains(I, c.args[0], x)
        if c.tag == "instdict":
            I.note_read(c.args[0], x)
            return I.map_read(c.args[0], x)[0]
        if c.tag == "jlist":
            return c.args[0].contains(I, x)
        if c.tag == "names":
            return N.names_contains(I, c, x)
        if c.tag == "frozenlist":
            return Or_(*[seg_contains(I, s, x) for s in c.args])
        if c.tag == "unknown":
            return I.facts.fresh("unknown_in", BOOL)
    if is_pv(c):
        s = as_str(I, x)
        if s is not None:
            k = I.known(PV.is_str(c))
            if k is True:
                return s_contains(I, PV.s(c), s)
            if k is None:
                return pv_split(I, c, {
                    "str": lambda p: s_contains(I, p, s),
                    "none": lambda p: I.raise_("TypeError"),
                    "int": lambda p: I.raise_("TypeError"),
                    "flt": lambda p: I.raise_("TypeError"),
                    "bool": lambda p: I.raise_("TypeError")},
                    lambda: I.facts.fresh("in_other", BOOL))
    raise Unsupported(f"{x} in {c}")


def key(I, k):
    if is_str(k):
        return k
    s = as_str(I, k)
    if s is None:
        raise Unsupported("key of a dictionary")
    return s


def getitem(I, o, i):
    return I.lift(lambda o, i: getitem1(I, o, i), o, i)


def getitem1(I, o, i):
    if isinstance(o, Opaque) and o.tag == "unknown":
        return maybe_raise(I, "getitem" + (
            IMMUTABLE if isinstance(i, Opaque) and i.tag == "slice"
            and o.args and IMMUTABLE in str(o.args[0]) else ""))
    if isinstance(o, Rec):
        n = const_str(i)
        if n is not None:
            if n in o.has:
                I.raise_if(Not_(o.has[n]), "KeyError", n)
            elif n not in o.fields:
                I.raise_("KeyError", n)
            return o.fields[n]
        if is_str(i):
            cs = [(And_(o.has.get(k, True), lit(i) == lit(k)), v)
                  for k, v in o.fields.items()]
            I.raise_if(Not_(Or_(*[g for g, _ in cs])), "KeyError", i)
            return merge_many(cs)
    if isinstance(o, Ref):
        ob = I.obj(o)
        if I.havoc and isinstance(i, Opaque) and i.tag == "unknown":
            return maybe_raise(I, "item", "KeyError", "IndexError",
                               "TypeError")
        if ob.kind == "map":
            s = key(I, i)
            I.note_read(o, s)
            has, v = I.map_read(o, s)
            I.raise_if(Not_(has), "KeyError", s)
            return v
        if ob.kind == "list":
            return list_item(I, I.log(o), i)
    if isinstance(o, Opaque) and o.tag == "frozenlist":
        return list_item(I, o.args, i)
    if isinstance(o, Opaque) and o.tag == "instdict":
        has, v = I.map_read(o.args[0], key(I, i))
        I.raise_if(Not_(has), "KeyError", i)
        return v
    if isinstance(o, Opaque) and o.tag == "jmap":
        return o.args[0].item(I, i)
    if isinstance(o, Opaque) and o.tag == "jlist":
        return o.args[0].index(I, i)
    if isinstance(o, Opaque) and hasattr(N, "getitem_" + o.tag):
        return getattr(N, "getitem_" + o.tag)(I, o, i)
    if isinstance(o, (Tup, Seq)):
        if isinstance(i, int) and not isinstance(i, bool):
            if isinstance(o, Tup):
                if -len(o.items) <= i < len(o.items):
                    return o.items[i]
                I.raise_("IndexError")
            if i >= 0:
                I.raise_if(Not_(o.n > i) if not isinstance(o.n, int)
                           else not o.n > i, "IndexError")
                return o.items[i]
        if isinstance(i, Opaque) and i.tag == "slice":
            return tup_slice(I, o, i)
    if is_str(o):
        return str_item(I, o, i)
    if isinstance(o, Rope):
        s = rope_str(o)
        if s is not None:
            return str_item(I, s, i)
        return Opaque("cut", o, i)
    if is_pv(o) or is_z3(o, ARR) or is_z3(o, NUM):
        return N.np_getitem(I, o, i)
    if isinstance(o, Opaque) and o.tag == "splitall" and i in (0, -1):
        s, sep = o.args
        return first_part(I, s, sep) if i == 0 else last_part(I, s, sep)
    if isinstance(o, Opaque) and o.tag == "splitall" and i == 1 \
            and type(i) is int:
        s, sep = o.args
        s_first_facts(I, s, sep)
        n = s_count(I, s, sep)
        I.raise_if(n == 0, "IndexError")
        return If_(n == 1, F_tail(lit(s), lit(sep)),
                   F_second(lit(s), lit(sep)))
    raise Unsupported(f"{o}[{i}]")


def first_part(I, s, sep):
    """The text before the first separator, or all of it."""
    s_first_facts(I, s, sep)
    return If_(z3.Contains(lit(s), lit(sep)), F_head(lit(s), lit(sep)),
               lit(s))


def last_part(I, s, sep):
    s_split_facts(I, s, sep)
    return If_(z3.Contains(lit(s), lit(sep)), F_last(lit(s), lit(sep)),
               lit(s))


def list_item(I, segs, i):
    if isinstance(i, Idx):
        for s in segs:
            if isinstance(s, Comp) and s.space == i.space and \
                    len(segs) == 1:
                return subst(s.items[0].val, [(s.gen, i.w)])
        raise Unsupported("index of another list")
    items = [s.val for s in segs] if all(
        isinstance(s, Elem) and s.g is True for s in segs) else None
    if items is not None and isinstance(i, int):
        if -len(items) <= i < len(items):
            return items[i]
        I.raise_("IndexError")
    if items is not None and isinstance(i, Opaque) and i.tag == "slice" and \
            all(x is None or isinstance(x, int) for x in i.args):
        return I.new_list(items[slice(*i.args)])
    if isinstance(i, int) and not isinstance(i, bool) and i >= 0 and \
            len(segs) == 1 and isinstance(segs[0], Comp) and \
            positions(segs[0]) and len(segs[0].items) == 1 and \
            isinstance(segs[0].items[0], Elem) and segs[0].items[0].g is True:
        s = segs[0]
        w = z3.IntVal(i)
        I.raise_if(Not_(subst(s.dom, [(s.gen, w)])), "IndexError")
        return subst(s.items[0].val, [(s.gen, w)])
    raise Unsupported("list index")


def positions(c):
    """Are the elements of the iteration given by 0, 1, ..., n - 1?"""
    if c.gen.sort() != INT or not is_z3(c.dom) or not z3.is_and(c.dom):
        return False
    parts, todo = [], [c.dom]
    while todo:
        x = todo.pop()
        if z3.is_and(x):
            todo += x.children()
        else:
            parts.append(x)
    low = [x for x in parts if x.eq(c.gen >= 0)]
    up = [x for x in parts if z3.is_lt(x) and x.arg(0).eq(c.gen) and
          not _interp().mentions(x.arg(1), c.gen)]
    return len(low) == 1 and len(up) == len(parts) - 1 > 0


def tup_slice(I, o, i):
    a, b, c = i.args
    if isinstance(o, Tup) and all(x is None or isinstance(x, int)
                                  for x in i.args):
        return Tup(o.items[slice(a, b, c)])
    if c is None and isinstance(o, Seq):
        n = len(o.items)
        if a is None and isinstance(b, int):
            # first b entries
            m = If_(o.n < b, o.n, b) if not isinstance(o.n, int) else \
                min(o.n, b)
            return Seq(m, o.items[:b])
        if isinstance(a, int) and b is None:
            m = If_(o.n < a, 0, o.n - a) if not isinstance(o.n, int) else \
                max(0, o.n - a)
            return Seq(m, o.items[a:])
    raise Unsupported("slice of a tuple")


def str_item(I, s, i):
    c = const_str(s)
    if isinstance(i, Opaque) and i.tag == "slice":
        a, b, st = i.args
        if c is not None and all(x is None or isinstance(x, int)
                                 for x in i.args):
            return c[slice(a, b, st)]
        if st is None and a is None and is_z3(b) and z3.is_app(b) and \
                b.decl().eq(F_rindex) and same(b.arg(0), lit(s)):
            s_split_facts(I, s, b.arg(1))
            return F_stem(lit(s), b.arg(1))
        if st is None and isinstance(a, int) and a >= 0 and b is None:
            x = lit(s)
            # (x[a:] for len(x) >= a, else "")
            return z3.If(z3.Length(x) >= a, z3.SubString(
                x, a, z3.Length(x) - a), lit(""))
        if st is None and is_sint(a) and b is None:
            x = lit(s)
            return z3.If(z3.And(a >= 0, z3.Length(x) >= a), z3.SubString(
                x, a, z3.Length(x) - a), lit(""))
        if st is None and a is None and isinstance(b, int) and b < 0:
            x = lit(s)
            return z3.If(z3.Length(x) >= -b, z3.SubString(
                x, 0, z3.Length(x) + b), lit(""))
        if st is None and a is None and isinstance(b, int):
            return z3.SubString(lit(s), 0, b)
        if st is None and isinstance(a, int) and isinstance(b, int) and \
                0 <= a <= b:
            return z3.SubString(lit(s), a, b - a)
        raise Unsupported("slice of a text")
    if isinstance(i, int):
        if c is not None:
            if -len(c) <= i < len(c):
                return c[i]
            I.raise_("IndexError")
        x = lit(s)
        I.raise_if(Not_(z3.Length(x) > (i if i >= 0 else -i - 1)),
                   "IndexError")
        return z3.SubString(x, i, 1) if i >= 0 else \
            z3.SubString(x, z3.Length(x) + i, 1)
    raise Unsupported("index of a text")


def setitem(I, o, i, v):
    if isinstance(o, U):
        return I.branch([(g, (lambda x: lambda: setitem(I, x, i, v))(x))
                         for g, x in o.cases], merge_value=False)
    if isinstance(o, Ref) and I.obj(o).kind == "map":
        if isinstance(i, U):
            i = I.lift(lambda x: key(I, x), i)
        k = key(I, i)
        c = const_str(k)
        I.put(o, SetOp(True, c if c is not None else k, v))
        return
    if isinstance(o, Ref) and I.obj(o).kind == "list" and isinstance(
            i, int) and not I.facts.gens and const_items(I, o) is not None:
        lg = list(I.log(o))
        if not -len(lg) <= i < len(lg):
            I.raise_("IndexError")
        lg[i] = Cell(True, v)
        I.st.heap[o.oid] = tuple(lg)
        return
    if isinstance(o, Ref) and I.obj(o).meta.get("setitem"):
        return I.obj(o).meta["setitem"](I, o, i, v)
    if isinstance(o, Opaque) and hasattr(N, "setitem_" + o.tag):
        return getattr(N, "setitem_" + o.tag)(I, o, i, v)
    raise Unsupported(f"{o}[...] = ...")


def delitem(I, o, i):
    if isinstance(o, Ref) and I.obj(o).kind == "map":
        k = key(I, i)
        I.note_read(o, k)
        has, _ = I.map_read(o, k)
        I.raise_if(Not_(has), "KeyError", k)
        I.put(o, DelOp(True, k))
        return
    raise Unsupported("del item")


def map_segments(I, ref, item):
    """Segments of an iteration over a map; item(k, v) -> value."""
    o = I.obj(ref)
    lg = I.log(ref)
    if (o.base is EMPTY) and all(isinstance(x, SetOp) and
                                 const_str(x.key) is not None for x in lg):
        out, seen = [], {}
        for x in lg:
            k = const_str(x.key)
            if k not in seen:
                seen[k] = len(out)
                out.append(k)
        res = []
        for k in out:
            h, v = I.map_read(ref, k)
            if h is not False:
                res.append(Elem(h, item(k, v)))
        return res
    if o.meta.get("keys"):
        res = []
        for k in o.meta["keys"]:
            h, v = I.map_read(ref, k)
            if h is not False:
                res.append(Elem(h, item(k, v)))
        return res
    k = I.facts.fresh("key", o.base.sort) if not I.facts.gens else \
        z3.Const(f"key!{next(I.facts.count)}", o.base.sort)
    n = len(I.objs)
    h, v = I.map_read(ref, k)
    if len(I.objs) > n:
        # (made for this key)
        if lg:
            raise Unsupported("iteration over a changed map")
        v = Lazy(lambda x: I.map_read(ref, x)[1], k)
    if I.reads is not None:
        I.reads.append((ref.oid, k, I.st.pc + (B(h),)))
    return [Comp(k, h, [Elem(True, item(k, v))], None)]


def iterate(I, v):
    """Segments of the elements of an iterable, in order."""
    if isinstance(v, (Tup,)):
        return [Elem(True, x) for x in v.items]
    if isinstance(v, Seq):
        return [Elem(v.n > i if not isinstance(v.n, int) else v.n > i, x)
                for i, x in enumerate(v.items)]
    if isinstance(v, Ref):
        k = I.obj(v).kind
        if k == "list":
            return list(I.log(v))
        if k == "set":
            return list(I.log(v))
        if k == "map":
            return map_segments(I, v, lambda k, _: k)
    if isinstance(v, str) or const_str(v) is not None:
        return [Elem(True, c) for c in const_str(v)]
    if isinstance(v, Rec):
        return [Elem(v.has.get(k, True), k) for k in v.fields]
    if isinstance(v, Opaque):
        if v.tag in ("keys", "values", "items"):
            f = {"keys": lambda k, x: k, "values": lambda k, x: x,
                 "items": lambda k, x: Tup([k, x])}[v.tag]
            o = v.args[0]
            if isinstance(o, Rec):
                return [Elem(o.has.get(k, True), f(k, x))
                        for k, x in o.fields.items()]
            if isinstance(o, Opaque) and o.tag == "instdict":
                return map_segments(I, o.args[0], f)
            if isinstance(o, Opaque) and o.tag == "jmap":
                return o.args[0].segments(I, f)
            if isinstance(o, Ref):
                return map_segments(I, o, f)
        if v.tag == "instdict":
            return map_segments(I, v.args[0], lambda k, x: k)
        if v.tag == "jmap":
            return v.args[0].segments(I, lambda k, x: k)
        if v.tag == "jlist":
            return v.args[0].iterate(I)
        if v.tag == "names":
            return N.names_segments(I, v)
        if v.tag == "parts":
            return [parts_seg(I, v)]
        if v.tag == "frozenlist":
            return list(v.args)
        if v.tag == "range":
            n = v.args[0]
            if isinstance(n, int):
                return [Elem(True, i) for i in range(n)]
            ub = N.upper_bound(I, n)
            return [Elem(n > i, i) for i in range(ub)]
        if v.tag == "zip":
            return v.args
        if v.tag == "unknown":
            e = z3.Const(f"elem!{next(I.facts.count)}", STR)
            d = I.facts.fresh_fun("in_unknown", STR, BOOL)
            return [Comp(e, d(e), [Elem(True, Opaque("unknown"))], None)]
    if isinstance(v, U):
        # (only for loops whose alternatives are lists)
        out = []
        for g, x in v.cases:
            for s in iterate(I, x):
                out.append(guard_seg(s, g))
        return out
    if I.havoc and isinstance(v, Opaque) and v.tag == "splitall":
        return iterate(I, Opaque("unknown", "parts"))
    if is_sstr(v):
        try:
            return N.chars(I, v)
        except Unsupported:
            if not I.havoc:
                raise
            return iterate(I, Opaque("unknown", "characters"))
    if is_pv(v):
        s = as_str(I, v)
        if s is not None:
            return iterate(I, s)
        if I.havoc:
            return iterate(I, maybe_raise(I, "iteration", "TypeError"))
    raise Unsupported(f"iteration over {v}")


def guard_seg(s, g):
    if isinstance(s, Elem):
        return Elem(And_(g, s.g), s.val)
    return Comp(s.gen, And_(g, s.dom), s.items, None)


def unpack(I, v, n):
    if isinstance(v, Tup):
        if len(v.items) != n:
            I.raise_("ValueError")
        return list(v.items)
    if isinstance(v, U):
        cols = []
        for g, x in v.cases:
            if not isinstance(x, Tup):
                raise Unsupported("unpack")
            cols.append((g, unpack(I, x, n)))
        return [merge_many([(g, c[i]) for g, c in cols]) for i in range(n)]
    items = const_items(I, v) if isinstance(v, (Ref, Opaque)) else None
    if items is not None and not (isinstance(v, Ref) and
                                  I.obj(v).kind == "inst"):
        if len(items) != n:
            I.raise_("ValueError")
        return items
    if isinstance(v, Opaque) and v.tag == "split1":
        # s.split(sep, 1)
        s, sep = v.args
        if n != 2:
            raise Unsupported("unpack")
        I.raise_if(Not_(s_contains(I, s, sep)), "ValueError")
        s_first_facts(I, s, sep)
        return [F_head(lit(s), lit(sep)), F_tail(lit(s), lit(sep))]
    if isinstance(v, Opaque) and v.tag == "splitall" and n == 2:
        s, sep = v.args
        I.raise_if(Not_(s_count(I, s, sep) == 1), "ValueError")
        s_first_facts(I, s, sep)
        return [F_head(lit(s), lit(sep)), F_tail(lit(s), lit(sep))]
    if isinstance(v, Opaque) and v.tag == "unknown":
        return [maybe_raise(I, "unpack") for _ in range(n)]
    raise Unsupported(f"unpack {v}")


# ------------------------------------------------------------------- operators
def inplace(I, op, old, new):
    if isinstance(op, ast.Add):
        if isinstance(old, Ref) and I.obj(old).kind == "list":
            segs = iterate(I, new)
            for s in segs:
                if isinstance(s, Comp):
                    s = Comp(s.gen, s.dom, s.items, None)
                I.put(old, s)
            return old
    if isinstance(old, U):
        return I.lift(lambda x: inplace(I, op, x, new), old)
    if isinstance(old, Opaque) and old.tag == "unknown":
        if not (old.args and IMMUTABLE in str(old.args[0])):
            raise Unsupported("operation in place on an unknown value")
        maybe_raise(I, "operator")
        return old
    if is_z3(old, ARR) or is_pv(old) and I.known(PV.is_arr(old)) is not False:
        raise Unsupported("operation in place on an array")
    return binop(I, op, old, new)


IMMUTABLE = "(of an immutable type)"


def textual(I, v):
    return is_str(v) or isinstance(v, Rope) or (
        is_pv(v) and I.known(PV.is_str(v)) is True) or (
        isinstance(v, Opaque) and v.tag == "cut")


def parts_of(v):
    if isinstance(v, Rope):
        return list(v.parts)
    if const_str(v) == "":
        return []
    if isinstance(v, Opaque) or is_pv(v):
        return [(True, Text(v))]
    return [(True, v)]


def binop(I, op, a, b):
    return I.lift(lambda a, b: binop1(I, op, a, b), a, b) \
        if not (isinstance(a, U) and textual_u(a)) else \
        I.lift(lambda a, b: binop1(I, op, a, b), a, b)


def textual_u(u):
    return False


def binop1(I, op, a, b):
    if isinstance(op, ast.Add):
        if is_str(a) and is_str(b):
            return concat([a, b])
        if textual(I, a) and textual(I, b):
            return Rope(parts_of(a) + parts_of(b))
        if textual(I, a) and (b is None or is_int(b) or isinstance(
                b, (Ref, Tup, Rec))):
            I.raise_("TypeError")
        if textual(I, a) and is_pv(b):
            I.raise_if(Not_(PV.is_str(b)), "TypeError")
            return Rope(parts_of(a) + [(True, PV.s(b))])
        if is_int(a) and is_int(b):
            return a + b
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, (Seq, Tup)) and isinstance(b, (Seq, Tup)):
            return seq_append(I, as_seq(a), as_seq(b))
        if isinstance(a, Ref) and isinstance(b, (Ref, Opaque)) and \
                I.obj(a).kind == "list":
            out = I.new("list", log=[])
            for s in list(I.log(a)) + iterate(I, b):
                if isinstance(s, Comp):
                    s = Comp(s.gen, s.dom, s.items, None)
                I.put(out, s)
            return out
        if isinstance(a, Opaque) and a.tag == "unknown" or \
                isinstance(b, Opaque) and b.tag == "unknown":
            return maybe_raise(I, "+")
    if isinstance(op, ast.Sub) and is_int(a) and is_int(b):
        return a - b
    if isinstance(op, ast.Mult):
        if is_int(a) and is_int(b):
            return a * b
        if isinstance(b, str) and isinstance(a, int):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, int):
            return a * b
        if (textual(I, a) and is_int(b)) or (textual(I, b) and is_int(a)):
            s, n = (a, b) if textual(I, a) else (b, a)
            return Rope([(n > 0 if is_z3(n) else n > 0,
                          Text(Opaque("repeat", s, n)))])
        if isinstance(b, Tup) and isinstance(a, int):
            a, b = b, a
        if isinstance(a, Tup) and isinstance(b, int):
            return Tup(a.items * b)
        if isinstance(a, (Tup, Seq)) and is_sint(b):
            s = as_seq(a)
            if s.n == 1:
                ub = N.upper_bound(I, b)
                return Seq(If_(b > 0, b, 0), [s.items[0]] * ub)
        if isinstance(a, Ref) and isinstance(b, int) and \
                const_items(I, a) is not None:
            return I.new_list(const_items(I, a) * b)
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return Rope([(True, Text(Opaque("formatted", a, b)))])
    if isinstance(op, ast.BitOr) and is_bool(a) and is_bool(b):
        return Or_(a, b)
    if isinstance(op, ast.BitAnd) and is_bool(a) and is_bool(b):
        return And_(a, b)
    if is_z3(a, ARR) or is_z3(b, ARR) or is_pv(a) or is_pv(b):
        return N.np_binop(I, op, a, b)
    raise Unsupported(f"{type(op).__name__} of {a} and {b}")


def seq_append(I, a, b):
    """Concatenation where b has constant length or a has."""
    if isinstance(a.n, int):
        return Seq(a.n + b.n, a.items[:a.n] + b.items)
    ub = len(a.items) + len(b.items)
    items = []
    for j in range(ub):
        # element j of a+b: a[j] if j < a.n else b[j - a.n]
        cases = []
        for n in range(len(a.items) + 1):
            if j < n:
                v = a.items[j]
            elif j - n < len(b.items):
                v = b.items[j - n]
            else:
                v = b.items[-1] if b.items else 0
            cases.append((a.n == n, v))
        items.append(merge_many(cases))
    return Seq(a.n + b.n, items)


def compare(I, op, a, b):
    if isinstance(op, ast.Is):
        return is_(I, a, b)
    if isinstance(op, ast.IsNot):
        return Not_(is_(I, a, b))
    if isinstance(op, ast.In):
        return contains(I, b, a)
    if isinstance(op, ast.NotIn):
        return Not_(contains(I, b, a))
    if isinstance(a, Opaque) and a.tag == "unknown" or \
            isinstance(b, Opaque) and b.tag == "unknown":
        return I.facts.fresh("unknown_cmp", BOOL)
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = N.np_equal(I, a, b)
        if r is None:
            r = equal(I, a, b)
        return Not_(r) if isinstance(op, ast.NotEq) else r
    f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
         ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]

    def num(a, b):
        x, y = number(I, a), number(I, b)
        if x is None or y is None:
            raise Unsupported(f"comparison of {a} and {b}")
        return f(x, y)
    return I.lift(num, a, b)


def number(I, v):
    if is_int(v) or isinstance(v, float):
        return v
    if is_z3(v) and v.sort() == z3.RealSort():
        return v
    if is_bool(v):
        return If_(v, 1, 0)
    if isinstance(v, Opaque) and v.tag == "version":
        return v.args[0]
    if is_z3(v, NUM):
        return F_numval(v)
    if isinstance(v, MaxV):
        return maxv(I, v)
    if is_pv(v):
        k = [t for t in ("int", "npnum", "flt") if I.known(
            tag_is(I, v, t)) is not False]
        if k == ["int"] and I.known(PV.is_int(v)):
            return PV.i(v)
    return None


def maxv(I, v):
    m = I.facts.fresh("max", INT)
    for g, t in v.terms:
        I.facts.fact(Imp_(g, m >= t))
    I.facts.fact(Or_(*[And_(g, m == t) for g, t in v.terms]))
    return m


def is_(I, a, b):
    if isinstance(a, U):
        return Or_(*[And_(g, is_(I, x, b)) for g, x in a.cases])
    if isinstance(b, U):
        return Or_(*[And_(g, is_(I, a, x)) for g, x in b.cases])
    if b is None:
        if is_pv(a):
            return PV.is_none(a)
        if isinstance(a, Opaque) and a.tag == "unknown":
            return I.facts.fresh("unknown_none", BOOL)
        return a is None
    if a is None:
        return is_(I, b, a)
    if isinstance(b, bool):
        if is_pv(a):
            return a == PV.bool(b)
        if is_bool(a):
            return Iff_(a, b)
        return False
    if isinstance(a, Lib) and isinstance(b, Lib):
        return a.path == b.path
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    raise Unsupported("is")


# ---------------------------------------------------------- unknown operations
def maybe_raise(I, what, *names):
    """Result of an operation without contract (only where the property does
    not depend on it): any value, or any exception."""
    if not I.havoc:
        raise Unsupported(what)
    st = I.st.copy()
    c = I.facts.fresh("raises", BOOL)
    I.facts.inexact.add(c.decl().name())
    for n in names or ("Exception",):
        s2 = st.copy()
        s2.assume(c)
        I.exits.append(_interp().Exit("raise", s2, Exc(n)))
    I.assume(Not_(c))
    I.trusted.add(f"no effect on objects: {what}")
    return Opaque("unknown", what)


# (methods that change the object they belong to)
MUTATORS = {"sort", "fill", "resize", "put", "itemset", "partition",
            "setfield", "setflags", "byteswap", "append", "extend", "insert",
            "pop", "remove", "clear", "update", "reverse", "setdefault",
            "popitem", "add", "discard", "write", "writelines", "unlink",
            "mkdir", "touch", "rename", "replace_file", "__setattr__",
            "__delattr__", "__setitem__", "__delitem__", "__iadd__"}
# (functions without effects)
PURE = {"numpy." + x for x in (
    "size", "shape", "ndim", "squeeze", "array", "asarray", "max", "min",
    "moveaxis", "transpose", "swapaxes", "all", "any", "prod", "sum",
    "atleast_1d", "atleast_2d", "atleast_3d", "array2string", "array_str",
    "expand_dims", "reshape", "ravel", "broadcast_to", "isnan", "unique",
    "array_equal", "amax", "amin", "ndindex", "argmax", "vectorize")} | {
    "copy.deepcopy", "copy.copy", "json.dumps", "textwrap.indent",
    "textwrap.fill", "os.path.join", "os.path.basename", "os.path.splitext"}


# ------------------------------------------------------------------ attributes
STR_METHODS = {"startswith", "endswith", "lower", "upper", "count", "replace",
               "split", "rindex", "index", "islower", "strip", "join",
               "splitlines", "find", "format", "isdigit", "encode",
               "rstrip", "lstrip", "rfind", "partition", "rpartition",
               "title", "isupper", "casefold", "capitalize", "rsplit"}
LIST_METHODS = {"append", "extend", "index", "insert", "pop", "remove",
                "sort", "reverse", "copy", "count", "clear"}
MAP_METHODS = {"keys", "values", "items", "get", "pop", "update", "copy",
               "setdefault", "clear", "popitem"}
SET_METHODS = {"add", "discard", "union", "intersection", "difference",
               "issubset", "update", "remove", "symmetric_difference"}


def attribute(I, o, n, default=None, has_default=False):
    if isinstance(o, Opaque) and o.tag == "unknown":
        return maybe_raise(I, f"attribute {n}" + (
            IMMUTABLE if n == "shape" else ""), "AttributeError") \
            if has_default is False else maybe_raise(I, n)
    if is_str(o) or isinstance(o, Rope):
        if n in STR_METHODS:
            return Method(o, n)
        if has_default:
            return default
        I.raise_("AttributeError", n)
    if isinstance(o, Ref):
        k = I.obj(o).kind
        ms = {"list": LIST_METHODS, "map": MAP_METHODS,
              "set": SET_METHODS}[k]
        if n in ms:
            return Method(o, n)
        if has_default:
            return default
        I.raise_("AttributeError", n)
    if isinstance(o, Rec):
        if n in ("keys", "values", "items", "get", "copy"):
            return Method(o, n)
        I.raise_("AttributeError", n)
    if isinstance(o, (Tup, Seq)):
        if n in ("index", "count"):
            return Method(o, n)
        I.raise_("AttributeError", n)
    if o is None or is_bool(o) or is_int(o) or isinstance(o, float):
        if has_default:
            return default
        I.raise_("AttributeError", n)
    if isinstance(o, Opaque):
        return N.opaque_attr(I, o, n, default, has_default)
    if is_pv(o) or is_z3(o, ARR) or is_z3(o, NUM):
        return N.np_attr(I, o, n, default, has_default)
    raise Unsupported(f"attribute {n} of {o}")


def has_attribute(I, o, name):
    n = const_str(name)
    if n is None:
        raise Unsupported("hasattr")
    if is_str(o) or isinstance(o, Rope):
        return n in STR_METHODS
    if is_pv(o) or is_z3(o, ARR) or is_z3(o, NUM):
        return N.np_hasattr(I, o, n)
    if isinstance(o, Ref):
        return n in {"list": LIST_METHODS, "map": MAP_METHODS,
                     "set": SET_METHODS}[I.obj(o).kind]
    raise Unsupported(f"hasattr {o}")


def set_attribute(I, o, name, v):
    raise Unsupported("attribute of a library object set")


# ------------------------------------------------------------------ methods
def call_method(I, o, n, args, kw):
    args = list(args)
    if isinstance(o, Opaque) and o.tag == "unknown":
        if n in MUTATORS:
            raise Unsupported(f"method {n} of an unknown value")
        return maybe_raise(I, f"method {n}")
    if is_str(o) or isinstance(o, Rope):
        return str_method(I, o, n, args, kw)
    if isinstance(o, Ref):
        k = I.obj(o).kind
        if k == "list":
            return list_method(I, o, n, args, kw)
        if k == "map":
            return map_method(I, o, n, args, kw)
        if k == "set":
            if n == "add":
                I.put(o, Elem(True, args[0]))
                return None
    if isinstance(o, Rec):
        if n in ("keys", "values", "items"):
            return Opaque(n, o)
        if n == "get":
            k = const_str(args[0])
            d = args[1] if len(args) > 1 else None
            if k is None:
                c = contains(I, o, args[0])
                return I.cond(c, lambda: getitem(I, o, args[0]), lambda: d)
            if k not in o.fields:
                return d
            return merge(o.has.get(k, True), o.fields[k], d)
        if n == "copy":
            return o
    if isinstance(o, Opaque):
        return N.opaque_method(I, o, n, args, kw)
    if is_pv(o) or is_z3(o, ARR) or is_z3(o, NUM):
        return N.np_method(I, o, n, args, kw)
    raise Unsupported(f"method {n} of {o}")


def str_method(I, s, n, args, kw):
    if isinstance(s, Rope):
        t = rope_str(s)
        if t is None:
            if n == "replace":
                return Rope([(True, Text(Opaque("replaced", s, *args)))])
            raise Unsupported(f"method {n} of a text")
        s = t
    for i, a in enumerate(args):
        if isinstance(a, U):
            return I.lift(lambda x: str_method(
                I, s, n, args[:i] + [x] + args[i + 1:], kw), a)
        if isinstance(a, Rope):
            t = rope_str(a)
            if t is not None:
                args[i] = t
        if is_pv(a):
            t = as_str(I, a)
            if t is None:
                I.raise_if(Not_(PV.is_str(a)), "TypeError")
                t = PV.s(a)
            args[i] = t
    c = const_str(s)
    cargs = [const_str(a) if is_str(a) else a for a in args]
    if c is not None and all(isinstance(a, (str, int)) for a in cargs) and \
            n not in ("join", "encode"):
        r = getattr(c, n)(*cargs, **{k: v for k, v in kw.items()}) \
            if n not in ("rindex", "index") else None
        if n in ("rindex", "index"):
            try:
                r = getattr(c, n)(*cargs)
            except ValueError:
                I.raise_("ValueError")
        if isinstance(r, list):
            return I.new_list(r)
        if isinstance(r, tuple):
            return Tup(r)
        return r
    if n in ("startswith", "endswith"):
        a = args[0]
        if isinstance(a, Tup):
            return Or_(*[str_method(I, s, n, [x], kw) for x in a.items])
        if not is_str(a):
            raise Unsupported(n)
        if const_str(a) == "":
            return True
        if n == "startswith" and is_z3(s) and z3.is_app(s) and s.num_args(
                ) == 1 and s.decl().name() in ("dtype_text",
                                               "scalar_dtype_text"):
            if const_str(a) in ("<U", "<S"):    # (text of str_of)
                from . import nump as N
                x = s.arg(0)
                k = N.F_kind(x) if is_z3(x, N.ARR) else N.F_nkind(x)
                return k == lit("U") if const_str(a) == "<U" else False
        if n == "startswith" and const_str(a) == "_" and \
                I.is_plain(s, "_"):
            return False
        return (z3.PrefixOf if n == "startswith" else z3.SuffixOf)(
            lit(a), lit(s))
    if n == "lower":
        return s_lower(I, s)
    if n == "upper":
        return s_upper(I, s)
    if n == "count" and len(args) == 1:
        return s_count(I, s, args[0])
    if n == "replace":
        if len(args) == 3 and args[2] == 1:
            return replace_first(I, lit(s), lit(args[0]), lit(args[1]))
        if len(args) == 2:
            return s_replace(I, s, args[0], args[1])
    if n in ("rindex", "rfind") and len(args) == 1:
        a = args[0]
        if n == "rindex":
            I.raise_if(Not_(s_contains(I, s, a)), "ValueError")
        else:
            raise Unsupported("rfind")
        s_split_facts(I, s, a)
        return F_rindex(lit(s), lit(a))
    if n == "split":
        sep = kw.get("sep", args[0] if args else None)
        mx = kw.get("maxsplit", args[1] if len(args) > 1 else None)
        if is_str(sep):
            return Opaque("split1" if mx == 1 else "splitall", s, sep) \
                if mx in (None, 1) else _unsup("split")
    if n == "rsplit" and len(args) == 2 and args[1] == 1:
        return Opaque("rsplit1", s, args[0])
    if n == "rpartition":
        a = args[0]
        s_split_facts(I, s, a)
        h = s_contains(I, s, a)
        return Tup([If_(h, F_stem(lit(s), lit(a)), ""), If_(h, a, ""),
                    If_(h, F_last(lit(s), lit(a)), s)])
    if n == "partition":
        a = args[0]
        s_first_facts(I, s, a)
        h = s_contains(I, s, a)
        return Tup([If_(h, F_head(lit(s), lit(a)), s), If_(h, a, ""),
                    If_(h, F_tail(lit(s), lit(a)), "")])
    if n == "islower":
        return z3.Function("str_islower", STR, BOOL)(lit(s))
    if n == "strip" and not args:
        return F_strip(lit(s))
    if n == "join":
        return join(I, s, args[0])
    raise Unsupported(f"str.{n}")


def replace_first(I, s, a, b):
    r = z3.Replace(s, a, b)
    n = z3.Length(a)
    I.facts.fact(Imp_(z3.PrefixOf(a, s), r == z3.Concat(
        b, z3.SubString(s, n, z3.Length(s) - n))))
    return r


def join(I, sep, v):
    if isinstance(v, Opaque) and v.tag in ("unknown",):
        return maybe_raise(I, "join")
    if isinstance(v, Opaque) and v.tag == "lines" and const_str(sep) == "":
        return v.args[0]
    if is_pv(v):
        s = as_str(I, v)
        if s is None and not I.havoc:
            raise Unsupported("join")
        return Rope([(True, Text(Opaque("joined", sep, v)))])
    items = const_items(I, v) if isinstance(v, (Ref, Tup, Opaque)) else None
    if items is not None:
        if all(is_str(x) for x in items):
            out = []
            for i, x in enumerate(items):
                if i:
                    out.append(sep)
                out.append(x)
            return concat(out)
        return Rope([(True, Text(Opaque("joined", sep, v)))])
    if const_str(sep) == "" and isinstance(v, Ref) and \
            all(isinstance(x, Elem) for x in I.log(v)) and \
            all(is_str(x.val) for x in I.log(v)):
        return N.chars_join(I, I.log(v))
    if isinstance(v, (Ref, Opaque, Seq)):
        return Rope([(True, Text(Opaque("joined", sep, v)))])
    raise Unsupported("join")


def list_method(I, o, n, args, kw):
    if n == "append":
        I.put(o, Elem(True, args[0]))
        return None
    if n == "extend":
        inplace(I, ast.Add(), o, args[0])
        return None
    if n == "index" and len(args) == 1:
        x = args[0]
        lg = I.log(o)
        items = const_items(I, o)
        if items is not None:
            cs, rest = [], True
            for i, y in enumerate(items):
                e = And_(rest, equal(I, y, x))
                cs.append((e, i))
                rest = And_(rest, Not_(equal(I, y, x)))
            I.raise_if(rest, "ValueError")
            return merge_many([c for c in cs if c[0] is not False])
        if len(lg) == 1 and isinstance(lg[0], Comp) and \
                lg[0].space is not None:
            s = lg[0]
            ex, w = I.exists_w(s.gen, And_(s.dom, equal(
                I, s.items[0].val, x)), "index")
            I.raise_if(Not_(ex), "ValueError")
            return Idx(s.space, w)
    if n == "copy":
        return I.new("list", log=I.log(o))
    if n == "pop" and not args:
        raise Unsupported("pop")
    raise Unsupported(f"list.{n}")


def map_method(I, o, n, args, kw):
    if n in ("keys", "values", "items"):
        return Opaque(n, o)
    if n == "get":
        k = key(I, args[0])
        d = args[1] if len(args) > 1 else None
        I.note_read(o, k)
        has, v = I.map_read(o, k)
        kn = I.known(has)
        if kn is True:
            return v
        if kn is False:
            return d
        return merge(has, v, d)
    if n == "pop":
        k = key(I, args[0])
        I.note_read(o, k)
        has, v = I.map_read(o, k)
        if len(args) == 1:
            I.raise_if(Not_(has), "KeyError", k)
            I.put(o, DelOp(True, k))
            return v
        I.put(o, DelOp(True, k))
        if isinstance(v, Undef):
            return args[1]
        return merge(has, v, args[1])
    if n == "update" and len(args) == 1 and not kw:
        for s in iterate(I, Opaque("items", args[0])):
            if isinstance(s, Elem) and s.g is True:
                setitem(I, o, s.val.items[0], s.val.items[1])
            elif isinstance(s, Comp):
                it = s.items[0]
                I.put(o, Bulk(s.gen, s.dom, [SetOp(
                    it.g, it.val.items[0], it.val.items[1])]))
            else:
                raise Unsupported("update")
        return None
    if n == "setdefault":
        k = key(I, args[0])
        has, v = I.map_read(o, k)
        c = const_str(k)
        I.put(o, SetOp(Not_(has), c if c is not None else k, args[1]))
        return I.map_read(o, k)[1]
    if n == "copy":
        r = I.new("map", base=I.obj(o).base, log=I.log(o),
                  meta=dict(I.obj(o).meta))
        return r
    raise Unsupported(f"dict.{n}")


# -------------------------------------------------------------- library calls
def _fs():
    from . import fs
    return fs


def _copying():
    from . import copying
    return copying


def _updating():
    from . import updating
    return updating


def _formats():
    from . import formats
    return formats


def call_lib(I, path, args, kw):
    I.lib_used.add(path)
    mod, _, name = path.rpartition(".")
    if name in EXCEPTIONS and mod == "builtins":
        return Exc(name, args)
    f = globals().get("l_" + path.replace(".", "_")) or \
        getattr(N, "l_" + path.replace(".", "_"), None) or \
        getattr(_fs(), "l_" + path.replace(".", "_"), None) or \
        getattr(_copying(), "l_" + path.replace(".", "_"), None) or \
        getattr(_updating(), "l_" + path.replace(".", "_"), None) or \
        getattr(_formats(), "l_" + path.replace(".", "_"), None)
    if f is not None:
        return f(I, *args, **kw)
    if mod == "platform" and not args and not kw:
        return z3.Const(name, STR)
    if I.havoc and path in PURE:
        return maybe_raise(I, path)
    raise Unsupported(f"{path}()")


def call_opaque(I, f, args, kw):
    if f.tag == "unknown":
        return maybe_raise(I, "call")
    if f.tag == "classattr":
        raise Unsupported("call of a class attribute")
    return N.opaque_call(I, f, args, kw)


def l_object___setattr__(I, o, name, v):
    return I.lift(lambda n: I.object_setattr(o, n, v), name)


def l_object___delattr__(I, o, name):
    return I.lift(lambda n: I.object_delattr(o, n), name)


def l_builtins_isinstance(I, v, t):
    return isinstance_(I, v, t)


def l_builtins_hasattr(I, o, n):
    return I.hasattr(o, n)


def l_builtins_getattr(I, o, n, *d):
    return I.getattr(o, n, d[0] if d else None, bool(d))


def l_builtins_setattr(I, o, n, v):
    I.setattr(o, n, v)


def l_builtins_delattr(I, o, n):
    I.delattr(o, n)


def l_builtins_print(I, *a, **kw):
    I.do_io("print", *a)


def l_warnings_warn(I, msg, *a, **kw):
    I.do_io("warn", msg)


def l_builtins_type(I, v):
    return Opaque("type", v)


def l_builtins_bool(I, v=False):
    return I.truth(v)


def l_builtins_str(I, v=""):
    if isinstance(v, U):
        return I.lift(lambda x: l_builtins_str(I, x), v)
    if is_str(v) or isinstance(v, Rope):
        return v
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    if isinstance(v, Exc):
        return Rope([(True, Text(Opaque("exc")))])
    if isinstance(v, Opaque) and v.tag in ("float", "dtype"):
        return N.str_of(I, v)
    t = text_of(v)
    if t is not None:
        return t
    return Rope([(True, Text(v))])


def l_builtins_len(I, v):
    return I.lift(lambda v: length(I, v), v)


def length(I, v):
    if isinstance(v, Opaque) and v.tag == "unknown":
        return maybe_raise(I, "len", "TypeError")
    if is_str(v):
        c = const_str(v)
        return len(c) if c is not None else z3.Length(v)
    if isinstance(v, Tup):
        return len(v.items)
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, Rope):
        s = rope_str(v)
        if s is not None:
            return length(I, s)
        n = I.facts.fresh("len", INT)
        I.facts.fact(And_(n >= 0, Iff_(n == 0, Not_(
            _interp().present(v)))))
        return n
    if isinstance(v, Ref) and I.obj(v).kind in ("list", "set"):
        if I.obj(v).kind == "list":
            items = const_items(I, v)
            if items is not None:
                return len(items)
            if all(isinstance(x, Elem) for x in I.log(v)):
                return z3.Sum([z3.If(B(x.g), 1, 0) for x in I.log(v)])
        return seq_len(I, v)
    if isinstance(v, Ref) and I.obj(v).kind == "map":
        n = I.facts.fresh("len", INT)
        I.facts.fact(And_(n >= 0, Iff_(n == 0, Not_(map_nonempty(I, v)))))
        return n
    if isinstance(v, Opaque) and v.tag in ("keys", "values", "items") and \
            isinstance(v.args[0], Ref):
        return length(I, v.args[0])
    if isinstance(v, Opaque) and v.tag == "parts":
        return F_nparts(lit(v.args[0]), lit(v.args[1]))
    if isinstance(v, Opaque):
        return N.opaque_len(I, v)
    if is_pv(v) or is_z3(v, ARR):
        return N.np_len(I, v)
    if isinstance(v, Rec):
        return len(v.fields)
    if v is None or is_int(v) or is_bool(v) or isinstance(v, float):
        I.raise_("TypeError")
    raise Unsupported(f"len({v})")


F_card = z3.Function("set_card", z3.ArraySort(STR, BOOL), INT)


def seq_len(I, v):
    """Length of a list of different strings: cardinality of its set."""
    lg = I.log(v)
    n = I.facts.fresh("len", INT)
    I.facts.fact(And_(n >= 0, Iff_(n == 0, Not_(nonempty(I, v)))))
    if len(lg) == 1 and isinstance(lg[0], Comp) and \
            len(lg[0].items) == 1 and isinstance(lg[0].items[0], Elem) and \
            same(lg[0].items[0].val, lg[0].gen) and \
            lg[0].gen.sort() == STR:
        # every element once: the length is a function of the set
        I.lengths.append((n, v, lg[0]))
        for m, w, s in I.lengths[:-1]:
            e = z3.Const(f"le!{next(I.facts.count)}", STR)
            d = Iff_(subst(And_(s.dom, s.items[0].g), [(s.gen, e)]),
                     subst(And_(lg[0].dom, lg[0].items[0].g),
                           [(lg[0].gen, e)]))
            diff = I.exists(e, Not_(d), "lendiff")
            I.facts.fact(Or_(diff, m == n))
    return n


def l_builtins_list(I, v=None):
    if v is None:
        return I.new_list([])
    if isinstance(v, Opaque) and v.tag in ("zip", "paths", "names"):
        return N.list_of(I, v)
    out = I.new("list", log=[])
    for s in iterate(I, v):
        I.put(out, s)
    return out


def l_builtins_tuple(I, v=None):
    if v is None:
        return Tup([])
    if isinstance(v, (Tup, Seq)):
        return v
    items = const_items(I, v) if isinstance(v, (Ref, Opaque)) else None
    if items is not None:
        return Tup(items)
    if isinstance(v, Ref) and all(isinstance(x, Elem) for x in I.log(v)):
        lg = I.log(v)
        # guards of the form n > i (decreasing): prefix of the list
        return N.seq_of(I, lg)
    raise Unsupported("tuple()")


def l_builtins_set(I, v=None):
    out = I.new("set", log=[])
    if v is not None:
        for s in iterate(I, v):
            I.put(out, s)
    return out


def l_builtins_dict(I, v=None):
    if v is None:
        return I.new_map([])
    if isinstance(v, Ref) and I.obj(v).kind == "map":
        return map_method(I, v, "copy", [], {})
    raise Unsupported("dict()")


def l_builtins_zip(I, *vs):
    for j, v in enumerate(vs):
        if isinstance(v, U):
            return I.lift(lambda x: l_builtins_zip(
                I, *vs[:j], x, *vs[j + 1:]), v)
    if all(isinstance(v, Opaque) and v.tag == "parts" for v in vs):
        return Opaque("zip", parts_seg(I, *vs))
    if I.havoc and any(isinstance(v, Opaque) and v.tag == "unknown"
                       for v in vs):
        return Opaque("unknown", "zip")
    segs = [iterate(I, v) for v in vs]
    if all(all(isinstance(s, Elem) and s.g is True for s in x)
           for x in segs):
        n = min(len(x) for x in segs)
        return Opaque("zip", *[Elem(True, Tup([x[i].val for x in segs]))
                               for i in range(n)])
    if all(all(isinstance(s, Elem) for s in x) for x in segs):
        # prefix guarded: element i exists if it exists in all
        n = min(len(x) for x in segs)
        return Opaque("zip", *[Elem(And_(*[x[i].g for x in segs]),
                                    Tup([x[i].val for x in segs]))
                               for i in range(n)])
    if all(len(x) == 1 and isinstance(x[0], Comp) for x in segs):
        # parallel lists over the same index space
        s0 = segs[0][0]
        if all(x[0].space is not None for x in segs) and all(
                N.same_space(I, s0.space, x[0].space) for x in segs):
            vals = [subst(x[0].items[0].val, [(x[0].gen, s0.gen)])
                    for x in segs]
            return Opaque("zip", Comp(s0.gen, s0.dom,
                                      [Elem(True, Tup(vals))], s0.space))
    raise Unsupported("zip")


def l_builtins_enumerate(I, v):
    segs = iterate(I, v)
    if all(isinstance(s, Elem) for s in segs):
        # (guards are prefix closed for texts and sequences)
        return Opaque("zip", *[Elem(s.g, Tup([i, s.val]))
                               for i, s in enumerate(segs)])
    raise Unsupported("enumerate")


def l_builtins_range(I, *a):
    if len(a) == 1:
        return Opaque("range", a[0])
    if all(isinstance(x, int) for x in a):
        return I.new_list(list(range(*a)))
    raise Unsupported("range")


def l_builtins_max(I, *a, **kw):
    if kw:
        raise Unsupported("max(key)")
    if len(a) == 2 and any(isinstance(x, U) for x in a):
        return I.lift(lambda *x: l_builtins_max(I, *x), *a)
    if len(a) == 2:
        terms = []
        for x in a:
            x = number(I, x) if not isinstance(x, MaxV) else x
            if isinstance(x, MaxV):
                terms += x.terms
            elif is_int(x):
                terms.append((True, x))
            else:
                raise Unsupported("max")
        if all(isinstance(t, int) for _, t in terms):
            return max(t for _, t in terms)
        return MaxV(terms)
    return N.reduce_(I, "max", a[0])


def l_builtins_sum(I, v):
    if isinstance(v, Ref) and I.obj(v).kind == "list" and all(
            isinstance(x, Elem) and (is_int(x.val) or is_bool(x.val))
            for x in I.log(v)):
        r = 0
        for x in I.log(v):
            n = If_(x.val, 1, 0) if is_bool(x.val) else x.val
            r = lit(r) + lit(If_(x.g, n, 0))
        return r
    return N.reduce_(I, "sum", v)


def l_builtins_all(I, v):
    if isinstance(v, (Ref, Tup)) and const_items(I, v) is not None:
        return And_(*[I.truth(x) for x in const_items(I, v)])
    raise Unsupported("all")


def l_builtins_any(I, v):
    if isinstance(v, (Ref, Tup)) and const_items(I, v) is not None:
        return Or_(*[I.truth(x) for x in const_items(I, v)])
    raise Unsupported("any")


def l_builtins_sorted(I, v, **kw):
    # (the order of independent iterations does not matter)
    out = I.new("list", log=[])
    for s in iterate(I, v):
        I.put(out, s)
    return out


def l_builtins_float(I, v=0):
    if isinstance(v, U):
        return I.lift(lambda x: l_builtins_float(I, x), v)
    if v is None:
        I.raise_("TypeError")
    if is_str(v):
        c = const_str(v)
        if c is not None:
            try:
                return float(c)
            except ValueError:
                I.raise_("ValueError")
        I.raise_if(Not_(F_isfloat(v)), "ValueError")
        return F_float(v)
    if is_pv(v):
        return pv_split(I, v, {"str": lambda s: l_builtins_float(I, s)},
                        None if I.known(PV.is_str(v)) else
                        lambda: maybe_raise(I, "float", "TypeError"))
    if isinstance(v, int):
        return float(v)
    if isinstance(v, Opaque) and v.tag == "float":
        return v
    if is_z3(v, INT):
        return Opaque("float", z3.ToReal(v), z3.Function(
            "text_of_float_of_int", INT, STR)(v))
    raise Unsupported("float")


def l_builtins_int(I, v=0):
    if isinstance(v, U):
        return I.lift(lambda x: l_builtins_int(I, x), v)
    if v is None:
        I.raise_("TypeError")
    if is_int(v):
        return v
    if is_str(v):
        x = lit(v)
        I.raise_if(Not_(F_isint(x)), "ValueError")
        return F_int(x)
    raise Unsupported("int")


def l_contextlib_suppress(I, *names):
    return Opaque("suppress", *[n.path.split(".")[-1] for n in names])


def enter(I, cm):
    return N.enter(I, cm)


def leave(I, cm):
    return N.leave(I, cm)


def l_re_sub(I, pat, rep, s, *a):
    if const_str(pat) == "^Data_" and const_str(rep) == "" and not a:
        c = const_str(s)
        if c is not None:
            return _re.sub("^Data_", "", c)
        x = lit(s)
        return z3.If(z3.PrefixOf(lit("Data_"), x), z3.SubString(
            x, 5, z3.Length(x) - 5), x)
    raise Unsupported("re.sub")


F_nparts = z3.Function("re_split_len", STR, STR, INT)
F_part = z3.Function("re_split_item", STR, STR, INT, STR)


def l_re_split(I, pat, s, *a):
    """Parts of a text: a function of pattern and text, at least one."""
    if a or const_str(pat) is None:
        raise Unsupported("re.split")
    t = as_str(I, s)
    if t is None:
        raise Unsupported("re.split")
    I.facts.fact(F_nparts(lit(pat), lit(t)) >= 1)
    I.trusted.add("re.split: parts are a function of pattern and text")
    return Opaque("parts", pat, t)


def parts_seg(I, *vs):
    """Common iteration over texts split into parts."""
    i = z3.Const(f"part!{next(I.facts.count)}", INT)
    dom = And_(i >= 0, *[i < F_nparts(lit(v.args[0]), lit(v.args[1]))
                         for v in vs])
    vals = [F_part(lit(v.args[0]), lit(v.args[1]), i) for v in vs]
    I.space += 1
    return Comp(i, dom, [Elem(True, Tup(vals) if len(vals) > 1
                              else vals[0])], I.space)


def l_packaging_version_parse(I, v):
    if isinstance(v, U):
        return I.lift(lambda x: l_packaging_version_parse(I, x), v)
    c = const_str(v) if is_str(v) else None
    if c is not None:
        try:
            return Opaque("version", float(c))
        except ValueError:
            raise Unsupported("version")
    s = as_str(I, v)
    if s is None:
        if is_pv(v):
            I.raise_if(Not_(PV.is_str(v)), "TypeError")
            s = PV.s(v)
        else:
            raise Unsupported("version")
    return Opaque("version", F_ver(s))


# ---------------------------------------------- abstraction in havoc mode
BUILTINS = {"builtins." + x for x in (
    "tuple", "list", "sum", "all", "any", "sorted", "max", "min", "int",
    "float", "str", "len", "enumerate", "zip", "set", "repr", "abs", "round",
    "range", "bool", "isinstance", "type", "format")}


def _abstracting(f, what, pure=lambda *a: True):
    """Where only frames matter: an operation without effects that is not
    supported has an unknown result, or raises any exception."""
    import functools

    @functools.wraps(f)
    def g(I, *args, **kw):
        if not I.havoc or not pure(*args):
            return f(I, *args, **kw)
        st = I.st.copy()
        try:
            return f(I, *args, **kw)
        except Unsupported:
            I.st = st
            return maybe_raise(I, what + (
                IMMUTABLE if f.__name__ == "getitem"
                and _sliced_tuple(*args) else ""))
    return g


def _sliced_tuple(o, i):
    """Slices of tuples are tuples."""
    if not (isinstance(i, Opaque) and i.tag == "slice"):
        return False
    return all(isinstance(x, (Tup, Seq)) or (
        isinstance(x, Opaque) and x.tag == "unknown" and x.args
        and IMMUTABLE in str(x.args[0]))
        for x in ([v for _, v in o.cases] if isinstance(o, U) else [o]))


call_lib = _abstracting(call_lib, "library function", lambda path, *a:
                        path in BUILTINS or path in PURE)
getitem = _abstracting(getitem, "item")
binop = _abstracting(binop, "operator")
compare = _abstracting(compare, "comparison")
_iterate = iterate


def iterate(I, v):
    if not I.havoc:
        return _iterate(I, v)
    st = I.st.copy()
    try:
        return _iterate(I, v)
    except Unsupported:
        I.st = st
        maybe_raise(I, "iteration", "TypeError")
        return _iterate(I, Opaque("unknown", "elements"))
