"""Abstraction of text: a first, fast attempt at a verification condition."""
import z3
from .core import PV, STR, Unsupported, B


def add(s, fs):
    c, r = z3.main_ctx().ref(), s.solver
    for f in fs:
        z3.Z3_solver_assert(c, r, B(f).as_ast())


# Abstraction: text is an uninterpreted sort and string operations are
# uninterpreted functions (with their values on the constants of the
# problem).  `unsat` of the abstraction is a proof; any other answer means
# nothing.
TXT = z3.DeclareSort("Txt")
_pv2 = z3.Datatype("PlainPV")
for _i in range(PV.num_constructors()):
    _c = PV.constructor(_i)
    _pv2.declare("p_" + _c.name(), *[
        ("p_" + PV.accessor(_i, _j).name(), TXT if _c.domain(_j) == STR
         else _c.domain(_j)) for _j in range(_c.arity())])
PV2 = _pv2.create()
_plain, _funs, _lits = {}, {}, {}


def plain_sort(s):
    return TXT if s == STR else PV2 if s == PV else s


def text_const(x):
    if x not in _lits:
        _lits[x] = z3.Const(f"text{len(_lits)}", TXT)
    return _lits[x]


class Plain:
    __slots__ = ("t", "x", "lits", "pats")


def plain_fun(d, ch):
    """The abstract function for a declaration."""
    key = d.get_id()
    if key not in _funs:
        sorts = [c.sort() for c in ch]
        _funs[key] = z3.Function(f"plain{len(_funs)}_{d.name()}", *[
            plain_sort(s) for s in sorts], plain_sort(d.range())), d
    return _funs[key][0]


def dt_index(d):
    """(kind, constructor, argument) of a declaration of PV."""
    k = d.kind()
    for i in range(PV.num_constructors()):
        if k == z3.Z3_OP_DT_CONSTRUCTOR and PV.constructor(i).eq(d):
            return PV2.constructor(i)
        if k in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER) and \
                PV.recognizer(i).eq(d):
            return PV2.recognizer(i)
        if k == z3.Z3_OP_DT_ACCESSOR:
            for j in range(PV.constructor(i).arity()):
                if PV.accessor(i, j).eq(d):
                    return PV2.accessor(i, j)
    raise Unsupported("datatype")


_dt = {}


def plain(t):
    i = t.get_id()
    n = _plain.get(i)
    if n is not None:
        return n
    todo = [(t, None)]
    while todo:
        x, ch = todo.pop()
        i = x.get_id()
        if i in _plain:
            continue
        if ch is None:
            if not z3.is_app(x):
                raise Unsupported("quantifier")
            ch = x.children()
            todo.append((x, ch))
            for c in ch:
                if c.get_id() not in _plain:
                    todo.append((c, None))
            continue
        n = Plain()
        n.x = x
        ps = [_plain[c.get_id()] for c in ch]
        n.lits = n.pats = frozenset()
        if ps:
            n.lits = n.lits.union(*[p.lits for p in ps])
            n.pats = n.pats.union(*[p.pats for p in ps])
        new = [p.t for p in ps]
        d, s = x.decl(), x.sort()
        k = d.kind()
        if z3.is_string_value(x):
            n.lits = frozenset([x.as_string()])
            n.t = text_const(x.as_string())
        elif k in DT:
            if d.get_id() not in _dt:
                _dt[d.get_id()] = dt_index(d), d
            n.t = _dt[d.get_id()][0](*new) if ch else PV2.constructor(
                [PV.constructor(j).eq(d) for j in range(
                    PV.num_constructors())].index(True))()
        elif all(a.eq(b) for a, b in zip(new, ch)) and s not in (STR, PV) \
                and not any(z3.is_re(c) for c in ch):
            n.t = x
        elif k == z3.Z3_OP_EQ:
            n.t = new[0] == new[1]
        elif k == z3.Z3_OP_DISTINCT:
            n.t = z3.Distinct(*new)
        elif k == z3.Z3_OP_ITE:
            n.t = z3.If(*new)
        elif k != z3.Z3_OP_UNINTERPRETED and not any(
                c.sort() in (STR, PV) or z3.is_re(c) for c in ch) and \
                s not in (STR, PV):
            n.t = d(*new)
        else:
            f = plain_fun(d, ch) if len(ch) == d.arity() else plain_fun_n(
                d, ch)
            n.t = f(*new) if ch else f()
            if k == z3.Z3_OP_SEQ_LENGTH:
                n.pats = n.pats | {("len", None, f)}
            if k in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX) and \
                    z3.is_string_value(ch[0]):
                n.pats = n.pats | {(k, ch[0].as_string(), f)}
            if k == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(ch[1]):
                n.pats = n.pats | {("in", ch[1].as_string(), f)}
            if k == z3.Z3_OP_SEQ_CONCAT and nonempty(x):
                n.lits = n.lits | {""}
                n.pats = n.pats | {("full", None, n.t)}
        _plain[i] = n
    return _plain[t.get_id()]


def plain_fun_n(d, ch):
    key = d.get_id(), len(ch)
    if key not in _funs:
        _funs[key] = z3.Function(f"plain{len(_funs)}_{d.name()}", *[
            plain_sort(c.sort()) for c in ch], plain_sort(d.range())), d
    return _funs[key][0]


def nonempty(x):
    if z3.is_string_value(x):
        return x.as_string() != ""
    return z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT) and any(
        nonempty(c) for c in x.children())


DT = {z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_IS,
      z3.Z3_OP_DT_RECOGNISER}


def constants(ps):
    """Values of the abstract functions on the constants."""
    lits = frozenset().union(*[p.lits for p in ps])
    pats = frozenset().union(*[p.pats for p in ps])
    out = [z3.Distinct(*[text_const(x) for x in lits])] if len(
        lits) > 1 else []
    for what, a, f in pats:
        if what == "full":
            out.append(f != text_const(""))
            continue
        for x in lits:
            v = text_const(x)
            if what == "len":
                out.append(f(v) == len(x))
            elif what == "in":
                out.append(f(v, text_const(a)) == (a in x))
            else:
                out.append(f(text_const(a), v) == (
                    x.startswith(a) if what == z3.Z3_OP_SEQ_PREFIX
                    else x.endswith(a)))
    return out


def abstractly_unsat(asserts, timeout=1500):
    try:
        ps = [plain(a) for a in asserts]
    except Unsupported:
        return False
    s = z3.Solver()
    s.set("timeout", timeout)
    add(s, [p.t for p in ps])
    add(s, constants(ps))
    return s.check() == z3.unsat


