"""Contracts of the formats of values in files (C20).

_format_value_for_netcdf and _format_value_from_netcdf are proved separately,
and their composition as a lemma: what is read is what was written. The file
in between (netCDF4) returns the array that was put into it (assumed).
"""
import ast
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, lit, is_str, is_z3, Tup,
                   const_str, Opaque, Func, Method, PV, STR, INT, BOOL, ARR,
                   Unsupported, box)
from . import nump as N
from .props import (any_value, result_array, same_elements, flat_events,
                    atleast_shape, exc, strict, IO, UT, atleast_nd_contract)

ret = lambda e: e.kind == "return"  # noqa: E731
F_masked = z3.Function("is_masked", ARR, BOOL)
F_dtype = z3.Function("dtype_text", ARR, STR)


def is_kind(a, *kinds):
    return Or_(*[N.F_kind(a) == lit(k) for k in kinds])


def dtype_facts(I, a):
    """str(a.dtype)"""
    t, k = F_dtype(a), N.F_kind(a)
    one = t.at(1)
    I.facts.fact(And_(
        z3.Length(t) >= 2,
        Iff_(z3.Contains(t, lit("float")), k == lit("f")),
        Iff_(z3.Contains(t, lit("int")), Or_(k == lit("i"), k == lit("u"))),
        Iff_(And_(one == lit("S")), k == lit("S")),
        Iff_(And_(one == lit("U")), k == lit("U"))))


def install(I):
    I.hooks["formats"] = True
    I.opaque_attrs["characters"] = chars_attr
    I.opaque_methods["characters"] = chars_method


def chars_attr(I, o, n):
    if n == "dtype":
        return Opaque("dtype", o.args[0])
    raise Unsupported(f"characters.{n}")


def chars_method(I, o, n, args, kw):
    raise Unsupported(f"characters.{n}()")


def need(I):
    if not I.hooks.get("formats"):
        raise Unsupported("masked arrays")


def l_numpy_ma_is_masked(I, v):
    need(I)
    a = v if is_z3(v, ARR) else N.pv_array(I, v)
    if a is None:
        raise Unsupported("is_masked")
    return F_masked(a)


def l_netCDF4_chartostring(I, v, encoding=None):
    """The texts whose characters are in the last axis."""
    need(I)
    if isinstance(v, Opaque) and v.tag == "characters":
        a = v.args[0]
    else:
        a = v if is_z3(v, ARR) else N.pv_array(I, v)
        if a is None:
            raise Unsupported("chartostring")
        a = z3.Function("joined_characters", ARR, ARR)(a)
        N.arr_facts(I, a)
        I.facts.fact(N.F_kind(a) == lit("S"))
    r = N.derived(I, "texts", a, ndim=N.F_ndim(a))
    # (derived() says that the kind is the same)
    I.trusted.add("netCDF4: chartostring() is the inverse of stringtochar()")
    I.facts.fact(And_(*[N.F_dim(r, i) == N.F_dim(a, i)
                        for i in range(N.MAXD)]))
    return r


def astype_text(I, a):
    """array.astype("U") of text"""
    r = I.facts.fresh("as_text", ARR)
    i = z3.Const(f"i!{next(I.facts.count)}", INT)
    I.facts.fact(Imp_(N.is_text(a), N.F_el(r, i) == N.F_el(a, i)), (i,))
    I.facts.fact(And_(N.F_kind(r) == lit("U"), N.F_size(r) == N.F_size(a),
                      Imp_(N.is_text(a), N.F_el(r, 0) == N.F_el(a, 0)),
                      N.F_ndim(r) == N.F_ndim(a),
                      *[N.F_dim(r, j) == N.F_dim(a, j)
                        for j in range(N.MAXD)]))
    I.trusted.add("numpy: astype('U') keeps text")
    return N.arr_facts(I, r)


def elements(I, e, a, from_first=True):
    """The result holds the elements of the array in order: an array of the
    same shape, or without the first axis if there is one element, or this
    element."""
    p = box(e.value) if not is_z3(e.value, ARR) else PV.arr(e.value)
    if p is None:
        return False
    r = PV.a(p)
    N.arr_facts(I, r)
    i = I.facts.fresh("any", INT)
    same = And_(N.F_size(r) == N.F_size(a), N.F_el(r, i) == N.F_el(a, i))
    shape = And_(N.F_ndim(r) == N.F_ndim(a), *[
        Imp_(N.F_ndim(a) > k, N.F_dim(r, k) == N.F_dim(a, k))
        for k in range(4)])
    first = And_(N.F_size(a) == 1, N.F_ndim(r) == N.F_ndim(a) - 1,
                 N.F_el(r, 0) == N.F_el(a, 0))
    return Or_(And_(PV.is_arr(p), Or_(And_(same, shape), first)),
               And_(N.F_size(a) == 1, p == N.F_el(a, 0)))


def from_netcdf(p):
    def setup(I):
        install(I)
        a = z3.Const("content", ARR)
        N.arr_facts(I, a)
        dtype_facts(I, a)
        I.assume(N.F_ndim(a) >= 1, N.F_ndim(a) <= 4)
        return [a, z3.Const("key", STR)], {}, a
    num = lambda a: is_kind(a, "f", "i", "u")  # noqa: E731
    text = lambda a: is_kind(a, "S", "U")  # noqa: E731

    def refused(I, e, a):
        return Iff_(e.kind == "raise", Not_(Or_(num(a), text(a)))) if \
            e.kind == "return" else And_(exc(e, "TypeError"), Not_(
                Or_(num(a), text(a))))

    def warned(I, e, a):
        w = flat_events(I, e.state, "warn")
        if any(b for b, *_ in w):
            return False
        return Iff_(Or_(*[g for _, g, _, _ in w]), And_(
            num(a), F_masked(a)))

    def numbers(I, e, a):
        return Imp_(num(a), elements(I, e, a))

    def texts(I, e, a):
        j = z3.Function("joined_characters", ARR, ARR)(a)
        N.arr_facts(I, j)

        def one(x):
            q = box(e.value)
            if q is None:
                return False
            i = I.facts.fresh("any", INT)
            r = PV.a(q)
            return Or_(And_(PV.is_arr(q), N.F_el(r, i) == N.F_el(x, i),
                            N.F_size(r) == N.F_size(x)),
                       And_(N.F_size(x) == 1, Or_(
                           q == N.F_el(x, 0), And_(
                               PV.is_arr(q), N.F_el(r, 0) == N.F_el(x, 0)))))
        return And_(Imp_(N.F_kind(a) == lit("U"), one(a)),
                    Imp_(N.F_kind(a) == lit("S"), one(j)))
    p.run(IO + "_format_value_from_netcdf", setup, [
        ("a TypeError is raised iff the data is neither numbers nor text",
         refused),
        ("numbers are returned in order and shape; a single number without "
         "the first axis", numbers, ret),
        ("texts are returned in order", texts, ret),
        ("a warning is issued iff numbers are missing", warned)])


def for_netcdf(p):
    for want in TYPES + (None,):
        for_netcdf_type(p, want)


TYPES = ("attribute", "double", "string")


def for_netcdf_type(p, want):
    def setup(I):
        v, a = any_value(I)
        I.contracts[UT + "_atleast_nd"] = atleast_nd_contract
        d = z3.Const("dimensions", STR)
        t = z3.Const("dtype", STR)
        if want is None:
            I.assume(*[t != lit(x) for x in TYPES])
        else:
            t = lit(want)
        I.assume(z3.Length(d) >= 1, z3.Length(d) <= 4)
        n = z3.Const("S", INT)
        I.assume(n >= 0)
        return [v, z3.Const("key", STR), want or t, d, n], {}, (v, a, d, t, n)

    def parts(e):
        if not (isinstance(e.value, Tup) and len(e.value.items) == 2):
            raise Unsupported("result")
        return e.value.items

    def kinds(I, e, c):
        v, a, d, t, n = c
        known = Or_(*[t == lit(x) for x in ("attribute", "double",
                                            "string")])
        if e.kind == "raise":
            return And_(exc(e, "ValueError"), Not_(known))
        x = parts(e)[1]
        return And_(known, *[Imp_(t == lit(k), I.L.equal(I, x, w))
                             for k, w in (("attribute", "attribute"),
                                          ("double", "f8"),
                                          ("string", "S1"))])

    def numbers(I, e, c):
        v, a, d, t, n = c
        r = result_array(I, parts(e)[0])
        if r is None:
            return t != lit("double")
        return Imp_(t == lit("double"), And_(same_elements(I, r, a), *[
            Imp_(z3.Length(d) == k, atleast_shape(r, a, k))
            for k in range(1, 5)]))

    def texts(I, e, c):
        v, a, d, t, n = c
        r = result_array(I, parts(e)[0])
        if r is None:
            return t != lit("string")
        return Imp_(And_(t == lit("string"), N.is_text(a),
                         N.F_maxlen(a) <= n), And_(same_elements(
                             I, r, a), *[
            Imp_(z3.Length(d) == k, atleast_shape(r, a, k))
            for k in range(1, 5)]))

    def attribute(I, e, c):
        v, a, d, t, n = c
        p_ = box(v)
        return Imp_(And_(t == lit("attribute"), PV.is_str(p_)), strict(
            I, parts(e)[0], p_))
    clauses = {
        "double": [("numbers keep values and order; singleton dimensions "
                    "are added", numbers, ret)],
        "string": [("texts that fit keep values and order", texts, ret)],
        "attribute": [("text of attributes is kept", attribute, ret)],
        None: []}[want]
    p.run(IO + "_format_value_for_netcdf", setup, [
        ("the type in the file is that of the convention; a ValueError is "
         "raised iff there is none", kinds)] + clauses,
        label="_format_value_for_netcdf: " + (want or "unknown type"))


def round_trip(p):
    """Lemma: reading the written array returns the data."""
    mod = p.mods.find(IO + "_format_value_from_netcdf")
    for kind, code in (
            ("double", "a"),
            ("string", "stringtochar(a, encoding='ascii')")):
        src = (f"def round_trip(value, key, dimensions, S):\n"
               f"    a, t = _format_value_for_netcdf(value, key, '{kind}', "
               f"dimensions, S)\n"
               f"    return _format_value_from_netcdf({code}, key)\n")
        fn = Func(mod.module, ast.parse(src).body[0], None)

        def setup(I, kind=kind):
            install(I)
            v, a = any_value(I)

            def contract(I, x, n):
                r = atleast_nd_contract(I, x, n)
                dtype_facts(I, r)
                I.facts.fact(Not_(F_masked(r)))
                return r
            I.contracts[UT + "_atleast_nd"] = contract
            d, n = z3.Const("dimensions", STR), z3.Const("S", INT)
            I.assume(z3.Length(d) >= 1, z3.Length(d) <= 4, n >= 0)
            if kind == "double":
                I.assume(is_kind(a, "f", "i"))
            else:
                I.assume(is_kind(a, "U"), N.F_maxlen(a) <= n)
            return [v, z3.Const("key", STR), d, n], {}, a

        def kept(I, e, a):
            q = box(e.value) if not is_z3(e.value, ARR) else PV.arr(e.value)
            if e.kind != "return" or q is None:
                return False
            i = I.facts.fresh("any", INT)
            r = PV.a(q)
            N.arr_facts(I, r)
            return Or_(
                And_(PV.is_arr(q), N.F_size(r) == N.F_size(a),
                     N.F_el(r, i) == N.F_el(a, i)),
                And_(N.F_size(a) == 1, PV.is_arr(q),
                     N.F_el(r, 0) == N.F_el(a, 0)),
                And_(N.F_size(a) == 1, q == N.F_el(a, 0)))
        p.run(fn, setup, [
            ("the elements that are read are those that were written, in "
             "order", kept)], label=f"round trip of {kind} data")


def C20(p):
    from_netcdf(p)
    for_netcdf(p)
    try:
        round_trip(p)
    except Exception as ex:
        p.add("round trip", "unknown", str(ex)[:200])
