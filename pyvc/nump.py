"""Assumed contracts of numpy and of other libraries (trusted base)."""
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, is_str, is_sstr,
                   is_int, is_bool, is_pv, is_sint, If_, const_str, U, Tup,
                   Seq, Rope, Text, LoopText, Rec, Ref, Idx, MaxV, Undef, Exc,
                   Opaque, Func, Bound, Method, Cls, Lib, Py, SetOp, DelOp,
                   Bulk, Elem, Comp, subst, same, box, concat, merge,
                   merge_many, rope_str, text_of, EMPTY, Unsupported, Dead,
                   PV, STR, INT, BOOL, ARR, NUM, OBJ)

MAXD = 8

F_isf64 = z3.Function("is_float64", NUM, BOOL)
F_ndim = z3.Function("ndim", ARR, INT)
F_dim = z3.Function("dim", ARR, INT, INT)
F_size = z3.Function("size", ARR, INT)
F_kind = z3.Function("kind", ARR, STR)
F_el = z3.Function("element", ARR, INT, PV)       # row major
F_nkind = z3.Function("scalar_kind", NUM, STR)
F_asarr = z3.Function("asarray", PV, ARR)
F_conv = z3.Function("is_regular", PV, BOOL)      # numpy can make an array
F_width = z3.Function("char_width", ARR, INT)     # of bytes
F_maxlen = z3.Function("longest", ARR, INT)       # longest string


def L():
    from . import lib
    return lib


def arr_facts(I, a):
    """What holds for every array."""
    if a.get_id() in I.arr_seen:
        return a
    I.arr_seen[a.get_id()] = a
    fs = [F_ndim(a) >= 0, F_size(a) >= 0, F_maxlen(a) >= 0,
          Imp_(F_ndim(a) == 0, F_size(a) == 1),
          Imp_(F_ndim(a) == 1, F_size(a) == F_dim(a, 0))]
    for i in range(MAXD):
        fs.append(F_dim(a, i) >= 0)
        fs.append(Imp_(F_size(a) == 1, Imp_(F_ndim(a) > i,
                                            F_dim(a, i) == 1)))
        fs.append(Imp_(And_(F_size(a) != 0, F_ndim(a) > i),
                       F_dim(a, i) >= 1))
    for n in range(2, 5):
        fs.append(Imp_(And_(F_ndim(a) == n, *[
            F_dim(a, i) == 1 for i in range(n)]), F_size(a) == 1))
    I.facts.fact(And_(*fs))
    return a


def asarray(I, v):
    """np.array(v) as a term."""
    if is_z3(v, ARR):
        return arr_facts(I, v)
    p = v if is_pv(v) else box(v)
    if p is None and is_z3(v, NUM):
        p = PV.npnum(v)
    if p is None:
        raise Unsupported(f"array of {v}")
    p = z3.simplify(p) if z3.is_app(p) and p.decl().kind() == \
        z3.Z3_OP_DT_CONSTRUCTOR else p
    if z3.is_app(p) and p.decl().name() == "arr":
        return arr_facts(I, p.arg(0))
    a = F_asarr(p)
    if a.get_id() not in I.arr_seen:
        scalar = Or_(PV.is_int(p), PV.is_flt(p), PV.is_npnum(p),
                     PV.is_str(p), PV.is_bool(p), PV.is_none(p),
                     PV.is_dict(p))
        I.facts.fact(And_(
            Imp_(PV.is_arr(p), a == PV.a(p)),
            Imp_(scalar, And_(F_ndim(a) == 0, F_el(a, 0) == p)),
            Imp_(PV.is_str(p), And_(F_kind(a) == lit("U"), F_maxlen(a) ==
                                    z3.Length(PV.s(p)))),
            Imp_(PV.is_int(p), F_kind(a) == lit("i")),
            Imp_(PV.is_flt(p), F_kind(a) == lit("f")),
            Imp_(PV.is_npnum(p), F_kind(a) == F_nkind(PV.n(p)))))
    return arr_facts(I, a)


def derived(I, name, a, dims=None, ndim=None, size=True):
    """Array with the elements of `a` in the same order."""
    r = I.facts.fresh(name, ARR)
    i = z3.Const(f"i!{next(I.facts.count)}", INT)
    I.facts.fact(F_el(r, i) == F_el(a, i), (i,))
    fs = [F_kind(r) == F_kind(a), F_maxlen(r) == F_maxlen(a),
          F_width(r) == F_width(a), F_size(r) == F_size(a), F_el(r, 0) == F_el(a, 0)]
    if ndim is not None:
        fs.append(F_ndim(r) == ndim)
    I.facts.fact(And_(*fs))
    arr_facts(I, r)
    return r


def atleast(I, n, v):
    a = convert(I, v)
    r = derived(I, f"atleast{n}d", a)
    nd = F_ndim(a)
    d = [F_dim(a, i) for i in range(MAXD)]
    R = [F_dim(r, i) for i in range(MAXD)]
    fs = [F_ndim(r) == If_(nd < n, n, nd),
          Imp_(nd >= n, r == a)]
    if n == 1:
        fs.append(Imp_(nd == 0, R[0] == 1))
    elif n == 2:
        fs += [Imp_(nd == 0, And_(R[0] == 1, R[1] == 1)),
               Imp_(nd == 1, And_(R[0] == 1, R[1] == d[0]))]
    else:
        fs += [Imp_(nd == 0, And_(R[0] == 1, R[1] == 1, R[2] == 1)),
               Imp_(nd == 1, And_(R[0] == 1, R[1] == d[0], R[2] == 1)),
               Imp_(nd == 2, And_(R[0] == d[0], R[1] == d[1], R[2] == 1))]
    I.facts.fact(And_(*fs))
    return r


def convert(I, v):
    """Array of a value; irregular nested lists raise a ValueError."""
    if isinstance(v, U):
        p = box(v)
        if p is None:
            return I.lift(lambda x: convert(I, x), v)
        v = p
    p = v if is_pv(v) else box(v)
    if p is not None and not is_z3(v, ARR):
        I.raise_if(And_(Or_(PV.is_list(p), PV.is_tuple(p),
                            PV.is_other(p)), Not_(F_conv(p))), "ValueError")
    return asarray(I, v)


def l_numpy_atleast_1d(I, v):
    return atleast(I, 1, v)


def l_numpy_atleast_2d(I, v):
    return atleast(I, 2, v)


def l_numpy_atleast_3d(I, v):
    return atleast(I, 3, v)


def l_numpy_array(I, v, dtype=None):
    if dtype is not None:
        if isinstance(v, Opaque):
            raise Unsupported("np.array(dtype)")
        return bytes_array(I, v, dtype)
    if isinstance(v, Opaque) or isinstance(v, Ref):
        return np_from(I, v)
    return convert(I, v)


def is_text(a):
    return Or_(F_kind(a) == lit("U"), F_kind(a) == lit("S"))


def bytes_array(I, v, dtype):
    """np.array(v, dtype="S<n>"); texts of at most n characters are kept."""
    n = None
    if isinstance(dtype, Rope) and len(dtype.parts) == 2:
        (g, x), (h, y) = dtype.parts
        y = y.value if isinstance(y, Text) else y
        if g is True and h is True and const_str(x) == "S":
            if is_z3(y, STR) and y.decl().name() == "int_str":
                n = y.arg(0)
            elif is_int(y):
                n = lit(y)
    if is_z3(dtype, STR) and dtype.decl().kind() == z3.Z3_OP_SEQ_CONCAT \
            and dtype.num_args() == 2 and const_str(dtype.arg(0)) == "S" \
            and dtype.arg(1).decl().name() == "int_str":
        n = dtype.arg(1).arg(0)
    if n is None:
        raise Unsupported("np.array(dtype)")
    a = convert(I, v)
    r = I.facts.fresh("bytes", ARR)
    i = z3.Const(f"i!{next(I.facts.count)}", INT)
    fits = And_(is_text(a), F_maxlen(a) <= n)
    I.facts.fact(Imp_(fits, F_el(r, i) == F_el(a, i)), (i,))
    I.facts.fact(And_(
        F_kind(r) == lit("S"), F_width(r) == n, F_size(r) == F_size(a),
        F_ndim(r) == F_ndim(a),
        *[F_dim(r, j) == F_dim(a, j) for j in range(MAXD)]))
    I.trusted.add("numpy: an array of bytes of n characters holds the given "
                  "ASCII texts of at most n characters")
    arr_facts(I, r)
    return r


def l_numpy_asarray(I, v):
    if isinstance(v, Opaque) or isinstance(v, Ref):
        return np_from(I, v)
    return convert(I, v)


def np_from(I, v):
    """Array of a list of texts: usable for `in`, indexing with Idx."""
    if isinstance(v, Opaque) and v.tag in ("masked", "unknown"):
        if v.tag == "unknown":
            return L().maybe_raise(I, "array")
        return v
    return v


def l_numpy_size(I, v):
    if isinstance(v, Opaque):
        raise Unsupported("np.size")
    return F_size(convert(I, v))


def l_numpy_shape(I, v):
    return shape_of(I, convert(I, v))


def shape_of(I, a):
    return Seq(F_ndim(a), [F_dim(a, i) for i in range(MAXD)])


def upper_bound(I, n):
    """Small constant upper bound of an integer term."""
    if not (is_z3(n) or isinstance(n, int)):
        raise Unsupported("number of iterations")
    for k in range(0, MAXD + 1):
        if not I.feasible(extra=(lit(n) > k,), timeout=500):
            return k
    if not I.feasible(extra=(lit(n) > MAXD,), timeout=8000):
        return MAXD
    raise Unsupported("no bound on the number of iterations")


def pv_array(I, o):
    """Array of a PV known to be one."""
    if is_z3(o, ARR):
        return o
    if is_pv(o) and I.known(PV.is_arr(o)) is True:
        return arr_facts(I, PV.a(o))
    return None


ARR_ATTRS = {"shape", "ndim", "size", "dtype", "copy", "flatten", "astype",
             "reshape", "squeeze", "ravel", "T", "tolist", "item"}


def np_attr(I, o, n, default=None, has_default=False):
    def arr(a):
        arr_facts(I, a)
        if n == "shape":
            return shape_of(I, a)
        if n == "ndim":
            return F_ndim(a)
        if n == "size":
            return F_size(a)
        if n == "dtype":
            return Opaque("dtype", a)
        if n in ARR_ATTRS:
            return Method(a, n)
        return other()

    def num(x):
        if n == "shape":
            return Tup([])
        if n == "ndim":
            return 0
        if n == "size":
            return 1
        if n == "dtype":
            return Opaque("dtype", x)
        if n in ARR_ATTRS:
            return Method(x, n)
        return other()

    def other():
        if has_default:
            return default
        I.raise_("AttributeError", n)

    if is_z3(o, ARR):
        return arr(o)
    if is_z3(o, NUM):
        return num(o)
    h = {"arr": arr, "npnum": num}
    if n in L().STR_METHODS:
        h["str"] = lambda s: Method(s, n)
    if n == "copy":
        # (lists and dictionaries have a shallow copy as well)
        for t in ("list", "dict", "arr", "npnum"):
            h[t] = lambda _: Method(o, n)
    if n in ("keys", "values", "items", "get"):
        h["dict"] = lambda _: Method(o, n)
    return L().pv_split(I, o, h, other)


def np_hasattr(I, o, n):
    if is_z3(o, ARR) or is_z3(o, NUM):
        return n in ARR_ATTRS
    if n in ARR_ATTRS and n != "copy":
        return Or_(PV.is_arr(o), PV.is_npnum(o))
    raise Unsupported("hasattr")


def np_method(I, o, n, args, kw):
    if n == "copy":
        return o
    a = pv_array(I, o)
    if a is None and is_z3(o, NUM):
        a = asarray(I, PV.npnum(o))
    if a is not None:
        if n in ("flatten", "ravel"):
            r = derived(I, "flat", a, ndim=1)
            I.facts.fact(F_dim(r, 0) == F_size(a))
            return r
        if n == "astype" and I.hooks.get("formats") and \
                const_str(args[0]) == "U":
            from .formats import astype_text
            return astype_text(I, a)
        if n == "astype":
            return Opaque("astype", a, args[0])
        if n == "squeeze" and not args and not kw:
            return squeezed(I, a)
        if n == "reshape":
            if len(args) == 1 and not kw:
                lg = int_elems(I, args[0])
                if lg is not None:
                    return reshape(I, a, lg)
            return Opaque("reshaped", a, *args)
    raise Unsupported(f"array method {n}")


def np_getitem(I, o, i):
    a = pv_array(I, o)
    if a is None:
        if is_pv(o):
            def text(s):
                return L().str_item(I, s, i)
            return L().pv_split(
                I, o, {"arr": lambda x: np_getitem(I, arr_facts(I, x), i),
                       "str": text,
                       "none": lambda _: I.raise_("TypeError"),
                       "int": lambda _: I.raise_("TypeError")},
                lambda: L().maybe_raise(I, "item of a value"))
        raise Unsupported("item of a value")
    if isinstance(i, Tup) and len(i.items) == 2 and isinstance(
            i.items[0], Opaque) and i.items[0].tag == "ellipsis" and \
            i.items[1] is None:
        r = derived(I, "newaxis", a)
        nd = F_ndim(a)
        fs = [F_ndim(r) == nd + 1]
        for k in range(MAXD):
            fs.append(F_dim(r, k) == If_(nd == k, 1, F_dim(a, k)))
        I.facts.fact(And_(*fs))
        return r
    if isinstance(i, int) and i == 0:
        I.raise_if(F_ndim(a) == 0, "IndexError")
        I.raise_if(F_dim(a, 0) == 0, "IndexError")
        I.trusted.add("elements of arrays are no lists, tuples or arrays")
        I.facts.fact(Not_(Or_(PV.is_list(F_el(a, 0)), PV.is_tuple(
            F_el(a, 0)), PV.is_arr(F_el(a, 0)))))
        if I.known(F_ndim(a) == 1) is True:
            return F_el(a, 0)
        r = I.facts.fresh("first", ARR)
        arr_facts(I, r)
        I.facts.fact(And_(F_ndim(r) == F_ndim(a) - 1, F_kind(r) ==
                          F_kind(a), F_el(r, 0) == F_el(a, 0)))
        return merge(F_ndim(a) == 1, F_el(a, 0), PV.arr(r))
    raise Unsupported("index of an array")


def l_numpy_newaxis(I):
    return None


def np_binop(I, op, a, b):
    raise Unsupported("array operation")


def np_equal(I, a, b):
    """== of values that may be arrays; None: ordinary equality."""
    if isinstance(a, Opaque) and isinstance(b, Opaque) and \
            a.tag == b.tag == "astype":
        return elementwise_equal(I, a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Opaque) and x.tag == "dtype" or \
                isinstance(x, Opaque) and x.tag == "astype":
            raise Unsupported("comparison of arrays")
        if is_z3(x, ARR):
            raise Unsupported("comparison of arrays")
    return None


def np_len(I, v):
    def arr(a):
        arr_facts(I, a)
        I.raise_if(F_ndim(a) == 0, "TypeError")
        return F_dim(a, 0)
    if is_z3(v, ARR):
        return arr(v)
    F = z3.Function("py_len", OBJ, INT)

    def coll(o):
        I.facts.fact(F(o) >= 0)
        return F(o)
    return L().pv_split(I, v, {
        "str": lambda s: z3.Length(s), "arr": arr, "list": coll,
        "tuple": coll, "dict": coll}, lambda: I.raise_("TypeError"))


def str_of(I, v):
    if v.tag == "float":
        return v.args[1]
    if v.tag == "dtype":
        x = v.args[0]
        if is_z3(x, ARR):
            t = z3.Function("dtype_text", ARR, STR)(x)
        else:
            t = z3.Function("scalar_dtype_text", NUM, STR)(x)
        I.trusted.add("arrays are in native (little endian) byte order")
        return t
    raise Unsupported(f"str of {v.tag}")


def reduce_(I, what, v):
    raise Unsupported(what)


def chars(I, s):
    return chars1(I, I.narrow(s))


def chars1(I, s):
    """Characters of a text of bounded length."""
    if z3.is_app(s) and s.num_args() == 1 and \
            s.decl().name() in ("str_upper", "str_lower"):
        I.trusted.add("upper() and lower() map ASCII texts character by "
                      "character")
        f = L().s_upper if s.decl().name() == "str_upper" else L().s_lower
        I.facts.fact(z3.Length(s) == z3.Length(s.arg(0)))
        return [Elem(x.g, f(I, x.val)) for x in chars(I, s.arg(0))]
    n = upper_bound(I, z3.Length(s))
    return [Elem(z3.Length(s) > i, z3.SubString(s, i, 1)) for i in range(n)]


def chars_join(I, segs):
    """"".join of characters, present for a prefix."""
    parts = [If_(s.g, s.val, "") for s in segs]
    return concat(parts)


def seq_of(I, lg):
    n = z3.Sum([z3.If(B(x.g), 1, 0) for x in lg]) if lg else 0
    return Seq(n, [x.val for x in lg])


def same_space(I, a, b):
    return a == b


def names_contains(I, c, x):
    raise Unsupported("names")


def names_segments(I, c):
    raise Unsupported("names")


def list_of(I, v):
    if v.tag == "zip":
        out = I.new("list", log=[])
        for s in v.args:
            I.put(out, s)
        return out
    raise Unsupported("list()")


def opaque_attr(I, o, n, default=None, has_default=False):
    f = I.opaque_attrs.get(o.tag)
    if f is not None:
        return f(I, o, n)
    if o.tag == "dtype" and n == "kind":
        x = o.args[0]
        k = F_kind(x) if is_z3(x, ARR) else F_nkind(x)
        I.facts.fact(z3.Length(k) == 1)
        return k
    if o.tag in ("instdict", "keys", "items", "values", "path"):
        return Method(o, n)
    if o.tag == "datetime":
        return Method(o, n)
    raise Unsupported(f"attribute {n} of {o.tag}")


def opaque_method(I, o, n, args, kw):
    f = I.opaque_methods.get(o.tag)
    if f is not None:
        return I.lift(lambda *a: f(I, o, n, list(a), kw), *args)
    if o.tag == "instdict" and n in ("keys", "items", "values"):
        return Opaque(n, o)
    if o.tag == "path":
        return path_method(I, o, n, args, kw)
    if o.tag == "datetime" and n == "strftime":
        return I.now_text
    raise Unsupported(f"method {n} of {o.tag}")


def opaque_len(I, o):
    raise Unsupported(f"len of {o.tag}")


def l_numpy_vectorize(I, f):
    return Opaque("vectorized", f)


def lengths(I, v):
    """np.vectorize(len)(v)"""
    a = convert(I, v)
    I.raise_if(F_size(a) == 0, "ValueError")
    I.trusted.add("the elements of arrays other than texts have no length")
    I.raise_if(Not_(is_text(a)), "TypeError")
    i = z3.Const(f"i!{next(I.facts.count)}", INT)
    w = I.facts.fresh("longest", INT)
    n = lambda i: z3.Length(PV.s(F_el(a, i)))  # noqa: E731
    I.facts.fact(Imp_(And_(i >= 0, i < F_size(a)), n(i) <= F_maxlen(a)), (i,))
    I.facts.fact(And_(w >= 0, w < F_size(a), n(w) == F_maxlen(a)))
    return Opaque("lengths", a)


AXES = z3.DeclareSort("Axes")
F_highest = z3.Function("highest_axis", AXES, INT)
F_moved = z3.Function("moved_axes", ARR, AXES, ARR)
F_unmoved = z3.Function("unmoved_axes", ARR, ARR)


def getitem_axes(I, o, i):
    """First or second element of a pair of axes."""
    if type(i) is int and i in (0, 1):
        return Opaque("axis", o.args[0], i)
    raise Unsupported("item of a pair of axes")


def l_numpy_moveaxis(I, v, source, destination):
    """For a pair of axes (or of lists of axes): an array with as many
    dimensions, which the data and the pair determine."""
    if not all(isinstance(x, Opaque) and x.tag == "axis" and x.args[1] == i
               for i, x in enumerate((source, destination))) or \
            not source.args[0].eq(destination.args[0]):
        raise Unsupported("moveaxis()")
    a, x = convert(I, v), source.args[0]
    I.raise_if(F_ndim(a) <= F_highest(x), "ValueError")
    r = F_moved(a, x)
    I.facts.fact(And_(F_unmoved(r) == a, F_ndim(r) == F_ndim(a),
                      F_size(r) == F_size(a), F_kind(r) == F_kind(a)))
    arr_facts(I, r)
    return r


def l_numpy_max(I, v):
    def f(v):
        if isinstance(v, Opaque) and v.tag == "lengths":
            return F_maxlen(v.args[0])
        if is_int(v):
            return v
        if isinstance(v, Opaque) and v.tag == "axes":
            return F_highest(v.args[0])
        raise Unsupported("np.max")
    return I.lift(f, v)


def opaque_call(I, f, args, kw):
    if f.tag == "vectorized" and len(args) == 1 and not kw and \
            getattr(f.args[0], "path", "") == "builtins.len":
        return I.lift(lambda v: lengths(I, v), *args)
    raise Unsupported(f"call of {f.tag}")


def enter(I, cm):
    f = I.cms.get(cm.tag) if isinstance(cm, Opaque) else None
    if f is not None:
        return f[0](I, cm)
    raise Unsupported(f"with {cm}")


def leave(I, cm):
    f = I.cms.get(cm.tag) if isinstance(cm, Opaque) else None
    return f[1](I, cm)


def l_datetime_datetime_now(I):
    return Opaque("datetime")


def l_netCDF4_Dataset(I, path, mode="r", **kw):
    if "dataset" not in I.hooks:
        raise Unsupported("Dataset")
    I.do_io("open", path, mode)
    return I.hooks["dataset"](path, mode)


# ----------------------------------------------------------------- file names
F_path = z3.Function("path_with_suffix", PV, STR, STR)
F_isfile = z3.Function("is_file", STR, BOOL)


def l_pathlib_Path(I, v):
    p = box(v)
    if p is None:
        raise Unsupported("path")
    return Opaque("path", p)


def with_suffix(I, p, suffix):
    return F_path(p, lit(suffix))


def path_method(I, o, n, args, kw):
    if n == "with_suffix" and len(args) == 1 and is_str(args[0]):
        return with_suffix(I, o.args[0], args[0])
    raise Unsupported(f"path.{n}")


def l_os_path_isfile(I, v):
    if not is_z3(v, STR):
        raise Unsupported("isfile")
    return F_isfile(v)


# --------------------------------------------------------- lists of integers
def int_elems(I, v):
    """[(guard, integer)] of a list or tuple of bounded length, or None."""
    if isinstance(v, Ref) and I.obj(v).kind == "list":
        lg = I.log(v)
        if all(isinstance(x, Elem) and is_int(x.val) for x in lg):
            return [(x.g, x.val) for x in lg]
    if isinstance(v, Tup) and all(is_int(x) for x in v.items):
        return [(True, x) for x in v.items]
    return None


def text_elems(I, v):
    """[(guard, text)] of a list of bounded length, or of the characters of
    a text, or None."""
    if isinstance(v, Ref) and I.obj(v).kind == "list":
        lg = I.log(v)
        if all(isinstance(x, Elem) and is_str(x.val) for x in lg):
            return [(x.g, lit(x.val)) for x in lg]
    if isinstance(v, Tup) and all(is_str(x) for x in v.items):
        return [(True, lit(x)) for x in v.items]
    return None


F_times = z3.Function("times", INT, INT, INT)


def product(lg):
    """(multiplication is left uninterpreted but for factors of one)"""
    r = 1
    for g, x in lg:
        x = If_(g, lit(x), lit(1))
        if isinstance(r, int) and r == 1:
            r = x
        elif z3.is_int_value(x) and z3.is_int_value(r):
            r = lit(x.as_long() * r.as_long())
        else:
            r = If_(x == 1, r, If_(r == 1, x, F_times(r, x)))
    return r


def l_numpy_prod(I, v):
    lg = int_elems(I, v)
    if lg is None:
        raise Unsupported("np.prod")
    return product(lg)


def reshape(I, a, lg):
    I.raise_if(F_size(a) != lit(product(lg)), "ValueError")
    r = derived(I, "reshaped", a)
    pos, fs = lit(0), []
    for g, x in lg:
        for j in range(len(lg)):
            fs.append(Imp_(And_(g, pos == j), F_dim(r, j) == lit(x)))
        pos = pos + If_(g, lit(1), lit(0))
    I.facts.fact(And_(F_ndim(r) == pos, *fs))
    return r


def setitem_outvar(I, o, i, v):
    if not (isinstance(i, Opaque) and i.tag == "slice" and
            all(x is None for x in i.args)):
        raise Unsupported("part of a variable")
    I.do_io("data", o.args[0], v)


def l_netCDF4_stringtochar(I, v, encoding=None):
    if const_str(encoding) != "ascii":
        raise Unsupported("encoding")
    p = v if is_z3(v, ARR) else pv_array(I, v)
    if p is None:
        raise Unsupported("stringtochar")
    return Opaque("characters", p)


# ------------------------------------------------------- comparison of arrays
F_squeeze = z3.Function("squeeze", ARR, ARR)
F_close = z3.Function("allclose", ARR, ARR, BOOL)
F_same_text = z3.Function("same_text", ARR, ARR, BOOL)


def squeezed(I, a):
    r = F_squeeze(a)
    if z3.is_app(a) and a.decl().eq(F_squeeze):
        return a
    if r.get_id() not in I.arr_seen:
        arr_facts(I, r)
        i = z3.Const(f"i!{next(I.facts.count)}", INT)
        I.facts.fact(F_el(r, i) == F_el(a, i), (i,))
        I.facts.fact(And_(F_kind(r) == F_kind(a), F_size(r) == F_size(a),
                          F_ndim(r) <= F_ndim(a)))
    return r


def l_numpy_squeeze(I, v):
    return I.lift(lambda v: squeezed(I, convert(I, v)), v)


def l_numpy_testing_assert_allclose(I, a, b):
    """Raises an AssertionError if and only if the arrays differ."""
    def check(a, b):
        I.raise_if(Not_(F_close(convert(I, a), convert(I, b))),
                   "AssertionError")
    return I.lift(check, a, b)


def same_shape(I, a, b):
    return L().equal(I, shape_of(I, a), shape_of(I, b))


def elementwise_equal(I, a, b):
    """astype("U") == astype("U")"""
    if const_str(a.args[1]) != "U" or const_str(b.args[1]) != "U":
        raise Unsupported("comparison of converted arrays")
    x, y = a.args[0], b.args[0]
    I.raise_if(And_(Not_(same_shape(I, x, y)),
                    I.facts.fresh("cannot_broadcast", BOOL)), "ValueError")
    return Opaque("elements_equal", x, y)


def l_numpy_all(I, v):
    if isinstance(v, Opaque) and v.tag == "elements_equal":
        return F_same_text(*v.args)
    if I.havoc:
        return L().maybe_raise(I, "numpy.all")
    raise Unsupported("np.all")


def l_numpy_array_equal(I, a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque) and \
            a.tag == b.tag == "astype":
        x, y = a.args[0], b.args[0]
        return And_(same_shape(I, x, y), F_same_text(x, y))
    if I.havoc:
        return L().maybe_raise(I, "numpy.array_equal")
    raise Unsupported("np.array_equal")


# ---------------------------------------------------------- content of a file
def getitem_dataset(I, o, i):
    return L().getitem(I, o.args[0].vars, i)


def getitem_ncvar(I, o, i):
    if isinstance(i, Opaque) and i.tag == "slice" and i.args == (
            None, None, None):
        return Opaque("ncdata", o.args[0])
    raise Unsupported("part of a variable")
