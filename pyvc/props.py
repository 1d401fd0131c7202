"""Contracts of the functions, property by property."""
import itertools
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, If_, U, Rec, Dead, EMPTY,
                   Ref, MapBase, SetOp, Elem, Comp, Opaque, Undef, Tup, PV,
                   STR, INT, BOOL, ARR, NUM, Unsupported, Rope, merge, Exc,
                   const_str, box, State, is_pv, is_str, text_of, subst, merge_many)
from .model import Sofa, Table, rec_equal, rec_is, as_rec
from . import nump as N
from .nc import File, OutFile

S = "sofar.sofa.Sofa."


def is_name(I, k):
    """An entry name: not private, not a member of the class."""
    cls = I.mods.find("sofar.sofa.Sofa")
    return And_(Not_(z3.PrefixOf(lit("_"), k)),
                Not_(I.is_member(cls, k)), k != lit(""))


def exc(e, *names):
    return e.kind == "raise" and e.value.name in names


def other_key(I, name):
    return I.facts.fresh("other_entry", STR)


def strict(I, a, b):
    return I.L.equal(I, a, b, strict=True)


def frame(I, s, st, name):
    """Everything but the entry `name` is as it was."""
    q = other_key(I, name)
    out = [Imp_(And_(q != name, Not_(z3.PrefixOf(lit("_"), q))),
                s.unchanged(st, q))]
    out += [s.unchanged(st, p) for p in s.private]
    for r in (s.conv_ref, s.cust_ref, s.api_ref, s.dims_ref):
        if st.heap.get(r.oid, ()) != s.pre.get(r.oid, ()):
            out.append(s.map_same(r, st))
    if st.heap.get(s.ro_ref.oid) != s.pre.get(s.ro_ref.oid):
        out.append(False)
    return And_(*out)


# ------------------------------------------------------------------------ C01
def setattr_setup(I):
    s = Sofa(I, I.mods)
    name, value = z3.Const("name", STR), z3.Const("value", PV)
    I.assume(is_name(I, name))
    return [s.ref, name, value], {}, (s, name, value)


def C01(p):
    def ok(I, e, c):
        s, name, value = c
        forbidden = And_(s.P, Or_(Not_(s.H(name)), s.RO(name)))
        if exc(e, "TypeError"):
            return forbidden
        if e.kind == "return":
            return Not_(forbidden)
        # data that numpy cannot convert
        return And_(Not_(forbidden), exc(e, "ValueError"), Or_(
            PV.is_list(value), PV.is_tuple(value), PV.is_other(value)),
            Not_(N.F_conv(value)))

    def kept(I, e, c):
        s, name, value = c
        if e.kind == "raise":
            return s.untouched(e.state)
        return frame(I, s, e.state, name)

    def stored(I, e, c):
        s, name, value = c
        h, v = s.now(e.state, name)
        b = box(v)
        return And_(h, Imp_(Or_(PV.is_str(value), PV.is_arr(value),
                                PV.is_dict(value)), b == value))

    p.run(S + "__setattr__", setattr_setup, [
        ("a TypeError is raised iff the object is protected and the entry is "
         "unknown or read only", ok),
        ("a refused assignment changes nothing, any other one at most the "
         "one entry", kept),
        ("the entry has the assigned value afterwards", stored,
         lambda e: e.kind == "return")])

    # the protection switch
    def sw_setup(I):
        s = Sofa(I, I.mods)
        value = z3.Const("value", PV)
        return [s.ref, "protected", value], {}, (s, value)

    def sw(I, e, c):
        s, value = c
        if e.kind == "return":
            return And_(PV.is_bool(value), strict(
                I, s.protected(e.state), PV.b(value)),
                frame_but(I, s, e.state, "_protected"))
        return And_(exc(e, "ValueError"), Not_(PV.is_bool(value)),
                    s.untouched(e.state))
    p.run(S + "__setattr__", sw_setup, [
        ("the switch takes True and False only, and changes nothing but "
         "itself", sw)], label="sofa.Sofa.protected")


def frame_but(I, s, st, *private):
    q = I.facts.fresh("other_entry", STR)
    out = [Imp_(Not_(z3.PrefixOf(lit("_"), q)), s.unchanged(st, q))]
    out += [s.unchanged(st, p) for p in s.private if p not in private]
    for r in (s.conv_ref, s.cust_ref, s.api_ref, s.dims_ref):
        if st.heap.get(r.oid, ()) != s.pre.get(r.oid, ()):
            out.append(s.map_same(r, st))
    return And_(*out)


# ------------------------------------------------------------------------ C02
def known_entries(I, s):
    """Invariant: every entry is in the convention, custom data too."""
    k = z3.Const("ik!0", STR)
    I.facts.fact(And_(
        Imp_(s.H(k), s.conv.has(k)),
        Imp_(And_(s.HC, s.cust.has(k)), And_(s.conv.has(k), *[
            getattr(s.conv, f)(k) == getattr(s.cust, f)(k) for f in
            ("flags", "type", "default", "dimensions", "comment")]))), (k,))


def del_setup(I):
    s = Sofa(I, I.mods)
    known_entries(I, s)
    name = z3.Const("name", STR)
    I.assume(is_name(I, name))
    return [s.ref, name], {}, (s, name)


def C02(p):
    def ok(I, e, c):
        s, name = c
        forbidden = Or_(Not_(s.H(name)), And_(s.P, s.conv.mandatory(name)))
        if e.kind == "return":
            return Not_(forbidden)
        return And_(exc(e, "TypeError"), forbidden)

    def kept(I, e, c):
        s, name = c
        if e.kind == "raise":
            return s.untouched(e.state)
        q = I.facts.fresh("other_entry", STR)
        return And_(
            Imp_(And_(q != name, Not_(z3.PrefixOf(lit("_"), q))),
                 And_(s.unchanged(e.state, q))),
            *[s.unchanged(e.state, x) for x in s.private],
            Imp_(q != name, And_(s.map_same(s.conv_ref, e.state, q),
                                 s.map_same(s.cust_ref, e.state, q))),
            s.map_same(s.api_ref, e.state), s.map_same(s.dims_ref, e.state))

    def gone(I, e, c):
        s, name = c
        h, _ = s.now(e.state, name)
        cu, _ = I.map_read(s.cust_ref, name, e.state)
        cv, _ = I.map_read(s.conv_ref, name, e.state)
        iscust = And_(s.HC, s.cust.has(name))
        return And_(Not_(h), Imp_(s.HC, Not_(cu)),
                    Iff_(cv, And_(s.conv.has(name), Not_(iscust))))

    cl = [
        ("a TypeError is raised iff the entry does not exist, or is "
         "mandatory and the object protected", ok),
        ("a refused deletion changes nothing, any other one at most the one "
         "entry and its registration", kept),
        ("the entry is gone, also as custom data", gone,
         lambda e: e.kind == "return")]
    p.run(S + "__delattr__", del_setup, cl)
    p.run(S + "delete", del_setup, cl)
    flags_contract(p)


def flags_contract(p):
    def setup(I):
        f = z3.Const("flags", PV)
        I.assume(Or_(PV.is_none(f), PV.is_str(f)))
        return [f], {}, f
    for fn, letter in (("_mandatory", "m"), ("_read_only", "r")):
        p.run(S + fn, setup, [
            (f"True iff the flags contain {letter!r}",
             (lambda letter: lambda I, e, f: And_(
                 e.kind == "return", Iff_(I.truth(e.value), And_(
                     PV.is_str(f), z3.Contains(PV.s(f), lit(letter))))))(
                 letter))])


# ------------------------------------------------------------------------ C05
def C05(p):
    def stored(I, e, c):
        s, name, value = c
        h, v = s.now(e.state, name)
        b = box(v)
        a = N.asarray(I, value)
        as_is = Or_(PV.is_str(value), PV.is_arr(value), PV.is_dict(value))
        i = I.facts.fresh("position", INT)
        arr = PV.a(b)
        return And_(h, Imp_(as_is, b == value), Imp_(Not_(as_is), Or_(
            And_(N.F_size(a) == 1, b == N.F_el(a, 0)),
            And_(PV.is_arr(b), N.F_size(a) != 1, N.F_ndim(arr) >= 2,
                 N.F_size(arr) == N.F_size(a),
                 N.F_el(arr, i) == N.F_el(a, i)))))

    def setup(I):
        a, kw, c = setattr_setup(I)
        v = c[2]
        I.assume(Or_(*[getattr(PV, "is_" + t)(v) for t in (
            "str", "dict", "arr", "int", "flt", "npnum", "list", "tuple",
            "bool")]))
        return a, kw, c
    p.run(S + "__setattr__", setup, [
        ("the elements are stored without loss, as they are or with at least "
         "two dimensions or as a scalar", stored,
         lambda e: e.kind == "return"),
        ("data is refused for no reason but the protection or that numpy "
         "cannot make an array of it", lambda I, e, c: Or_(
             And_(c[0].P, Or_(Not_(c[0].H(c[1])), c[0].RO(c[1]))),
             And_(exc(e, "ValueError"), Not_(N.F_conv(c[2])))),
         lambda e: e.kind == "raise")])


# ------------------------------------------------------------------------ C04
DIMS = "ERMNCIS"


def add_setup(kind=None):
    def setup(I):
        s = Sofa(I, I.mods)
        known_entries(I, s)
        name, value = z3.Const("name", STR), z3.Const("value", PV)
        I.assume(is_name(I, name))
        dtype, dims = z3.Const("dtype", STR), z3.Const("dimensions", PV)
        I.assume(Or_(PV.is_none(dims), And_(
            PV.is_str(dims), z3.Length(PV.s(dims)) <= 4)))
        if kind == "attribute":
            return [s.ref, name, value], {}, (
                s, name, value, lit("attribute"), PV.none)
        return [s.ref, name, value, dtype, dims], {}, (
            s, name, value, dtype, dims)
    return setup


def registered(I, dims):
    """Dimensions as they are registered."""
    if dims.eq(PV.none):
        return PV.none
    D = PV.s(dims)
    parts = []
    for i in range(4):
        ch = I.L.s_upper(I, z3.SubString(D, i, 1))
        parts.append(If_(z3.Length(D) > i, If_(
            z3.Contains(lit(DIMS), ch), ch, I.L.s_lower(I, ch)), lit("")))
    return If_(PV.is_none(dims), PV.none, PV.str(z3.Concat(*parts)))


def add_refused(I, s, name, dtype, dims):
    us = lit("_")
    cnt = I.L.F_count(name, us)
    data = z3.PrefixOf(lit("Data_"), name)
    return Or_(
        s.H(name),
        And_(*[dtype != lit(t) for t in ("attribute", "double", "string")]),
        And_(dtype != lit("attribute"), Or_(z3.Contains(name, us),
                                            PV.is_none(dims))),
        And_(dtype == lit("attribute"), Or_(
            And_(Not_(data), cnt != 1),
            And_(data, Or_(cnt == 0, cnt > 2)),
            And_(Not_(z3.PrefixOf(lit("GLOBAL_"), name)),
                 Not_(s.conv.has(I.L.F_stem(name, us)))))))


def add_clauses():
    def ok(I, e, c):
        s, name, value, dtype, dims = c
        I.L.s_count(I, name, "_")
        I.L.s_split_facts(I, name, "_")
        bad = add_refused(I, s, name, dtype, dims)
        if e.kind == "return":
            return Not_(bad)
        return And_(exc(e, "ValueError"), Or_(bad, And_(
            Not_(N.F_conv(value)), Not_(PV.is_arr(value)),
            Not_(PV.is_str(value)))))

    def kept(I, e, c):
        s, name, value, dtype, dims = c
        q = I.facts.fresh("other_entry", STR)
        st = e.state
        same = And_(
            Imp_(And_(q != name, Not_(z3.PrefixOf(lit("_"), q))),
                 s.unchanged(st, q)),
            s.unchanged(st, "_read_only_attr"),
            s.unchanged(st, "_convention"),
            s.map_same(s.api_ref, st), s.map_same(s.dims_ref, st),
            Imp_(q != name, And_(
                s.map_same(s.conv_ref, st, q),
                Imp_(s.HC, s.map_same(s.cust_ref, st, q)))))
        if e.kind == "raise":
            return And_(same, s.unchanged(st, name),
                        s.map_same(s.conv_ref, st),
                        s.map_same(s.cust_ref, st),
                        s.unchanged(st, "_custom"))
        return same

    def there(I, e, c):
        s, name, value, dtype, dims = c
        st = e.state
        h, v = s.now(st, name)
        b = box(v)
        a = N.asarray(I, value)
        as_is = Or_(PV.is_str(value), PV.is_arr(value), PV.is_dict(value))
        hc, cv = I.map_read(s.conv_ref, name, st)
        hcu, cu = s.now(st, "_custom")
        reg = dict(flags=None, dimensions=registered(I, dims), type=dtype,
                   default=None, comment="")
        old = s.conv.has(name)
        if isinstance(cv, U) or not (isinstance(cv, Rec) and False):
            fields = And_(Imp_(Not_(old), rec_is_u(I, cv, old, reg)))
        custom = custom_has(I, hcu, cu, name, st)
        return And_(h, Imp_(as_is, b == value),
                    Imp_(Not_(as_is), Or_(
                        And_(N.F_size(a) == 1, b == N.F_el(a, 0)),
                        And_(PV.is_arr(b), N.F_size(PV.a(b)) ==
                             N.F_size(a)))),
                    hc, fields, Imp_(Not_(old), custom))

    def old_conv(I, e, c):
        s, name, value, dtype, dims = c
        return Imp_(s.conv.has(name), And_(
            s.map_same(s.conv_ref, e.state, name),
            Imp_(s.HC, s.map_same(s.cust_ref, e.state)),
            s.unchanged(e.state, "_custom")))
    ret = lambda e: e.kind == "return"  # noqa: E731
    return [
        ("the entry is refused iff its name, type, or dimensions are wrong "
         "or it cannot be stored", ok),
        ("nothing but the entry and its registration changes, nothing at "
         "all if it is refused", kept),
        ("the entry has its value and is registered with type and "
         "dimensions", there, ret),
        ("data of the convention is not registered", old_conv, ret)]


def rec_is_u(I, v, old, reg):
    if isinstance(v, U):
        return And_(*[Imp_(g, rec_is_u(I, x, old, reg))
                      for g, x in v.cases])
    return rec_is(I, v, **reg)


def custom_has(I, h, cu, name, st):
    """`_custom` exists and contains the name."""
    if isinstance(cu, U):
        return And_(h, *[Imp_(g, custom_has(I, True, x, name, st))
                         for g, x in cu.cases])
    if isinstance(cu, Ref):
        return And_(h, I.map_read(cu, name, st)[0])
    return False


def C04(p):
    p.run(S + "_add_entry", add_setup(), add_clauses())
    p.run(S + "add_variable", add_setup(), add_clauses())
    p.run(S + "add_attribute", add_setup("attribute"), add_clauses())


# ------------------------------------------------------------------------ C14
WARN0, ERR0 = "\nWARNINGS\n--------\n", "\nERRORS\n------\n"


def io_events(I, st):
    return [(x.g, x.val.tag, x.val.args) for x in I.log(I.io, st)]


def io_flag(I, st, tag, pred=lambda a: True):
    return Or_(*[And_(g, pred(a)) for g, t, a in io_events(I, st)
                 if t == tag])


def text_is(I, v, text):
    """The value is this text."""
    if isinstance(v, Exc):
        return text_is(I, v.args[0], text) if len(v.args) == 1 else False
    return I.L.equal(I, v, text)


def C14(p):
    def setup(I):
        w, e, h = (z3.Const(n, STR) for n in ("warnings", "errors", "mode"))
        I.assume(z3.PrefixOf(lit(WARN0), w), z3.PrefixOf(lit(ERR0), e))
        return [w, e, h], {}, (w, e, h, w != lit(WARN0), e != lit(ERR0))

    def raised(I, x, c):
        w, e, h, W, E = c
        want = And_(E, h == lit("raise"))
        if x.kind == "raise":
            return And_(want, exc(x, "ValueError"), text_is(I, x.value, e))
        return Not_(want)

    def warned(I, x, c):
        w, e, h, W, E = c
        st = x.state
        right = lambda a: text_is(I, a[0], w)  # noqa: E731
        return And_(
            Iff_(io_flag(I, st, "warn"), And_(W, h == lit("raise"))),
            Iff_(io_flag(I, st, "warn", right), io_flag(I, st, "warn")))

    def printed(I, x, c):
        w, e, h, W, E = c
        st = x.state
        on = h == lit("print")
        return And_(
            Iff_(io_flag(I, st, "print", lambda a: text_is(I, a[0], w)),
                 And_(W, on)),
            Iff_(io_flag(I, st, "print", lambda a: text_is(I, a[0], e)),
                 And_(E, on)),
            Iff_(io_flag(I, st, "print"), And_(on, Or_(W, E))))

    def returned(I, x, c):
        w, e, h, W, E = c
        occurred, text = I.L.unpack(I, x.value, 2)
        both = z3.Concat(e, lit("\n"), w)
        b = box(text)
        return And_(Iff_(I.truth(occurred), E), b == If_(
            And_(W, E), PV.str(both), If_(W, PV.str(w), If_(
                E, PV.str(e), PV.none))))
    p.run(S + "_verify_handle_issues", setup, [
        ("a ValueError with the errors is raised iff there are errors and "
         "the mode is raise", raised),
        ("a warning with the warnings is issued iff there are warnings and "
         "the mode is raise", warned),
        ("warnings and errors are printed iff there are some and the mode is "
         "print", printed),
        ("all errors and warnings are returned, None iff there are none",
         returned, lambda e: e.kind == "return")])
    from . import verify
    verify.result(p)


class Issues:
    """Contract of _verify_handle_issues (proved in C14)."""

    def __init__(self, I):
        I.contracts[S + "_verify_handle_issues"] = self

    def __call__(self, I, w, e, h):
        for x, x0 in ((w, WARN0), (e, ERR0)):
            first = x.parts[0] if isinstance(x, Rope) and x.parts else (
                True, x)
            if first[0] is not True or not (
                    const_str(first[1]) or "").startswith(x0):
                raise Unsupported("precondition of _verify_handle_issues")
        W, E = (Not_(I.L.equal(I, x, x0)) for x, x0 in (
            (w, WARN0), (e, ERR0)))
        mode = lambda m: I.L.equal(I, h, m)  # noqa: E731
        self.io(I, And_(W, mode("raise")), "warn", w)
        I.raise_if(And_(E, mode("raise")), "ValueError", e)
        self.io(I, And_(W, mode("print")), "print", w)
        self.io(I, And_(E, mode("print")), "print", e)
        text = Rope([(And_(E, g), x) for g, x in self.parts(e)] +
                    [(And_(E, W), "\n")] +
                    [(And_(W, g), x) for g, x in self.parts(w)])
        return Tup([E, merge(Or_(W, E), text, None)])

    def parts(self, x):
        return x.parts if isinstance(x, Rope) else ((True, x),)

    def io(self, I, g, *args):
        if g is not False:
            I.cond(g, lambda: I.do_io(*args), lambda: None)


# ------------------------------------------------------------------------ C16
WRONG = ("data of wrong type", "variables of wrong shape")


class Verified:
    """Contract of verify(): what it returns and leaves behind."""

    def __init__(self, I, s):
        self.I, self.s = I, s
        self.text = z3.Const("issues", PV)
        self.has = z3.Function("v_api_has", STR, BOOL)
        self.size = z3.Function("v_api", STR, INT)
        self.complete = z3.Const("v_complete", BOOL)

    def wrong(self):
        return And_(PV.is_str(self.text), Or_(*[
            z3.Contains(PV.s(self.text), lit(w)) for w in WRONG]))

    def __call__(self, I, obj, issue_handling="raise", mode="write"):
        I.do_io("verified", obj)
        if const_str(issue_handling) != "return":
            raise Unsupported("verify() in another mode")
        I.assume(Or_(PV.is_none(self.text), PV.is_str(self.text)))
        # the sizes are known unless data of wrong type was found
        I.assume(Imp_(Not_(self.wrong()), self.complete))
        api = I.new("map", base=MapBase(self.has, self.size, STR, "api"))
        I.put(obj, SetOp(self.complete, "_api", api))
        I.trusted.add("contract of verify() assumed by its callers; it is "
                      "checked on its own")
        return self.text


def C16(p):
    def setup(I):
        s = Sofa(I, I.mods)
        d = z3.Const("dimension", STR)
        v = Verified(I, s)
        I.contracts[S + "verify"] = v
        return [s.ref, d], {}, (s, d, v)

    def ok(I, e, c):
        s, d, v = c
        bad = Or_(v.wrong(), Not_(v.has(d)))
        if e.kind == "raise":
            return And_(exc(e, "ValueError"), bad)
        return And_(Not_(bad), I.L.equal(I, e.value, v.size(d)))

    def same(I, e, c):
        s, d, v = c
        q = other_key(I, d)
        return And_(Imp_(Not_(z3.PrefixOf(lit("_"), q)),
                         s.unchanged(e.state, q)),
                    s.unchanged(e.state, "_protected"),
                    s.map_same(s.conv_ref, e.state),
                    s.map_same(s.cust_ref, e.state))

    def fresh(I, e, c):
        return io_flag(I, e.state, "verified")
    p.run(S + "get_dimension", setup, [
        ("the size found by the verification is returned; a ValueError is "
         "raised iff the dimension is unknown or data of wrong type or shape "
         "was found", ok),
        ("the dimensions are those of the current data", fresh),
        ("no entry is changed", same)])


# ------------------------------------------------------------------------ C25
def C25(p):
    T = "sofar.sofastream.SofaStream."

    def stream(I, opened=True):
        f = File(I)
        cls = I.mods.find(T[:-1])
        fn = z3.Const("filename", PV)
        log = [SetOp(True, "_filename", fn)]
        if opened:
            log.append(SetOp(True, "_file", f.value))
        return f, fn, I.new("inst", cls=cls, log=log, name="stream")

    def setup(I):
        f, fn, ref = stream(I)
        name = z3.Const("name", STR)
        I.assume(is_stream_name(I, name))
        return [ref, name], {}, (f, name)

    def is_stream_name(I, name):
        cls = I.mods.find(T[:-1])
        return And_(Not_(I.is_member(cls, name)),
                    Not_(z3.PrefixOf(lit("_"), name)))

    def value(I, e, c):
        f, name = c
        us = lit("_")
        rest = z3.SubString(name, 7, z3.Length(name) - 7)
        glob = z3.PrefixOf(lit("GLOBAL_"), name)
        data = z3.PrefixOf(lit("Data_"), name)
        n = If_(data, z3.Concat(lit("Data."), z3.SubString(
            name, 5, z3.Length(name) - 5)), name)
        sub = z3.Contains(n, us)
        I.L.s_first_facts(I, n, us)
        v, a = I.L.F_head(n, us), I.L.F_tail(n, us)
        # (names without prefix for global attributes are not specified)
        free = And_(Not_(glob), Not_(sub), Not_(f.var_has(n)))
        want = Or_(And_(glob, f.gattr_has(rest)),
                   And_(Not_(glob), Not_(sub), f.var_has(n)),
                   And_(Not_(glob), sub, f.var_has(v), f.vattr_has(v, a)))
        if e.kind == "raise":
            return And_(exc(e, "AttributeError"), Not_(want))
        r = e.value
        return Or_(free, And_(want, is_value(I, r, [
            (glob, f.gattr(rest)), (And_(Not_(glob), sub), f.vattr(v, a)),
            (And_(Not_(glob), Not_(sub)), Opaque("ncvar", n))])))

    def is_value(I, r, cases):
        if isinstance(r, U):
            return And_(*[Imp_(g, is_value(I, x, cases))
                          for g, x in r.cases])
        out = []
        for g, w in cases:
            if isinstance(w, Opaque) or isinstance(r, Opaque):
                same = isinstance(w, Opaque) and isinstance(r, Opaque) and \
                    r.tag == w.tag and lit(r.args[0]) == lit(w.args[0])
            else:
                same = I.L.equal(I, r, w, strict=True)
            out.append(Imp_(g, same))
        return And_(*out)
    def missing(I, e, c):
        f, name = c
        us = lit("_")
        glob = z3.PrefixOf(lit("GLOBAL_"), name)
        data = z3.PrefixOf(lit("Data_"), name)
        n = If_(data, z3.Concat(lit("Data."), z3.SubString(
            name, 5, z3.Length(name) - 5)), name)
        return Or_(glob, z3.Contains(n, us), f.var_has(n), f.gattr_has(n))
    p.run(T + "__getattr__", setup, [
        ("global attributes, variables and attributes of variables are "
         "returned under the name of the entry, other names raise an "
         "AttributeError", value),
        ("a name that is in no way in the file is refused", missing,
         lambda e: e.kind == "return")])

    def dsetup(I):
        f, fn, ref = stream(I)
        d = z3.Const("dimension", STR)
        return [ref, d], {}, (f, d)

    def dim(I, e, c):
        f, d = c
        if e.kind == "raise":
            return And_(exc(e, "ValueError"), Not_(f.dim_has(d)))
        return And_(f.dim_has(d), I.L.equal(I, e.value, f.dim_size(d)))
    p.run(T + "get_dimension", dsetup, [
        ("the size of the dimension in the file is returned, a ValueError is "
         "raised iff there is none", dim)])

    def esetup(I):
        f, fn, ref = stream(I, False)
        I.hooks["dataset"] = lambda path, mode: f.value
        return [ref], {}, (f, fn, ref)

    def enter(I, e, c):
        f, fn, ref = c
        h, v = I.map_read(ref, "_file", e.state)
        opens = io_flag(I, e.state, "open", lambda a: And_(
            const_str(a[1]) == "r", I.L.equal(I, a[0], fn, strict=True)))
        only = Iff_(io_flag(I, e.state, "open"), opens)
        return And_(e.kind == "return", isinstance(e.value, Ref) and
                    e.value.oid == ref.oid, opens, only, h,
                    isinstance(v, Opaque) and v.tag == "dataset")
    p.run(T + "__enter__", esetup, [
        ("the given file is opened for reading only, and the stream itself "
         "returned", enter)])

    def xsetup(I):
        f, fn, ref = stream(I)
        return [ref, z3.Const("t", PV), z3.Const("v", PV),
                z3.Const("tb", PV)], {}, (f, ref)

    def leave(I, e, c):
        return And_(e.kind == "return", io_flag(
            I, e.state, "close"), Not_(I.truth(e.value)))
    p.run(T + "__exit__", xsetup, [
        ("the file is closed, also after an exception, which is passed on",
         leave)])


# ------------------------------------------------------------- C11 and C12
class Aliases:
    def __init__(self, I):
        self.has = z3.Function("alias_known", STR, BOOL)
        self.of = z3.Function("alias_of", STR, STR)
        self.ref = I.new("map", base=MapBase(self.has, self.of, STR,
                                             "aliases"))


COMMA, ANY = ", ?", ", ?| "


def verify_unit(p):
    def setup(I):
        al = Aliases(I)
        test, ref = z3.Const("test", STR), z3.Const("ref", STR)
        return [test, I.new_list([ref]), al.ref], {}, (al, test, ref)

    def meaning(I, al, test, ref):
        """(number of parts agrees, part i of test, part i of ref)"""
        n, part = I.L.F_nparts, I.L.F_part
        nr = n(lit(COMMA), ref)
        first = n(lit(COMMA), test) == nr
        number = Or_(first, n(lit(ANY), test) == nr)
        return number, lambda i: If_(first, part(lit(COMMA), test, i), part(
            lit(ANY), test, i)), lambda i: part(lit(COMMA), ref, i), nr

    def ok(I, e, c):
        al, test, ref = c
        number, t, r, n = meaning(I, al, test, ref)
        if e.kind != "return":
            return False
        v = I.truth(e.value)
        i = I.facts.fresh("position", INT)
        good = lambda i: And_(al.has(t(i)), al.of(t(i)) == r(i))  # noqa: E731
        some, w = I.exists_w(i, And_(i >= 0, i < n, Not_(good(i))), "bad")
        return Iff_(v, And_(number, Not_(some)))
    p.run(S + "_verify_unit", setup, [
        ("the unit is accepted iff it has as many parts as the required one "
         "and each is an alias of the required part", ok)])


def verify_value(p):
    unit_ok = z3.Function("unit_ok", STR, BOOL)

    def setup(I):
        allowed = z3.Function("allowed", STR, BOOL)
        k = z3.Const("allowed_value", STR)
        ref = I.new("list", log=[Comp(k, allowed(k), [Elem(True, k)])])
        free = z3.Const("any_value", BOOL)
        test, key = z3.Const("test", PV), z3.Const("key", STR)
        al = Aliases(I)

        def c_unit(I, t, r, a):
            return I.lift(c_unit1_(I), t, r, a)

        def c_unit1_(I):
            def f(t, r, a):
                ok = isinstance(r, Ref) and r.oid == ref.oid and \
                    isinstance(a, Ref) and a.oid == al.ref.oid
                if not ok and not I.feasible():
                    raise Dead()
                if not ok:
                    raise Unsupported("_verify_unit of something else")
                return unit_ok(lit(I.L.as_str(I, t)))
            return f
        I.contracts[S + "_verify_unit"] = c_unit
        return [test, merge(free, None, ref), al.ref, key], {}, (
            test, allowed, free, key)

    def ok(I, e, c):
        test, allowed, free, key = c
        t = PV.s(test)
        low = I.L.s_lower(I, t)
        is_str = PV.is_str(test)
        exact = And_(is_str, allowed(t))
        sensitive = Or_(key == lit("GLOBAL_DataType"),
                        key == lit("GLOBAL_SOFAConventions"))
        good = Or_(free, exact, And_(is_str, Not_(sensitive), Or_(
            allowed(low), And_(z3.SuffixOf(lit("Units"), key),
                               unit_ok(low)))))
        if e.kind == "raise":
            return And_(exc(e, "TypeError"), Not_(free), Not_(is_str))
        return And_(Or_(free, is_str), Iff_(I.truth(e.value), good))
    p.run(S + "_verify_value", setup, [
        ("a value is accepted iff any value is allowed, or it is among the "
         "allowed ones (ignoring case but for data type and convention), or "
         "it is a unit with the required meaning", ok)])


def reference_unit(p):
    def setup(I):
        al = Aliases(I)
        test = z3.Const("test", STR)
        return [test, al.ref], {}, (al, test)

    def known(I, e, c):
        al, test = c
        low = I.L.s_lower(I, test)
        n, part = I.L.F_nparts(lit(ANY), low), I.L.F_part
        i = I.facts.fresh("position", INT)
        some, w = I.exists_w(i, And_(i >= 0, i < n, Not_(al.has(
            part(lit(ANY), low, i)))), "unknown")
        if e.kind == "raise":
            return And_(exc(e, "KeyError"), some)
        return Not_(some)
    p.run(S + "_get_reference_unit", setup, [
        ("a KeyError is raised iff some part is no known unit", known)])


def C11(p):
    from . import verify
    verify.rules(p)
    verify_value(p)


def C12(p):
    from . import verify
    verify.units(p)
    verify_unit(p)
    verify_value(p)
    reference_unit(p)


# ---------------------------------------------------- arrays (utils and io)
UT = "sofar.utils."
IO = "sofar.io."


def array_of(I, v):
    """The array a value stands for."""
    return N.asarray(I, v)


def result_array(I, v):
    if is_z3(v, ARR):
        return v
    if is_pv(v) and I.known(PV.is_arr(v)) is True:
        return PV.a(v)
    return None


def any_value(I, name="value", dims=4):
    """Text, number, array, or (nested) list or tuple of at most 4 dims."""
    v = z3.Const(name, PV)
    a = N.asarray(I, v)
    I.assume(Or_(PV.is_arr(v), PV.is_int(v), PV.is_flt(v), PV.is_npnum(v),
                 PV.is_str(v), PV.is_list(v), PV.is_tuple(v)))
    I.assume(Imp_(Or_(PV.is_list(v), PV.is_tuple(v)), N.F_conv(v)))
    I.assume(N.F_ndim(a) <= dims)
    return v, a


def same_elements(I, r, a):
    i = I.facts.fresh("pos", INT)
    return And_(N.F_size(r) == N.F_size(a), N.F_el(r, i) == N.F_el(a, i))


def trailing(I, r, a, ndim, dims=5):
    """r is a with singleton dimensions added at the end."""
    nd = N.F_ndim(a)
    return And_(N.F_ndim(r) == If_(nd < ndim, ndim, nd), *[
        Imp_(N.F_ndim(r) > i, N.F_dim(r, i) == If_(
            nd > i, N.F_dim(a, i), 1)) for i in range(dims)])


def nd_newaxis(p):
    def setup(I):
        v, a = any_value(I)
        n = z3.Const("ndim", INT)
        I.assume(And_(n >= 0, n <= 4))
        return [v, n], {}, (v, a, n)

    def ok(I, e, c):
        v, a, n = c
        r = result_array(I, e.value) if e.kind == "return" else None
        if r is None:
            return False
        return And_(same_elements(I, r, a), trailing(I, r, a, n))
    p.run(UT + "_nd_newaxis", setup, [
        ("the same elements in the same order, with singleton dimensions "
         "added at the end and nowhere else", ok)])


def atleast_shape(r, a, n):
    """Shape of `a` with at least n (a number) dimensions."""
    nd, d = N.F_ndim(a), lambda i: N.F_dim(r, i)
    return And_(
        N.F_ndim(r) == If_(nd < n, n, nd),
        Imp_(Or_(nd >= 2, nd == n), trailing(None, r, a, n)),
        Imp_(And_(nd == 1, n >= 2), And_(
            d(0) == 1, d(1) == N.F_dim(a, 0),
            *[d(i) == 1 for i in range(2, n)])),
        Imp_(nd == 0, And_(*[d(i) == 1 for i in range(n)])))


def atleast_nd(p):
    for n in range(1, 5):
        def setup(I):
            v, a = any_value(I)
            return [v, n], {}, (v, a)

        def ok(I, e, c):
            v, a = c
            r = result_array(I, e.value) if e.kind == "return" else None
            if r is None:
                return False
            return And_(same_elements(I, r, a), atleast_shape(r, a, n))
        p.run(UT + "_atleast_nd", setup, [
            (f"(ndim = {n}) the same elements in the same order; singleton "
             "dimensions are added at the end, and flat data becomes a "
             "single row", ok)])


def C10(p):
    nd_newaxis(p)


# -------------------------------------------------------------- write_sofa
class Written:
    """Object to be written, and the contracts of what write_sofa calls."""

    def __init__(self, I):
        self.I = I
        s = self.s = Sofa(I, I.mods)
        self.valid = z3.Const("valid", BOOL)
        self.fn = z3.Const("filename", PV)
        self.out = OutFile(I)
        self.conv = Table("w_conv")
        self.conv.facts(I)
        self.api_has = z3.Function("w_api_has", STR, BOOL)
        self.api = z3.Function("w_api", STR, INT)
        self.dims_has = z3.Function("w_dims_has", STR, BOOL)
        self.dims = z3.Function("w_dims", STR, STR)
        self.known(z3.Const("wk", STR), True)
        I.facts.fact(self.api_has(lit("S")))
        I.contracts[S + "verify"] = self.verify
        I.contracts["sofar.sofa.Sofa"] = self.create
        I.contracts[UT + "_atleast_nd"] = atleast_nd_contract
        I.hooks["dataset"] = self.open

    def data(self, k):
        return N.asarray(self.I, self.s.G(k))

    def string(self, k):
        return self.conv.type(k) == lit("string")

    def sizes(self, k):
        """[(guard, size)] of the dimensions of the data of an entry."""
        D, out = self.dims(k), []
        for i in range(4):
            c = z3.SubString(D, i, 1)
            out.append((And_(z3.Length(D) > i, Not_(And_(
                self.string(k), c == lit("S")))), self.api(c)))
        return out

    def variable(self, k):
        return And_(self.s.H(k), Not_(z3.PrefixOf(lit("_"), k)),
                    self.conv.type(k) != lit("attribute"))

    def known(self, k, forall=False):
        """What a passed verification for writing guarantees about k."""
        s, D = self.s, self.dims(k)
        entry = And_(s.H(k), Not_(z3.PrefixOf(lit("_"), k)))
        a = self.data(k)
        self.I.facts.fact(And_(
            Imp_(entry, self.conv.has(k)),
            Imp_(self.variable(k), And_(
                self.dims_has(k), z3.Length(D) >= 1, z3.Length(D) <= 4, *[
                    Imp_(z3.Length(D) > i, And_(
                        self.api_has(z3.SubString(D, i, 1)),
                        self.api(z3.SubString(D, i, 1)) >= 0))
                    for i in range(4)],
                N.product([(g, x) for g, x in self.sizes(k)]) ==
                N.F_size(a), N.F_ndim(a) <= 4,
                Or_(PV.is_none(s.G(k)), PV.is_list(s.G(k)),
                    PV.is_tuple(s.G(k)), PV.is_other(s.G(k)),
                    PV.is_dict(s.G(k))) == z3.BoolVal(False))),
            Imp_(And_(self.variable(k), self.string(k)), And_(
                N.is_text(a), N.F_maxlen(a) <= self.api(lit("S"))))),
            (k,) if forall else ())

    def dims_at(self, k):
        self.known(k)
        return self.dims(k)

    def verify(self, I, obj, issue_handling="raise", mode="write"):
        if const_str(issue_handling) != "raise":
            raise Unsupported("verify() in another mode")
        I.raise_if(Not_(self.valid), "ValueError", "invalid object")
        I.do_io("verified", mode)
        I.put(obj, SetOp(True, "_convention", self.conv.ref(I)))
        I.put(obj, SetOp(True, "_api", I.new("map", base=MapBase(
            self.api_has, self.api, STR, "api"))))
        I.put(obj, SetOp(True, "_dimensions", I.new("map", base=MapBase(
            self.dims_has, self.dims_at, STR, "dims"))))
        I.trusted.add("contract of verify() assumed by write_sofa; it is "
                      "covered by the checks of C08 to C13 and C16")
        return None

    def create(self, I, *args, **kw):
        I.raise_if(z3.Const("no_convention", BOOL), "ValueError")

        def attr(I, o, n):
            if n != "GLOBAL_SOFAConventionsVersion":
                raise Unsupported("another attribute of a new object")
            return z3.Const("latest_version", STR)
        I.opaque_attrs["new_sofa"] = attr
        return Opaque("new_sofa")

    def open(self, path, mode):
        if const_str(mode) != "w":
            raise Unsupported("another mode")
        return self.out.value


def atleast_nd_contract(I, array, ndim):
    """The contract that C18 proves of _atleast_nd, for 1 to 4 dimensions."""
    if not (isinstance(ndim, int) or is_z3(ndim, INT)):
        raise Unsupported("number of dimensions")
    n = lit(ndim)
    if I.feasible(extra=(Or_(n < 1, n > 4),), timeout=2000):
        raise Unsupported("more than 4 dimensions")
    a = N.convert(I, array)
    r = N.derived(I, "atleast_nd", a)
    I.facts.fact(And_(*[Imp_(n == k, atleast_shape(r, a, k))
                        for k in range(1, 5)]))
    return r


def write_setup(I):
    w = Written(I)
    return [w.fn, w.s.ref, z3.Const("compression", INT)], {}, w


def flat_events(I, st, tag):
    """(binders, guard, arguments, position) of the events with this tag."""
    out = []

    def walk(x, binders, guard, pos):
        if isinstance(x, Comp):
            for y in x.items:
                walk(y, binders + [(x.gen, x.dom)], guard, pos)
        elif isinstance(x, Elem):
            if not isinstance(x.val, Opaque):
                raise Unsupported("event")
            if x.val.tag == tag:
                out.append((binders, And_(*[d for _, d in binders], guard,
                                          x.g), x.val.args, pos))
        else:
            raise Unsupported("event")
    for i, x in enumerate(I.log(I.io, st)):
        walk(x, [], True, i)
    return out


def args_equal(I, a, b):
    if len(a) != len(b):
        return False
    return And_(*[y(x) if callable(y) else strict(I, x, y)
                  for x, y in zip(a, b)])


def exactly(I, st, tag, n, cond, args):
    """The events with this tag are the args(*k) of all names k (n of them)
    with cond(*k), and no others."""
    out = []
    evs = flat_events(I, st, tag)
    for binders, guard, vals, _ in evs:
        gens = [g for g, _ in binders if g.sort() == STR]
        fr = [I.facts.fresh("event", g.sort()) for g, _ in binders]
        pairs = [(g, f) for (g, _), f in zip(binders, fr)]
        names = [f for f in fr if f.sort() == STR]
        if len(names) < n:
            raise Unsupported(f"{tag} without a loop")
        alts = []
        for ks in itertools.permutations(names, n):
            alts.append(And_(cond(*ks), args_equal(
                I, subst(vals, pairs), args(*ks))))
        out.append(Imp_(subst(guard, pairs), Or_(*alts)))
    q = [I.facts.fresh("written", STR) for _ in range(n)]
    alts = []
    for binders, guard, vals, _ in evs:
        for ks in itertools.product(q, repeat=len(binders)):
            pairs = [(g, k) for (g, _), k in zip(binders, ks)]
            alts.append(And_(subst(guard, pairs), args_equal(
                I, subst(vals, pairs), args(*q))))
    out.append(Imp_(cond(*q), Or_(*alts)))
    return And_(*out)


def write_clauses():
    def order(I, e, w):
        """No access to the file without a preceding verification."""
        st = e.state
        ver = flat_events(I, st, "verified")
        out = [Imp_(Not_(w.valid), e.kind == "raise")]
        for _, g, a, pos in flat_events(I, st, "open"):
            out.append(Imp_(g, And_(
                w.valid, Or_(*[And_(gv, strict(I, av[0], "write"))
                               for bv, gv, av, p in ver
                               if not bv and p < pos]))))
        for tag in ("remove", "rename", "mkdir"):
            out += [Not_(g) for _, g, a, p in flat_events(I, st, tag)]
        return And_(*out)

    def path(I, e, w):
        st = e.state
        want = N.with_suffix(I, w.fn, ".sofa")
        return And_(*[Imp_(g, args_equal(I, a, (want, "w")))
                      for _, g, a, _ in flat_events(I, st, "open")])

    def closed(I, e, w):
        st = e.state
        op = [x for x in flat_events(I, st, "open")]
        cl = [x for x in flat_events(I, st, "close")]
        done = [x for t in ("dimension", "gattr", "variable", "data",
                            "vattr") for x in flat_events(I, st, t)]
        out = [Imp_(And_(e.kind == "return", w.valid),
                    Or_(*[g for _, g, _, _ in op]))]
        for b, g, _, pos in op:
            out.append(Imp_(g, Or_(*[gc for bc, gc, _, p in cl
                                     if not bc and p > pos and all(
                                         x[3] < p for x in done)])))
        return And_(*out)
    def accepted(I, e, w):
        return Not_(Or_(*[g for _, g, _, _ in flat_events(
            I, e.state, "verified")]))
    return [
        ("an accepted object is written without an exception", accepted,
         lambda e: e.kind == "raise"),
        ("the file is opened only after verify(mode='write') accepted the "
         "object; for a rejected one an exception is raised", order),
        ("the file written is the given path with the suffix .sofa", path),
        ("the file is closed, after the last access", closed)]


def write_frame(I, e, w):
    s = w.s
    q = other_key(I, None)
    return And_(Imp_(Not_(z3.PrefixOf(lit("_"), q)), s.unchanged(e.state, q)),
                *[s.unchanged(e.state, p) for p in (
                    "_protected", "_read_only_attr", "_custom")],
                s.map_same(s.cust_ref, e.state))


def write_valid(p):
    p.run(IO + "write_sofa", write_setup, write_clauses() + [
        ("no entry and no registration of custom data changes", write_frame)])


def write_content(p):
    def dims(I, e, w):
        return exactly(I, e.state, "dimension", 1, w.api_has,
                       lambda k: (k, w.api(k)))

    def glob(I, e, w):
        return exactly(
            I, e.state, "gattr", 1, lambda k: And_(
                w.s.H(k), z3.PrefixOf(lit("GLOBAL_"), k)),
            lambda k: (z3.SubString(k, 7, z3.Length(k) - 7),
                       text_of(w.s.G(k))))

    def name(I, k):
        return I.L.str_method(I, k, "replace", ["Data_", "Data."], {})

    def dims_match(I, k, w):
        def f(lg):
            D = w.dims(k)
            return And_(*[
                And_(Iff_(g, z3.Length(D) > i), Imp_(
                    g, x == z3.SubString(D, i, 1)))
                for i, (g, x) in enumerate(lg)], z3.Length(D) <= len(lg))
        return f

    def variables(I, e, w):
        return exactly(
            I, e.state, "variable", 1, w.variable, lambda k: (
                name(I, k), If_(w.conv.type(k) == lit("double"), lit("f8"),
                                lit("S1")), dims_match(I, k, w)))

    def content(I, k, w):
        def f(v):
            a, i = w.data(k), I.facts.fresh("position", INT)
            if isinstance(v, Opaque) and v.tag == "characters":
                r = v.args[0]
                kind = And_(w.string(k), N.F_width(r) == w.api(lit("S")))
            elif is_z3(v, ARR):
                r, kind = v, Not_(w.string(k))
            elif isinstance(v, U):
                return And_(*[Imp_(g, f(x)) for g, x in v.cases])
            else:
                raise Unsupported("data of a variable")
            fs, pos = [], lit(0)
            for g, x in w.sizes(k):
                for j in range(4):
                    fs.append(Imp_(And_(g, pos == j), N.F_dim(r, j) == x))
                pos = pos + If_(g, lit(1), lit(0))
            return And_(kind, N.F_size(r) == N.F_size(a),
                        N.F_el(r, i) == N.F_el(a, i),
                        N.F_ndim(r) == pos, *fs)
        return f

    def data(I, e, w):
        return exactly(I, e.state, "data", 1, w.variable, lambda k: (
            name(I, k), content(I, k, w)))

    def vattrs(I, e, w):
        return exactly(
            I, e.state, "vattr", 2, lambda k, a: And_(
                w.variable(k), w.s.H(a), Not_(z3.PrefixOf(lit("_"), a)),
                z3.PrefixOf(z3.Concat(k, lit("_")), a)),
            lambda k, a: (name(I, k), z3.SubString(
                a, z3.Length(k) + 1, z3.Length(a) - z3.Length(k) - 1),
                text_of(w.s.G(a))))

    def order(I, e, w):
        f = lambda t: [x[3] for x in flat_events(I, e.state, t)]  # noqa
        return all(x < y for x in f("dimension") for y in f("variable")) \
            and all(x >= y for t in ("data", "vattr") for x in f(t)
                    for y in f("variable"))

    ret = lambda e: e.kind == "return"  # noqa: E731
    p.run(IO + "write_sofa", write_setup, [
        ("every dimension with its size, nothing else", dims, ret),
        ("every global attribute with its text, nothing else", glob, ret),
        ("every variable with its name, type and dimensions, nothing else",
         variables, ret),
        ("the data of every variable: the same elements in the shape of its "
         "dimensions", data, ret),
        ("every attribute of a variable with its text, nothing else",
         vattrs, ret),
        ("dimensions are created before variables, variables before their "
         "data", order, ret)], label="io.write_sofa content")


def C17(p):
    write_valid(p)


def C18(p):
    atleast_nd(p)
    write_content(p)


# --------------------------------------------------------------- conventions
PRIVATE = ("_convention", "_custom", "_api", "_dimensions", "_protected",
           "_read_only_attr")


class Catalogue:
    """The conventions available: has(name, version) and their content."""

    def __init__(self, I, s):
        self.I, self.s = I, s
        F = lambda n, o: z3.Function(f"cat_{n}", STR, STR, o)  # noqa: E731
        self.exists = F("exists", BOOL)
        self.latest = z3.Function("cat_latest", STR, STR)
        self.name_known = z3.Function("cat_name", STR, BOOL)
        G = lambda n, o: z3.Function(f"cat_{n}", STR, STR, STR, o)  # noqa
        self.has = G("has", BOOL)
        self.field = {"flags": G("flags", PV), "type": G("type", STR),
                      "default": G("default", PV),
                      "dimensions": G("dimensions", PV),
                      "comment": G("comment", PV)}
        self.refs = {}
        c, v, k = (z3.Const(f"cat!{x}", STR) for x in "cvk")
        f = {n: g(c, v, k) for n, g in self.field.items()}
        cls = I.mods.find("sofar.sofa.Sofa")
        I.facts.fact(And_(
            Or_(PV.is_none(f["flags"]), PV.is_str(f["flags"])),
            Or_(PV.is_none(f["dimensions"]), PV.is_str(f["dimensions"])),
            Iff_(f["type"] == lit("attribute"), PV.is_none(f["dimensions"])),
            Or_(*[f["type"] == lit(t) for t in (
                "attribute", "double", "string")]),
            Imp_(self.has(c, v, k), And_(
                Not_(z3.PrefixOf(lit("_"), k)), Not_(I.is_member(cls, k))))),
            (c, v, k))
        I.facts.fact(Imp_(self.exists(c, v), And_(
            self.name_known(c), v != lit("latest"))), (c, v))
        I.facts.fact(Imp_(self.name_known(c), self.exists(
            c, self.latest(c))), (c,))
        for n in (GC, GV, "GLOBAL_Version", "GLOBAL_DataType"):
            I.facts.fact(Imp_(self.exists(c, v), And_(
                self.has(c, v, lit(n)), self.field["type"](c, v, lit(n)) ==
                lit("attribute"), PV.is_str(self.field["default"](
                    c, v, lit(n))))), (c, v))

    own = {}

    def rec(self, c, v, k):
        self.at(c, v, k)
        r = {n: f(c, v, k) for n, f in self.field.items()}
        if const_str(k) in self.own:
            # (default of an entry on the convention itself)
            r["default"] = PV.str(self.own[const_str(k)](c, v))
            self.I.facts.fact(Imp_(self.exists(c, v), self.field["default"](
                c, v, k) == r["default"]))
        return Rec(r)

    def at(self, c, v, k):
        """The documented format of the conventions."""
        I = self.I
        f = {n: g(c, v, k) for n, g in self.field.items()}
        d = f["default"]
        n = z3.Length(first_dims(I, PV.s(f["dimensions"])))
        I.facts.fact(Imp_(self.has(c, v, k), And_(
            Not_(z3.PrefixOf(lit("_"), k)), Not_(I.is_member(
                I.mods.find("sofar.sofa.Sofa"), k)),
            Or_(PV.is_none(f["flags"]), PV.is_str(f["flags"])),
            N.F_conv(d), Not_(PV.is_dict(d)), Not_(PV.is_other(d)),
            Not_(PV.is_none(d)), Not_(PV.is_tuple(d)), Not_(PV.is_arr(d)),
            Imp_(f["type"] == lit("attribute"), PV.is_str(d)),
            Imp_(f["type"] != lit("attribute"), And_(
                PV.is_str(f["dimensions"]), n >= 1, n <= 4)))))

    def table(self, c, v):
        cls = self.I.mods.find("sofar.sofa.Sofa")
        for n in {*PRIVATE, *self.I.class_names(cls)}:
            self.I.facts.fact(Not_(self.has(c, v, lit(n))))
        return self.I.new("map", base=MapBase(
            lambda k: const_str(k) in self.own or self.has(c, v, lit(k)),
            lambda k: self.rec(c, v, lit(k)), STR, "convention"))

    def load(self, I, obj, convention, version):
        """Contract of _load_convention."""
        def text(x):
            if is_str(x):
                return lit(x)
            p = box(x)
            if p is None:
                raise Unsupported("name of a convention")
            I.raise_if(Not_(PV.is_str(p)), "TypeError")
            return PV.s(p)
        c = text(convention)
        v = lit(version) if is_str(version) else PV.s(box(version))
        if not self.own or I.possible_deep(I.st, (v == lit("latest"),)):
            v = If_(v == lit("latest"), self.latest(c), v)
        ok = self.exists(c, v)
        I.raise_if(Not_(ok), "ValueError")
        return self.table(c, v)

    def check(self, I, version, convention):
        """Contract of _verify_convention_and_version."""
        c = PV.str(convention) if is_str(convention) else box(convention)
        v = PV.str(version) if is_str(version) else box(version)
        I.raise_if(Not_(And_(PV.is_str(c), PV.is_str(v), self.exists(
            PV.s(c), PV.s(v)))), "ValueError")

    def use(self):
        self.I.contracts[S + "_load_convention"] = self.load
        self.I.contracts[UT + "_verify_convention_and_version"] = self.check


def first_dims(I, d):
    """First of the alternative dimensions of an entry."""
    return I.L.first_part(I, d, ", ")


GC, GV = "GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"


def reset_convention(p):
    def setup(I):
        s = Sofa(I, I.mods)
        cat = Catalogue(I, s)
        cat.use()
        return [s.ref], {}, (s, cat)

    def key_of(s):
        return PV.s(s.G(lit(GC))), text_of(s.G(lit(GV)))

    def ok(I, e, c):
        s, cat = c
        cc, vv = key_of(s)
        good = And_(s.H(lit(GC)), s.H(lit(GV)), PV.is_str(s.G(lit(GC))),
                    cat.exists(cc, vv))
        return Iff_(e.kind == "return", good)

    def loaded(I, e, c):
        s, cat = c
        cc, vv = key_of(s)
        k = I.facts.fresh("any", STR)
        h, v = s.now(e.state, "_convention")
        hk, rk = I.map_read(v, k, e.state)
        own = cat.has(cc, vv, k)
        old = And_(s.HC, s.cust.has(k))
        hc, cu = s.now(e.state, "_custom")
        kept = Iff_(And_(old, Not_(own)), And_(
            hc, I.map_read(cu, k, e.state)[0]))
        return And_(h, Iff_(hk, Or_(own, old)), Iff_(hc, s.HC), kept,
                    Imp_(own, rec_equal(I, rk, cat.rec(cc, vv, k))),
                    Imp_(And_(old, Not_(own)), And_(
                        rec_equal(I, rk, s.cust.rec(k)),
                        rec_equal(I, I.map_read(cu, k, e.state)[1],
                                  s.cust.rec(k)))))

    def kept(I, e, c):
        s, cat = c
        q = other_key(I, None)
        return And_(Imp_(Not_(z3.PrefixOf(lit("_"), q)),
                         s.unchanged(e.state, q)), *[
            s.unchanged(e.state, x) for x in s.private
            if x not in ("_convention", "_custom")])
    p.run(S + "_reset_convention", setup, [
        ("it returns iff the convention and version of the object exist", ok),
        ("the convention is that of the catalogue, extended by the custom "
         "data it does not define; other custom data is forgotten", loaded,
         lambda e: e.kind == "return"),
        ("no entry is changed, nor the protection", kept)])


class Reset:
    """Contract of _reset_convention (proved in C06): the convention of the
    catalogue, extended by the custom data that it does not define."""

    def __init__(self, I, s, cat=None):
        self.I, self.s = I, s
        self.cat = cat or Catalogue(I, s)
        self.c, self.v = PV.s(s.G(lit(GC))), text_of(s.G(lit(GV)))
        self.good = And_(s.H(lit(GC)), s.H(lit(GV)), PV.is_str(s.G(lit(GC))),
                         self.cat.exists(self.c, self.v))
        self.T = Table("reset")     # the merged table
        self.T.facts(I)
        self.at(z3.Const("reset!k", STR), True)
        for n in {*PRIVATE, *s.members}:
            I.facts.fact(Not_(self.T.has(lit(n))))
        self.ref = self.T.ref(I, self.at)
        # class invariant: custom data is what is registered as such
        self.cust_ref = I.new("map", base=MapBase(
            lambda k: And_(s.cust.has(lit(k)), Not_(self.own(lit(k)))),
            lambda k: s.cust.rec(lit(k)), STR, "custom"))

    def at(self, k, forall=False):
        """What holds for the key k."""
        I, s = self.I, self.s
        if not forall and not (is_z3(k) and const_str(k) is None):
            return
        own, old = self.own(k), self.old(k)
        T, fl = self.T, self.T.flags(k)
        n = z3.Length(first_dims(I, PV.s(T.dimensions(k))))
        I.facts.fact(And_(
            Iff_(T.has(k), Or_(own, old)),
            Imp_(T.has(k), And_(Not_(z3.PrefixOf(lit("_"), k)), Not_(
                I.is_member(I.mods.find("sofar.sofa.Sofa"), k)))),
            Or_(PV.is_none(fl), PV.is_str(fl)),
            Or_(*[T.type(k) == lit(t) for t in (
                "attribute", "double", "string")]),
            Or_(PV.is_none(T.dimensions(k)), And_(
                PV.is_str(T.dimensions(k)), n >= 1, n <= 4)),
            Iff_(T.type(k) == lit("attribute"), PV.is_none(T.dimensions(k))),
            # (documented format of the conventions: defaults are text, a
            # number, or a regular list; custom data exists)
            Imp_(old, s.H(k)), Imp_(own, N.F_conv(T.default(k))),
            *[Imp_(own, getattr(T, f)(k) == self.cat.field[f](
                self.c, self.v, k)) for f in self.cat.field],
            *[Imp_(And_(old, Not_(own)), getattr(T, f)(k) ==
                   getattr(s.cust, f)(k)) for f in self.cat.field]),
            (k,) if forall else ())

    def own(self, k):
        return self.cat.has(self.c, self.v, k)

    def old(self, k):
        return And_(self.s.HC, self.s.cust.has(k))

    def __call__(self, I, obj):
        I.raise_if(Not_(self.good), "ValueError")
        I.put(obj, SetOp(True, "_convention", self.ref))
        I.put(obj, SetOp(self.s.HC, "_custom", self.cust_ref))
        return None

    def use(self):
        self.I.contracts[S + "_reset_convention"] = self


def add_missing(p):
    def setup(I):
        s = Sofa(I, I.mods)
        r = Reset(I, s)
        r.use()
        m, o, b = (z3.Const(n, BOOL) for n in ("mandatory", "optional",
                                               "verbose"))
        return [s.ref, m, o, b], {}, (s, r, m, o, b)

    def wanted(c, k):
        s, r, m, o, b = c
        return And_(r.T.has(k), Not_(s.H(k)), Not_(z3.PrefixOf(lit("_"), k)),
                    If_(r.T.mandatory(k), m, o))

    def added(I, e, c):
        s, r, m, o, b = c
        k = I.facts.fresh("any_entry", STR)
        I.assume(Not_(z3.PrefixOf(lit("_"), k)))
        h, v = s.now(e.state, k)
        d = r.T.default(k)
        w = wanted(c, k)
        return Imp_(is_name(I, k), And_(
            Iff_(h, Or_(s.H(k), w)), Imp_(s.H(k), s.unchanged(e.state, k)),
            Imp_(w, default_value(I, box(v), d))))

    def flag(I, e, c):
        s = c[0]
        if e.kind == "return":
            return strict(I, s.protected(e.state), True)
        return s.unchanged(e.state, "_protected")

    def refused(I, e, c):
        s, r = c[:2]
        return Or_(And_(Not_(r.good), s.untouched(e.state)), bad_default(c, e))

    def bad_default(c, e):
        return False
    p.run(S + "add_missing", setup, [
        ("an exception is raised iff the convention does not exist, and "
         "changes nothing then", refused, lambda e: e.kind == "raise"),
        ("exactly the missing mandatory (optional) entries are added, with "
         "their defaults, and nothing else is changed", added,
         lambda e: e.kind == "return"),
        ("the object is protected", flag)])


def default_value(I, v, d):
    """v is the default d, as it is stored."""
    a = N.asarray(I, d)
    i = I.facts.fresh("position", INT)
    as_is = Or_(PV.is_str(d), PV.is_arr(d), PV.is_dict(d))
    return And_(Imp_(as_is, v == d), Imp_(Not_(as_is), Or_(
        And_(N.F_size(a) == 1, v == N.F_el(a, 0)),
        And_(PV.is_arr(v), N.F_size(PV.a(v)) == N.F_size(a),
             N.F_el(PV.a(v), i) == N.F_el(a, i)))))


def C06(p):
    reset_convention(p)


def C24(p):
    add_missing(p)


# ------------------------------------------------------------------------ C07
META = ("GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
        "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
        "GLOBAL_ApplicationVersion")


class Blank:
    """A new instance of the class without any attribute."""

    def __init__(self, I):
        self.I = I
        self.cls = I.mods.find("sofar.sofa.Sofa")
        self.ref = I.new("inst", base=EMPTY, cls=self.cls, name="new")
        self.verified = z3.Const("verified", BOOL)

    def now(self, st, k, *extra):
        """(contained, value), where the cases that are impossible under
        the extra conditions are left out."""
        h, v = self.I.map_read(self.ref, k, st)
        if isinstance(v, U):
            v = merge_many([(g, x) for g, x in v.cases
                            if self.I.possible_deep(
                                st, (B(g), B(h), *extra))])
        return h, v

    def verify(self, I, obj, issue_handling="raise", mode="write"):
        """Contract: an exception, or the entries are as before."""
        I.do_io("verified", mode)
        I.raise_if(Not_(self.verified), "ValueError")
        I.trusted.add("contract of verify() assumed by __init__: it does not "
                      "change entries when it raises issues (C15)")
        return None


def new_object(p, qual=S + "__init__", only=None):
    def setup(I):
        b = Blank(I)
        cat = Catalogue(I, b)
        cat.use()
        I.contracts[UT + "_atleast_nd"] = atleast_nd_contract
        I.contracts[S + "verify"] = b.verify
        I.contracts[UT + "version"] = lambda I: z3.Const(
            "package_version", STR)
        c, m, v, y = (z3.Const("convention", STR), z3.Const(
            "mandatory", BOOL), z3.Const("version", STR),
            z3.Const("verify", PV))
        I.assume(Or_(PV.is_bool(y), y == PV.str(lit("auto"))))
        return [b.ref, c, m, v, y], {}, (b, cat, c, m, v, y)

    def ver(cat, c, v):
        return If_(v == lit("latest"), cat.latest(c), v)

    def entries(I, e, x):
        b, cat, c, m, v, y = x
        w = ver(cat, c, v)
        k = I.facts.fresh("any_entry", STR)
        T = lambda f: cat.field[f](c, w, k)  # noqa: E731
        mand = And_(PV.is_str(T("flags")), z3.Contains(PV.s(T("flags")),
                                                       lit("m")))
        meta = Or_(*[k == lit(n) for n in META])
        want = And_(cat.has(c, w, k), Imp_(m, mand))
        h, val = b.now(e.state, k, is_name(I, k), want, Not_(meta))
        return Imp_(is_name(I, k), And_(
            Iff_(h, Or_(want, meta)),
            Imp_(And_(want, Not_(meta)), default_value(
                I, box(val), T("default")))))

    def private(I, e, x):
        b, cat, c, m, v, y = x
        w = ver(cat, c, v)
        k = I.facts.fresh("any_entry", STR)
        h, val = b.now(e.state, "_convention")
        hk, rk = I.map_read(val, k, e.state)
        f = cat.field["flags"](c, w, k)
        ro = b.now(e.state, "_read_only_attr")[1]
        return And_(h, Iff_(hk, cat.has(c, w, k)),
                    Imp_(hk, rec_equal(I, rk, cat.rec(c, w, k))),
                    Iff_(I.L.contains(I, ro, k), And_(
                        cat.has(c, w, k), PV.is_str(f), z3.Contains(
                            PV.s(f), lit("r")))))

    def flag(I, e, x):
        h, val = x[0].now(e.state, "_protected")
        return And_(h, strict(I, val, True))

    def refused(I, e, x):
        b, cat, c, m, v, y = x
        return Or_(Not_(cat.exists(c, ver(cat, c, v))), Not_(b.verified))
    ret = lambda e: e.kind == "return"  # noqa: E731
    cl = [
        ("the entries are those of the convention and meta data on the "
         "program, with the defaults of the convention", entries, ret),
        ("convention and read only entries are those of the catalogue",
         private, ret),
        ("the object is protected", flag, ret),
        ("it is refused only if the convention does not exist or the "
         "verification fails", refused, lambda e: e.kind == "raise")]
    p.run(qual, setup, [c for c in cl if not only or c[0] in only])


def C07(p):
    new_object(p)


# ------------------------------------------------------- sections of verify()
def C08(p):
    from . import verify
    verify.missing(p)
    verify.types(p)


def C09(p):
    from . import verify
    verify.names(p)
    verify.custom(p)


def C13(p):
    from . import verify
    verify.deprecated(p)
    verify.preliminary(p)


def C15(p):
    from . import verify
    verify.keeping(p)
    from . import props2
    props2.displays(p)


from .props2 import C03, C22  # noqa: E402,F401


def C23(p):
    from .upgrading import upgrade_convention
    upgrade_convention(p)


def C21(p):
    from .comparing import C21 as f
    f(p)


def C19(p):
    from .reading import C19 as f
    f(p)


def C26(p):
    from .updating import C26 as f
    f(p)


def C27(p):
    from .updating import C27 as f
    f(p)


def C20(p):
    from .formats import C20 as f
    f(p)
