"""Contract of reading files (C19).

_read_netcdf is cut into what comes before its loops, the bodies of the loop
over the global attributes and of the loop over the variables, and what comes
after the file was closed. The bodies are proved for an arbitrary object and an
arbitrary attribute or variable: they set exactly the entries of this attribute
or variable. As different names have different entries, no iteration changes
what another one has set, and the loops load exactly the content of the file.
"""
import ast
import copy
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, If_, U, Rec, Ref,
                   MapBase, SetOp, Elem, Comp, Opaque, Fill, PV, STR, INT,
                   BOOL, ARR, Unsupported, box, const_str, is_str, merge_many)
from . import nump as N
from .core import Func
from .model import Sofa
from .nc import File
from .props import is_name, strict, exc, io_flag, rec_is_u, custom_has
from .verify import END, live_in

S = "sofar.sofa.Sofa."
GLOB, US = lit("GLOBAL_"), lit("_")


class Made:
    """Contract of Sofa(convention, version=...) (C06, C07): the default
    entries of the convention, or a ValueError."""

    def __init__(self, I, cat):
        self.I, self.cat = I, cat
        self.value = z3.Function("made", STR, STR, STR, PV)
        self.ref = self.c = self.v = None
        I.contracts[S + "__init__"] = self

    def __call__(self, I, obj, convention, mandatory=False, version="latest",
                 verify="auto"):
        from .props import META, default_value, is_name
        if mandatory is not False:
            raise Unsupported("Sofa(mandatory=True)")
        c, v = (lit(x) if is_str(x) else PV.s(box(x))
                for x in (convention, version))
        cat = self.cat
        I.raise_if(Not_(cat.exists(c, v)), "ValueError")
        I.raise_if(z3.Const("default_invalid", BOOL), "ValueError")
        self.ref, self.c, self.v = obj, c, v
        table = cat.table(c, v)

        def cond(k):
            k = lit(k)
            return Or_(cat.has(c, v, k), *[k == lit(n) for n in META])

        def val(k):
            k = lit(k)
            x = self.value(c, v, k)
            I.facts.fact(Imp_(cat.has(c, v, k), default_value(
                I, x, cat.field["default"](c, v, k))))
            return x
        I.put(obj, Fill(True, cond, val))
        k = z3.Const("mk!0", STR)
        flags = lambda k: cat.field["flags"](c, v, k)  # noqa: E731
        I.put(obj, SetOp(True, "_convention", table))
        I.put(obj, SetOp(True, "_read_only_attr", I.new("list", log=[Comp(
            k, And_(cat.has(c, v, k), PV.is_str(flags(k)), z3.Contains(
                PV.s(flags(k)), lit("r"))), [Elem(True, k)])])))
        self.custom = I.new("map", log=[])
        I.put(obj, SetOp(True, "_custom", self.custom))
        I.put(obj, SetOp(True, "_protected", True))


F_reg = z3.Function("registered_dimensions", PV, PV)


class Register:
    """Contract of _add_custom_api_entry: the entry is stored; if the
    convention does not know it, it is registered in the convention and as
    custom data; the object is protected. (A missing and an empty table of
    custom data are not distinguished.)"""

    def __init__(self, I):
        self.I = I
        I.contracts[S + "_add_custom_api_entry"] = self

    def __call__(self, I, obj, key, value, flags, dimensions, dtype):
        I.put(obj, SetOp(True, "_protected", False))
        I.setattr(obj, key, value)
        table = I.map_read(obj, "_convention")[1]
        custom = I.map_read(obj, "_custom")[1]
        d = box(dimensions)
        if d is None:
            raise Unsupported("dimensions of an entry")
        rec = Rec({"flags": flags, "dimensions": None if dimensions is None
                   else F_reg(d), "type": dtype, "default": None,
                   "comment": ""})
        has, _ = I.map_read(table, key)
        I.note_read(table, key)
        I.put(table, SetOp(Not_(has), key, rec))
        I.put(custom, SetOp(Not_(has), key, rec))
        I.put(obj, SetOp(True, "_protected", True))


class Names:
    """Precondition: different names in the file give different entries, and
    none is private or called like a member of the class."""

    def __init__(self, I, f):
        self.f = f
        from .props import is_name
        # (all symbolic names of this form stand for names in the file)
        I.reserved = set(I.class_names(I.mods.find("sofar.sofa.Sofa")))
        I.plain = self.is_entry
        self.kind = z3.Function("kind_of", STR, INT)
        self.var = z3.Function("var_of", STR, STR)
        self.att = z3.Function("att_of", STR, STR)
        v, a = z3.Const("nv!0", STR), z3.Const("na!0", STR)
        k = self.g(a)
        I.facts.fact(Imp_(f.gattr_has(a), And_(
            self.kind(k) == 0, self.att(k) == a, is_name(I, k))), (a,))
        k = self.v(I, v)
        I.facts.fact(Imp_(f.var_has(v), And_(
            self.kind(k) == 1, self.var(k) == v, is_name(I, k))), (v,))
        k = self.a(I, v, a)
        I.facts.fact(Imp_(And_(f.var_has(v), f.vattr_has(v, a)), And_(
            self.kind(k) == 2, self.var(k) == v, self.att(k) == a,
            is_name(I, k))), (v, a))

    def is_entry(self, k):
        """GLOBAL_a, v' or v'_a, where v' is a replacement in a symbol"""
        k = lit(k)
        if not z3.is_app(k) or const_str(k) is not None:
            return False
        if k.decl().name() == "str_replace_all":
            return const_str(k.arg(0)) is None and const_str(
                k.arg(1)) == "." and const_str(k.arg(2)) == "_"
        if k.decl().kind() != z3.Z3_OP_SEQ_CONCAT:
            return False
        first = k.arg(0)
        return const_str(first) == "GLOBAL_" and k.num_args() == 2 and \
            const_str(k.arg(1)) is None or self.is_entry(first)

    def g(self, a):
        return z3.Concat(GLOB, a)

    def v(self, I, v):
        return I.L.s_replace(I, v, ".", "_")

    def a(self, I, v, a):
        return z3.Concat(self.v(I, v), US, a)


# ------------------------------------------------------------------ segments
def parts(f):
    """The segments of the current source: what comes before the loops, the
    bodies of the loops over global attributes and over variables, and what
    comes after the file was closed."""
    body = list(f.node.body)
    w = [i for i, x in enumerate(body) if isinstance(x, ast.With)]
    if len(w) != 1:
        raise Unsupported("segments of _read_netcdf")
    w = w[0]
    loops = [i for i, x in enumerate(body[w].body)
             if isinstance(x, ast.For)]
    if len(loops) != 2 or loops[1] != loops[0] + 1 or \
            loops[1] != len(body[w].body) - 1:
        raise Unsupported("loops of _read_netcdf")
    one, two = (body[w].body[i] for i in loops)
    for x, over in ((one, "ncattrs"), (two, "variables")):
        if x.orelse or not isinstance(x.target, ast.Name) or over not in \
                ast.unparse(x.iter):
            raise Unsupported("loops of _read_netcdf")
    return body, w, one, two


def function(f, params, stmts, outs):
    src = "def {}({}): pass".format(f.node.name, ", ".join(params))
    node = ast.parse(src).body[0]
    node.lineno = stmts[0].lineno
    end = [] if outs is None else [ast.parse(
        "def f(): return ({!r}, {})".format(END, "".join(
            o + ", " for o in outs))).body[0].body[0]]
    live_in(f.node, list(stmts) + end, params)
    node.body = list(stmts) + end
    return Func(f.module, node, f.cls)


def formats(I):
    """Contract of _format_value_from_netcdf (C20): the content of the
    variable as an array, a number or text; TypeError for other types."""
    from .props import IO
    stored = z3.Function("stored_in_file", STR, PV)

    def formatted(I, value, key):
        if not (isinstance(value, Opaque) and value.tag == "ncdata"):
            raise Unsupported("value of a file")
        v = value.args[0]
        I.raise_if(z3.Function("bad_type", STR, BOOL)(v), "TypeError")
        x = stored(v)
        I.facts.fact(Or_(PV.is_arr(x), PV.is_npnum(x), PV.is_str(x)))
        I.trusted.add("_format_value_from_netcdf returns the content of the "
                      "variable (C20)")
        return x
    I.contracts[IO + "_format_value_from_netcdf"] = formatted
    return stored


def state(I):
    from .props import known_entries
    f = File(I)
    s = Sofa(I, I.mods, protected=False)
    known_entries(I, s)
    stored = formats(I)
    names = Names(I, f)
    n, m = z3.Const("ga!0", STR), z3.Const("gv!0", STR)
    I.facts.fact(Imp_(f.gattr_has(n), PV.is_str(f.gattr(n))), (n,))
    I.facts.fact(Imp_(f.vattr_has(m, n), PV.is_str(f.vattr(m, n))), (m, n))
    A = z3.Function("loaded", STR, BOOL)
    C = z3.Function("found_custom", STR, BOOL)
    k = z3.Const("lk!0", STR)
    all_attr = I.new("list", log=[Comp(k, A(k), [Elem(True, k)])])
    custom = I.new("list", log=[Comp(k, C(k), [Elem(True, k)])])
    return f, s, stored, names, all_attr, custom, A


def unprotected(I, s, st):
    h, v = s.now(st, "_protected")
    return And_(h, strict(I, v, False))


def registered_as(I, s, st, k, dtype, dims):
    """What the convention did not know is registered as custom data."""
    h, v = I.map_read(s.conv_ref, k, st)
    hc, cu = s.now(st, "_custom")
    reg = dict(flags=None, dimensions=dims, type=dtype, default=None,
               comment="")
    old = s.conv.has(k)
    return And_(h, Imp_(Not_(old), And_(
        rec_is_u(I, v, old, reg), custom_has(I, hc, cu, k, st))),
        Imp_(old, s.map_same(s.conv_ref, st, k)))


def loaded(I, e, ref, k):
    return I.L.contains(I, e.value.items[1], k)


ret = lambda e: e.kind == "return"  # noqa: E731


def global_attribute(p, fn):
    body, w, one, two = parts(fn)
    t = one.target.id
    params = ["sofa", "file", t, "all_attr", "custom"]
    seg = function(fn, params, one.body, ["all_attr"])

    def setup(I):
        f, s, stored, names, al, cu, A = state(I)
        a = z3.Const("attribute", STR)
        k = names.g(a)
        I.assume(f.gattr_has(a), is_name(I, k), PV.is_str(f.gattr(a)))
        return [s.ref, f.value, a, al, cu], {}, (f, s, a, k, A)

    def value(I, e, c):
        f, s, a, k, A = c
        h, v = s.now(e.state, k)
        return And_(h, strict(I, v, f.gattr(a)), unprotected(I, s, e.state),
                    Imp_(Not_(s.H(k)), registered_as(
                        I, s, e.state, k, "attribute", None)))

    def other(I, e, c):
        f, s, a, k, A = c
        q = I.facts.fresh("other", STR)
        return And_(Imp_(And_(q != k, Not_(z3.PrefixOf(US, q))), And_(
            s.unchanged(e.state, q), s.map_same(s.conv_ref, e.state, q))),
            s.unchanged(e.state, "_read_only_attr"),
            s.unchanged(e.state, "_convention"))

    def listed(I, e, c):
        f, s, a, k, A = c
        q = I.facts.fresh("any", STR)
        return Iff_(loaded(I, e, c, q), Or_(A(q), q == k))
    p.run(seg, setup, [
        ("its entry holds the value in the file, and is registered if it is "
         "not known", value, ret),
        ("no other entry changes", other),
        ("no exception is raised", lambda I, e, c: e.kind == "return"),
        ("it is listed as loaded", listed, ret)],
        label="reading a global attribute")


def variable(p, fn):
    body, w, one, two = parts(fn)
    t = two.target.id
    params = ["sofa", "file", t, "all_attr", "custom", "skip"]
    seg = function(fn, params, two.body, ["all_attr"])

    def setup(I):
        f, s, stored, names, al, cu, A = state(I)
        I.prune = True
        v = z3.Const("variable", STR)
        k = names.v(I, v)
        I.assume(f.var_has(v), is_name(I, k))
        I.put(s.ref, SetOp(True, "_custom", s.cust_ref))
        Register(I)
        skip = I.new_list(["_Encoding"])
        return [s.ref, f.value, v, al, cu, skip], {}, (
            f, s, v, k, A, stored, names)

    def value(I, e, c):
        f, s, v, k, A, stored, names = c
        h, x = s.now(e.state, k)
        dims = I.L.join(I, "", f.dims_list(v))
        return And_(h, strict(I, x, stored(v)), unprotected(I, s, e.state),
                    Imp_(Not_(s.H(k)), registered_as(
                        I, s, e.state, k, If_(f.var_type(v) == lit("S1"),
                                              lit("string"), lit("double")),
                        F_reg(PV.str(dims)))))

    def attribute(I, e, c):
        f, s, v, k, A, stored, names = c
        a = I.facts.fresh("attribute", STR)
        q = names.a(I, v, a)
        h, x = s.now(e.state, q)
        return Imp_(And_(f.vattr_has(v, a), a != lit("_Encoding")), And_(
            h, strict(I, x, f.vattr(v, a)),
            Imp_(Not_(s.H(q)), registered_as(
                I, s, e.state, q, "attribute", None))))

    def own(I, c, q):
        """q is the entry of the variable or of one of its attributes"""
        f, s, v, k, A, stored, names = c
        n = z3.Length(k) + 1
        a = z3.SubString(q, n, z3.Length(q) - n)
        return Or_(q == k, And_(
            z3.PrefixOf(z3.Concat(k, US), q), f.vattr_has(v, a),
            a != lit("_Encoding")))

    def other(I, e, c):
        f, s, v, k, A, stored, names = c
        q = I.facts.fresh("other", STR)
        return And_(Imp_(And_(Not_(own(I, c, q)), Not_(z3.PrefixOf(
            US, q))), And_(s.unchanged(e.state, q), s.map_same(
                s.conv_ref, e.state, q))),
            s.unchanged(e.state, "_read_only_attr"),
            s.unchanged(e.state, "_convention"))

    def raises(I, e, c):
        f, s, v, k, A, stored, names = c
        return And_(e.kind == "raise" and e.value.name == "TypeError",
                    z3.Function("bad_type", STR, BOOL)(v))

    def listed(I, e, c):
        f, s, v, k, A, stored, names = c
        q = I.facts.fresh("any", STR)
        return Iff_(loaded(I, e, c, q), Or_(A(q), own(I, c, q)))
    p.run(seg, setup, [
        ("its entry holds the content of the variable, and is registered "
         "with type and dimensions if it is not known", value, ret),
        ("the entries of its attributes hold their values, and are "
         "registered if they are not known", attribute, ret),
        ("no other entry changes", other),
        ("an exception means that the type of the data is not supported",
         raises, lambda e: e.kind == "raise"),
        ("it and its attributes are listed as loaded, nothing else",
         listed, ret)], label="reading a variable")


def finish(p, fn):
    body, w, one, two = parts(fn)
    params = ["sofa", "all_attr", "custom", "verify", "verbose", "version"]
    seg = function(fn, params, body[w + 1:], None)

    def setup(I):
        f, s, stored, names, al, cu, A = state(I)
        I.plain = None

        def verified(I, obj, issue_handling="raise", mode="write"):
            I.do_io("verified", issue_handling, mode)
            I.raise_if(z3.Const("issues", BOOL), "ValueError")
            I.trusted.add("contract of verify() assumed by _read_netcdf: no "
                          "entry changes when issues are raised (C15)")
        I.contracts[S + "verify"] = verified
        # class invariant and the loops: custom data has been loaded
        k = z3.Const("fk!0", STR)
        I.facts.fact(Imp_(And_(s.HC, s.cust.has(k)), A(k)), (k,))
        v, b = z3.Const("verify", PV), z3.Const("verbose", BOOL)
        ver = z3.Const("version", STR)
        I.assume(Or_(PV.is_bool(v), v == PV.str(lit("auto"))))
        return [s.ref, al, cu, v, b, ver], {}, (s, A, v, ver)

    def kept(I, e, c):
        s, A, v, ver = c
        k = I.facts.fresh("any", STR)
        h, x = s.now(e.state, k)
        return Imp_(Not_(z3.PrefixOf(US, k)), And_(
            Iff_(h, And_(s.H(k), A(k))), Imp_(h, strict(I, x, s.G(k))),
            s.map_same(s.conv_ref, e.state, k)))

    def given(I, e, c):
        s, A, v, ver = c
        return isinstance(e.value, Ref) and e.value.oid == s.ref.oid

    def prot(I, e, c):
        s, A, v, ver = c
        h, x = s.now(e.state, "_protected")
        return And_(h, strict(I, x, True))

    def checked(I, e, c):
        s, A, v, ver = c
        ran = io_flag(I, e.state, "verified")
        bad = z3.Const("issues", BOOL)
        no = v == PV.bool(False)
        yes = v == PV.bool(True)
        if e.kind == "raise":
            return And_(exc(e, "ValueError"), bad, Not_(no), ran)
        return And_(Imp_(yes, ran), Imp_(no, Not_(ran)),
                    Imp_(bad, Not_(yes)), Imp_(ran, Not_(bad)))
    p.run(seg, setup, [
        ("the entries that are in the file are kept with their values, all "
         "others are removed", kept, ret),
        ("the object that was filled is returned", given, ret),
        ("the object is protected", prot, ret),
        ("invalid data is refused with a ValueError if it is to be verified, "
         "nothing is refused if it is not", checked)],
        label="after reading a file")


def begin(p, fn):
    """Statements up to the loops."""
    body, w, one, two = parts(fn)
    params = ["filename", "verify", "verbose", "mode"]
    wi = copy.copy(body[w])
    wi.body = wi.body[:-2] + [ast.parse(
        "def f(): return ({!r}, sofa, all_attr, custom, skip, version)"
        .format(END)).body[0].body[0]]
    seg = function(fn, params, body[:w] + [wi], None)

    def setup(I):
        from .props import Catalogue
        f = File(I)
        cat = Catalogue(I, None)
        cat.use()
        I.hooks["dataset"] = lambda path, mode: f.value
        I.cms["dataset"] = (lambda I, cm: cm,
                            lambda I, cm: I.do_io("close"))
        made = Made(I, cat)
        v = z3.Const("verify", PV)
        I.assume(Or_(PV.is_bool(v), v == PV.str(lit("auto"))))
        name = z3.Const("filename", PV)
        return [name, v, z3.Const("verbose", BOOL), "sofa"], {}, (
            f, cat, made, name)

    def conv(f):
        return (f.gattr(lit("SOFAConventions")),
                f.gattr(lit("SOFAConventionsVersion")))

    def refused(I, e, c):
        f, cat, made, name = c
        cc, vv = conv(f)
        path = N.F_path(name, lit(".sofa"))
        there = And_(N.F_isfile(path))
        named = And_(f.gattr_has(lit("SOFAConventions")), f.gattr_has(
            lit("SOFAConventionsVersion")), PV.is_str(cc), PV.is_str(vv))
        known = And_(named, cat.exists(PV.s(cc), PV.s(vv)))
        if e.kind == "return":
            return And_(there, known)
        return And_(Or_(Not_(there), Not_(known),
                        z3.Const("default_invalid", BOOL)),
                    Or_(exc(e, "ValueError"), And_(there, Not_(named))))

    def filled(I, e, c):
        f, cat, made, name = c
        cc, vv = conv(f)
        v = e.value.items
        o = v[1]
        if not isinstance(o, Ref) or made.ref is None or \
                o.oid != made.ref.oid or const_str(v[0]) != END:
            return False
        k = I.facts.fresh("any", STR)
        h, x = I.map_read(o, "_protected", e.state)
        return And_(strict(I, made.c, PV.s(cc)), strict(I, made.v, PV.s(vv)),
                    h, strict(I, x, False),
                    Not_(I.L.contains(I, v[2], k)),
                    Not_(I.L.contains(I, v[3], k)),
                    Iff_(I.L.contains(I, v[4], k), k == lit("_Encoding")))

    def opened(I, e, c):
        f, cat, made, name = c
        path = N.F_path(name, lit(".sofa"))
        o = io_flag(I, e.state, "open")
        right = io_flag(I, e.state, "open", lambda a: And_(
            strict(I, a[0], path), const_str(a[1]) == "r"))
        return And_(Iff_(o, right), Iff_(o, io_flag(I, e.state, "close")),
                    Imp_(e.kind == "return", o))
    p.run(seg, setup, [
        ("it is refused with a ValueError iff the file does not exist or "
         "names no known convention and version", refused),
        ("the object that is filled is one of the convention and version of "
         "the file; nothing is listed as loaded", filled, ret),
        ("only the given file is opened, for reading, and closed in the end",
         opened)], label="before reading the data")


def registers(p):
    """The contract of _add_custom_api_entry."""
    from .props import add_setup, add_clauses

    def setup(I):
        a, kw, c = add_setup()(I)
        s, name, value, dtype, dims = a
        return [s, name, value, None, dims, dtype], kw, c
    cl = [x for x in add_clauses() if not x[0].startswith("the entry is ref")]

    def only(I, e, c):
        s, name, value, dtype, dims = c
        return Or_(PV.is_list(value), PV.is_tuple(value), PV.is_dict(value),
                   PV.is_other(value), PV.is_none(value), PV.is_bool(value))
    p.run(S + "_add_custom_api_entry", setup, cl + [
        ("text, numbers, and arrays are never refused", only,
         lambda e: e.kind == "raise")])


def C19(p):
    registers(p)
    fn = p.mods.find("sofar.io._read_netcdf")
    for g in (begin, global_attribute, variable, finish):
        try:
            g(p, fn)
        except Unsupported as ex:
            p.add(f"_read_netcdf: {g.__name__}", "unknown", str(ex))
