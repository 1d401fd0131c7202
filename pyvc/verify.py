"""verify(), section by section.

The statements of the real method are divided at cut points: each segment is
executed symbolically from an arbitrary state that satisfies the cut
condition (an arbitrary object whose convention is in place, any text of
earlier errors and warnings), and its postcondition says which errors and
warnings it adds, that it keeps the entries, and that the next cut condition
holds.  The segments are cut out of the current source on every run and cover
the body without gaps.
"""
import ast
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, If_, U, Rope,
                   Rec, Ref, MapBase, SetOp, Elem, Comp, Opaque, Tup, PV, LoopText,
                   Text, STR, INT, BOOL, Unsupported, Dead, Func, const_str, box,
                   State, is_str, is_pv, merge, subst, Exc)
from .model import Sofa
from .interp import present
from .props import io_events, text_is, io_flag, Reset, default_value, GC, GV,\
    Catalogue
from . import nump as N

S = "sofar.sofa.Sofa."
ERR0, WARN0 = "\nERRORS\n------\n", "\nWARNINGS\n--------\n"


# ------------------------------------------------------------- cut points
def constants(s):
    """All constant text of a statement."""
    return " ".join(x.value for x in ast.walk(s) if isinstance(
        x, ast.Constant) and isinstance(x.value, str))


def mentions_name(s, name):
    return any(isinstance(x, ast.Name) and x.id == name or
               isinstance(x, ast.Attribute) and x.attr == name
               for x in ast.walk(s))


def stores_item(s, attr):
    return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)
               and isinstance(x.value, ast.Attribute) and x.value.attr == attr
               for x in ast.walk(s))


def sections(f):
    """{name: (first, last + 1)} of the statements of verify()."""
    body = list(f.node.body)
    if body and isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant):
        body = body[1:]
    text = [constants(s) for s in body]

    def says(phrase, after=0):
        for i in range(after, len(body)):
            if phrase in text[i]:
                return i + 1
        raise Unsupported(f"no section of verify() on {phrase!r}")

    def last(pred, after, before):
        for i in range(before - 1, after - 1, -1):
            if pred(body[i]):
                return i + 1
        raise Unsupported("sections of verify()")

    def first(pred, after):
        for i in range(after, len(body)):
            if pred(body[i]):
                return i + 1
        raise Unsupported("sections of verify()")
    cuts = [("missing", says("missing mandatory data"))]
    add = lambda n, i: cuts.append((n, i))  # noqa: E731
    add("types", first(lambda s: any(isinstance(x, ast.Return)
                                     for x in ast.walk(s)),
                       says("of wrong type")))
    add("orphans", says("attributes with missing variables"))
    add("attributes", says("too many or little underscores"))
    add("variables", says("variable names with too many"))
    add("reserved", says("reserved key words"))
    add("custom", says("with reserved names"))
    shapes = says("wrong shape")
    add("sizes", last(lambda s: stores_item(s, "_api"), cuts[-1][1], shapes))
    add("shapes", shapes)
    violations = says("violations of the SOFA convention", shapes)
    add("rules", last(lambda s: mentions_name(s, "_verify_value"),
                      shapes, violations))
    add("units", violations)
    add("deprecated", says("Detected deprecations", violations))
    add("preliminary", says("preliminary conventions", violations))
    add("result", len(body))
    out, i = {}, 0
    for n, j in cuts:
        if j <= i:
            raise Unsupported("order of the sections of verify()")
        out[n] = (i, j)
        i = j
    return body, out


END = "end of the segment"


def segment(f, name, params, outs):
    """The statements of a section as a function of the live variables; it
    returns (END, values of outs) if control reaches its end."""
    body, secs = sections(f)
    i, j = secs[name]
    src = "def {}({}): pass".format(f.node.name, ", ".join(params))
    node = ast.parse(src).body[0]
    node.lineno = body[i].lineno
    end = ast.parse("def f(): return ({!r}, {})".format(
        END, "".join(o + ", " for o in outs))).body[0].body[0]
    live_in(f.node, body[i:j] + [end], params)
    node.body = body[i:j] + ([end] if name != "result" else [])
    return Func(f.module, node, f.cls)


def live_in(fn, stmts, params):
    """All variables read in the segment are set in it, or known."""
    local = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and
             isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args}
    own = {x.id for s in stmts for x in ast.walk(s) if isinstance(
        x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and \
                    x.id in local and x.id not in own and x.id not in params:
                raise Unsupported(f"{x.id} at the begin of the section")


# ---------------------------------------------------------------- the state
class Checked:
    """State at a cut point: any object, convention in place."""

    def __init__(self, I, convention=True):
        from .props import known_entries, Issues
        self.I = I
        s = self.s = Sofa(I, I.mods)
        s.at = self.value_facts
        known_entries(I, s)
        conv = s.conv
        s.conv_ref = conv.ref(I, self.conv_facts)
        s.private["_convention"] = (True, s.conv_ref)
        for n in {*s.private, *s.members}:
            I.facts.fact(And_(Not_(conv.has(lit(n))), Not_(s.cust.has(
                lit(n)))))
        s.pre = dict(I.st.heap)
        self.ih, self.mode = z3.Const("handling", STR), z3.Const("mode", STR)
        self.K = z3.Function("checked", STR, BOOL)
        k = z3.Const("ck!0", STR)
        I.facts.fact(Imp_(self.K(k), And_(s.H(k), conv.has(k), Not_(
            z3.PrefixOf(lit("_"), k)))), (k,))
        self.keys = I.new("list", log=[Comp(k, And_(
            self.K(k)), [Elem(True, k)])])
        self.E, self.W = z3.Const("earlier_errors", BOOL), z3.Const(
            "earlier_warnings", BOOL)
        self.C = z3.Const("earlier_violations", BOOL)
        e, w, c = (z3.Const(f"earlier_{x}_text", STR) for x in "ewc")
        I.assume(e != lit(""), w != lit(""), c != lit(""))
        self.err = Rope([(True, ERR0), (self.E, e)])
        self.warn = Rope([(True, WARN0), (self.W, w)])
        self.cur = Rope([(self.C, c)])
        Issues(I)

    def value_facts(self, k):
        """(what __setattr__ stores, C05)"""
        g = self.s.G(k)
        self.I.facts.fact(Imp_(self.s.H(k), Not_(Or_(
            PV.is_list(g), PV.is_tuple(g)))))
        self.I.facts.fact(Imp_(self.K(k), self.s.H(k)))
        self.I.facts.fact(Imp_(self.s.H(k), self.s.conv.has(k)))

    def conv_facts(self, k):
        from .props import first_dims
        I, c = self.I, self.s.conv
        if const_str(k) is not None:
            return
        n = z3.Length(first_dims(I, PV.s(c.dimensions(k))))
        fl = c.flags(k)
        u = self.s.cust
        I.facts.fact(And_(
            Imp_(And_(self.s.HC, u.has(k)), And_(
                c.dimensions(k) == u.dimensions(k), c.type(k) == u.type(k))),
            Imp_(self.K(k), And_(self.s.H(k), c.has(k))),
            Or_(PV.is_none(fl), PV.is_str(fl)),
            Or_(*[c.type(k) == lit(t) for t in (
                "attribute", "double", "string")]),
            Or_(PV.is_none(c.dimensions(k)), And_(
                PV.is_str(c.dimensions(k)), n >= 1, n <= 4)),
            Iff_(c.type(k) == lit("attribute"),
                 PV.is_none(c.dimensions(k))),
            Imp_(c.has(k), And_(Not_(z3.PrefixOf(lit("_"), k)), Not_(
                I.is_member(I.mods.find("sofar.sofa.Sofa"), k))))))

    def args(self, names):
        d = {"self": self.s.ref, "error_msg": self.err,
             "warning_msg": self.warn, "issue_handling": self.ih,
             "mode": self.mode, "keys": self.keys, "current_error": self.cur}
        return [d[n] for n in names]


def reached(e):
    """The segment was left at its end (not by a return statement)."""
    return e.kind == "return" and isinstance(e.value, Tup) and \
        e.value.items and const_str(e.value.items[0]) == END


def out(e, i):
    return e.value.items[1 + i]


def added(now, before):
    """What was appended to a text."""
    pa = now.parts if isinstance(now, Rope) else ((True, now),)
    pb = before.parts
    if len(pa) < len(pb) or any(
            not (g is h or (is_z3(g) and is_z3(h) and g.eq(h)) or g == h) or
            not (x is y or (is_z3(x) and is_z3(y) and x.eq(y)) or
                 (isinstance(x, str) and x == y))
            for (g, x), (h, y) in zip(pa, pb)):
        raise Unsupported("texts before and after the section")
    return Rope(pa[len(pb):])


def loops(r, g=True):
    """[(guard, LoopText)] of a text."""
    o = []
    for h, x in r.parts:
        if isinstance(x, LoopText):
            o.append((And_(g, h), x))
        elif isinstance(x, Rope):
            o += loops(x, And_(g, h))
    return o


def names_exactly(I, r, bad):
    """The loop texts name every k with bad(k), and no others."""
    ls = loops(r)
    k = I.facts.fresh("reported", STR)
    fs, by = [], []
    for g, lt in ls:
        if lt.gen.sort() != STR:
            raise Unsupported("report without names")
        x = I.facts.fresh("named", STR)
        p = [(lt.gen, x)]
        on = And_(g, subst(lt.dom, p), present(subst(lt.body, p)))
        fs.append(Imp_(on, bad(x)))
        p = [(lt.gen, k)]
        body = subst(lt.body, p)
        name = Or_(*[And_(h, is_name(y, k)) for h, y in body.parts])
        by.append(And_(g, subst(lt.dom, p), name))
    fs.append(Imp_(bad(k), Or_(*by)))
    return And_(*fs)


def is_name(x, k):
    """The text contains the name k."""
    if isinstance(x, Text):
        x = x.value
    if not is_z3(x):
        return False
    if x.eq(k):
        return True
    if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
        return any(is_name(y, k) for y in x.children())
    return is_pv(x) and x.decl().eq(PV.str) and is_name(x.arg(0), k)


def exists(I, f):
    k = I.facts.fresh("some", STR)
    I.facts.gens.append(k)
    try:
        g = f(k)
    finally:
        I.facts.gens.pop()
    return I.exists(k, g, "spec")


def kept(I, e, c):
    """No entry changes; the protection ends as it was, or on."""
    s = c.s
    q = I.facts.fresh("other_entry", STR)
    return And_(
        Imp_(Not_(z3.PrefixOf(lit("_"), q)), s.unchanged(e.state, q)),
        guarded(I, s, e.state),
        *[s.unchanged(e.state, x) for x in ("_convention", "_custom",
                                            "_read_only_attr")],
        s.map_same(s.conv_ref, e.state), s.map_same(s.cust_ref, e.state))


def guarded(I, s, st):
    """A protected object is still protected."""
    h, v = s.now(st, "_protected")
    return And_(h, Imp_(s.P, I.L.equal(I, v, True, strict=True)))


def run(p, name, params, outs, clauses, setup=Checked, label=None,
        havoc=False):
    f = p.mods.find(S + "verify")
    clauses = [c for c in clauses if p.only is None or c[0] in p.only]
    if not clauses:
        return
    try:
        if f is None:
            raise Unsupported("no method verify()")
        g = segment(f, name, params, outs)
    except Unsupported as ex:
        for c in clauses:
            p.add(f"verify() {name}: {c[0]}", "unknown", str(ex))
        return

    def start(I):
        c = setup(I)
        return c.args(params), {}, c
    p.run(g, start, clauses, label=f"verify() {label or name}", havoc=havoc)


# ---------------------------------------------------------------- sections
def text_clauses(bad, warn=False, names=True):
    """The section adds an error iff there is a bad entry, and names it."""
    def error(I, e, c):
        r = added(out(e, 0), c.err)
        return Iff_(present(r), exists(I, lambda k: bad(I, c, k)))

    def named(I, e, c):
        return names_exactly(I, added(out(e, 0), c.err),
                             lambda k: bad(I, c, k))
    cl = [("an error is added iff some entry has the problem", error,
           reached)]
    if names:
        cl.append(("the error names every entry with the problem and no "
                   "other", named, reached))
    return cl


def no_exception(I, e, c):
    return False


def raises(e):
    return e.kind == "raise"


NAMES = ["self", "error_msg", "keys"]
KEPT = ("the entries, their registration and the protection are kept", kept)
NO_EXCEPTION = ("no exception is raised", no_exception, raises)


def attribute(c, k):
    return c.s.conv.type(k) == lit("attribute")


def orphan(I, c, k):
    """Attribute of a variable that does not exist."""
    us = lit("_")
    I.L.s_count(I, k, "_")
    I.L.s_split_facts(I, k, "_")
    return And_(c.K(k), attribute(c, k), I.L.F_count(k, us) != 0,
                Not_(z3.PrefixOf(lit("GLOBAL_"), k)),
                Not_(c.s.conv.has(I.L.F_stem(k, us))))


def no_underscore(I, c, k):
    return And_(c.K(k), attribute(c, k), Not_(z3.Contains(k, lit("_"))))


def underscore(I, c, k):
    d = lit("Data_")
    rest = If_(z3.PrefixOf(d, k), z3.SubString(k, 5, z3.Length(k) - 5), k)
    return And_(c.K(k), Not_(attribute(c, k)), z3.Contains(rest, lit("_")))


def reserved(I, c, k):
    g = z3.PrefixOf(lit("GLOBAL"), k)
    return And_(c.K(k), Or_(
        z3.PrefixOf(lit("PRIVATE"), k), z3.PrefixOf(lit("API"), k),
        And_(g, Or_(Not_(z3.PrefixOf(lit("GLOBAL_"), k)),
                    Not_(attribute(c, k))))))


def names(p):
    for name, bad in (("orphans", orphan), ("attributes", no_underscore),
                      ("variables", underscore), ("reserved", reserved)):
        run(p, name, NAMES, ["error_msg"], text_clauses(bad) + [
            KEPT, NO_EXCEPTION])


# --------------------------------------------------------------- data types
def wrong_type(I, c, k):
    """The value does not have the data type of the convention."""
    g, t = c.s.G(k), c.s.conv.type(k)
    a, x = PV.a(g), PV.n(g)
    num = lambda kind: Or_(kind == lit("i"), kind == lit("f"))  # noqa: E731
    number = Or_(PV.is_int(g), PV.is_bool(g), PV.is_flt(g), And_(
        PV.is_arr(g), num(N.F_kind(a))), And_(PV.is_npnum(g), num(
            N.F_nkind(x))))
    text = Or_(PV.is_str(g), And_(PV.is_arr(g), N.F_kind(a) == lit("U")))
    return And_(c.K(k), Not_(If_(t == lit("attribute"), PV.is_str(g), If_(
        t == lit("double"), number, text))))


def says(r, phrase):
    """The text contains the phrase (in one of its constant parts)."""
    if not isinstance(r, Rope):
        return phrase in (const_str(r) or "")
    return Or_(*[And_(g, says(x, phrase)) for g, x in r.parts])


def text_in(v):
    """The rope in a returned value or exception."""
    if isinstance(v, Exc):
        v = v.args[0] if v.args else ""
    if isinstance(v, Text):
        v = v.value
    if isinstance(v, U):
        ts = [(g, text_in(x)) for g, x in v.cases]
        return Rope([(g, x) for g, x in ts if x is not None])
    if isinstance(v, str):
        return Rope([(True, v)])
    return v if isinstance(v, Rope) else None


def types(p):
    T = lambda I, c: exists(I, lambda k: wrong_type(I, c, k))  # noqa: E731

    def left(I, e, c):
        bad = Or_(c.E, T(I, c))
        if reached(e):
            return Or_(c.ih == lit("ignore"), Not_(bad))
        if e.kind == "return":
            return And_(bad, c.ih != lit("ignore"), c.ih != lit("raise"),
                        Iff_(c.ih == lit("print"), e.value is None))
        return And_(bad, c.ih == lit("raise"), e.value.name == "ValueError")

    def named(I, e, c):
        r = text_in(out(e, 0) if reached(e) else e.value)
        if r is None:
            r = shown(I, e)
        return And_(names_exactly(I, r, lambda k: wrong_type(I, c, k)),
                    Iff_(says(r, "data of wrong type"), T(I, c)))
    run(p, "types", ["self", "error_msg", "warning_msg", "issue_handling",
                     "keys"], ["error_msg"], [
        ("checking ends here iff there are errors and the mode is not "
         "ignore; as an exception iff the mode is raise", left),
        ("the error names every entry of wrong type and no other", named),
        KEPT])


def shown(I, e):
    """What was printed."""
    return Rope([(g, text_in(a[0])) for g, t, a in io_events(I, e.state)
                 if t == "print"])


# ----------------------------------------------------------- mandatory data
def missing(p):
    def start(I):
        s = Sofa(I, I.mods)
        r = Reset(I, s)
        r.use()
        ih = z3.Const("handling", STR)
        return s, r, ih

    def lacks(c, k):
        s, r, ih = c
        return And_(r.T.has(k), r.T.mandatory(k), Not_(s.H(k)))

    def error(I, e, c):
        ex = exists(I, lambda k: lacks(c, k))
        raise_ = c[2] == lit("raise")
        err, warn = (added(out(e, i), Rope([(True, x)])) for i, x in (
            (0, ERR0), (1, WARN0)))
        return And_(Iff_(present(err), And_(ex, raise_)),
                    Iff_(present(warn), And_(ex, Not_(raise_))))

    def named(I, e, c):
        raise_ = c[2] == lit("raise")
        err, warn = (added(out(e, i), Rope([(True, x)])) for i, x in (
            (0, ERR0), (1, WARN0)))
        return And_(
            Imp_(raise_, names_exactly(I, err, lambda k: lacks(c, k))),
            Imp_(Not_(raise_), names_exactly(I, warn, lambda k: lacks(c, k))))

    def entries(I, e, c):
        s, r, ih = c
        k = I.facts.fresh("any_entry", STR)
        I.assume(entry_name(I, k))
        h, v = s.now(I.st, k)
        new = And_(lacks(c, k), ih != lit("raise"))
        return Imp_(entry_name(I, k), And_(
            Iff_(h, Or_(s.H(k), new)), Imp_(s.H(k), s.unchanged(e.state, k)),
            Imp_(new, default_value(I, box(v), r.T.default(k)))))

    def state(I, e, c):
        s, r, ih = c
        k = I.facts.fresh("checked_entry", STR)
        h, v = s.now(e.state, "_convention")
        return And_(h, isinstance(v, Ref) and v.oid == r.ref.oid, guarded(
            I, s, e.state), Imp_(entry_name(I, k), Iff_(I.L.contains(
                I, out(e, 2), k), s.H(k))))

    def refused(I, e, c):
        s, r, ih = c
        return And_(Not_(r.good), e.value.name == "ValueError",
                    s.untouched(e.state))
    run(p, "missing", ["self", "issue_handling"],
        ["error_msg", "warning_msg", "keys"], [
        ("an error (a warning) is given iff mandatory data are missing in "
         "mode raise (another mode)", error, reached),
        ("it names every missing mandatory entry and no other", named,
         reached),
        ("exactly the missing mandatory entries are added, with their "
         "defaults, except in mode raise", entries, reached),
        ("the convention is up to date, a protected object protected, and "
         "the entries to be checked are those of the object", state, reached),
        ("an exception means that the convention does not exist", refused,
         raises)], setup=lambda I: Missing(start(I)))


class Missing(tuple):
    def args(self, names):
        return [{"self": self[0].ref, "issue_handling": self[2]}[n]
                for n in names]


def entry_name(I, k):
    from .props import is_name as f
    return f(I, k)


# -------------------------------------------------------------- custom names
def strip(I, k):
    """The name without the prefix of global attributes."""
    return I.L.str_method(I, k, "replace", [lit("GLOBAL_"), lit("")], {})


def custom(p):
    def start(I):
        c = Checked(I)
        s = c.s
        c.cat = Catalogue(I, s)
        c.cat.use()
        c.c, c.v = PV.s(s.G(lit(GC))), PV.s(s.G(lit(GV)))
        # (the convention was loaded before)
        I.assume(s.H(lit(GC)), s.H(lit(GV)), PV.is_str(s.G(lit(GC))),
                 PV.is_str(s.G(lit(GV))), c.cat.exists(c.c, c.v))
        return c

    def bad(I, c, k):
        s = c.s
        return And_(s.HC, s.cust.has(k), exists(I, lambda n: And_(
            c.cat.has(c.c, c.v, n), strip(I, n) == strip(I, k))))
    run(p, "custom", NAMES, ["error_msg"], text_clauses(bad) + [
        KEPT, NO_EXCEPTION], start)


# --------------------------------------------------------------------- units
def units(p):
    def lower(I, c, k):
        """Unit with upper case letters."""
        s = c.s
        u = PV.s(s.G(k))
        return And_(s.H(k), Not_(z3.PrefixOf(lit("_"), k)), z3.SuffixOf(lit("_Units"), k),
                    I.L.s_lower(I, u) != u)

    def error(I, e, c):
        r = added(out(e, 0), c.err)
        bad = And_(c.mode == lit("write"), exists(
            I, lambda k: lower(I, c, k)))
        return Iff_(present(r), Or_(c.C, bad))

    def named(I, e, c):
        return names_exactly(I, added(out(e, 0), c.err), lambda k: And_(
            c.mode == lit("write"), lower(I, c, k)))
    run(p, "units", ["self", "error_msg", "current_error", "mode"],
        ["error_msg"], [
        ("an error is added iff there are other violations, or when writing "
         "a unit has upper case letters", error, reached),
        ("it names every such unit and no other", named, reached), KEPT,
        NO_EXCEPTION], Units)


class Units(Checked):
    """Units are text (checked with the data types)."""

    def value_facts(self, k):
        super().value_facts(k)
        self.I.facts.fact(Imp_(And_(self.s.H(k), z3.SuffixOf(
            lit("_Units"), k)), PV.is_str(self.s.G(k))))


# --------------------------------------------------------------------- sizes
def nd_newaxis_contract(I, array, ndim):
    """The contract that C10 proves of _nd_newaxis."""
    from .props import trailing
    if not isinstance(ndim, int):
        raise Unsupported("number of dimensions")
    a = N.convert(I, array)
    r = N.derived(I, "nd_newaxis", a)
    I.facts.fact(trailing(None, r, a, ndim))
    return r


def sizes(p):
    def start(I):
        from .props import atleast_nd_contract, UT
        c = Checked(I)
        I.contracts[UT + "_nd_newaxis"] = nd_newaxis_contract
        I.contracts[UT + "_atleast_nd"] = atleast_nd_contract
        return c
    run(p, "sizes", ["self"], ["keys"], [
        KEPT, NO_EXCEPTION], start)


# --------------------------------------------------------------------- rules
def shapes(p):
    """(only the frame: the comparison of shapes is abstracted)"""
    def start(I):
        from .props import atleast_nd_contract, UT
        c = Checked(I)
        I.contracts[UT + "_atleast_nd"] = atleast_nd_contract
        I.assume(c.s.HA)
        return c
    run(p, "shapes", ["self", "error_msg", "keys"], ["error_msg"], [KEPT],
        start, havoc=True)


class Rules:
    """The rules of the installed conventions (format of rules.json)."""

    def __init__(self, I):
        self.I = I
        F = lambda n, *a: z3.Function("rule_" + n, *a)  # noqa: E731
        S_ = STR
        self.has, self.free = F("for", S_, BOOL), F("free", S_, BOOL)
        self.allowed = F("allowed", S_, S_, BOOL)
        self.general = F("general", S_, BOOL)
        self.needs = F("needs", S_, S_, BOOL)
        self.specific = F("specific", S_, BOOL)
        self.on = F("on", S_, S_, BOOL)
        self.then = F("then", S_, S_, S_, BOOL)
        self.then_free = F("then_free", S_, S_, S_, BOOL)
        self.then_allowed = F("then_allowed", S_, S_, S_, S_, BOOL)
        self.dim = F("dim", S_, S_, S_, BOOL)
        self.size = F("size", S_, S_, S_, INT, BOOL)
        self.verbose = F("verbose", S_, S_, S_, S_)
        self.ref = self.map(self.has, self.rule)
        self.unit_ok = z3.Function("unit_ok_for", S_, S_, BOOL)
        I.contracts[S + "_verification_rules"] = self.load
        I.contracts[S + "_verify_value"] = self.verify_value
        I.trusted.add("format of the rules (rules.json): checked values are "
                      "text, dimensions of rules have a size")

    def load(self, I):
        other = [I.new("map", base=MapBase(
            z3.Function(n, STR, BOOL), z3.Function(n + "_of", STR, STR), STR,
            n)) for n in ("alias", "deprecations", "upgrades")]
        return Tup([self.ref] + other)

    def map(self, has, get):
        return self.I.new("map", base=MapBase(
            lambda k: has(lit(k)), lambda k: get(lit(k)), STR, "rules"))

    def list(self, has, sort=STR):
        k = z3.Const(f"rv!{next(self.I.facts.count)}", sort)
        return self.I.new("list", log=[Comp(k, has(k), [Elem(True, k)])],
                          meta={"allowed": has})

    def rule(self, k):
        return Rec({
            "value": merge(self.free(k), None, self.list(
                lambda x: self.allowed(k, x))),
            "general": self.list(lambda x: self.needs(k, x)),
            "specific": self.map(lambda t: self.on(k, t),
                                 lambda t: self.case(k, t))},
            {"general": self.general(k), "specific": self.specific(k)})

    def case(self, k, t):
        return self.map(lambda d: self.then(k, t, d), lambda d: merge(
            z3.simplify(d == lit("_dimensions")), self.map(
                lambda n: self.dim(k, t, n), lambda n: Rec({
                    "value": self.list(lambda x: self.size(k, t, n, x), INT),
                    "value_str": self.verbose(k, t, n)})),
            merge(self.then_free(k, t, d), None, self.list(
                lambda x: self.then_allowed(k, t, d, x)))))

    def accepted(self, I, x, name, free, allowed):
        """(contract of _verify_value, proved in C11)"""
        t = PV.s(x)
        low = I.L.s_lower(I, t)
        sensitive = Or_(name == lit("GLOBAL_DataType"),
                        name == lit("GLOBAL_SOFAConventions"))
        return Or_(free, allowed(t), And_(Not_(sensitive), Or_(
            allowed(low), And_(z3.SuffixOf(lit("Units"), name),
                               self.unit(I, low, allowed)))))

    def unit(self, I, low, allowed):
        """The unit has the meaning of the allowed one."""
        k = z3.Const("unit!any", STR)
        e = allowed(k)
        f = z3.Function("unit_ok_" + str(e.decl()), *[
            a.sort() for a in e.children()[:-1]], STR, BOOL)
        return f(*e.children()[:-1], low)

    def verify_value(self, I, test, ref, unit_aliases, key):
        def f(test, ref):
            if ref is None:
                return True
            x = box(test)
            if x is None or not isinstance(ref, Ref) or "allowed" not in \
                    I.obj(ref).meta:
                if not I.possible_deep(I.st, ()):
                    raise Dead()
                raise Unsupported(f"_verify_value of {test}, {ref}")
            I.raise_if(Not_(PV.is_str(x)), "TypeError", "")
            return self.accepted(I, x, I.L.as_str(I, key), False,
                                 I.obj(ref).meta["allowed"])
        return I.lift(f, test, ref)


def sofar_name(I, k):
    for sep in ".:":
        k = I.L.str_method(I, k, "replace", [lit(sep), lit("_")], {})
    return k


COORDINATES = ("cartesian", "spherical", "spherical harmonics")


class Ruled(Checked):
    """Values under rules are text, names in the rules are entry names."""

    def __init__(self, I):
        super().__init__(I)
        s, self.R = self.s, Rules(I)
        I.assume(s.HA)

    def value_facts(self, k):
        super().value_facts(k)


def nested_lines(r, at, g=True, depth=0, o=None):
    """{depth of loops: [(guard, first content)]} for the elements `at`."""
    o = {} if o is None else o
    for h, x in r.parts:
        if isinstance(x, LoopText):
            if depth < len(at):
                p = [(x.gen, at[depth])]
                nested_lines(subst(x.body, p), at, And_(g, h, subst(
                    x.dom, p)), depth + 1, o)
        elif isinstance(x, Rope):
            nested_lines(x, at, And_(g, h), depth, o)
        else:
            o.setdefault(depth, []).append((And_(g, h), x))
    return o


def rules(p):
    def start(I):
        c = Ruled(I)
        R, s = c.R, c.s
        k, t, d, n = (z3.Const(f"rule_{x}", STR) for x in "ktdn")
        text = lambda x: And_(  # noqa: E731
            entry_name(I, x), Imp_(s.H(x), PV.is_str(s.G(x))))
        name = {id(x): sofar_name(I, x) for x in (k, d)}
        I.facts.fact(Imp_(R.has(k), text(name[id(k)])), (k,))
        I.facts.fact(Imp_(And_(R.has(k), R.general(k), R.needs(k, d)),
                          entry_name(I, name[id(d)])), (k, d))
        I.facts.fact(Imp_(And_(R.has(k), R.specific(k), R.on(k, t), R.then(
            k, t, d), d != lit("_dimensions")), text(name[id(d)])), (k, t, d))
        I.facts.fact(Imp_(R.dim(k, t, n), s.api_has(n)), (k, t, n))
        return c

    def lowered(I, c, x):
        low = I.L.s_lower(I, x)
        return If_(Or_(*[low == lit(z) for z in COORDINATES]), low, x)

    def kinds(I, c, k):
        """Violations of the rule k: of its value, by a dependency d, by
        the size of a dimension x."""
        s, R = c.s, c.R
        n = sofar_name(I, k)
        v = s.G(n)
        t = lowered(I, c, PV.s(v))
        on = And_(R.has(k), s.H(n))
        case = And_(on, R.specific(k), R.on(k, t))

        def missing(d):
            return And_(on, R.general(k), R.needs(k, d), Not_(s.H(
                sofar_name(I, d))))

        def specific(d):
            m = sofar_name(I, d)
            return And_(case, R.then(k, t, d), d != lit("_dimensions"), Or_(
                Not_(s.H(m)), Not_(R.accepted(
                    I, s.G(m), m, R.then_free(k, t, d),
                    lambda x: R.then_allowed(k, t, d, x)))))

        def dimension(x):
            return And_(case, R.then(k, t, lit("_dimensions")), R.dim(
                k, t, x), Not_(R.size(k, t, x, s.api_size(x))))
        return And_(on, Not_(R.accepted(
            I, v, n, R.free(k), lambda x: R.allowed(k, x)))), missing, \
            specific, dimension

    def violated(I, c, k):
        value, missing, specific, dimension = kinds(I, c, k)
        return Or_(value, *[exists(I, f) for f in (
            missing, specific, dimension)])

    def error(I, e, c):
        r = out(e, 0)
        return Iff_(present(r), exists(I, lambda k: violated(I, c, k)))

    def lines(which):
        def f(I, e, c):
            k, d = (I.facts.fresh(n, STR) for n in "kd")
            value, missing, specific, dimension = kinds(I, c, k)
            at = [k, d] if which < 3 else [k, lit("_dimensions"), d]
            name = d if which == 3 else sofar_name(I, [0, k, d][which])
            by = nested_lines(out(e, 0), at)
            named = Or_(*[g for g, t in by.get(which, ()) if is_name(
                t, name)])
            return Iff_(named, [None, value, Or_(missing(d), specific(d)),
                                dimension(d)][which])
        return f
    run(p, "rules", ["self", "mode"], ["current_error"], [
        ("a violation is found iff some rule is violated", error, reached),
        ("the report has a line for every invalid value and no other",
         lines(1), reached),
        ("the report has a line for every entry that is missing or invalid "
         "because of another one, and no other", lines(2), reached),
        ("the report has a line for every dimension of invalid size and no "
         "other", lines(3), reached),
        KEPT, NO_EXCEPTION], start)


# --------------------------------------------- deprecated, preliminary, result
class Named(Checked):
    """The convention and its version are text, the version a number."""

    def __init__(self, I):
        super().__init__(I)
        s = self.s
        self.name, self.version = PV.s(s.G(lit(GC))), PV.s(s.G(lit(GV)))
        I.assume(s.H(lit(GC)), s.H(lit(GV)), PV.is_str(s.G(lit(GC))),
                 PV.is_str(s.G(lit(GV))), I.L.F_isfloat(self.version))
        self.old = z3.Function("deprecated", STR, BOOL)
        self.new = z3.Function("upgrade", STR, STR)
        self.depr = I.new("map", log=[SetOp(
            True, "GLOBAL:SOFAConventions", I.new("map", base=MapBase(
                self.old, self.new, STR, "deprecated")))])

    def args(self, names):
        return [self.depr if n == "deprecations" else
                super(Named, self).args([n])[0] for n in names]


def deprecated(p):
    def report(I, e, c):
        old, write = c.old(c.name), c.mode == lit("write")
        err, warn = added(out(e, 0), c.err), added(out(e, 1), c.warn)
        return And_(Iff_(present(err), And_(old, write)),
                    Iff_(present(warn), And_(old, Not_(write))))

    def named(I, e, c):
        err, warn = added(out(e, 0), c.err), added(out(e, 1), c.warn)
        return And_(*[Imp_(present(r), Or_(*[And_(g, contains_text(x, y))
                                             for g, x in r.parts]))
                      for r in (err, warn) for y in (
                          c.name, c.new(c.name))])
    run(p, "deprecated", ["self", "error_msg", "warning_msg", "deprecations",
                          "mode"], ["error_msg", "warning_msg"], [
        ("a deprecated convention is an error when writing and a warning "
         "otherwise", report, reached),
        ("the report names the convention and its successor", named, reached),
        KEPT, NO_EXCEPTION], Named)


def contains_text(x, y):
    if isinstance(x, Text):
        x = x.value
    return is_z3(x) and (x.eq(y) or (is_pv(x) and PV.s(x).eq(y)) or (
        z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT) and any(
            contains_text(z, y) for z in x.children())))


def preliminary(p):
    def report(I, e, c):
        r = added(out(e, 0), c.warn)
        return Iff_(present(r), I.L.F_float(c.version) < 1)
    run(p, "preliminary", ["self", "error_msg", "warning_msg"],
        ["warning_msg"], [
        ("a version below 1 is a warning", report, reached), KEPT,
        NO_EXCEPTION], Named)


def result(p):
    def outcome(I, e, c):
        err, warn = c.E, c.W
        m = lambda x: c.ih == lit(x)  # noqa: E731
        if e.kind == "raise":
            return And_(m("raise"), err, e.value.name == "ValueError",
                        same_text(I, e.value, c.err))
        v = e.value
        return And_(Not_(And_(m("raise"), err)), Imp_(
            Not_(m("return")), I.L.equal(I, v, None, strict=True)),
            Imp_(m("return"), returned_text(I, c, v)))

    def shown_(I, e, c):
        st = e.state
        m = lambda x: c.ih == lit(x)  # noqa: E731
        return And_(
            Iff_(io_flag(I, st, "warn", lambda a: same_text(I, a[0], c.warn)),
                 And_(c.W, m("raise"))),
            Iff_(io_flag(I, st, "warn"), And_(c.W, m("raise"))),
            Iff_(io_flag(I, st, "print", lambda a: same_text(
                I, a[0], c.warn)), And_(c.W, m("print"))),
            Iff_(io_flag(I, st, "print", lambda a: same_text(
                I, a[0], c.err)), And_(c.E, m("print"))),
            Iff_(io_flag(I, st, "print"), And_(m("print"), Or_(c.E, c.W))))
    run(p, "result", ["self", "error_msg", "warning_msg", "issue_handling"],
        [], [
        ("errors are raised, returned or ignored as the mode says", outcome),
        ("warnings are issued, and both are printed, as the mode says",
         shown_), KEPT])


def returned_text(I, c, v):
    if v is None:
        return Not_(Or_(c.E, c.W))
    none, text = I.L.equal(I, v, None, strict=True), Issues_text(c)
    return And_(Iff_(none, Not_(Or_(c.E, c.W))), same_text(
        I, without_none(v), text))


def without_none(v):
    if isinstance(v, U):
        return U([(g, x) for g, x in v.cases if x is not None])
    return "" if v is None else v


def flat(x, g=True):
    if isinstance(x, Text):
        x = x.value
    if isinstance(x, Exc):
        x = x.args[0] if len(x.args) == 1 else None
    if isinstance(x, U):
        return [y for h, v in x.cases for y in flat(v, And_(g, h))]
    if isinstance(x, Rope):
        return [y for h, v in x.parts for y in flat(v, And_(g, h))]
    return [(g, x)] if const_str(x) != "" else []


def same_text(I, a, b):
    """The texts have the same parts, under the same conditions."""
    a = [x for x in flat(a) if x[0] is not False]
    b = [x for x in flat(b) if x[0] is not False]
    if a and b and a[0][0] is True and b[0][0] is True and const_str(
            a[0][1]) and const_str(b[0][1]) and a[0][1][:3] != b[0][1][:3]:
        return False
    if len(a) != len(b):
        raise Unsupported("comparison of texts")
    out = []
    for (g, x), (h, y) in zip(a, b):
        if not (x is y or (is_z3(x) and is_z3(y) and x.eq(y)) or (
                const_str(x) is not None and const_str(x) == const_str(y))):
            raise Unsupported("comparison of texts")
        out.append(Iff_(g, h))
    return And_(*out)


def Issues_text(c):
    text = Rope([(And_(c.E, g), x) for g, x in c.err.parts] +
                [(And_(c.E, c.W), "\n")] +
                [(And_(c.W, g), x) for g, x in c.warn.parts])
    return text


# -------------------------------------------------------------- whole method
SECTIONS = ("missing", "types", "orphans", "attributes", "variables",
            "reserved", "custom", "sizes", "shapes", "rules", "units",
            "deprecated", "preliminary", "result")


MISSING = {
    "exactly the missing mandatory entries are added, with their "
    "defaults, except in mode raise",
    "the convention is up to date, a protected object protected, and "
    "the entries to be checked are those of the object",
    "an exception means that the convention does not exist"}


def keeping(p):
    """No section changes an entry (C15) or ends unprotected (C03)."""
    p.only = {KEPT[0]} | MISSING
    try:
        for f in (missing, types, names, custom, sizes, shapes, rules, units,
                  deprecated, preliminary, result):
            f(p)
    finally:
        p.only = None
