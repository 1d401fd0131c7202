"""Contract of equals() (C21)."""
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, lit, PV, STR, BOOL, INT,
                   Unsupported, is_bool)
from .model import Sofa
from . import nump as N


def data(I, s):
    """Precondition: valid objects. Every entry is registered, attributes are
    text, variables arrays or numbers, strings arrays of text or text."""
    from .props import known_entries
    known_entries(I, s)
    k = z3.Const("ek!0", STR)
    v, t = s.G(k), s.conv.type(k)
    a = PV.a(v)
    text = Or_(PV.is_str(v), And_(PV.is_arr(v), N.F_kind(a) == lit("U")))
    num = Or_(PV.is_arr(v), PV.is_npnum(v), PV.is_int(v), PV.is_flt(v))
    I.facts.fact(Imp_(And_(s.H(k), Not_(z3.PrefixOf(lit("_"), k))), And_(
        Imp_(t == lit("attribute"), PV.is_str(v)),
        Imp_(t == lit("double"), num),
        Imp_(t == lit("string"), text))), (k,))


def setup(I, case):
    a, b = Sofa(I, I.mods, "a"), Sofa(I, I.mods, "b")
    data(I, a)
    data(I, b)
    verbose = z3.Const("verbose", BOOL)
    ex = z3.Const("exclude", PV)
    u = I.L.s_upper(I, PV.s(ex))
    if case is None:
        I.assume(PV.is_none(ex))
    elif case == "other":
        I.assume(PV.is_str(ex), *[u != lit(x) for x in (
            "GLOBAL", "ATTR", "DATE")])
    else:
        I.assume(PV.is_str(ex), u == lit(case))
    return [a.ref, b.ref, verbose, ex], {}, (a, b, verbose, ex)


def known(I, ex):
    u = I.L.s_upper(I, PV.s(ex))
    return Or_(PV.is_none(ex), *[u == lit(x) for x in (
        "GLOBAL", "ATTR", "DATE")])


def compared(I, s, ex, k):
    """Entry k of the object takes part in the comparison."""
    u = I.L.s_upper(I, PV.s(ex))
    by = lambda x: And_(PV.is_str(ex), u == lit(x))  # noqa: E731
    return And_(s.H(k), Not_(z3.PrefixOf(lit("_"), k)),
                Imp_(by("GLOBAL"), Not_(z3.PrefixOf(lit("GLOBAL_"), k))),
                Imp_(by("ATTR"), s.conv.type(k) != lit("attribute")),
                Imp_(by("DATE"), Not_(z3.Contains(k, lit("Date")))))


def agree(I, a, b, k):
    """Entry k has the same type and value."""
    x, y, t = a.G(k), b.G(k), a.conv.type(k)
    p, q = N.squeezed(I, N.asarray(I, x)), N.squeezed(I, N.asarray(I, y))
    return And_(
        t == b.conv.type(k),
        Imp_(t == lit("attribute"), x == y),
        Imp_(t != lit("attribute"), N.same_shape(I, p, q)),
        Imp_(t == lit("double"), N.F_close(p, q)),
        Imp_(t == lit("string"), N.F_same_text(p, q)))


def true(I, e):
    return I.L.equal(I, e.value, True)


ret = lambda e: e.kind == "return"  # noqa: E731


def C21(p):
    from .props import exc

    def raises(I, e, c):
        a, b, verbose, ex = c
        return And_(e.value.name == "ValueError", Not_(known(I, ex)))

    def accepted(I, e, c):
        a, b, verbose, ex = c
        return And_(known(I, ex), Or_(true(I, e), I.L.equal(
            I, e.value, False)))

    def identical(I, e, c):
        a, b, verbose, ex = c
        k = I.facts.fresh("any_entry", STR)
        ca, cb = compared(I, a, ex, k), compared(I, b, ex, k)
        return Imp_(true(I, e), And_(Iff_(ca, cb), Imp_(
            ca, agree(I, a, b, k))))

    def different(I, e, c):
        """False is returned only if something differs: assume that nothing
        does."""
        a, b, verbose, ex = c
        k = z3.Const("dk!0", STR)
        ca, cb = compared(I, a, ex, k), compared(I, b, ex, k)
        I.forall_here(k, And_(Iff_(ca, cb), Imp_(ca, agree(
            I, a, b, k))))
        return true(I, e)

    def warned(I, e, c):
        from .props import flat_events
        a, b, verbose, ex = c
        ws = flat_events(I, e.state, "warn")
        out = []
        for binders, g, _, _ in ws:
            out.append(Imp_(g, And_(verbose, Not_(true(I, e)))))
        return And_(*out)

    def kept(I, e, c):
        a, b, verbose, ex = c
        return And_(a.untouched(e.state), b.untouched(e.state))
    clauses = [
        ("only an unknown exclusion raises, a ValueError", raises,
         lambda e: e.kind == "raise"),
        ("the result is True or False", accepted, ret),
        ("True: the same entries are compared in both objects, and agree in "
         "type, shape, and value", identical, ret),
        ("False: something differs", different, ret),
        ("a warning is shown only if the objects differ and it is wanted",
         warned, ret),
        ("neither object is changed", kept)]
    for case, label in ((None, "nothing excluded"),
                        ("GLOBAL", "global attributes excluded"),
                        ("ATTR", "attributes excluded"),
                        ("DATE", "dates excluded"),
                        ("other", "unknown exclusion")):
        cl = clauses if case != "other" else [
            ("a ValueError is raised, nothing else happens",
             lambda I, e, c: And_(exc(e, "ValueError"), kept(I, e, c)))]
        p.run("sofar.utils.equals", lambda I, case=case: setup(I, case), cl,
              label=f"utils.equals, {label}")
