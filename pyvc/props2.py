"""Contracts: protection (C03), frames (C15), copies (C22)."""
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, If_, U, Rec,
                   Dead, Ref, MapBase, SetOp, Elem, Comp, Opaque, Undef, Tup,
                   PV, STR, INT, BOOL, ARR, Unsupported, const_str, box,
                   State, is_str)
from .model import Sofa, rec_equal
from .fs import Files

S = "sofar.sofa.Sofa."


def guarded(I, s, st):
    """A protected object is still protected."""
    h, v = s.now(st, "_protected")
    return Imp_(s.P, And_(h, I.L.equal(I, v, True, strict=True)))


def entries_kept(I, s, st):
    q = I.facts.fresh("other_entry", STR)
    return And_(Imp_(Not_(z3.PrefixOf(lit("_"), q)), s.unchanged(st, q)),
                s.unchanged(st, "_protected"),
                s.unchanged(st, "_read_only_attr"),
                s.unchanged(st, "_custom"),
                s.map_same(s.cust_ref, st))


class Verifies:
    """Contract of verify() where only its frame matters: issues may be
    raised or returned; no entry changes, except that missing mandatory ones
    may be added when they are not raised (C08); the protection is kept
    (C03)."""

    def __init__(self, I, s, adds=False):
        self.I, self.s, self.adds = I, s, adds
        I.contracts[S + "verify"] = self
        self.text = z3.Const("issues", PV)

    def __call__(self, I, obj, issue_handling="raise", mode="write"):
        I.do_io("verified", obj)
        I.raise_if(z3.Const("issues_raised", BOOL), "ValueError", "")
        I.trusted.add("frame of verify() assumed by its callers; proved "
                      "section by section (sections sizes and shapes: "
                      "bounded)")
        for n, has in (("_api", "v_api"), ("_dimensions", "v_dims")):
            I.put(obj, SetOp(z3.Const(n + "_set", BOOL), n, I.new(
                "map", base=MapBase(z3.Function(has + "_has", STR, BOOL),
                                    z3.Function(has, STR, STR if n ==
                                                "_dimensions" else INT),
                                    STR, n))))
        return None


def start(I):
    from .props import known_entries
    s = Sofa(I, I.mods)
    known_entries(I, s)
    return s


KEEPS = "no entry is changed, removed or added, and the protection is kept"
PROT = "a protected object is protected at every exit, exceptions included"


def display_setups():
    from .props import Verified

    def info(I):
        s = start(I)
        return [s.ref, z3.Const("info", STR)], {}, s

    def rep(I):
        s = start(I)
        return [s.ref], {}, s

    def inspect(I):
        s = start(I)
        Verifies(I, s)
        Files(I)
        return [s.ref, z3.Const("file", PV), z3.Const("handling", STR)], \
            {}, s

    def dims(I):
        s = start(I)
        I.contracts[S + "verify"] = Verified(I, s)
        return [s.ref], {}, s
    return (("info", info), ("__repr__", rep), ("inspect", inspect),
            ("list_dimensions", dims))


def displays(p):
    """Displaying (C15, C03)."""
    def kept(I, e, s):
        return entries_kept(I, s, e.state)

    def files(I, e, s):
        """Only the file asked for is written."""
        from .props import flat_events
        f = z3.Const("file", PV)
        return And_(*[Imp_(g, And_(Not_(PV.is_none(f)), I.L.equal(
            I, a[0], f, strict=True))) for _, g, a, _ in flat_events(
                I, e.state, "open")],
            *[Not_(g) for t in ("remove", "rename", "mkdir")
              for _, g, a, _ in flat_events(I, e.state, t)])
    for fn, setup in display_setups():
        cl = [(KEEPS, kept)]
        if fn == "inspect":
            cl.append(("no file is opened but the one that was asked for",
                       files))
        p.run(S + fn, setup, cl, havoc=True)


def protection(p):
    from .props import (setattr_setup, del_setup, add_setup, Verified,
                        write_setup, IO, Catalogue, Reset, new_object)

    def prot(I, e, c):
        s = c[0] if isinstance(c, tuple) else c
        return guarded(I, s, e.state)
    cl = [(PROT, prot)]
    p.run(S + "__setattr__", setattr_setup, cl)
    p.run(S + "__delattr__", del_setup, cl)
    p.run(S + "add_variable", add_setup(), cl)
    p.run(S + "add_attribute", add_setup("attribute"), cl)

    def missing(I):
        s = Sofa(I, I.mods)
        Reset(I, s).use()
        m, o, b = (z3.Const(n, BOOL) for n in ("mandatory", "optional",
                                               "verbose"))
        return [s.ref, m, o, b], {}, s
    p.run(S + "add_missing", missing, cl)

    def reset(I):
        s = Sofa(I, I.mods)
        Catalogue(I, s).use()
        return [s.ref], {}, s
    p.run(S + "_reset_convention", reset, cl)

    def getdim(I):
        s = start(I)
        I.contracts[S + "verify"] = Verified(I, s)
        return [s.ref, z3.Const("dimension", STR)], {}, s
    p.run(S + "get_dimension", getdim, cl)
    for fn, setup in display_setups():
        p.run(S + fn, setup, cl, havoc=True)
    p.run(IO + "write_sofa", write_setup, [(
        PROT, lambda I, e, w: guarded(I, w.s, e.state))])
    copied(p, only_protection=True)
    new_object(p, only={"the object is protected"})


# ------------------------------------------------------------------------ C22
def copied(p, only_protection=False):
    def setup(I):
        s = start(I)
        return [s.ref], {}, s

    def fresh(I, e, s):
        r = e.value
        return isinstance(r, Ref) and r.oid != s.ref.oid and \
            r.oid not in s.pre and I.obj(r).kind == "inst" and \
            I.obj(r).cls is I.obj(s.ref).cls

    def read(I, e, k):
        return I.map_read(e.value, k, e.state)

    def same(I, e, s):
        if not fresh(I, e, s):
            return False
        k = I.facts.fresh("any_entry", STR)
        h, v = read(I, e, k)
        h0, v0 = s._has(k), s._get(k)
        return Imp_(Not_(z3.PrefixOf(lit("_"), k)), And_(
            Iff_(h, h0), Imp_(h0, I.L.equal(I, v, v0, strict=True))))

    def private(I, e, s):
        if not fresh(I, e, s):
            return False
        k = I.facts.fresh("any_entry", STR)
        out = []
        for n, (h0, v0) in s.private.items():
            h, v = read(I, e, n)
            out.append(Iff_(h, h0))
            if isinstance(v0, Ref) and isinstance(v, Ref):
                if I.obj(v0).kind == "map":
                    hk, vk = I.map_read(v, k, e.state)
                    h1, v1 = I.map_read(v0, k, State((), {}, s.pre))
                    out.append(Imp_(h0, And_(Iff_(hk, h1), Imp_(
                        h1, rec_equal(I, vk, v1)))))
                else:
                    out.append(Imp_(h0, Iff_(I.L.contains(I, v, k),
                                             I.L.contains(I, v0, k))))
            elif not isinstance(v0, Ref):
                out.append(Imp_(h0, I.L.equal(I, v, v0, strict=True)))
            else:
                return False
        return And_(*out)

    def apart(I, e, s):
        """Nothing mutable is shared; arrays come out of deepcopy."""
        if not fresh(I, e, s) or I.copied.get(e.value.oid) != s.ref.oid:
            return False
        out = []
        for n in s.private:
            h, v = read(I, e, n)
            for x in ([x for _, x in v.cases] if isinstance(v, U) else [v]):
                if isinstance(x, Ref) and (x.oid in s.pre or x.oid not in
                                           I.copied):
                    return False
        # entries are what the copy contains, nothing was put over them
        return not I.log(e.value, e.state)

    def kept(I, e, s):
        return s.untouched(e.state)
    ret = lambda e: e.kind == "return"  # noqa: E731
    if only_protection:
        p.run(S + "copy", setup, [
            ("the copy of a protected object is protected", lambda I, e, s:
             And_(e.kind == "return", fresh(I, e, s) and Imp_(
                 s.P, I.L.equal(I, read(I, e, "_protected")[1], True,
                                strict=True))))])
        return
    p.run(S + "copy", setup, [
        ("a new object of the same class with the same entries and values",
         same, ret),
        ("convention, custom data, read only entries, dimensions, and "
         "protection of the copy are those of the original", private, ret),
        ("the copy shares no container and no array with the original",
         apart, ret),
        ("the original is not changed, and no exception raised",
         lambda I, e, s: And_(e.kind == "return", kept(I, e, s)))])


def C22(p):
    copied(p)


def C03(p):
    protection(p)
    from . import verify
    verify.keeping(p)
    from .upgrading import upgrade_convention, PROTECTED
    upgrade_convention(p, (PROTECTED,))
