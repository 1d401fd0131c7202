"""Symbolic objects of the package: the precondition of the contracts."""
import itertools
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, If_, U, Rec,
                   Ref, MapBase, SetOp, Elem, Comp, Opaque, Undef, PV, STR,
                   INT, BOOL, ARR, NUM, merge, const_str, merge_many,
                   box)

_n = itertools.count()


class Table:
    """A convention: functions of the entry name."""

    def __init__(self, tag):
        F = lambda n, s: z3.Function(f"{tag}_{n}", STR, s)  # noqa: E731
        self.tag = tag
        self.has, self.flags = F("has", BOOL), F("flags", PV)
        self.type, self.default = F("type", STR), F("default", PV)
        self.dimensions, self.comment = F("dimensions", PV), F("comment", PV)

    def rec(self, k):
        return Rec({"flags": self.flags(k), "dimensions": self.dimensions(k),
                    "type": self.type(k), "default": self.default(k),
                    "comment": self.comment(k)})

    def facts(self, I):
        k = z3.Const(f"tk!{next(_n)}", STR)
        I.facts.fact(And_(
            Or_(PV.is_none(self.flags(k)), PV.is_str(self.flags(k))),
            Or_(PV.is_none(self.dimensions(k)),
                PV.is_str(self.dimensions(k))),
            Iff_(self.type(k) == lit("attribute"),
                 PV.is_none(self.dimensions(k))),
            Or_(*[self.type(k) == lit(t) for t in (
                "attribute", "double", "string")]),
            Imp_(self.has(k), Not_(z3.PrefixOf(lit("_"), k)))), (k,))

    def mandatory(self, k):
        f = self.flags(k)
        return And_(PV.is_str(f), z3.Contains(PV.s(f), lit("m")))

    def read_only(self, k):
        f = self.flags(k)
        return And_(PV.is_str(f), z3.Contains(PV.s(f), lit("r")))

    def ref(self, I, at=None):
        """at(k): states what holds for the key k"""
        def f(g):
            def h(k):
                if at is not None:
                    at(lit(k))
                return g(lit(k))
            return h
        return I.new("map", base=MapBase(f(self.has), f(self.rec), STR,
                                         self.tag))


class Sofa:
    """A SOFA object in an arbitrary state, and access to its old and new
    content."""

    def __init__(self, I, mods, tag="s", protected=None, custom=None):
        self.I, self.tag = I, tag
        n = next(_n)
        self.P = z3.Const(f"{tag}_protected", BOOL) if protected is None \
            else protected
        self.H = z3.Function(f"{tag}_contained", STR, BOOL)
        self.G = z3.Function(f"{tag}_value", STR, PV)
        self.RO = z3.Function(f"{tag}_read_only", STR, BOOL)
        self.conv, self.cust = Table(f"{tag}_conv"), Table(f"{tag}_cust")
        self.HC = z3.Const(f"{tag}_has_custom", BOOL) if custom is None \
            else custom
        self.HA = z3.Const(f"{tag}_has_api", BOOL)
        self.conv.facts(I)
        self.cust.facts(I)
        self.conv_ref, self.cust_ref = self.conv.ref(I), self.cust.ref(I)
        k = z3.Const(f"rok!{n}", STR)
        self.ro_ref = I.new("list", log=[Comp(k, self.RO(k),
                                              [Elem(True, k)])])
        self.api_size = z3.Function(f"{tag}_api", STR, INT)
        self.api_has = z3.Function(f"{tag}_api_has", STR, BOOL)
        self.dims_of = z3.Function(f"{tag}_dims", STR, STR)
        self.dims_has = z3.Function(f"{tag}_dims_has", STR, BOOL)
        self.api_ref = I.new("map", base=MapBase(
            self.api_has, self.api_size, STR, "api"))
        self.dims_ref = I.new("map", base=MapBase(
            self.dims_has, self.dims_of, STR, "dims"))
        self.private = {
            "_protected": (True, self.P),
            "_read_only_attr": (True, self.ro_ref),
            "_convention": (True, self.conv_ref),
            "_custom": (self.HC, self.cust_ref),
            "_api": (self.HA, self.api_ref),
            "_dimensions": (self.HA, self.dims_ref)}
        cls = mods.find("sofar.sofa.Sofa")
        self.members = set(I.class_names(cls))
        self.ref = I.new("inst", base=MapBase(self._has, self._get, STR,
                                              "sofa"), cls=cls, name=tag)
        self.pre = dict(I.st.heap)
        # class invariant: entries are not named like members of the class,
        # private attributes are not read only
        I.facts.fact(And_(
            Imp_(Or_(self.RO(k), self.H(k), self.conv.has(k),
                     self.cust.has(k)),
                 Not_(I.is_member(cls, k))),
            Imp_(self.RO(k), Not_(z3.PrefixOf(lit("_"), k)))), (k,))

    def _has(self, k):
        c = const_str(k)
        if c is not None and c.startswith("_"):
            return self.private.get(c, (False,))[0]
        if c is not None and c in self.members:
            return False
        return self.H(lit(k))

    def _get(self, k):
        c = const_str(k)
        if c is not None and c.startswith("_"):
            if c in self.private:
                return self.private[c][1]
            return Undef(f"no {c}")
        self.at(lit(k))
        return self.G(lit(k))

    def at(self, k):
        """What holds for the entry k, where it is read."""

    # reading a state
    def now(self, st, k):
        h, v = self.I.map_read(self.ref, k, st)
        if isinstance(v, U) and const_str(k) is None:
            # (private attributes are not called like entries)
            cs = [(g, x) for g, x in v.cases if box(x) is not None or
                  self.I.feasible(st, (B(g),))]
            if cs:
                v = merge_many(cs)
        return h, v

    def unchanged(self, st, k):
        """Entry k has the value it had at the start."""
        h, v = self.now(st, k)
        h0, v0 = self._has(k), self._get(k)
        if isinstance(v, Undef) or isinstance(v0, Undef):
            return Iff_(h, h0) if h is not h0 else True
        return And_(Iff_(h, h0), Imp_(h0, self.I.L.equal(
            self.I, v, v0, strict=True)))

    def untouched(self, st):
        """Nothing was written (log unchanged) or all writes restore."""
        q = self.I.facts.fresh("anyname", STR)
        out = [Imp_(Not_(z3.PrefixOf(lit("_"), q)), self.unchanged(st, q))]
        for p in self.private:
            out.append(self.unchanged(st, p))
        for r in (self.conv_ref, self.cust_ref, self.ro_ref, self.api_ref,
                  self.dims_ref):
            if st.heap.get(r.oid, ()) != self.pre.get(r.oid, ()):
                if self.I.obj(r).kind == "map":
                    out.append(self.map_same(r, st))
                else:
                    out.append(False)
        return And_(*out)

    def map_same(self, ref, st, q=None):
        q = q if q is not None else self.I.facts.fresh("anykey", STR)
        from .core import State
        h, v = self.I.map_read(ref, q, st)
        h0, v0 = self.I.map_read(ref, q, State((), {}, self.pre))
        if isinstance(v, Undef) or isinstance(v0, Undef):
            return Iff_(h, h0)
        return And_(Iff_(h, h0), Imp_(h0, rec_equal(self.I, v, v0)))

    def protected(self, st):
        h, v = self.now(st, "_protected")
        return v


def rec_equal(I, a, b):
    if isinstance(a, U):
        return And_(*[Imp_(g, rec_equal(I, x, b)) for g, x in a.cases])
    if isinstance(b, U):
        return And_(*[Imp_(g, rec_equal(I, a, x)) for g, x in b.cases])
    if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
        return True
    ra, rb = as_rec(I, a), as_rec(I, b)
    if ra is not None and rb is not None:
        if set(ra) != set(rb):
            return False
        return And_(*[I.L.equal(I, ra[k], rb[k], strict=True) for k in ra])
    return I.L.equal(I, a, b, strict=True)


def as_rec(I, v):
    if isinstance(v, Rec) and not v.has:
        return v.fields
    if isinstance(v, Ref) and I.obj(v).kind == "map":
        out = {}
        for op in I.log(v):
            if not (isinstance(op, SetOp) and op.g is True and
                    const_str(op.key) is not None):
                return None
            out[const_str(op.key)] = op.val
        return out
    return None


def rec_is(I, v, **fields):
    """The record (in any representation) has exactly these fields."""
    if isinstance(v, U):
        return And_(*[Imp_(g, rec_is(I, x, **fields)) for g, x in v.cases])
    r = as_rec(I, v)
    if r is None or set(r) != set(fields):
        return False
    return And_(*[I.L.equal(I, r[k], x, strict=True)
                  for k, x in fields.items()])
