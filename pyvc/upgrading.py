"""Contract of upgrade_convention (C23, C03)."""
import z3
from .core import (Fill, And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, If_, U, Rec,
                   Ref, MapBase, SetOp, Elem, Comp, Opaque, Tup, PV, STR, INT,
                   BOOL, ARR, Unsupported, const_str, box, merge, is_str,
                   merge_many)
from .model import Sofa, rec_equal
from . import nump as N

S = "sofar.sofa.Sofa."
GC, GV = "GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"
FOUR = (GC, GV, "GLOBAL_Version", "GLOBAL_DataType")
AX, F_highest = N.AXES, N.F_highest


class Upgrades:
    """deprecations.json and upgrade.json, in their documented format."""

    def __init__(self, I, s, cat):
        self.I, self.s, self.cat = I, s, cat
        self.used = []      # rules that were looked up
        F = lambda n, *a: z3.Function("up_" + n, *a)  # noqa: E731
        T = STR
        self.old, self.new = F("old", T, BOOL), F("new", T, T)
        self.listed, self.count = F("listed", T, BOOL), F("count", T, INT)
        self.version = F("version", T, INT, T, BOOL)
        self.target = F("target", T, INT, T, BOOL)
        self.id = F("id", T, INT, T)
        self.move = F("move", T, T, T, BOOL)
        self.to = F("to", T, T, T, T)
        self.moves_axis = F("moves_axis", T, T, T, BOOL)
        self.axis = F("axis", T, T, T, AX)
        self.has_dims = F("has_dims", T, T, T, BOOL)
        self.dims = F("dims", T, T, T, T, BOOL)
        self.remove = F("remove", T, T, T, BOOL)
        self.message = F("message", T, T, PV)
        I.contracts[S + "_verification_rules"] = self.load
        I.trusted.add("format of deprecations.json and upgrade.json: each "
                      "version is listed once, targets exist, entries are "
                      "moved to different entries, which are not removed")

    # names
    def name(self, x):
        for sep in ".:":
            x = self.I.L.str_method(self.I, x, "replace",
                                    [lit(sep), lit("_")], {})
        return x

    def map(self, has, get, n):
        return self.I.new("map", base=MapBase(has, get, STR, n))

    def list(self, has, tag):
        k = z3.Const(f"ux!{next(self.I.facts.count)}", STR)
        return Opaque("frozenlist", Comp(k, has(k), [Elem(True, k)]))

    def load(self, I):
        none = self.map(lambda k: False, lambda k: None, "rules")
        self.depr = I.new("map", log=[SetOp(
            True, "GLOBAL:SOFAConventions", self.map(
                lambda k: self.old(lit(k)), lambda k: self.new(lit(k)),
                "deprecated"))])
        self.up = self.map(lambda k: self.listed(lit(k)),
                           lambda k: self.of(lit(k)), "upgrade")
        return Tup([none, none, self.depr, self.up])

    def of(self, c):
        def get(k):
            if const_str(k) == "from_to":
                return self.from_to(c)
            return self.rule(c, lit(k))
        return self.map(lambda k: True, get, "upgrades")

    def from_to(self, c):
        i = z3.Const(f"ui!{next(self.I.facts.count)}", INT)
        self.I.facts.gens.append(i)
        item = Tup([self.list(lambda x: self.version(c, i, x), "versions"),
                    self.list(lambda x: self.target(c, i, x), "targets"),
                    self.id(c, i)])
        self.I.facts.gens.pop()
        return Opaque("frozenlist", Comp(
            i, And_(i >= 0, i < self.count(c)), [Elem(True, item)]))

    def rule(self, c, d):
        self.format(c, d)
        self.used.append((c, d))
        return Rec({"move": self.map(lambda k: self.move(c, d, lit(k)),
                                     lambda k: self.item(c, d, lit(k)),
                                     "move"),
                    "remove": self.list(lambda k: self.remove(c, d, k),
                                        "remove"),
                    "message": self.message(c, d)})

    def item(self, c, d, k):
        return Rec({"target": self.to(c, d, k), "moveaxis": merge(
            self.moves_axis(c, d, k), Opaque("axes", self.axis(c, d, k)),
            None), "deprecated_dimensions": merge(
                self.has_dims(c, d, k), self.list(
                    lambda x: self.dims(c, d, k, x), "dims"), None)})

    def at(self, c, d, k):
        """Format of the rules: entries are moved to entries."""

    def assume(self, c, v):
        """The documented format, for the convention c in version v: targets
        exist, entries are moved to different entries that do not have to
        be moved themselves, and the four entries on the convention stay."""
        I, F = self.I, self.I.facts
        i, k, m = (z3.Const("uf!" + n, t) for n, t in (
            ("i", INT), ("k", STR), ("m", STR)))
        on = And_(i >= 0, i < self.count(c), self.version(c, i, v))
        F.fact(Imp_(And_(on, self.target(c, i, k)),
                    And_(I.L.s_count(I, k, lit("_")) == 1,
                         self.cat.exists(I.L.F_head(k, lit("_")),
                                         I.L.F_tail(k, lit("_"))))), (i, k))
        x = z3.Const("uf!x", AX)
        F.fact(And_(F_highest(x) >= 0, F_highest(x) <= 3), (x,))

    def format(self, c, d):
        """The same for the rules called d (stated where they are used)."""
        F = self.I.facts
        k, m = z3.Const("uf!k", STR), z3.Const("uf!m", STR)
        mk, mm = self.move(c, d, k), self.move(c, d, m)
        a, b = self.name(k), self.name(m)
        ta, tb = self.name(self.to(c, d, k)), self.name(self.to(c, d, m))
        for x in (a, ta):
            F.fact(Imp_(mk, And_(self.entry(x), *[
                x != lit(n) for n in FOUR])), (k,))
        F.fact(Imp_(And_(mk, mm, k != m), And_(
            a != b, ta != tb, a != tb, ta != b)), (k, m))
        rk, rm = self.remove(c, d, k), self.remove(c, d, m)
        F.fact(Imp_(rk, And_(self.entry(a), *[
            a != lit(n) for n in FOUR])), (k,))
        F.fact(Imp_(And_(rk, rm, k != m), a != b), (k, m))
        F.fact(Imp_(And_(rk, mm), a != tb), (k, m))
        x = self.message(c, d)
        F.fact(Or_(PV.is_none(x), PV.is_str(x)))

    def entry(self, x):
        cls = self.I.mods.find("sofar.sofa.Sofa")
        return And_(Not_(z3.PrefixOf(lit("_"), x)),
                    Not_(self.I.is_member(cls, x)),
                    *[x != lit(n) for n in self.I.members(cls)
                      if n[0] != "_"])


class Reset2:
    """Contract of _reset_convention for the current state of the object:
    first as in `Reset`, after the upgrade of the target convention."""

    def __init__(self, I, s, cat, first):
        self.I, self.s, self.cat, self.first = I, s, cat, first
        self.calls = 0
        I.contracts[S + "_reset_convention"] = self

    def __call__(self, I, obj):
        self.calls += 1
        if self.calls == 1:
            return self.first(I, obj)
        (hc, c), (hv, v) = (I.map_read(obj, n) for n in (GC, GV))
        c, v = (box(x) for x in (c, v))
        text = And_(hc, hv, PV.is_str(c), PV.is_str(v))
        c, v = (z3.simplify(PV.s(x)) for x in (c, v))
        I.raise_if(Not_(And_(text, self.cat.exists(c, v))), "ValueError")
        self.c, self.v = c, v
        st = I.st.copy()
        h, cu = I.map_read(obj, "_custom")
        own = lambda k: self.cat.has(c, v, lit(k))  # noqa: E731
        old = lambda k: And_(h, I.map_read(cu, k, st)[0]  # noqa: E731
                             if isinstance(cu, Ref) else False)

        def get(k):
            r = self.cat.rec(c, v, lit(k))
            x = I.map_read(cu, k, st)[1] if isinstance(cu, Ref) else None
            if not isinstance(x, Rec):
                return r
            return merge(own(k), r, x)
        self.contains = lambda k: Or_(own(k), old(k))

        def field(n, k):
            x = get(k)
            f = lambda x: x.fields[n]  # noqa: E731
            return box(I.lift(f, x))
        self.field = field
        self.table = I.new("map", base=MapBase(
            self.contains, get, STR, "convention"))
        self.custom = I.new("map", base=MapBase(
            lambda k: And_(old(k), Not_(own(k))),
            lambda k: I.map_read(cu, k, st)[1], STR, "custom"))
        I.put(obj, SetOp(True, "_convention", self.table))
        I.put(obj, SetOp(h, "_custom", self.custom))


class AddMissing:
    """Contract of add_missing(True, False), proved for C24: the mandatory
    entries that are missing are added with their defaults, nothing else
    changes, and the object is protected."""

    def __init__(self, I, reset):
        self.I, self.reset, self.before = I, reset, []
        self.value = z3.Function("up_added", STR, STR, STR, PV)
        I.contracts[S + "add_missing"] = self

    def __call__(self, I, obj, mandatory=True, optional=True, verbose=True):
        from .props import default_value
        if mandatory is not True or optional is not False:
            raise Unsupported("add_missing() of other entries")
        self.reset(I, obj)
        r = self.reset
        st = I.st.copy()
        self.before.append(st)

        def cond(k):
            k = lit(k)
            f = r.field("flags", k)
            return And_(r.contains(k), PV.is_str(f),
                        z3.Contains(PV.s(f), lit("m")),
                        Not_(I.map_read(obj, k, st)[0]))

        def val(k):
            k = lit(k)
            v = self.value(r.c, r.v, k)
            I.facts.fact(default_value(I, v, r.field("default", k)))
            return v
        op = Fill(True, cond, val)
        op.before, op.table = st, (r.c, r.v)
        I.put(obj, op)
        I.put(obj, SetOp(True, "_protected", True))


def setup(I):
    from .props import Catalogue, Reset, UT, known_entries
    s = Sofa(I, I.mods)
    known_entries(I, s)
    cat = Catalogue(I, s)
    cat.use()
    I.prune = True
    cat.own = {GC: lambda c, v: c, GV: lambda c, v: v,
               "GLOBAL_Version": z3.Function("cat_sofa", STR, STR, STR),
               "GLOBAL_DataType": z3.Function("cat_type", STR, STR, STR)}
    I.trusted.add("format of the conventions: the defaults of name and "
                  "version are those of the convention")
    r = Reset(I, s, cat)
    r.use()
    up = Upgrades(I, s, cat)
    g = s.G(lit(GC)), s.G(lit(GV))
    I.assume(*[PV.is_str(x) for x in g])
    c, v = (PV.s(x) for x in g)
    up.assume(c, v)
    AddMissing(I, Reset2(I, s, cat, r))
    t = z3.Const("target", PV)
    I.assume(Or_(PV.is_none(t), PV.is_str(t)))
    return [s.ref, t, z3.Const("verify", PV)], {}, (s, cat, r, up, c, v, t)


def full(I):
    a, kw, (s, cat, r, up, c, v, t) = setup(I)
    from .props2 import Verifies
    Verifies(I, s)
    # class invariant: entries are text, records, arrays or scalars
    k = z3.Const("uv!k", STR)
    x = s.G(k)
    I.facts.fact(Imp_(s.H(k), And_(
        Not_(PV.is_list(x)), Not_(PV.is_tuple(x)),
        Imp_(PV.is_other(x), N.F_conv(x)))), (k,))
    # each version is listed once in the rules for a convention
    i0, i = z3.Const("up_rule", INT), z3.Const("uu!i", INT)
    on = lambda i: And_(i >= 0, i < up.count(c),  # noqa: E731
                        up.version(c, i, v))
    I.facts.fact(Imp_(on(i), i == i0), (i,))
    return a, kw, Context(I, s, cat, r, up, c, v, t, i0, on(i0))


class Context:
    def __init__(self, I, s, cat, r, up, c, v, t, i0, found):
        self.I, self.s, self.cat, self.r, self.up = I, s, cat, r, up
        self.c, self.v, self.t, self.i0, self.found = c, v, t, i0, found
        self.old = Or_(up.old(c), And_(up.listed(c), found))
        self.rules = And_(self.old, up.listed(c), found)
        self.wanted = And_(PV.is_str(t), up.target(c, i0, PV.s(t)))
        self.does = And_(self.rules, self.wanted)
        self.c2 = I.L.F_head(PV.s(t), lit("_"))
        self.v2 = I.L.F_tail(PV.s(t), lit("_"))
        self.d = up.id(c, i0)

    def mandatory(self, q):
        f = self.cat.field["flags"](self.c2, self.v2, q)
        return And_(self.cat.has(self.c2, self.v2, q), PV.is_str(f),
                    z3.Contains(PV.s(f), lit("m")))


def outcome(I, e, x):
    up = x.up
    if e.value is None:
        return Or_(And_(x.old, Not_(x.rules)), x.does)
    if isinstance(e.value, Ref):
        return And_(Not_(x.old), Not_(I.truth(e.value)))
    k = I.facts.fresh("any_target", STR)
    return And_(x.rules, Not_(x.wanted), Iff_(
        I.L.contains(I, e.value, k), up.target(x.c, x.i0, k)))


def changed(I, e, x):
    """An upgrade was begun."""
    return any(not isinstance(o, SetOp) or const_str(o.key) not in (
        "_convention", "_custom") for o in I.log(x.s.ref, e.state))


def nothing(I, e, x):
    """No entry changes without an upgrade."""
    s, q = x.s, I.facts.fresh("any_entry", STR)
    if changed(I, e, x):
        return x.does
    return And_(
        Imp_(Not_(z3.PrefixOf(lit("_"), q)), s.unchanged(e.state, q)),
        s.unchanged(e.state, "_protected"),
        s.unchanged(e.state, "_read_only_attr"))


def complete(I, e, x):
    """An upgrade that was begun ends, except that the upgraded object may
    not be valid, or its version not be a number."""
    if not changed(I, e, x):
        return True
    end = e.kind == "return" and e.value is None or \
        e.kind == "raise" and e.value.name == "ValueError" and \
        verified(I, e, x)
    return And_(end, *[And_(a == x.c, b == x.d) for a, b in x.up.used])


def verified(I, e, x):
    return bool(I.log(I.io, e.state))


def upgraded(I, e, x):
    """The state in which missing mandatory entries are added."""
    return I.st


def once(f):
    """Checked for the state in which missing mandatory entries are added
    (which several exits of the function have in common)."""
    checked = []

    def g(I, e, x):
        I.facts.patience = 15000
        if not changed(I, e, x):
            return True
        for o in I.log(x.s.ref, e.state):
            if isinstance(o, Fill):
                if any(o is y for y in checked):
                    return True
                checked.append(o)
                e.state = I.st = o.before.copy()
                return f(I, e, x)
        return f(I, e, x)
    return g


def four(I, e, x):
    """Name and version are those of the target."""
    out = []
    st = upgraded(I, e, x)
    for n, w in ((GC, x.c2), (GV, x.v2)):
        h, v = x.s.now(st, n)
        out.append(And_(h, box(v) == PV.str(w)))
    for n in FOUR[2:]:
        h, v = x.s.now(st, n)
        out.append(And_(h, box(v) == PV.str(x.cat.own[n](x.c2, x.v2))))
    return And_(*out)


def at_target(I, e, x, cut):
    """Value under the name of the target of an entry k that is moved, and
    that k is the only one moved there: proved first (`cut` False), used
    then."""
    s, up = x.s, x.up
    c, d = up.used[-1]
    k = I.facts.fresh("moved", STR)
    up.format(c, d)
    I.assume(up.move(c, d, k), s.H(up.name(k)))
    h, v = s.now(upgraded(I, e, x), up.name(up.to(c, d, k)))
    v = box(v)
    ex = [t for t in constants(v) if str(t).startswith("ex_key")]
    ws = [t for t in constants(v) if str(t).startswith("w_key")]
    if not ws or not all(z3.is_string(w) for w in ws):
        raise Unsupported("value of a moved entry")
    if not cut:
        return And_(h, *ex, *[w == k for w in ws])
    v = z3.substitute(v, *[(t, z3.BoolVal(True)) for t in ex],
                      *[(w, k) for w in ws])
    return k, z3.simplify(v), c, d


def constants(t):
    out, seen, todo = [], set(), [t]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        todo += t.children()
    return out


def target(I, e, x):
    """Moved entries exist, and are moved from one source."""
    return not changed(I, e, x) or at_target(I, e, x, False)


def moved(axes):
    """Moved entries: the value is that of the source."""
    def f(I, e, x):
        if not changed(I, e, x):
            return True
        k, v, c, d = at_target(I, e, x, True)
        up, old = x.up, x.s.G(x.up.name(k))
        on = up.moves_axis(c, d, k)
        I.assume(on if axes else Not_(on))
        v = z3.simplify(z3.substitute(v, (on, z3.BoolVal(axes))))
        if not axes:
            return same(I, v, old)
        ax = up.axis(c, d, k)
        a = N.asarray(I, old)
        b = N.F_unmoved(PV.a(v))
        i = I.facts.fresh("position", INT)
        return And_(
            PV.is_arr(v), PV.a(v) == N.F_moved(b, ax),
            N.F_size(b) == N.F_size(a), N.F_el(b, i) == N.F_el(a, i),
            N.F_ndim(b) == If_(N.F_ndim(a) > F_highest(ax), N.F_ndim(a),
                               F_highest(ax) + 1))
    return f


def same(I, v, old):
    from .props import default_value
    return default_value(I, v, old)


def gone(which):
    """Sources and removed entries are gone (before missing mandatory
    entries are added)."""
    def f(I, e, x):
        if not changed(I, e, x):
            return True
        s, up = x.s, x.up
        c, d = up.used[-1]
        k = I.facts.fresh("gone", STR)
        up.format(c, d)
        I.assume(getattr(up, which)(c, d, k))
        if which == "move":
            I.assume(up.name(k) != up.name(up.to(c, d, k)))
        h, v = s.now(upgraded(I, e, x), up.name(k))
        return Not_(h)
    return f


def others(I, e, x):
    """All other entries keep their values."""
    if not changed(I, e, x):
        return True
    s, up = x.s, x.up
    c, d = up.used[-1]
    up.format(c, d)
    q, k = I.facts.fresh("other", STR), z3.Const("uo!k", STR)
    I.facts.fact(Imp_(Or_(up.move(c, d, k), up.remove(c, d, k)),
                      up.name(k) != q), (k,))
    I.facts.fact(Imp_(up.move(c, d, k), up.name(up.to(c, d, k)) != q), (k,))
    I.assume(up.entry(q), *[q != lit(n) for n in FOUR])
    return s.unchanged(upgraded(I, e, x), q)


def added(I, e, x):
    """The last change: the missing mandatory entries of the target."""
    if not changed(I, e, x):
        return True
    log = I.log(x.s.ref, e.state)
    at = [i for i, o in enumerate(log) if isinstance(o, Fill)]
    if len(at) != 1:
        return False
    for o in log[at[0] + 1:]:
        if not (isinstance(o, SetOp) and (const_str(o.key) or "").startswith(
                "_")):
            return False
    o = log[at[0]]
    return And_(o.g, o.table[0] == x.c2, o.table[1] == x.v2)


def protection(I, e, x):
    from .props2 import guarded
    return guarded(I, x.s, e.state)


def read_only(I, e, x):
    if not changed(I, e, x):
        return True
    h, v = x.s.now(e.state, "_read_only_attr")
    k = I.facts.fresh("any_entry", STR)
    f = x.cat.field["flags"](x.c2, x.v2, k)
    return And_(h, Iff_(I.L.contains(I, v, k), And_(
        x.cat.has(x.c2, x.v2, k), PV.is_str(f),
        z3.Contains(PV.s(f), lit("r")))))


OUTCOME = [
    ("an up to date convention gives an empty list, one without rules None, "
     "an invalid target the list of the valid ones", outcome,
     lambda e: e.kind == "return"),
    ("without an upgrade no entry changes, and the protection is kept",
     nothing)]
RESULT = [
    ("an upgrade that was begun is completed before the object is verified",
     complete),
    ("name, version, SOFA version and data type are those of the target",
     once(four)),
    ("the read only entries are those of the target", once(read_only)),
    ("finally the missing mandatory entries of the target are added, and "
     "nothing else is changed", added)]
MOVED = [
    ("a moved entry exists under its new name, and has one source",
     once(target)),
    ("its value is that of the source", once(moved(False))),
    ("or, if axes have to be moved, that of the source, with dimensions "
     "appended where necessary, with these axes moved",
     once(moved(True)))]
OTHERS = [
    ("the sources of moved entries are gone", once(gone("move"))),
    ("removed entries are gone", once(gone("remove"))),
    ("all other entries keep their values", once(others))]
PROTECTED = [("a protected object is still protected", protection)]


def upgrade_convention(p, groups=(OUTCOME, RESULT, MOVED, OTHERS)):
    for g in groups:
        p.run(S + "upgrade_convention", full, g)
