"""Assumed contract of copy.deepcopy: a new object with equal content that
shares no mutable object with the original."""
from .core import (U, Ref, MapBase, State, lit, Unsupported, merge_many, STR,
                   is_pv, is_str)

HOOKS = ("__deepcopy__", "__copy__", "__reduce__", "__reduce_ex__",
         "__getstate__", "__setstate__", "__getnewargs__", "__new__",
         "__getnewargs_ex__", "__getattr__", "__getattribute__", "__slots__")
EAGER = ("_convention", "_custom", "_api", "_dimensions", "_read_only_attr")


def l_copy_deepcopy(I, v):
    then = State((), {}, dict(I.st.heap))
    memo = {}

    def value(v):
        if isinstance(v, U):
            return merge_many([(g, value(x)) for g, x in v.cases])
        if isinstance(v, Ref):
            return ref(v)
        return v

    def ref(r):
        if r.oid in memo:
            return memo[r.oid]
        o = I.obj(r)
        if o.kind == "inst":
            own = set(I.members(o.cls)) if o.cls is not None else set()
            if own & set(HOOKS):
                raise Unsupported("deepcopy of a class with hooks")
        if o.kind in ("inst", "map"):
            base = MapBase(lambda k: I.map_read(r, k, then)[0],
                           lambda k: value(I.map_read(r, k, then)[1]),
                           o.base.sort, f"copy of {o.base.desc}")
            memo[r.oid] = I.new(o.kind, base=base, cls=o.cls)
            if o.kind == "inst":
                for n in EAGER:
                    value(I.map_read(r, n, then)[1])
        elif o.kind in ("list", "set"):
            memo[r.oid] = I.new(o.kind, log=I.log(r, then), meta=o.meta)
        else:
            raise Unsupported("deepcopy")
        I.copied[memo[r.oid].oid] = r.oid
        return memo[r.oid]
    I.trusted.add("copy.deepcopy: a new object of equal content that shares "
                  "no mutable data (arrays included) with the original")
    return value(v)
