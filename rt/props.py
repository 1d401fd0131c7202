"""One random case per property, judged by the executable specification."""
import datetime
import platform
import copy as _copy
import glob
import json
import os
import shutil
import sys
import types
import netCDF4
import numpy as np
import spec
import catalog
from spec import (entries, same, same_state, freeze, mandatory, read_only,
                  stored_ok, default_ok, parse_issues)
from gen import Call, Gen, Subject, Failed

BUILTIN = {"list_dimensions", "get_dimension", "info", "inspect",
           "add_missing", "add_variable", "add_attribute", "delete",
           "protected", "upgrade_convention", "verify", "copy"}


class Unstorable:
    """Data that numpy cannot convert."""

    def __init__(self, r):
        self.e = r.choice([TypeError, RuntimeError, ValueError, KeyError])

    def __array__(self, *a, **k):
        raise self.e("no array")

    def __repr__(self):
        return f"<object whose conversion raises {self.e.__name__}>"


def known_ro(s):
    return {k for k, e in s.conv().items() if read_only(e["flags"])}


def unchanged(g, prop, before, s, what):
    d = same_state(before, s.ent)
    g.check(not d, prop, lambda: f"{what} changed {d[:5]}")


def upgraded(g):
    """An object that went through an upgrade, if there is one."""
    r = g.rng
    ups = [k for k in sorted(g.cat.conv) for x in g.cat.upgrade.get(
        k[0], {"from_to": []})["from_to"] if k[1] in x[0]]
    if not ups:
        return None
    s = g.new(conv=r.choice(ups))
    c = Call(s.obj.upgrade_convention)
    if c.exc is not None or not c.value:
        return None
    c = Call(s.obj.upgrade_convention, r.choice(c.value), False)
    g.note(f"upgrade_convention of {s.key} -> {c}")
    if c.exc is not None or s.key not in g.cat.conv:
        return None
    conv = s.conv()
    for k in s.ent:
        if k not in conv:
            s.custom.setdefault(k, ("attribute", None))
    return s


def some_name(g, s):
    r = g.rng
    ent, tab = list(s.ent), list(s.table())
    n = r.choice(tab)
    pool = [lambda: r.choice(ent), lambda: r.choice(ent), lambda: n,
            lambda: r.choice(sorted(known_ro(s)) or ent),
            lambda: g.ident(), lambda: "GLOBAL_" + g.ident(),
            lambda: r.choice(ent) + "_" + g.ident(),
            lambda: n[:-1], lambda: n.lower(), lambda: n + "x",
            lambda: r.choice(g.literal_names() or ["Foo"]),
            lambda: "Data_" + g.ident()]
    while True:
        m = r.choice(pool)()
        if m not in g.members() and not m.startswith("_") and \
                m.isidentifier() and m not in BUILTIN:
            return m


# ------------------------------------------------------------------ C01, C05
def case_C01(g, prop="C01"):
    s = g.new()
    r = g.rng
    for _ in range(r.randrange(3)):
        s.add_custom()
    if r.random() < .3:
        s.delete_optional()
    if r.random() < .3:
        c = Call(s.obj.add_missing, True, r.random() < .7, False)
        g.note(f"add_missing -> {c}")
    if s.custom and r.random() < .3:
        s.poke_delete(r.choice(sorted(s.custom)))
    if r.random() < .25:
        s = upgraded(g) or s
    ro = known_ro(s)
    off = False
    for _ in range(12):
        before = freeze(s.ent)
        if r.random() < .15:
            v = r.choice([True, False, 1, 0, None, "True", np.bool_(True),
                          [], [True], 1.0])
            c = Call(setattr, s.obj, "protected", v)
            g.note(f"sofa.protected = {v!r} -> {c}")
            if isinstance(v, bool):
                g.check(c.exc is None, "C01", f"protected = {v} raised {c}")
                off = not v
            else:
                g.check(isinstance(c.exc, ValueError), "C01",
                        f"protected = {v!r} was accepted ({c})")
            unchanged(g, "C01", before, s, "setting the protection")
            g.check(s.obj.protected is (not off), "C01",
                    f"protected is {s.obj.protected!r} after setting {v!r}")
            continue
        name = some_name(g, s)
        v = g.anything()
        has = name in before
        if name in ("GLOBAL_SOFAConventions",
                    "GLOBAL_SOFAConventionsVersion") and off:
            continue
        c = Call(setattr, s.obj, name, v)
        g.note(f"sofa.{name} = {v!r} -> {c}")
        after = s.ent
        if not off and (not has or name in ro):
            g.check(isinstance(c.exc, TypeError), "C01",
                    lambda: f"assigning {'read only' if has else 'unknown'} "
                    f"entry {name} did not raise a TypeError ({c})")
            unchanged(g, "C01", before, s, f"refused assignment of {name}")
        else:
            g.check(c.exc is None, "C01",
                    lambda: f"assigning {name} = {v!r} raised {c}")
            d = [k for k in same_state(before, after) if k != name]
            g.check(not d, "C01", lambda: f"assigning {name} changed {d[:5]}")
            g.check(name in after, "C01", f"{name} is missing after "
                    "assigning it")
            bad = stored_ok(v, after[name])
            g.check(bad is None, "C05", bad)
            if not has:
                object.__delattr__(s.obj, name)
        g.check(s.obj.protected is (not off), "C01",
                "an assignment changed the protection")


def case_C05(g):
    if g.rng.random() < .3:
        return case_C01(g, "C05")
    s = g.new()
    tab = s.table()
    for _ in range(15):
        free = [k for k in s.ent if not read_only(tab[k]["flags"])]
        name = g.rng.choice(free)
        v = g.anything()
        keep = _copy.deepcopy(v)
        c = Call(setattr, s.obj, name, v)
        g.note(f"sofa.{name} = {v!r} -> {c}")
        g.check(c.exc is None, "C05", f"assigning {name} = {v!r} raised {c}")
        bad = stored_ok(keep if not isinstance(v, (np.ndarray, dict)) else v,
                        s.ent[name])
        g.check(bad is None, "C05", bad)
    # data added by the interface takes the same way
    v = g.anything()
    if g.rng.random() < .5:
        c = Call(s.obj.add_variable, "xvar", v, "double", "MRN")
        g.note(f"sofa.add_variable('xvar', {v!r}, ...) -> {c}")
        if c.exc is None:
            bad = stored_ok(v, s.ent["xvar"])
            g.check(bad is None, "C05", bad)


# ----------------------------------------------------------------------- C02
def case_C02(g):
    s = g.new()
    r = g.rng
    for _ in range(r.randrange(4)):
        s.add_custom()
    if r.random() < .4:
        s.resize()
    off = False
    for _ in range(10):
        if r.random() < .15:
            off = not off
            s.obj.protected = not off
            g.note("protected", not off)
        tab = s.table()
        before = freeze(s.ent)
        name = some_name(g, s)
        if s.custom and r.random() < .3:
            name = r.choice(sorted(s.custom))
        has = name in before
        if off and name in ("GLOBAL_SOFAConventions",
                            "GLOBAL_SOFAConventionsVersion"):
            continue
        how = r.choice(["del", "delete"])
        c = Call(delattr, s.obj, name) if how == "del" else \
            Call(s.obj.delete, name)
        g.note(f"{how} {name} -> {c}")
        if not has:
            g.check(isinstance(c.exc, TypeError), "C02",
                    f"deleting unknown {name} did not raise a TypeError "
                    f"({c})")
            unchanged(g, "C02", before, s, "refused deletion")
        elif not off and mandatory(tab[name]["flags"]):
            g.check(isinstance(c.exc, TypeError), "C02",
                    f"deleting mandatory {name} did not raise a TypeError "
                    f"({c})")
            unchanged(g, "C02", before, s, "refused deletion")
        else:
            g.check(c.exc is None, "C02", f"deleting {name} raised {c}")
            d = same_state(before, s.ent)
            g.check(d == [name] and name not in s.ent, "C02",
                    lambda: f"deleting {name} changed {d[:5]}")
            old = s.custom.pop(name, None)
            e = old or (tab[name]["type"], tab[name]["dimensions"])
            base = name.rpartition("_")[0]
            if off or (e[0] == "attribute" and base != "GLOBAL" and
                       base not in s.ent) or r.random() < .4:
                if off:
                    continue
                continue
            v = before[name]
            if e[0] == "attribute":
                c = Call(s.obj.add_attribute, name, v)
            elif "_" in name:
                continue
            else:
                c = Call(s.obj.add_variable, name, v, e[0],
                         (e[1] or "I").split(",")[0].upper())
            g.note(f"adding {name} again -> {c}")
            g.check(c.exc is None, "C02",
                    f"adding {name} again after deleting it raised {c}")
            unchanged(g, "C02", before, s, "deleting and adding again")
            if old is not None:
                s.custom[name] = old
            elif name not in s.conv():
                g.fail("C02", f"custom entry {name} was not known")
        g.check(s.obj.protected is (not off), "C02",
                "a deletion changed the protection")
    if off or r.random() < .3 or not s.comparable():
        return
    # nothing else lost its meaning
    for _ in range(2):
        c = Call(s.obj.verify, "return", "read")
        g.check(c.exc is None, "C02",
                f"verifying after deleting entries raised {c}")
    for n in s.custom:
        reg(g, s, n, *s.custom[n], prop="C02")


# ----------------------------------------------------------------------- C04
def expect_add(s, g, name, dtype, dims):
    """-> refused? (None: not specified)"""
    tab = s.table()
    if name in s.ent or name in g.members():
        return True
    if dtype not in ("attribute", "double", "string"):
        return True
    if dtype != "attribute":
        return "_" in name or dims is None
    if "_" not in name:
        return True
    if name.startswith("GLOBAL_"):
        return name.count("_") != 1
    base = name.rpartition("_")[0]
    if base not in tab or tab[base]["type"] == "attribute":
        return True
    if base not in s.ent:
        return None
    return False


def case_C04(g):
    s = g.new()
    r = g.rng
    pre = g.rng.random() < .5 and not s.expect().errors("read", "raise")
    for _ in range(9):
        tab = s.table()
        before = freeze(s.ent)
        k = r.random()
        vs = [n for n, e in tab.items() if e["type"] != "attribute"]
        name = r.choice([
            lambda: g.ident(), lambda: "x" + g.ident(),
            lambda: some_name(g, s), lambda: r.choice(list(tab)),
            lambda: r.choice(vs) + "_" + g.ident(),
            lambda: r.choice(vs) + "_" + g.ident(),
            lambda: "Data_" + g.ident(), lambda: "GLOBAL_" + g.ident(),
            lambda: "GLOBAL_" + g.ident() + "_" + g.ident(),
            lambda: r.choice(vs) + "_" + g.ident() + "_" + g.ident(),
            lambda: r.choice(vs)[:-1] + "_" + g.ident(),
            lambda: "GLOBAL" + g.ident(), lambda: "Data_A_B_C",
            lambda: "Global_" + g.ident(),
            lambda: r.choice(["copy", "verify", "info", "delete", "inspect",
                              "add_variable", "protected"]),
            lambda: g.ident() + "_" + g.ident()])()
        dtype = r.choice(["attribute", "attribute", "double", "string",
                          "double", r.choice(["float", "int", "str",
                                              "Double", "", None,
                                              "attributes"])])
        if name.count("_") and r.random() < .7:
            dtype = "attribute"
        dims = None if dtype == "attribute" or r.random() < .1 else \
            r.choice(["I", "IC", "MRN", "mrn", "K", "MK", "Kl", "ms", "MS",
                      "xyz", "ERMN", "cS", "ii", "O", "MO", "B", "Z", "q",
                      "Az"])
        if dtype == "attribute":
            v = g.text() if r.random() < .9 else g.anything()
        elif r.random() < .1:
            # can not be stored
            v = [[1, 2], [3]] if r.random() < .5 else Unstorable(r)
        else:
            v = g.anything()
        ragged = isinstance(v, Unstorable) or isinstance(v, list) and \
            repr(v) == "[[1, 2], [3]]"
        if name in ("Data", "GLOBAL"):
            continue
        want = expect_add(s, g, name, dtype, dims)
        if want is None:
            continue
        if dtype == "attribute" and r.random() < .8:
            c = Call(s.obj.add_attribute, name, v)
            g.note(f"add_attribute({name!r}, {v!r}) -> {c}")
        else:
            c = Call(s.obj.add_variable, name, v, dtype, dims)
            g.note(f"add_variable({name!r}, {v!r}, {dtype!r}, {dims!r}) "
                   f"-> {c}")
        if want:
            g.check(isinstance(c.exc, ValueError), "C04",
                    f"adding {name} ({dtype}, {dims}) was not refused with "
                    f"a ValueError ({c})")
            unchanged(g, "C04", before, s, "refused addition")
            continue
        if ragged:
            g.check(c.exc is not None, "C04", f"{v} was stored")
            unchanged(g, "C04", before, s, "failed addition")
            c2 = Call(s.obj.add_variable if dtype != "attribute" else
                      s.obj.add_attribute, name, "t" if dtype == "attribute"
                      else 1, *([] if dtype == "attribute" else
                                [dtype, dims]))
            g.check(c2.exc is None, "C04",
                    f"{name} can not be added after a failed addition ({c2})")
            if name not in s.conv():
                s.custom[name] = (dtype, dims)
            continue
        g.check(c.exc is None, "C04",
                f"adding {name} ({dtype}, {dims}) raised {c}")
        d = [k for k in same_state(before, s.ent) if k != name]
        g.check(not d and name in s.ent, "C04",
                f"adding {name} changed {d[:5]}")
        bad = stored_ok(v, s.ent[name])
        g.check(bad is None, "C04", bad)
        if name not in s.conv():
            s.custom[name] = (dtype, dims)
            reg(g, s, name, dtype, dims)
        else:
            e = getattr(s.obj, "_convention", {}).get(name, None)
            g.check(e is None or (e["type"] == s.conv()[name]["type"] and
                                  e["dimensions"] ==
                                  s.conv()[name]["dimensions"]), "C04",
                    f"the entry {name} of the convention was replaced")
    # registered data survives verification
    names = {k: freeze(s.ent)[k] for k in s.custom}
    for _ in range(2):
        Call(s.obj.verify, "return", "read")
    for n in names:
        g.check(n in s.ent and same(s.ent[n], names[n]), "C04",
                f"custom {n} did not survive verification")
        reg(g, s, n, *s.custom[n])
    # ... with its dimensions and type
    if s.comparable():
        v = s.expect()
        c = Call(s.obj.verify, "return", "read")
        got = parse_issues(c.value)
        for n in s.custom:
            for cat, exp in (("types", v.types), ("shapes", v.shapes)):
                if cat == "shapes" and v.types:
                    continue
                g.check((n in exp) == (n in got.get(cat, ())), "C04",
                        f"custom {n} registered as {s.custom[n]}: {cat} "
                        f"reported {sorted(got.get(cat, ()))} instead of "
                        f"{sorted(exp)}")
        if not v.types and not v.shapes and v.sizes:
            for n, (t, d) in s.custom.items():
                for q in (spec.reg_dims(d) or ""):
                    if q.islower():
                        c = Call(s.obj.get_dimension, q.upper())
                        g.check(c.exc is None and
                                c.value == v.sizes[q.upper()], "C04",
                                f"custom dimension {q.upper()} is {c} "
                                f"instead of {v.sizes[q.upper()]}")


def reg(g, s, name, dtype, dims, prop="C04"):
    e = getattr(s.obj, "_convention", {}).get(name)
    g.check(e is not None and e["type"] == dtype and
            e["dimensions"] == spec.reg_dims(dims) and
            not mandatory(e["flags"]) and not read_only(e["flags"]), prop,
            f"{name} ({dtype}, {dims}) is registered as {e}")


# ----------------------------------------------------------------- C03, C15
def case_C03(g):
    return history(g, "C03")


def case_C15(g):
    return history(g, "C15")


def history(g, focus):
    r = g.rng
    name, version = g.pick()
    if r.random() < .3:
        c = Call(g.sf.Sofa, name, r.random() < .3, version, r.choice(
            ["auto", True, False]))
        g.note(f"Sofa({name!r}, version={version!r}) -> {c}")
        if c.exc is not None:
            return
        g.check(c.value.protected is True, "C03",
                "a new object is not protected")
        s = Subject(g, c.value)
    else:
        s = g.new(conv=(name, version))
        g.check(s.obj.protected is True, "C03",
                "a new object is not protected")
    for _ in range(r.randrange(4)):
        r.choice([s.add_custom, s.breakage, s.breakage, s.resize,
                  s.delete_optional])()
    for _ in range(6):
        if r.random() < .25:
            # missing mandatory data
            tab = s.table()
            man = [k for k in s.ent if k in tab and
                   mandatory(tab[k]["flags"]) and k not in (
                       "GLOBAL_SOFAConventions",
                       "GLOBAL_SOFAConventionsVersion")]
            if man:
                s.poke_delete(r.choice(man))
        if r.random() < .2:
            # text with white space at its ends, or none
            tab = s.table()
            att = [k for k in s.ent if k in tab and tab[k]["type"] ==
                   "attribute" and not k.endswith(("_Type", "_Units")) and
                   k not in ("GLOBAL_SOFAConventions", "GLOBAL_DataType",
                             "GLOBAL_SOFAConventionsVersion")]
            if att:
                s.poke(r.choice(att), r.choice([" a", "a ", "\ta\n", "a\nb",
                                                "", "A" * 70, "a  b"]))
        before = freeze(s.ent)
        tab = s.table()
        op = r.choice(["verify", "verify", "verify", "get_dimension",
                       "inspect", "info", "list_dimensions", "add_missing",
                       "add_variable", "add_attribute", "copy", "equals",
                       "upgrade", "write", "repr", "upgrade"]
                      if focus == "C03" else
                      ["verify", "verify", "verify", "get_dimension",
                       "inspect", "info", "list_dimensions", "equals",
                       "write", "repr"])
        adds, ignore = set(), False
        was = s.obj.protected
        if op == "verify":
            how = r.choice(["raise", "print", "return", "ignore"])
            if how == "ignore" and s.expect().types:
                how = "return"
            c = Call(s.obj.verify, how, r.choice(["read", "write"]))
            adds = set() if how == "raise" else None
            g.note(f"verify({how!r}) -> {c}")
        elif op == "get_dimension":
            c = Call(s.obj.get_dimension, r.choice("MNRECISKQ") if
                     r.random() < .9 else "xyz")
            adds = None
        elif op == "inspect":
            f = os.path.join(g.w.tmp, "inspect.txt") if r.random() < .2 \
                else None
            how = r.choice(["print", "return", "raise"])
            c = Call(s.obj.inspect, f, how)
            adds = set() if how == "raise" else None
        elif op == "info":
            c = Call(s.obj.info, r.choice(["all", "mandatory", "optional",
                                           "read only", "data", "Data_IR",
                                           "x", "ListenerPosition"]))
        elif op == "list_dimensions":
            c = Call(lambda: s.obj.list_dimensions)
            adds = None
        elif op == "add_missing":
            c = Call(s.obj.add_missing, r.random() < .5, r.random() < .5)
            ignore = True
        elif op in ("add_variable", "add_attribute"):
            if r.random() < .7:
                c = s.add_custom()
            else:
                n = some_name(g, s)
                v = r.choice([1, [[1, 2], [3]], "a", Unstorable(r)])
                c = Call(s.obj.add_variable, n, v, "double", "I") if \
                    op == "add_variable" else \
                    Call(s.obj.add_attribute, n, "a")
                g.note(f"{op} {n} {v} -> {c}")
                if c.exc is None and n not in s.conv():
                    s.custom[n] = ("double", "I") if op == "add_variable" \
                        else ("attribute", None)
            ignore = True
            if c.exc is not None and was is False:
                s.obj.protected = True
                continue
        elif op == "copy":
            c = Call(s.obj.copy)
            if c.exc is None:
                g.check(c.value.protected == s.obj.protected, "C03",
                        "a copy has another protection")
        elif op == "equals":
            o = s.obj.copy() if r.random() < .5 else g.new().obj
            c = Call(g.sf.equals, s.obj, o, False, r.choice(
                [None, "GLOBAL", "ATTR", "DATE", "x"]))
        elif op == "upgrade":
            if r.random() < .4:
                ups = sorted(g.cat.upgrade)
                cand = [k for k in g.cat.conv if k[0] in ups]
                if cand and not s.custom:
                    s = g.new(conv=r.choice(cand))
            c = Call(s.obj.upgrade_convention)
            ignore = True
            if s.expect().types:
                s.obj.protected = True
                continue
            if isinstance(c.value, list) and c.value and r.random() < .8:
                s.obj.protected = True
                c = Call(s.obj.upgrade_convention, r.choice(c.value),
                         r.choice(["auto", False]))
                g.note(f"upgrade -> {c}")
                g.check(s.obj.protected is True, "C03",
                        f"not protected after upgrading ({c})")
                return
            continue
        elif op == "write":
            c = Call(g.sf.write_sofa, os.path.join(g.w.tmp, "h.sofa"), s.obj)
            if isinstance(c.exc, UnicodeError):
                return
        else:
            c = Call(repr, s.obj)
        g.note(f"{op} -> {c}")
        if op not in ("info", "equals", "copy", "repr", "write"):
            if op != "add_missing" or c.exc is None:
                g.check(s.obj.protected is True, "C03",
                        f"the object is not protected after {op} ({c})")
        else:
            g.check(s.obj.protected is True or was is False, "C03",
                    f"{op} switched off the protection")
        s.obj.protected = True
        if ignore:
            continue
        after = s.ent
        d = [k for k in before if k not in after]
        g.check(not d, "C15", f"{op} removed {d[:5]}")
        d = [k for k in before if not same(before[k], after[k])]
        g.check(not d, "C15", f"{op} changed {d[:5]}")
        new = [k for k in after if k not in before]
        if adds is None:
            bad = [k for k in new if k not in tab or
                   not mandatory(tab[k]["flags"]) or
                   not default_ok(tab[k], after[k])]
        else:
            bad = new
        g.check(not bad, "C15", f"{op} added {bad[:5]}")


# ----------------------------------------------------------------------- C06
def case_C06(g):
    r = g.rng
    names = g.cat.names()
    pool = names + [n[:-1] for n in names] + [n + "x" for n in names] + \
        [n.lower() for n in names] + ["", "x", "_", names[0] + "_"] + \
        [n + "_1" for n in names]
    name = r.choice(names) if r.random() < .7 else r.choice(pool)
    vs = g.cat.versions(name)
    version = r.choice(["latest", "latest", None])
    if version is None:
        version = r.choice(vs + ["1.0", "0.9", "3.0", "1", "2.00", "01.0",
                                 " 1.0", "", None, "Latest"] +
                           [v for _, v in g.cat.conv])
    m = r.random() < .3
    c = Call(g.sf.Sofa, name, m, version, False)
    g.note(f"Sofa({name!r}, {m}, {version!r}, verify=False) -> {c}")
    ok = name in names and (version == "latest" or version in vs)
    if not ok:
        g.check(isinstance(c.exc, ValueError), "C06",
                f"{name!r} version {version!r} is not in the catalogue "
                f"{sorted(g.cat.conv)} but was not refused: {c}")
        return
    g.check(c.exc is None, "C06", f"{name} {version} was refused: {c}")
    want = g.cat.latest(name) if version == "latest" else version
    e = entries(c.value)
    g.check(e["GLOBAL_SOFAConventions"] == name and
            e["GLOBAL_SOFAConventionsVersion"] == want, "C06",
            f"requested {name} {version}, got {e['GLOBAL_SOFAConventions']} "
            f"{e['GLOBAL_SOFAConventionsVersion']}, expected {want}")
    conv = g.cat.conv[name, want][1]
    d = set(e) ^ {k for k, x in conv.items()
                  if mandatory(x["flags"]) or not m}
    extra = {k for k in d if k.startswith(("GLOBAL_Date", "GLOBAL_API",
                                           "GLOBAL_Application"))}
    g.check(d == extra, "C06", f"{name} {want} has other entries {d}")
    # read back by the name in the object (verification of a reading)
    c2 = Call(c.value.verify, "return", "read")
    g.check(c2.exc is None, "C06", f"verify of {name} {want} raised {c2}")
    # listing
    c = Call(g.sf.list_conventions)
    g.check(c.exc is None, "C06", f"list_conventions raised {c}")
    got = sorted(x for x in c.out.strip().split("\n")[1:])
    exp = sorted(f"{n} (Version {v})" for n, v in g.cat.conv)
    g.check(got == exp, "C06",
            f"list_conventions printed {got} instead of {exp}")
    m = sys.modules.get("sofar.utils")
    f = getattr(m, "_get_conventions", None)
    if f is not None:
        c = Call(f, "name_version")
        g.check(c.exc is None and sorted(tuple(x) for x in c.value) ==
                sorted(g.cat.conv), "C06", f"listing name_version: {c}")
        c = Call(f, "name")
        g.check(c.exc is None and sorted(c.value) ==
                sorted(n for n, _ in g.cat.conv), "C06", f"listing: {c}")
        c = Call(f, "path")
        g.check(c.exc is None and sorted(
            os.path.basename(p) for p in c.value) == sorted(
                f"{n}_{v}.json" for n, v in g.cat.conv), "C06",
            f"listing paths: {c}")


def case_C06_stored(g):
    """An object (or file) naming a convention that is not installed."""
    r = g.rng
    s = g.new()
    n, v = s.key
    vs = g.cat.versions(n)
    name, version = r.choice([
        (n + "x", v), (n[:-1], v), (n, "7.7"), (n, "99.0"),
        (r.choice(g.cat.names()), v), (n.upper(), v), (n, r.choice(vs))])
    s.obj.protected = False
    s.obj.GLOBAL_SOFAConventions = name
    s.obj.GLOBAL_SOFAConventionsVersion = version
    s.obj.protected = True
    c = Call(s.obj.verify, "return", "read")
    g.note(f"object with convention {name} {version}: verify -> {c}")
    if (name, version) not in g.cat.conv:
        g.check(isinstance(c.exc, ValueError), "C06",
                f"{name} {version} is not in the catalogue but was accepted")


# ----------------------------------------------------------------------- C07
RUN = {"GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
       "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
       "GLOBAL_ApplicationVersion"}


def case_C07(g):
    r = g.rng
    name, version = g.pick()
    m = r.random() < .5
    t0 = datetime.datetime.now().replace(microsecond=0)
    c = Call(g.sf.Sofa, name, m, version, r.choice([False, False, "auto"]))
    g.note(f"Sofa({name!r}, {m}, {version!r}) -> {c}")
    if c.exc is not None:
        s = g.new(m, (name, version), warm=0)
        c.value = s.obj
    t1 = datetime.datetime.now()
    e = entries(c.value)
    # the running program and time
    for k in ("GLOBAL_DateCreated", "GLOBAL_DateModified"):
        try:
            t = datetime.datetime.strptime(e[k], "%Y-%m-%d %H:%M:%S")
        except (KeyError, TypeError, ValueError):
            t = None
        g.check(t is not None and t0 <= t <= t1, "C07",
                f"{k} is {e.get(k)!r}, created between {t0} and {t1}")
    for k, part in (("GLOBAL_APIName", "sofar"),
                    ("GLOBAL_APIVersion", str(g.sf.version())),
                    ("GLOBAL_ApplicationName", "Python"),
                    ("GLOBAL_ApplicationVersion",
                     platform.python_version())):
        g.check(isinstance(e.get(k), str) and part in e[k], "C07",
                f"{k} is {e.get(k)!r}")
    conv = g.cat.conv[name, version][1]
    want = {k for k, x in conv.items() if mandatory(x["flags"]) or not m}
    g.check(want <= set(e), "C07", f"missing {sorted(want - set(e))[:5]}")
    more = set(e) - want - RUN
    g.check(not more, "C07", f"unexpected entries {sorted(more)[:5]}")
    for k in want - RUN:
        x = conv[k]
        g.check(default_ok(x, e[k]), "C07",
                f"{k} is {e[k]!r} but its default is {x['default']!r}")
        if isinstance(x["default"], list):
            nd = len(x["dimensions"].split(",")[0].strip())
            shape = np.shape(np.array(x["default"]))
            if np.size(np.array(x["default"])) > 1:
                full = np.atleast_3d(np.array(x["default"])) if nd >= 3 \
                    else np.array(x["default"], ndmin=nd)
                g.check(spec.pad(np.shape(e[k])) == spec.pad(full.shape) or
                        (nd == 1 and np.size(e[k]) == shape[0] and
                         sorted(np.shape(e[k]))[:-1] ==
                         [1] * (np.ndim(e[k]) - 1)), "C07",
                        f"{k} has shape {np.shape(e[k])} for dimensions "
                        f"{x['dimensions']} and default {x['default']}")
    ro = {k for k, x in conv.items() if read_only(x["flags"])}
    for k in e:
        v = e[k] if not isinstance(e[k], np.ndarray) else e[k].copy()
        c2 = Call(setattr, c.value, k, v)
        g.check((c2.exc is not None) == (k in ro), "C07",
                f"{k} is {'not ' if k in ro else ''}read only: {c2}")


# ------------------------------------------------------------- C08 ... C13
def judged(g, n=4):
    r = g.rng
    for _ in range(10):
        s = g.new()
        if r.random() < .6:
            s.resize()
        for _ in range(r.randrange(n)):
            s.breakage()
        if s.comparable():
            return s
    return None


def run_verify(g, s, mode=None, how=None):
    r = g.rng
    mode = mode or r.choice(["read", "write"])
    how = how or r.choice(["return", "return", "raise", "print"])
    want = s.expect()
    before = freeze(s.ent)
    c = Call(s.obj.verify, how, mode)
    g.note(f"verify({how!r}, {mode!r}) -> {c}")
    if how == "return":
        text = c.value if c.exc is None else None
        if c.exc is not None:
            return mode, how, want, None, c, before
    elif how == "raise":
        if c.exc is not None and not isinstance(c.exc, ValueError):
            return mode, how, want, None, c, before
        text = "\n".join([str(c.exc)] if c.exc else []) + "\n" + \
            "\n".join(c.warned)
    else:
        if c.exc is not None:
            return mode, how, want, None, c, before
        text = c.out
    return mode, how, want, parse_issues(text or ""), c, before


def judge(g, prop, cats, s=None, how=None, mode=None, n=4):
    s = s or judged(g, n)
    if s is None:
        return
    mode, how, want, got, c, before = run_verify(g, s, mode, how)
    if got is None:
        g.fail(prop, f"verify({how!r}, {mode!r}) raised {c}")
    early = bool(want.types or (want.missing and how == "raise"))
    for cat in cats:
        if cat == "missing":
            rep = got.get("missing" if how == "raise" else "added")
            # warnings are kept back if wrong types end the verification
            if how != "raise" and early and rep is None:
                rep = set() if how == "print" else rep
            exp = want.missing
            if how == "raise" or not early or how == "return":
                g.check((rep or set()) == exp, prop,
                        f"missing {sorted(exp)[:5]} but reported {rep}")
        elif cat == "types":
            g.check(got.get("types", set()) == want.types, prop,
                    lambda: f"wrong types {sorted(want.types)[:5]} but "
                    f"reported {sorted(got.get('types', set()))[:5]}")
        elif early:
            continue
        elif cat in ("variables", "attr", "var", "reserved", "custom"):
            g.check(got.get(cat, set()) == want.names[cat], prop,
                    lambda: f"names ({cat}) {sorted(want.names[cat])[:5]} "
                    f"but reported {sorted(got.get(cat, set()))[:5]}")
        elif cat == "shapes":
            g.check(got.get("shapes", set()) == want.shapes, prop,
                    lambda: f"wrong shapes {sorted(want.shapes)[:5]} but "
                    f"reported {sorted(got.get('shapes', set()))[:5]}; "
                    f"sizes {want.sizes}, shapes "
                    f"{[(k, np.shape(s.ent[k])) for k in sorted(want.shapes ^ got.get('shapes', set()))]}")  # noqa
        elif cat == "rules":
            exp = set()
            for k, d in want.rules:
                exp.add(d)
            if mode == "write":
                exp |= want.upper
            g.check(got.get("rules", set()) == exp, prop,
                    lambda: f"rule violations {sorted(exp)[:5]} but reported"
                    f" {sorted(got.get('rules', set()))[:5]} "
                    f"({[(k, s.ent.get(k)) for k in sorted(exp ^ got.get('rules', set()))]})")  # noqa
        elif cat == "deprecated":
            g.check(("deprecated" in got) == bool(want.deprecated), prop,
                    f"deprecation of {s.key}: {want.deprecated}, reported: "
                    f"{'deprecated' in got}")
            text = str(c.exc or "") + " ".join(c.warned) + c.out + \
                str(c.value or "")
            g.check(not want.deprecated or want.deprecated in text, prop,
                    f"substitute {want.deprecated} is not named")
            if want.deprecated and how == "raise":
                g.check(any("deprecat" in w for w in c.warned) ==
                        (mode == "read") and
                        ("deprecat" in str(c.exc or "")) ==
                        (mode == "write"), prop,
                        f"deprecation in mode {mode}: {c}, {c.warned}")
            if want.deprecated and mode == "write" and how == "raise":
                g.check(isinstance(c.exc, ValueError), prop,
                        "deprecated convention passed for writing")
        elif cat == "preliminary":
            g.check(("preliminary" in got) == want.preliminary, prop,
                    f"version {s.key}: preliminary reported: "
                    f"{'preliminary' in got}")
    if how == "raise" and (set(cats) & {"missing", "types", "shapes",
                                        "rules", "var", "custom"}):
        err = want.errors(mode, how)
        bad = bool((want.missing and "missing" in cats) or
                   (want.types and "types" in cats) or
                   (want.shapes and "shapes" in cats) or
                   (want.rules and "rules" in cats) or
                   ("var" in cats and any(want.names.values())))
        g.check(not bad or isinstance(c.exc, ValueError), prop,
                f"an object with issues passed verification: {c}")
        g.check(err or c.exc is None, prop,
                f"a valid object was rejected: {c}")


def case_C08(g):
    r = g.rng
    s = g.new()
    for _ in range(r.randrange(3)):
        s.add_custom()
    k = r.random()
    if k < .5:
        ks = [n for n in s.ent if n not in (
            "GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")]
        for n in r.sample(ks, min(len(ks), r.choice([1, 1, 2, 5, 20]))):
            s.poke_delete(n)
    if k > .4:
        for n in r.sample(sorted(s.ent), min(len(s.ent), r.choice(
                [1, 1, 2, 4]))):
            if n in ("GLOBAL_SOFAConventions",
                     "GLOBAL_SOFAConventionsVersion"):
                continue
            s.poke(n, r.choice([
                lambda: None, lambda: np.array(["a", None], dtype=object),
                lambda: np.array(["a", "bc"], dtype=object),
                lambda: [None, 1.5], lambda: np.array([1, 2.5], dtype=object),
            ])() if r.random() < .2 else g.anything())
    if s.comparable():
        judge(g, "C08", ["missing", "types"], s)


def case_C09(g):
    r = g.rng
    s = None
    if r.random() < .5:
        s = from_file_names(g)
        if s is None:
            return
    else:
        s = g.new()
        for _ in range(r.randrange(1, 5)):
            s.add_custom()
            n = r.choice([
                lambda: r.choice(["PRIVATE", "API", "GLOBAL", "Private",
                                  "Api", "Global"]) + r.choice(
                                      ["", g.ident()]),
                lambda: r.choice([k[7:] for k in s.conv()
                                  if k.startswith("GLOBAL_")]),
                lambda: g.ident() + r.choice(["API", "PRIVATE", "GLOBAL"]),
            ])()
            c = Call(s.obj.add_variable, n, 1, "double", "I")
            g.note(f"add_variable({n!r}, 1, 'double', 'I') -> {c}")
            if c.exc is None and n not in s.conv():
                s.custom[n] = ("double", "I")
                a = n + "_" + g.ident()
                c = Call(s.obj.add_attribute, a, "b")
                g.note(f"add_attribute({a!r}, 'b') -> {c}")
                if c.exc is None and a not in s.conv():
                    s.custom[a] = ("attribute", None)
        for _ in range(r.randrange(3)):
            n = "GLOBAL_" + r.choice([
                lambda: r.choice([k for k in s.conv() if "_" not in k]),
                g.ident, lambda: r.choice(["API", "PRIVATE", "GLOBAL"])])()
            c = Call(s.obj.add_attribute, n, "b")
            g.note(f"add_attribute({n!r}, 'b') -> {c}")
            if c.exc is None and n not in s.conv():
                s.custom[n] = ("attribute", None)
        cs = [n for n in s.custom if n in s.ent]
        if cs and r.random() < .6:
            s.poke_delete(r.choice(cs))
    if s.comparable():
        judge(g, "C09", ["variables", "attr", "var", "reserved", "custom"],
              s)


def from_file_names(g):
    """Object read (unverified) from a file with arbitrary names."""
    r = g.rng
    path = os.path.join(g.w.tmp, "names.sofa")
    name, version = g.pick()
    conv = g.cat.conv[name, version][1]
    custom = {}
    with netCDF4.Dataset(path, "w", format="NETCDF4") as f:
        for d, n in (("I", 1), ("C", 3)):
            f.createDimension(d, n)
        f.setncattr("SOFAConventions", name)
        f.setncattr("SOFAConventionsVersion", version)
        for k, e in conv.items():
            if k.startswith("GLOBAL_") and mandatory(e["flags"]):
                f.setncattr(k[7:], e["default"] or "")
        for _ in range(r.randrange(1, 4)):
            base = r.choice(["MyData_x", "Data.x", "Data.x_y", "a_b", "PRIVA",
                             "Data._x", "Data.x_", "x_", "GLOBAL",
                             "Privatex", "APIx",
                             "PRIVATE_x", "API_y", "GLOBAL_z", "GLOBALx",
                             "MyPRIVATE", "Data_Data_x", "Data.Data_x",
                             "x" + g.ident(), "y" + g.ident() + "_z",
                             "Title", "GlobalX", "xData_y", "Data."
                             + g.ident()])
            key = base.replace(".", "_")
            if base in f.variables or key in conv or key in custom or \
                    key in ("Data_Data_x",) and "Data" in base[5:5]:
                continue
            if any(v.replace(".", "_") == key for v in f.variables):
                continue
            v = f.createVariable(base, "f8", ("I",))
            v[:] = 1.
            custom[key] = ("double", "I")
            if r.random() < .6:
                a = r.choice(["Units", "Type", "a_b", "x" + g.ident(),
                              "Long_Name_x"])
                v.setncattr(a, "metre")
                custom[f"{key}_{a}"] = ("attribute", None)
        for _ in range(r.randrange(3)):
            a = r.choice(["x" + g.ident(), "a_b", "GLOBAL_a",
                          "PRIVATE" + g.ident()])
            f.setncattr(a, "t")
            custom["GLOBAL_" + a] = ("attribute", None)
    custom = {k: v for k, v in custom.items() if k not in conv}
    c = Call(g.sf.read_sofa, path, False, False)
    g.note(f"read file with names {sorted(custom)} -> {c}")
    if c.exc is not None:
        return None
    s = Subject(g, c.value, custom)
    if set(custom) - set(s.ent):
        return None
    for k, e in s.conv().items():
        if mandatory(e["flags"]) and k not in s.ent:
            d = e["default"]
            s.poke(k, d)
    return s


def case_C10(g):
    r = g.rng
    s = g.new()
    for _ in range(r.randrange(4)):
        s.add_custom()
    if r.random() < .8:
        s.resize()
    tab = s.table()
    vs = [k for k in s.ent if tab[k]["dimensions"]]
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.choice(vs)
        v = s.ent[k]
        e = tab[k]
        sz = {**s.current_sizes()}
        x = r.random()
        k1 = [m for m in vs if len(np.shape(s.ent[m])) <= 1
              and np.size(s.ent[m]) in (4, 9)]
        if k1 and x < .3:
            k = r.choice(k1)
            n = int(np.sqrt(np.size(s.ent[k])))
            s.poke(k, np.asarray(s.ent[k]).reshape(n, n))
        elif x < .45:
            sz2 = g.sizes()
            for d in "KQII":
                sz2.setdefault(d, sz.get(d, 1))
            for d in sz:
                sz2.setdefault(d, sz[d])
            s.poke(k, g.fit(e, sz2))
        elif x < .7 and np.ndim(v) and np.ndim(v) < 4:
            v = np.asarray(v)
            s.poke(k, r.choice([
                lambda: v[..., None], lambda: np.stack([v, v], -1),
                lambda: v[None], lambda: np.concatenate([v, v]),
                lambda: v.T, lambda: v.ravel(), lambda: v[..., :1],
                lambda: v[:1]])())
        else:
            sh = tuple(r.choice([1, 1, 2, 3, sz.get("M", 1), sz.get("R", 1),
                                 sz.get("N", 1)]) or 1
                       for _ in range(r.randrange(1, 5)))
            s.poke(k, g.numbers(sh) if e["type"] == "double" else
                   g.strings(sh))
    if s.comparable():
        judge(g, "C10", ["shapes"], s)


def case_C11(g):
    r = g.rng
    s = g.new()
    if r.random() < .4:
        s.resize()
    texts = set()
    for key, rule in g.cat.rules.items():
        texts |= set(rule.get("value") or []) | set(rule.get("specific")
                                                    or {})
    texts = sorted(texts | {"x", "X", "", "Cartesian", "Metre", "hertz",
                            "Free Field", "fir", "Sofa", "TEXT", "SPHERICAL",
                            "metre, metre, metre"})
    tab = s.table()
    for _ in range(r.randrange(5)):
        keys = [spec.sofar_name(k) for k in g.cat.rules]
        deps = [spec.sofar_name(d) for x in g.cat.rules.values()
                for d in list(x.get("general", [])) +
                [y for z in (x.get("specific") or {}).values() for y in z]]
        k = r.choice(keys + deps)
        if k in ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"):
            continue
        if k in s.ent:
            if tab[k]["type"] == "attribute" and r.random() < .8:
                rule = next((x for n, x in g.cat.rules.items()
                             if spec.sofar_name(n) == k), {})
                own = list(rule.get("value") or []) + list(
                    rule.get("specific") or {})
                t = r.choice(texts if r.random() < .3 or not own else own)
                if r.random() < .15:
                    t = r.choice([t.upper(), t.capitalize(), t + " ",
                                  " " + t, t + "s", t[:-1]])
                s.poke(k, t)
            elif r.random() < .5:
                s.poke_delete(k)
        elif k in s.conv():
            s.poke(k, s.conv()[k]["default"])
    if r.random() < .3:
        s.add_custom()
    if s.comparable():
        judge(g, "C11", ["rules"], s)


def case_C12(g):
    r = g.rng
    s = g.new(mandatory_only=False)
    us = [k for k in s.ent if k.endswith("_Units")]
    for _ in range(r.randrange(1, 4)):
        k = r.choice(us)
        b = k[:-6]
        if b + "_Type" in s.ent and r.random() < .5:
            s.poke(b + "_Type", r.choice(["cartesian", "spherical",
                                          "Spherical"]))
        s.poke(k, s_unit(g))
    if r.random() < .2:
        c = Call(s.obj.add_variable, "xq", 1, "double", "I")
        c = Call(s.obj.add_attribute, "xq_Units", r.choice(["Q", "q"]))
        s.custom["xq"] = ("double", "I")
        s.custom["xq_Units"] = ("attribute", None)
    if s.comparable():
        judge(g, "C12", ["rules"], s, how="return")
    # conversion to the reference form
    cls = g.sf.Sofa
    f = getattr(cls, "_get_reference_unit", None)
    al = g.cat.unit_aliases
    if f is None:
        return
    single = {k: v for k, v in al.items() if " " not in k and
              k != "cubic"}
    ref = [r.choice(sorted(set(single.values()))) for _ in
           range(r.randrange(1, 5))]
    test = [r.choice([k for k, v in single.items() if v == x]) for x in ref]
    t = r.choice([", ", ",", " "]).join(test)
    if r.random() < .3:
        t = t.upper()
    c = Call(f, t, al)
    g.note(f"reference unit of {t!r} -> {c}")
    g.check(c.exc is None and c.value == ", ".join(ref), "C12",
            f"the reference unit of {t!r} is {c}, expected {', '.join(ref)}")
    f = getattr(cls, "_verify_unit", None)
    if f is not None:
        t = s_unit(g).lower()
        ref = r.choice(["metre", "degree, degree, metre", "hertz",
                        "cubic metre", "degree,degree,metre"])
        c = Call(f, t, [ref], al)
        want = spec.unit_ok(t, ref, al) if t != ref else None
        g.note(f"unit {t!r} for {ref!r} -> {c}")
        if want is not None:
            g.check(c.exc is None and bool(c.value) == want, "C12",
                    f"unit {t!r} for {ref!r}: {c}, expected {want}")


def s_unit(g):
    return Subject.unit(types.SimpleNamespace(g=g))


def case_C13(g):
    r = g.rng
    dep = [k for k in g.cat.conv
           if k[0] in g.cat.deprecations["GLOBAL:SOFAConventions"]]
    conv = r.choice(sorted(dep)) if dep and r.random() < .4 else g.pick()
    s = g.new(conv=conv)
    for _ in range(r.randrange(2)):
        s.breakage()
    if r.random() < .2:
        s.obj.protected = False
    if s.comparable():
        judge(g, "C13", ["deprecated", "preliminary"], s)
    # creating an object
    c = Call(g.sf.Sofa, conv[0], r.random() < .4, conv[1],
             r.choice(["auto", True, False]))
    g.note(f"Sofa{conv} -> {c} {c.warned}")
    if c.exc is None:
        g.check(any("preliminary" in w for w in c.warned) ==
                (float(conv[1]) < 1), "C13",
                f"creating {conv}: preliminary version reported: {c.warned}")


def case_C14(g):
    r = g.rng
    s = judged(g, 5)
    if s is None:
        return
    if r.random() < .25:
        # missing mandatory data, together with other issues
        tab = s.table()
        man = [k for k in s.ent if mandatory(tab[k]["flags"]) and k not in (
            "GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")]
        s.poke_delete(r.choice(man))
        if not s.comparable():
            return
    want = s.expect()
    mode = r.choice(["read", "write"])
    texts = {}
    for how in ("raise", "return", "print"):
        o = s.obj.copy()
        s2 = Subject(g, o, s.custom)
        c = Call(o.verify, how, mode)
        g.note(f"verify({how!r}, {mode!r}) -> {c} warned {len(c.warned)}")
        err, wrn = want.errors(mode, how), want.warnings(mode, how)
        early = bool(want.types)
        if how == "raise":
            g.check((c.exc is not None) == err and (
                c.exc is None or isinstance(c.exc, ValueError)), "C14",
                f"errors expected: {err}, verify raised: {c}")
            if not (want.missing or early):
                g.check(bool(c.warned) == wrn, "C14",
                        f"warnings expected: {wrn}, issued: {c.warned}")
            g.check(not c.out.strip(), "C14", f"printed {c.out[:80]}")
            texts["raise"] = parse_issues(str(c.exc) if c.exc else "")
        else:
            g.check(c.exc is None, "C14", f"mode {how} raised {c}")
            g.check(not c.warned, "C14", f"mode {how} warned {c.warned}")
            text = c.value if how == "return" else c.out
            if how == "return":
                g.check(not c.out.strip(), "C14", f"printed {c.out[:80]}")
                g.check((c.value is None) == (not err and not wrn), "C14",
                        f"errors {err}, warnings {wrn}, returned "
                        f"{str(c.value)[:200]}")
            else:
                g.check(bool(text.strip()) == (err or wrn), "C14",
                        f"errors {err}, warnings {wrn}, printed "
                        f"{text[:200]!r}")
            texts[how] = parse_issues(text or "")
            g.check(err == ("ERRORS" in (text or "")), "C14",
                    f"errors expected: {err}, text {str(text)[:200]}")
            if early:
                # (the convention itself is not judged yet)
                wrn = bool(want.missing)
            g.check(wrn == ("WARNINGS" in (text or "")), "C14",
                    f"warnings expected: {wrn}, text {str(text)[:200]}")
    a, b = texts["return"], texts["print"]
    skip = {"added", "missing", "preliminary"} | (
        {"deprecated"} if mode == "read" else set())
    f = lambda t: {k: v for k, v in t.items() if k not in skip}  # noqa
    g.check(f(a) == f(b), "C14", f"return reports {a}, print reports {b}")
    if not want.missing:
        g.check(f(a) == f(texts["raise"]), "C14",
                f"return reports {a}, raise reports {texts['raise']}")


def case_C16(g):
    r = g.rng
    s = g.new()
    for _ in range(r.randrange(4)):
        s.add_custom()
    if r.random() < .8:
        s.resize()
    if r.random() < .35:
        s.breakage()
    if not s.comparable():
        return
    want = s.expect()
    for d in r.sample("MNRECISKQX", 5) + ["", "m", "MM", "Data"][:r.randrange(
            5)]:
        c = Call(s.obj.get_dimension, d)
        g.note(f"get_dimension({d!r}) -> {c}")
        if want.types or want.shapes:
            g.check(isinstance(c.exc, ValueError), "C16",
                    f"get_dimension({d!r}) of inconsistent data: {c} "
                    f"(types {want.types}, shapes {want.shapes})")
        elif d not in want.sizes:
            g.check(isinstance(c.exc, ValueError), "C16",
                    f"unknown dimension {d!r}: {c}")
        else:
            g.check(c.exc is None and int(c.value) == int(want.sizes[d]),
                    "C16", f"dimension {d} is {c}, expected "
                    f"{want.sizes[d]}")


# ----------------------------------------------------------------- C17 ...
def file_bytes(p):
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


def case_C17(g):
    r = g.rng
    d = os.path.join(g.w.tmp, "c17")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    base = os.path.join(d, r.choice(["a", "x_y", "test-1"]))
    given = base + r.choice(["", "", ".sofa", ".sofa", ".nc", ".txt",
                             ".SOFA", ".sof"])
    path = base + ".sofa"
    if r.random() < .6:
        if r.random() < .5:
            with open(path, "wb") as f:
                f.write(b"old content")
        else:
            o = g.valid()
            if o is None:
                return
            c = Call(g.sf.write_sofa, path, o.obj)
    s = judged(g, 4) if r.random() < .7 else g.valid()
    if s is None or not s.comparable():
        return
    if not g.w.latest_ok(s.key[0]):
        return
    want = s.expect()
    before = file_bytes(path)
    if before is not None:
        os.utime(path, (10 ** 9, 10 ** 9))
    names = sorted(os.listdir(d))
    err = want.errors("write", "raise")
    c = Call(g.sf.write_sofa, given, s.obj, r.choice([0, 4, 9]))
    g.note(f"write_sofa({given!r}) -> {c}")
    if err:
        g.check(isinstance(c.exc, ValueError), "C17",
                f"an invalid object was written or raised {c}")
        g.check(file_bytes(path) == before and sorted(os.listdir(d)) ==
                names, "C17", "writing an invalid object changed the file")
    else:
        g.check(c.exc is None, "C17", f"writing a valid object raised {c}")
        g.check(sorted(os.listdir(d)) == sorted(
            set(names) | {os.path.basename(path)}), "C17",
            f"files {os.listdir(d)} after writing {given}")
        g.check(file_bytes(path) != before or os.stat(path).st_mtime > 10 ** 9,
                "C17", "the file was not written")
        with netCDF4.Dataset(path) as f:
            g.check(f.getncattr("SOFAConventions") == s.key[0], "C17",
                    "the file holds another object")


def decode(v):
    """Character variable -> list of texts with shape (last axis joined)."""
    v.set_auto_chartostring(False)
    a = np.ma.filled(v[:], b"\x00")
    flat = a.reshape(-1, a.shape[-1]) if a.size else a.reshape(-1, 1)
    out = [b"".join(row).rstrip(b"\x00").decode("ascii") for row in flat]
    return out, a.shape[:-1]


def case_C18(g):
    r = g.rng
    s = g.valid()
    if s is None:
        return
    path = os.path.join(g.w.tmp, "c18.sofa")
    if os.path.exists(path):
        os.remove(path)
    want, tab, ent = s.expect(), s.table(), freeze(s.ent)
    comp = r.choice([0, 1, 4, 9])
    c = Call(g.sf.write_sofa, path, s.obj, comp)
    g.note(f"write_sofa(compression={comp}) -> {c}")
    g.check(c.exc is None, "C18", f"writing a valid object raised {c}")
    check_file(g, "C18", path, ent, tab, want, comp)
    unchanged(g, "C18", ent, s, "writing")


def check_file(g, prop, path, ent, tab, want, comp=None):
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        dims = {k: len(v) for k, v in f.dimensions.items()}
        sizes = {k: int(v) for k, v in want.sizes.items()}
        sizes["S"] = max(1, sizes["S"]) if dims.get("S") else sizes["S"]
        g.check(dims == sizes, prop,
                f"dimensions {dims} in the file, expected {sizes}")
        ga = {k[7:]: v for k, v in ent.items() if k.startswith("GLOBAL_")}
        fa = {k: f.getncattr(k) for k in f.ncattrs()}
        g.check(set(ga) == set(fa), prop,
                lambda: f"global attributes differ: {set(ga) ^ set(fa)}")
        for k in ga:
            g.check(fa[k] == str(ga[k]), prop,
                    f"attribute {k} is {fa[k]!r} instead of {ga[k]!r}")
        vs = {k: v for k, v in ent.items() if tab[k]["type"] != "attribute"}
        fv = {netname(k): k for k in vs}
        g.check(set(fv) == set(f.variables), prop, lambda:
                f"variables differ: {set(fv) ^ set(f.variables)}")
        for n, k in fv.items():
            e, v, val = tab[k], f.variables[n], vs[k]
            dim = matches_all(e, val, want.sizes)
            g.check("".join(v.dimensions) in dim, prop,
                    f"{n} has dimensions {v.dimensions}, expected {dim}")
            if e["type"] == "double":
                g.check(v.dtype == np.dtype("f8"), prop,
                        f"{n} has type {v.dtype}")
                got = np.asarray(v[:])
                exp = np.asarray(val, dtype="f8")
                g.check(got.size == exp.size and np.array_equal(
                    got.ravel(), exp.ravel(), equal_nan=True), prop,
                    lambda: f"{n}: {got.ravel()[:5]} instead of "
                    f"{exp.ravel()[:5]}")
                if exp.ndim:
                    shp = spec.shape_of(e, val)
                    g.check(spec.pad(got.shape) == shp, prop,
                            f"{n} has shape {got.shape}, expected {shp}")
            else:
                g.check(v.dtype.kind == "S", prop, f"{n} is {v.dtype}")
                got, shp = decode(v)
                exp = [str(x) for x in np.asarray(val).ravel()]
                g.check(got == exp, prop, f"{n}: {got} instead of {exp}")
            if comp is not None:
                flt = v.filters() or {}
                g.check(bool(flt.get("zlib")) == (comp != 0), prop,
                        f"{n}: compression {flt}")
            ka = {a[len(k) + 1:]: x for a, x in ent.items()
                  if tab[a]["type"] == "attribute" and
                  a.rpartition("_")[0] == k}
            va = {a: v.getncattr(a) for a in v.ncattrs()
                  if a != "_Encoding"}
            g.check(set(ka) == set(va), prop,
                    lambda: f"attributes of {n} differ: {set(ka) ^ set(va)}")
            for a in ka:
                g.check(va[a] == str(ka[a]), prop,
                        f"{n}:{a} is {va[a]!r} instead of {ka[a]!r}")


def netname(k):
    return "Data." + k[5:] if k.startswith("Data_") else k


def matches_all(e, v, sizes):
    out = []
    sh = spec.shape_of(e, v)
    for alt in e["dimensions"].split(","):
        alt = alt.strip()
        if sh == spec.pad([1 if d == "S" else sizes[d.upper()]
                           for d in alt]):
            out.append(alt.upper())
    return out


def case_C19(g):
    """Files written by this harness, not by the package."""
    r = g.rng
    path = os.path.join(g.w.tmp, "c19.sofa")
    if os.path.exists(path):
        os.remove(path)
    s = g.valid() if r.random() < .8 else judged(g, 3)
    if s is None or any(s.expect().types) or not s.comparable():
        return
    ent, tab = freeze(s.ent), s.table()
    want = s.expect()
    sizes = {k: int(v) for k, v in want.sizes.items()}
    sizes["S"] = max(1, sizes["S"])
    name, version = s.key
    fn, fv = name, version
    if r.random() < .12:
        fn, fv = r.choice([(name + "x", version), (name, "8.8"),
                           (name[:-1], version), (name.lower(), version)])
    content, regs = {}, {}
    drop = r.random() < .5
    with netCDF4.Dataset(path, "w", format="NETCDF4") as f:
        for d, n in sizes.items():
            f.createDimension(d, n)
        for k, v in ent.items():
            if not k.startswith("GLOBAL_") or tab[k]["type"] != "attribute":
                continue
            if drop and r.random() < .2 and k not in (
                    "GLOBAL_SOFAConventions",
                    "GLOBAL_SOFAConventionsVersion"):
                continue
            if k == "GLOBAL_SOFAConventions":
                v = fn
            if k == "GLOBAL_SOFAConventionsVersion":
                v = fv
            f.setncattr(k[7:], v)
            content[k] = v
        if r.random() < .4:
            f.setncattr("xCustom", "c")
            content["GLOBAL_xCustom"] = "c"
        order = [k for k in ent if tab[k]["dimensions"] is not None]
        r.shuffle(order)
        for k in order:
            if drop and r.random() < .2:
                continue
            m = matches_all(tab[k], ent[k], want.sizes)
            if not m:
                continue
            dims = r.choice(m)
            val = np.asarray(ent[k])
            shape = tuple(sizes[d] for d in dims)
            vs = tuple(sizes[d] for d in dims)
            if tab[k]["type"] == "double":
                v = f.createVariable(netname(k), r.choice(
                    ["f8", "f8", "f4", "i4"]), tuple(dims))
                data = val.reshape(shape)
                if v.dtype.kind == "i" and not np.array_equal(
                        data, data.astype("i4")):
                    data = data.astype("i4")
                data = data.astype(v.dtype)
                v[:] = data
            else:
                v = f.createVariable(netname(k), "S1", tuple(dims))
                S = sizes["S"]
                chars = np.array([list(x.ljust(S, "\0")) for x in
                                  val.astype("U").ravel()],
                                 dtype="S1")
                if dims[-1] != "S":
                    continue
                v[:] = chars.reshape(vs)
                data = val.astype("U")
            content[k] = data
            if k not in s.conv():
                regs[k] = (tab[k]["type"], dims)
            for a in ent:
                if tab[a]["type"] == "attribute" and \
                        a.rpartition("_")[0] == k and not (
                            drop and r.random() < .2):
                    v.setncattr(a[len(k) + 1:], ent[a])
                    content[a] = ent[a]
            if r.random() < .1:
                v.setncattr("xNote", "n")
                content[k + "_xNote"] = "n"
    verify = r.choice(["auto", False, False, True])
    given = path if r.random() < .7 else path[:-5]
    c = Call(g.sf.read_sofa, given, verify, r.random() < .3)
    g.note(f"read_sofa(verify={verify!r}) of {sorted(content)} -> {c}")
    missing = Call(g.sf.read_sofa, os.path.join(g.w.tmp, "not_there"))
    g.check(isinstance(missing.exc, ValueError), "C19",
            f"reading a missing file: {missing}")
    if (fn, fv) not in g.cat.conv:
        g.check(isinstance(c.exc, ValueError), "C19",
                f"file with convention {fn} {fv}: {c}")
        return
    custom = {k: (tab[k]["type"], tab[k]["dimensions"]) for k in content
              if k in tab and k not in s.conv()}
    for k in content:
        if k not in s.conv() and k not in custom:
            custom[k] = ("attribute", None)
    custom.update(regs)
    applies = verify is True or (verify == "auto" and float(fv) >= 1)
    default_bad = Call(g.sf.Sofa, fn, False, fv,
                       verify if verify != "auto" else "auto").exc
    exp = spec.expect(g.cat, content, custom) if all(
        k in spec.table(g.cat, content, custom)[0] for k in content) else None
    if default_bad is not None and applies:
        return
    if applies and exp is not None and exp.agree:
        sub = Subject(g, types.SimpleNamespace(**content), custom)
        if not sub.comparable():
            return
        bad = exp.errors("read", "raise")
        g.check((c.exc is not None) == bad and (
            c.exc is None or isinstance(c.exc, ValueError)), "C19",
            f"reading with verification: {c}, rejected expected: {bad}")
    if c.exc is not None:
        g.check(applies, "C19", f"reading without verification raised {c}")
        return
    check_content(g, "C19", entries(c.value), content)
    g.check(c.value.protected is True, "C03",
            "an object read from a file is not protected")
    for k, (t, d) in custom.items():
        e = getattr(c.value, "_convention", {}).get(k)
        g.check(e is not None and e["type"] == t and
                (d is None or e["dimensions"].upper() ==
                 spec.reg_dims(d).upper()) and not mandatory(e["flags"]),
                "C19", f"custom {k} ({t}, {d}) is registered as {e}")
    # the same through the netCDF reader
    if r.random() < .3:
        c = Call(g.sf.read_sofa_as_netcdf, path)
        if c.exc is None:
            check_content(g, "C19", entries(c.value), content)
        else:
            g.fail("C19", f"read_sofa_as_netcdf raised {c}")


def check_content(g, prop, got, content):
    g.check(set(got) == set(content), prop,
            lambda: f"entries differ: not read {sorted(set(content) - set(got))[:5]}, "  # noqa
            f"invented {sorted(set(got) - set(content))[:5]}")
    for k, v in content.items():
        same_value(g, prop, k, got[k], v)


def same_value(g, prop, k, a, v):
    if isinstance(v, str):
        g.check(np.size(a) == 1 and str(np.ravel(a)[0]) == v, prop,
                f"{k} is {a!r} instead of {v!r}")
        return
    x, y = np.asarray(a), np.asarray(v)
    g.check(x.size == y.size, prop, f"{k} has {x.shape} instead of {y.shape}")
    if y.dtype.kind in "US":
        g.check([str(i) for i in x.ravel()] == [str(i) for i in y.ravel()],
                prop, f"{k} is {x!r} instead of {y!r}")
    else:
        g.check(x.dtype.kind in "fi" and np.array_equal(
            x.ravel().astype("f8"), y.ravel().astype("f8"),
            equal_nan=True), prop,
            lambda: f"{k} is {x.ravel()[:4]} instead of {y.ravel()[:4]}")
    trim = lambda s: tuple(s)[:max([i + 1 for i, n in enumerate(s)  # noqa
                                    if n != 1], default=0)]
    if y.size > 1:
        g.check(trim(x.shape) == trim(y.shape), prop,
                f"{k} has shape {x.shape} instead of {y.shape}")


def case_C20(g):
    r = g.rng
    s = g.valid()
    if s is None:
        return
    path = os.path.join(g.w.tmp, "c20.sofa")
    ent, tab = freeze(s.ent), s.table()
    c = Call(g.sf.write_sofa, path, s.obj, r.choice([0, 4]))
    g.note(f"write -> {c}")
    g.check(c.exc is None, "C20", f"writing a valid object raised {c}")
    orphan = any(tab[k]["type"] == "attribute" and
                 not k.startswith("GLOBAL_") and
                 k.rpartition("_")[0] not in ent for k in ent)
    c = Call(g.sf.read_sofa, path, False if orphan else
             r.choice(["auto", False]),
             r.random() < .5)
    g.note(f"read -> {c}")
    g.check(c.exc is None, "C20", f"reading the written file raised {c}")
    got = entries(c.value)
    orphans = {k for k in ent if tab[k]["type"] == "attribute" and
               not k.startswith("GLOBAL_") and k.rpartition("_")[0]
               not in ent}
    g.check(set(got) == set(ent) - orphans, "C20",
            f"entries differ: {set(got) ^ (set(ent) - orphans)}")
    for k in got:
        e = tab[k]
        v = ent[k]
        if e["type"] == "double" and np.ndim(v) == 1 and \
                len(e["dimensions"].split(",")[0]) > 1:
            v = np.asarray(v)[None]
        if e["type"] == "double" and \
                len(e["dimensions"].split(",")[0]) == 1:
            v = np.ravel(v)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            v = v.astype("f8")
        same_value(g, "C20", k, got[k], v)
    c2 = Call(g.sf.equals, s.obj, c.value, True, None)
    if not orphans and not any(
            np.ndim(v) == 1 for v in ent.values()):
        g.check(c2.exc is None and c2.value is True, "C20",
                f"equals(original, read) is {c2} {c2.warned}")
    # and once more
    if orphans:
        return
    c3 = Call(g.sf.write_sofa, path, c.value)
    g.check(c3.exc is None, "C20", f"writing the read object raised {c3}")


# ----------------------------------------------------------------------- C21
def case_C21(g):
    r = g.rng
    s = g.new()
    if r.random() < .7:
        s.resize()
    for _ in range(r.randrange(3)):
        s.add_custom()
    o = s.obj.copy()
    t = Subject(g, o, s.custom)
    tab = s.table()
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        x = r.random()
        side = r.choice([s, t])
        k = r.choice(sorted(side.ent))
        if k in ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"):
            continue
        v = side.ent[k]
        if x < .2:
            side.poke_delete(k)
        elif x < .3:
            side.add_custom()
        elif tab.get(k, {}).get("type") == "attribute":
            side.poke(k, r.choice([v + "x", v + " ", v.upper(), "", v[:-1],
                                   v]))
        elif tab.get(k) is None:
            continue
        elif tab[k]["type"] == "double":
            a = np.array(v, dtype=float)
            y = r.random()
            if y < .4:
                i = r.randrange(a.size)
                a.ravel()[i] if a.ndim else None
                f = a.ravel().copy()
                f[i] = r.choice([f[i] + 1, f[i] * (1 + 1e-3) + 1e-3,
                                 f[i] * (1 + 1e-12), -f[i] - .5,
                                 f[i] * (1 + 1e-5), 0, np.nan, np.inf,
                                 -f[i], 2 * f[i]])
                side.poke(k, f.reshape(a.shape))
                if r.random() < .3:
                    # both sides tiny
                    h = f.copy()
                    f[i], h[i] = r.choice([
                        (1e-9, 2e-9), (0., 1e-13), (1e-300, -1e-300),
                        (np.nan, np.nan), (np.nan, 0.), (np.inf, -np.inf),
                        (np.inf, np.inf), (np.inf, np.nan), (1e-9, 1e-9),
                        (0., -0.), (1e15, 1e15 + 1)])
                    for o_, v_ in ((s, f), (t, h)):
                        if k in o_.ent:
                            o_.poke(k, v_.reshape(a.shape))
            elif y < .6:
                side.poke(k, r.choice([lambda: a[..., None],
                                       lambda: a[None],
                                       lambda: np.squeeze(a)])())
            elif y < .8:
                side.poke(k, np.full(r.choice([(1, 2), (3, 1), (2, 2, 2)]),
                                     a.ravel()[0]))
            else:
                side.poke(k, a.T if a.ndim > 1 else a)
        else:
            a = np.asarray(v).astype("U")
            y = r.random()
            if y < .5:
                f = a.ravel().copy().astype("U400")
                i = r.randrange(f.size)
                f[i] = r.choice([f[i] + "x", "", f[i].upper(), f[i], "\xe4",
                                 f[i] + " ", " " + f[i], f[i][:-1]])
                if r.random() < .2:
                    # both sides long
                    h = f.copy()
                    f[i] = "b" * r.choice([30, 60, 200])
                    h[i] = f[i] + r.choice(["", "c", " "])
                    o_ = t if side is s else s
                    if k in o_.ent:
                        o_.poke(k, h.reshape(a.shape))
                side.poke(k, f.reshape(a.shape))
            elif y < .8:
                side.poke(k, np.full(r.choice([(2,), (3, 1)]),
                                     str(a.ravel()[0])))
            else:
                side.poke(k, a[..., None])
    if r.random() < .15:
        # texts that differ only at the end
        c = r.choice([10, 11, 12, 13, 25, 60, 150])
        a = np.array(["a" * c + "x", "b"], dtype="U")
        b = a.copy()
        if r.random() < .7:
            b[0] = "a" * c + "y"
        for o_, v_ in ((s, a), (t, b)):
            c_ = Call(o_.obj.add_variable, "Zq", v_, "string", "I")
            g.note(f"add_variable('Zq', {v_!r}) -> {c_}")
            if c_.exc is None:
                o_.custom["Zq"] = ("string", "I")
    for x in (s, t):
        if r.random() < .08:
            n = r.choice(["GLOBAL_xDate", "GLOBAL_DateOfx", "Datex",
                          "ReceiverPosition_Date", "GLOBAL_date", "GLOBALs",
                          "Attr"])
            c = Call(x.obj.add_attribute, n, r.choice("ab")) if "_" in n \
                else Call(x.obj.add_variable, n, r.randrange(2), "double",
                          "I")
            if c.exc is None:
                x.custom[n] = ("attribute", None) if "_" in n else \
                    ("double", "I")
    # order of entries does not matter
    if r.random() < .3:
        d = t.obj.__dict__
        items = list(d.items())
        r.shuffle(items)
        d.clear()
        d.update(items)
    if r.random() < .06:
        # the same name with another type
        n = "xT" + g.ident()
        v = r.choice([("a", 1), ("1", 1), ("0.5", .5), ("", 0)])
        Call(s.obj.add_variable, n, v[0], "string", "I")
        Call(t.obj.add_variable, n, v[1], "double", "I")
        s.custom[n], t.custom[n] = ("string", "I"), ("double", "I")
    ex = r.choice([None, None, "GLOBAL", "ATTR", "DATE", "global", "Attr",
                   "date", r.choice(["x", "", "globals", "ALL"])])
    c = Call(g.sf.equals, s.obj, t.obj, r.random() < .5, ex)
    c2 = Call(g.sf.equals, t.obj, s.obj, False, ex)
    g.note(f"equals(exclude={ex!r}) -> {c}")
    if ex is not None and ex.upper() not in ("GLOBAL", "ATTR", "DATE"):
        g.check(isinstance(c.exc, ValueError), "C21",
                f"unknown exclusion {ex!r}: {c}")
        return
    want = spec_equal(s, t, ex)
    if want is None:
        return
    g.check(c.exc is None and c2.exc is None, "C21",
            f"equals raised {c} / {c2}")
    g.check(c.value is want or c.value == want, "C21",
            f"equals is {c.value}, expected {want}")
    g.check(bool(c.value) == bool(c2.value), "C21",
            f"equals(a, b) is {c.value}, equals(b, a) is {c2.value}")


def spec_equal(s, t, ex):
    ex = ex.upper() if ex else None
    ts, tt = s.table(), t.table()

    def keep(k, tab):
        return not ((ex == "GLOBAL" and k.startswith("GLOBAL_")) or
                    (ex == "ATTR" and tab[k]["type"] == "attribute") or
                    (ex == "DATE" and "Date" in k))
    a = {k: v for k, v in s.ent.items() if keep(k, ts)}
    b = {k: v for k, v in t.ent.items() if keep(k, tt)}
    if set(a) != set(b):
        return False
    res = True
    for k in a:
        x, y = ts[k]["type"], tt[k]["type"]
        if x != y:
            res = False
        elif x == "attribute":
            if not isinstance(a[k], str) or not isinstance(b[k], str):
                return None
            res = res and a[k] == b[k]
        elif x == "double":
            p, q = np.squeeze(a[k]), np.squeeze(b[k])
            if p.dtype.kind not in "if" or q.dtype.kind not in "if":
                return None
            if p.shape != q.shape:
                res = False
                continue
            p, q = p.astype(float), q.astype(float)
            fin = np.isfinite(p) & np.isfinite(q)
            # not a number agrees with itself, infinity with itself
            if not np.array_equal(p[~fin], q[~fin], equal_nan=True):
                res = False
                continue
            p, q = p[fin], q[fin]
            tol = np.abs(p - q)
            ref = np.minimum(np.abs(p), np.abs(q))
            if np.any((tol > .5e-7 * ref) & (tol < 2e-7 * ref)):
                return None
            res = res and bool(np.all(tol <= 1e-7 * np.abs(q)))
        else:
            p, q = np.squeeze(a[k]), np.squeeze(b[k])
            if p.dtype.kind not in "U" or q.dtype.kind not in "U":
                return None
            res = res and p.shape == q.shape and bool(np.all(p == q))
    return res


# ----------------------------------------------------------------------- C22
def case_C22(g):
    r = g.rng
    s = g.new()
    for _ in range(r.randrange(4)):
        r.choice([s.add_custom, s.resize, s.breakage])()
    if r.random() < .3:
        s.obj.protected = False
    c = Call(s.obj.copy)
    g.check(c.exc is None, "C22", f"copy raised {c}")
    o = c.value
    g.check(o is not s.obj and type(o) is type(s.obj), "C22",
            f"copy returned {o!r}")
    d = same_state(s.ent, entries(o))
    g.check(not d, "C22", f"the copy differs in {d[:5]}")
    g.check(o.protected == s.obj.protected, "C22",
            "the copy has another protection")
    for k, v in s.ent.items():
        w = entries(o)[k]
        if isinstance(v, np.ndarray) and v.size:
            g.check(not np.shares_memory(v, w), "C22",
                    f"{k} of the copy shares its memory with the original")
    s.obj.protected = o.protected = True
    t = Subject(g, o, s.custom)
    first, second = (s, t) if r.random() < .5 else (t, s)
    ref = freeze(second.ent)
    refi = _copy.deepcopy({k: v for k, v in second.obj.__dict__.items()
                           if k.startswith("_")})
    for _ in range(4):
        k = r.randrange(6)
        if k == 0:
            for n, v in first.ent.items():
                if isinstance(v, np.ndarray) and v.size and \
                        v.dtype.kind in "fi" and v.flags.writeable:
                    v += 1
        elif k in (1, 2):
            if set(first.ent) <= set(first.table()):
                (first.add_custom if k == 1 else first.breakage)()
        elif k == 3:
            Call(first.obj.verify, "return")
        elif k == 4:
            Call(first.obj.add_missing)
        else:
            tg = Call(first.obj.upgrade_convention).value
            if isinstance(tg, list) and tg:
                Call(first.obj.upgrade_convention, tg[0], False)
        d = same_state(ref, second.ent)
        g.check(not d, "C22", f"an operation on one object changed {d[:5]} "
                "of the other")
        now = {k: v for k, v in second.obj.__dict__.items()
               if k.startswith("_")}
        g.check(_eq(refi, now), "C22", "an operation on one object changed "
                "private data of the other")
    # the copy knows the custom data
    if second.comparable():
        v = second.expect()
        c = Call(second.obj.verify, "return", "read")
        g.check(c.exc is None, "C22", f"verifying the copy raised {c}")


def _eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return same(a, b)
    return a == b


# ----------------------------------------------------------------------- C23
def case_C23(g):
    r = g.rng
    up = [k for k in g.cat.conv if k[0] in g.cat.upgrade or
          k[0] in g.cat.deprecations["GLOBAL:SOFAConventions"]]
    conv = r.choice(sorted(up)) if up and r.random() < .85 else g.pick()
    s = g.new(conv=conv)
    if r.random() < .6:
        s.resize()
    for _ in range(r.randrange(3)):
        r.choice([s.add_custom, s.delete_optional])()
    if r.random() < .35:
        # custom data with names the upgrade knows
        n = r.choice(["ExtraA", "ExtraB", "ExtraC", "NotThere",
                      "GLOBAL_Comment", "ExtraQ"])
        if n not in s.ent and n not in s.conv():
            c = Call(s.obj.add_attribute, n, "c") if "_" in n else \
                Call(s.obj.add_variable, n, 1, "double", "I")
            if c.exc is None:
                g.note(f"custom {n}")
                s.custom[n] = ("attribute", None) if "_" in n else \
                    ("double", "I")
    rules = g.cat.upgrade.get(conv[0])
    ft = None
    if rules is not None:
        ft = next((x for x in rules["from_to"] if conv[1] in x[0]), None)
    before = freeze(s.ent)
    deprecated = conv[0] in g.cat.deprecations["GLOBAL:SOFAConventions"] or \
        ft is not None
    bad = r.choice([None, "x", "GeneralFIR", "x_1.0", conv[0] + "_" +
                    conv[1]])
    if ft is not None and bad in ft[1]:
        bad = None
    c = Call(s.obj.upgrade_convention, bad)
    g.note(f"upgrade_convention({bad!r}) -> {c}")
    g.check(c.exc is None, "C23", f"upgrade_convention({bad!r}) raised {c}")
    unchanged(g, "C23", before, s, "asking for targets")
    if not deprecated:
        g.check(c.value == [], "C23", f"up to date but returned {c.value}")
        return
    if ft is None:
        g.check(c.value in (None, []), "C23", f"no rules but {c.value}")
        return
    g.check(c.value is not None and list(c.value) == list(ft[1]), "C23",
            f"targets {c.value} instead of {ft[1]}")
    target = r.choice(ft[1])
    rule = rules[ft[2]]
    # the rules are only defined if their data do not collide
    srcs = [spec.sofar_name(x) for x in rule["move"]]
    dsts = [spec.sofar_name(m["target"]) for m in rule["move"].values()]
    if len(set(dsts)) < len(dsts):
        return
    have = [(a, b) for a, b in zip(srcs, dsts) if a in before]
    for a, b in have:
        if b in before and b != a:
            return
        ax = rule["move"][next(k for k in rule["move"]
                               if spec.sofar_name(k) == a)]["moveaxis"]
        if ax is not None and (isinstance(before[a], dict) or
                               np.ndim(before[a]) > 4):
            return
    tname, tver = target.split("_")
    if (tname, tver) not in g.cat.conv:
        return
    tconv = g.cat.conv[tname, tver][1]
    moved_ro = False
    c = Call(s.obj.upgrade_convention, target, False)
    g.note(f"upgrade_convention({target!r}, verify=False) -> {c}")
    g.check(c.exc is None, "C23", f"upgrading to {target} raised {c}")
    after = s.ent
    key = (after["GLOBAL_SOFAConventions"],
           after["GLOBAL_SOFAConventionsVersion"])
    g.check(key == (tname, tver), "C23", f"upgraded to {key}")
    exp = dict(before)
    for k in ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
              "GLOBAL_Version", "GLOBAL_DataType"):
        exp[k] = tconv[k]["default"]
    data = {}
    for src, m in rule["move"].items():
        a, b = spec.sofar_name(src), spec.sofar_name(m["target"])
        if a not in exp:
            continue
        v = exp.pop(a)
        if m["moveaxis"] is not None:
            v = np.asarray(v)
            while v.ndim < np.max(m["moveaxis"]) + 1:
                v = v[..., None]
            v = np.moveaxis(v, m["moveaxis"][0], m["moveaxis"][1])
        exp[b] = v
    for n in rule["remove"]:
        exp.pop(spec.sofar_name(n), None)
    added = {k for k, e in tconv.items() if mandatory(e["flags"]) and
             k not in exp}
    g.check(set(after) == set(exp) | added, "C23",
            lambda: f"entries differ: {set(after) ^ (set(exp) | added)}")
    for k, v in exp.items():
        g.check(same(np.asarray(v) if not isinstance(v, (str, dict)) else v,
                     np.asarray(after[k]) if not isinstance(
                         after[k], (str, dict)) else after[k]), "C23",
                lambda: f"{k} is {after[k]!r} instead of {v!r}")
    for k in added:
        g.check(default_ok(tconv[k], after[k]), "C23",
                f"{k} is {after[k]!r} instead of its default")
    g.check(s.obj.protected is True, "C03", "not protected after upgrading")
    for k in after:
        v = after[k]
        c2 = Call(setattr, s.obj, k, v)
        g.check((c2.exc is not None) == (k in tconv and read_only(
            tconv[k]["flags"])), "C23",
            f"{k} of the upgraded object: {c2}")


# ----------------------------------------------------------------------- C24
def case_C24(g):
    r = g.rng
    s = g.new()
    for _ in range(r.randrange(3)):
        s.add_custom()
    ks = [n for n in s.ent if n not in ("GLOBAL_SOFAConventions",
                                        "GLOBAL_SOFAConventionsVersion")]
    for n in r.sample(ks, r.randrange(0, len(ks) // 2)):
        s.poke_delete(n)
    if r.random() < .5:
        for n in r.sample(sorted(s.ent), 2):
            if n in ks:
                s.poke(n, r.choice([g.anything, g.anything, lambda: None,
                                    lambda: "", lambda: 0,
                                    lambda: []])())
    before = freeze(s.ent)
    m, o = r.random() < .6, r.random() < .6
    c = Call(s.obj.add_missing, m, o)
    g.note(f"add_missing({m}, {o}) -> {c}")
    g.check(c.exc is None, "C24", f"add_missing raised {c}")
    conv = s.conv()
    want = {k for k, e in conv.items() if k not in before and
            (m if mandatory(e["flags"]) else o)}
    after = s.ent
    g.check(set(after) == set(before) | want, "C24",
            lambda: f"entries added {sorted(set(after) - set(before))[:6]}, "
            f"expected {sorted(want)[:6]}")
    d = [k for k in before if not same(before[k], after[k])]
    g.check(not d, "C24", f"add_missing changed {d[:5]}")
    for k in want:
        g.check(default_ok(conv[k], after[k]), "C24",
                f"{k} is {after[k]!r}, default {conv[k]['default']!r}")
    rep = {x[2:].split(" ")[0]: x for x in c.out.split("\n")
           if x.startswith("- ")}
    g.check(set(rep) == want, "C24", f"reported {sorted(rep)[:5]}, added "
            f"{sorted(want)[:5]}")
    for k, x in rep.items():
        g.check(("mandatory" in x) == mandatory(conv[k]["flags"]), "C24",
                f"reported {x!r}")


# ----------------------------------------------------------------------- C25
def case_C25(g):
    r = g.rng
    s = g.valid()
    if s is None:
        return
    path = os.path.join(g.w.tmp, "c25.sofa")
    c = Call(g.sf.write_sofa, path, s.obj)
    if c.exc is not None:
        return
    with netCDF4.Dataset(path, "a") as f:
        if r.random() < .4:
            f.setncattr(r.choice(["name", "Units", "Data", "path",
                                  "ListenerPosition2"]), "global text")
        if r.random() < .4:
            v = f.variables[r.choice(sorted(f.variables))]
            v.setncattr(r.choice(["Note", "Title", "a_b", "xName"]), "v")
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        cont, dims = {}, {k: len(v) for k, v in f.dimensions.items()}
        for a in f.ncattrs():
            cont["GLOBAL_" + a] = f.getncattr(a)
        for n, v in f.variables.items():
            k = n.replace(".", "_")
            cont[k] = np.asarray(v[:])
            for a in v.ncattrs():
                if a != "_Encoding":
                    cont[k + "_" + a] = v.getncattr(a)
    cls = g.sf.SofaStream
    before = file_bytes(path)
    held = None
    leave = r.choice([KeyboardInterrupt, OSError, ValueError, MemoryError,
                      StopIteration, SystemExit, RuntimeError, KeyError,
                      FileNotFoundError, GeneratorExit])("leave")
    real = netCDF4.Dataset
    opened = []
    try:
        with cls(path) as st:
            for k, v in cont.items():
                if k in ("list_dimensions", "get_dimension", "inspect"):
                    continue
                c = Call(getattr, st, k)
                g.check(c.exc is None, "C25", f"{k} raised {c}")
                x = c.value
                if isinstance(v, np.ndarray):
                    x = np.ma.filled(x[:], b"\0" if v.dtype.kind == "S"
                                     else 0)
                    held = c.value
                    g.check(same(np.asarray(x), v), "C25",
                            f"{k} is {x!r} instead of {v!r}")
                else:
                    g.check(x == v, "C25", f"{k} is {x!r} instead of {v!r}")
            for _ in range(6):
                n = r.choice([
                    lambda: g.ident(), lambda: "GLOBAL_" + g.ident(),
                    lambda: r.choice(sorted(cont)) + "_" + g.ident(),
                    lambda: r.choice(sorted(cont))[:-1],
                    lambda: "GLOBAL_" + r.choice(sorted(cont)),
                    lambda: r.choice(sorted(cont)).replace("GLOBAL_", ""),
                    lambda: "Data_" + r.choice(sorted(cont)),
                    lambda: r.choice([k[7:] for k in cont if k.startswith(
                        "GLOBAL_")]) + "_" + r.choice(["Type", g.ident()]),
                    lambda: r.choice(sorted(cont)).lower()])()
                if n in cont or n.startswith("_") or hasattr(cls, n):
                    continue
                if not n.startswith("GLOBAL_") and "GLOBAL_" + n in cont:
                    continue        # global attribute under its file name
                c = Call(getattr, st, n)
                g.note(f"stream.{n} -> {c}")
                g.check(isinstance(c.exc, AttributeError), "C25",
                        f"{n} is not in the file but {c}")
            for d, n in dims.items():
                c = Call(st.get_dimension, d)
                g.check(c.exc is None and c.value == n, "C25",
                        f"dimension {d} is {c} instead of {n}")
            for d in ("Q" + g.ident(), "m", ""):
                if d not in dims:
                    c = Call(st.get_dimension, d)
                    g.check(isinstance(c.exc, ValueError), "C25",
                            f"unknown dimension {d!r}: {c}")
            c = Call(lambda: st.list_dimensions)
            g.check(c.exc is None, "C25", f"list_dimensions raised {c}")
            c = Call(st.inspect)
            g.check(c.exc is None, "C25", f"inspect raised {c}")
            # opened read only
            if held is not None:
                c = Call(held.setncattr, "x", "y")
                g.check(c.exc is not None, "C25",
                        "the file is not opened read only")
            if r.random() < .7:
                raise leave
    except type(leave):
        pass
    if held is not None:
        c = Call(lambda: held[:])
        g.check(c.exc is not None, "C25", "the file is open after leaving "
                "the context")
    if r.random() < .4:
        # the same stream once more
        names = [k for k in sorted(cont) if k not in (
            "list_dimensions", "get_dimension", "inspect")]
        with st:
            for k in r.sample(names, min(4, len(names))) + ["ListenerPosition"]:
                if k not in cont:
                    continue
                c = Call(lambda: getattr(st, k)[:])
                x, v = c.value, cont[k]
                if isinstance(v, np.ndarray) and c.exc is None:
                    x = np.ma.filled(x, b"\0" if v.dtype.kind == "S" else 0)
                g.check(c.exc is None and (
                    same(np.asarray(x), v) if isinstance(v, np.ndarray)
                    else x == v[:]), "C25",
                    f"{k} of the stream opened again: {c}")
        c = Call(lambda: st.ListenerPosition[:])
        g.check(c.exc is not None, "C25", "the file is open after leaving "
                "the context again")
    g.check(file_bytes(path) == before, "C25", "streaming changed the file")


# ----------------------------------------------------------------------- C26
CSV = ("Name\tDefault\tFlags\tDimensions\tType\tComment\n"
       "GLOBAL:Conventions\tSOFA\trm\t\tattribute\t\n"
       "GLOBAL:SOFAConventions\t{name}\trm\t\tattribute\t\n"
       "GLOBAL:SOFAConventionsVersion\t{version}\trm\t\tattribute\t{c}\n"
       "Data.IR\t[0 0]\tm\tmRn\tdouble\t\n")


class FakeWeb:
    def __init__(self, std, dep):
        self.std, self.dep, self.urls = std, dep, []

    def get(self, url, *a, **k):
        self.urls.append(url)
        u = url.rstrip("/")
        last = u.split("/")[-1]
        deprecated = "deprecated" in u.split("/")
        table = self.dep if deprecated else self.std
        if last.endswith(".csv"):
            data = table[last]
            return types.SimpleNamespace(content=data, ok=True,
                                         status_code=200,
                                         text=data.decode("latin-1"),
                                         raise_for_status=lambda: None)
        hrefs = [f'<a href="/conventions/{n}">{n}</a>' for n in table]
        html = "<html><body><a href='../'>Parent</a><a href='?C=N'>x</a>" + \
            "".join(hrefs) + "<a href='readme.txt'>r</a></body></html>"
        return types.SimpleNamespace(text=html, content=html.encode(),
                                     ok=True, status_code=200,
                                     raise_for_status=lambda: None)


def tree(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = file_bytes(p)
    return out


def norm(b):
    return b.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")


def case_C26(g):
    import builtins
    import requests
    r = g.rng
    names = ["AFIR_1.0", "AFIR_1.1", "BTF_1.0", "CSOS_0.2", "General_1.0",
             "GeneralString_0.2", "GeneralFIR_1.0", "D_1.0", "Efir_2.0"]
    mk = lambda n, c: CSV.format(name=n.split("_")[0],  # noqa: E731
                                 version=n.split("_")[1], c=c).encode()
    d = os.path.join(g.w.tmp, "c26")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "deprecated"))
    std, dep, local = {}, {}, {}
    mod = sys.modules["sofar.update_conventions"]
    for n in names:
        f = n + ".csv"
        where = r.choice(["std", "std", "dep", None, None])
        data = mk(n, r.choice(["", "new", "x"]))
        if r.random() < .3:
            data = data.replace(b"\n", b"\r\n")
        if where == "std":
            std[f] = data
        elif where == "dep":
            dep[f] = data
        l = r.choice([None, "", "", "deprecated"])
        if where == "std" and l == "deprecated":
            l = ""          # never standardised again
        if l is not None:
            loc = mk(n, r.choice(["", "new", "x"]))
            if r.random() < .5 and where is not None:
                loc = norm(data)
            if r.random() < .2:
                loc = norm(loc).replace(b"\n", b"\t\n")
            if r.random() < .15:
                # differs in the white space of a comment or the last line
                loc = r.choice([loc.rstrip(), loc.replace(b"Type", b"Type "),
                                loc.rstrip() + b" \n"])
            p = os.path.join(l, f)
            with open(os.path.join(d, p), "wb") as fid:
                fid.write(loc)
            local[p] = loc
    c = Call(mod._compile_conventions, d)
    g.check(c.exc is None, "C26", f"compiling raised {c}")
    before = tree(d)
    web = FakeWeb(std, dep)
    answer = r.choice(["y", "y", "n", "", "Y", "yes", "no"])
    yes = r.random() < .4
    # announced changes
    exp = {}
    for f, data in list(std.items()) + list(dep.items()):
        if f.startswith(("General_", "GeneralString_")):
            continue
        depd = f in dep and f not in std
        n = f[:-4]
        if not depd:
            if f not in local:
                exp[n] = ("add convention", f)
            elif norm(local[f]) != norm(data):
                exp[n] = ("update convention", f)
        else:
            p = os.path.join("deprecated", f)
            if f in local:
                exp[n] = ("deprecate convention", p)
            elif p not in local:
                exp[n] = ("add deprecated convention", p)
            elif norm(local[p]) != norm(data):
                exp[n] = ("update deprecated convention", p)
    asked = []
    real_get, real_input = requests.get, builtins.input
    requests.get = web.get
    builtins.input = lambda *a: asked.append(1) or answer
    try:
        c = Call(mod.update_conventions, d, yes)
    finally:
        requests.get, builtins.input = real_get, real_input
    g.note(f"online {sorted(std)} / {sorted(dep)}, local {sorted(local)}, "
           f"answer {answer!r}, assume_yes {yes} -> {c}")
    g.check(c.exc is None, "C26", f"update_conventions raised {c}")
    rep = {}
    for x in c.out.split("\n"):
        if x.startswith("- "):
            k, _, n = x[2:].partition(": ")
            rep[n.strip()] = k
    g.check(rep == {n: k for n, (k, _) in exp.items()}, "C26",
            f"announced {rep}, expected {exp}")
    g.check(bool(asked) == (bool(exp) and not yes), "C26",
            f"confirmation asked: {bool(asked)}")
    after = tree(d)
    if not exp or not (yes or answer == "y"):
        if not exp and not yes:
            pass
        g.check(after == before, "C26",
                lambda: "files changed without confirmation: "
                f"{sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))[:5]}")  # noqa
        return
    want = dict(local)
    for n, (k, p) in exp.items():
        f = n + ".csv"
        want[p] = norm(std[f] if f in std else dep[f])
        if k == "deprecate convention":
            want.pop(f)
    csv = {k: v for k, v in after.items() if k.endswith(".csv")}
    g.check(set(csv) == set(want), "C26",
            f"source files differ: {set(csv) ^ set(want)}")
    for k in want:
        g.check(norm(csv[k]) == norm(want[k]), "C26",
                f"{k} has other content")
    js = {k[:-3] + "json" for k in want}
    got = {k for k in after if k.endswith(".json")}
    g.check(js == got, "C26", f"compiled files differ: {js ^ got}")
    g.check(set(after) == set(csv) | got, "C26",
            f"other files {set(after) - set(csv) - got}")
    for k in want:
        x = json.loads(after[k[:-3] + "json"])
        cell = [ln.split("\t") for ln in
                norm(csv[k]).decode().split("\n")][3]
        com = cell[5] if len(cell) > 5 else ""
        g.check((x["GLOBAL:SOFAConventionsVersion"]["comment"] or "") == com
                and x["GLOBAL:SOFAConventions"]["default"] ==
                k.split("/")[-1].split("_")[0], "C26",
                f"{k}: the compiled file has other content")


# ----------------------------------------------------------------------- C27
def case_C27(g):
    r = g.rng
    d = os.path.join(g.w.tmp, "c27")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "deprecated"))
    rows = []

    def num():
        return r.choice([
            lambda: str(r.randrange(-50, 50)),
            lambda: f"{r.uniform(-9, 9):.3f}", lambda: "0", lambda: "1.0",
            lambda: r.choice(["1.5e-3", "-0.5", "2.0e5", "-1.0E-7", ".5",
                              "3.", "+1.5", "-0", "00", "0.1",
                              "123456789012345678", "1.7976931348623157e308",
                              "0.30000000000000004", "-.25"]),
            lambda: str(r.randrange(1000, 99999))])()

    def cell():
        k = r.random()
        if k < .25:
            n = num()
            return n, float(n) if "." in n else int(n)
        if k < .45:
            t = r.choice(["text", "A b", "free field", "1.0.2", "a;b",
                          "x [1]", "m,n", "-", "nan x"])
            return r.choice(["", " "]) + t + r.choice(["", " "]), t
        if k < .55:
            return r.choice(["", "", " ", "  "]), ""
        if k < .75:
            ns = [num() for _ in range(r.randrange(1, 5))]
            sep = r.choice([" ", ",", " "])
            p = r.choice(["", " "])
            return ("[" + p + sep.join(ns) + p + "]",
                    [float(n) if "." in n else int(n) for n in ns])
        if k < .93:
            m = r.randrange(1, 6)
            ls = [[num() for _ in range(m)] for _ in range(r.randrange(2, 5))]
            s = r.choice([";", "; "])
            sep = r.choice([" ", ","])
            return ("[" + s.join(sep.join(x) for x in ls) + "]",
                    [[float(n) if "." in n else int(n) for n in x]
                     for x in ls])
        return r.choice([
            ("permute([0 0 0 1 0 0], [3 1 2]);", [[[0, 0, 0, 1, 0, 0]]]),
            ("permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);",
             [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]),
            ("{''}", [""])])
    exp = {}
    names = []
    for i in range(r.randrange(2, 9)):
        n = r.choice(["GLOBAL:" + g.ident(), "Data." + g.ident(),
                      g.ident(), g.ident() + ":Units",
                      "GLOBAL:" + g.ident() + "Version",
                      "GLOBAL:Version", "Data.x" + g.ident() + ":Units"])
        if n in exp or ("GLOBAL" in n and not n.startswith("GLOBAL:")):
            continue
        t, v = cell()
        if "Version" in n:
            t = r.choice(["1.0", "2.1", "1", "0.6", "2"])
            v = str(float(t))
        fl, di, ty = r.choice(["", "m", "rm", "r"]), r.choice(
            ["", "IC, MC", "mRn", "I", "rCI, rCM"]), r.choice(
                ["attribute", "double", "string"])
        co = r.choice(["", "some comment", "x", "in \u00b0, \u00b5s"])
        blank = r.choice(["", "", " "])
        row = [n, t, fl or blank, di or blank, ty] + ([co] if co or r.random() < .5 else [])
        exp[n] = {"default": v, "flags": fl or None, "dimensions": di or None,
                  "type": ty, "comment": co}
        rows.append("\t".join(row))
        names.append(n)
    text = "Name\tDefault\tFlags\tDimensions\tType\tComment\n" + \
        "\n".join(rows) + r.choice(["", "\n"])
    bad = r.random() < .12
    if bad:
        text = text.rstrip("\n") + "\n" + r.choice([
            "onlyname", "a\t[1 x]\tm\tI\tdouble\tc", "a\tb",
            "a\t[1,,2]\tm\tI\tdouble\tc", "a\t1\tm"])
    sub = r.choice(["", "deprecated"])
    f = os.path.join(d, sub, "x_1.0.csv")
    with open(f, "w", encoding="windows-1252") as fid:
        fid.write(text)
    mod = sys.modules["sofar.update_conventions"]
    c = Call(mod._compile_conventions, d)
    g.note(f"compile {text!r} -> {c}")
    if bad:
        g.check(isinstance(c.exc, ValueError), "C27",
                f"a malformed row was accepted: {text!r} {c}")
        return
    g.check(c.exc is None, "C27", f"compiling {text!r} raised {c}")
    with open(f[:-3] + "json") as fid:
        got = json.load(fid)
    g.check(set(got) == set(exp), "C27",
            f"entries differ: {set(got) ^ set(exp)}")
    for k in exp:
        x = dict(got[k])
        y = dict(exp[k])
        g.check(set(x) == set(y), "C27", f"{k}: {got[k]}")
        x["comment"], y["comment"] = x["comment"] or "", y["comment"] or ""
        g.check(x == y and type(x["default"]) is type(y["default"]), "C27",
                f"{k}: {got[k]} instead of {exp[k]}")
    cls = [0 if "GLOBAL" in k else 2 if k.startswith("Data") else 1
           for k in got]
    g.check(cls == sorted(cls), "C27", f"order of entries {list(got)}")


CASES = {k[5:]: v for k, v in list(globals().items())
         if k.startswith("case_C") and len(k) == 8}
EXTRA = {"C06": [case_C06_stored]}
