"""Random objects and operations over a scratch world."""
import contextlib
import io
import keyword
import random
import string
import warnings
import numpy as np
import spec
from spec import entries, expect, same_state, freeze, mandatory, read_only

KINDS = ["ListenerPosition", "SourcePosition", "ReceiverPosition"]


class Failed(Exception):
    def __init__(self, prop, msg):
        super().__init__(msg)
        self.prop, self.msg = prop, msg


class Quiet:
    """Collect warnings and printed text."""

    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.warnings = self.cm.__enter__()
        warnings.simplefilter("always")
        self.out = io.StringIO()
        self.red = contextlib.redirect_stdout(self.out)
        self.red.__enter__()
        return self

    def __exit__(self, *a):
        self.red.__exit__(*a)
        self.cm.__exit__(*a)
        return False

    def user_warnings(self):
        return [str(w.message) for w in self.warnings
                if issubclass(w.category, UserWarning) and
                not issubclass(w.category, DeprecationWarning)]


class Call:
    """Outcome of a call."""

    def __init__(self, f, *a, **k):
        self.exc, self.value = None, None
        with Quiet() as q:
            try:
                self.value = f(*a, **k)
            except Exception as e:          # noqa: BLE001
                self.exc = e
        self.out, self.warned = q.out.getvalue(), q.user_warnings()

    def __repr__(self):
        return f"{type(self.exc).__name__}: {str(self.exc)[:300]}" \
            if self.exc is not None else f"returned {str(self.value)[:200]}"


class Gen:
    def __init__(self, world, rng):
        self.w, self.rng, self.sf, self.cat = world, rng, world.sf, world.cat
        self.trace = []

    def note(self, *a):
        self.trace.append(" ".join(str(x)[:200] for x in a))

    def fail(self, prop, msg):
        raise Failed(prop, msg)

    def check(self, ok, prop, msg):
        if not ok:
            self.fail(prop, msg() if callable(msg) else msg)

    # ------------------------------------------------------------------ names
    def ident(self, n=None):
        r = self.rng
        return r.choice(string.ascii_letters) + "".join(
            r.choice(string.ascii_letters + string.digits)
            for _ in range(n or r.randrange(1, 7)))

    def text(self, n=None):
        r = self.rng
        if n is None and r.random() < .08:
            return r.choice([
                lambda: " " + self.text(3), lambda: self.text(3) + " ",
                lambda: self.text(2) + "\n" + self.text(2),
                lambda: self.text(r.randrange(30, 80)),
                lambda: self.text(300), lambda: "\t" + self.text(2),
                lambda: "  ", lambda: "GLOBAL_x", lambda: "None",
                lambda: "0"])()
        return "".join(r.choice("abcXYZ 019.,:-/") for _ in range(
            r.randrange(1, 10) if n is None else n))

    def literal_names(self):
        return [s for s in self.w.literals if s.isidentifier() and
                not keyword.iskeyword(s) and not s.startswith("__")]

    def members(self):
        return set(dir(self.sf.Sofa))

    # ---------------------------------------------------------------- objects
    def pick(self):
        return self.rng.choice(sorted(self.cat.conv))

    def warm(self, obj):
        """Operations that leave the content of an object as it is."""
        r = self.rng
        for _ in range(r.randrange(1, 3)):
            op = r.choice(["verify", "verify", "copy", "equals", "dims",
                           "repr"])
            if op == "verify":
                a = r.choice(["return", "print", "ignore"]), r.choice(
                    ["read", "write"])
                c = Call(obj.verify, *a)
                self.note(f"sofa.verify{a!r} -> {c}")
            elif op == "copy":
                c = Call(obj.copy)
                self.note(f"sofa = sofa.copy() -> {c}")
                if c.exc is None:
                    obj = c.value
            elif op == "equals":
                Call(self.sf.equals, obj, obj)
                self.note("equals(sofa, sofa)")
            elif op == "dims":
                c = Call(obj.get_dimension, r.choice("MNRE"))
                self.note(f"sofa.get_dimension(..) -> {c}")
            else:
                Call(repr, obj)
        return obj

    def new(self, mandatory_only=None, conv=None, warm=.3):
        name, version = conv or self.pick()
        m = self.rng.random() < .2 if mandatory_only is None \
            else mandatory_only
        c = Call(self.sf.Sofa, name, m, version, False)
        self.note(f"sofa = Sofa({name!r}, {m}, {version!r}, verify=False)")
        if c.exc is not None:
            self.fail("C07", f"creating {name} {version} failed: {c}")
        obj = c.value
        if self.rng.random() < warm:
            obj = self.warm(obj)
        return Subject(self, obj)

    def valid(self, tries=20, **kw):
        """An object that verification for writing accepts."""
        for _ in range(tries):
            s = self.new(**kw)
            if self.rng.random() < .85:
                s.resize()
            for _ in range(self.rng.randrange(4)):
                s.add_custom()
            if self.rng.random() < .4:
                s.delete_optional()
            if self.rng.random() < .5:
                s.resize()
            v = s.expect()
            if not self.w.latest_ok(s.key[0]):
                continue
            if v.agree and not v.errors("write", "raise"):
                return s
        return None

    # ----------------------------------------------------------------- values
    def sizes(self):
        r = self.rng
        return {"M": r.choice([1, 1, 2, 3, 4]), "N": r.choice([1, 1, 5, 6]),
                "R": r.choice([1, 2, 3, 4]), "E": r.choice([1, 1, 2, 4]),
                "C": 3, "I": 1, "S": 1}

    def numbers(self, shape):
        r = self.rng
        n = int(np.prod(shape))
        if r.random() < .3:
            a = np.array([r.randrange(-1000, 1000) for _ in range(n)])
        else:
            a = np.array([r.choice([r.uniform(-1, 1), r.uniform(-1e6, 1e6),
                                    r.randrange(-5, 5) / 4, 0.,
                                    r.uniform(-1e-12, 1e-12)])
                          for _ in range(n)], dtype=float)
            if r.random() < .1:
                a = a.astype("f4")
            elif r.random() < .08:
                a = np.round(a)
        if n and r.random() < .06:
            a[r.randrange(n)] = r.choice([
                2 ** 31, 2 ** 31 - 1, -2 ** 31, -2 ** 31 - 1, 2 ** 32,
                2 ** 53 + 1, 2 ** 62] if a.dtype == int else [
                np.nan, np.inf, -np.inf, -0., 5e-324, 1e300, 1 / 3,
                0.1, 1e-9, 16777217., 2. ** 53] if a.dtype == float else
                [np.nan, .1])
        return a.reshape(shape)

    def strings(self, shape):
        n = int(np.prod(shape))
        v = [self.text() if self.rng.random() < .85 else "" for _ in
             range(n)]
        v[0] = v[0] or "x"
        # trailing blanks and empty strings are kept apart on purpose
        v = [x.strip() or "s" for x in v] if self.rng.random() < .5 else \
            [x or "s" for x in v]
        return np.array(v).reshape(shape)

    def fit(self, e, sizes, alt=None):
        """A value that matches a dimension combination of the entry."""
        r = self.rng
        alts = [a.strip() for a in e["dimensions"].split(",")]
        alt = alt or r.choice(alts)
        if e["type"] == "string":
            shape = [1 if d == "S" else sizes[d.upper()] for d in alt]
            if set(shape) == {1} and r.random() < .5:
                return str(self.strings((1,))[0])
            while len(shape) > 1 and shape[-1] == 1 and r.random() < .6:
                shape.pop()
            v = self.strings(tuple(shape))
            return v if r.random() < .6 else v.tolist()
        shape = [sizes[d.upper()] for d in alt]
        k = r.random()
        multi = len(alts[0]) > 1
        if k < .5:
            while len(shape) > (2 if multi else 1) and shape[-1] == 1:
                shape.pop()
        elif k < .6:
            shape.append(1)
        if multi and len(shape) >= 2 and shape[0] == 1 and \
                set(shape[2:]) <= {1} and r.random() < .4:
            shape = [shape[1]]
        v = self.numbers(tuple(shape))
        if v.size == 1 and r.random() < .3:
            return v.ravel()[0].item()
        return v if r.random() < .6 else v.tolist()

    def anything(self):
        r = self.rng
        return r.choice([
            lambda: self.numbers(tuple(r.randrange(1, 4) for _ in
                                       range(r.randrange(0, 4)))),
            lambda: self.numbers(tuple(r.randrange(1, 4) for _ in
                                       range(r.randrange(1, 4)))).tolist(),
            lambda: tuple(self.numbers((r.randrange(1, 5),)).tolist()),
            lambda: r.randrange(-9, 9), lambda: r.uniform(-9, 9),
            lambda: self.text(), lambda: "",
            lambda: self.strings((r.randrange(1, 4),)),
            lambda: self.strings((r.randrange(1, 4),)).tolist(),
            lambda: self.strings((r.randrange(1, 3), 2)).tolist(),
            lambda: {"a": 1}, lambda: [], lambda: True, lambda: [True, False],
            lambda: 1 + 2j, lambda: [1 + 2j, 3],
            lambda: np.zeros((2, 0)), lambda: np.float64(2.5),
            lambda: np.int64(3), lambda: [0], lambda: [[0.0]],
            lambda: ((1, 2), (3, 4), (5, 6)),
            lambda: [[[1], [2]], [[3], [4]]],
            lambda: self.numbers(tuple(r.choice([1, 1, 2, 3]) for _ in
                                       range(r.randrange(3, 6)))).tolist(),
            lambda: [[[[1, 2, 3]]]], lambda: [[1.5]] * 3,
            lambda: [2 ** 31, 1], lambda: ["a", "bcd", ""],
            lambda: [1, 1.0], lambda: (2, 2, 2),
            lambda: [np.float32(.1), np.float32(.2)],
        ])()


class Subject:
    """Real object together with the custom data registered so far."""

    def __init__(self, g, obj, custom=None):
        self.g, self.obj = g, obj
        self.custom = dict(custom or {})

    @property
    def ent(self):
        return entries(self.obj)

    @property
    def key(self):
        e = self.ent
        return e["GLOBAL_SOFAConventions"], e["GLOBAL_SOFAConventionsVersion"]

    def conv(self):
        return self.g.cat.conv[self.key][1]

    def table(self):
        return spec.table(self.g.cat, self.ent, self.custom)[0]

    def expect(self):
        return expect(self.g.cat, freeze(self.ent), self.custom)

    def has(self, name):
        return name in self.ent

    # ---- raw access that bypasses the interface under test
    def poke(self, name, value):
        self.g.note(f"(unprotected) sofa.{name} = {value!r}")
        self.obj.protected = False
        setattr(self.obj, name, value)
        self.obj.protected = True

    def poke_delete(self, name):
        self.g.note(f"(unprotected) del sofa.{name}")
        self.obj.protected = False
        delattr(self.obj, name)
        self.obj.protected = True
        self.custom.pop(name, None)

    # ---- changes that keep the object consistent
    def resize(self):
        g = self.g
        tab = self.table()
        sizes = g.sizes()
        if str(self.ent.get("GLOBAL_DataType")) == "SOS":
            sizes["N"] = 6 * g.rng.randrange(1, 3)
        for k, v in list(self.ent.items()):
            e = tab.get(k)
            if e is None or e["dimensions"] is None:
                continue
            for d in e["dimensions"].replace(", ", ""):
                if d.islower() and d.upper() not in sizes:
                    sizes[d.upper()] = g.rng.choice([1, 2, 3])
        for k, v in list(self.ent.items()):
            e = tab.get(k)
            if e is None or e["dimensions"] is None:
                continue
            self.poke(k, g.fit(e, sizes))
        return sizes

    def current_sizes(self):
        s, _ = spec.dimensions(self.ent, self.table())
        return s

    def add_custom(self):
        g, r = self.g, self.g.rng
        if r.random() < .5:
            name = "x" + g.ident() if r.random() < .7 else \
                r.choice(["Data", "GLOBAL", "PRIVATE", "E"])[:1] + g.ident()
            if self.custom and r.random() < .2:
                # names that are parts of each other
                n = r.choice(sorted(self.custom))
                if "_" not in n:
                    name = r.choice([n + g.ident(1), n[:-1], n.swapcase()])
                if len(name) < 2 or name in g.members():
                    name = "x" + g.ident()
            elif r.random() < .2:
                # ... also those of the convention
                n = r.choice(sorted(k for k, e in self.table().items() if
                                    e["type"] != "attribute"))
                name = r.choice([n[:-1], n[:r.randrange(1, len(n) + 1)],
                                 n + r.choice("s1x"), n.lower(), n.upper(),
                                 n.split("_")[-1]])
                if name in g.members() or name in self.ent or name in \
                        self.conv() or name.rstrip("_").upper() in (
                            "DATA", "GLOBAL") or name.endswith("_") or \
                        name.upper().startswith("DATA_") and \
                        not name.startswith("Data_") or len(name) < 2:
                    name = "x" + g.ident()
            sizes = dict(self.current_sizes())
            sizes["S"] = 1
            dims = r.choice(["I", "IC", "MR", "M", "N", "MRN", "MRNE", "EC",
                             "K", "IK", "MRQ", "ii", "mR"]
                            if r.random() < .6 else ["MS", "IS", "S", "RS",
                                                     "ES", "IKS"])
            typ = "string" if "S" in dims.upper() else "double"
            e = {"type": typ, "dimensions": spec.reg_dims(dims)}
            for d in e["dimensions"]:
                sizes.setdefault(d.upper(), r.choice([1, 2, 3]))
            v = g.fit(e, sizes)
            g.note(f"sofa.add_variable({name!r}, {v!r}, {typ!r}, {dims!r})")
            c = Call(self.obj.add_variable, name, v, typ, dims)
            if c.exc is None and name not in self.conv():
                self.custom[name] = (typ, dims)
        elif r.random() < .15 and self.lacking():
            # optional data of the convention
            name = r.choice(self.lacking())
            e = self.conv()[name]
            if e["type"] == "attribute":
                c = Call(self.obj.add_attribute, name, e["default"])
            else:
                dims = r.choice(e["dimensions"].split(", ")).upper()
                c = Call(self.obj.add_variable, name, e["default"],
                         e["type"], dims)
            g.note(f"adding {name} of the convention -> {c}")
        else:
            vs = [k for k, e in self.table().items()
                  if e["type"] != "attribute" and self.has(k)]
            base = r.choice(vs + ["GLOBAL"] * (1 + len(vs) // 2))
            name = base + "_" + ("x" + g.ident() if r.random() < .7 else
                                 r.choice(["Units", "Type", "Note", "Title",
                                           "name", "shape", "Description",
                                           "dtype", "Data", "delete"]))
            v = g.text() if not name.endswith("_Units") else "metre"
            g.note(f"sofa.add_attribute({name!r}, {v!r})")
            c = Call(self.obj.add_attribute, name, v)
            if c.exc is None and name not in self.conv():
                self.custom[name] = ("attribute", None)
        return c

    def lacking(self):
        """Entries of the convention that can be added."""
        ent = self.ent
        return [k for k, e in self.conv().items() if k not in ent and (
            k.startswith("GLOBAL_") or (
                k.rpartition("_")[0] in ent if e["type"] == "attribute" else
                "_" not in k))]

    def delete_optional(self):
        r = self.g.rng
        tab = self.table()
        opt = [k for k in self.ent if not mandatory(tab[k]["flags"])]
        if not opt:
            return
        for k in r.sample(opt, min(len(opt), r.randrange(1, 4))):
            subs = [a for a in self.ent if a.startswith(k + "_") and
                    tab[a]["type"] == "attribute"]
            for n in subs + [k]:
                if mandatory(tab[n]["flags"]) or n not in self.ent:
                    continue
                self.poke_delete(n)

    # ---- changes that break something
    def breakage(self):
        g, r = self.g, self.g.rng
        tab = self.table()
        k = r.randrange(13)
        ent = self.ent
        vars_ = [n for n in ent if tab[n]["dimensions"] is not None]
        safe = {"GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"}
        if k == 0:
            for n in r.sample(sorted(ent), r.randrange(1, 3)):
                if n not in safe:
                    self.poke_delete(n)
        elif k == 1:
            n = r.choice([n for n in ent if n not in safe])
            self.poke(n, g.anything())
        elif k == 2 and vars_:
            n = r.choice(vars_)
            self.poke(n, g.numbers(tuple(r.choice([1, 1, 2, 3]) for _ in
                                         range(r.randrange(1, 5))))
                      if tab[n]["type"] == "double" else
                      g.strings(tuple(r.choice([1, 1, 2, 3]) for _ in
                                      range(r.randrange(1, 3)))))
        elif k == 3:
            n = r.choice([n for n in ent if tab[n]["type"] == "attribute"
                          and n not in safe])
            self.poke(n, r.choice(["Cartesian", "spherical", "SPHERICAL",
                                   "nonsense", "shoebox", "reverberant",
                                   "spherical harmonics", "TF", "fir",
                                   "SOS", "text", "X", "A b", "",
                                   " cartesian", "spherical ", "FIR ",
                                   " text", "Spherical Harmonics", None]))
            if r.random() < .3 and vars_:
                # arrays of objects
                n = r.choice(vars_)
                self.poke(n, np.array([r.choice(["a", None, 1, 1.5])],
                                      dtype=object))
        elif k in (4, 5):
            us = [n for n in ent if n.endswith("_Units")]
            if us:
                self.poke(r.choice(us), self.unit())
        elif k == 6:
            n = r.choice(["PRIVATE", "PRIVATEx", "API", "APIx", "GLOBAL",
                          "GLOBALx", "Title", "Comment", "Origin",
                          "RoomType", "Data", "Private", "xAPI", "Global"]
                         + [k[7:] for k in self.conv()
                            if k.startswith("GLOBAL_")])
            if r.random() < .6:
                if n == "Data":
                    return
                c = Call(self.obj.add_variable, n, 1, "double", "I")
                g.note(f"sofa.add_variable({n!r}, 1, 'double', 'I')", c)
                if c.exc is None and n not in self.conv():
                    self.custom[n] = ("double", "I")
                if r.random() < .5 and c.exc is None:
                    c = Call(self.obj.add_attribute, n + "_a", "b")
                    g.note(f"sofa.add_attribute({n + '_a'!r}, 'b')", c)
                    if c.exc is None and n + "_a" not in self.conv():
                        self.custom[n + "_a"] = ("attribute", None)
            else:
                n = "GLOBAL_" + r.choice([k for k in self.conv()
                                          if "_" not in k] + ["Foo"])
                c = Call(self.obj.add_attribute, n, "b")
                g.note(f"sofa.add_attribute({n!r}, 'b')", c)
                if c.exc is None and n not in self.conv():
                    self.custom[n] = ("attribute", None)
        elif k == 7:
            cs = [n for n in self.custom if n in ent]
            if cs:
                self.poke_delete(r.choice(cs))
        elif k == 8:
            vs = sorted(v for n, v in g.cat.conv if n == self.key[0])
            self.poke("GLOBAL_SOFAConventionsVersion", r.choice(vs))
            for n in list(self.ent):
                if n not in spec.table(g.cat, self.ent, self.custom)[0]:
                    self.obj.protected = False
                    object.__delattr__(self.obj, n)
                    self.obj.protected = True
                    self.custom.pop(n, None)
            # (the convention is looked up by the next operation that needs
            # it; entries are added according to the one looked up last)
            c = Call(self.obj.add_missing, False, False, False)
            g.note(f"sofa.add_missing(False, False, False) -> {c}")
        elif k == 9:
            self.delete_optional()
        elif k == 10:
            self.add_custom()
        elif k == 11 and vars_:
            n = r.choice(vars_)
            v = ent[n]
            if isinstance(v, np.ndarray) and v.ndim:
                self.poke(n, r.choice([
                    lambda: np.concatenate([v, v]), lambda: v[..., None],
                    lambda: v[None], lambda: np.stack([v, v], -1),
                    lambda: v.T, lambda: v.ravel(),
                    lambda: v.ravel().reshape(2, -1) if v.size % 2 == 0
                    else v.ravel().reshape(3, -1) if v.size % 3 == 0
                    else v[..., None, None]])())
        elif k == 12 and vars_:
            n = r.choice(vars_)
            self.poke(n, g.fit(tab[n], {**g.sizes(), **{
                d: r.choice([1, 2]) for d in "KQI"}, "I": 1}))

    def unit(self):
        r = self.g.rng
        al = sorted(self.g.cat.unit_aliases)
        sep = r.choice([", ", ",", " ", r.choice(["; ", "  ", ",  "])])
        u = sep.join(r.choice(al) if r.random() < .4 else
                     r.choice(["degree", "degrees", "metre", "meters"])
                     for _ in range(r.randrange(1, 5)))
        if r.random() < .5:
            u = sep.join([r.choice(["degree", "degrees"]),
                          r.choice(["degree", "degrees"]),
                          r.choice(["metre", "meter", "metres", "meters"])])
        if r.random() < .25:
            u = r.choice([u.upper(), u.capitalize()])
        if r.random() < .1:
            u += r.choice([" ", ",", "x"])
        return u

    def comparable(self):
        """Objects for which the reference verdict is defined."""
        ent = self.ent
        tab = self.table()
        if any(k not in tab for k in ent):
            return False
        for k, v in ent.items():
            if isinstance(v, np.ndarray) and (v.ndim > 4 or v.size == 0 or
                                              v.dtype.kind == "S"):
                return False
        # rules on values only concern texts
        v = self.expect()
        if v.types:
            return True
        for key, rule in self.g.cat.rules.items():
            k = spec.sofar_name(key)
            if k in ent and not isinstance(ent[k], str) and (
                    rule.get("value") or rule.get("specific")):
                return False
        full = dict(ent)
        for k in v.missing:
            full[k] = tab[k]["default"]
        sizes, agree = spec.dimensions(full, tab)
        for k in full:
            if tab[k]["dimensions"]:
                for d in tab[k]["dimensions"].replace(",", "").replace(
                        " ", ""):
                    if d.upper() not in sizes:
                        return False
        if not agree:
            return False
        rt = ent.get("GLOBAL_RoomType")
        if isinstance(rt, str) and rt != rt.lower():
            return False
        return True
