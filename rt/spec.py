"""Executable specification: what the properties say, computed from the
content of an object (its public entries), the catalogue read independently,
and the custom data registered through the public interface."""
import re
import numpy as np
from world import sofar_name

STD = "ERMNCIS"


def entries(obj):
    return {k: v for k, v in obj.__dict__.items() if not k.startswith("_")}


def mandatory(flags):
    return flags is not None and "m" in flags


def read_only(flags):
    return flags is not None and "r" in flags


def same(a, b):
    """Identical data (type kind, shape, elements)."""
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    if isinstance(a, dict) or isinstance(b, dict):
        return type(a) is type(b) and a == b
    if a is None or b is None:
        return a is b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
        return False
    if x.dtype.kind in "fc":
        return bool(np.all((x == y) | ((x != x) & (y != y))))
    return bool(np.all(x == y))


def same_state(a, b):
    """Names on which two contents differ."""
    out = [k for k in a if k not in b] + [k for k in b if k not in a]
    out += [k for k in a if k in b and not same(a[k], b[k])]
    return out


def freeze(ent):
    return {k: (v.copy() if isinstance(v, np.ndarray) else
                dict(v) if isinstance(v, dict) else v)
            for k, v in ent.items()}


def stored_ok(given, got):
    """C05: is `got` a lossless stored form of `given`? -> None or text"""
    if isinstance(given, (str, dict, np.ndarray)):
        if got is given:
            return None
        if type(got) is type(given) and same(given, got):
            return None
        return f"{given!r} was stored as {got!r}"
    g = np.array(given)
    if g.size == 1:
        if np.ndim(got) != 0:
            return f"{given!r} was stored as non scalar {got!r}"
        if not same(g.ravel()[0], got):
            return f"{given!r} was stored as {got!r}"
        return None
    if not isinstance(got, np.ndarray) or got.ndim < 2:
        return f"{given!r} was stored as {got!r}"
    if got.size != g.size or not same(g.ravel(), got.ravel()):
        return f"{given!r} was stored with other elements {got!r}"
    if g.ndim >= 2 and got.shape != g.shape:
        return f"{given!r} was stored with shape {got.shape}"
    if g.ndim < 2 and [s for s in got.shape if s != 1] != [g.size]:
        return f"{given!r} was stored with shape {got.shape}"
    return None


def default_ok(ent, got):
    """Value `got` is the default of convention entry `ent` (shape up to
    singleton dimensions at the end, (n,) may be (1, n))."""
    d = ent["default"]
    if d is None:
        return got is None
    if isinstance(d, str):
        return isinstance(got, str) and got == d
    x, y = np.array(d), np.asarray(got)
    if x.size != y.size or x.dtype.kind != y.dtype.kind:
        return False
    if not np.all(x.ravel() == y.ravel()):
        return False
    if x.size == 1:
        return True
    trim = lambda s: tuple(s)[:max([i + 1 for i, n in enumerate(s)  # noqa
                                    if n != 1], default=0)]
    if x.ndim >= 2:
        return trim(x.shape) == trim(y.shape)
    return [s for s in y.shape if s != 1] == [x.size]


# --------------------------------------------------------------------- verify
def table(cat, ent, custom):
    """Convention plus registered custom data."""
    conv = cat.conv[ent["GLOBAL_SOFAConventions"],
                    str(ent["GLOBAL_SOFAConventionsVersion"])][1]
    t = dict(conv)
    for k, (dtype, dims) in custom.items():
        if k not in t:
            t[k] = {"type": dtype, "dimensions": reg_dims(dims),
                    "flags": None, "default": None}
    return t, conv


def reg_dims(dims):
    if dims is None:
        return None
    return "".join(d.upper() if d.upper() in STD else d.lower()
                   for d in dims)


def wrong_type(dtype, v):
    if dtype == "attribute":
        return not isinstance(v, str)
    if dtype == "double":
        if isinstance(v, (np.ndarray, np.number)):
            return v.dtype.kind not in "if"
        return not isinstance(v, (int, float))
    if dtype == "string":
        if isinstance(v, np.ndarray):
            return v.dtype.kind != "U"
        return not isinstance(v, str)
    return True


def pad(shape, n=8):
    return tuple(shape) + (1,) * (n - len(shape))


def num_shape(v):
    """Shape of numeric data with more than one dimension letter: vectors
    are rows."""
    s = np.shape(v)
    return pad((1,) + s if len(s) == 1 else s)


def shape_of(ent, v):
    if ent["type"] == "double":
        if len(ent["dimensions"].split(",")[0].strip()) > 1:
            return num_shape(v)
        s = np.shape(v)
        if sum(n != 1 for n in s) <= 1:
            return pad((int(np.size(v)),))
        return pad(s)
    return pad(np.shape(v))


def set_shape(ent, v):
    if ent["type"] == "double" and \
            len(ent["dimensions"].split(",")[0].strip()) == 1:
        return pad((int(np.size(v)),))
    return shape_of(ent, v)


def max_len(v):
    if isinstance(v, str):
        return len(v)
    return max((len(x) if isinstance(x, str) else 1
                for x in np.asarray(v).ravel()), default=0)


def dimensions(ent, tab):
    """-> (sizes, setters agree?)"""
    sizes, S, agree = {}, 0, True
    for k, v in ent.items():
        e = tab.get(k)
        if e is None or e["dimensions"] is None:
            continue
        first = e["dimensions"].split(",")[0].strip()
        if "S" in first and e["type"] == "double":
            return dict(C=3, I=1, S=S), False
        sh = set_shape(e, v)
        for i, d in enumerate(first):
            if d.islower() and d not in "ics":
                if sizes.get(d.upper(), sh[i]) != sh[i]:
                    agree = False
                sizes[d.upper()] = sh[i]
            if d == "S":
                S = max(S, max_len(v))
    sizes.update(C=3, I=1, S=S)
    return sizes, agree


def matches(e, v, sizes):
    sh = shape_of(e, v)
    for alt in e["dimensions"].split(","):
        ref = pad([1 if d == "S" else sizes.get(d.upper(), -1) for d in alt.strip()])
        if sh == ref:
            return alt.strip().upper()
    return None


def unit_ok(test, ref, aliases):
    if test == ref or test.lower() == ref:
        return True
    refs = ref.replace(", ", ",").split(",")
    t = test.lower()
    for parts in (re.sub(", ", ",", t).split(","),
                  re.sub(", ", ",", t).replace(" ", ",").split(",")):
        if len(parts) == len(refs) and all(
                p in aliases and aliases[p] == r
                for p, r in zip(parts, refs)):
            return True
    return False


def value_ok(key, v, ref, aliases):
    if ref is None or v in ref:
        return True
    if key in ("GLOBAL_DataType", "GLOBAL_SOFAConventions"):
        return False
    if v.lower() in ref:
        return True
    if key.endswith("Units"):
        return len(ref) == 1 and unit_ok(v, ref[0], aliases)
    return False


COORD = ("cartesian", "spherical", "spherical harmonics")


class Verdict:
    """Expected outcome of verify(): categories of issues."""

    def __init__(self):
        self.missing, self.types, self.names = set(), set(), {}
        self.shapes, self.rules, self.upper = set(), set(), set()
        self.deprecated = None
        self.preliminary = False
        self.agree = True
        self.sizes = None
        self.early = False

    def errors(self, mode, handling):
        return bool((self.missing and handling == "raise") or self.types or
                    any(self.names.values()) or self.shapes or self.rules or
                    (mode == "write" and (self.upper or self.deprecated)))

    def warnings(self, mode, handling):
        return bool((self.missing and handling != "raise") or
                    self.preliminary or
                    (self.deprecated and mode == "read"))


def name_issues(ent, tab, conv, custom):
    out = {"variables": set(), "attr": set(), "var": set(), "reserved": set(),
           "custom": set()}
    for k in ent:
        typ = tab[k]["type"]
        if typ == "attribute":
            if "_" not in k:
                out["attr"].add(k)
            elif not k.startswith("GLOBAL_") and \
                    k.rpartition("_")[0] not in tab:
                out["variables"].add(k)
        else:
            if "_" in (k[5:] if k.startswith("Data_") else k):
                out["var"].add(k)
        if k.startswith(("PRIVATE", "API")) or (
                k.startswith("GLOBAL") and not (
                    k.startswith("GLOBAL_") and typ == "attribute")):
            out["reserved"].add(k)
    names = {n[7:] if n.startswith("GLOBAL_") else n for n in conv}
    for k in custom:
        if k not in conv and \
                (k[7:] if k.startswith("GLOBAL_") else k) in names:
            out["custom"].add(k)
    return out


def expect(cat, ent, custom):
    """Expected verdict; `ent` is the content (left unchanged)."""
    tab, conv = table(cat, ent, custom)
    r = Verdict()
    r.missing = {k for k, e in tab.items() if mandatory(e["flags"]) and
                 k not in ent}
    r.types = {k for k, v in ent.items() if wrong_type(tab[k]["type"], v)}
    if r.types:
        return r
    if r.missing:
        ent = dict(ent)
        for k in r.missing:
            ent[k] = tab[k]["default"]
        have = {k: v for k, v in ent.items() if k not in r.missing}
    else:
        have = ent
    r.names = name_issues(have, tab, conv, custom)
    sizes, r.agree = dimensions(ent, tab)
    r.sizes = sizes
    for k, v in ent.items():
        e = tab[k]
        if e["dimensions"] is not None and matches(e, v, sizes) is None:
            r.shapes.add(k)
    for key, rule in cat.rules.items():
        k = sofar_name(key)
        if k not in ent:
            continue
        v = ent[k]
        if not value_ok(k, v, rule["value"], cat.unit_aliases):
            r.rules.add((k, k))
        for dep in rule.get("general", []):
            if sofar_name(dep) not in ent:
                r.rules.add((k, sofar_name(dep)))
        spec = rule.get("specific")
        if spec is None or not isinstance(v, str):
            continue
        v = v.lower() if v.lower() in COORD else v
        for dep, ref in spec.get(v, {}).items():
            if dep == "_dimensions":
                for d, s in ref.items():
                    if sizes.get(d, -1) not in s["value"]:
                        r.rules.add((k, "Dimension"))
            elif sofar_name(dep) not in ent:
                r.rules.add((k, sofar_name(dep)))
            elif ref is not None and not value_ok(
                    sofar_name(dep), ent[sofar_name(dep)], ref,
                    cat.unit_aliases):
                r.rules.add((k, sofar_name(dep)))
    r.upper = {k for k, v in ent.items() if k.endswith("_Units") and
               isinstance(v, str) and v.lower() != v}
    name = ent["GLOBAL_SOFAConventions"]
    r.deprecated = cat.deprecations["GLOBAL:SOFAConventions"].get(name)
    r.preliminary = float(ent["GLOBAL_SOFAConventionsVersion"]) < 1
    return r


HEAD = {
    "missing": "missing mandatory data",
    "added": "Added mandatory data",
    "types": "data of wrong type",
    "variables": "attributes with missing variables",
    "attr": "attribute names with too many or little",
    "var": "variable names with too many",
    "reserved": "with reserved key words",
    "custom": "with reserved names",
    "shapes": "variables of wrong shape",
    "rules": "violations of the SOFA convention",
    "deprecated": "Detected deprecations",
    "preliminary": "preliminary conventions",
}


def parse_issues(text):
    """Issue text -> {category: set of names at the start of its lines}"""
    out, cur = {}, None
    for line in (text or "").split("\n"):
        for c, h in HEAD.items():
            if h in line and not line.startswith("-"):
                cur = c
                out.setdefault(c, set())
        s = line.strip()
        if s.startswith("- ") and cur is not None:
            out[cur].add(s[2:].split(" ")[0].rstrip(":"))
    return out
