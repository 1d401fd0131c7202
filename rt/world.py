"""Scratch copy of the package under test with a catalogue of conventions."""
import ast
import glob
import json
import os
import random
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import catalog  # noqa: E402


def source_literals(root=None):
    """String constants of the package's current source: names and texts the
    code treats specially (used to enrich the generators)."""
    out = set()
    for f in sorted(glob.glob(os.path.join(root or REPO, "sofar", "*.py"))):
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except SyntaxError:
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                if n.body and isinstance(n.body[0], ast.Expr):
                    docs.add(id(n.body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) \
                    and id(n) not in docs and 0 < len(n.value) < 30:
                out.add(n.value)
    return sorted(out)


class Cat:
    """Independent reading of a catalogue directory."""

    def __init__(self, base):
        self.base = base
        self.conv = {}
        cdir = os.path.join(base, "conventions")
        for dep, d in ((False, cdir), (True, os.path.join(cdir,
                                                          "deprecated"))):
            for f in sorted(os.listdir(d)):
                if f.endswith(".json"):
                    name, version = f[:-5].split("_")
                    with open(os.path.join(d, f)) as fid:
                        self.conv[name, version] = (
                            dep, {sofar_name(k): v
                                  for k, v in json.load(fid).items()})
        self.load_rules()

    def load_rules(self):
        r = os.path.join(self.base, "rules")
        for n in ("rules", "unit_aliases", "deprecations", "upgrade"):
            with open(os.path.join(r, n + ".json")) as fid:
                setattr(self, n, json.load(fid))

    def names(self):
        return sorted({n for n, _ in self.conv})

    def versions(self, name):
        return [v for n, v in self.conv if n == name]

    def latest(self, name):
        return max(self.versions(name), key=lambda v: float(v))


def sofar_name(k):
    return k.replace(":", "_").replace(".", "_")


def defaults(conv):
    """Content of a default object."""
    import numpy as np
    out = {}
    for k, e in conv.items():
        v = e["default"]
        if isinstance(v, list):
            v = np.array(v)
            n = len(e["dimensions"].split(",")[0].strip())
            if v.ndim < n:
                v = np.atleast_3d(v) if n >= 3 else np.array(v, ndmin=n)
        out[k] = v
    return out


class World:
    """Package copied to a scratch directory; import it from there."""

    def __init__(self, variant=0, seed=0, writer=None, tame=False):
        self.dir = tempfile.mkdtemp(prefix="sofarchk-")
        self.pkg = os.path.join(self.dir, "pkg")
        shutil.copytree(
            os.path.join(REPO, "sofar"), os.path.join(self.pkg, "sofar"),
            ignore=shutil.ignore_patterns("__pycache__", "sofa_conventions"))
        self.base = os.path.join(self.pkg, "sofar", "sofa_conventions")
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.tmp)
        self.variant, self.seed = variant, seed
        rng = random.Random(f"catalogue:{seed}:{variant}")
        (writer or write_variant)(self.base, rng, variant)
        self.cat = Cat(self.base)
        if tame or variant % 2 == 0:
            self.tame()
        self.literals = source_literals()

    def tame(self):
        """Drop the rules that default objects violate."""
        import spec
        keep = dict(self.cat.rules)
        for n, v in self.cat.conv:
            conv = self.cat.conv[n, v][1]
            ent = defaults(conv)
            for k, _ in spec.expect(self.cat, ent, {}).rules:
                keep = {a: b for a, b in keep.items() if sofar_name(a) != k}
        with open(os.path.join(self.base, "rules", "rules.json"), "w") as f:
            json.dump(keep, f, indent=1)
        self.cat.load_rules()

    def latest_ok(self, name):
        """The latest version of a convention has valid default data (what
        writing refers to)."""
        import spec
        v = self.cat.latest(name)
        if float(v) < 1:
            return True
        conv = self.cat.conv[name, v][1]
        return not spec.expect(self.cat, defaults(conv), {}).errors(
            "read", "raise")

    def load(self):
        for m in [m for m in sys.modules if m == "sofar" or
                  m.startswith("sofar.")]:
            del sys.modules[m]
        sys.path.insert(0, self.pkg)
        import sofar
        assert sofar.__file__.startswith(self.pkg), sofar.__file__
        self.sf = sofar
        return sofar

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ catalogues
E = catalog.E


def rand_convention(rng, name, version):
    """A consistent convention: dimensions M=1, R, E=1, N given by default
    data; random optional parts, flags, alternatives and order."""
    kind = rng.choice(["FIR", "FIR", "TF", "SOS", "FIR-E"])
    R = rng.choice([1, 1, 2, 3])
    g = catalog.glob(name, version, kind)
    for k in ("GLOBAL:Comment", "GLOBAL:History", "GLOBAL:Origin",
              "GLOBAL:AuthorContact", "GLOBAL:Organization",
              "GLOBAL:License", "GLOBAL:Title", "GLOBAL:DatabaseName",
              "GLOBAL:RoomDescription", "GLOBAL:Zone"):
        if k not in g and rng.random() < .5:
            g[k] = E("", None, None, "attribute")
        if k in g:
            g[k] = dict(g[k], flags=rng.choice(["m", None, "rm", "r", "m"]),
                        default=rng.choice(["", "text", "A b", "X"]))
            if rng.random() < .2 and "m" not in (g[k]["flags"] or ""):
                del g[k]
    d = {}
    geo = catalog.geo()
    for k in list(geo):
        if geo[k]["flags"] is None and rng.random() < .3 \
                and not k.startswith("ListenerView"):
            continue
        d[k] = geo[k]
    if R > 1:
        d["ReceiverPosition"]["default"] = [[0, .01 * i, 0]
                                            for i in range(R)]
    flat = [0] * R if R > 1 else rng.choice([0, [0]])
    if kind.startswith("FIR"):
        dims = {"FIR": rng.choice(["mRn", "mrn"]), "FIR-E": "mRnE"}[kind]
        if dims == "mrn" and R == 1:
            d["ReceiverPosition"]["dimensions"] = rng.choice(
                ["RCI, RCM", "rCI, rCM"])
        elif dims == "mrn":
            dims = "mRn"
        D = {"Data.IR": E(flat if R > 1 else [0], "m", dims, "double")}
    elif kind == "TF":
        D = {"N": E(0, "m", "N", "double"),
             "N:LongName": E("frequency", None, None, "attribute"),
             "N:Units": E("hertz", "m", None, "attribute"),
             "Data.Real": E(flat if R > 1 else [0], "m", "mRn", "double"),
             "Data.Imag": E(flat if R > 1 else [0], "m", "MRN", "double")}
    else:
        D = {"Data.SOS": E([[[0, 0, 0, 1, 0, 0]] * R], "m", "mRn", "double")}
    if kind != "TF":
        D["Data.SamplingRate"] = E(rng.choice([44100, 48000]), "m", "I, M",
                                   "double")
        D["Data.SamplingRate:Units"] = E("hertz", "m", None, "attribute")
        if kind != "FIR-E":
            D["Data.Delay"] = E(flat, "m", "IR, MR", "double")
        elif R == 1:
            D["Data.Delay"] = E(0, "m", "IRI, MRI, MRE", "double")
    extra = {}
    for k in ("GLOBAL:ApplicationName", "GLOBAL:ApplicationVersion",
              "GLOBAL:APIName", "GLOBAL:APIVersion", "GLOBAL:DateCreated",
              "GLOBAL:DateModified"):
        if rng.random() < .3:
            g[k] = dict(g[k], default=rng.choice(["old", "1", "A b"]))
    for i in range(rng.randrange(6)):
        n = f"Extra{'ABCDEFG'[i]}"
        fl = rng.choice([None, "m", "r", "rm"])
        if rng.random() < .4:
            sd, df = rng.choice([("MS", [rng.choice(["", "abc"])]),
                                 ("IS", ["i"]),
                                 ("RS", [["r"]] * R), ("ES", [["e"]]),
                                 ("MS, RS", [""])])
            extra[n] = E(df, fl, sd, "string")
        else:
            dd, df = rng.choice([
                ("I", 0), ("I, M", 1.5), ("M", [3]), ("IC", [1, 2, 3]),
                ("IC, MC", [0, 1, 0]), ("MR", flat),
                ("IC, MC, EC", [0, 1, 0]), ("I, M, E, N", 2),
                ("IR, MR, MRN", flat), ("MRN, MR", flat),
                ("II, IR, MR, ME", 4),
                ("IR, MR", flat), ("RCI, RCM", [[1, 2, 3]] * R),
                ("IIc", 0) if False else ("MI", 7),
                ("I", [2]), ("C", [1, 2, 3]),
                ("MREN", [[[[0] * 6]]] if kind == "SOS" else [0]),
                ("IIII", [5]), ("IIC, IIIC", [[[1, 2, 3]]]),
                ("IIIC", [[[[1, 2, 3]]]])]
                if R == 1 else [
                ("I", 0), ("IC", [1, 2, 3]), ("IR, MR", flat), ("M", [3]),
                ("IIII", [5]), ("RCI, RCM", [[1, 2, 3]] * R)])
            extra[n] = E(df, fl, dd, "double")
        if rng.random() < .5:
            extra[n + ":Note"] = E("n", rng.choice([None, "m", "rm"]), None,
                                   "attribute")
        if rng.random() < .3 and extra[n]["type"] == "double":
            extra[n + ":Units"] = E("metre", rng.choice([None, "m", "rm", "r"]), None,
                                    "attribute")
    items = list(d.items()) + list(extra.items())
    if rng.random() < .5:
        rng.shuffle(items)
    return {**g, **dict(items), **D}


def rand_rules(rng):
    r = catalog.rules()
    r["GLOBAL:SOFAConventions"] = {"value": None}
    r["GLOBAL:DataType"]["specific"]["FIR-E"] = {
        "Data.IR": None, "Data.SamplingRate:Units": ["hertz"]}
    if rng.random() < .7:
        r["GLOBAL:License"] = {
            "value": ["", "text", "a b", "x", "no license provided"],
            "specific": rng.choice([
                {"text": {"GLOBAL:Origin": ["", "x", "text", "a b"]}},
                {"X": {"GLOBAL:History": None,
                       "_dimensions": {"M": {"value": [1, 2, 3],
                                             "value_str": "1 to 3"}}}},
                {}])}
    if rng.random() < .7:
        r["ExtraA"] = {"value": None, "general": rng.choice(
            [["ExtraB"], ["ExtraB", "GLOBAL:Origin"], [], ["ExtraA"]])}
    if rng.random() < .4:
        # (the data type is compared with the case it is written in)
        r["GLOBAL:DataType"] = dict(r["GLOBAL:DataType"], value=r[
            "GLOBAL:DataType"]["value"] + rng.sample(
                ["fir", "tf", "sos", "fir-e", "text"], rng.randrange(1, 4)))
    if rng.random() < .5:
        r["GLOBAL:Comment"] = {
            "value": None, "general": rng.choice([[], ["GLOBAL:History"]]),
            "specific": {"A b": {"GLOBAL:Title": ["text", "", "x"]}}}
    keys = list(r)
    rng.shuffle(keys)
    return {k: r[k] for k in keys}


def write_variant(base, rng, variant):
    """Variant 0 is the default catalogue, the others are random."""
    if variant == 0:
        catalog.write(base)
        return
    conv = {}
    names = ["GeneralFIR", "General", "SimpleFreeFieldHRIR", "AaIR", "ZzTF",
             "GeneralFIR-E", "SimpleFreeFieldHRIRx", "Gen"]
    rng.shuffle(names)
    dep = {}
    upgrade = {}
    names = names[:rng.randrange(3, 7)]
    for n in names:
        deprecated = rng.random() < .25
        vs = rng.sample(["0.1", "0.5", "1.0", "1.1", "1.2", "2.0", "2.5",
                         "9.0", "10.0", "10.5", "11.0", "0.11", "1.05",
                         "1.15", "21.0", "0.99"], rng.randrange(1, 5))
        if rng.random() < .3:
            # versions that are parts of each other, close or long
            vs = list(dict.fromkeys(vs[:1] + rng.sample(rng.choice([
                ["1.0", "11.0", "21.0", "10.0"], ["1.0", "1.05", "1.1"],
                ["2.0", "9.0", "10.0", "10.5"],
                ["1.1", "1.15", "0.11", "1.2"], ["0.9", "0.99", "0.1"]]),
                3)))
        for v in vs:
            d = deprecated or rng.random() < .2
            conv[f"{n}_{v}"] = (d, rand_convention(rng, n, v))
        if deprecated:
            dep[n] = rng.choice([m for m in names if m != n])
    keys = list(conv)
    from_to_names = [n for n in names if rng.random() < .7]
    for n in from_to_names:
        vs = [k.split("_")[1] for k in keys if k.startswith(n + "_")]
        ft, rules = [], {}
        rng.shuffle(vs)
        for i, v in enumerate(vs[:2]):
            targets = rng.sample(keys, min(len(keys), rng.randrange(1, 3)))
            rid = rng.choice(["a", "b"])
            more = [x for x in vs[2:] if rng.random() < .5]
            given = [v] + more + rng.choice([[], ["0.7"]])
            vs = [x for x in vs if x not in more]
            rng.shuffle(given)
            ft.append([given, targets, rid])
            rules[rid] = rand_upgrade(rng)
        upgrade[n] = {"from_to": ft, **rules}
    catalog.write(base, only=conv, rules_=rand_rules(rng),
                  deprecations={"GLOBAL:SOFAConventions": dep},
                  upgrade=upgrade)


def rand_upgrade(rng):
    move = {}
    pool = [
        ("GLOBAL:Comment", "GLOBAL:History", None, None),
        ("ExtraA", "ExtraQ", None, ["IS"]),
        ("ExtraB", "ExtraB", [[0, 1], [1, 0]], None),
        ("Data.IR", "Data.IR", [[1, 2], [2, 1]], None),
        ("Data.IR", "Data.IR", [[0, 1, 2], [1, 2, 0]], None),
        ("ExtraA", "ExtraZ", [0, 2], None),
        ("ReceiverPosition", "ReceiverPosition", [[0, 2], [2, 1]], None),
        ("Data.IR", "Data.Other", [[2, 3], [3, 2]], ["x"]),
        ("ListenerUp", "ListenerUpper", [0, 1], None),
        ("ListenerView:Type", "ListenerView:Kind", None, None)]
    for src, dst, ax, dd in rng.sample(pool, rng.randrange(0, 4)):
        move[src] = {"target": dst, "moveaxis": ax,
                     "deprecated_dimensions": dd}
    rem = rng.sample(["GLOBAL:Origin", "ExtraC", "Data.Delay",
                      "ListenerPosition:Units", "NotThere"],
                     rng.randrange(0, 3))
    return {"move": move, "remove": rem,
            "message": rng.choice([None, "note"])}
