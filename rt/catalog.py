"""A hand-written catalogue of SOFA conventions for the run-time layer.

The repository keeps its conventions in a git submodule that is empty in this
sandbox.  The package only needs *some* catalogue in the documented layout
(``conventions/*.json``, ``conventions/deprecated/*.json``, ``rules/*.json``,
``VERSION``); the entries below are written for these checks, in that format,
and cover every construct the code under test distinguishes: attributes,
numeric and string variables, mandatory / read-only flags, alternative shapes,
dimension-setting letters, three data types, several versions, a preliminary
version, deprecated conventions with upgrade rules that move, move axes, remove
or only rename, and verification rules of all kinds.
"""
import json
import os


def E(default, flags, dimensions, typ, comment=""):
    return {"default": default, "flags": flags or None,
            "dimensions": dimensions or None, "type": typ,
            "comment": comment}


def glob(name, version, datatype, sofa_version="2.1", extra=None):
    d = {
        "GLOBAL:Conventions": E("SOFA", "rm", None, "attribute"),
        "GLOBAL:Version": E(sofa_version, "rm", None, "attribute"),
        "GLOBAL:SOFAConventions": E(name, "rm", None, "attribute",
                                    f"Convention {name}"),
        "GLOBAL:SOFAConventionsVersion": E(version, "rm", None, "attribute"),
        "GLOBAL:APIName": E("", "rm", None, "attribute"),
        "GLOBAL:APIVersion": E("", "rm", None, "attribute"),
        "GLOBAL:ApplicationName": E("", None, None, "attribute"),
        "GLOBAL:ApplicationVersion": E("", None, None, "attribute"),
        "GLOBAL:AuthorContact": E("", "m", None, "attribute"),
        "GLOBAL:Comment": E("", None, None, "attribute"),
        "GLOBAL:DataType": E(datatype, "rm", None, "attribute"),
        "GLOBAL:History": E("", None, None, "attribute"),
        "GLOBAL:License": E("No license provided", "m", None, "attribute"),
        "GLOBAL:Organization": E("", "m", None, "attribute"),
        "GLOBAL:Origin": E("", None, None, "attribute"),
        "GLOBAL:DateCreated": E("", "m", None, "attribute"),
        "GLOBAL:DateModified": E("", "m", None, "attribute"),
        "GLOBAL:Title": E("", "m", None, "attribute"),
        "GLOBAL:RoomType": E("free field", "m", None, "attribute"),
    }
    d.update(extra or {})
    return d


def geo(rdim="rCI, rCM", edim="eCI, eCM", views=True, receivers=1):
    rec = [[0, 0.09, 0], [0, -0.09, 0]] if receivers == 2 else [0, 0, 0]
    d = {
        "ListenerPosition": E([0, 0, 0], "m", "IC, MC", "double"),
        "ListenerPosition:Type": E("cartesian", "m", None, "attribute"),
        "ListenerPosition:Units": E("metre", "m", None, "attribute"),
        "ReceiverPosition": E(rec, "m", rdim, "double"),
        "ReceiverPosition:Type": E("cartesian", "m", None, "attribute"),
        "ReceiverPosition:Units": E("metre", "m", None, "attribute"),
        "SourcePosition": E([0, 0, 1], "m", "IC, MC", "double"),
        "SourcePosition:Type": E("spherical", "m", None, "attribute"),
        "SourcePosition:Units": E("degree, degree, metre", "m", None,
                                  "attribute"),
        "EmitterPosition": E([0, 0, 0], "m", edim, "double"),
        "EmitterPosition:Type": E("cartesian", "m", None, "attribute"),
        "EmitterPosition:Units": E("metre", "m", None, "attribute"),
    }
    if views:
        d.update({
            "ListenerView": E([1, 0, 0], None, "IC, MC", "double"),
            "ListenerView:Type": E("cartesian", None, None, "attribute"),
            "ListenerView:Units": E("metre", None, None, "attribute"),
            "ListenerUp": E([0, 0, 1], None, "IC, MC", "double"),
        })
    return d


def data_fir(dims="mRn", default=None):
    return {
        "Data.IR": E([0] if default is None else default, "m", dims,
                     "double"),
        "Data.SamplingRate": E(48000, "m", "I, M", "double"),
        "Data.SamplingRate:Units": E("hertz", "m", None, "attribute"),
        "Data.Delay": E([0, 0] if "R" in dims and default else 0, "m",
                        "IR, MR", "double"),
    }


def data_tf():
    return {
        "N": E(0, "m", "N", "double"),
        "N:LongName": E("frequency", None, None, "attribute"),
        "N:Units": E("hertz", "m", None, "attribute"),
        "Data.Real": E([0], "m", "mRn", "double"),
        "Data.Imag": E([0], "m", "MRN", "double"),
    }


def conventions():
    """{filename without extension: (deprecated, dict)}"""
    c = {}

    def put(name, version, deprecated, entries):
        c[f"{name}_{version}"] = (deprecated, entries)

    put("GeneralFIR", "1.0", False,
        {**glob("GeneralFIR", "1.0", "FIR"), **geo(), **data_fir()})
    put("GeneralTF", "1.0", False,
        {**glob("GeneralTF", "1.0", "TF", "1.0"), **geo(), **data_tf()})
    put("GeneralTF", "2.0", False,
        {**glob("GeneralTF", "2.0", "TF"), **geo(), **data_tf()})
    hr = {"GLOBAL:DatabaseName": E("", "m", None, "attribute"),
          "GLOBAL:ListenerShortName": E("", "m", None, "attribute")}
    put("SimpleFreeFieldHRIR", "1.0", False,
        {**glob("SimpleFreeFieldHRIR", "1.0", "FIR", extra=hr),
         **geo("rCI, rCM", "eCI, eCM", True, 2),
         "SourceUp": E([0, 0, 1], None, "IC, MC", "double"),
         **data_fir("mRn", [0, 0])})
    put("SimpleFreeFieldHRIR", "0.4", True,
        {**glob("SimpleFreeFieldHRIR", "0.4", "FIR", "0.6", extra=hr),
         **geo("rCI, rCM", "eCI, eCM", False, 2),
         **data_fir("mRn", [0, 0])})
    put("SimpleFreeFieldTF", "1.0", True,
        {**glob("SimpleFreeFieldTF", "1.0", "TF", "1.0"), **geo(),
         **data_tf()})
    put("SimpleFreeFieldHRTF", "1.0", False,
        {**glob("SimpleFreeFieldHRTF", "1.0", "TF"), **geo(), **data_tf()})
    put("SimpleFreeFieldHRSOS", "1.0", False,
        {**glob("SimpleFreeFieldHRSOS", "1.0", "SOS"),
         **geo("rCI, rCM", "eCI, eCM", True, 2),
         "Data.SOS": E([[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]], "m",
                       "mRn", "double"),
         "Data.SamplingRate": E(48000, "m", "I, M", "double"),
         "Data.SamplingRate:Units": E("hertz", "m", None, "attribute"),
         "Data.Delay": E([0, 0], "m", "IR, MR", "double")})
    put("SimpleHeadphoneIR", "1.0", False,
        {**glob("SimpleHeadphoneIR", "1.0", "FIR"),
         **geo("rCI, rCM", "eCI, eCM", False, 2),
         **data_fir("mRn", [0, 0]),
         "SourceModel": E([""], None, "MS", "string"),
         "SourceManufacturer": E([""], None, "MS", "string"),
         "ReceiverDescriptions": E([[""], [""]], None, "RS", "string"),
         "MeasurementDate": E([0], None, "M", "double")})
    put("SingleRoomMIMOSRIR", "1.0", False,
        {**glob("SingleRoomMIMOSRIR", "1.0", "FIR-E",
                extra={"GLOBAL:DatabaseName": E("", "m", None, "attribute"),
                       "GLOBAL:RoomDescription": E("", None, None,
                                                   "attribute")}),
         **geo("rCI, rCM", "eCI, eCM"),
         "ReceiverDescriptions": E([""], None, "RS", "string"),
         "Data.IR": E([0], "m", "mRnE", "double"),
         "Data.SamplingRate": E(48000, "m", "I, M", "double"),
         "Data.SamplingRate:Units": E("hertz", "m", None, "attribute"),
         "Data.Delay": E(0, "m", "IRI, MRI, MRE", "double")})
    put("MultiSpeakerBRIR", "0.3", True,
        {**glob("MultiSpeakerBRIR", "0.3", "FIRE", "0.6",
                extra={"GLOBAL:DatabaseName": E("", "m", None, "attribute"),
                       "GLOBAL:RoomNote": E("r", None, None, "attribute"),
                       "GLOBAL:OldThing": E("o", None, None, "attribute")}),
         **geo("rCI, rCM", "eCI, eCM"),
         "OldVariable": E([1, 2, 3], None, "IC", "double"),
         "Data.IR": E([[[[0, 0]]]], "m", "mREn", "double"),
         "Data.SamplingRate": E(48000, "m", "I, M", "double"),
         "Data.SamplingRate:Units": E("hertz", "m", None, "attribute"),
         "Data.Delay": E(0, "m", "IRI, MRI, MRE", "double")})
    # deprecated, no upgrade rules
    put("OrphanIR", "1.0", True,
        {**glob("OrphanIR", "1.0", "FIR"), **geo(), **data_fir()})
    # only preliminary versions
    put("DraftIR", "0.2", False,
        {**glob("DraftIR", "0.2", "FIR"), **geo(), **data_fir()})
    put("DraftIR", "0.9", False,
        {**glob("DraftIR", "0.9", "FIR"), **geo(), **data_fir()})
    # name is a prefix of another name; several versions
    put("General", "1.0", False,
        {**glob("General", "1.0", "FIR"), **geo(), **data_fir()})
    put("General", "1.5", False,
        {**glob("General", "1.5", "FIR"), **geo(), **data_fir()})
    put("General", "10.0", False,
        {**glob("General", "10.0", "FIR"), **geo(), **data_fir()})
    put("General", "9.0", False,
        {**glob("General", "9.0", "FIR"), **geo(), **data_fir()})
    return c


COORD = {
    "cartesian": ["metre"],
    "spherical": ["degree, degree, metre"],
}


def coord_rules(name, sh=False):
    spec = {t: {f"{name}:Units": u} for t, u in COORD.items()}
    vals = ["cartesian", "spherical"]
    if sh:
        vals.append("spherical harmonics")
        spec["spherical harmonics"] = {
            f"{name}:Units": ["degree, degree, metre"],
            "_dimensions": {name[0]: {
                "value": [(n + 1) ** 2 for n in range(200)],
                "value_str": "(N+1)^2 where N is the SH order"}}}
    return {f"{name}:Type": {"value": vals, "specific": spec},
            f"{name}": {"value": None,
                        "general": [f"{name}:Type", f"{name}:Units"]}}


def rules():
    r = {
        "GLOBAL:Conventions": {"value": ["SOFA"]},
        "GLOBAL:SOFAConventions": {"value": sorted(
            {k.split("_")[0] for k in conventions()}),
            "specific": {
                "SimpleFreeFieldHRIR": {"GLOBAL:DataType": ["FIR"]},
                "SimpleFreeFieldHRSOS": {"GLOBAL:DataType": ["SOS"]},
                "GeneralTF": {"GLOBAL:DataType": ["TF"]}}},
        "GLOBAL:DataType": {
            "value": ["FIR", "FIR-E", "FIRE", "TF", "TF-E", "SOS"],
            "specific": {
                "FIR": {"Data.IR": None, "Data.SamplingRate": None,
                        "Data.SamplingRate:Units": ["hertz"]},
                "TF": {"Data.Real": None, "Data.Imag": None, "N": None,
                       "N:Units": ["hertz"]},
                "SOS": {"Data.SOS": None,
                        "Data.SamplingRate:Units": ["hertz"],
                        "_dimensions": {"N": {
                            "value": [6 * n for n in range(1, 400)],
                            "value_str": ("an integer multiple of 6 "
                                          "greater 0")}}}}},
        "GLOBAL:RoomType": {
            "value": ["free field", "reverberant", "shoebox"],
            "specific": {
                "reverberant": {"GLOBAL:RoomDescription": None},
                "shoebox": {"RoomCornerA": None, "RoomCornerB": None}}},
        "ListenerUp": {"value": None, "general": ["ListenerView"]},
        "SourceUp": {"value": None, "general": []},
        "RoomVolume": {"value": None, "general": ["RoomVolume:Units"]},
        "RoomVolume:Units": {"value": ["cubic metre"]},
    }
    for n, sh in (("ListenerPosition", False), ("ReceiverPosition", True),
                  ("SourcePosition", False), ("EmitterPosition", True),
                  ("ListenerView", False)):
        r.update(coord_rules(n, sh))
    return r


UNIT_ALIASES = {
    "metre": "metre", "metres": "metre", "meter": "metre", "meters": "metre",
    "degree": "degree", "degrees": "degree", "hertz": "hertz",
    "cubic metre": "cubic metre", "cubic meter": "cubic metre",
    "cubic": "cubic", "kelvin": "kelvin", "second": "second",
}

DEPRECATIONS = {"GLOBAL:SOFAConventions": {
    "SimpleFreeFieldTF": "SimpleFreeFieldHRTF",
    "MultiSpeakerBRIR": "SingleRoomMIMOSRIR",
    "OrphanIR": "GeneralFIR"}}

UPGRADE = {
    "SimpleFreeFieldTF": {
        "from_to": [[["1.0"], ["SimpleFreeFieldHRTF_1.0"], "a"]],
        "a": {"move": {}, "remove": [], "message": None}},
    "SimpleFreeFieldHRIR": {
        "from_to": [[["0.4", "0.3"], ["SimpleFreeFieldHRIR_1.0"], "a"]],
        "a": {"move": {}, "remove": [],
              "message": "Consider to add the optional data 'SourceUp'"}},
    "MultiSpeakerBRIR": {
        "from_to": [[["0.2"], ["GeneralFIR_1.0"], "old"],
                    [["0.3"], ["SingleRoomMIMOSRIR_1.0",
                               "GeneralFIR_1.0"], "new"]],
        "old": {"move": {}, "remove": [], "message": None},
        "new": {"move": {
            "Data.IR": {"target": "Data.IR", "moveaxis": [[2, 3], [3, 2]],
                        "deprecated_dimensions": None},
            "GLOBAL:RoomNote": {"target": "GLOBAL:RoomDescription",
                                "moveaxis": None,
                                "deprecated_dimensions": ["IS"]}},
            "remove": ["GLOBAL:OldThing", "OldVariable"],
            "message": None}},
}


def write(base, extra_conventions=None, rules_=None, aliases=None,
          deprecations=None, upgrade=None, only=None):
    """Write a catalogue below the directory `base` (sofa_conventions)."""
    os.makedirs(os.path.join(base, "conventions", "deprecated"),
                exist_ok=True)
    os.makedirs(os.path.join(base, "rules"), exist_ok=True)
    with open(os.path.join(base, "VERSION"), "w") as f:
        f.write("2.1 (2022)\n")
    conv = {} if only is not None else conventions()
    conv.update(extra_conventions or {})
    conv.update(only or {})
    for name, (dep, entries) in conv.items():
        path = os.path.join(base, "conventions",
                            *(["deprecated"] if dep else []), name + ".json")
        with open(path, "w") as f:
            json.dump(entries, f, indent=1)
    for name, obj in (
            ("rules", rules() if rules_ is None else rules_),
            ("unit_aliases", UNIT_ALIASES if aliases is None else aliases),
            ("deprecations",
             DEPRECATIONS if deprecations is None else deprecations),
            ("upgrade", UPGRADE if upgrade is None else upgrade)):
        with open(os.path.join(base, "rules", name + ".json"), "w") as f:
            json.dump(obj, f, indent=1)
