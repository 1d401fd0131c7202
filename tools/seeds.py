"""Planted bugs: each is written from a property and the code alone."""
SEEDS = []


def S(id, property, file, edits, needs, breaks, demo):
    SEEDS.append({"id": id, "property": property, "file": file,
                  "edits": edits, "needs": needs, "breaks": breaks,
                  "demo": demo})


S("s01", "C01", "sofa.py",
  [("""                if self._read_only(self._convention[key]["flags"])]

            # add attributes with default values""",
    """                if self._convention[key]["type"] == "attribute" and
                self._read_only(self._convention[key]["flags"])]

            # add attributes with default values""")],
  "a convention with a read only variable (not attribute)",
  "read only variables can be assigned on protected objects",
  """
from demolib import *
c = catalog.conventions()["GeneralFIR_1.0"][1]
c["Fixed"] = E([1, 2, 3], "rm", "IC", "double")
sf = load(extra_conventions={"GeneralFIR_1.0": (False, c)})
s = sf.Sofa("GeneralFIR")
assert raises(TypeError, setattr, s, "Fixed", [3, 2, 1])
""")

S("s02", "C02", "sofa.py",
  [("""                if name in self._custom:
                    self._custom.pop(name)
""", """                for key in [k for k in self._custom if k.startswith(name)]:
                    self._custom.pop(key)
"""), ("""                    self._convention.pop(name, None)
        else:""", """                    self._convention.pop(key, None)
        else:""")] if False else
  [("""                if name in self._custom:
                    self._custom.pop(name)
""", """                if name in self._custom:
                    for key in [k for k in self._custom
                                if k.startswith(name)]:
                        self._custom.pop(key)
""")],
  "two custom entries of which one name is the beginning of the other; the "
  "shorter one is deleted and the object verified",
  "deleting a custom entry also drops the registration of other entries",
  """
from demolib import *
sf = load()
s = sf.Sofa("GeneralFIR")
s.add_variable("Temperature", 20, "double", "I")
s.add_variable("TemperatureMax", 30, "double", "I")
s.delete("Temperature")
assert not hasattr(s, "Temperature") and s.TemperatureMax == 30
s.verify()
assert "TemperatureMax" in s._custom
""")

S("s03", "C03", "sofa.py",
  [("""            self._convention[key] = self._custom[key]

        self.protected = True
""", """            self._convention[key] = self._custom[key]

            self.protected = True
""")],
  "an optional entry of the convention is deleted and added again",
  "adding back an entry of the convention leaves the object unprotected",
  """
from demolib import *
sf = load()
s = sf.Sofa("GeneralFIR")
s.delete("GLOBAL_Comment")
s.add_attribute("GLOBAL_Comment", "x")
assert s.protected
assert raises(TypeError, setattr, s, "GLOBAL_Version", "7")
""")

S("s04", "C04", "sofa.py",
  [("""            for key in self._custom:
                self._convention[key] = self._custom[key]
""", """            for key in list(self._custom):
                if not hasattr(self, key):
                    continue
                self._convention[key] = self._custom[key]
                if self._custom[key]["type"] == "attribute" and \\
                        not key.startswith("GLOBAL_") and \\
                        key.split("_")[0] not in self._convention:
                    del self._custom[key]
""")],
  "a custom attribute of a Data_ variable, and a verification",
  "the registration of custom attributes of Data_ variables gets lost",
  """
from demolib import *
sf = load()
s = sf.Sofa("GeneralFIR")
s.add_attribute("Data_IR_Note", "abc")
s.add_variable("Aa", 1, "double", "I")
s.add_attribute("Aa_Note", "abc")
s.verify()
s.verify()
assert "Data_IR_Note" in s._custom and "Aa_Note" in s._custom
s.verify(issue_handling="return")
""")

S("s05", "C05", "sofa.py",
  [("""            value = np.atleast_2d(value)
            if value.size == 1:""",
    """            value = np.atleast_2d(value)
            # keep arrays contiguous along the measurements
            if value.ndim == 2 and value.shape[0] > value.shape[1] > 1:
                value = value.T.reshape(value.shape)
            if value.size == 1:""")],
  "a nested list with more rows than columns and more than one column",
  "the elements of tall nested lists are stored in another order",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("GeneralFIR")
s.Data_IR = [[1, 2], [3, 4]]
assert np.array_equal(s.Data_IR, [[1, 2], [3, 4]])
s.Data_IR = [[1, 2], [3, 4], [5, 6]]
assert np.array_equal(s.Data_IR, [[1, 2], [3, 4], [5, 6]])
""")

S("s06", "C06", "sofa.py",
  [("""            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]""",
    """            path = path[versions.index(max(versions))]""")],
  "a convention with versions of different length, e.g., 9.0 and 10.0",
  "'latest' is the alphabetically greatest version",
  """
from demolib import *
sf = load()
assert sf.Sofa("GeneralTF").GLOBAL_SOFAConventionsVersion == "2.0"
assert sf.Sofa("General").GLOBAL_SOFAConventionsVersion == "10.0"
""")

S("s07", "C07", "sofa.py",
  [("""                default = _atleast_nd(default, ndim)""",
    """                default = _nd_newaxis(default, ndim)""")],
  "a flat list with several elements as default of a variable with several "
  "dimensions",
  "default data does not have the shape the convention gives it",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("SimpleFreeFieldHRIR", verify=False)
assert s.Data_IR.shape[:2] == (1, 2)
assert s.ListenerPosition.shape == (1, 3)
assert s.GLOBAL_Conventions == "SOFA"
""")

S("s28", "C01", "sofa.py",
  [("""            self._read_only_attr = [
                key for key in self._convention.keys()
                if self._read_only(self._convention[key]["flags"])]

            # add attributes with default values
            self._convention_to_sofa(mandatory)
""", """            # add attributes with default values
            self._convention_to_sofa(mandatory)

            self._read_only_attr = [
                key for key in self.__dict__ if key in self._convention
                and self._read_only(self._convention[key]["flags"])]
""")],
  "an object created with mandatory data only, to which optional read only "
  "data is added afterwards",
  "read only data added later can be assigned",
  """
from demolib import *
c = catalog.conventions()["GeneralFIR_1.0"][1]
c["GLOBAL:Zone"] = E("z", "r", None, "attribute")
sf = load(extra_conventions={"GeneralFIR_1.0": (False, c)})
for mandatory in (False, True):
    s = sf.Sofa("GeneralFIR", mandatory=mandatory)
    s.add_missing(verbose=False)
    assert s.GLOBAL_Zone == "z"
    assert raises(TypeError, setattr, s, "GLOBAL_Zone", "y"), mandatory
""")

S("s08", "C08", "sofa.py",
  [("""value.dtype.kind not in ['i', 'f']):""",
    """value.dtype.kind in ['U', 'S', 'O', 'c']):""")],
  "a numeric variable holding an array of booleans",
  "numeric variables that are not integer or floating point data pass",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("GeneralFIR")
s.Data_Delay = np.array([[True]])
assert raises(ValueError, s.verify)
s.Data_Delay = np.array([[1.]])
s.verify()
""")

S("s09", "C09", "sofa.py",
  [("""                if key.replace("GLOBAL_", "") in normative:""",
    """                if key in normative:""")],
  "a custom global attribute named like a variable of the convention",
  "custom global attributes named like variables of the convention pass",
  """
from demolib import *
sf = load()
s = sf.Sofa("GeneralFIR")
s.add_attribute("GLOBAL_ListenerPosition", "x")
assert raises(ValueError, s.verify)
s.delete("GLOBAL_ListenerPosition")
s.add_attribute("GLOBAL_Listener", "x")
s.verify()
""")

S("s10", "C10", "sofa.py",
  [("""            for dim in dimensions.split(", "):

                # get the reference""",
    """            for dim in dimensions.split(", ", 2)[:2]:

                # get the reference""")],
  "a variable with three alternatives of which only the last one fits",
  "data of a legal shape is reported",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("SingleRoomMIMOSRIR")
s.Data_Delay = np.zeros((2, 1, 1))
s.Data_IR = np.zeros((2, 1, 4, 3))
s.EmitterPosition = np.zeros((3, 3))
s.verify()
s.Data_Delay = np.zeros((2, 1, 3))
s.verify()
s.Data_Delay = np.zeros((2, 1, 2))
assert raises(ValueError, s.verify)
""")

S("s11", "C11", "sofa.py",
  [("""                        if dim_act not in dim_ref:""",
    """                        if not min(dim_ref) <= dim_act <= max(dim_ref):""")],
  "spherical harmonics data with a number of receivers that is no square",
  "dimension sizes between the allowed ones pass",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("GeneralFIR")
s.ReceiverPosition_Type = "spherical harmonics"
s.ReceiverPosition_Units = "degree, degree, metre"
for n, ok in ((1, True), (4, True), (3, False), (5, False), (9, True)):
    s.ReceiverPosition = np.zeros((n, 3))
    s.Data_IR = np.zeros((1, n, 8))
    s.Data_Delay = np.zeros((1, n))
    assert raises(ValueError, s.verify) is not ok, n
""")

S("s12", "C12", "sofa.py",
  [("""                    or unit_aliases[unit_test] != unit_ref:""",
    """                    or unit_aliases[unit_test] not in units_ref:""")],
  "a list of units in the wrong order",
  "units are accepted at positions where another unit is required",
  """
from demolib import *
sf = load()
s = sf.Sofa("GeneralFIR")
s.SourcePosition_Units = "degrees,degree,metres"
s.verify()
s.SourcePosition_Units = "metre, degree, degree"
assert raises(ValueError, s.verify)
""")

S("s13", "C13", "sofa.py",
  [("""        # warn if preliminary conventions versions are used
        if float(self""", """        # warn if preliminary conventions versions are used
        elif float(self""")],
  "a convention that is deprecated and preliminary",
  "no warning for the preliminary version of a deprecated convention",
  """
from demolib import *
sf = load()
for name, dep in (("MultiSpeakerBRIR", True), ("DraftIR", False)):
    s = sf.Sofa(name, verify=False)
    for mode in ("read", "write"):
        r = s.verify(issue_handling="return", mode=mode)
        assert "preliminary" in r and ("deprecat" in r) == dep, (name, r)
""")

S("s14", "C14", "sofa.py",
  [("""            issues = error_msg + "\\n" + warning_msg""",
    """            issues = error_msg""")],
  "an object with errors and warnings verified with the mode 'return'",
  "the returned issues miss the warnings",
  """
from demolib import *
sf = load()
s = sf.Sofa("GeneralFIR")
s.protected = False
del s.GLOBAL_Title
s.protected = True
s.ListenerPosition_Type = "polar"
r = s.verify(issue_handling="return")
assert "polar" in r and "GLOBAL_Title" in r
""")

S("s15", "C15", "utils.py",
  [("""    array = np.array(array)

    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array


def _complete""", """    array = np.asarray(array)

    if array.ndim < ndim and not array.flags["OWNDATA"]:
        array = array.copy()
    array.shape += (1, ) * (ndim - array.ndim)
    return array


def _complete""")],
  "an array that owns its data in a string variable or numeric variable, "
  "and a verification",
  "verifying changes the shape of the user's arrays in place",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("GeneralFIR")
a = np.ones((1, 1, 8))
s.Data_IR = a
s.verify()
assert s.Data_IR is a and a.shape == (1, 1, 8)
""")

S("s16", "C16", "sofa.py",
  [("""        issues = self.verify(issue_handling="return")
        if issues is not None""", """        if hasattr(self, "_api") and not hasattr(self, "_custom"):
            return
        issues = self.verify(issue_handling="return")
        if issues is not None""")],
  "a query of a dimension, a change of the data, and another query",
  "queried sizes are those of earlier data",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("GeneralFIR")
s.Data_IR = np.zeros((1, 1, 8))
assert s.get_dimension("N") == 8
s.Data_IR = np.zeros((1, 1, 9))
assert s.get_dimension("N") == 9
s.Data_IR = np.zeros((1, 2, 9))
assert raises(ValueError, s.get_dimension, "N")
""")

S("s17", "C17", "io.py",
  [("""    # update the dimensions
    if verify:
        sofa.verify(mode="write")

    # list of all attribute names
    all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]

    # open new NETCDF4 file for writing
    with Dataset(filename, "w", format="NETCDF4") as file:

        # write dimensions
""", """    # open new NETCDF4 file for writing
    with Dataset(filename, "w", format="NETCDF4") as file:

        # update the dimensions
        if verify:
            sofa.verify(mode="write")

        # list of all attribute names
        all_keys = [key for key in sofa.__dict__.keys()
                    if not key.startswith("_")]

        # write dimensions
""")],
  "writing an invalid object over an existing file",
  "a rejected object truncates the existing file",
  """
from demolib import *
sf = load()
p = os.path.join(TMP, "a.sofa")
s = sf.Sofa("GeneralFIR")
sf.write_sofa(p, s)
before = open(p, "rb").read()
s.ListenerPosition_Type = "polar"
assert raises(ValueError, sf.write_sofa, p, s)
assert open(p, "rb").read() == before
assert raises(ValueError, sf.write_sofa, p[:-6] + "b.sofa", s)
assert not os.path.exists(p[:-6] + "b.sofa")
""")

S("s18", "C18", "io.py",
  [("""                zlib=use_zlib, complevel=compression)""",
    """                zlib=use_zlib, complevel=compression,
                least_significant_digit=6 if compression > 7 and
                dtype == "f8" else None)""")],
  "writing with the compression levels 8 or 9",
  "written numbers are quantised",
  """
from demolib import *
import numpy as np
import netCDF4
sf = load()
for compression in (0, 4, 9):
    s = sf.Sofa("GeneralFIR")
    s.Data_IR = np.array([[[1e-9, 1 / 3, -2e-7]]])
    p = os.path.join(TMP, "a.sofa")
    sf.write_sofa(p, s, compression)
    with netCDF4.Dataset(p) as f:
        v = np.asarray(f["Data.IR"][:])
    assert np.array_equal(v, s.Data_IR), compression
""")

S("s19", "C19", "io.py",
  [("""        if attr not in all_attr:
            delattr(sofa, attr)""",
    """        if attr not in all_attr and not (
                verify and sofa._mandatory(sofa._convention[attr]["flags"])):
            delattr(sofa, attr)""")],
  "a file that misses mandatory data, read with verification",
  "mandatory data missing in the file is invented instead of rejected",
  """
from demolib import *
import netCDF4
sf = load()
p = os.path.join(TMP, "a.sofa")
sf.write_sofa(p, sf.Sofa("GeneralFIR"))
assert sf.read_sofa(p).GLOBAL_Title == ""
with netCDF4.Dataset(p, "a") as f:
    f.delncattr("Title")
assert not hasattr(sf.read_sofa(p, verify=False), "GLOBAL_Title")
assert raises(ValueError, sf.read_sofa, p)
""")

S("s20", "C20", "io.py",
  [("""        value = np.atleast_1d(value).astype("U")""",
    """        value = np.char.strip(np.atleast_1d(value).astype("U"))""")],
  "a string variable with leading or trailing blanks",
  "strings read back differ from those written",
  """
from demolib import *
sf = load()
p = os.path.join(TMP, "a.sofa")
for text in ("abc", "a b", " abc", "abc "):
    s = sf.Sofa("GeneralFIR")
    s.add_variable("Note", text, "string", "IS")
    sf.write_sofa(p, s)
    assert sf.read_sofa(p, verbose=False).Note == text, repr(text)
""")

S("s21", "C21", "utils.py",
  [("""            if a != b:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)

        # compare double""", """            is_identical = a == b or _equals_raise_warning(
                f"not identical: different values for {key}", verbose)

        # compare double""")],
  "objects that differ in an entry that is followed by an equal attribute",
  "objects with different data compare equal",
  """
from demolib import *
import numpy as np
sf = load()
for key in ("GLOBAL_Title", "Data_IR", "Data_SamplingRate_Units",
            "ReceiverPosition"):
    a = sf.Sofa("GeneralFIR")
    b = a.copy()
    assert sf.equals(a, b) is True
    v = getattr(b, key)
    setattr(b, key, v + "x" if isinstance(v, str) else np.asarray(v) + 1)
    assert sf.equals(a, b) is False and sf.equals(b, a) is False, key
""")

S("s22", "C22", "sofa.py",
  [("""        return deepcopy(self)
""", """        copy = sf.Sofa(None)
        for key, value in self.__dict__.items():
            copy.__dict__[key] = value if key == "_custom" \\
                else deepcopy(value)
        return copy
""")],
  "copying an object with custom data and adding custom data to one of them",
  "the copies share the registration of custom data",
  """
from demolib import *
sf = load()
a = sf.Sofa("GeneralFIR")
a.add_variable("One", 1, "double", "I")
b = a.copy()
assert sf.equals(a, b)
b.add_variable("Two", 2, "double", "I")
assert set(a._custom) == {"One"} and set(b._custom) == {"One", "Two"}
a.verify()
assert "Two" not in a._convention
""")

S("s23", "C23", "sofa.py",
  [("""            if version_current in from_to[0]:
                is_deprecated = True
                break""", """            if version_current == from_to[0][0]:
                is_deprecated = True
                break""")] if False else
  [("""        if not upgrade["remove"]:
            print("- No data to remove")
""", """        if not upgrade["remove"]:
            print("- No data to remove")
        elif len(upgrade["remove"]) > 1:
            # data of the removed variables
            for target in upgrade["remove"]:
                for key in [k for k in self.__dict__
                            if k.startswith(target.replace(":", "_"))]:
                    delattr(self, key)
""")],
  "an upgrade that removes several entries of an object with further data "
  "whose name begins like that of a removed entry",
  "an upgrade removes data that the rules do not remove",
  """
from demolib import *
sf = load()
s = sf.Sofa("MultiSpeakerBRIR", verify=False)
s.add_attribute("GLOBAL_OldThingNote", "keep")
s.add_variable("OldVariables", 1, "double", "I")
s.upgrade_convention("SingleRoomMIMOSRIR_1.0", verify=False)
assert not hasattr(s, "GLOBAL_OldThing") and not hasattr(s, "OldVariable")
assert s.GLOBAL_OldThingNote == "keep" and s.OldVariables == 1
""")

S("s24", "C24", "sofa.py",
  [("""                (not is_mandatory and optional)""",
    """                (not is_mandatory and optional and
                 not self._read_only(self._convention[key]["flags"]))""")],
  "an optional read only entry is missing",
  "optional read only entries are not added",
  """
from demolib import *
c = catalog.conventions()["GeneralFIR_1.0"][1]
c["GLOBAL:Zone"] = E("z", "r", None, "attribute")
sf = load(extra_conventions={"GeneralFIR_1.0": (False, c)})
s = sf.Sofa("GeneralFIR")
s.delete("GLOBAL_Zone")
s.delete("GLOBAL_Comment")
s.add_missing(verbose=False)
assert s.GLOBAL_Zone == "z" and s.GLOBAL_Comment == ""
""")

S("s25", "C25", "sofastream.py",
  [("""        self._file.close()""", """        if args[0] is None:
            self._file.close()""")],
  "leaving the streaming context by an exception",
  "the file stays open",
  """
from demolib import *
sf = load()
p = os.path.join(TMP, "a.sofa")
sf.write_sofa(p, sf.Sofa("GeneralFIR"))
with sf.SofaStream(p) as f:
    f.GLOBAL_Title
assert not f._file.isopen()
try:
    with sf.SofaStream(p) as f:
        f.NotThere
except AttributeError:
    pass
assert not f._file.isopen()
""")

ONLINE = '''
class Page:
    def __init__(self, content):
        self.content = content
        self.text = content.decode()


def online(standard, deprecated):
    import requests
    std = "https://www.sofaconventions.org/conventions/"

    def get(url, *a, **k):
        url = url.replace("conventions//", "conventions/").replace(
            "deprecated//", "deprecated/")
        for base, files in ((std + "deprecated/", deprecated),
                            (std, standard)):
            if url == base:
                return Page("".join(f'<a href="{n}">x</a>'
                                    for n in files).encode())
            if url.startswith(base):
                return Page(files[url[len(base):]])
        raise AssertionError(url)
    requests.get = get


HEAD = b"Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"


def csv(n):
    return HEAD + b"GLOBAL:SOFAConventions\\t" + n.encode() + \\
        b"\\trm\\t\\tattribute\\ttext\\n"
'''

S("s26", "C26", "update_conventions.py",
  [("""                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
""", """                os.remove(os.path.join(conventions_path, convention))
                if convention not in update:
                    continue
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
""")],
  "an update with which a convention becomes deprecated",
  "a deprecated convention remains among the standardised ones",
  """
from demolib import *
import glob
""" + ONLINE + """
sf = load()
d = os.path.join(TMP, "conventions")
os.makedirs(os.path.join(d, "deprecated"))
online({"A_1.0.csv": csv("A"), "B_1.0.csv": csv("B")}, {})
sf.update_conventions(d, assume_yes=True)
online({"A_1.0.csv": csv("A")}, {"B_1.0.csv": csv("B")})
sf.update_conventions(d, assume_yes=True)
assert sorted(os.listdir(d)) == ["A_1.0.csv", "A_1.0.json", "deprecated"]
assert sorted(os.listdir(os.path.join(d, "deprecated"))) == [
    "B_1.0.csv", "B_1.0.json"]
""")

S("s27", "C27", "update_conventions.py",
  [("""                    # get rid of white spaces
                    cell = cell.strip()
                    cell = cell.replace(' ', ',')
                    cell = cell.replace(' ', '')
                    # create flat list of integers and floats
                    numbers = cell.split(',')""",
    """                    # get rid of white spaces
                    cell = cell.strip()
                    # create flat list of integers and floats
                    numbers = cell.split(',') if ',' in cell \\
                        else list(cell.replace(' ', ''))""")],
  "a flat list of numbers with more than one digit, separated by blanks",
  "numbers in lists are split into digits",
  """
from demolib import *
sf = load()
from sofar.update_conventions import _convention_csv2dict
p = os.path.join(TMP, "A_1.0.csv")
for text, ref in (("[0 0 1]", [0, 0, 1]), ("[1,20]", [1, 20]),
                  ("[1 20 3]", [1, 20, 3])):
    with open(p, "wb") as f:
        f.write(b"Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
                b"Aa\\t" + text.encode() + b"\\tm\\tIC\\tdouble\\tx\\n")
    assert _convention_csv2dict(p)["Aa"]["default"] == ref, text
""")

S("s29", "C26", "update_conventions.py",
  [("""            if response != "y":""", """            if response.lower() in ("n", "no"):""")],
  "a prompt that is answered with anything but y or n (just pressing enter)",
  "the catalogue is changed without confirmation",
  """
from demolib import *
import builtins
""" + ONLINE + """
sf = load()
d = os.path.join(TMP, "conventions")
os.makedirs(os.path.join(d, "deprecated"))
online({"A_1.0.csv": csv("A")}, {})
for answer in ("n", "no", "", "q", "Y?"):
    builtins.input = lambda *a: answer
    sf.update_conventions(d)
    assert os.listdir(d) == ["deprecated"], answer
builtins.input = lambda *a: "y"
sf.update_conventions(d)
assert sorted(os.listdir(d)) == ["A_1.0.csv", "A_1.0.json", "deprecated"]
""")

S("s30", "C20", "io.py",
  [("""            tmp_var = file.createVariable(
                key.replace("Data_", "Data."), dtype, shape,
                zlib=use_zlib, complevel=compression)
""", """            # save disk space where single precision suffices
            nc_dtype = "f4" if use_zlib and dtype == "f8" and np.allclose(
                value, value.astype("f4")) else dtype
            tmp_var = file.createVariable(
                key.replace("Data_", "Data."), nc_dtype, shape,
                zlib=use_zlib, complevel=compression)
""")],
  "a compressed double variable whose values are not exact in single precision",
  "data is stored in single precision",
  """
from demolib import *
import numpy as np
sf = load()
p = os.path.join(TMP, "a.sofa")
for value in ([1., 2.], [.5, -3.], [.1, .2], [1e-9, 1 / 3]):
    s = sf.Sofa("GeneralFIR")
    s.add_variable("Gain", value, "double", "IR")
    s.ReceiverPosition = np.zeros((2, 3))
    s.Data_IR = np.zeros((1, 2, 1))
    s.Data_Delay = np.zeros((1, 2))
    sf.write_sofa(p, s)
    back = sf.read_sofa(p, verbose=False)
    assert np.array_equal(np.ravel(back.Gain), value), value
""")

S("s31", "C16", "sofa.py",
  [("""        if issues is not None and ("data of wrong type" in issues or""",
    """        if issues is not None and ("data of wrong type" in issues and""")],
  "an object with data of wrong shape but no data of wrong type",
  "a size is returned although the data does not have it",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("GeneralFIR")
assert s.get_dimension("R") == 1
s.Data_IR = np.zeros((1, 2, 4))
assert raises(ValueError, s.get_dimension, "N")
""")

S("s32", "C24", "sofa.py",
  [("""            if key not in keys and add_data:
""", """            if key not in keys and add_data and (
                    is_mandatory or self._convention[key]["default"] != ""):
""")],
  "a missing optional entry whose default is empty text",
  "missing optional entries are not added",
  """
from demolib import *
sf = load()
s = sf.Sofa("GeneralFIR")
for name in ("GLOBAL_ApplicationName", "GLOBAL_Comment"):
    assert hasattr(s, name)
    s.delete(name)
s.add_missing(verbose=False)
assert s.GLOBAL_ApplicationName == "" and s.GLOBAL_Comment == ""
""")

S("s33", "C15", "sofa.py",
  [("""                while len(shape) < len(dimension):
                    shape += (1, )
""", """                while len(shape) < len(dimension):
                    shape += (1, )
                value.shape = shape
""")],
  "inspecting an object with data given without trailing singleton axes",
  "inspecting changes the shape of the user's data",
  """
from demolib import *
import numpy as np
sf = load()
s = sf.Sofa("GeneralFIR")
s.ReceiverPosition = np.zeros((4, 3))
s.Data_Delay = np.zeros((1, 4))
s.Data_IR = np.zeros((1, 4, 5))
s.add_variable("Gain", np.ones((4, 1)), "double", "RIM")
before = {k: np.shape(v) for k, v in s.__dict__.items() if k[0] != "_"}
s.inspect(os.path.join(TMP, "i.txt"))
s.inspect()
after = {k: np.shape(v) for k, v in s.__dict__.items() if k[0] != "_"}
assert before == after
""")
