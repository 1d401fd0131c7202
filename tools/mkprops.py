"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json
import os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=a))


S, IO, U, ST, UP = ("sofar/sofa.py", "sofar/io.py", "sofar/utils.py",
                    "sofar/sofastream.py", "sofar/update_conventions.py")

prop("C01", "Read-only and unknown entries cannot be assigned on protected objects",
     "While a SOFA object is protected, assigning to a name the object does not have, or to an entry its convention marks read only, raises a TypeError and leaves the object exactly as it was. Any other assignment of storable data replaces the value of that one entry and changes nothing else. Switching the protection off lifts both restrictions, and the protection switch accepts nothing but True and False.",
     ["inputs", "histories"], "every object state, every entry name, every value, protected or not",
     "The tests assign a few hand-picked entries of one convention; the guarantee is over every name, every flag combination, every value and every object reached by a history of operations.",
     [S], [("Sofa.__setattr__", S), ("Sofa.protected", S), ("Sofa.__init__ read only list", S), ("Sofa._read_only", S)],
     [("protection flag", "whether read only data and the set of entries are frozen", S), ("read only list", "names flagged read only by the convention in use", S)])
prop("C02", "Mandatory entries cannot be deleted; a deletion removes exactly one entry",
     "While a SOFA object is protected, deleting an entry its convention marks mandatory raises a TypeError and leaves the object as it was, and deleting an optional or custom entry removes that entry and nothing else, so that it can be added again afterwards. Deleting a name the object does not have always raises a TypeError. Without protection any entry can be deleted.",
     ["inputs", "histories"], "every object state, every entry name, protected or not",
     "The tests delete two or three entries of one convention; flags, custom entries and add/delete/add histories are unbounded.",
     [S], [("Sofa.__delattr__", S), ("Sofa.delete", S), ("Sofa._mandatory", S)])
prop("C03", "Operations never leave a protected object unprotected",
     "A SOFA object is protected when it is handed out by creating it from a convention, by reading a file, or by copying a protected object. No operation other than switching the protection itself leaves an object that was protected unprotected (adding custom data, adding missing data, upgrading, verifying, querying dimensions, inspecting, printing, comparing, copying, writing): not when it returns, not when it refuses its arguments, and not when it reports issues with the data.",
     ["inputs", "histories"], "every object state and every argument of every public operation",
     "The flag is dropped and restored on many paths; the tests never check it after an operation, let alone after every path.",
     [S, IO], [("pairs of self.protected = False / True", S), ("_read_netcdf restores the protection", IO)])
prop("C04", "Custom data is added completely or not at all",
     "Adding a custom variable or attribute is refused with a ValueError, before anything changes, if the name is taken, the data type is unknown, a variable name contains an underscore, an attribute name does not have the form Variable_Attribute of an existing variable (or GLOBAL_Attribute), or a variable comes without dimensions; data that cannot be stored leaves the object unchanged as well. Otherwise exactly this entry appears with the given value and, unless the convention itself defines it, is registered with the given type and dimensions, where every dimension letter that is not a SOFA dimension is registered as setting a custom dimension. Registered custom data survives verification.",
     ["inputs", "histories"], "every object, every name, value, data type and dimension string",
     "The tests use a dozen names; the rule is over every string, every value and every history of additions and deletions.",
     [S], [("Sofa._add_entry", S), ("Sofa._add_custom_api_entry", S), ("Sofa._reset_convention", S), ("Sofa.add_variable", S), ("Sofa.add_attribute", S)])
prop("C05", "Assigned data is stored without loss",
     "Strings, dictionaries, and numpy arrays assigned to an entry are stored as they are. Numbers, lists and tuples are stored with the same elements in the same order as an array with at least two dimensions, or as a scalar if there is a single element.",
     ["inputs"], "every value assigned to every entry that may be assigned",
     "The tests assign a few short lists; shape and element order must hold for every nesting and size.",
     [S], [("Sofa.__setattr__ normalisation", S)])
prop("C06", "The requested convention and version is used, 'latest' is the newest",
     "Creating an object from a convention name and version uses the catalogue entry of exactly this name and version, and 'latest' uses the numerically greatest version available under exactly this name. A name or version that is not in the catalogue is refused with a ValueError, and the listing functions list every convention of the catalogue exactly once.",
     ["inputs", "configurations"], "every catalogue of conventions (standardised and deprecated), every name and version requested",
     "The tests run against one installed catalogue and a few names; selection must be right for every catalogue, including names that are prefixes of each other and versions whose text and numeric order differ.",
     [S, U], [("Sofa._load_convention", S), ("utils._get_conventions", U), ("utils._verify_convention_and_version", U), ("Sofa._reset_convention", S)])
prop("C07", "A new object holds exactly the default data of its convention",
     "A newly created object contains every entry of its convention (only the mandatory entries if that is requested) and no other entry besides application and API meta data. Every entry has the default value given by the convention in the shape the convention gives it, apart from creation date, modification date, API and application meta data, which describe the running program and time. The entries flagged read only by the convention are the ones that are read only.",
     ["inputs", "configurations"], "every convention a catalogue can contain, mandatory flag on or off",
     "The tests create one or two conventions and compare single entries.",
     [S, U], [("Sofa.__init__", S), ("Sofa._convention_to_sofa", S), ("utils._atleast_nd", U)])
prop("C08", "Verification reports missing mandatory data and wrong data types exactly",
     "Verifying reports missing mandatory data if and only if an entry that the convention marks mandatory is not contained, and names every such entry. It reports data of wrong type if and only if an attribute is not a string, a numeric variable is not integer or floating point data, or a string variable is neither a string nor an array of strings. No object with one of these problems passes verification in the mode that raises.",
     ["inputs", "configurations"], "every object content, convention and custom data",
     "The tests break a handful of entries one at a time; any subset of any convention's entries can be missing or of wrong type.",
     [S], [("Sofa.verify sections 1 and 2", S)])
prop("C09", "Verification reports illegal entry names exactly",
     "Verifying reports an error if and only if an attribute belongs to no known variable and is not global, an attribute name has no underscore, a variable name has an underscore other than that of the prefix Data_, a name starts with a reserved word (PRIVATE, API, or GLOBAL without being a global attribute), or custom data carries the name of data of the convention; the report names the entry.",
     ["inputs", "histories"], "every set of entry names an object can hold, including those read from files",
     "The tests try about ten names.",
     [S], [("Sofa.verify section 3", S)])
prop("C10", "Verification reports inconsistent shapes exactly",
     "Verifying reports a shape problem if and only if, with dimension sizes taken from the variables that set them (coordinates 3, single dimension 1), some variable matches none of the dimension combinations its convention or its registration allows, where only trailing singleton dimensions may be missing or in excess. An accepted object has one consistent size for every dimension.",
     ["inputs", "configurations"], "every shape of every variable with up to four dimensions (string variables included), every list of allowed dimensions",
     "Shapes, allowed combinations and custom dimensions combine without bound; the tests try a few arrays.",
     [S, U], [("Sofa.verify sections 4 and 5", S), ("Sofa._get_size_and_shape_of_string_var", S), ("utils._atleast_nd", U), ("utils._nd_newaxis", U)])
prop("C11", "Verification enforces every rule on values and dependencies exactly",
     "For every rule of the installed rule set that concerns an entry the object has, verification reports an error if and only if the entry's value is not among the allowed ones (case sensitive for data type and convention name, otherwise not), an entry it requires in general or for its current value is missing or has a value the rule does not allow, or a dimension does not have one of the sizes required for its current value. Rules for entries the object does not have are never applied.",
     ["inputs", "configurations"], "every rule set, every object content",
     "The tests violate some rules of one rule set; each rule is a separate path through the same data driven code.",
     [S], [("Sofa.verify section 6", S), ("Sofa._verify_value", S), ("Sofa._verification_rules", S)])
prop("C12", "Units are compared by meaning, whatever separator or alias is used",
     "A unit entry satisfies a required unit if and only if, ignoring case, it is the required text or consists of the same number of units, separated by comma, comma and space, or space, each a known alias of the unit required at that position. For writing, every unit entry must in addition be lower case, for reading it need not; converting a valid unit to its reference form yields the required reference units.",
     ["inputs", "configurations"], "every unit text, every alias table, every required unit",
     "The tests compare six strings.",
     [S], [("Sofa._verify_unit", S), ("Sofa._verify_value", S), ("Sofa._get_reference_unit", S), ("Sofa.verify section 7", S)])
prop("C13", "Deprecated and preliminary conventions are always reported",
     "Verifying an object of a deprecated convention reports the deprecation with its substitute, as an error when verifying for writing and as a warning when verifying for reading. An object whose convention version is below 1.0 always yields a warning, from version 1.0 on it never does.",
     ["inputs", "configurations"], "every deprecation table, convention name and version",
     "The tests use one deprecated convention.",
     [S], [("Sofa.verify section 8", S)])
prop("C14", "Detected issues are raised, printed, or returned as requested",
     "With the mode 'raise' a ValueError is raised if and only if there are errors and a UserWarning is issued if and only if there are warnings; with 'print' both are printed and nothing is raised; with 'return' the text of all errors and warnings is returned, and None if and only if there are none, without raising or printing. The errors reported do not depend on the mode, except that missing mandatory data is an error only for 'raise' and otherwise added with a warning.",
     ["inputs"], "every combination of errors and warnings, every mode",
     "The tests try each mode with one issue; combinations and early exits are not covered.",
     [S], [("Sofa._verify_handle_issues", S), ("Sofa.verify section 9 and early exit", S)])
prop("C15", "Verifying and displaying never change the user's data",
     "Verifying, inspecting, querying or printing dimensions and information, comparing, and writing leave every entry of an object with the value it had, and remove none. The only entries ever added are missing mandatory ones, with their default value, and never when issues are to be raised.",
     ["inputs", "histories"], "every object and every argument of these operations",
     "The tests never compare an object before and after.",
     [S, IO, U], [("Sofa.verify", S), ("Sofa.inspect", S), ("Sofa.info", S), ("Sofa.list_dimensions", S), ("_write_sofa", IO), ("equals", U)])
prop("C16", "Queried dimension sizes are the sizes of the data",
     "Querying a dimension returns 3 for C, 1 for I, the length of the longest string in the string variables for S, and for any other dimension the size, along the corresponding axis, of the variable designated to set it; an unknown dimension raises a ValueError. If data has a wrong type or shape the query raises a ValueError instead of returning a size.",
     ["inputs", "histories"], "every object content, every dimension name",
     "The tests query one size of one object.",
     [S], [("Sofa.get_dimension", S), ("Sofa._update_dimensions", S), ("Sofa.verify section 4", S)])
prop("C17", "Invalid objects are never written and never damage an existing file",
     "Writing an object that verification for writing rejects raises the error and neither creates nor changes the file. An object that verification accepts is written to the given path, ending in .sofa.",
     ["inputs", "fault_sequences"], "every object that fails verification, existing or absent target file",
     "The tests check that an error is raised, not what is on disk afterwards, and only for one kind of invalid object.",
     [IO], [("_write_sofa: verify before Dataset(..., 'w')", IO)], observe=["file system"])
prop("C18", "A written file holds every entry with its name, type, shape and value",
     "A written file contains every dimension with the size of the data, every global attribute, every variable as double or character array over exactly the dimensions it was verified against with missing trailing singleton dimensions added, and every attribute of these variables, each with the object's value, and nothing else.",
     ["inputs", "configurations"], "every object that passes verification, every compression level",
     "The tests write a few default objects and compare what the same package reads back, so that an entry lost on both sides goes unnoticed.",
     [IO, U], [("_write_sofa", IO), ("_format_value_for_netcdf", IO), ("utils._atleast_nd", U)])
prop("C19", "A read object holds exactly the content of the file",
     "Reading a file yields an object with exactly the global attributes, variables and variable attributes of the file, each with the value stored there; data unknown to the convention is registered as custom data with its type and dimensions, and defaults of the convention that the file does not contain are not invented. A file that does not exist, or names a convention or version that is not in the catalogue, or holds data that verification rejects when verification applies, raises a ValueError.",
     ["inputs", "configurations"], "every SOFA file over every catalogue, verification on, off or automatic",
     "The tests read back files with default content; the presence or absence of every entry is a free choice.",
     [IO, S], [("_read_netcdf", IO), ("_format_value_from_netcdf", IO), ("Sofa._add_custom_api_entry", S)])
prop("C20", "Writing and reading back returns the same data",
     "For every object that verification accepts, reading the file it was written to yields an object of the same convention with the same entries, equal attribute texts, equal strings, and equal numbers in double precision, up to missing or added singleton dimensions at the end.",
     ["inputs", "configurations"], "every object that passes verification",
     "A relation between two functions over all objects; the tests sample default objects and a few custom entries.",
     [IO, S, U], [("_format_value_for_netcdf", IO), ("_format_value_from_netcdf", IO), ("_write_sofa", IO), ("_read_netcdf", IO)])
prop("C21", "Objects compare equal if and only if their compared entries agree",
     "Comparing two objects returns True if and only if they have the same entries, these have the same data types, the attributes have equal values, the strings are equal, and the numbers have the same shape apart from singleton dimensions and agree within the numeric tolerance; it never raises for valid objects, never depends on the order of entries, and is symmetric in finding different entries. Excluding global attributes, attributes, or dates removes exactly these entries from the comparison, and an unknown exclusion raises a ValueError.",
     ["inputs"], "every pair of objects, every exclusion",
     "The tests compare about fifteen pairs; a difference can be in any entry, value or shape.",
     [U], [("equals", U), ("_equals_raise_warning", U)])
prop("C22", "A copy is equal to and independent of the original",
     "Copying an object yields an object with the same entries, values, convention, custom data and protection. No later operation on one of them changes the other, also not on arrays changed in place.",
     ["histories"], "every object and every later operation on either of the two",
     "The test changes one entry of one copy.",
     [S], [("Sofa.copy", S)])
prop("C23", "Upgrading a convention keeps the data and applies exactly the upgrade rules",
     "The offered upgrade targets are those the upgrade rules list for the convention and version of the object, an empty list if the object is up to date; an invalid target changes no data. A performed upgrade yields an object of the target convention and version with its mandatory data complete, the data the rules move is found under the new name with the prescribed axis permutation and unchanged numbers, the data the rules remove is gone, all other data is unchanged, and the read only data of the target convention is read only.",
     ["inputs", "configurations"], "every upgrade rule set, every object of a deprecated convention, every target",
     "The tests upgrade default objects and look at the printed text only.",
     [S], [("Sofa.upgrade_convention", S), ("Sofa._load_convention", S), ("Sofa.add_missing", S)])
prop("C24", "Adding missing data adds exactly the missing entries with their defaults",
     "Adding missing data adds every entry of the convention that is missing and mandatory (if mandatory data is asked for) or optional (if optional data is asked for), with its default value, and never changes or removes an entry the object has. The report names exactly the added entries.",
     ["inputs", "configurations"], "every subset of missing entries, every choice of flags",
     "The tests remove two entries of one object.",
     [S], [("Sofa.add_missing", S)])
prop("C25", "Streaming access returns what the file contains and closes it",
     "Inside a streaming context every global attribute, variable and variable attribute of the file is returned under the same name that the entry has in a SOFA object, a name that is not in the file raises an AttributeError, and every dimension has its size in the file while an unknown dimension raises a ValueError. The file is opened read only and closed when the context is left, also by an exception.",
     ["inputs"], "every SOFA file, every name",
     "The tests read two entries of one file.",
     [ST], [("SofaStream.__getattr__", ST), ("SofaStream.get_dimension", ST), ("SofaStream.__enter__/__exit__", ST)])
prop("C26", "Updating conventions changes the catalogue only as announced and confirmed",
     "Without confirmation an update leaves every file of the catalogue as it was. With confirmation every convention offered online is afterwards stored with the content offered online (apart from line break style and trailing tabs), in the folder for standardised or deprecated conventions according to where it is offered, with a compiled file next to it, a convention that became deprecated is no longer among the standardised ones, and all other conventions are kept; exactly the differing conventions are announced, none if there are none.",
     ["inputs", "configurations"], "every local catalogue, every set of conventions offered online, every answer",
     "The test needs network access and replaces two conventions; confirmation was only tested manually.",
     [UP], [("update_conventions", UP), ("_compile_conventions", UP)], observe=["catalogue directory"])
prop("C27", "Compiled conventions contain exactly the data of the source files",
     "Converting a convention source file yields exactly one entry per data row under the row's name, with the cell of every column as text, number, or nested list of numbers of the same values and nesting, empty cells as missing (an empty default as empty text), and every version as text of a decimal number. Global entries come first and Data entries last; a malformed row raises a ValueError.",
     ["inputs"], "every source file in the documented format",
     "The test compares the conversion with committed files produced by the same code.",
     [UP], [("_convention_csv2dict", UP), ("_compile_conventions", UP)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
