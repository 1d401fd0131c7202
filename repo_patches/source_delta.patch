From d69cb7a93996db0d5136a15e2b5b3bacc66e3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 01/23] fix: write string variables with current netCDF4

The values are byte strings ('S' type), for which netCDF4 >= 1.7.3 no longer
accepts an encoding other than ascii: every object with a string variable
failed to be written (AttributeError).
---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 558622a..664725a 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -330,7 +330,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='utf-8')
+                tmp_var[:] = stringtochar(value, encoding='ascii')
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
-- 
2.43.0


From 6e6e43d8ead36191754e3dfba92a0b176653a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 02/23] fix: equals() detects variables of different shape

A scalar was reported identical to an array filled with that value, and string
variables of different length raised an error or were reported identical.
---
 sofar/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/utils.py b/sofar/utils.py
index db70d72..e6dc36b 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -212,6 +212,8 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
+                # (assert_allclose broadcasts scalars)
+                assert np.squeeze(a).shape == np.squeeze(b).shape
                 npt.assert_allclose(np.squeeze(a), np.squeeze(b))
             except AssertionError:
                 is_identical = _equals_raise_warning(
@@ -220,6 +222,8 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         # compare string variables
         elif type_a == "string" and type_b == "string":
             try:
+                # (== broadcasts or raises for different shapes)
+                assert np.squeeze(a).shape == np.squeeze(b).shape
                 assert np.all(
                     np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
             except AssertionError:
-- 
2.43.0


From 483b41323bc62ff027842dd8f388f7f6919fc197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 03/23] fix: adding data that can not be stored leaves the SOFA
 object unchanged

add_variable() with e.g. a ragged list raised but left the object unprotected
and with a registered custom entry without data, which broke verify().
---
 sofar/sofa.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d629feb..c1d0c35 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -705,6 +705,14 @@ class Sofa():
         # create custom API if it not exists
         self.protected = False
 
+        # add attribute to object
+        # (done first to not leave traces of data that can not be stored)
+        try:
+            setattr(self, key, value)
+        except Exception:
+            self.protected = True
+            raise
+
         # lower case letters to indicate custom dimensions
         if dimensions is not None:
             dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()
@@ -724,8 +732,6 @@ class Sofa():
                 "comment": ""}
             self._convention[key] = self._custom[key]
 
-        # add attribute to object
-        setattr(self, key, value)
         self.protected = True
 
     def upgrade_convention(self, target=None, verify='auto'):
-- 
2.43.0


From b9fa7b24d7853fda583295fa1ce9a700bb8e4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 04/23] fix: add_attribute() accepts attributes of Data
 variables

The documented example add_attribute("Data_Real_Units", "Pascal") was rejected
because names starting with Data_ may contain two underscores.
---
 sofar/sofa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index c1d0c35..b2a325a 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -661,7 +661,7 @@ class Sofa():
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
         if dtype == "attribute":
-            if name.count("_") != 1 or \
+            if (not name.startswith("Data_") and name.count("_") != 1) or \
                     (name.startswith("Data_") and (name.count("_") == 0 or
                                                    name.count("_") > 2)):
                 raise ValueError((f"The name of {name} must have the "
@@ -669,7 +669,9 @@ class Sofa():
             if not name.startswith("GLOBAL_") and \
                     name[:name.rindex("_")] not in self._convention:
                 raise ValueError((f"Adding Attribute {name} requires "
-                                  f"variable {name[:name.rindex('_')]}"))
+                                  f"variable {name[:name.rindex('_')]}. "
+                                  f"The name of {name} must have the form "
+                                  "VariableName_AttributeName"))
         if dimensions is None and dtype != "attribute":
             raise ValueError(("dimensions must be provided for entries of "
                               "dtype double and string"))
-- 
2.43.0


From 85c39c46a16d29706b6e9e6ab914fa97b619a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 05/23] fix: verify(issue_handling="return") returns warnings

Warnings (deprecated or preliminary conventions, added mandatory data) were
dropped if there were no errors or if data of wrong type were detected.
---
 sofar/sofa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b2a325a..f32c18b 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1076,7 +1076,7 @@ class Sofa():
         # the end
         if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
             _, issues = self._verify_handle_issues(
-                    "\nWARNINGS\n--------\n", error_msg, issue_handling)
+                    warning_msg, error_msg, issue_handling)
 
             if issue_handling == "print":
                 return
@@ -1426,11 +1426,11 @@ class Sofa():
             error_occurred, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
+            if issue_handling == "return":
+                return issues
             if error_occurred:
                 if issue_handling == "print":
                     return
-                elif issue_handling == "return":
-                    return issues
 
     @staticmethod
     def _verify_value(test, ref, unit_aliases, key):
-- 
2.43.0


From 877faecd4d25b49fdc700d2b8213485b456245f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 06/23] fix: verify() detects excess dimensions

Data with more dimensions than allowed, e.g., a ListenerPosition of shape
(1, 3, 5), passed the verification and failed when writing the file.
---
 sofar/sofa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index f32c18b..d98ccb7 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1244,7 +1244,10 @@ class Sofa():
                 shape_act = _atleast_nd(value, 4).shape
             else:
                 # scalar of single dimensional array like data
-                shape_act = (np.array(value).size, )
+                # (only one dimension can have more than one entry)
+                shape_act = np.array(value).shape
+                if sum(s != 1 for s in shape_act) <= 1:
+                    shape_act = (np.array(value).size, )
 
             shape_matched = False
             for dim in dimensions.split(", "):
@@ -1262,7 +1265,9 @@ class Sofa():
                     shape_compare += (1, )
 
                 # check if the shapes match and write to API
-                if shape_compare == shape_ref:
+                # (only singleton dimensions can be discarded)
+                if shape_compare == shape_ref and \
+                        all(s == 1 for s in shape_act[len(shape_ref):]):
                     shape_matched = True
                     self._dimensions[key] = dim.upper()
                     break
@@ -1275,7 +1280,7 @@ class Sofa():
                         f"({', '.join([f'{d}={self._api[d]}' for d in dim])})")
 
                 current_error += (
-                    f"- {key} has shape {shape_compare} but must "
+                    f"- {key} has shape {shape_act} but must "
                     f"have {', '.join(dimensions_verbose)}\n")
 
         if current_error:
-- 
2.43.0


From 1dda1bcc3ef0564420a96fe76869856984d9b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 07/23] fix: read and write attributes with names used by
 netCDF4 objects

Attributes named e.g. 'name', 'mask', 'shape', or 'close' are members of the
netCDF4 Dataset and Variable classes and were not read or written.
---
 sofar/io.py         | 10 +++++-----
 sofar/sofastream.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 664725a..43e3084 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -145,7 +145,7 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load global attributes
         for attr in file.ncattrs():
 
-            value = getattr(file, attr)
+            value = file.getncattr(attr)
             all_attr.append(f"GLOBAL_{attr}")
 
             if not hasattr(sofa, f"GLOBAL_{attr}"):
@@ -176,7 +176,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
-                value = getattr(file[var], attr)
+                value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
                 if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
@@ -301,7 +301,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
         # write global attributes
         keys = [key for key in all_keys if key.startswith("GLOBAL_")]
         for key in keys:
-            setattr(file, key[7:], str(getattr(sofa, key)))
+            file.setncattr(key[7:], str(getattr(sofa, key)))
 
         # write data
         for key in all_keys:
@@ -335,8 +335,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
             for sub_key in sub_keys:
-                setattr(tmp_var, sub_key[len(key)+1:],
-                        str(getattr(sofa, sub_key)))
+                tmp_var.setncattr(sub_key[len(key)+1:],
+                                  str(getattr(sofa, sub_key)))
 
 
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 72fdd45..9ed6794 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -106,7 +106,7 @@ class SofaStream():
             # get variable from SOFA-file
             self._data = self._file.variables[name_netcdf]
             if var_attr is not None:
-                self._data = getattr(self._data, var_attr)
+                self._data = self._data.getncattr(var_attr)
 
         # get value if passed attribute points to a netCDF4-attribute
         elif name_netcdf in dset_attributes:
@@ -290,7 +290,7 @@ class SofaStream():
             # Add variable-attributes to info string (e.g. 'Type' or 'Units)
             for att_ in list(self._file[key].ncattrs()):
                 info_str += (key.replace('.', '_') + f'_{att_} : '
-                             + getattr(data, att_) + '\n')
+                             + data.getncattr(att_) + '\n')
 
         # write to text file
         if file is not None:
-- 
2.43.0


From 9e55a513bb557cd8b7b855e659ae3a1d10747404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 08/23] fix: SofaStream resolves names like Sofa does

- GLOBAL_X always is the global attribute X, and not the variable X
- attributes of variables that end with 'Data', e.g., MyData_Units, are found
- names with more than one underscore raise an AttributeError if they do not
  exist (hasattr failed with a ValueError) and are found if they do
---
 sofar/sofastream.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 9ed6794..b3d4217 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -93,23 +93,26 @@ class SofaStream():
         dset_attributes = np.asarray(self._file.ncattrs())
 
         # remove delimiter from passed sofar-attribute
-        name_netcdf = name.replace(
-            'GLOBAL_', '').replace('Data_', 'Data.')
+        # (only if it is at the beginning of the name)
+        is_global = name.startswith('GLOBAL_')
+        name_netcdf = name[7:] if is_global else name
+        if name.startswith('Data_'):
+            name_netcdf = name.replace('Data_', 'Data.', 1)
 
         # Handle variable-attributes (e.g. '_Units' and '_Type')
         var_attr = None
-        if "_" in name_netcdf:
-            name_netcdf, var_attr = name_netcdf.split('_')
+        if "_" in name_netcdf and not is_global:
+            name_netcdf, var_attr = name_netcdf.split('_', 1)
 
         # get value if passed attribute points to a netCDF4-variable
-        if name_netcdf in dset_variables:
+        if name_netcdf in dset_variables and not is_global:
             # get variable from SOFA-file
             self._data = self._file.variables[name_netcdf]
             if var_attr is not None:
                 self._data = self._data.getncattr(var_attr)
 
         # get value if passed attribute points to a netCDF4-attribute
-        elif name_netcdf in dset_attributes:
+        elif name_netcdf in dset_attributes and var_attr is None:
             # get attribute value from SOFA-file
             self._data = self._file.getncattr(name_netcdf)
 
-- 
2.43.0


From 51b5ed8f56ab68cebc43cdcfd7d2af2b4cf754fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 09/23] fix: inspect() works with string variables that contain
 a single string

They can be of type str, which does not have a size (AttributeError).
---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d98ccb7..cfe227d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -458,7 +458,8 @@ class Sofa():
             value = getattr(self, key)
 
             # information for attributes and scalars
-            if self._convention[key]["type"] == "attribute" or value.size == 1:
+            if self._convention[key]["type"] == "attribute" \
+                    or np.size(value) == 1:
                 info_str += str(value) + "\n"
             # information for variables
             else:
-- 
2.43.0


From c37ea331e703f6f8248d7ab0d7f2254cd38f0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 10/23] fix: verify() works for string variables with two or
 more dimensions

The length of the longest string could only be obtained for one dimensional
arrays (ValueError: truth value of an array is ambiguous).
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index cfe227d..226c137 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1793,7 +1793,7 @@ class Sofa():
             S = len(max(value, key=len))
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(len)(value))
+            S = np.max(np.vectorize(len)(value))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From 8e8ea77223675092a4a1c583ca32411a0ecf7ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 11/23] fix: verify() only considers attributes as units

A custom numeric variable with a name ending with 'Units' caused an
AttributeError when checking for lower case letters.
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 226c137..931e3cb 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1389,7 +1389,7 @@ class Sofa():
         # message can be generated)
 
         if mode == "write":
-            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
+            keys = [k for k in self.__dict__.keys() if k.endswith("_Units")]
             for key in keys:
                 unit = getattr(self, key)
                 if unit.lower() != unit:
-- 
2.43.0


From f79674b8bdea5ec0751ee42e833adde0667aceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 12/23] fix: do not convert private data of Sofa objects

The list of read only attributes was converted to a numpy array. It became a
string if it contained a single entry, in which case every attribute whose name
is a substring of that entry was considered as read only.
---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 931e3cb..566214e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -149,8 +149,9 @@ class Sofa():
                 "only data (e.g., to repair corrupted SOFA data)."))
 
         # convert to numpy array or scalar
+        # (not for private data, e.g., the list of read only attributes)
         if not isinstance(value, (str, dict, np.ndarray)) \
-                and name != "protected":
+                and name != "protected" and not name.startswith("_"):
             value = np.atleast_2d(value)
             if value.size == 1:
                 value = value.flatten()[0]
-- 
2.43.0


From e149f4dfa87a2141d62c508c893f3798eaae7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 13/23] fix: verify() accepts units separated by spaces

According to AES69, and as documented, units may be separated by ', ', ',', and
' '. The latter was rejected.
---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 566214e..8cf56b4 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1520,6 +1520,10 @@ class Sofa():
         units_ref = re.split(', ?', ref[0])
         units_test = re.split(', ?', test)
 
+        # units separated by spaces
+        if len(units_ref) != len(units_test):
+            units_test = re.split(', ?| ', test)
+
         # check if number of units agree
         if len(units_ref) != len(units_test):
             return False
-- 
2.43.0


From eccce388c7f5de95f5637e9995b55449f5c7e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 14/23] fix: upgrade_convention() for versions without upgrade
 rules, and up to date data

It raised an UnboundLocalError for a deprecated convention with rules for other
versions only, and returned None instead of the documented empty list if the
data is up to date.
---
 sofar/sofa.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8cf56b4..7ae2871 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -816,10 +816,14 @@ class Sofa():
                         print(upgrades)
                         return targets
                     break
+            else:
+                print((f"Convention {convention_current} v{version_current} is"
+                       " outdated but is missing upgrade rules"))
+                return
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-            return
+            return []
 
         # get information to upgrade ------------------------------------------
         upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]
-- 
2.43.0


From 52bd0839dbd3e001bcc3a5d0af142a3d0f1b97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 15/23] fix: upgrade_convention() works if optional data is not
 contained

It stopped in the midst of the upgrade with an error if data that is to be
moved or removed was not contained, and left an unprotected object behind that
claimed to be upgraded.
---
 sofar/sofa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 7ae2871..a1b39d9 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -854,6 +854,9 @@ class Sofa():
             source_sofar = source.replace(".", '_').replace(":", "_")
             target_sofar = move["target"].replace(".", '_').replace(":", "_")
             move_info = f"- Moving {source_sofar} to {target_sofar}."
+            # nothing to move (optional data)
+            if not hasattr(self, source_sofar):
+                continue
             # get data
             data = getattr(self, source_sofar)
             # delete from Sofa object
@@ -886,6 +889,9 @@ class Sofa():
         # remove data
         for target in upgrade["remove"]:
             target_sofar = target.replace(".", '_').replace(":", "_")
+            # nothing to remove (optional data)
+            if not hasattr(self, target_sofar):
+                continue
             delattr(self, target_sofar)
             print(f"- Deleting {target_sofar}.")
 
-- 
2.43.0


From 701c24b8b02b1beb41f105a2c45a3c7d9aa44b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 16/23] fix: upgrade_convention() protects the read only data
 of the new convention

The upgraded object still protected the read only data of the old convention.
---
 sofar/sofa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index a1b39d9..d2870af 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -845,6 +845,9 @@ class Sofa():
                 "GLOBAL_DataType"]
 
         self.protected = False
+        self._read_only_attr = [
+            key for key in self._convention.keys()
+            if self._read_only(self._convention[key]["flags"])]
         for key in keys:
             setattr(self, key, self._convention[key]["default"])
 
-- 
2.43.0


From 97cc566a5e3af3bccfa2af2182e24a83f0e9afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 17/23] fix: equals() works for string variables with non-ASCII
 characters

They raised a UnicodeEncodeError.
---
 sofar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index e6dc36b..887562d 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -225,7 +225,7 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
                 # (== broadcasts or raises for different shapes)
                 assert np.squeeze(a).shape == np.squeeze(b).shape
                 assert np.all(
-                    np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
+                    np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))
             except AssertionError:
                 is_identical = _equals_raise_warning(
                     "not identical: different values for {key}", verbose)
-- 
2.43.0


From 725b7d455737040cbc1d0dde9b0b6039c468dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 18/23] fix: custom data can be added again after deleting it

The deleted entry remained in the private convention. If it was added again it
was not registered as custom data, and Sofa.verify() failed with a KeyError.
---
 sofar/sofa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d2870af..07e5711 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -177,6 +177,7 @@ class Sofa():
             if hasattr(self, "_custom"):
                 if name in self._custom:
                     self._custom.pop(name)
+                    self._convention.pop(name, None)
         else:
             raise TypeError(
                 f"{name} is a mandatory attribute that can not be deleted")
-- 
2.43.0


From badda7615e55bd95c4113b07e780a6133fd04f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 19/23] fix: verify() obtains dimensions from one dimensional
 data

The size of a dimension was obtained from a different shape than the one used
for verifying it. Valid data was rejected, e.g., a list as custom variable of
custom dimension 'K', or a flat array for ReceiverPosition of dimension 'rCI'.
---
 sofar/sofa.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 07e5711..eafbbc0 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1219,13 +1219,19 @@ class Sofa():
             value = getattr(self, key)
             dimensions = self._convention[key]["dimensions"]
 
+            # shape of the data (as used for verifying the dimensions below)
+            shape = _nd_newaxis(value, 4).shape
+            if self._convention[key]["type"] == "double":
+                shape = _atleast_nd(value, 4).shape \
+                    if len(dimensions.split(", ")[0]) > 1 \
+                    else (np.size(value), )
+
             # - dimensions are given as string, e.g., 'mRN', or 'IC, MC'
             # - defined by lower case letters in `dimensions`
             for idx, dim in enumerate(dimensions.split(", ")[0]):
                 if dim not in "ICS" and dim.islower():
                     # numeric data
-                    self._api[dim.upper()] = \
-                        _nd_newaxis(value, 4).shape[idx]
+                    self._api[dim.upper()] = shape[idx]
                 if dim == "S":
                     # string data
                     S = max(S, np.max(self._get_size_and_shape_of_string_var(
-- 
2.43.0


From 07b947579c661679bb538a44ad369c2e9a6c2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 20/23] fix: verify() does not issue warnings for the default
 data of a convention

---
 sofar/sofa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index eafbbc0..7a9b39e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1177,9 +1177,9 @@ class Sofa():
         if hasattr(self, "_custom"):
 
             # get normative variables and attributes
-            normative = sf.Sofa(
+            normative = self._load_convention(
                 self.GLOBAL_SOFAConventions,
-                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
+                self.GLOBAL_SOFAConventionsVersion).keys()
             normative = [n.replace("GLOBAL_", "") for n in normative]
 
             # compare against custom
-- 
2.43.0


From 029e5ef243da3b67ac2a713ac3d8b6d501cf2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 21/23] fix: verify() allows underscores in variable names only
 for the prefix Data_

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 7a9b39e..c8518d0 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1144,7 +1144,7 @@ class Sofa():
             if self._convention[key]["type"] == "attribute":
                 continue
 
-            if "_" in key.replace("Data_", ""):
+            if "_" in re.sub("^Data_", "", key):
                 current_error += "- " + key + "\n"
 
         if current_error:
-- 
2.43.0


From 663b357643bb5a949c1aa5d32273a0643610709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 22/23] fix: write_sofa() works for data with excess singleton
 dimensions

Data of shape (4, 3, 2, 1) with dimensions 'MRN' pass the verification but
could not be written.
---
 sofar/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index 43e3084..3e80dd1 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -323,7 +323,12 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                 sofa._dimensions[key], sofa._api["S"])
 
             # create variable and write data
+            # (data can have excess singleton dimensions)
             shape = list(sofa._dimensions[key])
+            size = [sofa._api[dim] for dim in shape
+                    if dtype == "f8" or dim != "S"]
+            if value.size == np.prod(size):
+                value = value.reshape([int(s) for s in size])
             tmp_var = file.createVariable(
                 key.replace("Data_", "Data."), dtype, shape,
                 zlib=use_zlib, complevel=compression)
-- 
2.43.0


From 02e2a3771f4183b6b55743b6e96ea325f9164198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 23/23] fix: upgrade_convention() works for data that is not an
 array

Moving the axis of data stored as a string or scalar raised an
AttributeError and left the object unprotected.
---
 sofar/sofa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index c8518d0..0c7f3fb 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -870,6 +870,7 @@ class Sofa():
             if moveaxis is not None:
                 # add dimensions if required
                 # (sofar discards trailing singular dimensions)
+                data = np.asarray(data)
                 while data.ndim < np.max(moveaxis) + 1:
                     data = data[..., None]
                 # move the axis
-- 
2.43.0

