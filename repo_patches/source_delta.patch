From d3ebee019c03e687e6e70fdd493e5ba3f8e070bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 01/62] fix: source descriptions and cache ids unusable on
 Python 3

Dict views are not indexable and sha1 needs bytes, so no rules database
could be created from any sources file.
---
 xylem/sources/database.py | 5 +++--
 xylem/sources/impl.py     | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f0ce0bc..a4044da 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -29,6 +29,7 @@ from xylem.log_utils import is_verbose
 from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
+from xylem.text_utils import to_bytes
 from xylem.text_utils import to_str
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
@@ -38,7 +39,7 @@ from xylem.sources.rules_dict import merge_installer_dict
 
 
 def _id_string(unique_id):
-    return hashlib.sha1(unique_id).hexdigest()
+    return hashlib.sha1(to_bytes(unique_id)).hexdigest()
 
 
 def _cache_file_path(cache_dir, unique_id):
@@ -210,7 +211,7 @@ class RulesDatabase(object):
             sources_gen = get_default_source_descriptions()
         for source_file, source_descriptions in sources_gen:
             for descr in source_descriptions:
-                spec_name, arguments = descr.items()[0]
+                spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
                 self.sources.append(RulesSource(
                     spec,
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index eaeb3cc..82f3559 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -170,7 +170,7 @@ def verify_source_description(descr):
     if not isinstance(descr, dict):
         raise ValueError("Expected source description to be a dictionary, but "
                          "got '{0}'.".format(to_str(type(descr))))
-    keys = descr.keys()
+    keys = list(descr.keys())
     if not len(keys) == 1:
         raise ValueError("Expected source description to have one entry, but "
                          "got keys '{0}'.".format(keys))
@@ -178,7 +178,7 @@ def verify_source_description(descr):
         verify_spec_name(keys[0])
     except ValueError as e:
         raise_from(ValueError, "source description does not have valid "
-                   "spec name '{0}'".format(keys[0], e))
+                   "spec name '{0}'".format(keys[0]), e)
 
 
 def sources_cache_dir(cache_dir):
-- 
2.43.0


From 3f6e05fdd6712b846b8b003674c6812abdfff9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 02/62] fix: merging two any_version rules with
 default_installer raised

merge_rules failed with 'Trying to replace default installer' whenever
two rules files both defined any_version rules for the same key and OS.
---
 xylem/sources/rules_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 2922a08..7557cee 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -378,7 +378,8 @@ def merge_version_dict(new_version_dict, combined_version_dict,
             remove_rule_for_all_versions(combined_version_dict, installer)
         if "any_version" in combined_version_dict:
             merge_installer_dict(
-                new_installer_dict, combined_version_dict["any_version"], None)
+                new_installer_dict, combined_version_dict["any_version"],
+                default_installer)
         else:
             combined_version_dict["any_version"] = copy_installer_dict(
                 new_installer_dict, default_installer)
-- 
2.43.0


From 0aa643e1e9697f12174901d6b1b1bc6e641c781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 03/62] fix: lookup without compact raised UnboundLocalError

---
 xylem/lookup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index b4e4d50..7fc013e 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -37,7 +37,6 @@ def lookup(xylem_key, compact=False, config=None, sources_context=None,
 
     if compact:
         default_installer_name = ic.get_default_installer_name()
-        compacted = compact_installer_dict(installer_dict,
-                                           default_installer_name)
+        return compact_installer_dict(installer_dict, default_installer_name)
 
-    return compacted
+    return installer_dict
-- 
2.43.0


From 683719be5a564fa99784582a7332bf7df6b2d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 04/62] fix: verify_rules_dict ignored allow_default_installer

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 7557cee..58974e8 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -99,7 +99,7 @@ def verify_rules_dict(rules_dict, allow_default_installer=True):
             raise_from(ValueError, "Expected rules dict to have xylem keys as "
                        "keys.", e)
         try:
-            verify_os_dict(os_dict)
+            verify_os_dict(os_dict, allow_default_installer)
         except ValueError as e:
             raise_from(ValueError, "Expected rules dict to have valid os "
                        "dicts as values, but got error for key '{0}'.".
-- 
2.43.0


From 3983a702e64c7c5c4fc2594881e8908ba3e9d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 05/62] fix: identifiers with a trailing newline were accepted
 in rules dicts

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 58974e8..cab1a91 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -280,7 +280,7 @@ def verify_rules_dict_identifier(identifier, kind, allow_keywords=[]):
                          format(kind, identifier))
     if identifier in rules_dict_whitelist:
         return
-    if not re.match('(?u)^[\w.’+-]+$', identifier):
+    if not re.match('(?u)^[\w.’+-]+\Z', identifier):
         raise ValueError(
             "{0} '{1}' has disallowed characters. Allowed are: alphanumeric, "
             "dash, dot, underscore.".format(kind, identifier))
-- 
2.43.0


From c319f7bda223e17838eaeac1a2527b4f6597e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 06/62] fix: SpecParsingError could not be instantiated

It is not a ValueError, so calling ValueError.__init__ raised TypeError
instead of reporting the invalid rule.
---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 620f4fe..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        ValueError.__init__(self, msg)
+        super(SpecParsingError, self).__init__(msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 27b357edff25f8327ad93df4fa93bd911df58c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 07/62] fix: install with reinstall=True raised
 UnboundLocalError

---
 xylem/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/install.py b/xylem/install.py
index 0f833a8..6353c1a 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -83,6 +83,7 @@ def install(xylem_keys,
                                 interactive=interactive)
 
     #  4. Determine uninstalled resolutions
+    uninstalled_errors = []
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
-- 
2.43.0


From 52d1ca7c6cac72f36791662a039269ef0efc25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/62] fix: InstallerError while composing commands raised
 UnboundLocalError

---
 xylem/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/install.py b/xylem/install.py
index 6353c1a..101a4bc 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -234,6 +234,7 @@ def install_resolutions(installer_name,
                                  format(installer_name))
 
     errors = []
+    commands = []
     try:
         commands = installer.get_install_commands(resolutions,
                                                   interactive=interactive,
-- 
2.43.0


From 20369492044900224e2df064f42e232e6ffae0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 09/62] fix: errors while determining uninstalled packages were
 lost

The whole list was passed to exc_to_str (AttributeError), and when
stopping because of them an empty error list was returned, i.e. success
was reported although nothing got installed.
---
 xylem/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index 101a4bc..61f09d1 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -90,10 +90,10 @@ def install(xylem_keys,
         # TODO: figure out what exactly to do with these errors... For
         #       now print them here
         for err in uninstalled_errors:
-            error(exc_to_str(uninstalled_errors))
+            error(exc_to_str(err))
 
     if uninstalled_errors and not continue_on_error:
-        return resolve_errors, []
+        return resolve_errors, uninstalled_errors
 
     #  5. check prerequisites all resolutions to be installed
     check_install_prerequisites(_map_resolutions(resolved),
-- 
2.43.0


From 2cca0e5a6441c81196ea42457b8474b25bb44c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 10/62] fix: install crashed for packages with '@' in their
 name or options

The command line was interpreted as a color template.
---
 xylem/install.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 61f09d1..aa4d978 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -36,6 +36,7 @@ from xylem.log_utils import error
 
 from xylem.util import remove_duplicates
 
+from xylem.terminal_color import ansi
 from xylem.terminal_color import fmt
 
 
@@ -265,7 +266,8 @@ def install_resolutions(installer_name,
 
     # 2. else, run each install command set and collect errors
     for cmd in commands:
-        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
+        info(ansi('boldon') + "executing command: %s" % ' '.join(cmd) +
+             ansi('reset'))
         exitcode = subprocess.call(cmd)
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
-- 
2.43.0


From c69567a1e0ddef3c785e84099b4f6dc3b74a16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 11/62] fix: install command that cannot be executed aborted
 with OSError

E.g. missing sudo; it is now reported like any other failed command.
---
 xylem/install.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index aa4d978..65b911b 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -268,7 +268,15 @@ def install_resolutions(installer_name,
     for cmd in commands:
         info(ansi('boldon') + "executing command: %s" % ' '.join(cmd) +
              ansi('reset'))
-        exitcode = subprocess.call(cmd)
+        try:
+            exitcode = subprocess.call(cmd)
+        except EnvironmentError as e:
+            errors.append(chain_exception(
+                InstallError, "command `{}` for installer '{}' could not be "
+                "executed".format(' '.join(cmd), installer_name), e))
+            if not continue_on_error:
+                return errors
+            continue
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
             errors.append(InstallError(
-- 
2.43.0


From 5aad895c5dee96197da0de109628cd50a8346e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 12/62] fix: dry-run install executed prerequisite fixes

`install --dry-run --fix-prerequisites` really installed missing package
managers; use the documented 'simulate' mode instead.
---
 xylem/install.py                              | 4 ++++
 xylem/installers/package_manager_installer.py | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/xylem/install.py b/xylem/install.py
index 65b911b..d7b29c0 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -77,6 +77,10 @@ def install(xylem_keys,
 
     resolved = _squash_resolutions(res_tuple for _, res_tuple in results)
 
+    # when simulating, fixing prerequisites must not have any effect either
+    if simulate and fix_prerequisites:
+        fix_prerequisites = "simulate"
+
     #  3. check general prerequisites for all installers
     check_general_prerequisites(_installer_names(resolved),
                                 installer_context,
diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 4ec7150..29dc2a7 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -19,6 +19,7 @@ from .impl import InstallerPrerequisiteError
 
 from xylem.util import is_program_installed
 
+from xylem.log_utils import info
 from xylem.log_utils import info_v
 from xylem.log_utils import warning
 from xylem.log_utils import error
@@ -73,6 +74,9 @@ class PackageManagerInstaller(InstallerBase):
             return
         info_v("Package manager '{}' not installed ('{}' not found).".
                format(self.name, self.executable_name))
+        if fix_unsatisfied == "simulate":
+            info("# [{}] would install package manager".format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to install '{}'.".format(self.name))
             try:
@@ -110,6 +114,9 @@ class PackageManagerInstaller(InstallerBase):
             info_v("Package manager '{}' is updated.".format(self.name))
             return
         info_v("Package manager '{}' not updated.".format(self.name))
+        if fix_unsatisfied == "simulate":
+            info("# [{}] would update package manager".format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to update '{}'.".format(self.name))
             try:
-- 
2.43.0


From e6f2a4748a4f3eb6b7e759c5a0737ef8f84c03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 13/62] fix: out-of-date warning did not name the package
 manager

---
 xylem/installers/package_manager_installer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 29dc2a7..c642818 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -130,4 +130,4 @@ class PackageManagerInstaller(InstallerBase):
                 error("Installer plugin '{}' failed to update itself.".
                       format(self.name))
         warning("Package manager '{}' seems to be out-of-date. Please "
-                "consider updating for best results.")
+                "consider updating for best results.".format(self.name))
-- 
2.43.0


From 7be8e34c630f0bfd0feb110fcf50a91bcc800c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 14/62] fix: fixing a missing package manager raised TypeError

The builtin plugins did not accept the `interactive` argument, so instead
of InstallerPrerequisiteError a TypeError was raised.
---
 xylem/installers/plugins/apt.py      | 2 +-
 xylem/installers/plugins/homebrew.py | 2 +-
 xylem/installers/plugins/macports.py | 2 +-
 xylem/installers/plugins/pip.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xylem/installers/plugins/apt.py b/xylem/installers/plugins/apt.py
index 67fa757..a67b0ee 100644
--- a/xylem/installers/plugins/apt.py
+++ b/xylem/installers/plugins/apt.py
@@ -53,7 +53,7 @@ class AptInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: raise UserInterventionRequiredError with instructions,
         # handle this error specially and print instructions
         raise NotImplementedError()
diff --git a/xylem/installers/plugins/homebrew.py b/xylem/installers/plugins/homebrew.py
index 66c78f2..c4349ef 100644
--- a/xylem/installers/plugins/homebrew.py
+++ b/xylem/installers/plugins/homebrew.py
@@ -57,7 +57,7 @@ class HomebrewInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/macports.py b/xylem/installers/plugins/macports.py
index 5a302cb..6cebe6b 100644
--- a/xylem/installers/plugins/macports.py
+++ b/xylem/installers/plugins/macports.py
@@ -53,7 +53,7 @@ class MacportsInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 3ad68e8..32b4725 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -63,7 +63,7 @@ class PipInstaller(PackageManagerInstaller):
         installed = [row.split("==")[0] for row in installed]
         return [r for r in resolved if r.package not in installed]
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
         raise NotImplementedError()
 
-- 
2.43.0


From 21c94f9764603a1322e81e43d9dd30771fd12f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 15/62] fix: resolution objects were not hashable

The list _to_list_keys ended up as an entry of every resolution, and the
hash depended on the insertion order although equality does not.
---
 xylem/installers/installer_base.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 90e6fa8..13dc25b 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -36,13 +36,22 @@ from xylem.config_utils import config_from_parsed_yaml
 from xylem.config_utils import config_from_defaults
 
 
+def _hashable(value):
+    """Helper for hashing nested lists and dicts consistently with equality."""
+    if isinstance(value, dict):
+        return frozenset((k, _hashable(v)) for k, v in six.iteritems(value))
+    if isinstance(value, (list, tuple)):
+        return tuple(_hashable(v) for v in value)
+    return value
+
+
 class Resolution(dict):
 
     """Resolution object as a dictionary with attribute access.
 
     Corresponds to a single package to be installed by a package
     manager. By default only key `package` is assumed. Equality is the
-    same as dictionary equality. Set the ``_to_list_keys`` instance
+    same as dictionary equality. Set the ``_to_list_keys`` class
     variable to define how the resolution is printed.
 
     These objects are hashable, which is used to remove duplicates of a
@@ -50,17 +59,19 @@ class Resolution(dict):
     should be considered immutable.
     """
 
+    # class variable, since instance variables become dictionary entries
+    _to_list_keys = ["package"]
+
     def __init__(self, *args, **kwargs):
         super(Resolution, self).__init__(*args, **kwargs)
         self.__dict__ = self  # this allows attribute access: `self.package`
-        self._to_list_keys = ["package"]
 
     def __eq__(self, other):
         # use standard dict equality
         return super(Resolution, self).__eq__(other)
 
     def __hash__(self):
-        return hash((type(self), tuple(self.items())))
+        return hash(_hashable(self))
 
     def __str__(self):
         return ' '.join(self.to_list())
-- 
2.43.0


From 42c02e2218f5e45c73fb93cebb1d8b3094d5f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 16/62] fix: config group that is not a dict raised
 AttributeError

A null group is interpreted as unset like any other null entry.
---
 xylem/config_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a7b3c15..8a2992d 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1212,7 +1212,13 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-        data_group = data.get(group, {})
+        data_group = data.get(group, None)
+        if data_group is None:
+            data_group = {}
+        if not isinstance(data_group, dict):
+            raise ConfigValueError(type_error_msg(
+                'dict', data_group,
+                what_for="config group '{}'".format(group)))
         for subname, item in six.iteritems(group_dict):
             process_item(config[group], data_group, subname, item)
     for name, item in six.iteritems(description.items):
-- 
2.43.0


From 988eb80c82b1a36743aedc07090beb10bc97883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 17/62] fix: ceorce_config_dict returned None for regular dicts

---
 xylem/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 8a2992d..0a5aa0d 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -355,6 +355,7 @@ def ceorce_config_dict(config, copy=False):
     result = ConfigDict()
     for k, v in six.iteritems(config):
         result[k] = ceorce_config_dict(v, copy=copy)
+    return result
 
 
 def copy_to_dict(config):
-- 
2.43.0


From fe4f50922f9543e8c51be1e5e5f936e1e69d9c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 18/62] fix: config dicts shared the mutable default values of
 the description

Modifying a loaded config changed the defaults of all configs created
later on.
---
 xylem/config_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 0a5aa0d..6f70ae6 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1133,9 +1133,9 @@ def config_from_defaults(description):
             group, subname = split_group(name)
             if group not in result:
                 result[group] = ConfigDict()
-            result[group][subname] = item.default
+            result[group][subname] = deepcopy(item.default)
         else:
-            result[name] = item.default
+            result[name] = deepcopy(item.default)
     return result
 
 
-- 
2.43.0


From 056d7d361c8bac4165cc0c3d3639dbc398cca175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 19/62] fix: null entries in installer_options / install_from
 crashed

E.g. `installer_options: {pip: }` in a config file; null means unset.
---
 xylem/installers/impl.py | 3 ++-
 xylem/resolve.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/impl.py b/xylem/installers/impl.py
index 2ab89df..aec2808 100644
--- a/xylem/installers/impl.py
+++ b/xylem/installers/impl.py
@@ -398,7 +398,8 @@ class InstallerContext(object):
 
         #  1. Go through all installers and set options from config
         for inst in self.installer_plugins:
-            inst.options = self.config.installer_options.get(inst.name, {})
+            inst.options = \
+                self.config.installer_options.get(inst.name, None) or {}
 
         #  2. setup core installers from config or OS plugin
         if self.config.core_installers is not None:
diff --git a/xylem/resolve.py b/xylem/resolve.py
index f2a6716..11e04c0 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -72,7 +72,7 @@ def resolve(xylem_keys,
     #       `install-from "pip: python-*"`
     install_from_map = dict()
     for inst, keys in six.iteritems(config.install_from):
-        for k in keys:
+        for k in keys or []:
             if k in install_from_map:
                 error("ignoring 'install from {}' for key '{}'; "
                       "already configured to install from '{}'".
-- 
2.43.0


From 2def9a77dba90f3e8336084163b5d1a772c922d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 20/62] fix: invalid YAML scalars raised arbitrary errors
 instead of YAMLError

E.g. for the date 2014-13-45, such that malformed config, rules and source
files were not reported as such.
---
 xylem/yaml_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index b917ed0..9bde125 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -24,6 +24,8 @@ from __future__ import unicode_literals
 
 import yaml
 
+from xylem.exception import raise_from
+
 
 def load_yaml(data):
     """Parse a unicode string containing yaml.
@@ -43,7 +45,13 @@ def load_yaml(data):
     MyLoader.add_constructor(
         'tag:yaml.org,2002:str', MyLoader.construct_yaml_str)
 
-    return yaml.load(data, Loader=MyLoader)
+    try:
+        return yaml.load(data, Loader=MyLoader)
+    except (ValueError, LookupError, TypeError, AttributeError,
+            ArithmeticError, RuntimeError) as e:
+        # PyYAML leaks these for scalars it cannot convert to the type
+        # indicated by their tag, e.g. the date `2014-13-45`
+        raise_from(yaml.YAMLError, "invalid YAML value", e)
 
 
 def dump_yaml(data, inline=False):
-- 
2.43.0


From 04ea9d9a8a574dc0786a40c4931c23f543883b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 21/62] fix: os_override in a config passed as plain dict was
 not parsed

resolve() and install() failed with TypeError for such configs.
---
 xylem/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xylem/config.py b/xylem/config.py
index 12b63b0..508ac18 100644
--- a/xylem/config.py
+++ b/xylem/config.py
@@ -289,6 +289,11 @@ def process_config(config, args):
             else:
                 config.sources_dir = sources_dir(
                     system_config_dir(args.prefix, XYLEM_TOOL_NAME))
+    process_os_override(config)
+
+
+def process_os_override(config):
+    """Parse ``"os_override"`` in config, see :func:`process_config`."""
     if config.os_override is not None:
         name, version, features = parse_os_override(config.os_override)
         config.os_override = (name, version)
@@ -313,6 +318,8 @@ def ensure_config(config):
     if isinstance(config, ConfigDict):
         return config
     if isinstance(config, dict):
-        return config_from_parsed_yaml(
+        config = config_from_parsed_yaml(
             config, get_config_description(), use_defaults=True)
+        process_os_override(config)
+        return config
     raise ValueError("invalid config of type '{}'".format(type_name(config)))
-- 
2.43.0


From ff6b7b36f685e632b95ca50a484473b1679d72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 22/62] fix: source files were not read in alphabetical order

Priority of the source files is their alphabetical order (see
docs/design.rst), but they were read in arbitrary directory order.
---
 xylem/sources/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 82f3559..54bce8a 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -53,7 +53,7 @@ def get_default_source_descriptions():
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     files = pkg_resources.resource_listdir(SOURCES_GROUP, 'sources.d')
-    for file_path in files:
+    for file_path in sorted(files):
         file_path = os.path.join('sources.d', file_path)
         data = pkg_resources.resource_string(SOURCES_GROUP, file_path)
         yield parse_source_descriptions(
@@ -85,7 +85,7 @@ def load_sources_from_path(path):
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     return _load_sources(
-        [os.path.join(path, s) for s in os.listdir(path)])
+        [os.path.join(path, s) for s in sorted(os.listdir(path))])
 
 
 def _load_sources(files):
-- 
2.43.0


From 7ea33fb912f8cebda9ca90d3337473214b4cd103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 23/62] fix: hidden source files were not ignored

The check considered the whole path; conversely all files of a sources
dir with a relative path like `./sources.d` were ignored.
---
 xylem/sources/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 54bce8a..2a3b546 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -90,7 +90,7 @@ def load_sources_from_path(path):
 
 def _load_sources(files):
     for file_path in files:
-        if file_path.startswith('.'):
+        if os.path.basename(file_path).startswith('.'):
             continue
         if not file_path.endswith('.yaml'):
             continue
-- 
2.43.0


From 036798df73b92e0a69234f0953933f6933fd630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 24/62] fix: clear_cache raised TypeError

---
 xylem/sources/database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index a4044da..f8346d1 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -166,14 +166,14 @@ class RulesSource(object):
 
         :raises OSError: if cache file cannot be removed
         """
-        path = self.cache_file_path(self.sources_context)
+        path = self.cache_file_path()
         if os.path.exists(path):
             if is_verbose():
-                info("Removing cache file '%s'.", path)
+                info("Removing cache file '{0}'.".format(path))
             os.remove(path)
         else:
             if is_verbose():
-                info("Cache file '%s' already clear.", path)
+                info("Cache file '{0}' already clear.".format(path))
 
     def lookup(self, xylem_key, installer_context):
         installer_dict = self.spec.lookup(
-- 
2.43.0


From e47bb2e09097fb8de3567d115a00f1c3002fefab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 25/62] fix: is_cache_outdated raised TypeError for existing
 caches

---
 xylem/sources/database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f8346d1..c7388d3 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -151,9 +151,10 @@ class RulesSource(object):
             return True
         cache_data = _read_cache(self.cache_file_path())
         # here we could also check xylem version if needed in the future
-        if self.spec.name != cache_data('spec_name'):
+        if self.spec.name != cache_data['spec_name']:
             return True
-        return self.spec.is_data_outdated(cache_data['data'], self.arguments)
+        return self.spec.is_data_outdated(
+            cache_data['data'], self.arguments, cache_data['time_data_loaded'])
 
     def is_cache_available(self):
         path = self.cache_file_path()
-- 
2.43.0


From 837ed6a9b8e208713c59333940ae43d324fb185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 26/62] fix: interrupted or failed cache write destroyed the
 existing cache

After that all commands fail to load the truncated cache file; replace
the cache file atomically instead.
---
 xylem/sources/database.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index c7388d3..9723804 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -93,9 +93,18 @@ def _read_cache(filepath):
 
 
 def _write_cache(cache_data, filepath):
-    with open(filepath, 'wb') as f:
-        # protocol 2 is compatible with python 2 and 3
-        pickle.dump(cache_data, f, protocol=2)
+    # write to a temporary file first, to never leave behind a partially
+    # written cache file
+    temppath = "{0}.{1}.tmp".format(filepath, os.getpid())
+    try:
+        with open(temppath, 'wb') as f:
+            # protocol 2 is compatible with python 2 and 3
+            pickle.dump(cache_data, f, protocol=2)
+        getattr(os, 'replace', os.rename)(temppath, filepath)
+    except BaseException:
+        if os.path.exists(temppath):
+            os.remove(temppath)
+        raise
 
 
 class RulesSource(object):
-- 
2.43.0


From c95e6e4d06453b2ecb51df00451f2f879a93d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 27/62] fix: update ignored dry_run

`xylem update --dry-run` wrote to the cache; now the sources are only
loaded and verified.
---
 xylem/update.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xylem/update.py b/xylem/update.py
index 09abf20..63a1d4c 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -78,9 +78,13 @@ def update(dry_run=False, config=None, sources_context=None):
     if config is None:
         config = get_config()
     sources_context = sources_context or SourcesContext(config)
-    sources_context.ensure_cache_dir()
+    if not dry_run:
+        sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
     database.print_info = True
     # support partial update of local sources even without connectivity:
     database.raise_on_error = False
-    database.update()
+    if dry_run:
+        database.load_from_source()
+    else:
+        database.update()
-- 
2.43.0


From 4ba364c9293ba3d560b999ef1b2bf992e9513570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 28/62] fix: load_url leaked socket, HTTP, URL and charset
 errors

Timeouts and connection errors after connecting, malformed URLs and
unknown charsets were not reported as DownloadFailure (nor retried).
---
 xylem/load_url.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index d436558..7c4a060 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -18,6 +18,7 @@ from __future__ import unicode_literals
 
 import socket
 import time
+from six.moves.http_client import HTTPException
 from six.moves.urllib.error import HTTPError
 from six.moves.urllib.error import URLError
 from six.moves.urllib.request import urlopen
@@ -48,6 +49,7 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     while True:
         try:
             req = urlopen(url, timeout=timeout)
+            data = req.read()
         except HTTPError as e:
             if e.code == 503 and retry:
                 retry -= 1
@@ -62,9 +64,23 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except socket.timeout as e:
+            # not wrapped in URLError if it occurs after connecting
+            if retry:
+                retry -= 1
+                time.sleep(retry_period)
+            else:
+                raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                           format(url), e)
+        except (EnvironmentError, HTTPException, ValueError) as e:
+            raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                       format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    data = req.read()
-    return to_str(data, encoding=encoding)
+    try:
+        return to_str(data, encoding=encoding)
+    except (LookupError, ValueError) as e:
+        raise_from(DownloadFailure, "Failed to decode contents of url '{0}'.".
+                   format(url), e)
-- 
2.43.0


From 946b2cac1e1ac342e1165684257b760275143c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 29/62] fix: console output was printed as bytes literals on
 Python 3

All output looked like `b'boost --> libboost\\x1b[0m'`.
---
 xylem/log_utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index 30becc1..beba71d 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -16,6 +16,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 import os
+import six
 import sys
 
 from xylem.text_utils import to_str
@@ -32,6 +33,11 @@ _verbose = False
 enable_ANSI_colors()
 
 
+def _printable(msg):
+    """Encode for printing in py2; py3 streams expect (encodable) text."""
+    return to_bytes(msg) if six.PY2 else to_str(to_bytes(msg))
+
+
 def enable_verbose(state=True):
     """En- or disable printing verbose output to console."""
     global _verbose
@@ -73,7 +79,7 @@ def debug(msg, file=None, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('greenf') + msg + ansi('reset')
     if is_debug():
-        print(to_bytes(msg), file=file, *args, **kwargs)
+        print(_printable(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -87,7 +93,7 @@ def info(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stdout
     msg = to_str(msg)
     msg = msg + ansi('reset')  # Assume that msg might contain colors
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_printable(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -102,7 +108,7 @@ def warning(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stderr
     msg = to_str(msg)
     msg = ansi('yellowf') + msg + ansi('reset')
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_printable(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -117,8 +123,8 @@ def error(msg, file=None, exit=False, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('redf') + ansi('boldon') + msg + ansi('reset')
     if exit:
-        sys.exit(to_bytes(msg))
-    print(to_bytes(msg), file=file, *args, **kwargs)
+        sys.exit(_printable(msg))
+    print(_printable(msg), file=file, *args, **kwargs)
     return msg
 
 
-- 
2.43.0


From 3612f7cc3b7ecd733ffc5ec2611773c78dc1fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 30/62] fix: standalone commands like xylem-update crashed on
 startup

create_command_parser did not return the parser.
---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 2e3b342..33b295c 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -72,6 +72,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     command_defi['prepare_config'](get_config_description())
     add_config_arguments(parser)
     add_global_arguments(parser)
+    return parser
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From 7fce1bd1851d54db703f3d4b51d842b99bee225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 31/62] fix: options in front of the command were silently
 ignored

E.g. in `xylem --os ubuntu:precise resolve foo` the os override got lost.
---
 xylem/commands/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 33b295c..90c4ce3 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -70,8 +70,14 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     parser = command_defi['prepare_arguments'](parser) or parser
     parser.set_defaults(func=command_defi['main'])
     command_defi['prepare_config'](get_config_description())
+    num_command_actions = len(parser._actions)
     add_config_arguments(parser)
     add_global_arguments(parser)
+    if parser_title:
+        # defaults of a subparser must not override the config and global
+        # arguments passed in front of the command
+        for action in parser._actions[num_command_actions:]:
+            action.default = argparse.SUPPRESS
     return parser
 
 
-- 
2.43.0


From 7d8362b3c8027b462d5a828ffd8b7b1903ba2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 32/62] fix: xylem without a command crashed with
 AttributeError

---
 xylem/commands/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 90c4ce3..5e15514 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -145,6 +145,8 @@ def main(sysargs=None):
     args = parser.parse_args(sysargs)
     handle_global_arguments(args)
     handle_config_arguments(args)
+    if not hasattr(args, 'func'):
+        parser.error("no command specified")
 
     # FIXME: the following logic and error handling
     try:
-- 
2.43.0


From 200f6002bc6e509818b4569d899ed84daac51b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 33/62] fix: compacting rules was not idempotent

Versions equal to any_version are dropped; if only any_version remains
it was not replaced by its value, which a second compaction does.
---
 xylem/specs/plugins/rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..0d76f67 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -511,6 +511,10 @@ def compact_version_dict(version_dict, default_installer):
             if not (has_any_version and
                     installer_dict == any_version_installer_dict):
                 new_version_dict[version] = installer_dict
+    # without the versions dropped above, there might be only any_version left
+    if has_any_version and len(new_version_dict) == 1 and \
+            not isinstance(any_version_installer_dict, dict):
+        return any_version_installer_dict
     return new_version_dict
 
 
-- 
2.43.0


From cd8ae875ce28a2e1d95a09128fe9416f6c617105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 34/62] Revert "fix: compacting rules was not idempotent"

This reverts commit 200f6002bc6e509818b4569d899ed84daac51b15.
---
 xylem/specs/plugins/rules.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 0d76f67..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -511,10 +511,6 @@ def compact_version_dict(version_dict, default_installer):
             if not (has_any_version and
                     installer_dict == any_version_installer_dict):
                 new_version_dict[version] = installer_dict
-    # without the versions dropped above, there might be only any_version left
-    if has_any_version and len(new_version_dict) == 1 and \
-            not isinstance(any_version_installer_dict, dict):
-        return any_version_installer_dict
     return new_version_dict
 
 
-- 
2.43.0


From ad89ca7fb04c6c861e76b9213ac49743bb7dc9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 35/62] Revert "fix: SpecParsingError could not be
 instantiated"

This reverts commit c319f7bda223e17838eaeac1a2527b4f6597e435.
---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..620f4fe 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        super(SpecParsingError, self).__init__(msg)
+        ValueError.__init__(self, msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 792745324dcf140de4dbd1213594fc1f1cdd5f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 36/62] fix: configs shared nested values with the dict they
 were created from

Changing e.g. a list nested in `installer_options` of a config changed
the dict passed by the user (and all other configs made from it).
---
 xylem/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 6f70ae6..6a275b2 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1206,7 +1206,7 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     :raises ConfigValueError: if parsing of files fails
     """
     def process_item(target_dict, source_dict, key, item):
-        value = source_dict.get(key, None)
+        value = deepcopy(source_dict.get(key, None))
         value = item.type.from_yaml(value)
         target_dict[key] = value
 
-- 
2.43.0


From db10f6fed132316f527a5534c1427109368d1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 37/62] fix: install with continue_on_error reported success
 despite failed checks

Errors while determining the uninstalled packages were printed, but
missing in the returned errors.
---
 xylem/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index d7b29c0..f4094d7 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -114,7 +114,7 @@ def install(xylem_keys,
                                       simulate=simulate,
                                       continue_on_error=continue_on_error)
 
-    return resolve_errors, install_errors
+    return resolve_errors, uninstalled_errors + install_errors
 
 
 def _installer_names(resolved):
-- 
2.43.0


From 751733b3d4fc75a621bcd74b9952b0d0155c5558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 38/62] fix: install reported success if an installer composed
 no commands

The resolutions to be installed were not verified in that case.
---
 xylem/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index f4094d7..087e0b6 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -257,7 +257,7 @@ def install_resolutions(installer_name,
             "`interactive={}` and `reinstall={}`".
             format(installer_name, resolutions, interactive, reinstall), e)
 
-    if not commands:
+    if not commands and (errors or simulate or not resolutions):
         info_v("# [%s] no packages to install" % installer_name)
         return errors
 
-- 
2.43.0


From 7d8210b1070a865d431cb646dd752c00e4ca80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 39/62] fix: warning about duplicate plugins names the
 duplicate object name

---
 xylem/plugin_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 9259aa3..aa2f007 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -177,7 +177,7 @@ def load_plugins(kind, base_class, group, disabled=[]):
             continue
         if obj_name in name_set:
             # TODO: somehow decide when to reraise and when to display error
-            warning("Ignoring {0} plugin '{1}' with duplicate name '{1}'".
+            warning("Ignoring {0} plugin '{1}' with duplicate name '{2}'.".
                     format(kind, definition['plugin_name'], obj_name))
             continue
         info_v("Loaded {0} plugin '{1}' with {0} name '{2}'.".
-- 
2.43.0


From 8aaca49f785a71f3e24b18c01afc91e933900e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 40/62] fix: fmt drops sanitized '@!' etc from the text when
 colors are disabled

---
 xylem/terminal_color.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/terminal_color.py b/xylem/terminal_color.py
index c883ba2..f5b1f7b 100644
--- a/xylem/terminal_color.py
+++ b/xylem/terminal_color.py
@@ -88,7 +88,9 @@ def disable_ANSI_colors():
     """
     global _ansi
     for key in _ansi:
-        _ansi[key] = ''
+        # the fmt sanitizers stand for text, not for escape sequences
+        if not key.startswith('at'):
+            _ansi[key] = ''
 
 # Default to ansi colors on
 enable_ANSI_colors()
-- 
2.43.0


From 7e00d5f5225df83e974235184c45893523be1c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 41/62] fix: exc_to_str leaves out exceptions that are false as
 boolean

---
 xylem/exception.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/exception.py b/xylem/exception.py
index 718901f..e8dccfd 100644
--- a/xylem/exception.py
+++ b/xylem/exception.py
@@ -102,7 +102,7 @@ def exc_to_str(exc, tb=False, limit=None, chain=True):
     result = []
     next_exc = exc
     next_tb = tb
-    while next_exc:
+    while next_exc is not None:
         result.insert(0, _format_no_chain(next_exc, next_tb, limit))
         next_exc = getattr(next_exc, '__cause__', None)
         next_tb = tb and getattr(next_exc, '__traceback__', None)
-- 
2.43.0


From cff3d4df058b5692e2bee101aece85959b2b9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 42/62] fix: text with the 'next line' character survives
 dumping as YAML

---
 xylem/yaml_utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index 9bde125..c447e27 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -26,6 +26,8 @@ import yaml
 
 from xylem.exception import raise_from
 
+from xylem.text_utils import text_type
+
 
 def load_yaml(data):
     """Parse a unicode string containing yaml.
@@ -75,8 +77,16 @@ def dump_yaml(data, inline=False):
         def represent_none(self, data):
             return self.represent_scalar('tag:yaml.org,2002:null', '')
 
+        def represent_text(self, data):
+            # in other styles the 'next line' character is written as is
+            # and read back as line break, i.e. lost
+            style = '"' if '\x85' in data else None
+            return self.represent_scalar(
+                'tag:yaml.org,2002:str', data, style=style)
+
     MyDumper.add_representer(type(None), MyDumper.represent_none)
     MyDumper.add_representer(ConfigDict, MyDumper.represent_dict)
+    MyDumper.add_representer(text_type, MyDumper.represent_text)
 
     result = yaml.dump(data,
                        Dumper=MyDumper,
-- 
2.43.0


From a0a48e495072a09e8c7961c6789380141eca065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:59 +0000
Subject: [PATCH 43/62] fix: verbose messages go to the given file even if that
 is false

---
 xylem/log_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index beba71d..16e042b 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -134,6 +134,7 @@ def info_v(msg, file=None, *args, **kwargs):
     Prints to stderr by default.
     """
     if is_verbose():
-        return info(msg, file=(file or sys.stderr), *args, **kwargs)
+        file = file if file is not None else sys.stderr
+        return info(msg, file=file, *args, **kwargs)
     else:
         return None
-- 
2.43.0


From f74a06a3b337a6252389311689eb78f80f92a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:59 +0000
Subject: [PATCH 44/62] fix: OS X without version is not detected instead of an
 AttributeError

---
 xylem/os_support/os_detect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index c0ede3a..06163e5 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -240,6 +240,9 @@ class OSX(OsDetector):
             version = self.get_version()
             import distutils.version # To parse version numbers
             try:
+                if not version:
+                    # StrictVersion would not parse it
+                    raise ValueError
                 ver = distutils.version.StrictVersion(version).version
             except ValueError:
                 raise OsNotDetected("invalid version string: %s"%(version))
-- 
2.43.0


From 209b9a105952845e4370ce5e936c5c435710b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 45/62] fix: config items added by commands broke the other
 commands

Arguments for config items were added to the main parser before commands
got to add their items, such that a missing value raised a KeyError and
the option was only known to some of the commands.
---
 xylem/commands/main.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 5e15514..3cfad1e 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -69,7 +69,6 @@ def create_command_parser(command_defi, constructor, parser_title=False):
                          formatter_class=ConfigHelpFormatter)
     parser = command_defi['prepare_arguments'](parser) or parser
     parser.set_defaults(func=command_defi['main'])
-    command_defi['prepare_config'](get_config_description())
     num_command_actions = len(parser._actions)
     add_config_arguments(parser)
     add_global_arguments(parser)
@@ -84,6 +83,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
 def command_handle_args(args, definition):
     """Helper for commands."""
     if args is None:
+        definition['prepare_config'](get_config_description())
         parser = create_command_parser(definition, argparse.ArgumentParser)
         args = parser.parse_args()
         handle_global_arguments(args)
@@ -91,7 +91,7 @@ def command_handle_args(args, definition):
     return args
 
 
-def create_subparsers(parser, cmds):
+def load_command_definitions(cmds):
     defis = []
     for cmd in list(cmds):
         defi = load_command_definition(cmd)
@@ -100,6 +100,10 @@ def create_subparsers(parser, cmds):
             del cmds[cmds.index(cmd)]
             continue
         defis.append(defi)
+    return defis
+
+
+def create_subparsers(parser, cmds, defis):
     if not defis or not cmds:
         return
     public_cmds = [c for c in cmds if not c.startswith("_")]
@@ -131,6 +135,13 @@ def print_usage():
 
 
 def main(sysargs=None):
+    cmds = list_commands()
+    defis = load_command_definitions(cmds)
+    # commands may add config items, which have to be known before the
+    # config arguments are added to any of the parsers
+    for defi in defis:
+        defi['prepare_config'](get_config_description())
+
     parser = argparse.ArgumentParser(
         description="xylem is a package manager abstraction tool.",
         add_help=False,
@@ -139,8 +150,7 @@ def main(sysargs=None):
     add_config_arguments(parser)
     add_global_arguments(parser)
 
-    cmds = list_commands()
-    create_subparsers(parser, cmds)
+    create_subparsers(parser, cmds, defis)
 
     args = parser.parse_args(sysargs)
     handle_global_arguments(args)
-- 
2.43.0


From 417e38d5b4abfaaa1fcde8e836a7994c00182cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 46/62] fix: a default value containing % broke the help

---
 xylem/config_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 6a275b2..af79c6c 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -809,7 +809,8 @@ class ConfigItem(object):
             info += ["config: `{}`".format(self.name)]
         info += ["type: {}".format(type_name(self.type))]
         if self.default != self.type.unset_value():
-            info.append("default: {}".format(self.default))
+            # argparse expands '%' in help strings
+            info.append("default: {}".format(self.default).replace("%", "%%"))
         help += "(" + ", ".join(info) + ")"
         return help
 
-- 
2.43.0


From c3b9bca82b0ab47d8070da271f03df313a97caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 47/62] fix: update and lookup failed with a plain dict as
 config

---
 xylem/lookup.py | 5 ++---
 xylem/update.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index 7fc013e..0030619 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -18,14 +18,13 @@ from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 from xylem.installers import InstallerContext
 from xylem.specs.plugins.rules import compact_installer_dict
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 def lookup(xylem_key, compact=False, config=None, sources_context=None,
            installer_context=None):
 
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
 
     sources_context = sources_context or SourcesContext(config)
     ic = installer_context or InstallerContext(config)
diff --git a/xylem/update.py b/xylem/update.py
index 63a1d4c..990dbbb 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -21,7 +21,7 @@ from __future__ import unicode_literals
 from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 # TODO: remove handle_spec_urls (move some logic into the accoring
@@ -75,8 +75,7 @@ def update(dry_run=False, config=None, sources_context=None):
         context from ``config`` is created
     :type sources_context: `SourcesContext` or `None`
     """
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
     sources_context = sources_context or SourcesContext(config)
     if not dry_run:
         sources_context.ensure_cache_dir()
-- 
2.43.0


From d8fa8b35a29f246d18517a187fd0d370a411a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 48/62] fix: source files were decoded with the locale's
 encoding, others than UTF-8 broke all sources

---
 xylem/sources/impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 2a3b546..2009bb0 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -107,9 +107,10 @@ def parse_source_file(file_path):
     :returns: lists of source urls keyed by spec type
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
-    with open(file_path, 'r') as f:
+    # YAML takes care of decoding, independent of the locale
+    with open(file_path, 'rb') as f:
         data = f.read()
-        return parse_source_descriptions(to_str(data), file_path)
+        return parse_source_descriptions(data, file_path)
 
 
 # TODO: raise error by default?
-- 
2.43.0


From e6995618b844141c3eae50ce604663905272c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 49/62] fix: config files that are not UTF-8 were read with
 characters replaced

---
 xylem/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index af79c6c..d269ff9 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -241,7 +241,7 @@ def load_config_file_yaml(path):
         if os.path.isfile(path):
             with open(path, 'rb') as f:
                 binary_data = f.read()
-            config = load_yaml(to_str(binary_data))
+            config = load_yaml(to_str(binary_data, errors='strict'))
         else:
             config = None
         return process_config_file_yaml(config)
-- 
2.43.0


From c2ff02df9178c32a89908f428e62c351dc7aa585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 50/62] fix: compacting a rules file that is not UTF-8
 destroyed its characters

---
 xylem/commands/_compact_rules_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/commands/_compact_rules_file.py b/xylem/commands/_compact_rules_file.py
index 8b40355..3111c5d 100644
--- a/xylem/commands/_compact_rules_file.py
+++ b/xylem/commands/_compact_rules_file.py
@@ -61,7 +61,7 @@ def main(args=None):
 
         # parse rules file
         with open(filepath, 'rb') as f:
-            data = to_str(f.read())
+            data = to_str(f.read(), errors='strict')
         rules = load_yaml(data)
         rules = expand_rules(rules)
         verify_rules_dict(rules)
-- 
2.43.0


From 5f8c30c41965a0bbd0dbac12d4b93acc6940b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 51/62] fix: user_sources had no effect in a dict passed to the
 API

---
 xylem/config.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xylem/config.py b/xylem/config.py
index 508ac18..af6f36b 100644
--- a/xylem/config.py
+++ b/xylem/config.py
@@ -301,6 +301,16 @@ def process_os_override(config):
             config.os_options.features = features
 
 
+def process_user_sources(config):
+    """Set directories not given to those of the user if enabled."""
+    if config.user_sources:
+        config_dir = user_config_dir(XYLEM_TOOL_NAME)
+        if config.cache_dir is None:
+            config.cache_dir = user_cache_dir(config_dir)
+        if config.sources_dir is None:
+            config.sources_dir = sources_dir(config_dir)
+
+
 def ensure_config(config):
     """Helper for processing ``config`` arguments in public API.
 
@@ -321,5 +331,6 @@ def ensure_config(config):
         config = config_from_parsed_yaml(
             config, get_config_description(), use_defaults=True)
         process_os_override(config)
+        process_user_sources(config)
         return config
     raise ValueError("invalid config of type '{}'".format(type_name(config)))
-- 
2.43.0


From 1334b4eb2be193ba5e5ab9730327bd0fd2761bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 52/62] fix: the printed effective configuration could not be
 read back if the OS is overridden

---
 xylem/config.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xylem/config.py b/xylem/config.py
index af6f36b..d196f12 100644
--- a/xylem/config.py
+++ b/xylem/config.py
@@ -227,7 +227,8 @@ def handle_config_arguments(args):
     description = get_config_description()
     config = load_config(args, description, XYLEM_TOOL_NAME)
     process_config(config, args)
-    _handle_global_config_arguments_post(args, config, XYLEM_TOOL_NAME)
+    _handle_global_config_arguments_post(
+        args, unprocess_os_override(config), XYLEM_TOOL_NAME)
     set_config(config)
 
 
@@ -301,6 +302,18 @@ def process_os_override(config):
             config.os_options.features = features
 
 
+def unprocess_os_override(config):
+    """Copy of config with ``"os_override"`` as it appears in config files.
+
+    See :func:`process_os_override`.
+    """
+    config = ConfigDict(config)
+    if config.os_override is not None:
+        config.os_override = ':'.join(
+            x for x in config.os_override if x is not None)
+    return config
+
+
 def process_user_sources(config):
     """Set directories not given to those of the user if enabled."""
     if config.user_sources:
-- 
2.43.0


From 1557ace5b8e6abcaa4454df850244b3c8de7638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 53/62] fix: release files that cannot be decoded made OS
 detection fail with a UnicodeDecodeError

---
 xylem/os_support/os_detect.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 06163e5..52f2968 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -51,12 +51,16 @@ def uname_get_machine():
     """
     return _read_stdout(['uname', '-m'])
 
+def _open_text(filename):
+    # release files of other OSs may have any encoding
+    return codecs.open(filename, 'r', encoding=locale.getpreferredencoding(), errors='replace')
+
 def read_issue(filename="/etc/issue"):
     """
     :returns: list of strings in issue file, or None if issue file cannot be read/split
     """
     if os.path.exists(filename):
-        with codecs.open(filename, 'r', encoding=locale.getpreferredencoding()) as f:
+        with _open_text(filename) as f:
             return f.read().split()
     return None
 
@@ -133,7 +137,7 @@ class OpenSuse(OsDetector):
 
     def get_version(self):
         if self.is_os() and os.path.exists(self._brand_file):
-            with open(self._brand_file, 'r') as fh:
+            with _open_text(self._brand_file) as fh:
                 os_list = fh.read().strip().split('\n')
                 if len(os_list) == 2:
                     os_list = os_list[1].split(' = ')
@@ -143,7 +147,7 @@ class OpenSuse(OsDetector):
 
     def get_codename(self):
         if self.is_os() and os.path.exists(self._release_file):
-            with open(self._release_file, 'r') as fh:
+            with _open_text(self._release_file) as fh:
                 os_list = fh.read().strip().split('\n')
                 for line in os_list:
                    kv = line.split(' = ')
-- 
2.43.0


From 0513a2f36be61e2121db4020d25c106b6c4e7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 54/62] fix: OS detection failed with an AttributeError if
 uname cannot be run

---
 xylem/os_support/os_detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 52f2968..194e600 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -275,7 +275,7 @@ class QNX(OsDetector):
     def is_os(self):
         if os.path.exists(self._uname_file):
             std_out = _read_stdout([self._uname_file])
-            return std_out.strip() == self._os_name_qnx
+            return std_out is not None and std_out.strip() == self._os_name_qnx
         else:
             return False
 
@@ -360,7 +360,7 @@ class FreeBSD(OsDetector):
     def is_os(self):
         if os.path.exists(self._uname_file):
             std_out = _read_stdout([self._uname_file])
-            return std_out.strip() == "FreeBSD"
+            return std_out is not None and std_out.strip() == "FreeBSD"
         else:
             return False
 
-- 
2.43.0


From 3277553fb01987c5fee5e7f797594a9fe903dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 55/62] fix: Gentoo detection failed with an IndexError on a
 release file of one word

---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 194e600..d5d93df 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -336,7 +336,7 @@ class Gentoo(OsDetector):
 
     def is_os(self):
         os_list = read_issue(self._release_file)
-        return os_list and os_list[0] == "Gentoo" and os_list[1] == "Base"
+        return os_list and os_list[:2] == ["Gentoo", "Base"]
 
     def get_version(self):
         if self.is_os():
-- 
2.43.0


From 028d96d904149b6d05258821a5675b21c3602292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 56/62] fix: detectors added to one OsDetect object were used
 by all others

---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index d5d93df..8b65d3c 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -401,7 +401,7 @@ class OsDetect(object):
 
     def __init__(self, os_list = None):
         if os_list is None:
-            os_list = OsDetect.default_os_list
+            os_list = list(OsDetect.default_os_list)
         self._os_list = os_list
         self._os_name = None
         self._os_version = None
-- 
2.43.0


From e6b18c36e63f09845eea224cea93bad71999a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 57/62] fix: OsDetect used the oldest of several matching
 detectors instead of the newest

---
 xylem/os_support/os_detect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 8b65d3c..1c72842 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -451,6 +451,7 @@ class OsDetect(object):
                     self._os_version = os_detector.get_version()
                     self._os_codename = os_detector.get_codename()
                     self._os_detector = os_detector
+                    break
 
         if self._os_name:
             return self._os_name, self._os_version, self._os_codename
-- 
2.43.0


From 6da5c46d3836e9b02bec5ac44872a007dedee327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 58/62] fix: checking if a program is installed let it read the
 standard input of xylem

---
 xylem/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/util.py b/xylem/util.py
index d55c77d..565e03a 100644
--- a/xylem/util.py
+++ b/xylem/util.py
@@ -174,6 +174,7 @@ def is_program_installed(executable_name):
     """
     try:
         subprocess.Popen([executable_name],
+                         stdin=subprocess.PIPE,
                          stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE).communicate()
         return True
-- 
2.43.0


From 378cc8bab4e9f6ab9fa1578af5692681006f7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:53 +0000
Subject: [PATCH 59/62] fix: pip packages were not recognised as installed if
 pip freeze spells them differently

---
 xylem/installers/plugins/pip.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 32b4725..34bbe70 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -22,6 +22,8 @@
 
 from __future__ import unicode_literals
 
+import re
+
 from xylem.installers.package_manager_installer import PackageManagerInstaller
 from xylem.util import read_stdout
 
@@ -36,6 +38,11 @@ __doc__ %= format(DESCRIPTION)
 PIP_INSTALLER = 'pip'
 
 
+def _normalized(name):
+    """Return the same text for all spellings pip considers equal."""
+    return re.sub('[-_.]+', '-', name).lower()
+
+
 class PipInstaller(PackageManagerInstaller):
     """
     Installer support for pip.
@@ -60,8 +67,11 @@ class PipInstaller(PackageManagerInstaller):
 
     def filter_uninstalled(self, resolved):
         installed = read_stdout(['pip', 'freeze']).split('\n')
-        installed = [row.split("==")[0] for row in installed]
-        return [r for r in resolved if r.package not in installed]
+        # rows are `name==version` or `name @ url`
+        installed = [_normalized(re.split('==| @ ', row)[0])
+                     for row in installed]
+        return [r for r in resolved
+                if _normalized(r.package) not in installed]
 
     def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
-- 
2.43.0


From 4c1293c70e73e768605923ca363fb7c325f10808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:41 +0000
Subject: [PATCH 60/62] fix: format exceptions whose causes form a cycle

---
 xylem/exception.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xylem/exception.py b/xylem/exception.py
index e8dccfd..6529529 100644
--- a/xylem/exception.py
+++ b/xylem/exception.py
@@ -102,7 +102,10 @@ def exc_to_str(exc, tb=False, limit=None, chain=True):
     result = []
     next_exc = exc
     next_tb = tb
-    while next_exc is not None:
+    seen = set()
+    # the causes can form a cycle
+    while next_exc is not None and id(next_exc) not in seen:
+        seen.add(id(next_exc))
         result.insert(0, _format_no_chain(next_exc, next_tb, limit))
         next_exc = getattr(next_exc, '__cause__', None)
         next_tb = tb and getattr(next_exc, '__traceback__', None)
-- 
2.43.0


From fdf1be3a9e314348432828e5e02bb2add2af2f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:41 +0000
Subject: [PATCH 61/62] fix: hash resolutions that contain sets

---
 xylem/installers/installer_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 13dc25b..b802921 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -37,11 +37,13 @@ from xylem.config_utils import config_from_defaults
 
 
 def _hashable(value):
-    """Helper for hashing nested lists and dicts consistently with equality."""
+    """Helper for hashing nested values consistently with equality."""
     if isinstance(value, dict):
         return frozenset((k, _hashable(v)) for k, v in six.iteritems(value))
     if isinstance(value, (list, tuple)):
         return tuple(_hashable(v) for v in value)
+    if isinstance(value, set):
+        return frozenset(value)
     return value
 
 
-- 
2.43.0


From 04a71c57e9a573fa235896705634ac6191040519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 62/62] fix: recognize editable installs in the output of pip
 freeze

---
 xylem/installers/plugins/pip.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 34bbe70..c141ea4 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -43,6 +43,19 @@ def _normalized(name):
     return re.sub('[-_.]+', '-', name).lower()
 
 
+def _installed_name(row):
+    """Return the name of the package in a row of ``pip freeze``.
+
+    Rows are ``name==version`` or ``name @ url``. For editable installs
+    they are ``-e url#egg=name``, or ``-e path`` preceded by a comment
+    like ``# Editable install with no version control (name==version)``.
+    """
+    match = re.match(r'-e .*[#&]egg=([^&]+)|# Editable.*\(([^()=]+)==', row)
+    if match:
+        return match.group(1) or match.group(2)
+    return re.split('==| @ ', row)[0]
+
+
 class PipInstaller(PackageManagerInstaller):
     """
     Installer support for pip.
@@ -67,9 +80,7 @@ class PipInstaller(PackageManagerInstaller):
 
     def filter_uninstalled(self, resolved):
         installed = read_stdout(['pip', 'freeze']).split('\n')
-        # rows are `name==version` or `name @ url`
-        installed = [_normalized(re.split('==| @ ', row)[0])
-                     for row in installed]
+        installed = [_normalized(_installed_name(row)) for row in installed]
         return [r for r in resolved
                 if _normalized(r.package) not in installed]
 
-- 
2.43.0

