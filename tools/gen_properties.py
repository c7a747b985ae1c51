"""Writes /verif/properties.jsonl (kept as code so that the texts stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))


R = 'xylem/specs/plugins/rules.py'
D = 'xylem/sources/rules_dict.py'
DB = 'xylem/sources/database.py'
SI = 'xylem/sources/impl.py'
CU = 'xylem/config_utils.py'

prop('R01', 'Shorthand rules expand to exactly their documented meaning',
     "Loading a rules file expands every allowed shorthand (null, string or list of packages at OS, version or installer level; a bare installer dict under any_os; null/string packages and depends entries) to the documented canonical form key -> OS -> version -> installer -> rule dict with list-valued packages/depends, using any_version and default_installer where the level was omitted. All other entries of a rule survive unchanged, an empty depends disappears, YAML aliases and merge keys mean what they stand for, and expanding an already expanded rules dict changes nothing. Input with a value of a type not allowed at its level, or with any_os having both any_version and other versions, is rejected with a ValueError or XylemError naming the problem, never silently altered.",
     ['inputs'], "all rules documents composed of allowed shorthands at each nesting level, and documents with one disallowed value at any level",
     "Two tests expand one hand-written rules dict; the combinations of shorthand x level x keyword are unbounded.",
     [R], [('expand_rules and helpers', R)], ['return value of expand_rules / Spec.load_data', 'exception type'])

prop('R02', 'Rules verification accepts exactly well-formed expanded rules',
     "Verification of an expanded rules dict (and of its OS, version, installer-dict parts) succeeds if and only if every level is a dict, every identifier is text of the allowed characters (word characters, dot, dash, plus, or the special 'mountain lion') and not a keyword reserved for another level, and every rule is a dict with text keys whose packages is a list and whose depends is a list of valid keys. default_installer is accepted only where permitted: never under any_os and never when the caller disallows it. Violations are reported as ValueError (no other exception), and the checked data is never modified.",
     ['inputs'], "all nested Python/YAML values at every level, valid or with arbitrary corruption, with default_installer allowed or not",
     "The test for verification is empty.",
     [D], [('verify_rules_dict, verify_os_dict, verify_version_dict, verify_installer_dict, verify_installer_rule, verify_rules_dict_identifier', D)],
     ['ValueError or normal return of the verify functions', 'Spec.verify_data'])

prop('R03', 'Rule lookup honours version > any_version > any_os per installer',
     "Looking up a key for an OS name, version and default installer returns, per installer, the rule of the version-specific entry if there is one, else of the OS's any_version entry, else of any_os, with default_installer replaced by the OS's default installer; installers are combined across the three levels. Entries of other OSs, versions or keys never influence the result, an unknown key yields an empty dict, and lookup never modifies the rules. A source's lookup for the current OS gives the same answer.",
     ['inputs'], "all valid expanded rules dicts, keys, OS names, versions and default installers",
     "No test calls lookup; the precedence depends on the combination of up to three levels and the default installer.",
     [D, R], [('lookup_rules, merge_installer_dict', D), ('RulesSpec.lookup', R)], ['lookup_rules', 'Spec.lookup'])

prop('R04', 'Merged rules dicts answer like layered lookup, earlier sources winning',
     "Merging a list of rules dicts yields a rules dict in which looking up any key for any configured OS and version gives, per installer, the rule of the first dict in the list that has one, exactly as if each dict were looked up separately and the answers layered. The merged dict contains only any_os and the OSs that have a configured default installer, contains no default_installer entry, and none of the input dicts is modified. The rules database combines its sources with the same priority: earlier sources win per installer.",
     ['inputs'], "all lists of valid expanded rules dicts over shared keys/OSs/versions/installers, and all default installer maps",
     "Three tests merge hand-written pairs; the any_os/any_version removal logic only fails for particular combinations of levels in three or more layers.",
     [D, DB], [('merge_rules, merge_os_dict, merge_version_dict, remove_rule_for_all_os/versions', D), ('RulesDatabase.lookup', DB)],
     ['merge_rules result looked up with lookup_rules', 'RulesDatabase.lookup'])

prop('R05', 'Compacting rules preserves what every lookup returns',
     "Compacting an expanded rules dict and expanding it again gives a rules dict for which every key, OS and version looks up to the same installer rules as before (given the OS default installers), including versions that are not mentioned. Compacting again after expanding gives the same compact form. Compaction of a dict that names both default_installer and the actual default installer is refused with ValueError instead of dropping one.",
     ['inputs'], "all valid expanded rules dicts and default installer maps",
     "One test compacts one rules dict; the merging of equal versions into any_version depends on combinations.",
     [R], [('compact_rules, compact_os_dict, compact_version_dict, compact_installer_dict, compact_installer_rule', R)],
     ['lookup_rules on expand_rules(compact_rules(..))', 'output of xylem lookup'])

prop('R06', 'Listed keys are exactly the keys that have a rule for the current OS',
     "The keys listed for the current OS and version are exactly the keys with an any_os rule, a rule for that OS and version, or an any_version rule for that OS, each listed once, across all sources of the database. Every listed key with a non-empty rule has a non-empty lookup and every key that is not listed has an empty lookup.",
     ['inputs'], "all valid rules dicts spread over any number of sources and all OS tuples",
     "No test lists keys.",
     [D, R, DB], [('has_rule_for_os', D), ('RulesSpec.keys', R), ('RulesDatabase.keys', DB)], ['Spec.keys', 'RulesDatabase.keys', 'resolve --all'])

prop('R07', 'In-place compaction of a rules file keeps its meaning or leaves it alone',
     "Running the rules-file compaction command with the write option on a valid rules file leaves a valid YAML rules file with the same lookup results for all keys, OSs and versions, and running it again leaves the file byte-for-byte unchanged. Without the write option the file is untouched and the compacted rules are printed. If the file is not valid (encoding, YAML, structure or identifiers), the command fails and the file is untouched.",
     ['inputs'], "all rules files in any mix of shorthand notations, valid or corrupted, with or without write mode",
     "No test runs the command; it composes YAML load, expansion, verification, compaction and YAML dump.",
     ['xylem/commands/_compact_rules_file.py', R, 'xylem/yaml_utils.py'], [('_compact_rules_file main', 'xylem/commands/_compact_rules_file.py'), ('dump_yaml', 'xylem/yaml_utils.py')],
     ['file contents', 'stdout', 'exit status'])

prop('S01', 'Sources are read from visible *.yaml files in alphabetical order',
     "The rules database of a sources directory consists of the entries of exactly the regular, non-hidden files ending in .yaml directly in that directory, ordered by file name and then by position within the file, each with the right spec and arguments and the file as origin; everything else in the directory is ignored, whatever the directory is named. If the directory does not exist, the built-in default sources are used instead; an existing empty directory means no sources. A file that is not valid YAML (in UTF-8, or what its byte order mark says, whatever the locale) is reported and contributes no entries without affecting other files, and structurally invalid entries are rejected with ValueError rather than misread.",
     ['inputs', 'configurations'], "all directory contents (names, hidden files, sub-directories, other extensions, order of directory listing) and file contents",
     "There is no test for sources at all.",
     [SI, DB], [('load_sources_from_path, parse_source_descriptions, verify_source_description', SI), ('RulesDatabase.init_from_sources', DB)],
     ['RulesDatabase.sources', 'get_source_descriptions', 'printed errors'])

prop('S02', 'After update the cache alone reproduces what the sources said',
     "After a successful update, a fresh database loaded from the cache answers every lookup and key listing exactly as the source files answered at the time of the update, and continues to do so when the source files change or disappear afterwards, until the next update. Loading from cache restores each source's data, arguments, origin and load time; different sources never share a cache entry and sources configured twice are refused.",
     ['histories', 'inputs'], "all histories of editing rules files, updating, and reading through fresh database instances",
     "No test updates or loads a cache.",
     [DB, 'xylem/update.py'], [('RulesSource.save_to_cache / load_from_cache, _cache_file_path', DB), ('update', 'xylem/update.py')],
     ['RulesDatabase.load_from_cache + lookup/keys', 'RulesSource attributes'],
     [('cache file', 'pickled data of one source, named by sha1 of its unique id', DB)])

prop('S03', 'A failing source does not disturb the other sources or its own cache',
     "When some sources fail to load during an update (unreachable, not YAML, invalid rules), every other source is still loaded and cached, the failing source keeps its previous cache entry unchanged, and the failure is reported to the user. This holds at every step of any sequence of updates in which sources break and recover. With raise-on-error enabled the first failure is raised instead.",
     ['histories', 'fault_sequences'], "all sequences of updates with arbitrary subsets of sources failing in different ways",
     "No test exercises update failures.",
     [DB, 'xylem/update.py'], [('RulesDatabase.update', DB), ('raise_on_error', DB)], ['cache contents after each update', 'stderr'])

prop('S04', 'An interrupted or failed cache write never destroys a readable cache',
     "If saving a source to the cache is cut short at any point (process killed, disk full, I/O error, unpicklable data), a following load from the cache either gives the complete previous data or the complete new data, or, if there was no cache before, reports that there is none. No failed save leaves the other sources' cache entries unreadable, nor makes a later save fail. Saving works also while other processes save the same source: the cache then holds the complete data of one of them.",
     ['crash_points', 'fault_sequences', 'schedules'], "every byte offset and every file operation of the cache write at which the process is killed, an error is raised or another process saves, with and without a previous cache",
     "Tests cannot sample crash points; none writes a cache.",
     [DB], [('_write_cache', DB)], ['RulesSource.load_from_cache after a crashed save'])

prop('S05', 'Dry-run update changes nothing on disk',
     "An update with dry-run set creates, modifies and removes no file or directory (neither cache nor sources), whatever the state of the cache and the sources. It still loads the sources and reports those that fail.",
     ['inputs', 'configurations'], "all source sets (valid, failing), all cache states (missing directory, empty, populated, read-only)",
     "No test runs update.",
     ['xylem/update.py', 'xylem/commands/update.py'], [('update(dry_run)', 'xylem/update.py')], ['directory tree before and after', 'stderr'])

prop('S06', 'Unusable cache files are rejected without changing the loaded state',
     "Loading from a cache file that is missing, truncated, not a pickle, lacks a required entry, belongs to another spec, or holds invalid rules raises an error and leaves the source's in-memory data, arguments, origin and load time as they were. A database that does not raise on errors reports the problem and still loads all other sources. Cache availability, outdatedness and clearing reflect the cache file: available iff it exists, outdated if missing or from another spec, gone after clearing, and clearing twice is harmless.",
     ['inputs', 'histories'], "all corruptions of cache files and all histories of load, save, clear and query operations",
     "No test reads a cache.",
     [DB], [('_read_cache, _verify_cache_data_structure, _verify_cache_data_spec_name', DB), ('clear_cache, is_cache_available, is_cache_outdated', DB)],
     ['exceptions', 'RulesSource attributes', 'cache directory contents'])

prop('S07', 'Downloads are retried as documented and fail only with DownloadFailure',
     "Loading a URL returns the decoded body of the first successful response, decoded with the charset of its Content-Type (default UTF-8, undecodable bytes replaced). Only HTTP 503 and timeouts are retried, at most the given number of times (negative meaning none), waiting the retry period in between, and the timeout is passed on to each attempt. Every failure (HTTP error, connection error, timeout after the last retry, interrupted transfer, malformed URL, unknown charset) is raised as DownloadFailure with the original error as cause.",
     ['fault_sequences', 'inputs'], "all sequences of server outcomes, retry counts, headers and bodies",
     "No test loads a URL.",
     ['xylem/load_url.py'], [('load_url', 'xylem/load_url.py')], ['return value', 'exception and its cause', 'number of requests and sleeps'])

prop('C01', 'Config precedence: command line, then user, system, then defaults',
     "The effective configuration takes every item, including items inside groups, from the command line if set there, else from the user config file, else from the system config file under the prefix, else from its default; merging-dict items are instead united key by key with the same priority. With a xylem dir only the config file in it is used, and with user config disabled the user file is ignored. Null entries count as unset, unknown entries are ignored, and missing or empty files contribute nothing. A plain dict passed to the API (ensure_config, update, lookup, resolve, install) is combined with the defaults in the same way, and neither it nor the global configuration changes.",
     ['configurations', 'inputs'], "all combinations of values for all items in command line, user file, system file, xylem-dir file and environment variables",
     "Config loading has no test (the test files are empty); only type parsing is tested.",
     [CU, 'xylem/config.py'], [('load_config, merge_configs, ConfigType.merge, MergingDict.merge', CU), ('handle_global_config_arguments', CU), ('ensure_config', 'xylem/config.py'), ('update', 'xylem/update.py'), ('lookup', 'xylem/lookup.py')],
     ['get_config() after argument handling', 'xylem --print-config', 'results of update, lookup, resolve and install given a plain dict'])

prop('C02', 'Config values are accepted exactly when they have the declared type',
     "A config item read from YAML or the command line is accepted exactly if it has the declared type (text, boolean, list/dict of the declared element types, path expanded to an absolute normalised path, any); anything else, including unparsable input and files that are not UTF-8 or not dictionaries with text keys, is rejected with a config error and no other exception. On the command line the brackets of lists and dicts can be omitted with the same result, repeated list options are concatenated in order, repeated dict options united with duplicate keys rejected, and strings taken literally. Values are never silently converted to another type or dropped.",
     ['inputs'], "all YAML values and command line strings against all composed item types",
     "Tests check a handful of literals per type.",
     [CU, 'xylem/yaml_utils.py'], [('ConfigType subclasses from_yaml / from_command_line / verify', CU), ('load_config_file_yaml, config_from_parsed_yaml', CU)],
     ['returned value', 'ConfigValueError'])

prop('C03', 'OS override strings parse into name, version and features',
     "An os_override string name[:version][&feature,...] is split at the first ampersand and the first colon of the part before it, surrounding white space removed: version and features are None if their separator is absent, and an ampersand followed by nothing gives no features. In the effective configuration os_override is the (name, version) pair, and features given in it replace the os_options features while otherwise those stay as configured. The same holds whether the override comes from command line, config file or a plain dict passed to the API.",
     ['inputs'], "all names, versions, feature lists, white space and separator positions, for all ways to pass the configuration",
     "No test parses an OS override.",
     ['xylem/config.py'], [('parse_os_override, process_config, ensure_config', 'xylem/config.py')], ['parse_os_override', 'effective config'])

prop('C04', 'Cache and sources directories follow the documented derivation',
     "Unless set explicitly, the cache and sources directories are <xylem-dir>/cache and <xylem-dir>/sources.d if a xylem dir is given, else ~/.config/xylem/cache and ~/.config/xylem/sources.d if user sources are enabled (also in a dict passed to the API), else <prefix>/var/cache/xylem and <prefix>/etc/xylem/sources.d. Explicit values win individually; command line prefix and xylem dir win over XYLEM_PREFIX and XYLEM_DIR, which win over the defaults; all given paths are expanded and made absolute. Rules are then read from and cached below exactly these directories.",
     ['configurations'], "all combinations of xylem dir, prefix, environment variables, user sources and explicit directories from any configuration source",
     "No test covers directory derivation.",
     ['xylem/config.py', CU, SI], [('process_config', 'xylem/config.py'), ('handle_global_config_arguments', CU), ('SourcesContext.setup_paths', SI)], ['get_config().cache_dir/sources_dir', 'SourcesContext dirs'])

prop('C05', 'Configurations are isolated from each other and from the defaults',
     "Changing a configuration obtained from defaults, files, arguments or a plain dict, including nested lists and dicts in it, never changes the default values, the user's input data, or any configuration created before or afterwards; merging configurations does not modify the merged ones. Coercing dicts to config dicts and copying config dicts to plain dicts preserve all nested content, the copy sharing nothing with the original.",
     ['histories', 'inputs'], "all sequences of creating, mutating, merging and copying configurations",
     "No test creates two configurations.",
     [CU, 'xylem/config.py'], [('config_from_defaults, merge_configs, copy_to_dict, ceorce_config_dict', CU)], ['contents of all live configs after each operation'])

prop('C06', 'Options mean the same before or after the command and in config files',
     "A config or global option has the same effect whether it is given before or after the command name, and a config item set on the command line, in a config file, or in a dict passed to the API results in the same value in the effective configuration. Every config item declared as command line item has its option, with every command, also if the item was added by a command; the printed effective configuration, read back, reproduces it.",
     ['inputs', 'configurations'], "all subsets of options with all admissible values, distributed before and after any command",
     "No test parses a command line.",
     [CU, 'xylem/commands/main.py', 'xylem/arguments.py', 'xylem/config.py'], [('create_command_parser, create_subparsers', 'xylem/commands/main.py'), ('ConfigItem.add_argument, config_from_args', CU)],
     ['effective config', 'xylem --print-config output'])

prop('C07', 'Dumped YAML loads back to the same data, with text as text',
     "Any tree of dicts, lists, text, numbers, booleans and nulls (but a bare null) dumped as YAML loads back as an equal tree of the same types, for plain dicts and config dicts alike, with dict and list structure, shared sub-structures and non-ASCII text preserved. Loading any text either returns data or raises a YAML error, nothing else.",
     ['inputs'], "all YAML-representable trees, and arbitrary text",
     "No test dumps or loads YAML.",
     ['xylem/yaml_utils.py'], [('load_yaml, dump_yaml', 'xylem/yaml_utils.py')], ['load_yaml(dump_yaml(x))', 'exception type of load_yaml'])

prop('C08', 'Config descriptions accept exactly the items that do not clash',
     "Declaring config items, in any order and number, raises the description error exactly for an item whose name exists already or is that of a group, whose group is named like an item, or whose command line option (given, or derived from its name) another item has already. Otherwise the description has exactly the declared items, in order, with their groups and options: an item is on the command line iff that is stated or, if not stated, implied by an option name or metavar. The effective configuration has precisely these entries, and each option sets the entry of its own item and no other. Descriptions are independent of each other.",
     ['inputs', 'histories'], "all sequences of declarations of items of any names, types and option settings",
     "Each command and plugin adds its items to one description; the tests use only the fixed description of the tool.",
     ['xylem/config_utils.py'], [('ConfigDescription.add', 'xylem/config_utils.py'), ('ConfigItem', 'xylem/config_utils.py'), ('config_from_args, config_from_defaults', 'xylem/config_utils.py')], ['exception of add()', 'items, groups and options of the description', 'config_from_args()', 'config_from_defaults()'])

prop('I01', 'Each key resolves with the one installer the priorities select',
     "Every requested key (requested duplicates collapsed, order kept; with all-keys the remaining keys with rules follow sorted) appears exactly once, either in the results or in the errors. A key configured with install_from resolves only with that installer and is an error if the installer is unknown or has no rule; any other key resolves with the first core installer that has a rule, else with some additional installer that has one, else is an error. A key whose lookup fails or whose rule is invalid for the chosen installer is an error and does not affect other keys.",
     ['inputs', 'configurations'], "all rules, key lists, core/additional installer sets and install_from maps",
     "No test resolves keys.",
     ['xylem/resolve.py'], [('resolve', 'xylem/resolve.py')], ['results and errors returned by resolve', 'xylem resolve'])

prop('I02', 'Active installers are composed from config, OS plugin and plugins',
     "The core installers are the loaded ones among the names configured as core_installers, or if that is unset among those of the OS plugin, in the configured order; names without a plugin are skipped with an error message. Additional installers are all other loaded plugins that declare themselves additional for the current OS, unless disabled by configuration, and no installer is both. Disabled plugins are never used, and each installer plugin and the OS plugin get their own configured options or their defaults; options of wrong types are refused with a config error, unknown ones ignored.",
     ['configurations'], "all sets of plugins, disabled plugins, core installer lists, options and OS overrides",
     "One test checks one configuration.",
     ['xylem/installers/impl.py'], [('InstallerContext.setup_installers', 'xylem/installers/impl.py')], ['core/additional installer names', 'installer.options'])

prop('I03', 'A rule yields one resolution per package, in order, with its options',
     "Resolving an installer rule yields one resolution per listed package in the listed order, each carrying the package name and a copy of the installer's declared extra rule entries (defaults filled in), never packages or depends; declared dependencies are returned separately, and missing packages mean none. Rules with ill-typed entries raise the invalid-rule error. Resolutions are equal iff their entries are, equal resolutions hash equally, and resolving neither modifies the rule nor makes resolutions share mutable state with it.",
     ['inputs'], "all installer rules (with declared, undeclared, missing and ill-typed entries)",
     "No test resolves a rule.",
     ['xylem/installers/installer_base.py'], [('InstallerBase.resolve, get_depends, _parse_installer_rule; Resolution', 'xylem/installers/installer_base.py')], ['resolve, get_depends', 'Resolution ==, hash, str'])

prop('I04', 'Install commands name exactly the packages and elevate iff configured',
     "Each built-in installer produces, for a list of resolutions, one install command of its package manager per resolution in order, with the package as one separate argument. Every command is prefixed with sudo exactly once if the installer's as_root option is set and the user is not root, and not otherwise; as_root defaults to true for apt, pip and macports and false for homebrew and fake. Commands are lists of separate arguments, and composing them changes no state.",
     ['inputs', 'configurations'], "all package names (including spaces, quotes, '@', shell and option characters), all options and user ids",
     "No test composes commands.",
     ['xylem/installers/installer_base.py', 'xylem/installers/plugins/*.py'], [('InstallerBase.get_install_commands, elevate_privileges', 'xylem/installers/installer_base.py'), ('get_install_commands_no_root', 'xylem/installers/plugins')],
     ['get_install_commands result'])

prop('I05', 'Install reports success only if every package was verified installed',
     "install returns without errors only if every resolution to be installed is detected as installed after all its commands ran and returned 0; each non-zero, unstartable command, each failed check and each unresolvable key is reported as an error. Without continue-on-error no further installation command runs after the first failure (and none at all if a key does not resolve); with it all remaining commands still run and all failures are reported. Errors inside an installer plugin are reported as install errors or internal errors, never as success.",
     ['fault_sequences', 'histories'], "all key lists over several installers, with arbitrary subsets of commands failing, lying about success, or plugins raising",
     "No test installs anything.",
     ['xylem/install.py'], [('install, install_resolved, install_resolutions, filter_uninstalled', 'xylem/install.py')], ['returned errors', 'log of executed commands', 'exit status of xylem install'])

prop('I06', 'Dry-run install has no effects and prints what would run',
     "With dry-run (simulate), install executes no installation command and fixes no prerequisite, whatever the other options, and leaves the file system unchanged. It prints exactly the commands that the corresponding real run would execute, in that order.",
     ['inputs', 'configurations'], "all key lists, installed sets and option combinations (reinstall, continue-on-error, fix-prerequisites)",
     "No test installs anything.",
     ['xylem/install.py', 'xylem/installers/package_manager_installer.py'], [('install_resolutions simulate branch', 'xylem/install.py')], ['file system', 'log of executed commands', 'stdout'])

prop('I07', 'Install runs commands for exactly the missing packages, in key order',
     "install executes commands for exactly the resolutions that are not installed yet (for all of them with reinstall), in the order of the requested keys and of the packages in their rules, each with the installer its key resolved to. Consecutive resolutions of one installer are processed together; interleavings between installers keep the key order. Installing again right after a success executes nothing. A pip package counts as installed if pip freeze lists it, in any spelling of its name that pip considers equal.",
     ['histories', 'inputs'], "all sequences of installs over keys resolving to several installers, with arbitrary pre-installed sets",
     "No test installs anything.",
     ['xylem/install.py'], [('install, _squash_resolutions, filter_uninstalled', 'xylem/install.py')], ['log of executed commands', 'installed files'])

prop('I08', 'Missing prerequisites stop the installation with a prerequisite error',
     "If the package manager of any needed installer is not available, install raises the prerequisite error before executing any installation command, unless fixing prerequisites is requested and makes it available; plugins that cannot fix themselves lead to the prerequisite error as well. An out-of-date package manager only leads to a warning, after trying to update it if fixing is requested, and unimplemented update checks are skipped. Prerequisites of installers that no key needs are not checked. Each needed installer checks the prerequisites of all of the packages that it is to install, also if those are interleaved with packages of other installers.",
     ['configurations', 'fault_sequences'], "all combinations of installed/fixable/updatable states over the needed installers and fix/interactive/simulate options",
     "No test checks prerequisites.",
     ['xylem/installers/package_manager_installer.py', 'xylem/install.py'], [('check_general_prerequisites, check_package_manager_installed/updated', 'xylem/installers/package_manager_installer.py'), ('check_general_prerequisites', 'xylem/install.py')],
     ['raised InstallerPrerequisiteError', 'executed commands', 'printed warnings'])

prop('O01', 'OS detection picks the most specific match and override always wins',
     "Detection selects, independently of the order in which plugins are loaded, the matching plugin that lists all other matching plugins among its parent names; if no plugin matches, the unsupported-OS error is raised. An override with a known OS and version makes exactly that name and version current without detection, delegating everything else to the OS's plugin; an unknown OS or version raises the unsupported OS / OS version error and leaves the previous OS in place. An override without version uses the detected version of that OS.",
     ['inputs', 'schedules'], "all sets and orders of OS plugins forming derivative chains and all overrides, in any sequence",
     "Tests use one fixed set of plugins and a few versions.",
     ['xylem/os_support/impl.py'], [('OSSupport.detect_os, override_os, current_os; OSOverride', 'xylem/os_support/impl.py')], ['current_os name, version, tuple'])

prop('O02', 'OS versions are totally ordered and derivative tuples follow mappings',
     "The version order of an OS is the strict total order given by its list of known versions (irreflexive, transitive, exactly one of a<b, a==b, b<a), and unknown versions raise the unsupported version error. The list of derivative (name, version) tuples starts with the OS and given version and follows the parent names in order, the version being mapped by each step's mapping and None from the first unknown step on. Built-in OSs have their own name first, know their released versions (as of the pinned commit at least) in chronological order, have all their known versions accepted as override, and their default installer among their core installers.",
     ['inputs'], "all lists of versions, all chains of names and version mappings (none, dict, function), all built-in OSs",
     "Tests check a few built-in values.",
     ['xylem/os_support/os_base.py', 'xylem/os_support/plugins.py'], [('version_order_from_list', 'xylem/os_support/os_base.py'), ('_OSDetecorBase.get_all_tuples', 'xylem/os_support/plugins.py')], ['version_less_fn', 'get_all_tuples'])

prop('O03', 'Release-file detectors identify exactly their OS, version and codename',
     "Each file or command based OS detector recognises the current OS if and only if its release file (or command output) identifies that OS, and then returns the version and code name stated there; on a foreign or missing release file (of any encoding or length), and if the command cannot be run, it reports that it does not match and asking for version or code name raises the not-detected error. The override environment variable name[:version[:codename]] determines the detected triple; otherwise the most recently added of the matching detectors does, and detectors added to one detection object do not affect other ones. The default detectors look at the usual files and commands of a system: on each supported OS exactly its detector matches, and name, version and code name are the same in whatever order they are asked for, and for the OS plugin of that OS.",
     ['inputs', 'configurations'], "all well-formed release files of the supported OSs and of foreign OSs, missing files, and whole systems with such files",
     "No test uses the detectors with files.",
     ['xylem/os_support/os_detect.py'], [('OpenSuse, Fedora, Rhel, OSX, QNX, Arch, Gentoo, FreeBSD, OsDetect', 'xylem/os_support/os_detect.py')], ['is_os, get_version, get_codename', 'OsDetect.detect_os'])

prop('P01', 'Plugin loading yields every enabled valid plugin once, by object name',
     "Loading plugins of a kind returns one object for every entry point whose definition is valid (text name and description, class of the right base), whose plugin name is not disabled, and whose object name is a valid identifier; of several with the same object name exactly one is returned. Invalid definitions and objects are skipped with an error message, duplicates with a warning, and neither prevents the others from loading. Disabling goes by plugin name, uniqueness by object name.",
     ['inputs', 'configurations'], "all sets of entry points (valid, invalid in various ways, duplicated) and disabled lists",
     "No test loads custom plugins.",
     ['xylem/plugin_utils.py'], [('load_plugins, verify_plugin_definition, PluginBase.verify_plugin', 'xylem/plugin_utils.py')], ['returned plugin objects', 'stderr'])

prop('X01', 'The command line tool does end to end what the rules and config say',
     "For any sources directory and configuration, running xylem update followed by resolve, lookup or install prints, per key, the resolution that the rules and priorities imply (installer name shown unless it is the OS's default), the applicable rules, or performs the installation, with exit status 0 exactly if nothing failed. Unresolvable keys, failed installations and xylem errors give a non-zero exit status and a message on standard error, and the other keys' results are still printed by resolve. Rules changed in the sources take effect only after the next update. A command interrupted by the user ends with a non-zero status and without a traceback, and running it again has its full effect.",
     ['histories', 'inputs', 'configurations'], "all sequences of rule edits, updates and queries through the command line",
     "There are no system tests.",
     ['xylem/commands/*.py', 'xylem/lookup.py', 'xylem/resolve.py', 'xylem/install.py', 'xylem/update.py'], [('main', 'xylem/commands/main.py'), ('resolve/lookup/install/update main', 'xylem/commands')], ['stdout, stderr, exit status', 'installed files'])

prop('X02', 'Chained exceptions are formatted completely, causes first',
     "Raising from another exception yields an exception of the requested type with the given message and the original as cause. Formatting a chain shows each exception of the cause chain exactly once, the root cause first and the final exception last, each with type and message, linked by the cause line; without chaining only the final one is shown. Tracebacks appear exactly when requested, and no chain, message or length makes the formatting fail.",
     ['inputs'], "all chains of exceptions of any length, type and message, with and without traceback and chaining",
     "No test formats exceptions.",
     ['xylem/exception.py'], [('exc_to_str, raise_from, chain_exception', 'xylem/exception.py')], ['exc_to_str output', '__cause__'])

prop('X03', 'Console and text helpers reproduce messages exactly, colours aside',
     "Messages printed with info, warning, error and (when enabled) debug and verbose output appear exactly once on their stream (standard output for info, standard error otherwise, or the given file), with the text unchanged apart from colour sequences, and with no escape sequences at all when colours are disabled; disabled debug/verbose output prints nothing. Colour template annotations become the escape sequences of their colours and leave other text alone, converting text to bytes and back is lossless, and indentation and duplicate removal keep content and order.",
     ['inputs'], "all Unicode texts (including '@', braces and non-ASCII), all verbosity/debug/colour states",
     "No test checks console output.",
     ['xylem/log_utils.py', 'xylem/terminal_color.py', 'xylem/text_utils.py', 'xylem/util.py'], [('info, warning, error, debug, info_v', 'xylem/log_utils.py'), ('fmt, ansi, disable_ANSI_colors', 'xylem/terminal_color.py'), ('to_str, to_bytes', 'xylem/text_utils.py')], ['stdout/stderr contents', 'return values'])

prop('X04', 'Process and context helpers report faithfully and leave no trace',
     "Reading the output of a command returns exactly what it wrote to standard output (and standard error and the exit status), whatever its size, content or status, and prints nothing itself; a program counts as installed exactly if it can be executed, and checking that neither shows its output nor hands it the standard input. The directory, temporary directory and redirected output contexts restore working directory and streams when left normally or by an exception (which passes through), in any nesting, and temporary directories are empty and private when created and gone with their contents afterwards.",
     ['inputs', 'histories', 'fault_sequences'], "all outputs and exit statuses, and all nestings of contexts with exceptions and changes in between",
     "Tests use the contexts once each, without faults.",
     ['xylem/util.py'], [('read_stdout, read_stdout_err, is_program_installed', 'xylem/util.py'), ('change_directory, temporary_directory, redirected_stdio, create_temporary_directory', 'xylem/util.py')], ['return values', 'working directory, sys.stdout/stderr, file system'])

prop('X05', 'Help and version show everything and do nothing',
     "Asking for help or the version at any place of a call, with any other options, commands and config files (even broken ones), prints it to standard output and exits with status 0 without running the command or changing any file. The help of the tool shows every config and global option and every public command but no hidden one, that of a command shows its arguments too. Help texts and descriptions are shown completely: all words in order and wrapped to the width, paragraphs and explicit line breaks kept, preformatted paragraphs with their lines and relative indentation. Each config item with an option is shown with its help text, metavar, type, default (whatever characters it has) and, unless the option is named alike, its name.",
     ['inputs', 'configurations'], "all texts of paragraphs, line breaks and preformatted blocks at all widths, and all calls with a help or version option",
     "No test asks for help or formats a help text.",
     ['xylem/config_utils.py', 'xylem/arguments.py', 'xylem/commands/main.py'], [('ConfigHelpFormatter', 'xylem/config_utils.py'), ('add_global_arguments, PagerHelpAction', 'xylem/arguments.py'), ('create_subparsers', 'xylem/commands/main.py')], ['stdout, stderr, exit status', 'format_help()'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
