"""Rewrites the table of planted bugs in DESIGN.md."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed by their own check when they were written, and what was added then
MISSED = {
    'c04-realpath': 'symbolic links in given directories',
    'c02-null-elements': 'null elements of lists of any type',
    's02-utc-time': 'cases in another time zone',
    'r04-many-sources': 'many sources and keys',
    'x01-fix-not-with-all': 'options of install',
    'c02-locale-text': 'cases in another locale',
    'x04-locale-decode': 'cases in another locale',
    'r07-locale-write': 'cases in another locale',
    's06-verbose-keeps': 'cases with verbose or debug output',
    's01-verbose-counts': 'cases with verbose or debug output',
    'i08-reinstall-asks-not': 'all options of install together',
    'i06-all-for-real': 'all options of install together',
    'i05-batch-mode-status': 'all options of install together',
    'i07-fix-reinstalls': 'all options of install together',
    'i01-key-error-only': 'databases whose lookup fails',
    'i01-stop-at-lookup-error': 'databases whose lookup fails',
    'i02-os-options-unchecked': 'wrong options of OS plugins',
    's03-save-stops': 'raising at the first failure, and saving, sub-check',
    's03-load-swallows': 'raising at the first failure, and saving, sub-check',
    'p01-entry-point-once': 'entry points of the same name',
    'c01-file-limit': 'large config files',
    'c02-chunks': 'large config files',
    's01-limit': 'large source files',
    's02-ensured': 'caches that vanish between updates with one context',
    's01-spec-memo': 'the identity of the specs of sources',
    's07-reset-retried': 'other reasons of failed downloads',
    'x02-seen-by-equality': 'exceptions that compare equal',
    'x04-newlines': 'outputs with carriage returns and special characters',
    'x04-signal-status': 'commands ended by signals',
    'c02-unreadable-skipped': 'unreadable config files, as an unprivileged user',
    'i01-key-named-like-installer': 'keys named like installers',
    'i01-configured-core-only': 'contexts and configurations that agree on the core installers',
    'i02-repeated-core-last': 'core installers with repeated names',
    'i02-disabled-any-case': 'disabled plugins in other letter case',
    'i06-undetermined-printed': 'dry-runs with failing plugins',
    'o01-longer-list-wins': 'parents that do not match, for each of the OSs',
    'o01-no-known-versions': 'OSs without known versions',
    'r02-lion-any-case': 'the special version in other letter case',
    'p01-plugin-name-taken': 'objects named like the definitions of others',
    'i08-first-three-checked': 'more installers in one request',
    'c08-names-dashed': 'groups and items that differ by dash and underscore only',
    'c06-option-lower-case': 'names with upper case letters',
    'x05-first-types-only': 'help on the parsing of each type',
    'i02-additional-name-only': 'the OS tuple that installers are asked about, with parents',
    'i06-simulated-no-sudo': 'commands printed for other users than root',
    's02-day-old-reloaded': 'caches of any age',
    's02-cache-read-first': 'damaged cache files',
    's07-redirect-refused': 'redirections',
    'o01-version-known-anywhere': 'versions and names in other letter case',
    'p01-callable-name': 'names that differ in punctuation only',
    'o03-override-empty-name': 'an environment of the process that differs from the given one',
    'c01-sudo-no-user-config': 'environment variables that do not matter',
    'c05-tuples-shared': 'tuples of lists and dicts',
    'c05-text-keys': 'keys that are no text',
    'x04-exit-in-other-directory': 'contexts left by exceptions of all kinds',
    'r07-expanded-name': 'unusual file names and ways to write paths',
    's01-links-skipped': 'source files that are links',
    'c01-file-links': 'config files that are links',
    'i07-squash-in-place': 'installers that return the same list of resolutions again',
    'p01-verified-class-memo': 'single invalid objects of a shared class',
    'r07-empty-not-written': 'files without rules; written and printed text compared',
    's03-error-stops-at-third': 'cache directories that vanish before an update',
    's06-future-time': 'cache files from the future',
    's05-query-creates-cache': 'cache folders that are missing below an existing parent',
    's07-retry-after': 'responses with other headers',
    'c02-path-variables': 'paths with variables and patterns',
    'i04-sudo-uid': 'environments that name other users',
    'p01-disabled-instantiated': 'disabled plugins that cannot be instantiated',
    'x04-context-mode': 'permissions of temporary directories',
    'x05-raw-blank-lines': 'blank lines in raw paragraphs',
    'r06-keys-generic-only': 'empty installer dicts',
    'c07-load-memo': 'loading a text again after the data was modified',
    'x02-message-fields': 'messages with format fields of several kinds',
    'r04-any-os-ordered': 'OSs configured without default installer',
    'x04-shared-temporary': 'surrounding directories that are removed',
    'r03-point-release': 'names that resemble ones with rules',
    's03-save-errors-environment': 'data that cannot be saved, with any exception',
    'c02-falsy-group': 'empty values of other types as groups',
    's04-cache-in-temp': 'writes failing from the n-th file operation on',
    'c03-default-dirs-expanded': 'names and versions with upper case and special characters',
    'r07-symlink-replaced': 'rules files given by links',
    'x05-help-blank-kept': 'nothing between the help text and the type',
    'r02-exact-dict': 'dicts and lists of subclasses',
    'r03-none-version': "lookups without a version in rules with a version 'None'",
    'r04-aliased-copies': 'layers whose OSs or keys share their rules',
    'c01-plain-dict-exact': 'configs passed as OrderedDict',
    'c05-coerce-in-place': 'types inside the input, changes of the coerced copy',
    'i06-install-prerequisites-fixed': 'installers that fix prerequisites of packages',
    'o02-plain-mappings-only': 'version mappings that are OrderedDicts',
    'r02-depends-keyword': 'identifiers sub-check puts every keyword in every position',
    's01-two-key-entry': 'all forms of invalid entries enumerated',
    's06-missing-entry': 'lifecycle steps that alter single fields of the cache',
    's06-partial-state': 'lifecycle steps that alter single fields of the cache',
    'c01-merging-dict-deep': 'layers with nested dicts',
    'c02-dict-duplicates-nonadjacent': 'dict options given three times',
    'c02-string-stripped': 'table of special strings enumerated',
    'c05-copy-shares-lists': 'copies sub-check',
    'i03-null-depends-drops': 'depends overlapping the packages',
    'i05-check-all-at-once': 'worlds with several variants of one package',
    'i06-reinstall-not-simulated': 'commands that depend on interactive/reinstall',
    'c06-empty-metavar-hidden': 'declarations sub-check',
    'c06-standalone-no-config': 'standalone commands, directories by environment or relative',
    'o01-override-tuples': 'delegation for other versions, None and options',
    'o02-falsy-version': 'empty versions; all two-step chains enumerated',
    'o03-fedora-release-anywhere': 'issue files with other numbers',
    'o03-osx-minor-digit': 'all OS X versions enumerated',
    'o03-rhel-prefix': 'near-miss release files for all detectors',
    'r07-text-mode': 'results that are no YAML (harness error before)',
    'x02-last-traceback-only': 'chains with members never raised',
    'x03-file-falsy': 'files that are false; found the same in info_v',
    'x03-tobytes-replace': 'table of special characters',
    'x04-cwd-only-on-success': 'directories removed inside, relative, links',
    'x04-program-exit-status': 'all exit statuses; directories, missing interpreters',
    'x04-streams-at-construction': 'contexts made in advance',
    'r04-lookup-memo': 'history sub-check',
    'r06-keys-remembered': 'history sub-check',
    'i02-plugins-shared': 'several contexts alive at once',
    'i08-installed-remembered': 'several installs in one setup',
    'x04-wait-before-read': 'time limit per case',
    'c02-parsed-values-shared': 'repeated sub-check',
    'c04-missing-directory': 'directories that do not exist',
    'i01-invalid-rule-next': 'databases with rules that verification would reject',
    'i04-root-remembered': 'several options and users for one object',
    'i06-dry-run-once': 'the same command several times',
    'o02-order-per-class': 'several OSs of one class, lists that change',
    'o03-issue-memo': 'release files that change',
    'p01-class-once': 'definitions that share a class',
    'x03-once-per-process': 'the same message several times',
    'x04-nested-reuse': 'reused contexts sub-check',
    's02-short-cache-id': 'many sources sub-check',
    's02-data-as-json': 'unusual values in rules',
    's03-error-message-fails': 'braces and the like in messages; exceptions sub-check',
    's04-cleared-on-failed-save': 'saving through the database',
    's07-chunked-decoding': 'long bodies',
    's07-charset-split': 'more forms of content types, each enumerated',
    'x04-chunked-decoding': 'long outputs',
    'i02-case-insensitive': 'similar names of installers',
    'c04-tilde-user': "directories of other users",
    'x01-first-error-status': 'many keys sub-check',
    'i01-install-from-first-letter': 'similar names of keys and installers',
    'c01-null-group-drops': 'unknown entries that look like items of groups',
    'x03-dedup-types': 'equal elements sub-check',
    'x05-private-listed': 'hidden command under any name',
}
rows = ['| bug | needs | caught by | first missed; added |', '|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (b, m['needs'].replace('|', '/'), m['property'],
                                           MISSED.get(b, '')))
path = os.path.join(here, 'DESIGN.md')
text = open(path).read().split('<!-- table -->')[0]
open(path, 'w').write(text + '<!-- table -->\n\n' + '\n'.join(rows) + '\n')
print(len(rows) - 2)
