"""I01-I04: from rules and configuration to resolutions and commands."""
import copy
import os

from hypothesis import strategies as st

from .. import ctx, gen, ref
from ..core import Sub, expect, expect_eq, fail, quiet, short
from .rules import expect_same

from xylem.config_utils import Boolean, ConfigValueError, Dict, List, String
from xylem.exception import XylemError
from xylem.installers import InstallerContext, InvalidRuleError
from xylem.installers.installer_base import InstallerBase, Resolution, elevate_privileges
from xylem.os_support import OSSupport, UnsupportedOSError, UnsupportedOSVersionError
from xylem.os_support.os_base import OSBase
from xylem.resolve import resolve
from xylem.sources import RulesDatabase, SourcesContext

SUBS, RULES, LEVEL = {}, {}, {}

# name -> (type, default) of further entries of rules
TYPES = {'bool': Boolean, 'str': String, 'list': List(String), 'dict': Dict(String)}


class Inst(InstallerBase):
    """Installer with the given name that declares the given rule entries."""

    def __init__(self, name, declared=(), additional=(), options=()):
        super(Inst, self).__init__()
        self._name = name
        self._additional = additional
        for entry, kind, default in declared:
            self.installer_rule_description.add(entry, type=TYPES[kind], default=default)
        for entry, kind, default in options:
            self.options_description.add(entry, type=TYPES[kind], default=default)

    @property
    def name(self):
        return self._name

    def use_as_additional_installer(self, os_tuple):
        return os_tuple in self._additional

    def check_general_prerequisites(self, os_tuple, fix_unsatisfied=False, interactive=True):
        pass

    def check_install_prerequisites(self, resolved, os_tuple, fix_unsatisfied=False,
                                    interactive=True):
        pass

    def filter_uninstalled(self, resolved):
        return resolved

    def get_install_commands_no_root(self, resolved, interactive=True, reinstall=False):
        return []


class BadRule(Exception):
    pass


class Unspecified(Exception):
    pass


def ref_value(kind, default, v):
    """Value of an entry of a rule or of options."""
    if v is None:
        return copy.deepcopy(default)
    ok = {'bool': lambda: isinstance(v, bool), 'str': lambda: isinstance(v, str),
          'list': lambda: isinstance(v, list) and all(isinstance(x, (str, type(None))) for x in v),
          'dict': lambda: isinstance(v, dict) and all(
              isinstance(x, (str, type(None))) for x in v.values())}[kind]()
    if not ok:
        raise BadRule()
    if kind == 'list' and None in v or kind == 'dict' and None in v.values():
        raise Unspecified()
    return copy.deepcopy(v)


def ref_resolve(declared, rule):
    """(resolutions, depends) of an installer rule."""
    vals, unspecified = {}, False
    for entry, kind, default in list(declared) + [('packages', 'list', []), ('depends', 'list', [])]:
        try:
            vals[entry] = ref_value(kind, default, rule.get(entry))
        except Unspecified:
            unspecified = True
    if unspecified:
        raise Unspecified()
    packages = vals.pop('packages')
    depends = vals.pop('depends')
    res = []
    for p in packages:
        r = copy.deepcopy(vals)
        r['package'] = p
        res.append(r)
    return res, depends


# ------------------------------------------------------------------------ I01

DECLARED = [('flag', 'bool', False), ('options', 'list', ['dflt'])]
I01_KEYS = ['foo', 'bar', 'libc++', 'python3-x', 'a.b_c', 'unknown']


@st.composite
def spoil(draw, layers):
    """Make some rules invalid for the installer."""
    for rules in layers:
        for osd in rules.values():
            for vd in osd.values():
                for idict in vd.values():
                    for rule in idict.values():
                        # undeclared or valid extra entries
                        rule.pop('options', None)
                        rule.pop('flag', None)
                        if draw(st.integers(0, 5)) == 0:
                            rule.update(draw(st.sampled_from([
                                {'packages': [3]}, {'packages': [['p']]}, {'packages': ['p', {}]},
                                {'flag': 'yes'}, {'options': 'o'}, {'options': [1]},
                                {'flag': True}, {'options': ['o', 'p']}, {'flag': None}])))
    return layers


def rename(v, names):
    """The value with some strings replaced everywhere."""
    if isinstance(v, dict):
        return dict((rename(k, names), rename(x, names)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v)(rename(x, names) for x in v)
    return names.get(v, v) if isinstance(v, str) else v


# names that are easily mistaken for each other
SIMILAR = [{}, {}, {'yum': 'Apt', 'bar': 'Foo'}, {'gem': 'PIP', 'yum': 'pi', 'libc++': 'FOO', 'bar': 'fo'},
           {'gem': 'pip3', 'yum': 'p', 'bar': 'foo-', 'a.b_c': 'foo.'},
           {'yum': 'apt_', 'nix': 'apt-', 'bar': 'a.b-c', 'foo': 'a-b_c', 'libc++': 'python3_x'},
           {'yum': 'ap', 'gem': 'a', 'pip': 'APT', 'foo': 'Python3-x', 'bar': 'PYTHON3-X'},
           {'bar': 'apt', 'foo': 'pip', 'libc++': 'gem'}, {'a.b_c': 'apt', 'foo': 'yum'},
           {'pip': 'Homebrew', 'yum': 'home', 'unknown': 'Unknown', 'foo': 'unknown', 'bar': 'UNKNOWN'}]


@st.composite
def resolve_case(draw):
    os_tuple = draw(st.sampled_from(ctx.OS_TUPLES))
    oses = [os_tuple[0], os_tuple[0], draw(st.sampled_from(['ubuntu', 'debian', 'osx']))]
    versions = dict((o, [os_tuple[1], draw(st.sampled_from(gen.VERSIONS['ubuntu']))])
                    for o in oses)
    layers = draw(st.lists(
        gen.exp_rules(min_size=2, max_size=5, oses=oses, versions=versions,
                      keys=gen.KEYS, defaults=gen.BUILTIN_DEFAULTS), min_size=1, max_size=2))
    layers = draw(spoil(layers))
    plugins = draw(st.permutations(gen.INSTALLERS))[:draw(st.integers(2, 5))]
    core = draw(st.lists(st.sampled_from(plugins), unique=True, max_size=3))
    rest = [p for p in plugins if p not in core]
    additional = draw(st.lists(st.sampled_from(rest), unique=True, max_size=3)) if rest else []
    keys = draw(st.lists(st.sampled_from(I01_KEYS), max_size=8))
    install_from = {}
    if draw(st.booleans()):
        for k in draw(st.lists(st.sampled_from(I01_KEYS), unique=True, max_size=3)):
            install_from.setdefault(draw(st.sampled_from(gen.INSTALLERS + ['nix'])), []).append(k)
    # the default installers keep their names
    return rename(dict(
                os=os_tuple, layers=layers, plugins=plugins, core=core, additional=additional,
                keys=keys, install_from=install_from, all_keys=draw(st.booleans()),
                how=draw(st.sampled_from(['database', 'database', 'cache', 'other'])),
                configured=draw(st.booleans()),
                failing=draw(st.one_of(st.just({}), st.just({}), st.dictionaries(
                    st.sampled_from(I01_KEYS), st.integers(0, len(LOOKUP_ERRORS) - 1), max_size=3))),
                other=draw(st.lists(st.tuples(
                    st.integers(0, 4), st.integers(0, 2), st.sampled_from([
                        {'packages': 'p'}, {'packages': 3}, {'packages': {'p': None}},
                        {'packages': True}, {'depends': 'foo'}, {'depends': {}},
                        {'packages': None}, {'packages': []}])), min_size=1, max_size=6))),
                draw(st.sampled_from(SIMILAR)))


class OddLookupError(KeyError):
    pass


LOOKUP_ERRORS = [KeyError('x'), LookupError(), IndexError(3), LookupError('{0}', 'é'), OddLookupError('%s')]


class OtherDatabase(object):

    """Has the rules that were looked up, some changed; the lookup of some keys fails."""

    def __init__(self, rules, failing):
        self.rules = rules
        self.failing = failing

    def lookup(self, xylem_key, installer_context):
        if xylem_key in self.failing:
            raise LOOKUP_ERRORS[self.failing[xylem_key]]
        return self.rules.get(xylem_key, {})

    def keys(self, installer_context):
        return list(self.rules)


def ref_choices(installers, v, key):
    """Names of installers that may be chosen for a key; empty for an error."""
    for name, keys in v['install_from'].items():
        if key in keys:
            return [name] if name in v['plugins'] and name in installers else []
    for name in v['core']:
        if name in installers:
            return [name]
    return [name for name in v['additional'] if name in installers]


def check_resolve(v, rec):
    o, ver = v['os']
    default = gen.BUILTIN_DEFAULTS[o]
    layers = copy.deepcopy(v['layers'])
    keys = list(v['keys'])
    if v['all_keys']:
        keys += sorted(k for rules in layers for k in rules if ref.has_rule(rules[k], o, ver))
    want_keys = list(dict.fromkeys(keys))
    rec.event('all keys' if v['all_keys'] else 'keys')
    insts = [Inst(n, DECLARED) for n in v['plugins']]
    found_rules = dict((key, copy.deepcopy(ref.layered(layers, key, o, ver, default))) for key in
                       set(want_keys) | set(v['keys']))
    if v['how'] == 'other':
        # a database may have rules of which verification knows nothing
        known = sorted(k for k in found_rules if found_rules[k])
        # keys for which the order of the installers matters come first
        known.sort(key=lambda k: -len(set(found_rules[k]) & set(v['core'])))
        for i, n, entry in v.get('other', ()):
            if known:
                key = known[i % len(known)]
                names = sorted(found_rules[key], key=lambda x: (
                    v['core'].index(x) if x in v['core'] else 9, x))
                found_rules[key][names[n % len(names)]].update(entry)
    with ctx.TempDir() as base:
        table = dict(('l%d' % n, r) for n, r in enumerate(v['layers']))
        sc = ctx.sources_context(base, [ctx.DataSpec(table)], {
            '1.yaml': [('data', 'l%d' % n) for n in range(len(layers))]})
        cfg = ctx.config(sources_dir=sc.sources_dir, cache_dir=sc.cache_dir,
                         install_from=copy.deepcopy(v['install_from']))
        if v.get('configured'):
            # the core installers are those of the configuration
            cfg['core_installers'] = list(v['core'])
        ic = ctx.installer_context(v['os'], insts, v['core'], v['additional'], cfg)
        db = RulesDatabase(sc)
        args = list(v['keys'])
        with quiet():
            if v['how'] == 'cache':
                sc.ensure_cache_dir()
                db.update()
                results, errors = resolve(args, all_keys=v['all_keys'], config=cfg,
                                          sources_context=sc, installer_context=ic)
            elif v['how'] == 'other':
                rules = dict((k, copy.deepcopy(r)) for k, r in found_rules.items()
                             if any(ref.has_rule(x.get(k, {}), o, ver) for x in layers))
                results, errors = resolve(args, all_keys=v['all_keys'], config=cfg,
                                          database=OtherDatabase(rules, v.get('failing', {})),
                                          installer_context=ic)
            else:
                db.load_from_source()
                results, errors = resolve(args, all_keys=v['all_keys'], config=cfg,
                                          database=db, installer_context=ic)
    got_keys = [k for k, _ in results]
    err_keys = [k for k, _ in errors]
    expect_eq(sorted(got_keys + err_keys), sorted(want_keys), 'keys in results and errors')
    expect_eq(got_keys, [k for k in want_keys if k in got_keys], 'order of the results')
    expect_eq(err_keys, [k for k in want_keys if k in err_keys], 'order of the errors')
    expect_eq(args, v['keys'], 'list of keys passed in')
    errs, res = dict(errors), dict(results)
    seen = set()
    for key in want_keys:
        found = found_rules[key]
        if v['how'] == 'other' and key in v.get('failing', {}):
            found = {}
            rec.event('lookup fails')
            expect(key in errs, 'key {0} whose lookup fails resolved to {1}', key, res.get(key))
        choices = ref_choices(found, v, key)
        wanted = []
        for name in choices:
            try:
                wanted.append((name, ref_resolve(DECLARED, found[name])[0]))
            except BadRule:
                wanted.append((name, None))
        special = any(key in ks for ks in v['install_from'].values())
        if key in errs:
            expect(isinstance(errs[key], XylemError), 'error is {0!r}', errs[key])
            expect(not choices or any(r is None for _, r in wanted),
                   'key {0} did not resolve, expected {1}: {2}', key, wanted, errs[key])
            label = 'invalid rule' if choices else \
                'no installer' if found else 'no rule'
        else:
            name, resolutions = res[key]
            match = [r for n, r in wanted if n == name]
            expect(match, 'key {0} resolved with {1}, expected one of {2}', key, name, choices)
            expect(match[0] is not None, 'invalid rule of {0} resolved to {1}', key, resolutions)
            expect_same([dict(r) for r in resolutions], match[0], 'resolutions of %s' % key)
            label = 'core' if name in v['core'] else \
                'additional' if name in v['additional'] else 'inactive'
        if special:
            label += ' (install_from)'
        rec.event(label)
        seen.add(label)
    rec.nontrivial(len(seen) >= 2)
    for n, r in enumerate(layers):
        expect_same(table['l%d' % n], r, 'rules after resolving')
    expect_same(cfg.install_from, v['install_from'], 'install_from after resolving')


SUBS['I01'] = [Sub('resolve', resolve_case(), check_resolve, quick=840, qshards=6)]
RULES['I01'] = ('1-2 layers of rules over 5 installers (core, additional, inactive), some rules '
                'invalid, with install_from maps and key lists with duplicates and unknown keys; '
                'non-trivial if the keys have at least two different outcomes')


# ------------------------------------------------------------------------ I02

class CustomOS(OSBase):
    """OS whose core installers depend on version and options."""

    def __init__(self, name, core, default):
        super(CustomOS, self).__init__()
        self._n = name
        self._core = core
        self._default = default

    all_names = property(lambda self: [self._n])
    known_versions = property(lambda self: ['1', '2'])
    default_installer = property(lambda self: self._default)

    def get_version(self):
        return '1'

    def get_all_tuples(self, version):
        return [(self._n, version)] + [('other', '1')] * (self._n == 'os')

    def get_core_installers(self, version, options):
        if 'extra' in options.features:
            return list(self._core['extra'])
        return list(self._core[version])

    def is_os(self):
        return False


NAMES = ['apt', 'pip', 'gem', 'yum', 'Apt', 'ap']
OPTS = [('where', 'str', '/x'), ('flags', 'list', ['a'])]
NAME_LIST = st.lists(st.sampled_from(NAMES + ['lost', 'PIP', 'pi']), unique=True, max_size=4).flatmap(
    # sometimes with repeated names
    lambda l: st.just(l) if not l else st.sampled_from([l] * 4 + [l + l[:1], l[-1:] + l + l[:1]]))
OS12 = [('os', '1'), ('os', '2'), ('other', '1')]


@st.composite
def inst_options(draw):
    if draw(st.integers(0, 4)) == 0:
        return None
    res = {}
    if draw(st.booleans()):
        res['as_root'] = draw(st.sampled_from([True, False, None]))
    if draw(st.booleans()):
        res['where'] = draw(st.sampled_from(['/y', 'é', '', None]))
    if draw(st.booleans()):
        res['flags'] = draw(st.sampled_from([[], ['b', 'c'], None]))
    k = draw(st.integers(0, 9))
    if k == 0:
        res['surplus'] = 1
    elif k == 1:
        res.update(draw(st.sampled_from([{'as_root': 'x'}, {'where': 3}, {'flags': 'b'},
                                         {'flags': [1]}])))
    return res


@st.composite
def setup(draw):
    return dict(
        core=draw(st.one_of(st.none(), NAME_LIST)),
        use_additional=draw(st.integers(0, 4)) != 0,
        options=draw(st.dictionaries(st.sampled_from(NAMES + ['lost', 'PIP', 'pi']), inst_options(),
                                     max_size=4)),
        os=draw(st.sampled_from(OS12)),
        features=draw(st.sampled_from([None, [], ['extra'], ['x']])))


@st.composite
def context_case(draw):
    return dict(
        plugins=[(n, draw(st.lists(st.sampled_from(OS12), unique=True)))
                 for n in draw(st.permutations(NAMES))[:draw(st.integers(1, 6))]],
        os_core=dict((k, draw(NAME_LIST)) for k in ('1', '2', 'extra')),
        setups=draw(st.lists(setup(), min_size=1, max_size=3)))


def ref_options(declared, given):
    res = {}
    for entry, kind, default in declared:
        res[entry] = ref_value(kind, default, (given or {}).get(entry))
    return res


def once(names):
    return list(dict.fromkeys(names))


def names(installers):
    return [i.name for i in installers]


def check_context(v, rec):
    insts = [Inst(n, additional=a, options=OPTS) for n, a in v['plugins']]
    declares = dict(v['plugins'])
    loaded = [n for n, _ in v['plugins']]
    oss = OSSupport()
    oss.os_plugins = [CustomOS(n, v['os_core'], 'apt') for n in ('os', 'other')]
    ic = None
    for s in v['setups']:
        oss.override_os(s['os'])
        oss.current_os.options = {} if s['features'] is None else {'features': s['features']}
        cfg = ctx.config(core_installers=copy.deepcopy(s['core']),
                         use_additional_installers=s['use_additional'],
                         installer_options=copy.deepcopy(s['options']))
        if ic is None:
            ic = InstallerContext(cfg, oss, setup_installers=False)
            ic.installer_plugins = insts
        ic.config = cfg
        want_opts, bad = {}, False
        for n in loaded:
            try:
                want_opts[n] = ref_options([('as_root', 'bool', True)] + OPTS, s['options'].get(n))
            except BadRule:
                bad = True
        with quiet() as (_, err):
            try:
                ic.setup_installers()
                error = None
            except ConfigValueError as e:
                error = e
        if bad:
            rec.event('ill-typed options')
            expect(error is not None, 'ill-typed options accepted: {0}', s['options'])
            continue
        if error is not None:
            raise error
        if s['core'] is not None:
            configured = s['core']
            rec.event('core from config')
        else:
            extra = s['features'] is not None and 'extra' in s['features']
            configured = v['os_core']['extra' if extra else s['os'][1]]
            rec.event('core from OS')
        core = [n for n in configured if n in loaded]
        expect_eq(once(names(ic.core_installers)), once(core), 'core installers')
        expect_eq(ic.core_installer_names, names(ic.core_installers), 'core installer names')
        repeated = len(core) > len(set(core))
        core = names(ic.core_installers)
        rec.count('core installers with repeated names', repeated)
        add = [n for n in loaded if n not in core and s['os'] in declares[n]] \
            if s['use_additional'] else []
        expect_eq(sorted(names(ic.additional_installers)), sorted(add), 'additional installers')
        expect_eq(sorted(ic.additional_installer_names), sorted(add), 'additional names')
        expect_eq(names(ic.installers)[:len(core)], core, 'installers')
        expect_eq(sorted(ic.installer_names), sorted(core + add), 'installer names')
        expect_eq(sorted(ic.installer_plugin_names), sorted(loaded), 'plugin names')
        for n in configured:
            if n not in loaded:
                rec.event('missing plugin')
                expect(n in err.getvalue(), 'no message about missing core installer {0}: {1}', n,
                       err.getvalue())
        for i in insts:
            expect_same(dict(i.options), want_opts[i.name], 'options of %s' % i.name)
            expect(ic.lookup_installer(i.name) is i, 'lookup_installer({0})', i.name)
        expect(ic.lookup_installer('lost') is None, 'found a missing plugin')
        expect_eq(ic.get_os_tuple(), s['os'], 'OS')
        rec.nontrivial(bool(core and add))
    if len(v['setups']) > 1:
        rec.event('set up repeatedly')


REAL = {'apt': True, 'fake': False, 'homebrew': False, 'macports': True, 'pip': True}
REAL_CORE = {'ubuntu': ['apt'], 'debian': ['apt'], 'xubuntu': ['apt'],
             'osx': ['homebrew', 'pip', 'gem']}


BAD_OS_OPTIONS = [{'features': 'f'}, {'features': [1]}, {'features': {'f': 'g'}}, {'features': True}]


@st.composite
def real_case(draw):
    opts = {}
    for n in draw(st.lists(st.sampled_from(sorted(REAL) + ['gem']), unique=True, max_size=3)):
        opts[n] = draw(st.sampled_from([{}, None, {'as_root': True}, {'as_root': False}]))
    fake_name = draw(st.sampled_from([None, None, 'pretend']))
    if fake_name:
        opts['fake'] = dict(opts.get('fake') or {}, fake_name=fake_name)
    if draw(st.booleans()):
        opts['fake'] = dict(opts.get('fake') or {},
                            install_dir=draw(st.sampled_from(['/nonexistent/x', '~/y', 'rel'])))
    return dict(
        disabled=draw(st.lists(st.sampled_from(sorted(REAL) + ['gem', 'PIP', 'Apt', 'mac', 'fake ']), unique=True,
                               max_size=3)),
        disabled_os=draw(st.lists(st.sampled_from(['ubuntu', 'debian', 'osx', 'xubuntu', 'Ubuntu', 'DEBIAN']),
                                  unique=True, max_size=2)),
        core=draw(st.one_of(st.none(), st.lists(
            st.sampled_from(sorted(REAL) + ['gem', 'pretend']), unique=True, max_size=4))),
        use_additional=draw(st.integers(0, 3)) != 0, options=opts,
        os=draw(st.sampled_from(ctx.OS_TUPLES + [('ubuntu', 'nonsense'), ('beos', '5')])),
        os_options=draw(st.sampled_from([{}, {'features': ['f']}, {'features': []}, {'features': ['a', 'b', 'a']},
                                         {'features': None}, {'zzz': 3, 'features': ['z']}] * 3 + BAD_OS_OPTIONS)))


def check_real_contexts(vs, rec):
    """Contexts that are used at the same time."""
    made = [(v, make_real_context(v)) for v in vs]
    for v, (ic, error, err) in made:
        check_real_context(v, ic, error, err, rec)
    rec.event('%d contexts' % len(vs))


def make_real_context(v):
    cfg = ctx.config(core_installers=v['core'], use_additional_installers=v['use_additional'],
                     installer_options=v['options'], os_override=v['os'],
                     os_options=v['os_options'])
    cfg['disabled_plugins'].update(installer=v['disabled'], os=v['disabled_os'])
    with quiet() as (_, err):
        try:
            ic = InstallerContext(cfg)
            error = None
        except (UnsupportedOSError, UnsupportedOSVersionError, ConfigValueError) as e:
            ic, error = None, e
    return ic, error, err.getvalue()


def check_real_context(v, ic, error, err, rec):
    if v['os'][0] in v['disabled_os'] or v['os'][0] == 'beos':
        rec.event('unknown OS')
        expect(isinstance(error, UnsupportedOSError), 'unknown OS gave {0!r}', error)
        return
    if v['os'][1] == 'nonsense':
        rec.event('unknown version')
        expect(isinstance(error, UnsupportedOSVersionError), 'unknown version gave {0!r}', error)
        return
    if v['os_options'] in BAD_OS_OPTIONS:
        rec.event('ill-typed OS options')
        expect(isinstance(error, ConfigValueError), 'ill-typed options of the OS gave {0!r}', error)
        return
    if error is not None:
        raise error
    expect_eq(ic.get_os_tuple(), v['os'], 'OS')
    expect_eq(ic.get_os_string(), '%s:%s' % v['os'], 'OS string')
    expect_eq(ic.get_default_installer_name(), gen.BUILTIN_DEFAULTS[v['os'][0]], 'default')
    expect_same(dict(ic.get_os().options), {'features': v['os_options'].get('features') or []},
                'OS options')
    fake = (v['options'].get('fake') or {}).get('fake_name') or 'fake'
    loaded = dict((fake if n == 'fake' else n, n) for n in REAL if n not in v['disabled'])
    expect_eq(sorted(ic.installer_plugin_names), sorted(loaded), 'loaded plugins')
    wanted = v['core'] if v['core'] is not None else REAL_CORE[v['os'][0]]
    core = [n for n in wanted if n in loaded]
    expect_eq(ic.core_installer_names, core, 'core installers')
    add = ['pip'] if v['use_additional'] and 'pip' in loaded and 'pip' not in core else []
    expect_eq(ic.additional_installer_names, add, 'additional installers')
    for n in wanted:
        expect(n in loaded or n in err, 'no message about core installer {0}', n)
    for i in ic.installer_plugins:
        plugin = loaded[i.name]
        given = v['options'].get(plugin) or {}
        want = {'as_root': given.get('as_root', REAL[plugin])}
        if plugin == 'fake':
            want['fake_name'] = given.get('fake_name', 'fake')
            d = given.get('install_dir', '~/.fake-installer')
            want['install_dir'] = os.path.abspath(os.path.expanduser(d))
        expect_same(dict(i.options), want, 'options of %s' % i.name)
    rec.nontrivial(bool(v['disabled'] and v['options']) or bool(add and core))
    rec.event('core from %s' % ('OS' if v['core'] is None else 'config'))
    rec.event('additional' if add else 'no additional')


SUBS['I02'] = [
    Sub('custom', context_case(), check_context, quick=1000, qshards=3),
    Sub('builtin', st.lists(real_case(), min_size=1, max_size=3), check_real_contexts, quick=600,
        qshards=2),
]
RULES['I02'] = ('sequences of setups of up to 5 installer plugins and 2 OSs with random core lists, '
                'options and OS features, and setups of the built-in plugins with some disabled; '
                'non-trivial if there are core and additional installers, or disabled plugins and '
                'options')


# ------------------------------------------------------------------------ I03

ENTRY_DEFAULTS = {'bool': [False, True], 'str': ['d', None], 'list': [[], ['d']],
                  'dict': [{}, {'k': 'd'}]}
ENTRY_VALUES = {'bool': [True, False], 'str': ['x', '', 'é y'], 'list': [[], ['a', 'b'], ['a']],
                'dict': [{}, {'a': 'b'}, {'c': 'd', 'a': 'b'}]}


@st.composite
def rule_case(draw):
    declared = []
    for n in draw(st.lists(st.sampled_from(['options', 'flag', 'tap', 'version']), unique=True,
                           max_size=3)):
        kind = draw(st.sampled_from(sorted(TYPES)))
        declared.append((n, kind, draw(st.sampled_from(ENTRY_DEFAULTS[kind]))))
    rule = {}
    if draw(st.integers(0, 5)):
        rule['packages'] = draw(st.one_of(st.none(), gen.packages, st.lists(
            gen.package, min_size=2, max_size=5)))
    if draw(st.booleans()):
        names = rule.get('packages') or []
        rule['depends'] = draw(st.one_of(
            st.none(), st.lists(gen.key, max_size=3), st.permutations(
                [n for n in ([names] if isinstance(names, str) else names) if n] + ['a'])))
    for n, kind, _ in declared:
        if draw(st.booleans()):
            rule[n] = draw(st.one_of(st.none(), st.sampled_from(ENTRY_VALUES[kind]),
                                     st.sampled_from(ENTRY_VALUES[kind])))
    if draw(st.integers(0, 3)) == 0:
        rule['undeclared'] = draw(gen.trees(max_leaves=3))
    if draw(st.integers(0, 3)) == 0:
        rule[draw(st.sampled_from(['packages', 'depends'] + [n for n, _, _ in declared]))] = \
            draw(gen.trees(max_leaves=4))
    items = draw(st.permutations(sorted(rule.items(), key=lambda kv: kv[0])))
    return declared, dict(items)


def scramble(x):
    """Modify every container below x."""
    if isinstance(x, dict):
        for y in list(x.values()):
            scramble(y)
        x['scrambled'] = 'yes'
    elif isinstance(x, list):
        for y in x:
            scramble(y)
        x.append('scrambled')


def check_rule(v, rec):
    declared, rule = v
    before = copy.deepcopy(rule)
    inst = Inst('inst', declared)
    try:
        want, depends = ref_resolve(declared, rule)
    except Unspecified:
        rec.event('null in typed container')
        return
    except BadRule:
        rec.event('ill-typed')
        rec.nontrivial()
        for what in (inst.resolve, inst.get_depends):
            with quiet():
                try:
                    res = what(rule)
                except InvalidRuleError:
                    continue
            fail('no invalid-rule error for %s, but %s' % (short(rule), short(res)))
        expect_same(rule, before, 'rule after failing')
        return
    rec.event('packages %d' % min(len(want), 3))
    rec.event('entries %d' % len(declared))
    rec.nontrivial(len(want) >= 2 and bool(declared))

    def resolve_(r):
        with quiet():
            return inst.resolve(r)

    first = resolve_(rule)
    expect_same([dict(r) for r in first], want, 'resolutions')
    expect_same(rule, before, 'rule after resolving')
    with quiet():
        deps = inst.get_depends(rule)
    expect_same(deps, depends, 'depends')
    expect_same(rule, before, 'rule after get_depends')
    # the installer may be used for other rules in between
    other = dict((k, rule[k]) for k in reversed(list(rule)))
    other['packages'] = ['z'] + [r['package'] for r in first]
    second = resolve_(other)[1:]
    again = resolve_(rule)
    for a, b, c in zip(first, second, again):
        expect(a == b and b == a and a == c and not a != b, '{0} and {1} differ', a, b)
        expect(hash(a) == hash(b) == hash(c), 'hashes of {0} and {1} differ', a, b)
        expect_eq(a.package, dict(a)['package'], 'package attribute')
        expect_eq(str(a), a['package'], 'text of the resolution')
    for i, a in enumerate(first):
        for b in second[i:]:
            expect_eq(a == b, dict(a) == dict(b), 'equality of %s and %s' % (a, b))
        expect_eq(len({a, Resolution(copy.deepcopy(dict(a)))}), 1, 'set of equal resolutions')
    # no sharing with the rule, whatever is modified
    scramble(rule)
    expect_same([dict(r) for r in first], want, 'resolutions after modifying the rule')
    rule = copy.deepcopy(before)
    res = resolve_(rule)
    for r in res:
        scramble(r)
    with quiet():
        scramble(inst.get_depends(rule))
    expect_same(rule, before, 'rule after modifying resolutions')
    expect_same([dict(r) for r in resolve_(rule)], want, 'resolving again after modifications')
    with quiet():
        expect_same(inst.get_depends(rule), depends, 'depends after modifications')


# YAML dicts can have keys of different types
mixed_keys = st.dictionaries(st.sampled_from([1, 'a', None, 2.5, True, '1', 0, 'b']),
                             st.one_of(gen.scalars, st.lists(gen.scalars, max_size=2)), max_size=4)
# YAML knows sets, too
sets = st.sets(st.sampled_from([1, 'a', None, 2.5, True, '1', '', (1, 'x')]), max_size=4)


@st.composite
def equality_case(draw):
    base = draw(st.dictionaries(st.sampled_from(['package', 'options', 'tap', 'v']),
                                st.one_of(gen.trees(max_leaves=5), mixed_keys, sets,
                                          st.lists(sets, max_size=2)), min_size=1, max_size=4))
    other = copy.deepcopy(base)
    k = draw(st.sampled_from(sorted(base)))
    how = draw(st.integers(0, 3))
    if how == 0:
        other[k] = draw(st.one_of(gen.trees(max_leaves=5), sets))
    elif how == 1:
        del other[k]
    elif how == 2:
        other['extra'] = None
    order = draw(st.permutations(sorted(other)))
    res = dict((k, other[k]) for k in order)
    if draw(st.booleans()):
        res = dict((k, dict(reversed(x.items())) if isinstance(x, dict) else x) for k, x in res.items())
    return base, res


def check_equality(v, rec):
    a, b = v
    ra, rb = Resolution(a), Resolution(b)
    rec.nontrivial(a != b)
    rec.event('equal' if a == b else 'different')
    expect_eq(ra == rb, a == b, 'equality')
    expect_eq(ra != rb, a != b, 'inequality')
    if a == b:
        expect_eq(hash(ra), hash(rb), 'hashes')
    expect_eq(len({ra, rb}), 1 if a == b else 2, 'size of the set')
    expect_same(dict(ra), a, 'entries')


SUBS['I03'] = [
    Sub('rule', rule_case(), check_rule, quick=700, qshards=2),
    Sub('equality', equality_case(), check_equality, quick=800,
        examples=[({'v': {2, 1}}, {'v': {1, 2}}), ({'v': [set()]}, {'v': [set()]}), ({'v': {1}}, {'v': [1]})]),
]
RULES['I03'] = ('installer rules with declared (4 types), undeclared, missing and ill-typed entries, '
                'and pairs of resolutions; non-trivial if ill-typed, or several packages with '
                'declared entries, or the resolutions differ')


# ------------------------------------------------------------------------ I04

COMMANDS = {
    'apt': ['apt-get', 'install'], 'pip': ['pip', 'install', '-U'],
    'homebrew': ['brew', 'install'], 'macports': ['port', 'install'],
}
_builtin = {}


def builtin(name):
    if not _builtin:
        from xylem.installers.plugins import apt, fake, homebrew, macports, pip
        for m in (apt, fake, homebrew, macports, pip):
            cls = m.definition['installer']
            _builtin[cls().name] = cls
    return _builtin[name]()


package_names = st.one_of(gen.package, st.sampled_from(
    ['sudo', 'a b', '"q"', "'", '$(x)', '; rm x', '-y', '--option=x', '@!', 'a\nb', '\\',
     'install', 'ß/ü', '*', '&', '{0}', '%s', '/abs', '..']), st.text(max_size=6))


@st.composite
def command_case(draw):
    name = draw(st.sampled_from(sorted(REAL)))
    return dict(name=name,
                packages=draw(st.lists(package_names, max_size=4)),
                as_root=draw(st.sampled_from([None, True, False, 'unset'])),
                euid=draw(st.sampled_from([0, 1, 1000, 65534])),
                uid=draw(st.sampled_from(['same', 0, 1000])), env=draw(environments),
                interactive=draw(st.booleans()), reinstall=draw(st.booleans()),
                install_dir=draw(st.sampled_from(['/opt/x', '/é ü/y', '/'])),
                # the same object later: other options, another user
                then=draw(st.lists(st.fixed_dictionaries({
                    'packages': st.lists(package_names, max_size=2),
                    'as_root': st.sampled_from([None, True, False, 'unset']),
                    'euid': st.sampled_from([0, 1000]),
                    'install_dir': st.sampled_from(['/opt/x', '/other'])}), max_size=2)))


# the environment does not tell who the user is
ENVIRONMENTS = [{}, {}, {'SUDO_UID': '0', 'SUDO_GID': '0', 'SUDO_USER': 'root', 'SUDO_COMMAND': '/bin/sh'},
                {'SUDO_UID': '1000', 'SUDO_GID': '1000', 'SUDO_USER': 'me'},
                {'USER': 'root', 'LOGNAME': 'root', 'HOME': '/root', 'UID': '0', 'EUID': '0'},
                {'USER': 'me', 'LOGNAME': 'me', 'UID': '1000', 'EUID': '1000'},
                {'CI': 'true', 'container': 'docker', 'FAKEROOTKEY': '1'},
                {'DEBIAN_FRONTEND': 'noninteractive', 'PATH': ''}]
environments = st.integers(0, len(ENVIRONMENTS) - 1)


class Ids(object):
    """Pretends to be another user, in another environment."""

    def __init__(self, euid, uid, env=0):
        self.ids = (euid, euid if uid == 'same' else uid)
        self.env = ENVIRONMENTS[env]

    def __enter__(self):
        self.environ = dict(os.environ)
        os.environ.update(self.env)
        self.orig = os.geteuid, os.getuid
        os.geteuid = lambda: self.ids[0]
        os.getuid = lambda: self.ids[1]

    def __exit__(self, *a):
        os.geteuid, os.getuid = self.orig
        os.environ.clear()
        os.environ.update(self.environ)


def check_commands(v, rec):
    inst = builtin(v['name'])
    for i, st_ in enumerate([v] + [dict(v, **t) for t in v['then']]):
        compose(st_, inst, rec, i)


def compose(v, inst, rec, stage):
    opts = {}
    if v['as_root'] != 'unset':
        opts['as_root'] = v['as_root']
    if v['name'] == 'fake':
        opts['install_dir'] = v['install_dir']
    if opts or stage:
        inst.options = opts
    as_root = v['as_root'] if v['as_root'] in (True, False) else REAL[v['name']]
    # another object with other options
    builtin(v['name']).options = {'as_root': not as_root}
    expect_eq(inst.options['as_root'], as_root, 'as_root option of %s' % v['name'])
    before = copy.deepcopy(dict(inst.options))
    items = inst.resolve({'packages': list(v['packages'])})
    expect_eq([i.package for i in items], v['packages'], 'packages')
    # an effective user id of 0 makes root
    sudo = ['sudo'] if as_root and v['euid'] != 0 else []
    want = []
    for p in v['packages']:
        if v['name'] == 'fake':
            want.append(sudo + ['touch', os.path.join(before['install_dir'], p)])
        else:
            want.append(sudo + COMMANDS[v['name']] + [p])
    copies = copy.deepcopy([dict(i) for i in items])
    with Ids(v['euid'], v['uid'], v.get('env', 0)):
        for again in (False, True):
            got = inst.get_install_commands(items, interactive=v['interactive'],
                                            reinstall=v['reinstall'])
            expect_same([list(c) for c in got], want,
                        'commands%s' % (' (again)' if again else ''))
            for c in got:
                expect(isinstance(c, list) and all(isinstance(a, str) for a in c),
                       'command is {0!r}', c)
                # modifying a returned command is nobody else's business
                c.append('scrambled')
    expect_same([dict(i) for i in items], copies, 'resolutions after composing')
    expect_same(dict(inst.options), before, 'options after composing')
    rec.event('%s%s' % (v['name'], ' with sudo' if sudo else ''))
    rec.nontrivial(len(v['packages']) >= 2 or any(' ' in p for p in v['packages']))


class Canned(Inst):
    """Returns prepared command objects."""
    cmds = ()

    def get_install_commands_no_root(self, resolved, interactive=True, reinstall=False):
        self.called = (resolved, interactive, reinstall)
        return self.cmds


word = st.sampled_from(['sudo', 'sudo', 'apt-get', 'install', '-x', 'a b', 'sudoku', ''])


@st.composite
def elevate_case(draw):
    return dict(cmds=draw(st.lists(st.lists(word, min_size=1, max_size=4), max_size=4)),
                as_root=draw(st.sampled_from([True, True, False])),
                euid=draw(st.sampled_from([1000, 1, 0])), env=draw(environments),
                interactive=draw(st.booleans()), reinstall=draw(st.booleans()),
                then=draw(st.lists(st.fixed_dictionaries({
                    'cmds': st.lists(st.lists(word, min_size=1, max_size=3), max_size=2),
                    'as_root': st.booleans(), 'euid': st.sampled_from([1000, 0])}),
                    max_size=2)))


def check_elevate(v, rec):
    inst = Canned('canned')
    for st_ in [v] + [dict(v, **t) for t in v['then']]:
        elevate(st_, inst, rec)


def elevate(v, inst, rec):
    inst.options = {'as_root': v['as_root']}
    inst.cmds = copy.deepcopy(v['cmds'])
    sudo = v['as_root'] and v['euid'] != 0
    want = [(['sudo'] + c if sudo and c[0] != 'sudo' else c) for c in v['cmds']]
    items = [Resolution(package='p')]
    with Ids(v['euid'], 'same', v.get('env', 0)):
        for again in (False, True):
            got = inst.get_install_commands(items, interactive=v['interactive'],
                                            reinstall=v['reinstall'])
            expect_same([list(c) for c in got], want, 'commands')
    expect_eq(inst.called, (items, v['interactive'], v['reinstall']), 'arguments passed on')
    expect_same(inst.cmds, v['cmds'], 'commands of the plugin after elevating')
    for c in v['cmds']:
        e = elevate_privileges(list(c))
        expect_same(e, c if c[0] == 'sudo' else ['sudo'] + c, 'elevated')
        expect_same(elevate_privileges(list(e)), e, 'elevated twice')
    rec.event('elevated' if sudo else 'not elevated')
    rec.nontrivial(sudo and any(c[0] == 'sudo' for c in v['cmds']))


SUBS['I04'] = [
    Sub('builtin', command_case(), check_commands, quick=700, qshards=2),
    Sub('elevate', elevate_case(), check_elevate, quick=300),
]
RULES['I04'] = ('the 5 built-in installers with arbitrary package names, options and (pretended) '
                'user ids, and plugins with prepared commands; non-trivial if several packages or '
                'spaces in names, or a command that already has sudo is elevated')
