"""O01-O03: operating systems."""
import collections
import copy
import json
import os
import platform
import sys

from hypothesis import strategies as st

from .. import ctx
from ..core import HarnessError, Sub, expect, expect_eq, fail, quiet
from .rules import expect_same

from xylem.os_support import OSSupport, UnsupportedOSError, UnsupportedOSVersionError
from xylem.os_support import os_detect as od
from xylem.os_support.os_base import OSBase, version_order_from_list
from xylem.os_support.plugins import OSX, Debian, Ubuntu, Xubuntu

SUBS, RULES, LEVEL = {}, {}, {}


# ------------------------------------------------------------------------ O01

class FakeOS(OSBase):
    def __init__(self, spec):
        super(FakeOS, self).__init__()
        self.spec = spec

    all_names = property(lambda self: list(self.spec['names']))
    known_versions = property(lambda self: list(self.spec['versions']))
    default_installer = property(lambda self: self.spec['default'])

    def get_version(self):
        v = self.spec['detected']
        if v is None:
            raise UnsupportedOSVersionError('injected')
        return v

    def get_all_tuples(self, version):
        return [(n, version) for n in self.spec['names']]

    def get_core_installers(self, version, options):
        return ['core-%s-%s-%s' % (self.name, version, '+'.join(options.features))]

    def is_os(self):
        return self.spec['matches']


NAMES = ['alma', 'beos', 'core', 'dos', 'elx', 'fox']
VERSIONS = ['1', '2', '10', 'x y', 'é', 'X y', 'v-1', 'V_1']


def similar(s):
    """Names that are not that one."""
    return [x for x in dict.fromkeys([
        s.upper(), s.title(), s + ' ', ' ' + s, s[:-1], s + '0', s.replace('-', '_'), s + '-', s.replace(' ', ''), s + '.0', '0' + s,
        s.replace(' ', '-'), s + '\n', s.replace('é', 'e'), s.swapcase()]) if x != s]


@st.composite
def os_world(draw):
    """OS plugins of which the matching ones have a most specific one."""
    names = draw(st.permutations(NAMES))
    n_match = draw(st.integers(0, 4))
    chain = list(names[:n_match])
    specs = []
    for n in range(draw(st.integers(max(1, n_match), 6))):
        name = names[n]
        if n < n_match:
            if n == 0:
                parents = chain[1:]
                # further parents that do not match or have no plugin
                parents += draw(st.lists(st.sampled_from(NAMES + ['gone']), max_size=2,
                                         unique=True))
                parents = [p for p in dict.fromkeys(parents) if p != name]
                parents = draw(st.permutations(parents))
            else:
                # may be derived from each other, but not from more specific ones
                parents = [p for p in chain[n + 1:] if draw(st.booleans())]
                # and from others that do not match
                parents += draw(st.lists(st.sampled_from(list(names[n_match:]) + ['gone', 'lost', 'past']),
                                         max_size=5, unique=True))
                parents = draw(st.permutations(parents))
        else:
            parents = draw(st.lists(st.sampled_from([p for p in NAMES if p != name]),
                                    max_size=3, unique=True))
        specs.append(dict(
            names=[name] + list(parents), matches=n < n_match,
            versions=draw(st.lists(st.sampled_from(VERSIONS), unique=True, min_size=1,
                                   max_size=4)) if draw(st.integers(0, 11)) < 11 else [],
            detected=draw(st.sampled_from([None, '1', '77'])) if draw(st.integers(0, 3)) == 0
            else draw(st.sampled_from(VERSIONS)),
            default=draw(st.sampled_from([None, 'apt', 'pip']))))
    return draw(st.permutations(specs)), (chain[0] if chain else None)


@st.composite
def detect_case(draw):
    specs, best = draw(os_world())
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 5))
        if k == 0:
            ops.append(('detect',))
        elif k == 1:
            ops.append(('options', draw(st.sampled_from([{}, {'features': ['f']}]))))
        elif k == 2 and ops:
            ops.append(('none',))
        else:
            name = draw(st.sampled_from([s['names'][0] for s in specs] * 3 + ['gone', 'unknown']))
            known = [v for s in specs if s['names'][0] == name for v in s['versions']]
            ver = draw(st.sampled_from(known * 2 + [None, None] + VERSIONS[:2] + ['', 'unknown']))
            confuse = draw(st.integers(0, 9))
            if confuse == 8:
                name = draw(st.sampled_from(similar(name)))
            elif confuse == 9 and ver:
                ver = draw(st.sampled_from(similar(ver)))
            ops.append(('override', name, ver))
    return dict(specs=specs, best=best, ops=ops)


def check_detect(v, rec):
    specs = dict((s['names'][0], s) for s in v['specs'])
    plugins = [FakeOS(s) for s in v['specs']]
    by_name = dict((p.name, p) for p in plugins)
    oss = OSSupport()
    oss.os_plugins = list(plugins)
    state = None                # (name, version or None if detected)

    def verify(state):
        if state is None:
            if v['best'] is None:
                with quiet():
                    try:
                        cur = oss.current_os
                    except UnsupportedOSError:
                        rec.event('nothing detected')
                        return None
                fail('detected %s, but nothing matches' % cur.name)
            state = (v['best'], None)
        name, version = state
        spec = specs[name]
        with quiet():
            cur = oss.current_os
        expect_eq(cur.name, name, 'name of the current OS')
        if version is None:
            if spec['detected'] is None:
                try:
                    got = cur.get_version()
                except (UnsupportedOSError, UnsupportedOSVersionError):
                    return state
                fail('version %s, but detection fails' % got)
            version = spec['detected']
        expect_eq(cur.get_version(), version, 'version')
        expect_eq(cur.get_tuple(), (name, version), 'tuple')
        expect_eq(cur.all_names, spec['names'], 'names')
        for ver in (version, None, '', 'other'):
            expect_eq(cur.get_all_tuples(ver), [(n, ver) for n in spec['names']],
                      'all tuples of version %r' % ver)
            for feats in ([], ['g', 'h']):
                o = OSOptions(feats)
                expect_eq(cur.get_core_installers(ver, o),
                          by_name[name].get_core_installers(ver, o),
                          'core installers for version %r with %s' % (ver, feats))
        expect_eq(cur.known_versions, spec['versions'], 'known versions')
        expect_eq(cur.default_installer, spec['default'], 'default installer')
        expect_eq(cur.is_os(), True, 'is_os')
        expect_same(dict(cur.options), dict(by_name[name].options), 'options')
        expect_eq(cur.get_core_installers(version, cur.options),
                  by_name[name].get_core_installers(version, cur.options), 'core installers')
        less = cur.version_less_fn
        ks = spec['versions']
        for i, a in enumerate(ks):
            for j, b in enumerate(ks):
                expect_eq(less(a, b), i < j, 'less(%s, %s)' % (a, b))
        return state

    rec.event('%d matching' % sum(s['matches'] for s in v['specs']))
    overridden = failed = 0
    for op in v['ops']:
        with quiet():
            if op[0] == 'detect':
                try:
                    oss.detect_os()
                    error = None
                except UnsupportedOSError as e:
                    error = e
                expect_eq(error is not None, v['best'] is None, 'failure to detect')
                if error is None:
                    state = (v['best'], None)
                else:
                    failed += 1
            elif op[0] == 'none':
                oss.override_os(None)
            elif op[0] == 'options':
                if state is not None:
                    oss.current_os.options = copy.deepcopy(op[1])
                    expect_same(list(by_name[state[0]].options.features),
                                op[1].get('features', []), 'options of the plugin')
            else:
                _, name, ver = op
                try:
                    oss.override_os((name, ver))
                    error = None
                except (UnsupportedOSError, UnsupportedOSVersionError) as e:
                    error = e
                if name not in specs:
                    expect(isinstance(error, UnsupportedOSError), 'unknown OS: {0!r}', error)
                    failed += 1
                elif ver is None and specs[name]['detected'] is None:
                    expect(error is not None, 'undetectable version accepted')
                    failed += 1
                elif ver is not None and ver not in specs[name]['versions']:
                    expect(isinstance(error, UnsupportedOSVersionError),
                           'unknown version gave {0!r}', error)
                    failed += 1
                else:
                    if error is not None:
                        raise error
                    state = (name, specs[name]['detected'] if ver is None else ver)
                    overridden += 1
        state = verify(state)
    names = [s['names'][0] for s in v['specs']]
    expect_eq(oss.os_plugin_names, names, 'plugin names')
    expect_eq(oss.get_default_installer_names(), dict((n, specs[n]['default']) for n in names),
              'default installer names')
    for n in names:
        expect(oss.lookup_os(n) is by_name[n], 'lookup_os({0})', n)
    expect(oss.lookup_os('unknown') is None, 'lookup_os of unknown OS')
    if overridden:
        rec.event('overridden')
    if failed:
        rec.event('failed operations')
    rec.nontrivial(sum(s['matches'] for s in v['specs']) >= 2 or (overridden and failed))


def order_cases():
    return os_world().flatmap(lambda w: st.tuples(
        st.just(w), st.lists(st.permutations(range(len(w[0]))), min_size=2, max_size=4)))


def check_order(v, rec):
    (specs, best), orders = v
    for order in orders:
        oss = OSSupport()
        oss.os_plugins = [FakeOS(specs[i]) for i in order]
        with quiet():
            try:
                oss.detect_os()
                got = oss.current_os.name
            except UnsupportedOSError:
                got = None
        expect_eq(got, best, 'detected with order %s of %s' % (list(order), [
            s['names'] for s in specs if s['matches']]))
    rec.event('%d matching' % sum(s['matches'] for s in specs))
    rec.nontrivial(sum(s['matches'] for s in specs) >= 3)


# what platform.linux_distribution says -> OS name that xylem has to detect
LSB = {'Ubuntu': 'ubuntu', 'debian': 'debian', 'Xubuntu': 'xubuntu'}
UBUNTU_ALL = ['warty', 'hoary', 'breezy', 'dapper', 'edgy', 'feisty', 'gutsy', 'hardy', 'intrepid',
              'jaunty', 'karmic', 'lucid', 'maverick', 'natty', 'oneiric', 'precise', 'quantal',
              'raring', 'saucy', 'trusty', 'utopic', 'vivid', 'wily', 'xenial', 'yakkety', 'zesty',
              'artful', 'bionic', 'cosmic', 'disco', 'eoan', 'focal', 'groovy', 'hirsute', 'impish',
              'jammy', 'kinetic', 'lunar', 'mantic', 'noble']
DEBIAN_ALL = ['buzz', 'rex', 'bo', 'hamm', 'slink', 'potato', 'woody', 'sarge', 'etch', 'lenny',
              'squeeze', 'wheezy', 'jessie', 'stretch', 'buster', 'bullseye', 'bookworm', 'trixie']
OSX_ALL = ['cheetah', 'puma', 'jaguar', 'panther', 'tiger', 'leopard', 'snow', 'lion',
           'mountain lion', 'mavericks', 'yosemite', 'el capitan', 'sierra', 'high sierra']
KNOWN = {
    'ubuntu': ['lucid', 'maverick', 'natty', 'oneiric', 'precise', 'quantal', 'raring', 'saucy',
               'trusty', 'utopic'],
    'debian': ['etch', 'lenny', 'squeeze', 'wheezy', 'jessie'],
    'osx': ['tiger', 'leopard', 'snow', 'lion', 'mountain lion', 'mavericks', 'yosemite'],
}
KNOWN['xubuntu'] = KNOWN['ubuntu']


@st.composite
def lsb_case(draw):
    dist = draw(st.sampled_from(sorted(LSB) + ['LinuxMint', 'Fedora', 'ubuntu', '']))
    code = draw(st.sampled_from(['precise', 'trusty', 'wheezy', 'jessie', 'lucid', 'newer']))
    override = draw(st.sampled_from([None, None, ('osx', 'lion'), ('debian', None),
                                     ('ubuntu', None), ('ubuntu', 'trusty'), ('ubuntu', 'lion'), ('ubuntu', 'Trusty'),
                                     ('Ubuntu', 'trusty'), ('osx', 'LION'), ('osx', 'mountain lion'), ('osx', 'mountain'),
                                     ('debian', 'sid'), ('debian', ''), ('ubuntu ', 'trusty'), ('xubuntu', 'trusty')]))
    return dict(dist=dist, version=draw(st.sampled_from(['12.04', '7.0', ''])), code=code,
                override=override)


def check_lsb(v, rec):
    """The built-in plugins in a fresh interpreter that sees the distribution."""
    def child():
        platform.linux_distribution = lambda *a, **kw: (v['dist'], v['version'], v['code'])
        for m in list(sys.modules):
            if m == 'xylem' or m.startswith('xylem.'):
                del sys.modules[m]
        from xylem.config import get_default_config
        from xylem.installers import InstallerContext
        from xylem.os_support import UnsupportedOSError, UnsupportedOSVersionError
        cfg = get_default_config()
        cfg['os_override'] = v['override']
        try:
            ic = InstallerContext(cfg)
            print('RESULT %s|%s|%s' % (ic.get_os_tuple() + (','.join(ic.core_installer_names),)))
        except UnsupportedOSError:
            print('RESULT unsupported OS')
        except UnsupportedOSVersionError:
            print('RESULT unsupported version')

    status, out, err = ctx.forked(child)
    lines = [l for l in out.splitlines() if l.startswith('RESULT ')]
    expect(status == 0 and len(lines) == 1, 'exit status {0}: {1}', status, err)
    got = lines[0][7:]
    detected = LSB.get(v['dist'])
    rec.event('override' if v['override'] else 'detected' if detected else 'unsupported')
    if v['override']:
        name, ver = v['override']
        if ver is None:
            ver = v['code'] if detected == name else None
        want = 'unsupported OS' if name not in KNOWN else 'unsupported version' if (
            ver is None or v['override'][1] is not None and ver not in KNOWN[name]) else '%s|%s|%s' % (
            name, ver, 'apt' if name != 'osx' else 'homebrew,pip')
    elif detected:
        want = '%s|%s|apt' % (detected, v['code'])
    else:
        want = 'unsupported OS'
    expect_eq(got, want, 'detection in %s %s' % (v['dist'], v['code']))
    rec.nontrivial(bool(detected or v['override']))


SUBS['O01'] = [
    Sub('operations', detect_case(), check_detect, quick=600, qshards=2),
    Sub('orders', order_cases(), check_order, quick=300, qshards=2),
    Sub('lsb', lsb_case(), check_lsb, quick=60, thorough=150, qshards=2),
]
RULES['O01'] = ('sets of up to 6 OS plugins whose matching ones form a derivation order, with '
                'sequences of detections and overrides, permutations of the plugins, and the '
                'built-in plugins in distributions; non-trivial if at least two plugins match, or '
                'overrides both succeed and fail')


# ------------------------------------------------------------------------ O02

@st.composite
def version_case(draw):
    versions = draw(st.lists(st.one_of(st.sampled_from(VERSIONS + ['3', '04', 'a', 'B', '']),
                                       st.text(max_size=3)), unique=True, max_size=8))
    return dict(versions=versions,
                unknown=draw(st.lists(st.text(max_size=3), max_size=2)),
                append=draw(st.booleans()),
                # OSs of the same class
                others=draw(st.lists(st.lists(st.sampled_from(VERSIONS + ['3', 'a']), unique=True,
                                              max_size=4), max_size=2)))


def check_versions(v, rec):
    versions = list(v['versions'])
    less = version_order_from_list(versions)
    if v['append']:
        # the order is that of the list at the time
        versions.reverse()
        versions.append('later')
    vs = v['versions']
    for i, a in enumerate(vs):
        for j, b in enumerate(vs):
            expect(less(a, b) is (i < j), 'less({0}, {1}) is {2}', a, b, less(a, b))
            rec.count('pairs')
    for u in v['unknown']:
        if u in vs:
            continue
        for x in vs + [u]:
            for a, b in ((x, u), (u, x)):
                try:
                    r = less(a, b)
                except UnsupportedOSVersionError:
                    continue
                fail('order of unknown version: less(%r, %r) is %r' % (a, b, r))
        rec.event('unknown version')
    objects = [FakeOS(dict(names=['x'], versions=l)) for l in [vs] + v['others']]
    for again in range(2):
        for os_ in objects:
            l = os_.spec['versions']
            less = os_.version_less_fn
            for a in set(vs + sum(v['others'], [])):
                for b in l:
                    try:
                        r = less(a, b)
                    except UnsupportedOSVersionError:
                        expect(a not in l, 'order of {0} and {1} unknown', a, b)
                    else:
                        expect(a in l, 'order of unknown version: {0}', a)
                        expect(r is (l.index(a) < l.index(b)), 'less({0}, {1}) is {2}', a, b, r)
        # the lists of the plugins are now others
        for os_ in objects:
            os_.spec['versions'] = os_.spec['versions'][1:] + os_.spec['versions'][:1] + ['new']
        rec.event('%d OSs' % len(objects))
    rec.nontrivial(len(vs) >= 3)


FUNCTIONS = {'same': lambda v: v, 'append': lambda v: v + '1', 'unknown': lambda v: None,
             'empty': lambda v: '', 'reverse': lambda v: v[::-1]}
MAPPED = VERSIONS + ['']


@st.composite
def tuples_case(draw):
    # a chain on top of a built-in OS; most specific first
    chain = []
    for n in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=4)):
        m = draw(st.one_of(
            st.none(),
            st.dictionaries(st.sampled_from(MAPPED), st.sampled_from(MAPPED + [None]),
                            max_size=4),
            st.dictionaries(st.sampled_from(MAPPED), st.sampled_from(MAPPED), min_size=3,
                            max_size=5),
            st.sampled_from(sorted(FUNCTIONS))))
        chain.append((n, m))
    return dict(base=draw(st.sampled_from(['debian', 'ubuntu', 'xubuntu', 'osx'])), chain=chain,
                versions=draw(st.lists(st.sampled_from(MAPPED + ['other', None]), min_size=1,
                                       max_size=4)))


def tuples_examples():
    """Chains of two steps with all kinds of mappings, for all versions."""
    maps = [None, {}, {'1': '2', '': '1', '2': ''}, {'1': None}] + sorted(FUNCTIONS)
    return [dict(base=base, chain=[('alma', a), ('beos', b)], versions=['1', '2', '', 'other', None])
            for base in ('debian', 'xubuntu') for a in maps for b in maps]


class OSOptions(object):
    def __init__(self, features):
        self.features = features


BASES = {'debian': (Debian, [('debian', None)]),
         'ubuntu': (Ubuntu, [('ubuntu', None), ('debian', None)]),
         'xubuntu': (Xubuntu, [('xubuntu', 'same'), ('ubuntu', None), ('debian', None)]),
         'osx': (OSX, [('osx', None)])}


def check_tuples(v, rec):
    cls, rest = BASES[v['base']]

    class Derived(cls):
        def __init__(self):
            super(Derived, self).__init__()
            for n, m in reversed(v['chain']):
                if isinstance(m, dict) and len(m) % 3 == 0:
                    m = collections.OrderedDict(m)
                self._prepend_name(n, FUNCTIONS.get(m) if isinstance(m, str) else m)

    full = v['chain'] + rest
    os_ = Derived()
    expect_eq(os_.name, full[0][0], 'name')
    expect_eq(list(os_.all_names), [n for n, _ in full], 'names')
    for version in v['versions']:
        want, cur = [], version
        for n, m in full:
            want.append((n, cur))
            if cur is not None:
                cur = None if m is None else m.get(cur) if isinstance(m, dict) else \
                    FUNCTIONS[m](cur)
        expect_eq([tuple(t) for t in os_.get_all_tuples(version)], want, 'tuples of %r' % version)
        depth = sum(c is not None for _, c in want)
        rec.event('depth %d' % depth)
        rec.nontrivial(depth >= 2)
    # plugins are independent of each other
    plain = cls()
    expect_eq(list(plain.all_names), [n for n, _ in rest], 'names of the base OS')


@st.composite
def builtin_case(draw):
    name = draw(st.sampled_from(sorted(KNOWN)))
    return dict(name=name, version=draw(st.sampled_from(KNOWN[name] + ['warty', 'nonsense', ''])),
                other=draw(st.sampled_from(KNOWN[name])))


CHRONOLOGY = {'ubuntu': UBUNTU_ALL, 'xubuntu': UBUNTU_ALL, 'debian': DEBIAN_ALL, 'osx': OSX_ALL}


def check_builtin(v, rec):
    oss = OSSupport()
    os_ = oss.lookup_os(v['name'])
    expect(os_ is not None, 'no plugin {0}', v['name'])
    versions = list(os_.known_versions)
    expect(set(KNOWN[v['name']]) <= set(versions), 'unknown versions {0}',
           set(KNOWN[v['name']]) - set(versions))
    dated = [x for x in versions if x in CHRONOLOGY[v['name']]]
    expect_eq(dated, [x for x in CHRONOLOGY[v['name']] if x in versions], 'order of the versions')
    expect_eq(os_.name, v['name'], 'name')
    names = [n for n, _ in BASES[v['name']][1]]
    expect_eq(list(os_.all_names), names, 'all names')
    try:
        oss.override_os((v['name'], v['version']))
        ok = True
    except UnsupportedOSVersionError:
        ok = False
    expect_eq(ok, v['version'] in versions, 'override to version %r' % v['version'])
    if not ok:
        rec.event('unknown version')
        return
    cur = oss.current_os
    expect_eq(cur.get_tuple(), (v['name'], v['version']), 'tuple')
    tuples = [tuple(t) for t in cur.get_all_tuples(v['version'])]
    want = [(n, None) for n in names]
    want[0] = (v['name'], v['version'])
    if v['name'] == 'xubuntu':
        want[1] = ('ubuntu', v['version'])
    expect_eq(tuples, want, 'all tuples')
    core = cur.get_core_installers(v['version'], cur.options)
    expect(cur.default_installer in core, 'default installer {0} is not core: {1}',
           cur.default_installer, core)
    expect_eq(cur.version_less_fn(v['version'], v['other']),
              CHRONOLOGY[v['name']].index(v['version']) < CHRONOLOGY[v['name']].index(v['other']),
              'less(%s, %s)' % (v['version'], v['other']))
    rec.event(v['name'])
    rec.nontrivial()


SUBS['O02'] = [
    Sub('order', version_case(), check_versions, quick=300),
    Sub('tuples', tuples_case(), check_tuples, quick=300, examples=tuples_examples()),
    Sub('builtin', builtin_case(), check_builtin, quick=60, thorough=300, shards=2, examples=[
        dict(name=n, version=x, other=y) for n in sorted(KNOWN) for x in KNOWN[n] + ['warty', '']
        for y in KNOWN[n]]),
]
RULES['O02'] = ('lists of versions with all pairs, chains of derived OSs with all kinds of version '
                'mappings, and the built-in OSs with their versions; non-trivial if at least 3 '
                'versions, two mapped steps, or a known version')


# ------------------------------------------------------------------------ O03

word = st.text(alphabet='abcdefgxyz', min_size=2, max_size=8)
code_names = st.sampled_from(['Heisenbug', 'Santiago', 'Bottle', 'Verne', 'X', 'Maipo', 'Zod'])
numbers = st.sampled_from(['1', '6.5', '13.1', '20', '2.2', '10', '7.0.1', '21-beta'])
ends = st.sampled_from(['', '\n', '\n\n'])


@st.composite
def detector_case(draw):
    kind = draw(st.sampled_from(['opensuse', 'fedora', 'rhel', 'gentoo', 'arch', 'qnx', 'freebsd',
                                 'osx', 'lsb']))
    # what the files at the detector's location say; None for no file
    what = draw(st.sampled_from(['own', 'own', 'own', 'missing', 'foreign', 'foreign']))
    actual = kind
    if what == 'foreign':
        group = {'opensuse': ['fedora', 'rhel', 'gentoo', 'redhat', 'other'],
                 'fedora': ['rhel', 'gentoo', 'opensuse', 'redhat', 'other'],
                 'rhel': ['fedora', 'gentoo', 'opensuse', 'redhat', 'redhat', 'other'],
                 'gentoo': ['fedora', 'rhel', 'opensuse', 'redhat', 'other'],
                 'qnx': ['freebsd', 'linux'], 'freebsd': ['qnx', 'linux'],
                 'lsb': ['lsb2']}.get(kind)
        if group is None:
            what = 'missing'
        else:
            actual = draw(st.sampled_from(group))
    version, code = draw(numbers), draw(code_names)
    if kind == 'osx':
        version = '10.%d' % draw(st.integers(4, 10)) + draw(st.sampled_from(['', '.1', '.5']))
        if draw(st.integers(0, 6)) == 0:
            version = draw(st.sampled_from(['10.3.9', '10.11', '11.4', '9.4', 'abc']))
    return dict(kind=kind, what=what, actual=actual, version=version, code=code,
                end=draw(ends), flavour=draw(st.integers(0, 5)),
                odd=draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
                then=draw(st.lists(st.one_of(
                    st.just({'what': 'missing'}),
                    st.fixed_dictionaries({
                        'what': st.just('own'), 'actual': st.just(kind),
                        'version': st.sampled_from(['10.9', '10.10.1']) if kind == 'osx' else
                        numbers, 'code': code_names, 'flavour': st.integers(0, 5),
                        'odd': st.just(0)})),
                    max_size=2)))


KINDS = ['opensuse', 'fedora', 'rhel', 'gentoo', 'arch', 'qnx', 'freebsd', 'osx', 'lsb']


def detector_examples():
    """All detectors on all files and commands, and the versions of OS X."""
    for kind in KINDS:
        if kind in ('opensuse', 'fedora', 'rhel', 'gentoo'):
            others = ['opensuse', 'fedora', 'rhel', 'gentoo', 'redhat', 'other']
        elif kind in ('qnx', 'freebsd'):
            others = sorted(UNAMES)
        else:
            others = [kind, 'lsb2'] if kind == 'lsb' else [kind]
        for actual in others:
            for version, code in (('20', 'Heisenbug'), ('6.5', 'X'), ('21-beta', 'Santiago')):
                for flavour in range(6):
                    what = 'own' if actual == kind else 'foreign'
                    if kind == 'osx':
                        continue
                    yield dict(kind=kind, what=what, actual=actual, version=version, code=code,
                               end='\n', flavour=flavour,
                               odd=flavour % 4 if code == 'X' else 0)
        yield dict(kind=kind, what='missing', actual=kind, version='1', code='X', end='', flavour=0)
    for version in ['10.%d%s' % (n, s) for n in range(12) for s in ('', '.0', '.1', '.10')] + [
            '9.4', '11.4', 'abc', '10', '1.10', '']:
        yield dict(kind='osx', what='own', actual='osx', version=version, code='', end='', flavour=0)


def release_text(actual, version, code, flavour):
    if actual == 'fedora':
        return ['Fedora release %s (%s)', 'Fedora Linux 64 release %s (%s)',
                'Fedora Core release %s (%s)', 'Fedora 3rd Spin release %s (%s)',
                'Fedora release %s (%s)', 'Fedora release %s (%s) 7'][flavour] % (version, code)
    if actual == 'rhel':
        return ['Red Hat Enterprise Linux Server release %s (%s)',
                'Red Hat Enterprise Linux Workstation release %s (%s)',
                'Red Hat Enterprise Linux release %s (%s)',
                'Red Hat Enterprise Linux Client release %s (%s)',
                'Red Hat Enterprise Linux 64 release %s (%s)',
                'Red Hat Enterprise release %s (%s)'][flavour] % (version, code)
    if actual == 'gentoo':
        return 'Gentoo Base System release %s' % version
    if actual == 'opensuse':
        return 'openSUSE\nVERSION = %s' % version
    if actual == 'redhat':
        return ['Red Hat Linux release %s (%s)', 'Red Hat release %s (%s)',
                'Red Hat Linux Enterprise release %s (%s)', 'Redhat Enterprise release %s (%s)',
                'red hat enterprise linux release %s (%s)', 'Hat Red Enterprise release %s (%s)'][
                    flavour] % (version, code)
    if actual == 'other':
        return ['CentOS release %s (%s)', 'fedora release %s (%s)', 'A Fedora release %s (%s)',
                'openSUSE-like VERSION = %s CODENAME = %s', 'gentoo Base System release %s %s',
                'Base Gentoo System release %s %s'][flavour] % (version, code)
    raise HarnessError(actual)


# what only looks like the file of the OS, or belongs to an OS with another encoding
STRAY = {'fedora': ['Fedor', b'Fedora\xe9 release 1 (x)', b'\xff\xfeFedora release 1 (x)'],
         'rhel': ['Red Hat', 'Red', b'Red Hat Enterpris\xe9 release 1 (x)'],
         'gentoo': ['Gentoo', 'Gentoo\n', b'Gentoo Bas\xe9 System release 1'],
         'opensuse': [' ', 'open SUSE', b'openSUSE\xff\nVERSION = 1']}

UNAMES = {'qnx': 'QNX', 'freebsd': 'FreeBSD', 'linux': 'Linux'}
OSX_CODES = {4: 'tiger', 5: 'leopard', 6: 'snow', 7: 'lion', 8: 'mountain lion', 9: 'mavericks',
             10: 'yosemite'}


def check_detector(v, rec):
    with ctx.TempDir() as d:
        # the files may be others when the next detector looks
        for stage in [v] + [dict(v, **x) for x in v.get('then', ())]:
            detector_stage(stage, d, rec)


def detector_stage(v, d, rec):
    kind, what = v['kind'], v['what']
    rec.event('%s %s' % (kind, what))
    rec.nontrivial(what != 'missing')
    own = what == 'own'
    f = os.path.join(d, 'release')
    f2 = os.path.join(d, 'second')
    for x in (f, f2):
        if os.path.exists(x):
            os.unlink(x)
    present = what != 'missing'
    version, code = v['version'], v['code']
    if kind in ('fedora', 'rhel', 'gentoo', 'opensuse'):
        text = release_text(v['actual'], version, code, v['flavour'])
        odd = v.get('odd')
        if own and odd and kind != 'opensuse':
            # only what the first line says counts
            text += ['\n', '\nB', '\n\n'][odd - 1]
            text = text.encode('utf-8') + [b'', b'\xe9ta \xff', b'\xa9 1998'][odd - 1]
        elif odd:
            text = STRAY[kind][odd - 1]
            rec.event('odd file')
        if not isinstance(text, bytes):
            text = text.encode('utf-8')
        if own and odd and kind == 'opensuse':
            own = False
        if present:
            ctx.write(f, text + v['end'].encode('utf-8'))
    if kind == 'fedora':
        if own:
            ctx.write(f2, text + b'\nKernel \\r on an \\m (\\l)\n')
        det = od.Fedora(f, f2)
        want = (version, code.lower())
    elif kind == 'rhel':
        det = od.Rhel(f)
        want = (version, code.lower())
    elif kind == 'gentoo':
        det = od.Gentoo(f)
        want = (version, '')
    elif kind == 'opensuse':
        if own:
            ctx.write(f2, ('openSUSE %s (x86_64)\nVERSION = %s\nCODENAME = %s\n'
                           '# /etc/SuSE-release is deprecated' % (version, version, code) +
                           v['end']).encode('utf-8') + (b'caf\xe9' if v['flavour'] > 3 else b''))
        det = od.OpenSuse(f, f2)
        want = (version, code)
    elif kind == 'arch':
        if present:
            ctx.write(f, ['', 'Arch Linux release\n', 'Arch', '\n', 'x', '# 1.2'][v['flavour']])
        det = od.Arch(f)
        want = ('', '')
    elif kind in ('qnx', 'freebsd'):
        if present:
            ctx.write(f, '#!/bin/sh\nif [ "$1" = -r ]; then echo "%s"; else echo %s; fi\n' % (
                version, UNAMES[v['actual']]))
            os.chmod(f, 0o755)
        if present and v.get('odd'):
            # there is something which does not tell the OS
            if v['odd'] == 1:
                os.chmod(f, 0o644)
            elif v['odd'] == 2:
                ctx.write(f, '#!%s\n' % os.path.join(d, 'gone'))
            else:
                ctx.write(f, '#!/bin/sh\nprintf "%s\\351"\n' % UNAMES[kind])
            own = False
            rec.event('odd uname')
        det = (od.QNX if kind == 'qnx' else od.FreeBSD)(f)
        want = (version, '')
    elif kind == 'osx':
        if present:
            ctx.write(f, '#!/bin/sh\n[ "$1" = -productVersion ] && echo %s\n' % version)
            os.chmod(f, 0o755)
        det = od.OSX(f)
        parts = version.split('.')
        try:
            code = OSX_CODES.get(int(parts[1])) if parts[0] == '10' else None
        except (ValueError, IndexError):
            code = None
        want = (version, code)
    else:
        name = 'Distro' if v['flavour'] % 2 else 'X'
        old = getattr(platform, 'linux_distribution', None)
        info = (name if own else 'Other', version, code) if present else ('', '', '')
        platform.linux_distribution = lambda *a, **kw: info
        try:
            det = od.LsbDetect(name)
        finally:
            if old is None:
                del platform.linux_distribution
            else:
                platform.linux_distribution = old
        want = (version, code)
    for again in range(2):
        expect_eq(bool(det.is_os()), own, 'is_os of %s' % kind)
        for fn, w in ((det.get_version, want[0]), (det.get_codename, want[1])):
            try:
                got = fn()
            except od.OsNotDetected:
                expect(not own or w is None, 'OsNotDetected on the right OS ({0})',
                       fn.__name__)
                continue
            expect(own and w is not None, '{0} returned {1}', fn.__name__, got)
            expect_eq(got, w, fn.__name__)
    if own and want[1] is not None:
        for first in ([], [('x', Never())]):
            got = od.OsDetect(first + [(kind, det)]).detect_os(env={})
            expect_eq(tuple(got), (kind,) + want, 'detect_os')
    elif not own:
        try:
            got = od.OsDetect([(kind, det)]).detect_os(env={})
        except od.OsNotDetected:
            pass
        else:
            fail('detected %r' % (got,))


class Never(od.OsDetector):
    def is_os(self):
        return False


class Stub(od.OsDetector):
    def __init__(self, matches, version, code):
        self.m, self.v, self.c = matches, version, code

    def is_os(self):
        return self.m

    def get_version(self):
        return self.v

    def get_codename(self):
        return self.c


NEW = ['new', 'arch', 'new2']
part = st.sampled_from(['ubuntu', 'xyz', '12.04', 'precise', 'mountain lion', 'é', 'x-y'])


@st.composite
def env_case(draw):
    # from the newest to the oldest; several may match
    dets = [(draw(st.sampled_from(['a', 'b', 'ubuntu'])), draw(st.booleans()), draw(part),
             draw(part)) for _ in range(draw(st.integers(0, 4)))]
    env = draw(st.one_of(st.none(), st.lists(part, min_size=1, max_size=3)))
    if env and draw(st.integers(0, 3)) == 0:
        env = env + ['']
    return dict(detectors=dets, env=env, added=draw(st.one_of(st.none(), st.tuples(
        st.sampled_from(['a', 'b', 'c']), st.booleans(), part, part))),
        # in the environment of the process
        outer=draw(st.one_of(st.just('same'), st.none(), st.sampled_from(['', 'osx', 'fedora:20:x', 'a:b:c']))),
        default=draw(st.sampled_from([False, False, True])))


def check_env(v, rec):
    dets = [(n, Stub(m, ver, c)) for n, m, ver, c in v['detectors']]
    d = od.OsDetect(list(dets))
    if v['added']:
        n, m, ver, c = v['added']
        new = (n, Stub(m, ver, c))
        d.add_detector(*new)
        dets.insert(0, new)
    for name in ('a', 'b', 'c', 'ubuntu'):
        want = [x for n, x in dets if n == name]
        try:
            got = d.get_detector(name)
        except KeyError:
            expect(not want, 'no detector {0}', name)
            continue
        expect(want and got is want[0], 'wrong detector for {0}', name)
    match = [(n, x.v, x.c) for n, x in dets if x.m]
    rec.event('%d matching' % min(len(match), 2))
    if v['env'] is not None:
        parts = [p for p in v['env']]
        want = tuple((parts + ['', ''])[:3])
        env = {'ROS_OS_OVERRIDE': ':'.join(v['env']), 'OTHER': 'x'}
        rec.event('override %d' % len(parts))
    else:
        want = match[0] if match else None
        env = {'OTHER': 'x'}
        rec.event('detected' if match else 'no match')
    outer = v.get('outer', 'same')
    args = dict(env=env)
    if outer == 'same':
        # no environment given
        outer = env.get('ROS_OS_OVERRIDE')
        args = {}
    else:
        rec.event('other override in the environment of the process')
    saved = os.environ.pop('ROS_OS_OVERRIDE', None)
    if outer is not None:
        os.environ['ROS_OS_OVERRIDE'] = outer
    try:
        got = tuple(d.detect_os(**args))
    except od.OsNotDetected:
        got = None
    finally:
        os.environ.pop('ROS_OS_OVERRIDE', None)
        if saved is not None:
            os.environ['ROS_OS_OVERRIDE'] = saved
    expect_eq(got, want, 'detect_os')
    rec.nontrivial(want is not None)
    if want and all(want):
        expect_eq((d.get_name(), d.get_version(), d.get_codename()), want, 'detected triple')
    if v['default']:
        check_added(v['detectors'])


def check_added(detectors):
    """What is added to the default detectors of one object is not seen by others."""
    def names(d):
        have = set()
        for n in set(x[0] for x in detectors) | set(NEW) | {'opensuse', 'ubuntu', 'arch'}:
            try:
                have.add((n, type(d.get_detector(n)).__name__))
            except KeyError:
                pass
        return have

    other, d = od.OsDetect(), od.OsDetect()
    before = names(other)
    own = []
    for i, (n, m, ver, c) in enumerate(detectors):
        own.append((NEW[i % len(NEW)], Stub(m, ver, c)))
        d.add_detector(*own[-1])
    for n, x in own:
        newest = [y for k, y in own if k == n][-1]
        expect(d.get_detector(n) is newest, 'added detector {0} is not found', n)
    expect_eq(names(od.OsDetect()), before, 'default detectors')
    expect_eq(names(other), before, 'detectors of another object')

# A whole simulated system: the paths which tell OSs apart are redirected to a scratch directory,
# and the modules are imported there afresh, so that what the default detectors look at counts.

SYSTEM_FILES = ['/etc/SuSE-brand', '/etc/SuSE-release', '/etc/redhat-release', '/etc/issue',
                '/etc/arch-release', '/etc/gentoo-release', '/usr/bin/sw_vers', '/bin/uname',
                '/usr/bin/uname', '/usr/bin/cygwin1.dll']
SYSTEMS = ['opensuse', 'fedora', 'rhel', 'gentoo', 'arch', 'qnx', 'freebsd', 'osx', 'cygwin',
           'windows', 'debian', 'ubuntu', 'xubuntu', 'mint', 'none', 'other']
LSB_NAMES = {'debian': 'debian', 'ubuntu': 'Ubuntu', 'xubuntu': 'Xubuntu', 'mint': 'LinuxMint'}


@st.composite
def system_case(draw):
    kind = draw(st.sampled_from(SYSTEMS))
    if kind == 'osx':
        version = '10.%d' % draw(st.integers(4, 10)) + draw(st.sampled_from(['', '.1', '.5']))
    else:
        version = draw(numbers)
    return dict(kind=kind, version=version, code=draw(code_names), flavour=draw(st.integers(0, 5)),
                api=draw(st.sampled_from(['linux_distribution', 'dist', 'both'])),
                order=draw(st.permutations(['name', 'version', 'codename', 'detector'])),
                env=draw(st.one_of(st.none(), st.none(),
                                   st.lists(part, min_size=1, max_size=3))))


def system_examples():
    for i, kind in enumerate(SYSTEMS):
        for flavour in range(6 if kind in ('fedora', 'rhel', 'other') else 2):
            yield dict(kind=kind, version='10.9' if kind == 'osx' else '6.5', code='Bottle',
                       flavour=flavour,
                       api=['linux_distribution', 'dist', 'both'][(i + flavour) % 3],
                       order=['detector', 'codename', 'name', 'version'], env=None)


def make_system(v, root):
    """Create the files of the system; return what is to be detected."""
    kind, version, code = v['kind'], v['version'], v['code']

    for x in ('/etc', '/bin', '/usr/bin'):
        os.makedirs(root + x)

    def put(path, text, script=False):
        ctx.write(root + path, text)
        if script:
            os.chmod(root + path, 0o755)

    uname = {'qnx': 'QNX', 'freebsd': 'FreeBSD', 'cygwin': 'CYGWIN_NT-6.1', 'osx': 'Darwin'}.get(
        kind, 'Linux')
    script = '#!/bin/sh\nif [ "$1" = -r ]; then echo "%s"; else echo %s; fi\n' % (
        version if kind in ('qnx', 'freebsd', 'cygwin') else '3.2', uname)
    if kind == 'qnx':
        put('/bin/uname', script, True)
    elif kind in ('freebsd', 'osx'):
        put('/usr/bin/uname', script, True)
    elif kind != 'windows':
        put('/usr/bin/uname', script, True)
        put('/bin/uname', script, True)
    if kind in ('opensuse', 'fedora', 'rhel', 'gentoo', 'other'):
        text = release_text(kind, version, code, v['flavour'])
        put({'opensuse': '/etc/SuSE-brand', 'gentoo': '/etc/gentoo-release'}.get(
            kind, '/etc/redhat-release'), text + '\n')
        put('/etc/issue', text + '\nKernel \\r on an \\m (\\l)\n')
    if kind == 'opensuse':
        put('/etc/SuSE-release', 'openSUSE %s (x86_64)\nVERSION = %s\nCODENAME = %s\n' % (
            version, version, code))
        return version, code
    if kind in ('fedora', 'rhel'):
        return version, code.lower()
    if kind == 'arch':
        put('/etc/arch-release', ['', 'Arch Linux release\n'][v['flavour'] % 2])
        return '', ''
    if kind in ('qnx', 'freebsd', 'gentoo'):
        return version, ''
    if kind == 'cygwin':
        put('/usr/bin/cygwin1.dll', 'MZ')
        return version, ''
    if kind == 'osx':
        put('/usr/bin/sw_vers', '#!/bin/sh\n[ "$1" = -productVersion ] && echo %s\n' % version, True)
        return version, OSX_CODES[int(version.split('.')[1])]
    if kind in ('none', 'other'):
        return None
    return version, code          # Windows and the LSB systems


def enter_system(v, root):
    """Make this process see the system.  Only called in a forked child."""
    import builtins
    import io
    import subprocess
    table = {p: root + p for p in SYSTEM_FILES}

    def real(p):
        try:
            return table.get(os.fspath(p), p)
        except TypeError:
            return p

    def redirect(module, name):
        fn = getattr(module, name)
        setattr(module, name, lambda p, *a, **kw: fn(real(p), *a, **kw))

    for name in ('stat', 'lstat', 'access', 'open'):
        redirect(os, name)
    # os.path asks the system by other ways in some versions of Python
    for name in ('exists', 'lexists', 'isfile', 'isdir'):
        redirect(os.path, name)
    redirect(builtins, 'open')
    io.open = builtins.open
    popen = subprocess.Popen

    class Popen(popen):
        def __init__(self, args, *a, **kw):
            if isinstance(args, (list, tuple)) and args:
                args = [real(args[0])] + list(args[1:])
            popen.__init__(self, args, *a, **kw)
    subprocess.Popen = Popen
    os.environ['PATH'] = '%s/usr/bin:%s/bin:/usr/bin:/bin' % (root, root)
    os.environ.pop('ROS_OS_OVERRIDE', None)
    kind = v['kind']
    info = (LSB_NAMES[kind], v['version'], v['code']) if kind in LSB_NAMES else ('', '', '')
    for name in ('linux_distribution', 'dist'):
        if v['api'] in (name, 'both'):
            setattr(platform, name, lambda *a, **kw: info)
    platform.system = lambda: 'Windows' if kind == 'windows' else 'Linux'
    platform.version = lambda: v['version'] if kind == 'windows' else '#1 SMP'
    platform.release = lambda: v['code'] if kind == 'windows' else '3.2'
    for name in list(sys.modules):
        if name.startswith('xylem.os_support'):
            del sys.modules[name]


def check_system(v, rec):
    rec.event(v['kind'] + (' override' if v['env'] else ''))
    rec.nontrivial(v['kind'] != 'none')

    with ctx.TempDir() as d:
        want = make_system(v, d)
        result = os.path.join(d, 'result')
        name = v['kind'] if want else None
        triple = (name,) + want if want else None

        def attempt(fn, errors):
            try:
                return fn()
            except errors:
                return None

        def inside():
            enter_system(v, d)
            from xylem.os_support import os_detect as mod
            from xylem.os_support import OSSupport as Support
            from xylem.os_support import UnsupportedOSError as Unsupported
            out = {}
            no = mod.OsNotDetected
            got = attempt(lambda: mod.OsDetect().detect_os(env={}), no)
            out['detect_os'] = got and list(got)
            matching = []
            for n in SYSTEMS[:-2]:
                det = mod.OsDetect().get_detector(n)
                if det.is_os():
                    matching.append(n)
                    assert got is not None and (det.get_version(), det.get_codename()) == got[1:]
                else:
                    for fn in (det.get_version, det.get_codename):
                        assert attempt(lambda: [fn()], no) is None, (n, fn)
            out['matching'] = matching
            # asked for without detecting first
            det = mod.OsDetect()
            fns = dict(name=det.get_name, version=det.get_version, codename=det.get_codename,
                       detector=det.get_detector)
            for k in v['order']:
                x = attempt(fns[k], no)
                if k == 'detector':
                    x = x is not None and attempt(lambda: [x.get_version(), x.get_codename()], no)
                out[k] = x
            if v['env']:
                os.environ['ROS_OS_OVERRIDE'] = ':'.join(v['env'])
                det = mod.OsDetect()
                fns = dict(name=det.get_name, version=det.get_version, codename=det.get_codename)
                out['override'] = [[k, fns[k]()] for k in v['order'] if k in fns]
                out['override os'] = list(mod.OsDetect().detect_os())
                del os.environ['ROS_OS_OVERRIDE']
            sup = Support()
            cur = attempt(lambda: sup.current_os, Unsupported)
            out['plugin'] = cur and [cur.name, cur.get_version(), list(cur.get_tuple())]
            with open(result, 'w') as f:
                json.dump(out, f)

        code, out, err = ctx.forked(inside)
        expect_eq((code, out), (0, ''), 'detection in system %s: %s' % (v['kind'], err[-600:]))
        with open(result) as f:
            got = json.load(f)
        expect_eq(got['detect_os'], triple and list(triple), 'detect_os')
        expect_eq(got['matching'], [name] if name else [], 'matching detectors')
        for i, k in enumerate(('name', 'version', 'codename')):
            expect_eq(got[k], triple and triple[i], 'get_' + k)
        expect_eq(got['detector'], list(want) if want else False, 'get_detector()')
        if v['env']:
            over = (list(v['env']) + ['', ''])[:3]
            expect_eq(got['override os'], over, 'detect_os with ROS_OS_OVERRIDE')
            for k, x in got['override']:
                expect_eq(x, over[['name', 'version', 'codename'].index(k)],
                          'get_%s with ROS_OS_OVERRIDE' % k)
        plugin = name in BASES
        expect_eq(got['plugin'], [name, want[1], [name, want[1]]] if plugin else None,
                  'current OS')


SUBS['O03'] = [
    Sub('detectors', detector_case(), check_detector, quick=400, qshards=3,
        examples=detector_examples()),
    Sub('override', env_case(), check_env, quick=200),
    Sub('system', system_case(), check_system, quick=150, thorough=900, qshards=3,
        examples=system_examples()),
]
RULES['O03'] = ('release files and commands of 9 OSs, own, foreign or missing, with versions and '
                'code names, sets of detectors with the override variable, and whole simulated '
                'systems for the default detectors and OS plugins; non-trivial if there is a '
                'file, or something is detected or overridden')
