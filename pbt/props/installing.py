"""I05-I08: installing, with real commands confined to a scratch directory."""
import copy
import json
import os

from hypothesis import strategies as st

from .. import ctx, gen
from ..core import Sub, Violation, expect, expect_eq, quiet, short
from .resolving import Ids
from .rules import strip_colors

from xylem.config_utils import String
from xylem.exception import XylemError, XylemInternalError
from xylem.install import InstallError, install
from xylem.installers import InstallerError, InstallerPrerequisiteError
from xylem.installers.installer_base import InstallerBase
from xylem.installers.package_manager_installer import PackageManagerInstaller
from xylem.sources import RulesDatabase, SourcesContext

SUBS, RULES, LEVEL = {}, {}, {}

BIN = os.environ['PATH']
TOOL = os.path.join(BIN, 'tool')
NOEXEC = os.path.join(BIN, 'noexec')
SCRIPT = """#!/bin/sh
d=$1; i=$2; b=$3; shift 3
echo "$XELEVATED" >> "$d/elevated"
{ printf '%s|%s' "$i" "$b"; for p; do printf '|%s' "$p"; done; echo; } >> "$d/log"
case $b in
  ok) for p; do : > "$d/$i.$p"; done;;
  lie) ;;
  part) : > "$d/$i.$1";;
  fail) exit 3;;
  failtouch) for p; do : > "$d/$i.$p"; done; exit 1;;
  kill) kill -9 $$;;
  255) exit 255;;
esac
exit 0
"""
STUB = '#!/bin/sh\nexit 1\n'


def script(path, text):
    ctx.write(path, text)
    os.chmod(path, 0o755)


if not os.path.exists(TOOL):
    script(TOOL, SCRIPT)
    script(os.path.join(BIN, 'sudo'), '#!/bin/sh\nXELEVATED=sudo; export XELEVATED; exec "$@"\n')
    ctx.write(NOEXEC, 'text\n')
    os.chmod(NOEXEC, 0o644)
    os.symlink('/bin/touch', os.path.join(BIN, 'touch'))

FAILING = ['fail', 'failtouch', 'kill', '255', 'absent', 'noexec']
LYING = ['lie']
OS = ('ubuntu', 'precise')


class World(object):
    """State of the packages, and what happens to commands and plugins."""

    def __init__(self, base, behaviour=None, faults=None):
        self.dir = os.path.join(base, 'state')
        os.makedirs(self.dir)
        self.behaviour = behaviour or {}
        self.faults = faults or {}
        self.calls = []

    def path(self, installer, package):
        return os.path.join(self.dir, '%s.%s' % (installer, package))

    def installed(self, installer, package):
        return os.path.exists(self.path(installer, package))

    def put(self, installer, package):
        ctx.write(self.path(installer, package), '')

    def log(self):
        p = os.path.join(self.dir, 'log')
        if not os.path.exists(p):
            return []
        with open(p, encoding='utf-8') as f:
            return [l.split('|') for l in f.read().splitlines()]

    def elevated(self):
        """Whether each command was run with sudo."""
        p = os.path.join(self.dir, 'elevated')
        if not os.path.exists(p):
            return []
        with open(p, encoding='utf-8') as f:
            return [l == 'sudo' for l in f.read().splitlines()]

    def clear_log(self):
        p = os.path.join(self.dir, 'log')
        if os.path.exists(p):
            os.unlink(p)

    def fault(self, what, installer, arg=None):
        kind = self.faults.get('%s %s' % (what, installer))
        if not kind:
            return
        if isinstance(kind, (tuple, list)):
            kind, only = kind
            if only != arg:
                return
        if kind == 'installer error':
            raise InstallerError('injected into %s' % what)
        if kind == 'prerequisite error':
            raise InstallerPrerequisiteError('injected into %s' % what)
        raise {'value': ValueError, 'os': OSError, 'attribute': AttributeError}[kind]('injected')

    def command(self, installer, packages):
        b = [self.behaviour.get((installer, p), 'ok') for p in packages]
        b = ([x for x in b if x != 'ok'] + ['ok'])[0]
        args = [self.dir, installer, b] + packages
        if b == 'absent':
            return ['no-such-program'] + args
        if b == 'noexec':
            return [NOEXEC] + args
        return [TOOL] + args

    def commands(self, style, installer, packages, interactive=True, reinstall=False):
        if not packages or style == 'none':
            return []
        if style == 'batch':
            return [self.command(installer, packages)]
        res = [self.command(installer, [p]) for p in packages]
        if style == 'prepare':
            res.insert(0, [TOOL, self.dir, installer, 'lie', 'update'])
        if style == 'refresh':
            # the same command several times
            refresh = [TOOL, self.dir, installer, 'lie', 'refresh']
            res = [refresh] + [c for cmd in res for c in (cmd, list(refresh))]
        if style == 'repeat':
            # the same words several times in a command
            res.append([TOOL, self.dir, installer, 'lie', '-o', 'a=b', '-o', 'c=d', '-o', TOOL])
        if style == 'flags':
            res.append([TOOL, self.dir, installer, 'lie', 'ask' if interactive else '-y',
                        'again' if reinstall else 'new'])
        return res


def token(r):
    """What identifies a resolution: package and variant."""
    return r.package + ('~' + r.variant if r.variant else '')


class PM(PackageManagerInstaller):
    """Installer with commands that run in the world.

    :param pm: state of the package manager itself
    """

    def __init__(self, name, world, style='each', pm=None):
        super(PM, self).__init__('pm-' + name)
        self.options_description.items['as_root'].default = False
        self.installer_rule_description.add('variant', type=String, default='')
        self._name = name
        self.w = world
        self.style = style
        self.pm = pm or dict(present=True, fix='absent', updated='unknown', update='absent')

        # resolving a rule again gives the very same list
        self.kept = None

    @property
    def name(self):
        return self._name

    def resolve(self, installer_rule):
        if self.kept is None:
            return super(PM, self).resolve(installer_rule)
        key = repr(installer_rule)
        if key not in self.kept:
            self.kept[key] = super(PM, self).resolve(installer_rule)
        return self.kept[key]

    def filter_uninstalled(self, resolved):
        self.w.fault('filter', self._name)
        return [r for r in resolved if not self.w.installed(self._name, token(r))]

    def is_installed(self, resolved):
        packages = [token(r) for r in resolved] if isinstance(resolved, list) \
            else [token(resolved)]
        for p in packages:
            self.w.fault('check', self._name, p)
        return all(self.w.installed(self._name, p) for p in packages)

    def get_install_commands_no_root(self, resolved, interactive=True, reinstall=False):
        self.w.calls.append(('compose', self._name, interactive, reinstall))
        self.w.fault('compose', self._name)
        return self.w.commands(self.style, self._name, [token(r) for r in resolved],
                               interactive, reinstall)

    def check_install_prerequisites(self, resolved, os_tuple, fix_unsatisfied=False,
                                    interactive=True):
        self.w.calls.append(('install prerequisites', self._name, os_tuple, interactive,
                             sorted(token(r) for r in resolved)))
        self.w.fault('prerequisites', self._name)
        if fix_unsatisfied and fix_unsatisfied != 'simulate':
            self.w.calls.append(('install fix', self._name, interactive))

    def is_package_manager_installed(self):
        self.w.calls.append(('is installed', self._name))
        return self.pm['present']

    def install_package_manager(self, os_tuple, interactive=True):
        self.w.calls.append(('fix', self._name, os_tuple, interactive))
        self._attempt('fix', 'present', True)

    def is_package_manager_updated(self):
        self.w.calls.append(('is updated', self._name))
        if self.pm['updated'] == 'unknown':
            raise NotImplementedError()
        return self.pm['updated'] == 'yes'

    def update_package_manager(self, interactive=True):
        self.w.calls.append(('update', self._name, interactive))
        self._attempt('update', 'updated', 'yes')

    def _attempt(self, what, key, value):
        ctx.write(os.path.join(self.w.dir, '%s-%s' % (what, self._name)), '')
        how = self.pm[what]
        if how == 'absent':
            raise NotImplementedError()
        if how == 'error':
            raise InstallerPrerequisiteError('injected into %s' % what)
        if how == 'works':
            self.pm[key] = value


STYLES = ['each', 'batch', 'prepare', 'refresh', 'flags', 'repeat']
KNOWN = ['apt', 'pip', 'gem', 'port', 'cabal']
MARKS = ['p', "it's", 'é ', '@{r}', '{0}', '$x', '-o', '%s', '"']


# where install gets the rules from
VIA = ['database', 'database', 'context', 'both', 'config']


@st.composite
def world_case(draw, min_keys=1, bad_keys=True, styles=STYLES):
    """Keys with their installer and packages (unique tokens)."""
    keys = {}
    bases = []
    used = draw(st.one_of(st.permutations(KNOWN), st.lists(st.sampled_from(KNOWN), min_size=1,
                                                           max_size=5, unique=True)))
    for n in range(draw(st.integers(min_keys, 8))):
        if bad_keys and draw(st.integers(0, 9)) == 0:
            keys['k%d' % n] = None
        elif bases and draw(st.integers(0, 4)) == 4:
            # other variants of packages of another key
            i, ps = draw(st.sampled_from(bases))
            keys['k%d' % n] = (i, ['%s~v%d' % (p, n) for p in ps])
        else:
            m = draw(st.sampled_from(MARKS))
            keys['k%d' % n] = (draw(st.sampled_from(used)),
                               ['%s%d%d' % (m, n, i) for i in range(draw(st.integers(1, 3)))])
            bases.append(keys['k%d' % n])
    return dict(keys=keys, styles=dict((i, draw(st.sampled_from(styles))) for i in KNOWN),
                via=draw(st.sampled_from(VIA)))


def rules_of(keys):
    res = {}
    for k, v in keys.items():
        if v is not None:
            rule = {'packages': [p.split('~')[0] for p in v[1]]}
            if '~' in v[1][0]:
                rule['variant'] = v[1][0].split('~')[1]
            res[k] = {'ubuntu': {'any_version': {v[0]: rule}}}
    return res


class Setup(object):
    """Installer context and database for a case in a world."""

    def __init__(self, base, v, world, pms=None):
        self.insts = [PM(n, world, v['styles'][n], (pms or {}).get(n)) for n in KNOWN]
        via = v.get('via', 'database')
        rules = rules_of(v['keys'])
        if via == 'config':
            os.makedirs(os.path.join(base, 'sources.d'))
            ctx.write(os.path.join(base, 'rules.yaml'), json.dumps(rules))
            ctx.write(os.path.join(base, 'sources.d', '1.yaml'), json.dumps(
                [{'rules': 'file://' + os.path.join(base, 'rules.yaml')}]))
            self.cfg = ctx.config(sources_dir=os.path.join(base, 'sources.d'),
                                  cache_dir=os.path.join(base, 'cache'))
            sc = SourcesContext(self.cfg)
        else:
            self.cfg = ctx.config()
            sc = ctx.sources_context(base, [ctx.DataSpec({'r': rules})],
                                     {'1.yaml': [('data', 'r')]})
        self.ic = ctx.installer_context(OS, self.insts, ['apt', 'pip', 'port'], ['gem', 'cabal'],
                                        self.cfg)
        self.db = RulesDatabase(sc)
        self.db.load_from_source()
        self.rules = dict(database=self.db)
        if via != 'database':
            sc.ensure_cache_dir()
            self.db.save_to_cache()
            self.rules = dict(sources_context=sc) if via == 'context' else {}
            if via == 'both':
                # a context with other rules besides: the given database counts
                other = os.path.join(base, 'other')
                os.mkdir(other)
                wrong = dict((k, {'ubuntu': {'any_version': {'gem': {'packages': ['wrong']}}}})
                             for k in list(v['keys']) + ['unasked'])
                osc = ctx.sources_context(other, [ctx.DataSpec({'r': wrong})],
                                          {'1.yaml': [('data', 'r')]})
                odb = RulesDatabase(osc)
                odb.load_from_source()
                osc.ensure_cache_dir()
                odb.save_to_cache()
                self.rules = dict(database=self.db, sources_context=osc)

    def install(self, keys, **kw):
        return install(list(keys), config=self.cfg, installer_context=self.ic,
                       **dict(self.rules, **kw))


def squash(pairs):
    """[(installer, package)] -> [(installer, [packages])], consecutive ones together."""
    res = []
    for i, p in pairs:
        if not res or res[-1][0] != i:
            res.append((i, []))
        res[-1][1].append(p)
    return res


def logged(cmd):
    """Log entry of a command, None if it cannot be started."""
    return [str(a) for a in cmd[2:]] if cmd[0] == TOOL else None


# ------------------------------------------------------------------------ I05

@st.composite
def fault_case(draw):
    v = draw(world_case(styles=STYLES + ['none']))
    v['request'] = draw(st.permutations(sorted(v['keys'])))
    flat = [(x[0], p) for x in v['keys'].values() if x for p in x[1]]
    v['behaviour'], v['installed'], v['faults'] = [], [], {}
    mode = draw(st.sampled_from(['commands', 'commands', 'commands', 'plugins', 'both', 'fine']))
    for ip in flat:
        if draw(st.integers(0, 3)) == 0:
            v['installed'].append(ip)
        if mode in ('commands', 'both') and draw(st.integers(0, 2)) == 0:
            v['behaviour'].append((ip, draw(st.sampled_from(LYING * 2 + FAILING))))
    if mode in ('plugins', 'both') and flat:
        for _ in range(draw(st.integers(1, 2))):
            i, p = draw(st.sampled_from(flat))
            what = draw(st.sampled_from(['filter', 'compose', 'check', 'check', 'prerequisites']))
            err = draw(st.sampled_from(['prerequisite error']) if what == 'prerequisites' else
                       st.sampled_from(['installer error', 'installer error', 'value', 'os',
                                        'attribute', 'prerequisite error']))
            v['faults']['%s %s' % (what, i)] = (err, p) if what == 'check' else err
    v['coe'] = draw(st.booleans())
    v['reinstall'] = draw(st.integers(0, 3)) == 0
    v['options'] = draw(other_options())
    if v['options']['all_keys']:
        v['request'] = v['request'][:draw(st.integers(1, 6))]
    return v


def other_options():
    return st.fixed_dictionaries(dict(
        interactive=st.sampled_from([True, True, False]), fix_prerequisites=st.sampled_from([False, False, True]),
        all_keys=st.sampled_from([False] * 4 + [True])))


def all_requested(v):
    """The requested keys and the others if all are."""
    res = list(v['request'])
    if v['options'].get('all_keys'):
        res += [k for k in sorted(v['keys']) if v['keys'][k] and k not in res]
    return res


@st.composite
def plugin_fault_case(draw):
    """Plugins fail while there is something to do for others."""
    v = draw(world_case(min_keys=3, bad_keys=False, styles=STYLES))
    v['request'] = draw(st.permutations(sorted(v['keys'])))
    flat = [(x[0], p) for x in v['keys'].values() for p in x[1]]
    v['behaviour'], v['faults'] = [], {}
    v['installed'] = [ip for ip in flat if draw(st.integers(0, 4)) == 4]
    for _ in range(draw(st.integers(1, 3))):
        i, p = draw(st.sampled_from(flat))
        what = draw(st.sampled_from(['filter', 'filter', 'compose', 'check']))
        err = draw(st.sampled_from(['installer error'] * 5 + ['prerequisite error', 'value']))
        v['faults']['%s %s' % (what, i)] = (err, p) if what == 'check' else err
    v['coe'] = draw(st.integers(0, 5)) > 0
    v['reinstall'] = draw(st.integers(0, 7)) == 7
    v['options'] = draw(other_options())
    return v


class Internal(Exception):
    pass


class Model(object):
    """What install has to do."""

    def __init__(self, v, world, skip=False):
        self.v, self.w, self.skip = v, world, skip
        self.faults = v.get('faults', {})
        self.state = set(tuple(x) for x in v.get('installed', ()))
        self.behaviour = dict((tuple(k), b) for k, b in v.get('behaviour', ()))
        self.log = []
        self.failures = []          # texts of which one has to be mentioned
        self.alternatives = False   # a group may or may not be left out
        self.raises = None

    def error(self, what, i, arg=None):
        kind = self.faults.get('%s %s' % (what, i))
        if kind and isinstance(kind, (tuple, list)):
            kind = kind[0] if kind[1] == arg else None
        if not kind:
            return False
        if kind not in ('installer error', 'prerequisite error'):
            self.raises = XylemInternalError
            raise Internal()
        return True

    def stop(self):
        return self.failures and not self.v['coe']

    def run(self):
        try:
            self._run()
        except Internal:
            pass

    def _run(self):
        v = self.v
        self.unresolved = [k for k in v['request'] if v['keys'].get(k) is None]
        if self.unresolved and not v['coe']:
            return
        pairs = [(v['keys'][k][0], p) for k in dict.fromkeys(v['request'])
                 if v['keys'].get(k) for p in v['keys'][k][1]]
        if not v['reinstall']:
            todo = []
            for i, ps in squash(pairs):
                if self.error('filter', i):
                    self.failures.append([i])
                    # what is to be done with these is not specified
                    self.alternatives = True
                    if not self.skip:
                        todo += [(i, p) for p in ps]
                else:
                    todo += [(i, p) for p in ps if (i, p) not in self.state]
            if self.stop():
                return
            pairs = todo
        for i in dict.fromkeys(i for i, _ in pairs):
            if self.faults.get('prerequisites %s' % i):
                self.raises = InstallerPrerequisiteError
                raise Internal()
        for i, ps in squash(pairs):
            self.group(i, ps)
            if self.stop():
                return

    def group(self, i, ps):
        v = self.v
        if self.error('compose', i):
            self.failures.append([i])
            return
        for cmd in self.w.commands(v['styles'][i], i, ps, v['options']['interactive'],
                                   v['reinstall']):
            entry = logged(cmd)
            b = cmd[4] if entry is None else entry[1]
            args = cmd[4:] if entry is None else entry[2:]
            if entry is not None:
                self.log.append(entry)
            if b in ('ok', 'failtouch'):
                self.state.update((i, p) for p in args if p != 'update')
            if b in FAILING or entry is None:
                self.failures.append(args)
                if self.stop():
                    return
        for p in ps:
            if self.error('check', i, p):
                self.failures.append([p])
            elif (i, p) not in self.state:
                self.failures.append([p])


def texts(errors):
    from xylem.exception import exc_to_str
    return [exc_to_str(e) for e in errors]


def check_faults(v, rec):
    with ctx.TempDir() as base:
        w = World(base, dict((tuple(k), b) for k, b in v['behaviour']), v['faults'])
        for i, p in v['installed']:
            w.put(i, p)
        s = Setup(base, v, w)
        raised, res = None, None
        with quiet() as (out, err):
            try:
                res = s.install(v['request'], continue_on_error=v['coe'],
                                reinstall=v['reinstall'], **v['options'])
            except XylemError as e:
                raised = e
        v['request'] = all_requested(v)
        rec.event('continue' if v['coe'] else 'stop')
        m = Model(v, w)
        m.run()
        if m.alternatives:
            rec.event('filter fault')
            skipping = Model(v, w, skip=True)
            skipping.run()
            try:
                return compare_faults(v, rec, w, skipping, raised, res)
            except Violation:
                pass
        compare_faults(v, rec, w, m, raised, res)


def compare_faults(v, rec, w, m, raised, res):
    expect_eq(w.log(), m.log, 'executed commands')
    if m.raises:
        rec.event('raises %s' % m.raises.__name__)
        rec.nontrivial()
        expect(isinstance(raised, m.raises), 'expected {0}, got {1!r}', m.raises, raised or res)
        return
    expect(raised is None, 'raised {0!r}', raised)
    resolve_errors, errors = res
    expect_eq([k for k, _ in resolve_errors], m.unresolved, 'unresolvable keys')
    for _, e in resolve_errors:
        expect(isinstance(e, XylemError), 'resolve error {0!r}', e)
    for e in errors:
        expect(isinstance(e, InstallError), 'install error {0!r}', e)
    found = texts(errors)
    expect_eq(bool(errors), bool(m.failures), 'errors %s, expected for %s; errors' % (
        short(found), short(m.failures)))
    for names in m.failures:
        expect(any(n.split('~')[0] in t for n in names for t in found),
               'no error mentions any of {0}: {1}', names, found)
    if v['coe']:
        expect(len(errors) >= len(m.failures), 'only {0} errors for {1}: {2}', len(errors),
               m.failures, found)
    if not errors and not resolve_errors:
        for k in v['request']:
            i, ps = v['keys'][k]
            for p in ps:
                expect(w.installed(i, p), 'success, but {0} is not installed', p)
    rec.event('%s failures' % ('no' if not m.failures else '1' if len(m.failures) == 1
                               else 'several'))
    if m.unresolved:
        rec.event('unresolved key')
    rec.nontrivial(bool(m.failures))


SUBS['I05'] = [Sub('faults', fault_case(), check_faults, quick=1000, qshards=6),
               Sub('plugin faults', plugin_fault_case(), check_faults, quick=300, qshards=4)]
RULES['I05'] = ('installs of up to 6 keys over 3 installers of different styles where commands fail, '
                'lie, cannot be started or are killed, and plugins raise; non-trivial if something '
                'fails')


# ------------------------------------------------------------------------ I06

PM_STATES = dict(present=[True, True, True, False], fix=['works', 'works', 'absent', 'nothing'],
                 updated=['unknown', 'yes', 'no'], update=['works', 'absent', 'nothing'])


@st.composite
def pm_state(draw):
    return dict((k, draw(st.sampled_from(x))) for k, x in sorted(PM_STATES.items()))


@st.composite
def simulate_case(draw):
    v = draw(world_case())
    v['request'] = draw(st.permutations(sorted(v['keys'])))
    flat = [(x[0], p) for x in v['keys'].values() if x for p in x[1]]
    v['installed'] = [ip for ip in flat if draw(st.integers(0, 2)) == 0]
    v['pms'] = dict((n, draw(pm_state())) for n in KNOWN)
    v['options'] = dict((k, draw(st.booleans())) for k in (
        'reinstall', 'continue_on_error', 'fix_prerequisites', 'interactive', 'all_keys'))
    if v['options']['all_keys']:
        v['request'] = v['request'][:draw(st.integers(1, 6))]
    v['user'] = draw(st.sampled_from([0, 1000]))
    v['roots'] = [n for n in KNOWN if draw(st.booleans())]
    v['faults'] = {}
    return v


@st.composite
def simulate_fault_case(draw):
    """Plugins fail while there is something to do for others."""
    v = draw(plugin_fault_case())
    v['faults'] = dict((k, 'installer error') for k in v['faults'] if not k.startswith('check'))
    v['pms'] = dict((n, dict((k, x[0]) for k, x in PM_STATES.items())) for n in KNOWN)
    v['options'] = dict(reinstall=v.pop('reinstall'), continue_on_error=draw(st.booleans()),
                        fix_prerequisites=draw(st.booleans()), interactive=draw(st.booleans()),
                        all_keys=draw(st.booleans()))
    v['user'], v['roots'] = 0, []
    return v


def run_install(base, v, simulate):
    w = World(base, {}, v.get('faults', {}))
    for i, p in v['installed']:
        w.put(i, p)
    s = Setup(base, v, w, copy.deepcopy(v['pms']))
    for inst in s.insts:
        inst.options = {'as_root': inst.name in v['roots']}
    before = ctx.snapshot(base)
    res, raised = None, None
    with quiet() as (out, err):
        try:
            with Ids(v['user'], 'same'):
                res = s.install(v['request'], simulate=simulate, **v['options'])
        except InstallerPrerequisiteError as e:
            raised = e
    return w, before, res, raised, strip_colors(out.getvalue())


def printed_commands(out, w):
    """The lines of the output that are commands."""
    return [l.strip() for l in out.splitlines() if TOOL in l]


def check_simulate(v, rec):
    with ctx.TempDir() as base:
        w, before, res, raised, out = run_install(base, v, True)
        expect_eq(w.log(), [], 'executed commands')
        expect_eq(ctx.snapshot(base), before, 'files after dry-run')
        changes = [c for c in w.calls if c[0] in ('fix', 'update', 'install fix')]
        expect_eq(changes, [], 'fixed prerequisites')
        lines = printed_commands(out, w)
        dir1 = w.dir
    with ctx.TempDir() as base:
        w, _, real, real_raised, _ = run_install(base, v, False)
        if raised is not None:
            rec.event('prerequisite error')
            expect(real_raised is not None, 'dry-run failed, but not the real run: {0}', raised)
            expect_eq(lines, [], 'commands printed without prerequisites')
            return
        if real_raised is not None:
            # whether the fix would work cannot be known
            rec.event('fix does not work')
            expect(v['options']['fix_prerequisites'], 'dry-run hides {0!r}', real_raised)
            return
        expect_eq([k for k, _ in res[0]], [k for k, _ in real[0]], 'resolve errors')
        if v['faults']:
            rec.event('plugin faults')
            expect_eq(bool(res[1]), bool(real[1]), 'errors of the dry-run %s, of the real run %s; any' % (
                texts(res[1]), texts(real[1])))
        else:
            expect_eq((len(res[1]), len(real[1])), (0, 0), 'errors of dry-run and real run')
        want = [' '.join(['sudo'] * root + [TOOL, dir1] + entry)
                for entry, root in zip(w.log(), w.elevated())]
        expect_eq(lines, want, 'printed commands')
        if any(w.elevated()):
            rec.event('with sudo')
        rec.event('commands' if want else 'no commands')
        if [c for c in w.calls if c[0] in ('fix', 'update')]:
            rec.event('real run fixes prerequisites')
        rec.nontrivial(len(want) >= 2)


@st.composite
def fake_simulate_case(draw):
    pkgs = draw(st.lists(st.sampled_from(['p', 'q', 'r s', 'é', "it's"]), min_size=1, max_size=4,
                         unique=True))
    return dict(packages=pkgs, installed=[p for p in pkgs if draw(st.booleans())],
                dir=draw(st.sampled_from(['present', 'present', 'absent', 'deep'])),
                options=dict((k, draw(st.booleans())) for k in (
                    'reinstall', 'continue_on_error', 'fix_prerequisites', 'interactive',
                    'all_keys')))


def fake_setup(base, v, sub):
    from xylem.installers.plugins.fake import FakeInstaller
    d = os.path.join(base, sub, 'a', 'b') if v['dir'] == 'deep' else os.path.join(base, sub)
    if v['dir'] == 'present':
        os.makedirs(d)
        for p in v['installed']:
            ctx.write(os.path.join(d, p), '')
            os.utime(os.path.join(d, p), (1, 1))
    inst = FakeInstaller()
    inst.options = {'install_dir': d}
    cfg = ctx.config()
    ic = ctx.installer_context(OS, [inst], ['fake'], [], cfg)
    table = {'r': {'k': {'ubuntu': {'any_version': {'fake': {'packages': v['packages']}}}}}}
    sc = ctx.sources_context(base, [ctx.DataSpec(table)], {'1.yaml': [('data', 'r')]})
    db = RulesDatabase(sc)
    db.load_from_source()
    return d, lambda **kw: install(['k'], config=cfg, database=db, installer_context=ic, **kw)


def check_fake_simulate(v, rec):
    present = v['dir'] == 'present'
    fix = v['options']['fix_prerequisites']
    rec.event('directory %s%s' % (v['dir'], ', fix' if fix else ''))
    with ctx.TempDir() as base:
        d, run = fake_setup(base, v, 'fake')
        before = ctx.snapshot(base)
        with quiet() as (out, _):
            try:
                res = run(simulate=True, **v['options'])
                expect(present or fix, 'no error about missing package manager')
                expect_eq(res, ([], []), 'errors')
            except InstallerPrerequisiteError:
                expect(not (present or fix), 'error despite satisfied prerequisites')
                res = None
        expect_eq(ctx.snapshot(base), before, 'files after dry-run')
        todo = [p for p in v['packages']
                if not (present and p in v['installed']) or v['options']['reinstall']]
        lines = [l.strip() for l in strip_colors(out.getvalue()).splitlines() if 'touch ' in l]
        expect_eq(lines, ['touch ' + os.path.join(d, p) for p in todo] if res else [],
                  'printed commands')
        with quiet() as (out, _):
            try:
                res = run(simulate=False, **v['options'])
                expect(present or fix, 'no error about missing package manager')
                expect_eq(res, ([], []), 'errors')
            except InstallerPrerequisiteError:
                expect(not (present or fix), 'error despite satisfied prerequisites')
                expect_eq(ctx.snapshot(base), before, 'files after prerequisite error')
                return
        expect_eq(sorted(os.listdir(d)), sorted(v['packages']), 'installed packages')
        for p in v['packages']:
            expect_eq(os.stat(os.path.join(d, p)).st_mtime != 1, p in todo, 'touched %s' % p)
        rec.nontrivial(bool(todo))


SUBS['I06'] = [
    Sub('simulate', simulate_case(), check_simulate, quick=600, qshards=4),
    Sub('plugin faults', simulate_fault_case(), check_simulate, quick=200, qshards=4),
    Sub('fake', fake_simulate_case(), check_fake_simulate, quick=200, qshards=2),
]
RULES['I06'] = ('dry-runs compared with the following real run, over 3 installers with missing or '
                'outdated package managers and all options, and for the fake installer; '
                'non-trivial if at least two commands are to be run (one for the fake installer)')


# ------------------------------------------------------------------------ I07

@st.composite
def history_case(draw):
    v = draw(world_case(min_keys=2, bad_keys=False))
    flat = [(x[0], p) for x in v['keys'].values() for p in x[1]]
    v['installed'] = [ip for ip in flat if draw(st.integers(0, 2)) == 0]
    v['steps'] = []
    v['kept'] = draw(st.booleans())
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            v['steps'].append(('remove', draw(st.sampled_from(flat))))
        else:
            v['steps'].append(('install', dict(
                keys=draw(st.lists(st.sampled_from(sorted(v['keys'])), min_size=1, max_size=6)),
                all_keys=draw(st.integers(0, 4)) == 0, coe=draw(st.booleans()),
                reinstall=draw(st.integers(0, 3)) == 0, interactive=draw(st.booleans()),
                fix=draw(st.integers(0, 3)) == 3)))
    return v


def check_history(v, rec):
    with ctx.TempDir() as base:
        w = World(base)
        state = set(tuple(x) for x in v['installed'])
        for i, p in state:
            w.put(i, p)
        s = Setup(base, v, w)
        if v['kept']:
            for i in s.insts:
                i.kept = {}
        total = 0
        for kind, arg in v['steps']:
            if kind == 'remove':
                if tuple(arg) in state:
                    os.unlink(w.path(*arg))
                    state.discard(tuple(arg))
                continue
            keys = list(dict.fromkeys(
                arg['keys'] + (sorted(v['keys']) if arg['all_keys'] else [])))
            pairs = [(v['keys'][k][0], p) for k in keys for p in v['keys'][k][1]]
            if not arg['reinstall']:
                pairs = [ip for ip in pairs if ip not in state]
            want = []
            for i, ps in squash(pairs):
                want += [logged(c) for c in w.commands(v['styles'][i], i, ps,
                                                       arg['interactive'], arg['reinstall'])]
            w.clear_log()
            del w.calls[:]
            kw = dict(all_keys=arg['all_keys'], continue_on_error=arg['coe'],
                      interactive=arg['interactive'], fix_prerequisites=arg['fix'])
            with quiet():
                res = s.install(arg['keys'], reinstall=arg['reinstall'], **kw)
            expect_eq(res, ([], []), 'errors')
            expect_eq(w.log(), want, 'executed commands')
            for c in w.calls:
                if c[0] == 'compose':
                    expect_eq(c[2:], (arg['interactive'], arg['reinstall']),
                              'interactive and reinstall')
            state.update(pairs)
            for i, p in state:
                expect(w.installed(i, p), '{0} not installed', p)
            w.clear_log()
            with quiet():
                res = s.install(arg['keys'], **kw)
            expect_eq(res, ([], []), 'errors of the second run')
            expect_eq(w.log(), [], 'commands executed by the second run')
            total += len(want)
            rec.event('reinstall' if arg['reinstall'] else
                      'nothing to do' if not pairs else 'install')
            if len(squash(pairs)) >= 3:
                rec.event('interleaved installers')
        rec.nontrivial(total >= 3)


FREEZE = ['foo==1.0', 'bar==2', 'foo-bar==0.1.dev3', 'baz2==1.0', 'x==1==2', 'q', 'é==3',
          'Django==1.4', 'ruamel.yaml==0.1', 'zope.Interface_x==5', 'a__b==1',
          # a remark of pip's, and an option: none of their words is a package
          '## FIXME: could not find svn URL in dependency_links for baz or package', '-f file',
          'local @ file:///src/local-1.0.whl', 'Foo_Web @ git+https://x.org/a@b==1#egg=y',
          '-e git+https://x.org/none@3f2==a#egg=ed_x', '-e svn+http://x.org/q/x@2#egg=Ed.Y&subdirectory=none',
          '-e git+ssh://x@y/z#subdirectory=fo&egg=edz',
          '# Editable install with no version control (ed-q==1.0)\n-e /src/none',
          '# Editable Git install with no remote (Ed_R==2.0)\n-e /src/q']
# the names that come otherwise than in front of == or @
EDITABLE = {FREEZE[-5]: 'ed_x', FREEZE[-4]: 'Ed.Y', FREEZE[-3]: 'edz', FREEZE[-2]: 'ed-q', FREEZE[-1]: 'Ed_R'}
PIP_NAMES = ['foo', 'bar', 'foo-bar', 'fo', 'baz', 'x', 'q', 'é', 'oo', 'foo-x', 'none', 'Foo',
             'foo_bar', 'FOO.Bar', 'foobar', 'django', 'Django', 'ruamel_yaml', 'ruamel-yaml',
             'ruamelyaml', 'zope.interface-X', 'a-b', 'a.-_b', 'ab', 'local', 'foo-web', 'fooweb',
             'Q', 'file', 'foo--bar', 'svn', 'package', 'ed-x', 'ed.y', 'EDZ', 'edz', 'ed-q', 'ed-r', 'Ed_R']


def pip_name(name):
    """The name as pip compares it: case does not count, and runs of -_. are one separator."""
    parts, cur = [], ''
    for c in name.lower():
        if c in '-_.':
            if cur or not parts:
                parts.append(cur)
            cur = ''
        else:
            cur += c
    return tuple(parts + [cur])


@st.composite
def pip_case(draw):
    return dict(freezes=draw(st.lists(st.lists(st.sampled_from(FREEZE), unique=True, max_size=6),
                                      min_size=1, max_size=3)),
                end=draw(st.booleans()),
                packages=draw(st.lists(st.sampled_from(PIP_NAMES), max_size=6)))


def check_pip(v, rec):
    from xylem.installers.plugins.pip import PipInstaller
    inst = PipInstaller()
    pip = os.path.join(BIN, 'pip')
    try:
        for freeze in v['freezes']:
            text = '\n'.join(freeze) + ('\n' if freeze and v['end'] else '')
            # like pip itself, answers `freeze` only
            script(pip, "#!/bin/sh\n[ \"$*\" = freeze ] || exit 1\nprintf '%s' '" + text + "'\n")
            # foo==1.0 or foo @ url: the name ends at the first such separator
            have = set(pip_name(EDITABLE.get(line) or line.split(' @ ')[0].split('==')[0])
                       for line in freeze)
            items = inst.resolve({'packages': list(v['packages'])})
            got = inst.filter_uninstalled(items)
            expect_eq([r.package for r in got],
                      [p for p in v['packages'] if pip_name(p) not in have],
                      'uninstalled packages')
            for i in items:
                expect_eq(inst.is_installed(i), pip_name(i.package) in have,
                          'is_installed of %s' % i.package)
            expect_eq(inst.is_installed(items), all(pip_name(p) in have for p in v['packages']),
                      'is_installed of all')
            rec.nontrivial(0 < len(got) < len(items))
            rec.event('some missing' if got else 'none missing')
    finally:
        os.unlink(pip)


SUBS['I07'] = [
    Sub('history', history_case(), check_history, quick=500, qshards=6),
    Sub('pip', pip_case(), check_pip, quick=300, qshards=2),
]
RULES['I07'] = ('histories of installs and removals of up to 6 keys over 3 installers of different '
                'styles, each install being repeated, and outputs of pip freeze; non-trivial if at '
                'least three commands ran (some packages missing for pip)')


# ------------------------------------------------------------------------ I08

@st.composite
def prerequisite_stage(draw, keys):
    return dict(
        request=draw(st.permutations(sorted(keys)))[:draw(st.integers(1, 8))],
        pms=dict((n, dict(
            present=draw(st.sampled_from([True, True, False])),
            fix=draw(st.sampled_from(['works', 'works', 'absent', 'nothing', 'error'])),
            updated=draw(st.sampled_from(['unknown', 'yes', 'no', 'no'])),
            update=draw(st.sampled_from(['works', 'absent', 'nothing'])))) for n in KNOWN),
        fix=draw(st.booleans()), simulate=draw(st.integers(0, 3)) == 0,
        interactive=draw(st.booleans()), coe=draw(st.booleans()),
        reinstall=draw(st.integers(0, 2)) == 2, all_keys=draw(st.integers(0, 4)) == 4)


@st.composite
def prerequisite_case(draw):
    """Installs one after the other; the package managers change in between."""
    v = draw(world_case())
    flat = [(x[0], p) for x in v['keys'].values() if x for p in x[1]]
    v['installed'] = [ip for ip in flat if draw(st.integers(0, 2)) == 0]
    v['stages'] = [draw(prerequisite_stage(v['keys']))
                   for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    return v


def check_prerequisites(v, rec):
    with ctx.TempDir() as base:
        w = World(base)
        for i, p in v['installed']:
            w.put(i, p)
        pms = dict((n, {}) for n in KNOWN)
        s = None
        state = set(tuple(x) for x in v['installed'])
        for n, stage in enumerate(v['stages']):
            for name in KNOWN:
                pms[name].clear()
                pms[name].update(stage['pms'][name])
            s = s or Setup(base, v, w, pms)
            w.clear_log()
            del w.calls[:]
            prerequisite_step(v['keys'], v['styles'], stage, s, w, state, rec)
        if n:
            rec.event('several installs')


def prerequisite_step(keys, styles, v, s, w, state, rec):
    raised = None
    with quiet() as (out, err):
        try:
            res = s.install(v['request'], fix_prerequisites=v['fix'], simulate=v['simulate'],
                            interactive=v['interactive'], continue_on_error=v['coe'],
                            reinstall=v['reinstall'], all_keys=v['all_keys'])
        except InstallerPrerequisiteError as e:
            raised = e
    stderr = strip_colors(err.getvalue())
    request = v['request'] + [k for k in sorted(keys) if v['all_keys'] and keys[k] and
                              k not in v['request']]
    unresolved = [k for k in request if keys[k] is None]
    needed = list(dict.fromkeys(keys[k][0] for k in request if keys[k]))
    if unresolved and not v['coe']:
        rec.event('unresolved key')
        expect(raised is None and res[0], 'unresolvable key not reported: {0!r}', raised)
        expect_eq(w.log(), [], 'executed commands')
        return
    fix = v['fix'] and not v['simulate']
    missing = [n for n in needed if not v['pms'][n]['present'] and not (
        v['fix'] and v['simulate'] or fix and v['pms'][n]['fix'] == 'works')]
    checked = set(c[1] for c in w.calls if c[0] in ('is installed', 'is updated', 'fix',
                                                    'update'))
    expect(checked <= set(needed), 'prerequisites of {0} checked, needed are {1}',
           sorted(checked), needed)
    for c in w.calls:
        if c[0] == 'fix':
            expect_eq(c[2:], (OS, v['interactive']), 'arguments of fixing')
        elif c[0] == 'update':
            expect_eq(c[2:], (v['interactive'],), 'arguments of updating')
    tried = [c[1] for c in w.calls if c[0] == 'fix']
    updates = [c[1] for c in w.calls if c[0] == 'update']
    if not fix:
        expect_eq(tried + updates, [], 'attempted fixes')
    expect_eq([n for n in tried if v['pms'][n]['present']], [], 'fixes of what is present')
    expect_eq([n for n in updates if v['pms'][n]['updated'] != 'no'], [],
              'updates of what is updated')
    if missing:
        rec.event('missing%s' % (', fix requested' if v['fix'] else ''))
        rec.nontrivial(len(needed) >= 2)
        expect(raised is not None, 'no prerequisite error for missing {0}', missing)
        expect_eq(w.log(), [], 'executed commands')
        return
    if raised is not None:
        raise raised
    for n in needed:
        pm = v['pms'][n]
        if not pm['present'] and fix:
            expect_eq(tried.count(n), 1, 'attempts to fix %s' % n)
            rec.event('fixed')
        outdated = pm['updated'] == 'no'
        if fix:
            expect_eq(updates.count(n), 1 if outdated else 0, 'attempts to update %s' % n)
        warned = [l for l in stderr.splitlines() if n in l and 'out-of-date' in l]
        if outdated and not (fix and pm['update'] == 'works'):
            if not (v['simulate'] and v['fix']):
                rec.event('warning')
                expect(warned, 'no warning about outdated {0}: {1}', n, stderr)
        else:
            expect(not warned, 'wrong warning about {0}: {1}', n, stderr)
    want = []
    pairs = [(keys[k][0], p) for k in request if keys[k]
             for p in keys[k][1]]
    todo = [ip for ip in pairs if v['reinstall'] or ip not in state]
    for i, ps in squash(todo):
        want += [logged(c) for c in w.commands(styles[i], i, ps, v['interactive'],
                                               v['reinstall'])]
    expect_eq(w.log(), [] if v['simulate'] else want, 'executed commands')
    expect_eq(res[1], [], 'install errors')
    # prerequisites of the packages
    if not v['simulate']:
        asked = set((c[1], p) for c in w.calls if c[0] == 'install prerequisites' for p in c[4])
        expect(asked >= set(todo), 'checked the prerequisites of {0} only, to be installed are {1}',
               sorted(asked), todo)
        expect(asked <= set(pairs), 'prerequisites of {0} checked, requested are {1}',
               sorted(asked), pairs)
    fixed = set(c[1:] for c in w.calls if c[0] == 'install fix')
    todo = set(ip[0] for ip in todo)
    if fix:
        expect(set((i, v['interactive']) for i in todo) <= fixed and set(i for i, _ in fixed) <= set(needed),
               'fixes of prerequisites of packages: {0}, needed for {1}', sorted(fixed), sorted(todo))
    else:
        expect_eq(fixed, set(), 'fixed prerequisites of packages')
    if not v['simulate']:
        state.update(pairs)
    rec.event('satisfied')
    rec.nontrivial(bool(tried or updates))


EXECUTABLES = {'apt': 'apt-get', 'pip': 'pip', 'homebrew': 'brew', 'macports': 'port'}


@st.composite
def builtin_prereq_case(draw):
    return dict(name=draw(st.sampled_from(sorted(EXECUTABLES) + ['fake'])),
                steps=draw(st.lists(st.fixed_dictionaries(dict(
                    present=st.sampled_from(['yes', 'yes', 'no', 'not executable', 'directory']),
                    fix=st.sampled_from([True, False, 'simulate']), interactive=st.booleans())),
                    min_size=1, max_size=3)))


def builtin_prereq_examples():
    kinds = ['yes', 'no', 'not executable', 'directory']
    for name in sorted(EXECUTABLES) + ['fake']:
        for first in kinds:
            for second in kinds:
                for fix in (True, False, 'simulate'):
                    yield dict(name=name, steps=[dict(present=first, fix=False, interactive=True),
                                                 dict(present=second, fix=fix, interactive=False)])


def check_builtin_prereq(v, rec):
    from .resolving import builtin
    inst = builtin(v['name'])
    for step in v['steps']:
        builtin_prereq_step(inst, v['name'], step, rec)
        rec.nontrivial(step['present'] != 'yes')
        rec.event('%s %s' % (v['name'], step['present']))


def builtin_prereq_step(inst, name, v, rec):
    ok = v['present'] == 'yes'
    with ctx.TempDir() as base:
        if name == 'fake':
            path = os.path.join(base, 'sub', 'fake')
            inst.options = {'install_dir': path}
            if ok:
                os.makedirs(path)
            elif v['present'] != 'no':
                os.makedirs(os.path.dirname(path))
                ctx.write(path, '')
            fixable = v['present'] == 'no'
        else:
            path = os.path.join(BIN, EXECUTABLES[name])
            if ok:
                script(path, STUB)
            elif v['present'] == 'not executable':
                ctx.write(path, STUB)
            elif v['present'] == 'directory':
                os.mkdir(path)
            fixable = False
        try:
            error = None
            before = ctx.snapshot(base)
            with quiet():
                try:
                    inst.check_general_prerequisites(OS, v['fix'], v['interactive'])
                except InstallerPrerequisiteError as e:
                    error = e
            if v['fix'] == 'simulate':
                expect(error is None, 'simulated fix failed: {0!r}', error)
                expect_eq(ctx.snapshot(base), before, 'files after simulated fix')
            elif ok or fixable and v['fix']:
                expect(error is None, 'prerequisites not satisfied: {0!r}', error)
            else:
                expect(error is not None, 'no prerequisite error')
                expect_eq(ctx.snapshot(base), before, 'files after error')
            expect_eq(inst.is_package_manager_installed(),
                      ok or fixable and v['fix'] is True, 'is_package_manager_installed')
            with quiet():
                inst.check_install_prerequisites(inst.resolve({'packages': ['p']}), OS,
                                                 v['fix'], v['interactive'])
        finally:
            if name != 'fake' and os.path.exists(path):
                if os.path.isdir(path):
                    os.rmdir(path)
                else:
                    os.unlink(path)


SUBS['I08'] = [
    Sub('states', prerequisite_case(), check_prerequisites, quick=700, qshards=4),
    Sub('builtin', builtin_prereq_case(), check_builtin_prereq, quick=100, thorough=400,
        shards=2, examples=builtin_prereq_examples()),
]
RULES['I08'] = ('installs with 3 package managers that are missing, fixable, outdated or updatable '
                'in any combination, and the built-in plugins with and without their program; '
                'non-trivial if something is missing, fixed or updated')
