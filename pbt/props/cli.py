"""X01: the command line tool, end to end."""
import copy
import json
import os

import pkg_resources
import yaml
from hypothesis import strategies as st

from .. import ctx, env, gen, ref
from ..core import Sub, expect, expect_eq, fail, is_known, short
from .config import Environ, clear_dirs, user_dir
from .installing import BIN  # noqa: puts `touch` on the path
from .rules import strip_colors

SUBS, RULES, LEVEL = {}, {}, {}

INSTALLERS = ['fake', 'apt', 'pip', 'homebrew', 'macports', 'yum']
LOADED = ['apt', 'fake', 'homebrew', 'macports', 'pip']
REAL_CORE = {'ubuntu': ['apt'], 'debian': ['apt'], 'xubuntu': ['apt'],
             'osx': ['homebrew', 'pip', 'gem']}
KEYS = ['foo', 'bar', 'libc++', 'python3-x', 'a.b_c']
PACKAGES = ['p', 'q', 'libfoo-dev', 's s', 'é', '1', 'true', '-x', "it's", '@{r}', 'x{0}y', '[a]', '@!b', '%s']
FAILING = 'no/such'   # touch fails for this package
BROKEN = ['[1, 2]', 'foo: {', 'foo: {ubuntu: {precise: {apt: {depends: 3}}}}\n',
          'any_os: [x]\n', 'a b: {ubuntu: x}\n']


@st.composite
def rule(draw):
    k = draw(st.integers(0, 15))
    if k == 15:
        return {'packages': [3]}          # valid rules dict, but no installer takes it
    res = {'packages': draw(st.lists(st.sampled_from(PACKAGES * 2 + [FAILING]), max_size=3,
                                     min_size=0 if k == 14 else 1))}
    if k == 13:
        res['depends'] = ['foo']
    return res


@st.composite
def rules(draw, os_tuple):
    res = {}
    for key in draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=5,
                             min_size=draw(st.sampled_from([2, 3, 0])))):
        osd = {}
        for o in draw(st.lists(st.sampled_from(['any_os', os_tuple[0], os_tuple[0], 'fedora']),
                               unique=True, min_size=1)):
            if o == 'any_os':
                osd[o] = {'any_version': draw(st.dictionaries(
                    st.sampled_from(INSTALLERS), rule(), min_size=1, max_size=2))}
                continue
            versions = ['any_version', os_tuple[1], '99'] if o != 'fedora' else ['21', 'any_version']
            names = ['fake'] * 4 + INSTALLERS + ['default_installer'] * 2
            osd[o] = {}
            for ver in draw(st.lists(st.sampled_from(versions), unique=True, min_size=1, max_size=2)):
                idict = draw(st.dictionaries(st.sampled_from(names), rule(), min_size=1, max_size=2))
                if 'default_installer' in idict:
                    idict.pop(gen.BUILTIN_DEFAULTS.get(o, 'yum'), None)
                osd[o][ver] = idict
        res[key] = osd
    return res


@st.composite
def history(draw):
    os_tuple = draw(st.sampled_from([('ubuntu', 'precise')] * 3 + ctx.OS_TUPLES))
    n = draw(st.integers(1, 3))
    settings = {}
    k = draw(st.integers(0, 7))
    if k <= 5:
        settings['core_installers'] = ['fake'] * (k <= 4) + draw(st.lists(
            st.sampled_from([x for x in LOADED if k == 5 or x != 'fake']), unique=True, max_size=2))
    if draw(st.integers(0, 3)) == 3:
        settings['use_additional_installers'] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 2:
        settings['install_from'] = {}
        for k in draw(st.lists(st.sampled_from(KEYS), unique=True, min_size=1, max_size=2)):
            settings['install_from'].setdefault(
                draw(st.sampled_from(['fake', 'fake', 'pip', 'nix'])), []).append(k)
    steps = [('edit', i, draw(rules(os_tuple))) for i in range(n)]
    early = draw(st.integers(0, 5)) == 5
    if early:
        steps.append(('resolve', ['foo'], []))
    steps.append(('update', []))
    for _ in range(draw(st.integers(4, 8))):
        k = draw(st.integers(0, 10))
        if k >= 9:
            i = draw(st.integers(0, n - 1))
            steps.append(('edit', i, draw(st.one_of(
                rules(os_tuple), rules(os_tuple), rules(os_tuple), st.sampled_from(BROKEN), st.none()))))
            if draw(st.integers(0, 2)):
                steps.append(('update', draw(st.sampled_from([[], [], ['--dry-run']]))))
            continue
        if k == 8:
            steps.append(('update', draw(st.sampled_from([[], ['-n']]))))
            continue
        known = [x for s in steps if s[0] == 'edit' and isinstance(s[2], dict) for x in s[2]]
        keys = draw(st.lists(st.sampled_from((known or KEYS) * 3 + ['unknown']), min_size=1,
                             max_size=4))
        if k in (4, 5):
            steps.append(('resolve', keys, draw(st.lists(st.sampled_from(
                ['--all', '--show-default-installer']), unique=True))))
        elif k in (6, 7):
            steps.append(('lookup', keys, []))
        else:
            steps.append(('install', keys, [f for f, n in (
                ('--continue-on-error', 2), ('--reinstall', 3), ('--fix-prerequisites', 3),
                ('--dry-run', 4), ('--all', 5)) if draw(st.integers(1, n)) == n]))
    return dict(os=os_tuple, layout=[draw(st.sampled_from(['1.yaml', '2.yaml'])) for _ in range(n)],
                settings=settings, where=draw(st.sampled_from(['file', 'cli', 'user file'])),
                place=draw(st.sampled_from(['dir option', 'dir env', 'options', 'prefix'])),
                fake_dir=draw(st.integers(0, 3)) != 3, steps=steps,
                standalone=draw(st.integers(0, 5)) == 5,
                verbose=draw(st.integers(0, 3)) == 3, no_color=draw(st.booleans()),
                noisy=draw(st.booleans()))


@st.composite
def interrupted_history(draw):
    v = draw(history())
    calls = st.one_of(st.integers(1, 20), st.integers(1, 150), st.integers(1, 1500))
    v['interrupts'] = draw(st.lists(calls, min_size=len(v['steps']), max_size=len(v['steps'])))
    return v


class Interrupt(object):
    """Interrupts the command at its n-th call of a function of xylem."""

    STARTS = tuple(os.path.join('xylem', f) for f in (
        'update.py', 'resolve.py', 'lookup.py', 'install.py', os.path.join('installers', 'impl.py')))

    def __init__(self, n):
        self.n = n
        self.started = False
        self.raised = None

    def install(self, command):
        import sys
        top = os.path.join('xylem', 'commands', command + '.py')
        root = os.path.join(env.REPO, 'xylem') + os.sep

        def profile(frame, event, arg):
            name = frame.f_code.co_filename
            if event != 'call' or self.raised or not name.startswith(root):
                return
            inside = frame.f_back
            while inside and not (inside.f_code.co_name == 'main' and
                                  inside.f_code.co_filename.endswith(top)):
                inside = inside.f_back
            if not inside:
                return
            self.started = self.started or name.endswith(self.STARTS)
            if self.started:
                self.n -= 1
                if self.n == 0:
                    self.raised = '%s:%d' % (name[len(root):], frame.f_lineno)
                    raise KeyboardInterrupt()
        sys.setprofile(profile)


class Tool(object):
    """The tool with its files in a scratch directory."""

    def __init__(self, base, v):
        self.base, self.v = base, v
        self.interrupt = None
        self.env = {}
        self.opts = ['--os', '%s:%s' % v['os']]
        self.rules_dir = os.path.join(base, 'rules')
        self.fake = os.path.join(base, 'fake')
        os.mkdir(self.rules_dir)
        if v['fake_dir']:
            os.mkdir(self.fake)
        place = v['place']
        root = os.path.join(base, 'xd')
        self.sd = os.path.join(root, 'sources.d')
        conf = os.path.join(root, 'config.yaml')
        if place == 'dir option':
            self.opts += ['--xylem-dir', root]
        elif place == 'dir env':
            self.env['XYLEM_DIR'] = root
        elif place == 'options':
            self.opts += ['--sources-dir', self.sd, '--cache-dir', os.path.join(root, 'ca che')]
            conf = None
        else:
            self.opts += ['--prefix', root]
            self.sd = os.path.join(root, 'etc/xylem/sources.d')
            conf = os.path.join(root, 'etc/xylem/config.yaml')
        os.makedirs(self.sd)
        files = {}
        for n, f in enumerate(v['layout']):
            files.setdefault(f, []).append(n)
        for f, ns in files.items():
            ctx.write(os.path.join(self.sd, f), yaml.safe_dump(
                [{'rules': 'file://' + self.path(n)} for n in ns]))
        self.order = [n for f in sorted(files) for n in files[f]]
        settings = dict(v['settings'], installer_options={'fake': {'install_dir': self.fake}})
        where = v['where']
        if where == 'user file' and place in ('dir option', 'dir env'):
            where = 'file'       # the user's file is not read
        if where == 'file' and (conf is None or place == 'prefix'):
            where = 'user file'  # the prefix' file is only read without that of the user
        clear_dirs(user_dir('xylem'))
        if where == 'cli':
            for name, x in settings.items():
                self.opts += ['--' + name.replace('_', '-') + '=' + json.dumps(x)]
        else:
            f = conf if where == 'file' else os.path.join(user_dir('xylem'), 'config.yaml')
            if not os.path.isdir(os.path.dirname(f)):
                os.makedirs(os.path.dirname(f))
            ctx.write(f, yaml.safe_dump(settings))
        if v['verbose']:
            self.opts.append('--verbose')
        if v['no_color']:
            self.opts.append('--no-color')

    def path(self, n):
        return os.path.join(self.rules_dir, 'r%d.yaml' % n)

    def run(self, command, args):
        def main():
            if self.v['standalone']:
                import importlib
                import sys
                sys.argv = ['xylem-' + command] + self.opts + args
                sys.exit(importlib.import_module('xylem.commands.' + command).main())
            from xylem.commands.main import main
            main(self.opts + [command] + args)

        def interrupted():
            import sys
            self.interrupt.install(command)
            try:
                main()
            finally:
                sys.setprofile(None)
                sys.stdout.flush()
                if self.interrupt.raised:
                    sys.stderr.write('\nINTERRUPTED at %s\n' % self.interrupt.raised)
        with Environ(self.env, self.v.get('noisy')):
            status, out, err = ctx.forked(interrupted if self.interrupt else main)
        expect(status is not None and status >= 0, 'xylem {} ended with {}', command, status)
        if self.v['no_color'] and 'Traceback' not in err:
            expect('\x1b' not in out + err, 'colours in the output: {}', out + err)
        return status, strip_colors(out), strip_colors(err)

    def files(self):
        """Installed packages with their times; None without directory."""
        if not os.path.isdir(self.fake):
            return None
        return dict((f, os.stat(os.path.join(self.fake, f)).st_mtime_ns)
                    for f in os.listdir(self.fake))


class Model(object):
    def __init__(self, v):
        self.v = v
        self.default = gen.BUILTIN_DEFAULTS[v['os'][0]]
        s = v['settings']
        core = s.get('core_installers')
        self.core = [c for c in (REAL_CORE[v['os'][0]] if core is None else core) if c in LOADED]
        self.additional = ['pip'] if s.get('use_additional_installers', True) and \
            'pip' not in self.core else []
        self.install_from = s.get('install_from', {})
        self.disk = {}       # source -> rules, broken text or None if missing
        self.cached = {}
        self.updated = False

    def layers(self, order):
        return [self.cached[n] for n in order]

    def found(self, order, key):
        return ref.layered(self.layers(order), key, self.v['os'][0], self.v['os'][1], self.default)

    def resolve(self, order, key):
        """(installer, packages), or an error text."""
        found = self.found(order, key)
        if not found:
            return 'no rule'
        name = None
        for inst, keys in self.install_from.items():
            if key in keys:
                if inst not in LOADED or inst not in found:
                    return 'not available from requested installer'
                name = inst
        if name is None:
            for inst in self.core + self.additional:
                if inst in found:
                    name = inst
                    break
            else:
                return 'no installer'
        packages = found[name]['packages']
        if not all(isinstance(p, str) for p in packages):
            return 'invalid rule'
        return name, packages

    def all_keys(self, order):
        return sorted(set(k for l in self.layers(order) for k in l
                          if ref.has_rule(l[k], *self.v['os'])))


def check_history(v, rec):
    with ctx.TempDir() as base:
        base = os.path.realpath(base)
        try:
            t = Tool(base, v)
            m = Model(v)
            for step in v['steps']:
                what = step[0]
                rec.event(what)
                if what == 'edit':
                    m.disk[step[1]] = step[2]
                    p = t.path(step[1])
                    if step[2] is None:
                        if os.path.exists(p):
                            os.unlink(p)
                    else:
                        ctx.write(p, step[2] if isinstance(step[2], str) else
                                  yaml.safe_dump(step[2], allow_unicode=True))
                else:
                    if v.get('interrupts'):
                        interrupted(t, what, step, v['interrupts'].pop(0), rec)
                    globals()['do_' + what](t, m, step[1], step[2] if len(step) > 2 else None, rec)
        finally:
            clear_dirs(user_dir('xylem'))
    rec.event('config: ' + v['where'])
    rec.event('place: ' + v['place'])
    rec.event('standalone commands' if v['standalone'] else 'xylem')


def interrupted(t, what, step, n, rec):
    """Run a command that is interrupted; what is left behind is up to the next steps."""
    t.interrupt = Interrupt(n)
    try:
        status, out, err = t.run(what, step[1] if what == 'update' else step[2] + step[1])
    finally:
        t.interrupt = None
    if 'INTERRUPTED at' in err:
        at = err[err.index('INTERRUPTED at') + 15:].strip()
        rec.event('interrupted in ' + at.split(':')[0])
        if 'Exception ignored' not in err:
            expect('Traceback' not in err, 'traceback of the interrupted {}: {}', what, err)
            expect(status != 0, 'interrupted {} succeeds: {}', what, err)
    else:
        rec.event('ended before the interrupt')


def do_update(t, m, args, _, rec):
    files = t.files()
    status, out, err = t.run('update', args)
    bad = [n for n in t.order if not isinstance(m.disk[n], dict)]
    for n in t.order:
        url = 'file://' + t.path(n)
        if n in bad:
            expect(url in err, 'failure of {} is not reported: {}', url, err)
            rec.event('update with failing source')
        else:
            expect(url in out + err, 'source {} is not mentioned: {}', url, out + err)
    if not bad:
        expect_eq(status, 0, 'exit status of update (%s)' % short(err[-500:]))
    if args:
        rec.event('update --dry-run')
    else:
        for n in t.order:
            if n not in bad:
                m.cached[n] = copy.deepcopy(m.disk[n])
        m.updated = all(n in m.cached for n in t.order)
    expect_eq(t.files(), files, 'installed packages')


def unready(t, m, status, err, what):
    """Sources that were never loaded make the query fail."""
    if m.updated:
        return False
    expect(status != 0, '{} succeeds before any update', what)
    expect(err.strip() != '', '{} fails silently', what)
    return True


def do_resolve(t, m, keys, flags, rec):
    status, out, err = t.run('resolve', flags + keys)
    if unready(t, m, status, err, 'resolve'):
        return
    want_keys = list(dict.fromkeys(keys + (m.all_keys(t.order) if '--all' in flags else [])))
    want, failed = [], []
    for k in want_keys:
        r = m.resolve(t.order, k)
        rec.event('resolve: ' + (r if isinstance(r, str) else 'resolved'))
        if isinstance(r, str):
            failed.append((k, r))
            continue
        name = '' if r[0] == m.default and '--show-default-installer' not in flags else r[0] + ': '
        want.append('%s --> %s%s' % (k, name, ', '.join(r[1])))
        rec.event('default installer' if r[0] == m.default else 'other installer')
    rec.nontrivial(bool(want))
    expect_eq(lines(t, out), want, 'output of resolve %s' % keys)
    expect_eq(status != 0, bool(failed), 'failure of resolve %s (%s)' % (keys, short(err[-400:])))
    report(failed, err)


def report(failed, err):
    if failed:
        expect(err.strip() != '', 'no message about {}', failed)
    for k, r in failed:
        if r != 'invalid rule':
            expect(k in err, 'key {} is not mentioned: {}', k, err)


def lines(t, out):
    res = out.split('\n')
    while res and not res[-1]:
        res.pop()
    if t.v['verbose']:
        res = [l for l in res if ' --> ' in l]   # between messages
    return res


def do_lookup(t, m, keys, flags, rec):
    status, out, err = t.run('lookup', keys)
    if unready(t, m, status, err, 'lookup'):
        return
    expect_eq(status, 0, 'exit status of lookup %s (%s)' % (keys, short(err[-400:])))
    rest = out
    heads = ["Rules for '%s' on '%s:%s':\n" % ((k,) + t.v['os']) for k in keys]
    if t.v['verbose'] and heads[0] in rest:
        rest = rest[rest.index(heads[0]):]   # behind messages
    for n, k in enumerate(keys):
        expect(rest.startswith(heads[n]), 'expected {} in front of {}', heads[n], rest)
        rest = rest[len(heads[n]):]
        end = len(rest)
        if n + 1 < len(keys):
            end = rest.find(heads[n + 1])
            expect(end >= 0, 'no rules for {} in {}', keys[n + 1], out)
            if t.v['verbose']:
                rest = rest[:end].split('Loading source urls')[0] + rest[end:]
                end = rest.find(heads[n + 1])
        text, rest = rest[:end], rest[end:]
        try:
            doc = yaml.safe_load(text)
        except yaml.YAMLError as e:
            fail('rules of %s are no YAML: %s\n%s' % (k, e, text))
        want = m.found(t.order, k)
        rec.event('lookup: %s' % ('found' if want else 'none'))
        rec.nontrivial(bool(want))
        if not want:
            expect(doc in ({}, None), 'rules of {}: {}, expected none', k, doc)
            continue
        expect(doc != {} and doc is not None, 'no rules of {}, expected {}', k, want)
        got = ref._installers(doc)
        if 'default_installer' in got:
            expect(m.default not in got, 'default installer twice: {}', doc)
            got[m.default] = got.pop('default_installer')
        expect_eq(got, want, 'rules of %s' % k)


def do_install(t, m, keys, flags, rec):
    before = t.files()
    tree = ctx.snapshot(t.base)
    status, out, err = t.run('install', flags + keys)
    after = t.files()
    if unready(t, m, status, err, 'install'):
        expect_eq(after, before, 'installed packages')
        return
    dry, fix = '--dry-run' in flags, '--fix-prerequisites' in flags
    cont, again = '--continue-on-error' in flags, '--reinstall' in flags
    keys = list(dict.fromkeys(keys + (m.all_keys(t.order) if '--all' in flags else [])))
    resolved = [(k, m.resolve(t.order, k)) for k in keys]
    failed = [(k, r) for k, r in resolved if isinstance(r, str)]
    good = [r for k, r in resolved if not isinstance(r, str)]
    if dry:
        rec.event('dry run')
        expect_eq(ctx.snapshot(t.base), tree, 'files after the dry run')
    if failed and not cont:
        report(failed, err)
        rec.event('install: unresolved')
        expect(status != 0, 'install succeeds without resolution of {}', failed)
        expect_eq(after, before, 'installed packages')
        return
    others = [r for r in good if r[0] != 'fake']
    if others:
        if all(not r[1] for r in others) or (dry and fix):
            return   # nothing to be done by them: whether they are needed is open
        rec.event('install: package manager missing')
        expect(status != 0, 'install succeeds without package manager {}', others)
        expect(err.strip() != '', 'no message')
        expect_eq(after or {}, before or {}, 'installed packages')
        return
    packages = [p for r in good for p in r[1]]
    if not packages:
        if not failed and good:
            return      # open whether prerequisites are checked
        expect_eq(status != 0, bool(failed), 'failure of install (%s)' % short(err[-300:]))
        return
    present = before is not None
    if not present and not (fix and not dry):
        if dry and fix:
            return      # what would be is open
        rec.event('install: fake missing')
        expect(status != 0, 'install succeeds without package manager')
        expect(err.strip() != '', 'no message')
        expect_eq(after, before, 'installed packages')
        return
    if not present:
        rec.event('install: fixed prerequisite')
    report(failed, err)
    before = before or {}
    todo = [p for p in packages if again or p not in before]
    commands = ['touch ' + os.path.join(t.fake, p) for p in todo]
    if dry:
        shown = [l.strip() for l in out.splitlines() if l.strip().startswith('touch ')]
        expect_eq(shown, list(commands), 'commands shown by the dry run')
        expect_eq(status != 0, bool(failed), 'failure of the dry run')
        return
    ran = [l[l.index('touch '):] for l in out.splitlines() if l.startswith('executing command: touch ')]
    after = after or {}
    rec.nontrivial(bool(todo))
    if FAILING in todo:
        rec.event('install: failing command')
        expect(status != 0, 'install succeeds with failing command')
        expect('no/such' in err, 'no message about the failing command: {}', err)
        first = todo.index(FAILING)
        done = [p for p in todo if p != FAILING] if cont else todo[:first]
        expect_eq(ran, commands if cont else commands[:first + 1], 'executed commands')
    else:
        rec.event('install: done' if todo else 'install: nothing to do')
        done = todo
        expect_eq(ran, commands, 'executed commands')
        expect_eq(status != 0, bool(failed), 'failure of install %s (%s)' % (keys, short(err[-400:])))
    expect_eq(set(after), set(before) | set(done), 'installed packages')
    for p in before:
        if p not in done:
            expect_eq(after[p], before[p], 'time of package %s' % p)


# --------------------------------------------------------- errors and commands

BAD_CALLS = [
    ('unknown command', ['frobnicate']), ('no command', []), ('no key', ['resolve']),
    ('no command', ['--verbose']), ('no command', ['--os', 'ubuntu:precise', '--dry-run']),
    ('no key', ['install']), ('no key', ['lookup']), ('unknown option', ['update', '--wrong']),
    ('no key', ['resolve', '--all']), ('no file', ['_compact_rules_file']),
    ('no file', ['_compact_rules_file', '-w']), ('surplus argument', ['update', 'foo']),
    ('surplus argument', ['_compact_rules_file', 'foo', 'bar']),
    ('unknown option', ['--wrong', 'update']), ('unknown option', ['lookup', 'foo', '--reinstall']),
    ('no value', ['resolve', 'foo', '--os']), ('no value', ['--core-installers']),
    ('unknown OS', ['--os', 'beos:5', 'resolve', 'foo']),
    ('unknown OS', ['resolve', '--os', 'beos:5', 'foo']),
    ('unknown OS', ['--os', 'beos:5', 'lookup', 'foo']),
    ('unknown OS', ['--os', 'beos:5', 'install', 'foo']),
    ('unknown version', ['--os', 'ubuntu:nonsense', 'lookup', 'foo']),
    ('unknown version', ['--os', 'ubuntu:nonsense', 'install', 'foo']),
    ('ill-typed option', ['--core-installers', '{', 'resolve', 'foo']),
    ('ill-typed option', ['resolve', '--core-installers', '{', 'foo']),
    ('ill-typed option', ['--use-additional-installers', 'maybe', 'update']),
    ('ill-typed option', ['update', '--install-from', '[1']),
    ('config file', ['update']), ('config file', ['resolve', 'foo']),
    ('config file', ['lookup', 'foo']), ('config file', ['install', 'foo']),
    ('debug', ['--debug', '--os', 'beos:5', 'resolve', 'foo']),
    ('debug', ['--os', 'beos:5', 'lookup', 'foo', '-d'])]
OPEN_ERRORS = ['ill-typed option', 'config file']   # a traceback is (so far) how these show
BAD_CONFIGS = ['core_installers: 3\n', 'core_installers: {\n', 'unknown: [\n',
               'installer_options: [x]\n', '- x\n']


def bad_calls():
    for call in BAD_CALLS:
        for text in BAD_CONFIGS if call[0] == 'config file' else BAD_CONFIGS[:1]:
            yield call, text


def check_bad(v, rec):
    (kind, argv), text = v
    rec.event(kind)
    rec.nontrivial()
    with ctx.TempDir() as base:
        os.mkdir(os.path.join(base, 'sources.d'))
        if kind == 'config file':
            ctx.write(os.path.join(base, 'config.yaml'), text)

        def main():
            from xylem.commands.main import main
            main(['--xylem-dir', base] + argv)
        with Environ({}):
            status, out, err = ctx.forked(main)
        expect(status is not None and status > 0, '{} gives exit status {}', kind, status)
        expect(err.strip() != '', '{} gives no message', kind)
        if kind in ('unknown OS', 'debug'):
            expect('beos' in err, 'message for unknown OS: {}', err)
        if kind not in OPEN_ERRORS:
            expect_eq('Traceback' in err, kind == 'debug', 'traceback without/with debug')
        expect(not os.path.exists(os.path.join(base, 'cache')) or
               not any(fs for _, _, fs in os.walk(os.path.join(base, 'cache'))), 'cache was written')


def check_commands(v, rec):
    """Commands of other packages are available; invalid ones do not matter."""
    from .plugins import Site
    kinds, status, call = v
    calls = []

    def make(n, kind):
        def main(args):
            print('MAIN %d %s' % (n, args.word))
            calls.append(n)
            if kind == 'raises':
                from xylem.exception import XylemError
                raise XylemError('injected {}')
            if kind == 'interrupted':
                raise KeyboardInterrupt()
            return status if kind == 'status' else None
        if kind == 'invalid':
            return ['no dict']
        return dict(title='entry%d%s' % (n, 'zyx'[n % 3] * 2), description='D', main=main,
                    prepare_arguments=lambda p: p.add_argument('word') and None,
                    prepare_config=lambda d: None)
    with Site('xylem.commands', [make(n, k) for n, k in enumerate(kinds)], [0] * len(kinds)) as site:
        n = call % len(kinds)

        def main():
            from xylem.commands.main import main
            main([site.names[n], 'wörd'])
        with ctx.TempDir() as base, Environ({'XYLEM_DIR': base}):
            code, out, err = ctx.forked(main)
        kind = kinds[n]
        rec.event(kind)
        rec.nontrivial(len(kinds) > 1)
        out, err = strip_colors(out), strip_colors(err)
        if kind == 'invalid':
            expect(code != 0 and err.strip() != '', 'invalid command: {} {}', code, err)
            return
        expect('MAIN %d wörd\n' % n in out, 'command did not run: {} {}', out, err)
        expect_eq(code, {'plain': 0, 'status': status, 'raises': 1, 'interrupted': 1}[kind],
                  'exit status of %s command' % kind)
        if kind == 'raises':
            expect('injected {}' in err, 'message of the error: {}', err)


def check_many(v, rec):
    """Any number of keys, any number of which fails."""
    command, bad, good, cont, all_keys, kind = v
    rec.event('%d failing' % bad)
    rec.nontrivial(bad + good > 3)
    with ctx.TempDir() as base:
        base = os.path.realpath(base)
        fake = os.path.join(base, 'fake')
        os.mkdir(fake)
        os.mkdir(os.path.join(base, 'sources.d'))
        goods = ['good%d' % n for n in range(good)]
        bads = ['bad%d-' % n for n in range(bad)]
        rules = dict((k, {'ubuntu': {'precise': {'fake': [k + '-p']}}}) for k in goods)
        if kind == 'not installable':
            rules.update((k, {'ubuntu': {'precise': {'nix': ['p']}}}) for k in bads)
        elif kind == 'invalid':
            rules.update((k, {'ubuntu': {'precise': {'fake': {'packages': [3]}}}}) for k in bads)
        ctx.write(os.path.join(base, 'r.yaml'), yaml.safe_dump(rules))
        ctx.write(os.path.join(base, 'sources.d/1.yaml'), '- rules: file://%s/r.yaml\n' % base)
        ctx.write(os.path.join(base, 'config.yaml'), yaml.safe_dump(dict(
            core_installers=['fake'], installer_options={'fake': {'install_dir': fake}},
            os_override='ubuntu:precise')))
        # the failing keys are spread over the others
        keys = list(goods)
        for n, k in enumerate(bads):
            keys.insert(n * 7 % (len(keys) + 1), k)

        def run(*args):
            def main():
                from xylem.commands.main import main
                main(['--xylem-dir', base, '--no-color'] + list(args))
            with Environ({}):
                return ctx.forked(main)
        status, out, err = run('update')
        expect_eq(status, 0, 'status of update: %s' % short(err[-300:]))
        args = keys
        if all_keys and bad and kind != 'unknown':
            args = ['--all', keys[0]]
        if not args:
            return
        if cont:
            args = ['--continue-on-error'] + args
        status, out, err = run(command, *args)
        expect(status is not None and 'Traceback' not in err, '{} ended with {}: {}', command, status,
               err[-500:])
        expect_eq(status != 0, bad > 0, 'failure of %s with %d failing keys (status %s)' % (
            command, bad, status))
        for k in bads if kind != 'invalid' else ():
            expect(k in err, 'failure of {} is not mentioned', k)
        if command == 'resolve':
            got = [l for l in out.split('\n') if l]
            if args is not keys and '--all' in args:
                got.sort()
                goods.sort()
            expect_eq(got, ['%s --> fake: %s-p' % (k, k) for k in goods], 'output')
        else:
            want = [] if bad and not cont else [k + '-p' for k in goods]
            expect_eq(sorted(os.listdir(fake)), sorted(want), 'installed packages')


MANY_KINDS = ['unknown', 'not installable', 'invalid']

INSTALL_FLAGS = ['--all', '--reinstall', '--dry-run', '--continue-on-error', '--fix-prerequisites']


def joint_examples():
    """All combinations of the options of install, where each of them matters."""
    for n in range(2 ** len(INSTALL_FLAGS)):
        flags = [f for i, f in enumerate(INSTALL_FLAGS) if n >> i & 1]
        for fake_dir in (True, False):
            for bad in ([], ['unresolved'], ['failing']):
                yield joint(flags, fake_dir, bad, ['foo', 'libc++'])


def joint(flags, fake_dir, bad, keys, **kw):
    def fake(*packages):
        return {'ubuntu': {'precise': {'fake': {'packages': list(packages)}}}}
    rules = {'foo': fake('p', 'q'), 'bar': fake('x', 'libfoo-dev'), 'libc++': fake('y'),
             'a.b_c': fake('x', 'z')}
    if 'failing' in bad:
        rules['foo'] = fake('p', FAILING, 'q')
    if 'unresolved' in bad:
        rules['python3-x'] = {'ubuntu': {'precise': {'nix': {'packages': ['p']}}}}
    first = ['bar'] + ['unknown'] * ('unresolved' in bad and '--all' not in flags)
    steps = [('edit', 0, rules), ('update', [])]
    if fake_dir:
        steps.append(('install', ['bar'], []))       # something is there already
    steps += [('install', first + keys, flags), ('install', keys[:1], flags)]
    return dict(dict(os=('ubuntu', 'precise'), layout=['1.yaml'], settings={'core_installers': ['fake']},
                     where='file', place='dir option', fake_dir=fake_dir, steps=steps,
                     standalone=False, verbose=False, no_color=True, noisy=False), **kw)


@st.composite
def joint_case(draw):
    return joint(draw(st.lists(st.sampled_from(INSTALL_FLAGS), unique=True, min_size=2)),
                 draw(st.booleans()), draw(st.lists(st.sampled_from(['unresolved', 'failing']), unique=True)),
                 draw(st.lists(st.sampled_from(['foo', 'libc++', 'a.b_c', 'unknown']), min_size=1, max_size=4)),
                 standalone=draw(st.booleans()), verbose=draw(st.booleans()),
                 no_color=draw(st.booleans()), noisy=draw(st.booleans()),
                 where=draw(st.sampled_from(['file', 'cli', 'user file'])),
                 place=draw(st.sampled_from(['dir option', 'dir env', 'options', 'prefix'])))


def many_examples():
    for bad in (0, 1, 255, 256, 257, 512):
        for kind in MANY_KINDS if bad else ('unknown',):
            yield 'resolve', bad, 2, False, bad == 255, kind
        yield 'install', bad, 2, True, False, 'unknown'
    yield 'install', 256, 0, False, False, 'invalid'
    yield 'install', 0, 50, False, True, 'unknown'


RULES['X01'] = ('a history is non-trivial if at least one key resolves, has rules or is to be installed '
                'through the command line; other cases if something is wrong with the call or several '
                'commands are installed')
SUBS['X01'] = [
    Sub('histories', history, check_history, quick=240, qshards=6, thorough=1500, shards=6),
    Sub('interrupts', interrupted_history, check_history, quick=60, qshards=4, thorough=1200, shards=6),
    Sub('options of install', joint_case, check_history, quick=20, qshards=4, thorough=600, shards=6, talk=False,
        examples=list(joint_examples())),
    Sub('many keys', lambda: st.tuples(
        st.sampled_from(['resolve', 'resolve', 'install']), st.sampled_from([0, 0, 1, 2, 9, 255, 256, 300]),
        st.sampled_from([0, 1, 2, 9, 20]), st.booleans(), st.booleans(), st.sampled_from(MANY_KINDS)).map(
        lambda v: v if v[0] == 'install' else v[:3] + (False,) + v[4:]), check_many,
        quick=16, thorough=100, examples=many_examples()),
    Sub('wrong calls', lambda: st.tuples(st.sampled_from(BAD_CALLS), st.sampled_from(BAD_CONFIGS)),
        check_bad, quick=10, examples=bad_calls()),
    Sub('commands', lambda: st.tuples(st.lists(st.sampled_from(
        ['plain', 'status', 'raises', 'interrupted', 'invalid']), min_size=1, max_size=4),
        st.sampled_from([0, 1, 2, 77]), st.integers(0, 3)), check_commands, quick=60),
]
for _sub in SUBS['X01']:        # varies the verbosity itself
    _sub.talk = False
