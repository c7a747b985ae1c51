"""P01: plugin loading."""
import os
import shutil
import sys
import tempfile
import types

import pkg_resources
from hypothesis import strategies as st

from .. import ctx, ref
from ..core import HarnessError, Sub, expect, expect_eq, quiet

from xylem.installers import Installer, InstallerContext
from xylem.installers.impl import load_installer_plugins
from xylem.os_support import OS, OSSupport
from xylem.os_support.impl import load_os_plugins
from xylem.plugin_utils import InvalidPluginError, PluginBase, load_plugins
from xylem.sources import SourcesContext
from xylem.specs import Spec, load_spec_plugins

SUBS, RULES, LEVEL = {}, {}, {}

MODULE = 'pbt_plugin_module'
mod = types.ModuleType(MODULE)
sys.modules[MODULE] = mod
serial = [0]


class Widget(PluginBase):
    pass


class Picky(PluginBase):
    """Base class with its own verification."""

    @classmethod
    def verify_plugin(cls, obj):
        super(Picky, cls).verify_plugin(obj)
        if obj.name.startswith('p'):
            raise InvalidPluginError('p is not welcome')


class Other(PluginBase):
    name = 'other'


class NotPlugin(object):
    name = 'notplugin'


BASES = {'widget': Widget, 'picky': Picky, 'installer': Installer, 'os': OS, 'spec': Spec}


def make_class(base, name, style):
    """Concrete subclass of `base` whose objects have the name."""
    def const(*args, **kwargs):
        return None
    body = dict((m, const) for m in getattr(base, '__abstractmethods__', ()))
    if style == 'attribute':
        body['name'] = name
    elif style == 'property':
        body['name'] = property(lambda self: name)
    else:
        body['name'] = None

        def init(self):
            self.name = name
        body['__init__'] = init
    return type(str('Plug'), (base,), body)


def make_broken(base, how):
    """Subclass that cannot be instantiated, or whose objects are of no use."""
    if how == 'abstract':
        return type(str('Plug'), (base,), {'name': 'alpha', '__new__': None})

    def init(self):
        raise {'error': RuntimeError, 'os': OSError, 'exit': SystemExit, 'import': ImportError}[how]('no')

    def name(self):
        raise RuntimeError('no name')
    body = dict((m, lambda *a, **kw: None) for m in getattr(base, '__abstractmethods__', ()))
    body.update({'name': property(name)} if how == 'name' else {'name': 'alpha', '__init__': init})
    return type(str('Plug'), (base,), body)


GOOD_NAMES = ['alpha', 'beta', 'gamma', 'p-delta', 'mountain lion', 'é.1+', 'alpha-b', 'Alpha', 'alpha_b', 'alpha.b', 'alphab',
              'ALPHA', 'e\u0301.1+', 'alpha0', 'alpha-b-', '\u0430lpha']
BAD_NAMES = ['any_os', 'any_key', 'default_installer', 'any_version', 'a b', '', 'a\n', 'a/b', None, 5, b'alpha',
             ['alpha']]
PLUGIN_NAMES = ['one', 'two', 'three', 'One', 'weird name: é', 'alpha', 'beta', '', 'one ', 'on', 'o-ne', 'o_ne',
                'weird name: e\u0301', 'weird', 'one, two', 'gamma', 'alpha', 'beta', 'p-delta', 'alpha-b']
NOT_TEXT = [None, 3, b'one', ['one'], {'a': 'one'}]


def definition():
    good = st.fixed_dictionaries(dict(
        shape=st.just('good'), plugin_name=st.sampled_from(PLUGIN_NAMES),
        description=st.sampled_from(['', 'text', 'é']),
        name=st.sampled_from(GOOD_NAMES * 4 + BAD_NAMES),
        style=st.sampled_from(['attribute', 'property', 'init']),
        extra=st.booleans(),
        broken=st.sampled_from([None, 'error', 'os', 'exit', 'import', 'name', 'abstract'])))
    bad = st.one_of(
        st.builds(lambda g, k: dict(g, shape='missing', which=k), good,
                  st.sampled_from(['plugin_name', 'description', 'class'])),
        st.builds(lambda g, k, v: dict(g, shape='not text', which=k, value=v), good,
                  st.sampled_from(['plugin_name', 'description']), st.sampled_from(NOT_TEXT)),
        st.builds(lambda g, v: dict(g, shape='class', value=v), good,
                  st.sampled_from(['other', 'not plugin', 'instance', 'none', 'text'])),
        st.builds(lambda g, v: dict(g, shape='not dict', value=v), good,
                  st.sampled_from([None, 5, 'alpha', ['plugin_name', 'description'], b'', 1.5])))
    return st.integers(0, 3).flatmap(lambda n: good if n else bad)


def build(d, kind, base, disabled=()):
    """The object behind the entry point."""
    if d['shape'] == 'not dict':
        return d['value']
    res = dict(plugin_name=d['plugin_name'], description=d['description'])
    if d.get('broken') and d['shape'] == 'good' and d['plugin_name'] in disabled:
        # somebody had a reason to disable it
        res[kind] = make_broken(base, d['broken'])
    else:
        res[kind] = make_class(base, d['name'], d['style'])
    if d['extra']:
        res['homepage'] = 'x'
    if d['shape'] == 'missing':
        res.pop(kind if d['which'] == 'class' else d['which'])
    elif d['shape'] == 'not text':
        res[d['which']] = d['value']
    elif d['shape'] == 'class':
        res[kind] = dict(other=Other, none=None, text='alpha', instance=res[kind](),
                         **{'not plugin': NotPlugin})[d['value']]
    return res


def object_ok(d, base):
    if d['name'] != 'mountain lion' and not ref.ident_ok(d['name']):
        return False
    return not (base is Picky and d['name'].startswith('p'))


class Site(object):
    """Distributions with entry points, visible to the interpreter."""

    def __init__(self, group, objects, dists, hidden=()):
        self.group, self.objects, self.dists, self.hidden = group, objects, dists, hidden

    def __enter__(self):
        serial[0] += 1
        self.path = tempfile.mkdtemp(prefix='site-')
        self.attrs = []
        names = []
        by = {}
        for n, obj in enumerate(self.objects):
            attr = 'd%d_%d' % (serial[0], n)
            setattr(mod, attr, obj)
            self.attrs.append(attr)
            lines = by.setdefault(self.dists[n], [])
            # entry points of several distributions may have the same name
            ep = '_' * (n in self.hidden) + 'entry%d%s' % (len(lines), 'zyx'[len(lines) % 3] * 2)
            names.append(ep)
            lines.append('%s = %s:%s' % (ep, MODULE, attr))
        for k, lines in by.items():
            info = os.path.join(self.path, 'dist%d_%d-1.0.dist-info' % (serial[0], k))
            os.mkdir(info)
            ctx.write(os.path.join(info, 'METADATA'),
                      'Metadata-Version: 2.1\nName: dist%d-%d\nVersion: 1.0\n' % (serial[0], k))
            ctx.write(os.path.join(info, 'entry_points.txt'),
                      '[%s]\n%s\n' % (self.group, '\n'.join(lines)))
        sys.path.append(self.path)
        ws = pkg_resources.working_set
        self.before = set(ws.by_key)
        ws.add_entry(self.path)
        self.names = names
        return self

    def __exit__(self, *args):
        sys.path.remove(self.path)
        ws = pkg_resources.working_set
        for key in set(ws.by_key) - self.before:
            del ws.by_key[key]
        if self.path in ws.entries:
            ws.entries.remove(self.path)
        ws.entry_keys.pop(self.path, None)
        for attr in self.attrs:
            delattr(mod, attr)
        shutil.rmtree(self.path)


def evaluate(defs, disabled, base, taken=()):
    """What has to become of each definition."""
    fate = []
    for d in defs:
        if d['shape'] != 'good':
            fate.append('invalid definition')
        elif d['plugin_name'] in disabled:
            fate.append('disabled')
        elif not object_ok(d, base):
            fate.append('invalid object')
        else:
            fate.append('valid')
    return fate


def check_fates(site, defs, disabled, objs, base, taken, built, kind, err, rec):
    fate = evaluate(defs, disabled, base)
    for name in set(site.names):
        invalid = sum(f == 'invalid definition' and site.names[n] == name for n, f in enumerate(fate))
        expect(err.count(name) >= invalid, '{} errors expected for entry points named {}: {}', invalid, name, err)
    if len(set(site.names)) < len(site.names):
        rec.event('entry points of the same name')
    valid = set(d['name'] for d, f in zip(defs, fate) if f == 'valid')
    names = [o.name for o in objs]
    expect_eq(sorted(names), sorted(valid | set(taken)), 'names of the loaded plugins')
    for o in objs:
        expect(isinstance(o, base), 'plugin {} is no {}', o.name, base.__name__)
        if o.name in taken:
            continue
        expect(any(f == 'valid' and type(o) is b[kind] for f, b in zip(fate, built)),
               'object {} does not come from an enabled valid definition', o.name)
    for n, (d, f) in enumerate(zip(defs, fate)):
        rec.event(f)
        if f == 'invalid definition':
            rec.event('invalid: ' + d['shape'])
            expect(site.names[n] in err, 'no error names entry point {}: {}', site.names[n], err)
        elif f == 'invalid object':
            expect(d['plugin_name'] in err and err, 'no error names plugin {}: {}',
                   d['plugin_name'], err)
    dup = [d for n, d in enumerate(defs) if fate[n] == 'valid' and (d['name'] in taken or any(
        fate[m] == 'valid' and defs[m]['name'] == d['name'] for m in range(len(defs)) if m != n))]
    for name in set(d['name'] for d in dup):
        rec.event('duplicate')
        expect(name in err and any(d['plugin_name'] in err for d in dup if d['name'] == name),
               'no warning about the duplicate {}: {}', name, err)
    if not dup and all(f in ('valid', 'disabled') for f in fate):
        expect_eq(err, '', 'messages without anything to complain about')
    rec.nontrivial(len(valid) > 0 and (bool(dup) or len(set(fate)) > 1))


def disabling(defs, builtin=()):
    names = [d['plugin_name'] for d in defs if d['plugin_name'] in PLUGIN_NAMES] or ['one']
    return st.lists(st.one_of(st.sampled_from(names), st.sampled_from(names), st.sampled_from(
        PLUGIN_NAMES + GOOD_NAMES + list(builtin) + ['entry0zz', 'nope'])), max_size=4)


@st.composite
def custom_case(draw):
    defs = draw(st.lists(definition(), max_size=7))
    return dict(base=draw(st.sampled_from(['widget', 'picky', 'installer', 'os', 'spec'])),
                defs=defs, dists=[draw(st.integers(0, 2)) for _ in defs],
                disabled=draw(st.one_of(st.none(), disabling(defs), disabling(defs))))


def check_custom(v, rec):
    base, kind = BASES[v['base']], v['base']
    built = [build(d, kind, base, v['disabled'] or ()) for d in v['defs']]
    group = 'pbt.group%d' % (serial[0] + 1)
    with Site(group, built, v['dists']) as site:
        disabled = v['disabled']
        args = () if disabled is None else (list(disabled),)
        with quiet() as (out, err):
            objs = load_plugins(kind, base, group, *args)
        expect_eq(out.getvalue(), '', 'standard output')
        check_fates(site, v['defs'], disabled or [], objs, base, (), built, kind,
                    err.getvalue(), rec)
        with quiet():
            again = load_plugins(kind, base, group, *args)
        expect_eq([o.name for o in again], [o.name for o in objs], 'second loading')
        with quiet():
            expect_eq(load_plugins(kind, base, group + '.none'), [], 'plugins of an empty group')


# ---------------------------------------------------- the real kinds of plugins

GROUPS = dict(installer='xylem.installers', os='xylem.os', spec='xylem.specs')
LOADERS = dict(installer=load_installer_plugins, os=load_os_plugins, spec=load_spec_plugins)
BUILTIN = {}
for _kind in GROUPS:
    BUILTIN[_kind] = {}
    for _ep in pkg_resources.iter_entry_points(GROUPS[_kind]):
        _d = _ep.load()
        BUILTIN[_kind][_d[_kind]().name] = _d['plugin_name']
PINNED = dict(installer={'apt', 'homebrew', 'macports', 'pip', 'fake'},
              os={'ubuntu', 'debian', 'osx', 'xubuntu'}, spec={'rules'})


@st.composite
def kind_case(draw):
    kind = draw(st.sampled_from(sorted(GROUPS)))
    builtin = BUILTIN[kind]
    defs = draw(st.lists(definition(), max_size=4))
    for d in defs:
        if d['shape'] == 'good' and draw(st.integers(0, 3)) == 0:
            d['name'] = draw(st.sampled_from(sorted(builtin)))
    return dict(kind=kind, defs=defs, dists=[draw(st.integers(0, 1)) for _ in defs],
                disabled=draw(st.one_of(disabling(defs), st.lists(st.sampled_from(
                    PLUGIN_NAMES + sorted(builtin) + sorted(builtin.values())), max_size=4))),
                how=draw(st.sampled_from(['loader', 'context'])))


def check_kind(v, rec):
    kind = v['kind']
    base, builtin = BASES[kind], BUILTIN[kind]
    expect(PINNED[kind] <= set(builtin), 'built-in {} plugins: {}', kind, sorted(builtin))
    built = [build(d, kind, base, v['disabled'] or ()) for d in v['defs']]
    taken = set(n for n, p in builtin.items() if p not in v['disabled'])
    with Site(GROUPS[kind], built, v['dists']) as site:
        with quiet() as (out, err):
            if v['how'] == 'loader':
                objs = LOADERS[kind](list(v['disabled']))
            else:
                cfg = ctx.config()
                cfg.disabled_plugins[kind] = list(v['disabled'])
                if kind == 'installer':
                    objs = InstallerContext(cfg, ctx.os_support(('ubuntu', 'precise')),
                                            setup_installers=False).installer_plugins
                elif kind == 'os':
                    objs = OSSupport(cfg.disabled_plugins.os).os_plugins
                else:
                    objs = SourcesContext(cfg).spec_plugins
        rec.event(kind)
        rec.event('how: ' + v['how'])
        if len(taken) < len(builtin):
            rec.event('built-in disabled')
        check_fates(site, v['defs'], v['disabled'], objs, base, taken, built, kind,
                    err.getvalue(), rec)
        rec.nontrivial(len(taken) < len(builtin))


def shared_class(base, names, bad={}):
    """Concrete subclass of `base` whose objects get further and further names.

    :param bad: number of object -> invalid name
    """
    body = dict((m, lambda *a, **kw: None) for m in getattr(base, '__abstractmethods__', ()))
    made = []

    def init(self):
        made.append(self)
        self._name = '%s%d' % (names[(len(made) - 1) % len(names)], len(made))
        if len(made) in bad:
            self._name = bad[len(made)]
    body['__init__'] = init
    body['name'] = property(lambda self: self._name)
    return type(str('Plug'), (base,), body)


def check_shared(v, rec):
    """Definitions that share their class, and definitions that are the same object."""
    base, kind = BASES[v['base']], v['base']
    bad = dict(v['bad'])
    classes = [shared_class(base, [n], bad) for n in ('alpha', 'beta')]
    made = [0, 0]
    defs = [dict([(kind, classes[c]), ('plugin_name', p), ('description', '')])
            for c, p in v['defs']]
    defs = [defs[i % len(defs)] for i in range(len(defs) + v['repeat'])]
    group = 'pbt.group%d' % (serial[0] + 1)
    with Site(group, defs, [i % 2 for i in range(len(defs))]):
        for n in range(2):
            with quiet() as (out, err):
                objs = load_plugins(kind, base, group, list(v['disabled']))
            want, skipped = [], []
            for d in defs:
                if d['plugin_name'] not in v['disabled']:
                    c = classes.index(d[kind])
                    made[c] += 1
                    if made[c] in bad:
                        skipped.append(bad[made[c]])
                    else:
                        want.append(d[kind])
            for c in classes:
                expect_eq(len([o for o in objs if type(o) is c]), want.count(c),
                          'plugins of one class')
            expect_eq(len(objs), len(want), 'plugins')
            expect_eq(len(set(o.name for o in objs)), len(want), 'names of the plugins')
            if not skipped:
                expect_eq((out.getvalue(), err.getvalue()), ('', ''), 'messages')
            for name in skipped:
                expect(repr(name) in err.getvalue() or str(name) in err.getvalue(),
                       'skipping {0!r} not reported: {1}', name, err.getvalue())
                rec.event('one object of the class is invalid')
    rec.nontrivial(len(want) >= 2)


def shared_case():
    return st.fixed_dictionaries(dict(
        base=st.sampled_from(sorted(BASES)),
        defs=st.lists(st.tuples(st.integers(0, 1), st.sampled_from(PLUGIN_NAMES)), min_size=1,
                      max_size=5),
        repeat=st.integers(0, 2),
        bad=st.dictionaries(st.integers(1, 6), st.sampled_from(BAD_NAMES), max_size=2),
        disabled=st.lists(st.sampled_from(PLUGIN_NAMES), max_size=2)))


RULES['P01'] = ('a case is non-trivial if at least one plugin loads while another is skipped '
                '(invalid, disabled, duplicate), or a built-in plugin is disabled')
SUBS['P01'] = [
    Sub('custom', custom_case, check_custom, quick=500, qshards=2),
    Sub('kinds', kind_case, check_kind, quick=400, qshards=2),
    Sub('shared', shared_case, check_shared, quick=100),
]
for _sub in SUBS['P01']:        # is about the messages
    _sub.talk = False
