"""S01-S06: source descriptions, updating and the cache."""
import hashlib
import copy
import datetime
import errno
import locale
import os
import pickle
import random
import re
import resource
import shutil
import signal
import sys
import time

import yaml
from hypothesis import strategies as st

from .. import ctx, env, gen, ref
from ..core import HarnessError, Sub, expect, expect_eq, fail, quiet, short
from .rules import expect_same, queries

from xylem.exception import XylemError
from xylem.load_url import DownloadFailure
from xylem.sources import RulesDatabase, SourcesContext
from xylem.sources.database import RulesSource
from xylem.specs.plugins.rules import RulesSpec
from xylem.update import update

SUBS, RULES, LEVEL = {}, {}, {}


def plain(text):
    return re.sub('\x1b\\[[0-9;]*m', '', text)


# ------------------------------------------------------------------------ S01

NAMES = ['10-a.yaml', '9-b.yaml', 'B.yaml', 'a.yaml', 'Z.yaml', 'é.yaml', 'a b.yaml',
         'a.b.yaml', '20.yaml', '20-default-sources.yaml', 'a-.yaml', 'aa.yaml', 'yaml.yaml',
         '_.yaml', '1.yaml', '02.yaml', '%.yaml', '{0}.yaml']
OTHER_NAMES = ['.hidden.yaml', '.yaml', 'x.yml', 'a.yaml.bak', 'yaml', 'README', 'a.yaml~',
               'Y.YAML', 'xyaml', '.a.yaml.swp', 'c.yaml ', 'b.yaml.dpkg-new', '#a.yaml#']
DIR_NAMES = ['sources.d', '.sources.d', 'dir.yaml', 's s', 'é', '.a/sources.d', 'a.yaml/.b']
SPECS = ['data', 'other', 'rules2']
spec_args = st.one_of(st.sampled_from(['url', 'http://x/y?z=1#f', '', 'é', '12', 'null', ' a ']),
                      st.integers(-2, 99), st.none(), st.booleans(),
                      st.lists(st.integers(0, 3), max_size=2),
                      st.dictionaries(st.sampled_from(['a', 'b']), st.integers(0, 3), max_size=2))
BAD_YAML = ['- a: [', 'foo: bar: baz', '\t- a', '"', '- &x a\n- *y\n', '%', '- !unknown x',
            '- {', '- a: b\n c', '@x', '- 2014-13-45\n', '- data: x\n- data: "y\n', '---\na\n---\nb\n',
            '- !!int x\n', b'- data: \xff\n', b'- data: J\xfcrgen\n', b'# J\xfcrgen\n- data: x\n',
            b'- data: \xed\xa0\x80\n', b'- data: \xc3', b'- data: x\x00\n']
BAD_STRUCT = ['', 'null', '# nothing\n', 'text', '3', '[3]', '[[]]', '[data]', '- data: a\n  other: b\n',
              '- {}\n', '- 3: x\n', '- null: x\n', '- true: x\n', '- data\n', '- - data: x\n',
              'data: x\n', '- data: a\n-\n', 'true', '1.5', '[null]', '- [data, x]\n']


def src_entries():
    return st.lists(st.tuples(st.sampled_from(SPECS), spec_args), max_size=3)


@st.composite
def dir_case(draw):
    entries = []
    used = set()
    for name in draw(st.lists(st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES),
                                        st.sampled_from(OTHER_NAMES)),
                              max_size=6, unique=True)):
        k = draw(st.integers(0, 19))
        if k == 0:
            entries.append((name, 'dir', None))
        elif k == 1:
            entries.append((name, 'dangling', None))
        elif k == 2:
            entries.append((name, 'dirlink', None))
        elif k in (3, 4):
            entries.append((name, 'badyaml', draw(st.sampled_from(BAD_YAML))))
        elif k == 5:
            entries.append((name, 'badstruct', draw(st.sampled_from(BAD_STRUCT))))
        elif k == 6 and draw(st.booleans()):
            entries.append((name, 'unknown', draw(st.sampled_from(['nospec', 'Data', 'data ']))))
        else:
            descr = []
            for spec, args in draw(src_entries()):
                if (spec, yaml.safe_dump(args)) not in used:
                    used.add((spec, yaml.safe_dump(args)))
                    descr.append((spec, args))
            entries.append((name, 'link' if k >= 18 else 'ok', descr))
    # usually only one kind of failure matters
    return (draw(st.sampled_from(DIR_NAMES)), draw(st.sampled_from([True] * 9 + [False])),
            entries, draw(st.integers(0, 1000)))


class shuffled(object):
    """Directory listings come in an arbitrary order."""

    def __init__(self, seed):
        self.rnd = random.Random(seed)

    def __enter__(self):
        self.listdir, self.scandir = os.listdir, os.scandir
        outer = self

        def listdir(*a):
            res = sorted(outer.listdir(*a))
            outer.rnd.shuffle(res)
            return res

        class Scan(object):
            def __init__(self, *a):
                with outer.scandir(*a) as it:
                    self.items = sorted(it, key=lambda e: e.name)
                outer.rnd.shuffle(self.items)
                self.it = iter(self.items)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass
        os.listdir, os.scandir = listdir, Scan

    def __exit__(self, *a):
        os.listdir, os.scandir = self.listdir, self.scandir


class ascii_locale(object):
    """Text files are ASCII by default."""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        self.old = locale.setlocale(locale.LC_CTYPE)
        if self.on:
            locale.setlocale(locale.LC_CTYPE, 'C')

    def __exit__(self, *a):
        locale.setlocale(locale.LC_CTYPE, self.old)


class AnySpec(ctx.DataSpec):
    def unique_id(self, arguments):
        return '%s %r' % (self.name, arguments)


def default_sources():
    d = os.path.join(env.REPO, 'xylem', 'sources', 'sources.d')
    res = []
    for f in sorted(os.listdir(d)):
        for e in yaml.safe_load(open(os.path.join(d, f), encoding='utf-8')):
            res.extend(e.items())
    return res


def check_dir(v, rec):
    dirname, exists, entries, seed = v
    with ctx.TempDir() as base:
        sd = os.path.join(base, dirname)
        target = os.path.join(base, 'elsewhere')
        os.makedirs(target)
        ctx.write(os.path.join(target, 'z.yaml'), '- data: elsewhere\n')
        if exists:
            os.makedirs(sd)
            order = list(entries)
            random.Random(seed).shuffle(order)
            for name, kind, content in order:
                path = os.path.join(sd, name)
                if kind == 'dir':
                    os.makedirs(path)
                    ctx.write(os.path.join(path, 'inner.yaml'), '- data: inner\n')
                elif kind == 'dangling':
                    os.symlink(os.path.join(base, 'nowhere'), path)
                elif kind == 'dirlink':
                    os.symlink(target, path)
                elif kind in ('ok', 'link'):
                    if kind == 'link':
                        # the file itself is somewhere else
                        path = os.path.join(base, 'linked-%d' % len(os.listdir(sd)))
                        os.symlink(path, os.path.join(sd, name))
                    bom = '\ufeff' if seed % 11 == 10 else ''
                    # characters are spread over block boundaries
                    pad = '#' * (seed % 3) + '\n' + ('# ' + '\u20acé' * 30 + '\n') * (
                        LARGE.get(seed, 0) // 150)
                    ctx.write(path, bom + pad + yaml.safe_dump([{s: a} for s, a in content],
                                                   allow_unicode=seed % 2 == 0,
                                                   default_flow_style=[None, True, False][seed % 3]))
                elif kind == 'unknown':
                    ctx.write(path, yaml.safe_dump([{content: 'x'}]))
                else:
                    ctx.write(path, content)
        cfg = ctx.config(sources_dir=sd, cache_dir=os.path.join(base, 'cache'))
        specs = [AnySpec({}, n) for n in SPECS]
        if not exists:
            rec.event('no directory')
            want = default_sources()
            with quiet():
                db = RulesDatabase(SourcesContext(cfg))
            expect_eq([(s.spec.name, s.arguments) for s in db.sources], want, 'default sources')
            expect(want, 'no default sources')
            expect(not os.path.exists(sd), 'sources dir created')
            return
        visible = sorted([e for e in entries if e[0].endswith('.yaml') and
                          not e[0].startswith('.') and e[1] in (
                              'ok', 'link', 'badyaml', 'badstruct', 'unknown')])
        kinds = set(k for _, k, _ in visible)
        for k in kinds:
            rec.event(k)
        if len(visible) < len(entries):
            rec.event('ignored entries')
        rec.nontrivial(len(visible) >= 2 or len(visible) < len(entries))
        err = None
        with quiet() as (_, stderr), shuffled(seed), ascii_locale(seed % 4 == 1):
            try:
                db = RulesDatabase(SourcesContext(cfg, specs))
            except (ValueError, XylemError) as e:
                err = e
        if 'badstruct' in kinds and 'unknown' not in kinds:
            expect(isinstance(err, ValueError), 'invalid structure gave {0!r}',
                   err or [(s.spec.name, s.arguments) for s in db.sources])
            return
        if kinds & {'unknown', 'badstruct'}:
            expect(err is not None, 'unknown spec or invalid structure accepted')
            return
        if err is not None:
            raise err
        want = []
        for name, kind, content in visible:
            for s, a in content if kind in ('ok', 'link') else ():
                want.append((s, a, os.path.realpath(os.path.join(sd, name))))
            reported = re.search(re.escape(os.path.join(sd, name)) + '(?![\\w.~])',
                                 plain(stderr.getvalue()))
            if kind == 'badyaml':
                expect(reported,
                       'invalid YAML file {0} not reported: {1}', name, stderr.getvalue())
            else:
                expect(not reported, 'valid file {0} reported: {1}',
                       name, stderr.getvalue())
        got = [(s.spec.name, s.arguments, os.path.realpath(s.origin)) for s in db.sources]
        expect_same([list(x) for x in got], [list(x) for x in want], 'sources')
        for x in db.sources:
            expect(any(x.spec is y for y in specs), 'the source has a spec of another context')


# sizes of source files with comments
LARGE = {995: 5000, 996: 9000, 997: 20000, 998: 70000, 999: 140000, 1000: 70000}


def dir_examples():
    ok = ('b.yaml', 'ok', [('data', 'x')])
    res = [(d, e, [], 0) for d in DIR_NAMES for e in (True, False)]
    res += [('sources.d', True, [('a.yaml', 'badstruct', b), ok], 0) for b in BAD_STRUCT]
    res += [('sources.d', True, [('a.yaml', 'badyaml', b), ok], 0) for b in BAD_YAML]
    res += [('sources.d', True, [(n, 'ok', [('data', 'y')]), ok], 0) for n in OTHER_NAMES]
    res += [('sources.d', True, [('a.yaml', 'ok', [('data', a)]), ok], k) for k in (0, 4, 10, 5, 21)
            for a in ('\xe9', '\u20ac \U0001f600', 'z')]
    res += [(d, True, [('README', 'ok', [('data', 'y')]), ok], 1) for d in DIR_NAMES]
    res += [('sources.d', True, [(n, k, None), ok], 2) for n in ('a.yaml', 'z.yaml', '.yaml')
            for k in ('dir', 'dangling', 'dirlink')]
    res += [('sources.d', True, [(n, 'ok', [('data', a)]), ok], k) for n in ('a.yaml', 'z.yaml')
            for k in LARGE for a in ('y', 'é')]
    res += [('sources.d', True, [(n, 'link', [('data', 'y')]), ok], 3)
            for n in ('a.yaml', 'z.yaml', '.yaml', 'a.txt')]
    return res


SUBS['S01'] = [Sub('dir', dir_case(), check_dir, quick=1500, qshards=4, examples=dir_examples())]
RULES['S01'] = ('directories with random names, kinds of entries, contents and listing orders; '
                'non-trivial if there are at least two source files or entries to be ignored')


# ------------------------------------------------------------------- S02, S03

class World(object):
    """Sources directory with rules files whose contents change over time."""

    FILES = ['a.yaml', 'A.yaml', 'a b.yaml', 'é.yaml', 'a.yaml.yaml']

    def __init__(self, base, layout, variants=()):
        self.base = base
        self.rules_dir = os.path.join(base, 'rules')
        os.makedirs(self.rules_dir)
        self.sd = os.path.join(base, 'sources.d')
        os.makedirs(self.sd)
        self.urls = []
        files = {}
        for n, where in enumerate(layout):
            self.urls.append(self.url(n))
            files.setdefault(where, []).append(n)
        for where, ns in files.items():
            ctx.write(os.path.join(self.sd, where),
                      yaml.safe_dump([{'rules': self.urls[n]} for n in ns], allow_unicode=True))
        self.order = [n for f in sorted(files) for n in files[f]]
        self.origin = dict((n, os.path.join(self.sd, f)) for f in files for n in files[f])
        self.cfg = ctx.config(sources_dir=self.sd, cache_dir=os.path.join(base, 'cache'))

    def path(self, n):
        return os.path.join(self.rules_dir, self.FILES[n])

    def url(self, n):
        from urllib.request import pathname2url
        return 'file://' + pathname2url(self.path(n))

    def write(self, n, text):
        ctx.write(self.path(n), text)

    def remove(self, n):
        if os.path.isdir(self.path(n)):
            os.rmdir(self.path(n))
        elif os.path.exists(self.path(n)):
            os.remove(self.path(n))

    def context(self):
        if self.shared is None:
            return SourcesContext(self.cfg, [RulesSpec()])
        return self.shared

    # one context for everything
    shared = None

    def db(self):
        return RulesDatabase(self.context())


small_rules = st.dictionaries(
    st.sampled_from(['foo', 'bar']), gen.exp_os_dict(
        oses=['ubuntu'], versions={'ubuntu': ['precise', 'trusty']},
        defaults=gen.BUILTIN_DEFAULTS), max_size=2)
layouts = st.lists(st.sampled_from(['1.yaml', '2.yaml', '3.yaml']), min_size=1, max_size=4)


# values that are valid in a rules file, but not in every serialization format
EXOTIC = [datetime.date(2014, 5, 6), datetime.datetime(2014, 5, 6, 7, 8, 9, 10), {1: 'a', '1': 'b'},
          {None: 1, True: 2, 1.5: 3}, b'\xff\x00', 1e300, -0.0, float('inf'), 10 ** 30, [[], {}, [[]]],
          {'a': {2: {3: [None]}}}, '\u2028 \U0001f600', 'x' * 5000, '1', 'True', {datetime.date(1, 1, 1): 1},
          {'x', 'y'}, '\x85', '', ' ', '\n', {'': None}]


def exotic(doc, k):
    """Some rule has additional entries with the k-th such value."""
    if k >= len(EXOTIC):
        return doc
    doc = copy.deepcopy(doc)
    doc.setdefault('foo', {}).setdefault('ubuntu', {}).setdefault('precise', {})['pip'] = {
        'packages': ['p'], 'options': EXOTIC[k], 'other': [EXOTIC[k], {'v': EXOTIC[k - 1]}]}
    # some characters do not survive being dumped
    return yaml.safe_load(yaml.safe_dump(doc, allow_unicode=True))


@st.composite
def cache_history(draw):
    layout = draw(layouts)
    n = len(layout)
    steps = [('edit', i, draw(small_rules), draw(st.integers(0, len(EXOTIC) * 2))) for i in range(n)]
    steps.append(('update', draw(st.integers(0, 1))))
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        i = draw(st.integers(0, n - 1))
        if k <= 2:
            steps.append(('edit', i, draw(small_rules), draw(st.integers(0, len(EXOTIC) * 2))))
        elif k == 7:
            # the rules stay as they are until the next update, however old
            steps.append(('age', draw(st.sampled_from([0.01, 1.1, 8, 40, 400, 9000, -2, -400])), draw(st.booleans())))
        elif k == 8:
            # the update repairs damaged cache files
            steps.append(('damage', draw(st.sampled_from(DAMAGES)), draw(st.integers(0, 2))))
        elif k == 9:
            steps.append(('lost', draw(st.booleans()), draw(st.integers(0, 2))))
        elif k == 3:
            steps.append(('remove', i))
        elif k == 4:
            steps.append(('move', i, draw(st.sampled_from(['0.yaml', '4.yaml']))))
        else:
            steps.append(('update', draw(st.integers(0, 2))))
    return layout, steps, draw(st.sampled_from([('ubuntu', 'precise'), ('ubuntu', 'trusty')]))


DAMAGES = ['garbage', 'empty', 'cut', 'type', 'missing keys', 'spec name', 'future', 'class', 'text']


def damage(w, cached, how):
    """Something happened to the cache files."""
    for n, s in zip(w.order, w.db().sources):
        path = s.cache_file_path()
        if n not in cached:
            continue
        with open(path, 'rb') as f:
            old = f.read()
        new = {'garbage': b'\x80\x02garbage', 'empty': b'', 'cut': old[:-5], 'text': b'foo: {}\n',
               'type': pickle.dumps([1], 2), 'missing keys': pickle.dumps({'data': {}}, 2),
               'class': b'cnot_there\nMissing\n.'}.get(how)
        if new is None:
            content = pickle.loads(old)
            if how == 'spec name':
                content['spec_name'] = 'other'
            else:
                content['xylem_version'] = content['spec_version'] = '99.0.0'
            new = pickle.dumps(content, 2)
        with open(path, 'wb') as f:
            f.write(new)


def age(w, cached, days, load_time):
    """Time passes (also backwards)."""
    for n, s in zip(w.order, w.db().sources):
        if n not in cached:
            continue
        if load_time:
            with quiet():
                s.load_from_cache()
                delta = datetime.timedelta(days=days)
                s.time_data_loaded -= delta
                s.save_to_cache()
            for k in ('t0', 't1', 'exact'):
                if cached[n][k] is not None:
                    cached[n][k] -= delta
        now = time.time() - days * 86400
        os.utime(s.cache_file_path(), (now, now))


def do_update(w, how):
    """Update; returns (printed to stderr, sources of the database or None)."""
    with quiet() as (out, err):
        if how == 0:
            update(config=w.cfg, sources_context=w.context())
            return err.getvalue(), None
        if how == 2:
            update(sources_context=w.context())
            return err.getvalue(), None
        db = w.db()
        db.sources_context.ensure_cache_dir()
        db.raise_on_error = False
        db.update()
        return err.getvalue(), db.sources


def check_answers(w, cached, os_tuple, rec):
    """A fresh database answers as the cached rules say."""
    with quiet() as (out, err):
        db = w.db()
        db.raise_on_error = True
        db.load_from_cache()
    ic = ctx.installer_context(os_tuple)
    expect_eq(len(db.sources), len(w.order), 'number of sources')
    for src, n in zip(db.sources, w.order):
        want = cached[n]
        expect_same(src.data, want['data'], 'data of source %d' % n)
        expect_eq(src.arguments, w.urls[n], 'arguments of source %d' % n)
        expect_eq(os.path.abspath(src.origin), want['origin'], 'origin of source %d' % n)
        t = src.time_data_loaded
        expect(isinstance(t, datetime.datetime), 'load time {0!r}', t)
        if want['exact'] is not None:
            expect_eq(t, want['exact'], 'load time of source %d' % n)
        expect(want['t0'] <= t <= want['t1'], 'load time {0} of source {1} not between {2} and {3}',
               str(t), n, str(want['t0']), str(want['t1']))
        for k in ('foo', 'bar', 'unknown'):
            expect_same(src.lookup(k, ic), ref.lookup(want['data'], k, os_tuple[0], os_tuple[1],
                                                      'apt'), 'lookup in source %d' % n)
    layers = [cached[n]['data'] for n in w.order]
    for k in ('foo', 'bar', 'unknown'):
        expect_same(db.lookup(k, ic), ref.layered(layers, k, os_tuple[0], os_tuple[1], 'apt'),
                    'lookup of %s' % k)
    expect_eq(sorted(db.keys(ic)), sorted(set(
        k for l in layers for k in l if ref.has_rule(l[k], *os_tuple))), 'keys')
    files = os.listdir(db.sources_context.cache_dir)
    paths = set(s.cache_file_path() for s in db.sources)
    expect_eq(len(paths), len(w.order), 'number of distinct cache files')
    expect_eq(set(os.path.join(db.sources_context.cache_dir, f) for f in files), paths,
              'files in the cache directory')
    rec.count('fresh databases')


def check_cache_history(v, rec):
    layout, steps, os_tuple = v
    with ctx.TempDir() as base:
        w = World(base, layout)
        if len(steps) % 3 == 0:
            w.shared = w.context()
            rec.event('one context')
        current, cached = {}, {}
        changed_since = False
        updates = 0
        for step in steps:
            if step[0] == 'edit':
                current[step[1]] = exotic(step[2], step[3])
                w.write(step[1], yaml.safe_dump(current[step[1]], allow_unicode=True))
                if step[3] < len(EXOTIC):
                    rec.event('unusual values')
                changed_since = updates > 0
            elif step[0] == 'remove':
                current.pop(step[1], None)
                w.remove(step[1])
                changed_since = updates > 0
            elif step[0] == 'age':
                age(w, cached, step[1], step[2])
                rec.event('older')
            elif step[0] == 'move':
                # the source is listed in another file
                files = {}
                w.origin[step[1]] = os.path.join(w.sd, step[2])
                for f in os.listdir(w.sd):
                    os.remove(os.path.join(w.sd, f))
                for n in sorted(w.origin):
                    files.setdefault(w.origin[n], []).append(n)
                for f, ns in files.items():
                    ctx.write(f, yaml.safe_dump([{'rules': w.urls[n]} for n in ns],
                                                allow_unicode=True))
                w.order = [n for f in sorted(files) for n in files[f]]
            else:
                if step[0] == 'lost':
                    # the update makes the cache directory again
                    if updates:
                        shutil.rmtree(w.cfg.cache_dir if step[1] else w.context().cache_dir)
                        rec.event('cache directory removed')
                    for n in w.order:
                        if n not in current:
                            current[n] = {}
                            w.write(n, '{}')
                    step = step[1:]
                if step[0] == 'damage':
                    damage(w, dict((n, c) for n, c in cached.items() if n in current), step[1])
                    step = step[1:]
                    rec.event('damaged: %s' % step[0])
                t0 = datetime.datetime.now()
                _, sources = do_update(w, 0 if step[1] == 2 else step[1])
                t1 = datetime.datetime.now()
                for pos, n in enumerate(w.order):
                    if n in current:
                        cached[n] = dict(
                            data=copy.deepcopy(current[n]), t0=t0, t1=t1, origin=w.origin[n],
                            exact=sources[pos].time_data_loaded if sources else None)
                updates += 1
                changed_since = False
            if updates:
                check_answers(w, cached, os_tuple, rec)
                if changed_since:
                    rec.event('changed since update')
                    rec.nontrivial()
        if updates > 1:
            rec.event('several updates')


@st.composite
def dup_case(draw):
    n = draw(st.integers(1, 3))
    entries = [('rules', 'file:///r%d' % i) for i in range(n)]
    dup = draw(st.integers(0, n - 1))
    url = draw(st.sampled_from(['file:///r%d'] * 3 + SIMILAR_URLS)).replace('%d', str(dup))
    pos = draw(st.integers(0, n))
    entries.insert(pos, ('rules', url))
    split = draw(st.integers(0, n + 1))
    return entries, split, url == 'file:///r%d' % dup


SIMILAR_URLS = [
    'file:///r%d ', ' file:///r%d', 'file:///R%d', 'file://localhost/r%d', 'file:///r%d#', 'file:///r%d?', 'FILE:///r%d',
    'file:////r%d', 'file:///r%d/', 'file:///./r%d', 'file:///r%d.', 'file:///r%d\n', 'file:///r%d\u200b',
    'file:///%72%d', 'file:///r%d&', 'file:///r%d;', 'file:///r%d\u0301', 'file:///r\xb2%d']
DIFFERENT_URLS = [
    'file:///\xe4', 'file:///\xf6', 'file:///a\u0308', 'file:///a', 'file:///\U0001f600', 'file:///\U0001f601', 'file:///?',
    'file:///%E4', 'file:///%C3%A4', 'file:///\xc3\xa4', 'file:///\ufffd', 'file:///\\xe4', 'file:///',
    'file:///\u1e9e', 'file:///\xdf', 'file:///ss', 'file:///\u0435', 'file:///e', 'http:///a', 'file://a']


def dup_examples():
    for url in ['file:///r%d'] + SIMILAR_URLS:
        yield ([('rules', 'file:///r0'), ('rules', url.replace('%d', '0'))], 1, url == 'file:///r%d')
    for n in (50, 63, 120, 199, 254, 255, 1023, 4000):
        long = 'file:///' + 'd/' * n
        yield [('rules', long + 'a'), ('rules', long + 'b')], 1, False
        yield [('rules', 'file:///a' + long), ('rules', 'file:///b' + long)], 1, False
        yield [('rules', long + 'a'), ('rules', long + 'a')], 1, True
    yield [('rules', u) for u in DIFFERENT_URLS], 9, False
    for u in DIFFERENT_URLS:
        yield [('rules', 'file:///x'), ('rules', u), ('rules', u)], 2, True


def check_dup(v, rec):
    entries, split, same = v
    rec.nontrivial()
    rec.event('same' if same else 'similar')
    with ctx.TempDir() as base:
        sc = ctx.sources_context(base, [RulesSpec()], {'1.yaml': entries[:split],
                                                       '2.yaml': entries[split:]})
        try:
            db = RulesDatabase(sc)
        except RuntimeError:
            expect(same, 'different sources {0} refused', entries)
            return
        expect(not same, 'source configured twice was accepted: {0}', entries)
        expect_eq(len(set(s.cache_file_path() for s in db.sources)), len(entries),
                  'distinct cache files')


def check_many(v, rec):
    """The cache files of any two sources differ."""
    prefix, count = v
    rec.nontrivial()
    with ctx.TempDir() as base:
        sc = ctx.sources_context(base, [AnySpec({})], {})
        seen = {}
        for i in range(count):
            arg = prefix % (hashlib.md5(b'%d' % i).hexdigest() if count > 200000 else chr(161 + i + (2048 if 161 + i >= 0xd800 else 0)) if '%s' in prefix else i)
            path = RulesSource(sc.get_spec('data'), arg, 'x', sc).cache_file_path()
            expect(path not in seen, 'sources {0!r} and {1!r} have the same cache file {2}', arg,
                   seen.get(path), os.path.basename(path))
            seen[path] = arg
            expect_eq(os.path.dirname(os.path.abspath(path)), os.path.abspath(sc.cache_dir),
                      'directory of the cache file')
    rec.count('sources', count)


SUBS['S02'] = [
    Sub('many', st.tuples(st.sampled_from(['%d', 'http://x/%d.yaml', 'é/%d', '%08x', '{%d}',
                                           'http://x/' + 'y/' * 150 + '%d', '%d/' + 'y/' * 150]),
                          st.sampled_from([5000, 20000])), check_many, quick=6, thorough=40, shards=1,
        examples=[('file:///%d', 100000), ('file:///%s', 70000), ('http://x/%s', 250000)]),
    Sub('history', cache_history(), check_cache_history, quick=300, qshards=5),
    Sub('unique', dup_case(), check_dup, quick=160, thorough=1000, shards=1, examples=list(dup_examples())),
]
RULES['S02'] = ('histories of editing/removing rules files, moving sources and updating, each state '
                'read by a fresh database; non-trivial if answers were compared after source files '
                'had changed since the update (unique: always)')

FAIL_KINDS = ['missing', 'notyaml', 'badvalue', 'badident', 'list', 'directory', 'defaultany',
              'braces', 'percent', 'markup']


def break_source(w, n, kind):
    w.remove(n)
    text = {'notyaml': 'foo: [', 'badvalue': 'foo:\n  ubuntu: 3\n',
            'badident': 'a b:\n  ubuntu: x\n', 'list': '- foo\n',
            'defaultany': 'foo:\n  any_os: x\n',
            # end up in the error message
            'braces': '"a {0} {x} {":\n  ubuntu: {a: "{}{", "{y!r:>9}": 3}\n',
            'percent': '"a %s %(x)d %":\n  ubuntu: "%n"\n',
            'markup': '"a @{rf} @| @!":\n  ubuntu: "@("\n'}.get(kind)
    if kind == 'directory':
        os.makedirs(w.path(n))
    elif text:
        w.write(n, text)


@st.composite
def failing_history(draw):
    layout = draw(layouts)
    n = len(layout)
    rounds = []
    for _ in range(draw(st.integers(1, 4))):
        states = [draw(st.one_of(small_rules, small_rules, st.sampled_from(FAIL_KINDS),
                                 st.just('keep'))) for _ in range(n)]
        # a directory in place of the cache file makes saving fail
        blocked = draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, n - 1)))
        rounds.append((states, draw(st.sampled_from([0, 1, 'raise', 0, 1])), blocked,
                       draw(st.sampled_from([None] * 8 + ['gone', 'file', 'dangling']))))
    return layout, rounds, draw(st.sampled_from([('ubuntu', 'precise'), ('ubuntu', 'trusty')]))


def cache_bytes(paths):
    return dict((p, open(p, 'rb').read() if os.path.isfile(p) else None) for p in paths)


def lose_cache(w, state, saved, lost, rec):
    """The cache directory goes away before the update and comes back after it."""
    cache = w.cfg.cache_dir
    db = w.db()
    db.raise_on_error = False
    os.rename(cache, cache + '-kept')
    before = ctx.snapshot(cache + '-kept')
    if lost == 'file':
        ctx.write(cache, 'no directory')
    elif lost == 'dangling':
        os.symlink(cache + '-nowhere', cache)
    with quiet() as (out, err):
        db.update()
    err = plain(err.getvalue())
    for src, n in zip(db.sources, w.order):
        if isinstance(state[n], dict):
            expect_same(src.data, state[n], 'loaded data of source %d' % n)
            # the directory may have been made again
            expect(w.urls[n] in err or os.path.isfile(src.cache_file_path()),
                   'source {0} neither saved nor reported: {1}', n, err)
        else:
            expect(w.urls[n] in err, 'failure of {0} not reported: {1}', n, err)
    if os.path.islink(cache) or os.path.isfile(cache):
        os.remove(cache)
    elif os.path.isdir(cache):
        shutil.rmtree(cache)
    expect_eq(ctx.snapshot(cache + '-kept'), before, 'old cache')
    os.rename(cache + '-kept', cache)
    rec.event('no cache directory: %s' % lost)
    rec.nontrivial(len(w.order) > 1)


def check_failing(v, rec):
    layout, rounds, os_tuple = v
    with ctx.TempDir() as base:
        w = World(base, layout)
        state = dict((n, 'missing') for n in range(len(layout)))
        saved = {}
        paths = dict(zip(w.order, [s.cache_file_path() for s in w.db().sources]))
        for states, how, blocked, lost in rounds:
            for n, s in enumerate(states):
                if s == 'keep':
                    continue
                state[n] = s
                if isinstance(s, dict):
                    break_source(w, n, 'missing')
                    w.write(n, yaml.safe_dump(s, allow_unicode=True))
                else:
                    break_source(w, n, s)
            w.context().ensure_cache_dir()
            if lost:
                lose_cache(w, state, saved, lost, rec)
                continue
            if blocked is not None and not os.path.exists(paths[blocked]):
                os.mkdir(paths[blocked])
                rec.event('save fails')
            else:
                blocked = None
            before = cache_bytes(paths.values())
            bad = [n for n in w.order if not isinstance(state[n], dict)]
            failing = [n for n in w.order if n in bad or n == blocked]
            for n in bad:
                rec.event('fails: %s' % state[n])
            rec.nontrivial(0 < len(bad) < len(layout) or
                           any(n in saved for n in bad))
            if how == 'raise':
                db = w.db()
                db.raise_on_error = True
                err = None
                with quiet():
                    try:
                        db.update()
                    except Exception as e:
                        err = e
                expect_eq(err is not None, bool(failing), 'update raised (%r)' % err)
                updated = w.order[:w.order.index(failing[0])] if failing else w.order
                untouched = [n for n in w.order if n not in updated]
                if failing and failing[0] in bad and state[failing[0]] in ('badident',):
                    expect(isinstance(err, (ValueError, XylemError)), 'raised {0!r}', err)
                rec.event('raise on error')
                # whether sources behind the failing one are processed is open
                check_untouched = failing[:1]
            else:
                stderr, _ = do_update(w, how)
                stderr = plain(stderr)
                updated = [n for n in w.order if n not in failing]
                check_untouched = failing
                for n in w.order:
                    expect_eq(w.urls[n] in stderr, n in failing,
                              'failure of %s reported in %r' % (w.urls[n], stderr))
            after = cache_bytes(paths.values())
            for n in check_untouched:
                expect_eq(after[paths[n]], before[paths[n]], 'cache of failed source %d' % n)
            for n in updated:
                saved[n] = state[n]
            # what can be read now
            with quiet():
                fresh = w.db()
                for src, n in zip(fresh.sources, w.order):
                    if how == 'raise' and n not in updated and n not in check_untouched:
                        # might or might not have been processed
                        try:
                            src.load_from_cache()
                            saved[n] = src.data
                        except Exception:
                            expect(n not in saved, 'cache of {0} became unreadable', n)
                        continue
                    if n in saved:
                        src.load_from_cache()
                        expect_same(src.data, saved[n], 'cached data of source %d' % n)
                    else:
                        try:
                            src.load_from_cache()
                        except Exception:
                            pass
                        else:
                            fail('loaded a cache that was never written')
            if blocked is not None:
                os.rmdir(paths[blocked])


def load_errors():
    """Exceptions with which loading can fail."""
    import http.client
    import socket
    import urllib.error
    from xylem.load_url import DownloadFailure

    class Odd(Exception):
        def __init__(self, a, b):
            Exception.__init__(self)

    def chained():
        e = ValueError('outer {0} %s')
        e.__cause__ = KeyError('inner')
        return e
    return {
        'empty': lambda: Exception(), 'key': lambda: KeyError('k'), 'braces': lambda: ValueError('{0} {x} {'),
        'percent': lambda: ValueError('%s %(a)s %'), 'markup': lambda: XylemError('@{rf}@|@'),
        'unicode': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid'),
        'non-ascii': lambda: ValueError('\xe9\u20ac\U0001f600'), 'bytes': lambda: ValueError(b'\xff{0}'),
        'surrogate': lambda: ValueError('\udcff'), 'oserror': lambda: OSError(2, 'No such file', '/x/{0}'),
        'url': lambda: urllib.error.URLError('x'), 'incomplete': lambda: http.client.IncompleteRead(b'', 3),
        'http': lambda: urllib.error.HTTPError('http://x', 404, 'gone', {}, None),
        'timeout': lambda: socket.timeout('timed out'), 'download': lambda: DownloadFailure('x'),
        'stop': lambda: StopIteration(), 'recursion': lambda: RecursionError('deep'),
        'memory': lambda: MemoryError(), 'assertion': lambda: AssertionError(), 'import': lambda: ImportError('x'),
        'attribute': lambda: AttributeError('x'), 'notimpl': lambda: NotImplementedError(), 'odd': lambda: Odd(1, 2),
        'args': lambda: Exception('a', 1, None), 'chained': chained, 'lines': lambda: ValueError('a\nb\r\n\n'),
        'eof': lambda: EOFError(), 'pickle': lambda: pickle.UnpicklingError('x'), 'lookup': lambda: LookupError('x'),
        'permission': lambda: PermissionError(13, 'Permission denied'), 'yaml': lambda: yaml.YAMLError('{0}')}


class Failing(ctx.DataSpec):
    """Loading, verifying or saving what was loaded fails with chosen exceptions."""

    def __init__(self, table, failures):
        super(Failing, self).__init__(table)
        self.failures = failures

    def unique_id(self, arguments):
        return 'source-<%s>' % arguments

    def load_data(self, arguments):
        where, kind = self.failures.get(arguments, (None, None))
        if where == 'load':
            raise load_errors()[kind]()
        if where == 'save':
            return Unpicklable(load_errors()[kind]())
        return super(Failing, self).load_data(arguments)

    def verify_data(self, data, arguments):
        where, kind = self.failures.get(arguments, (None, None))
        if where == 'verify' and data is self._table[arguments]:
            raise load_errors()[kind]()
        if isinstance(data, Unpicklable):
            return
        return super(Failing, self).verify_data(data, arguments)


def check_exceptions(v, rec):
    n, failures, names, method = v
    failures = dict(failures)
    failures = dict((names[i], f) for i, f in failures.items() if i < n)
    names = names[:n]
    if method in ('load', 'dry', 'load!'):
        # nothing is saved
        failures = dict((a, f) for a, f in failures.items() if f[0] != 'save')
    if method in ('save', 'save!'):
        failures = dict((a, ('save', f[1])) for a, f in failures.items())
    rec.nontrivial(0 < len(failures) < n)
    for where, kind in failures.values():
        rec.event('%s fails: %s' % (where, kind))
    with ctx.TempDir() as base:
        docs = dict((a, {'k%d' % i: {'ubuntu': {'precise': {'apt': {'packages': ['p%d' % i]}}}}})
                    for i, a in enumerate(names))
        spec = Failing(docs, {})
        sc = ctx.sources_context(base, [spec], {'1.yaml': [('data', a) for a in names]})
        sc.ensure_cache_dir()
        first = [a for i, a in enumerate(names) if i % 2]    # have been loaded before
        for s in RulesDatabase(sc).sources:
            if s.arguments in first:
                s.load_from_source()
                s.save_to_cache()
        before = cache_bytes([s.cache_file_path() for s in RulesDatabase(sc).sources])
        spec.failures = failures
        db = RulesDatabase(sc)
        db.raise_on_error = method.endswith('!')
        if db.raise_on_error:
            check_first_raised(db, failures, names, method, docs, before)
            return
        with quiet() as (out, err):
            if method == 'update':
                update(sources_context=sc)
            elif method == 'dry':
                update(sources_context=sc, dry_run=True)
            elif method == 'database':
                db.update()
            else:
                db.load_from_source()
                if method == 'save':
                    db.save_to_cache()
        text = plain(err.getvalue())
        for a in names:
            expect_eq(spec.unique_id(a) in text, a in failures,
                      'failure of %r reported in %r' % (a, text))
        spec.failures = {}
        fresh = RulesDatabase(sc)
        after = cache_bytes([s.cache_file_path() for s in fresh.sources])
        for i, s in enumerate(fresh.sources):
            path = s.cache_file_path()
            if method in ('load', 'dry'):
                expect_eq(after[path], before[path], 'cache of %r' % s.arguments)
                if method == 'load':
                    expect_eq(db.sources[i].data, None if s.arguments in failures else docs[s.arguments],
                              'loaded data of %r' % s.arguments)
            elif s.arguments in failures:
                expect_eq(after[path], before[path], 'cache of the failed %r' % s.arguments)
            else:
                expect(after[path] is not None, 'no cache for {0!r}', s.arguments)
                s.load_from_cache()
                expect_eq(s.data, docs[s.arguments], 'cached data of %r' % s.arguments)


def check_first_raised(db, failures, names, method, docs, before):
    """The failure of the first failing source is raised, what comes before it has been done."""
    failing = [a for a in names if a in failures]
    error = None
    with quiet():
        try:
            if method == 'update!':
                db.update()
            else:
                db.load_from_source()
                if method == 'save!':
                    db.save_to_cache()
        except Exception as e:
            error = e
    first = names.index(failing[0]) if failing else len(names)
    if failing:
        want = load_errors()[failures[failing[0]][1]]()
        expect(type(error).__name__ == type(want).__name__, 'the failure {0!r} was not raised, but {1!r}', want, error)
    else:
        expect(error is None, 'raised {0!r}', error)
    after = cache_bytes(before)
    for i, s in enumerate(db.sources):
        path = s.cache_file_path()
        if method == 'load!' or i == first:
            expect_eq(after[path], before[path], 'cache of %r' % s.arguments)
        elif i < first:
            expect(after[path] is not None, 'no cache for {0!r}', s.arguments)
            s.load_from_cache()
        if i < first:
            expect_eq(s.data, docs[s.arguments], 'data of %r' % s.arguments)


SOURCE_NAMES = ['a', '{0}', '%s', 'é', 'a b', '{', '}', '%(x)s', '@{rf}', 'x{x!r}']
FAILURES = sorted(load_errors())
SUBS['S03'] = [
    Sub('history', failing_history(), check_failing, quick=600, qshards=6),
    Sub('exceptions', st.tuples(
        st.integers(1, 5), st.dictionaries(st.integers(0, 4), st.tuples(
            st.sampled_from(['load', 'verify', 'save']), st.sampled_from(FAILURES)), max_size=3),
        st.permutations(SOURCE_NAMES), st.sampled_from([
            'update', 'database', 'dry', 'load', 'save', 'update!', 'load!', 'save!'])),
        check_exceptions, quick=500, qshards=2,
        examples=[(3, {1: (w, k)}, SOURCE_NAMES, m) for k in FAILURES for w in ('load', 'verify', 'save')
                  for m in ('update', 'update!', 'database' if w == 'save' else 'load', 'save!' if w == 'save' else 'load!')] +
                 [(2, {0: ('load', 'key')}, [a, 'b'], m) for a in SOURCE_NAMES
                  for m in ('update', 'load')]),
]
RULES['S03'] = ('histories of updates with random subsets of sources failing in random ways and '
                'recovering, optionally with one unwritable cache entry; non-trivial if in some '
                'update some sources fail and others do not, or a failing source has a cache entry')


# ------------------------------------------------------------------------ S04

class Unpicklable(object):
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc


class NoVerify(ctx.DataSpec):
    def verify_data(self, data, arguments):
        pass


def make_data(kind):
    """(size, tag, poison) -> rules dict."""
    size, tag, poison = kind
    data = dict(('key%d' % i, {'ubuntu': {'any_version': {'apt': {
        'packages': ['%s-%d-%s' % (tag, i, 'x' * 20)]}}}}) for i in range(size))
    if poison == 'unpicklable':
        data['zz'] = Unpicklable(TypeError('cannot pickle'))
    elif poison == 'interrupt':
        data['zz'] = Unpicklable(KeyboardInterrupt())
    elif poison == 'lambda':
        data['zz'] = lambda: None
    return data


@st.composite
def crash_case(draw):
    sizes = st.sampled_from([0, 1, 3, 40, 300])
    old = draw(st.one_of(st.none(), st.tuples(sizes, st.just('old'), st.none())))
    kind = draw(st.sampled_from(['fsize-kill', 'fsize-error', 'fsize-error', 'op-kill', 'op-kill',
                                 'op-error', 'op-error', 'poison', 'op-interrupt', 'op-late-kill',
                                 'op-late-error', 'op-other', 'op-other']))
    poison = draw(st.sampled_from(['unpicklable', 'interrupt', 'lambda'])) \
        if kind == 'poison' else None
    new = (draw(sizes), 'new', poison)
    # which points to try, as fractions of 1000 (the end points are always tried)
    points = draw(st.lists(st.integers(0, 1000), min_size=6, max_size=10, unique=True)) \
        if kind.startswith('fsize') else []
    # saving by the source, by its database, or by updating the database
    how = draw(st.sampled_from(['source', 'source', 'update', 'database']))
    return old, kind, new, points, draw(st.booleans()), how


def child(fn):
    """Run fn in a forked child; returns its wait status."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 90
        try:
            code = fn()
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    child.pid = pid
    return status


def reuse_pid(path, pid):
    """Make what a process left behind appear as left by a previous one with our own id."""
    old, new = '.%d.' % pid, '.%d.' % os.getpid()
    for n in os.listdir(path):
        if old in n:
            os.rename(os.path.join(path, n), os.path.join(path, n.replace(old, new)))


def meanwhile(fn):
    """Run fn in a forked child; gives up if it waits for this process."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            fn()
            code = 0
        finally:
            os._exit(code)
    for _ in range(500):
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            if status:
                os._exit(22)
            return
        time.sleep(0.01)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    os._exit(21)


def run_save(src, base, fault, db=None, how='source', other=None):
    """In the child: save with a fault armed.

    Exit codes: 0 saved, 1 error, 5 error reported or not, 7 killed, 21 other process blocked,
    22 other process failed."""
    kind, arg = fault
    if kind.startswith('fsize'):
        if kind == 'fsize-error':
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        else:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (arg, arg))
    elif kind.startswith('op'):
        state = dict(n=0, done=False)
        if 'late' in kind:
            # from the n-th operation on, nothing can be written
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if kind == 'op-late-error' else signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def hook(event, args):
            if state['done'] or not (event == 'open' or event.startswith('os.')):
                return
            if not any(isinstance(a, (str, bytes)) and
                       os.fsdecode(a).startswith(base) for a in args):
                return
            state['n'] += 1
            if state['n'] == arg:
                if kind == 'op-kill':
                    os._exit(7)
                state['done'] = True
                if kind == 'op-other':
                    # another process saves the same source in between
                    meanwhile(other)
                    return
                if 'late' in kind:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))
                    return
                if kind == 'op-interrupt':
                    raise KeyboardInterrupt()
                raise OSError(errno.ENOSPC, 'No space left on device')
        sys.addaudithook(hook)
    try:
        if how == 'source':
            src.save_to_cache()
        else:
            db.raise_on_error = False
            with quiet():
                if how == 'update':
                    db.update()
                else:
                    db.save_to_cache()
            return 5
    except Exception:
        return 1
    except KeyboardInterrupt:
        return 1
    finally:
        if kind.startswith('op') and state['n'] < arg:
            # fewer operations than that: nothing was injected
            os._exit(20)
    return 0


def check_crash(v, rec):
    old, kind, new, points, other_first, how = v
    third = (5, 'third', None)
    rec.event(kind)
    rec.event('by %s' % how)
    rec.event('with previous cache' if old else 'without previous cache')
    with ctx.TempDir() as base:
        table = {'a': None, 'b': make_data((2, 'other', None))}
        entries = [('data', 'b'), ('data', 'a')] if other_first else [('data', 'a'), ('data', 'b')]
        sc = ctx.sources_context(base, [NoVerify(table)], {'1.yaml': entries})
        sc.ensure_cache_dir()

        def source(name, db=None):
            return [s for s in (db or RulesDatabase(sc)).sources if s.arguments == name][0]

        def prepare():
            """Database and source that are about to be saved."""
            db = RulesDatabase(sc)
            if how == 'database':
                db.load_from_source()
            elif how == 'source':
                source('a', db).load_from_source()
            return source('a', db), db
        b = source('b')
        b.load_from_source()
        b.save_to_cache()
        b_bytes = open(b.cache_file_path(), 'rb').read()
        a_path = source('a').cache_file_path()
        old_bytes = None
        if old:
            table['a'] = make_data(old)
            a = source('a')
            a.load_from_source()
            a.save_to_cache()
            old_bytes = open(a_path, 'rb').read()
        old_data = make_data(old) if old else None
        new_data = make_data(new)
        table['a'] = new_data
        writer, db = prepare()
        if kind == 'poison':
            size, faults = 0, [('none', 0)]
        elif kind.startswith('fsize'):
            # size of the complete cache file
            size = len(pickle.dumps(new_data, 2)) + 400
            pts = set(p * size // 1000 for p in points) | {0, 1, size}
            pts |= set(p for p in (8191, 8192, 8193) if p < size)
            faults = [(kind, p) for p in sorted(pts)]
        else:
            faults = [(kind, n) for n in range(1, 80)]
        for fault in faults:
            # restore the initial state
            if old_bytes is not None:
                ctx.write(a_path, old_bytes)
            elif os.path.exists(a_path):
                os.remove(a_path)
            ctx.write(b.cache_file_path(), b_bytes)
            def save_other():
                table['a'] = make_data(third)
                s = source('a')
                s.load_from_source()
                s.save_to_cache()
            status = child(lambda: run_save(writer, base, fault, db, how, save_other))
            if os.WIFEXITED(status):
                code = os.WEXITSTATUS(status)
                if code == 20:
                    break
                if code == 21:
                    rec.event('other process has to wait')
                    continue
                expect(code != 22, 'saving fails while another process saves the source {0}', fault)
                expect(code in (0, 1, 5, 7), 'saving ended with {0}', code)
            else:
                code = 7
            rec.count('crash points')
            rec.event({0: 'saved', 1: 'error', 5: 'saved or error reported', 7: 'killed'}[code])
            rec.nontrivial(code in (1, 5, 7) or kind == 'op-other')
            if kind == 'op-other':
                expect(code in (0, 5), 'saving fails if another process saves the source meanwhile {0}',
                       fault)
            else:
                reuse_pid(os.path.dirname(a_path), child.pid)
            where = 'after %s at %s' % fault
            reader = source('a')
            try:
                reader.load_from_cache()
                got = reader.data
            except Exception as e:
                expect(old is None, 'previous cache is unreadable {0}: {1!r}', where, e)
                expect(code != 0, 'successful save is unreadable {0}: {1!r}', where, e)
                expect(not reader.is_cache_available(), 'unreadable cache reported as available {0}: '
                       '{1!r}', where, e)
            else:
                expect(reader.is_cache_available(), 'readable cache reported as missing {0}', where)
                if kind == 'op-other' and got == make_data(third):
                    pass
                elif new[2] is None and got == new_data:
                    pass
                elif old is not None and code != 0 and got == old_data:
                    expect(kind != 'op-other', 'neither save had an effect {0}', where)
                else:
                    fail('cache %s is neither old nor new: %s' % (
                        where, short(got, 200).replace('{', '{{').replace('}', '}}')))
            if how == 'source':
                expect_eq(open(b.cache_file_path(), 'rb').read(), b_bytes,
                          'cache of the other source %s' % where)
            reader = source('b')
            reader.load_from_cache()
            expect_eq(reader.data, table['b'], 'cache of the other source %s' % where)
            # a later save works
            table['a'] = make_data((2, 'later', None))
            again = source('a')
            again.load_from_source()
            again.save_to_cache()
            check = source('a')
            check.load_from_cache()
            expect_eq(check.data, table['a'], 'data after a later save %s' % where)
            table['a'] = new_data
            if kind != 'poison':
                writer, db = prepare()
        else:
            if kind.startswith('op'):
                raise HarnessError('more than 79 file operations')


SUBS['S04'] = [Sub('crash', crash_case(), check_crash, quick=240, qshards=6)]
LEVEL['S04'] = 'fault_enumeration'
RULES['S04'] = ('cache contents of 0-300 keys with or without previous entry x fault kinds (process '
                'killed or I/O error at a byte offset of the written file, or at the n-th file '
                'operation for every n; objects that cannot be pickled); non-trivial if the save did '
                'not complete')


# ------------------------------------------------------------------------ S05

@st.composite
def dry_case(draw):
    layout = draw(st.lists(st.sampled_from(['1.yaml', '2.yaml']), max_size=3))
    n = len(layout)
    first = [draw(st.one_of(small_rules, st.sampled_from(FAIL_KINDS))) for _ in range(n)]
    second = [draw(st.one_of(small_rules, st.sampled_from(FAIL_KINDS), st.just('keep')))
              for _ in range(n)]
    return (layout, first, second,
            draw(st.sampled_from(['missing', 'empty', 'populated', 'corrupt', 'partial', 'parent'])),
            draw(st.sampled_from(['api', 'api', 'command', 'global'])),
            draw(st.booleans()))


def put(w, n, s):
    if s == 'keep':
        return
    break_source(w, n, 'missing')
    if isinstance(s, dict):
        w.write(n, yaml.safe_dump(s, allow_unicode=True))
    else:
        break_source(w, n, s)


def check_dry(v, rec):
    layout, first, second, cache, how, no_sources = v
    with ctx.TempDir() as base:
        w = World(base, layout)
        for n, s in enumerate(first):
            put(w, n, s)
        cache_dir = w.context().cache_dir
        if cache == 'parent':
            os.makedirs(os.path.dirname(cache_dir))
        elif cache != 'missing':
            os.makedirs(cache_dir)
        if cache in ('populated', 'corrupt', 'partial'):
            do_update(w, 0)
            files = sorted(os.listdir(cache_dir))
            if cache == 'corrupt':
                for f in files:
                    ctx.write(os.path.join(cache_dir, f), b'garbage')
                ctx.write(os.path.join(cache_dir, 'left.over.tmp'), b'x')
            elif cache == 'partial' and files:
                os.remove(os.path.join(cache_dir, files[0]))
        state = list(first)
        for n, s in enumerate(second):
            put(w, n, s)
            if s != 'keep':
                state[n] = s
        scratch = os.path.dirname(os.environ['HOME'])
        before = ctx.snapshot(scratch)
        rec.event('cache %s' % cache)
        rec.event(how)
        with quiet() as (out, err):
            if how == 'api':
                update(dry_run=True, config=w.cfg, sources_context=w.context())
            elif how == 'global':
                import xylem.config as xconfig
                old = xconfig.get_config()
                xconfig.set_config(w.cfg)
                try:
                    update(dry_run=True)
                finally:
                    xconfig.set_config(old)
            else:
                from xylem.commands.main import main
                try:
                    main(['update', ['-n', '--dry-run'][no_sources], '--sources-dir', w.sd,
                          '--cache-dir', os.path.join(base, 'cache')])
                except SystemExit as e:
                    expect(e.code in (0, None), 'exit code {0}', e.code)
        expect_eq(ctx.snapshot(scratch), before, 'file system')
        stderr, stdout = plain(err.getvalue()), plain(out.getvalue())
        for n, s in enumerate(state):
            bad = not isinstance(s, dict)
            rec.event('failing source' if bad else 'valid source')
            expect_eq(w.urls[n] in stderr, bad, 'failure of %s (%r) reported in %r' % (
                w.urls[n], s, stderr))
        rec.nontrivial(bool(layout))


class DefaultRules(ctx.DataSpec):
    """Stands in for the spec of the default sources."""

    def __init__(self, failing):
        super(DefaultRules, self).__init__({}, 'rules')
        self.failing = failing
        self.loaded = []

    def load_data(self, arguments):
        self.loaded.append(arguments)
        if len(self.loaded) - 1 in self.failing:
            raise DownloadFailure('stand-in')
        return {'foo': {'ubuntu': {'any_version': {'apt': {'packages': ['p']}}}}}


def check_dry_defaults(v, rec):
    """There is no sources directory."""
    cache, failing, how, parents = v
    with ctx.TempDir() as base:
        conf = ctx.config(sources_dir=os.path.join(base, 'gone/sources.d' if parents else 'sources.d'),
                          cache_dir=os.path.join(base, 'gone/cache' if parents else 'cache'))
        spec = DefaultRules(failing)
        sc = SourcesContext(conf, spec_plugins=[spec])
        if cache != 'missing':
            os.makedirs(os.path.dirname(sc.cache_dir) if cache == 'parent' else sc.cache_dir)
        if cache == 'populated':
            with quiet():
                update(sources_context=SourcesContext(conf, spec_plugins=[DefaultRules([])]))
        scratch = os.path.dirname(os.environ['HOME'])
        before = ctx.snapshot(scratch)
        rec.event('cache ' + cache)
        rec.nontrivial(cache != 'populated')
        with quiet() as (out, err):
            if how == 'config':
                update(dry_run=True, config=conf, sources_context=sc)
            elif how == 'context':
                update(True, sources_context=sc)
            else:
                update(dry_run=True, config={'cache_dir': conf.cache_dir}, sources_context=sc)
        expect_eq(ctx.snapshot(scratch), before, 'file system')
        want = [a for _, a in default_sources()]
        expect_eq(spec.loaded, want, 'loaded sources')
        for n, url in enumerate(want):
            expect_eq(url in plain(err.getvalue()), n in failing, 'failure of %s reported' % url)


SUBS['S05'] = [
    Sub('dry', dry_case(), check_dry, quick=400, qshards=4),
    Sub('defaults', st.tuples(st.sampled_from(['missing', 'parent', 'empty', 'populated']), st.lists(
        st.integers(0, 3), unique=True), st.sampled_from(['config', 'context', 'dict']), st.booleans()),
        check_dry_defaults, quick=60, shards=1, examples=[
            (c, [], how, p) for c in ('missing', 'parent', 'empty', 'populated')
            for how in ('config', 'context', 'dict') for p in (False, True)])]
RULES['S05'] = ('sets of valid and failing sources x states of the cache directory x ways to call '
                'update with dry-run; non-trivial if there are sources')


# ------------------------------------------------------------------------ S06

CORRUPTIONS = ['truncate', 'garbage', 'notdict', 'missing', 'spec', 'data', 'delete', 'flip']
ENTRIES = ['xylem_version', 'spec_name', 'spec_version', 'arguments', 'origin', 'data',
           'time_data_loaded']
GARBAGE = [b'', b'\x80', b'garbage', b'\x80\x02N.', b'\x80\x02}.', b'\x80\x04\x95', b'\n', b'.',
           b'cfoo\nbar\n.', b'\x80\x02]q\x00.', b'\x00' * 100, b'\x80\x02K\x01.', b'{}', b'\xff\xfe',
           b'cno_such_module\nX\n.', b'cos\nno_such_attr\n.']
BAD_DATA = [None, [], 'x', {'a b': {}}, {'foo': None}, {'foo': {'ubuntu': {'precise': ['x']}}},
            {'foo': {'any_os': {'any_version': {'default_installer': {'packages': []}}}}},
            {'foo': {'ubuntu': {'any_version': {'apt': {'packages': 'x'}}}}}, {3: {}}]


@st.composite
def lifecycle(draw):
    n = draw(st.integers(1, 3))
    steps = [('save', i, draw(small_rules)) for i in range(n) if draw(st.integers(0, 4))]
    for _ in range(draw(st.integers(1, 7))):
        i = draw(st.integers(0, n - 1))
        op = draw(st.sampled_from(['save', 'corrupt', 'corrupt', 'corrupt', 'load', 'load', 'clear',
                                   'loadall', 'source', 'fresh', 'outdated', 'broken-source',
                                   'alter', 'corrupt']))
        if op in ('save', 'source'):
            steps.append((op, i, draw(small_rules)))
        elif op == 'alter':
            steps.append((op, i, draw(small_rules), draw(st.integers(0, 5))))
            steps.append((draw(st.sampled_from(['load', 'fresh', 'loadall', 'outdated'])), i, False))
        elif op == 'corrupt':
            if draw(st.booleans()):     # differs from what is in memory
                steps.append(('alter', i, draw(small_rules), draw(st.integers(0, 3))))
            c = draw(st.sampled_from(CORRUPTIONS))
            arg = {'truncate': st.integers(0, 999), 'garbage': st.integers(0, len(GARBAGE) - 1),
                   'notdict': st.integers(0, 3), 'missing': st.sampled_from(ENTRIES),
                   'spec': st.sampled_from(['other', '', 'Data', 'rules']),
                   'data': st.integers(0, len(BAD_DATA) - 1),
                   'delete': st.just(0), 'flip': st.just(0)}[c]
            steps.append((op, i, c, draw(arg)))
            if draw(st.integers(0, 3)):
                steps.append((draw(st.sampled_from(['load', 'fresh', 'loadall', 'outdated'])), i,
                              draw(st.booleans())))
        else:
            steps.append((op, i, draw(st.booleans())))
    return n, steps


class OutdatedSpec(ctx.DataSpec):
    def __init__(self, table):
        super(OutdatedSpec, self).__init__(table)
        self.outdated = True
        self.calls = []

    def is_data_outdated(self, data, arguments, data_load_time):
        self.calls.append((copy.deepcopy(data), arguments, data_load_time))
        return self.outdated


def attributes(src):
    return dict(data=copy.deepcopy(src.data), arguments=src.arguments, origin=src.origin,
                time=src.time_data_loaded)


def corrupt_file(path, kind, arg):
    """Returns whether the file is corrupted now."""
    if kind == 'delete':
        if os.path.exists(path):
            os.remove(path)
        return None
    content = open(path, 'rb').read() if os.path.exists(path) else None
    if kind == 'garbage' or content is None:
        ctx.write(path, GARBAGE[arg % len(GARBAGE)] if isinstance(arg, int) else b'garbage')
        return 'garbage'
    if kind == 'truncate':
        ctx.write(path, content[:len(content) * arg // 1000])
        return 'truncate'
    if kind == 'flip':
        ctx.write(path, content[:-1])
        return 'truncate'
    try:
        data = pickle.loads(content)
        assert isinstance(data, dict) and all(e in data for e in ENTRIES)
    except Exception:
        return 'garbage'
    if kind == 'notdict':
        data = [[data], None, tuple(sorted(data)), list(data)][arg]
    elif kind == 'missing':
        data.pop(arg, None)
    elif kind == 'spec':
        data['spec_name'] = arg
    elif kind == 'data':
        data['data'] = BAD_DATA[arg]
    ctx.write(path, pickle.dumps(data, 2))
    return kind


def check_lifecycle(v, rec):
    n, steps = v
    with ctx.TempDir() as base:
        table = dict(('s%d' % i, None) for i in range(n))
        spec = OutdatedSpec(table)
        sc = ctx.sources_context(base, [spec], {'1.yaml': [('data', 's%d' % i) for i in range(n)]})
        sc.ensure_cache_dir()
        db = RulesDatabase(sc)
        files = dict((i, None) for i in range(n))   # None, attributes, or a kind of corruption

        def load(src, i, what):
            before = attributes(src)
            try:
                with quiet():
                    src.load_from_cache()
            except Exception:
                expect(not isinstance(files[i], dict), '{0}: valid cache rejected', what)
                expect_same_attrs(attributes(src), before, '%s: attributes after rejected cache (%s)' %
                                  (what, files[i]))
                rec.event('rejected: %s' % (files[i] or 'no file'))
                rec.nontrivial(files[i] is not None)
            else:
                expect(isinstance(files[i], dict), '{0}: cache file accepted that is {1}', what,
                       files[i])
                expect_same_attrs(attributes(src), files[i], '%s: attributes' % what)
                rec.event('accepted')

        def expect_same_attrs(got, want, what):
            expect_same(got['data'], want['data'], what)
            for k in ('arguments', 'origin', 'time'):
                expect_eq(got[k], want[k], '%s (%s)' % (what, k))

        for step in steps:
            i = step[1]
            src = db.sources[i]
            path = src.cache_file_path()
            op = step[0]
            if op in ('source', 'save'):
                table['s%d' % i] = step[2]
                src.load_from_source()
                expect_same(src.data, step[2], 'data loaded from source')
                if op == 'save':
                    src.save_to_cache()
                    files[i] = attributes(src)
            elif op == 'broken-source':
                before = attributes(src)
                table['s%d' % i] = {'a b': {}} if step[2] else []
                try:
                    src.load_from_source()
                except Exception:
                    pass
                else:
                    fail('invalid rules loaded from source')
                expect_same_attrs(attributes(src), before, 'attributes after failed load')
            elif op == 'alter':
                # valid cache of the same source, made elsewhere and at another time
                if isinstance(files[i], dict):
                    files[i] = dict(
                        data=copy.deepcopy(step[2]), arguments=files[i]['arguments'],
                        origin='/elsewhere/%d.yaml' % step[3],
                        time=datetime.datetime([2014, 2014, 2014, 1970, 2090, 9999][step[3]], 1, 2 + step[3], 3, 4, 5,
                                               step[3]))
                    with open(path, 'rb') as f:
                        content = pickle.load(f)
                    content.update(data=files[i]['data'], origin=files[i]['origin'],
                                   time_data_loaded=files[i]['time'], xylem_version='0.0.1')
                    ctx.write(path, pickle.dumps(content, 2))
                    rec.event('altered')
            elif op == 'corrupt':
                was = files[i]
                files[i] = corrupt_file(path, step[2], step[3])
                if files[i] in ('truncate',) and was is None:
                    files[i] = 'garbage'
            elif op == 'clear':
                with quiet():
                    src.clear_cache()
                files[i] = None
                expect(not os.path.exists(path), 'cache file still there after clearing')
                if step[2]:
                    with quiet():
                        src.clear_cache()
                        src.clear_cache()
            elif op == 'load':
                load(src, i, 'same source')
            elif op == 'fresh':
                load(RulesDatabase(sc).sources[i], i, 'fresh source')
            elif op == 'loadall':
                d = RulesDatabase(sc) if step[2] else db
                before = [attributes(s) for s in d.sources]
                d.raise_on_error = False
                with quiet() as (out, err):
                    d.load_from_cache()
                for j, s in enumerate(d.sources):
                    ok = isinstance(files[j], dict)
                    expect_same_attrs(attributes(s), files[j] if ok else before[j],
                                      'attributes of %d after loading all' % j)
                    expect_eq(s.unique_id() in plain(err.getvalue()), not ok,
                              'source %d (%s) reported' % (j, files[j] if not ok else 'ok'))
                    if not ok:
                        rec.event('rejected: %s' % (files[j] or 'no file'))
                bad = [j for j in range(n) if not isinstance(files[j], dict)]
                rec.nontrivial(0 < len(bad) < n)
                d = RulesDatabase(sc)
                d.raise_on_error = True
                try:
                    d.load_from_cache()
                except Exception:
                    expect(bad, 'loading all raised although all caches are fine')
                else:
                    expect(not bad, 'loading all did not raise, bad are {0}', bad)
            elif op == 'outdated':
                spec.outdated = step[2]
                spec.calls = []
                before = attributes(src)
                if files[i] is None:
                    expect_eq(src.is_cache_outdated(), True, 'outdated without cache')
                elif isinstance(files[i], dict):
                    expect_eq(bool(src.is_cache_outdated()), step[2], 'outdated')
                    data, args, when = spec.calls[-1]
                    expect_same(data, files[i]['data'], 'data to decide upon')
                    expect_eq((args, when), ('s%d' % i, files[i]['time']), 'arguments and time')
                    rec.event('outdated decided by spec')
                elif files[i] == 'spec':
                    expect_eq(src.is_cache_outdated(), True, 'outdated, cache of other spec')
                    rec.event('outdated since other spec')
                expect_same_attrs(attributes(src), before, 'attributes after is_cache_outdated')
            for j, s in enumerate(db.sources):
                expect_eq(s.is_cache_available(), files[j] is not None, 'cache %d available' % j)


def lifecycle_examples():
    one = {'foo': {'ubuntu': {'precise': {'apt': {'packages': ['a']}}}}}
    two = {'bar': {'any_os': {'any_version': {'pip': {'packages': ['b']}}}}}
    kinds = [('truncate', 0), ('truncate', 500), ('truncate', 999), ('flip', 0), ('delete', 0)]
    kinds += [('garbage', k) for k in range(len(GARBAGE))] + [('notdict', k) for k in range(4)]
    kinds += [('missing', e) for e in ENTRIES] + [('spec', x) for x in ('other', '', 'Data')]
    kinds += [('data', k) for k in range(len(BAD_DATA))]
    return [(2, [('save', 0, one), ('save', 1, two), ('alter', 0, two, 1), ('corrupt', 0, k, a),
                 ('load', 0, False), ('fresh', 0, False), ('loadall', 0, True),
                 ('outdated', 0, True), ('source', 0, two), ('loadall', 1, False),
                 ('save', 0, {}), ('fresh', 0, False)]) for k, a in kinds]


SUBS['S06'] = [Sub('lifecycle', lifecycle(), check_lifecycle, quick=1500, qshards=6,
                   examples=lifecycle_examples())]
RULES['S06'] = ('histories of loading, saving, corrupting, clearing and querying the cache entries of '
                '1-3 sources; non-trivial if a corrupted entry was read or valid and unusable entries '
                'were loaded together')
