"""C01-C06: configuration."""
import ast
import argparse
import collections
import copy
import os
import pwd
import shutil
import zlib

import yaml
from hypothesis import assume, strategies as st

from .. import ctx, env, gen
from ..core import HarnessError, Sub, expect, expect_eq, fail, quiet, short
from .rules import expect_same

import xylem.config as xconfig
import xylem.config_utils as xcu
from xylem.arguments import add_global_arguments, handle_global_arguments
from xylem.config_utils import ConfigDescription, ConfigDict, ConfigError
from xylem.exception import XylemError

SUBS, RULES, LEVEL = {}, {}, {}

HOME = os.environ['HOME']
SCRATCH = os.getcwd()


# ----------------------------------------------------------- types and values

def build(t):
    if isinstance(t, str):
        return getattr(xcu, t)
    return getattr(xcu, t[0])(build(t[1]))


USERS = dict(('~' + u.pw_name, u.pw_dir) for u in pwd.getpwall() if u.pw_name in (
    'root', 'nobody', 'daemon') and u.pw_dir.startswith('/'))


def norm_path(p):
    """Absolute normalised form of a path (`~user` for existing users only)."""
    user = p.split('/')[0]
    if user == '~':
        p = HOME + p[1:]
    elif user in USERS:
        p = USERS[user] + p[len(user):]
    if not p.startswith('/'):
        p = os.getcwd() + '/' + p
    slashes = '//' if p.startswith('//') and not p.startswith('///') else '/'
    parts = []
    for c in p.split('/'):
        if c in ('', '.'):
            continue
        if c == '..':
            if parts:
                parts.pop()
            continue
        parts.append(c)
    return slashes + '/'.join(parts)


class Bad(Exception):
    pass


class Unspecified(Exception):
    pass


def unset(t):
    return {} if t[0] == 'MergingDict' else None


def ref_yaml(t, v, nested=False):
    """Value of item type t for YAML value v."""
    if v is None:
        if nested and t != 'Any':
            raise Unspecified()
        return unset(t)
    if t == 'Any':
        return v
    if t == 'Boolean':
        if type(v) is not bool:
            raise Bad('bool')
        return v
    if t in ('String', 'Path'):
        if type(v) is not str:
            raise Bad('string')
        if t == 'Path':
            if v == '' or '\0' in v or (v.startswith('~') and v.split('/')[0] not in ['~'] + list(USERS)):
                raise Unspecified()
            return norm_path(v)
        return v
    if t[0] == 'List':
        if type(v) is not list:
            raise Bad('list')
        res, uns = [], False
        for e in v:
            try:
                res.append(ref_yaml(t[1], e, True))
            except Unspecified:
                uns = True
        if uns:
            raise Unspecified()
        return res
    if type(v) is not dict:
        raise Bad('dict')
    res, uns = {}, False
    for k, e in v.items():
        if k is None:
            uns = True
        elif type(k) is not str:
            raise Bad('key')
        try:
            res[k] = ref_yaml(t[1], e, True)
        except Unspecified:
            uns = True
    if uns:
        raise Unspecified()
    return res


def ref_cli(t, strings):
    """Value of item type t for the strings given on the command line."""
    if t in ('String', 'Path'):
        return ref_yaml(t, strings[-1])

    def load(s):
        try:
            return yaml.safe_load(s)
        except (yaml.YAMLError, ValueError, TypeError, AttributeError, LookupError):
            raise Bad('yaml')
    if t in ('Boolean', 'Any'):
        return ref_yaml(t, load(strings[-1]))
    kind, brackets = (list, '[%s]') if t[0] == 'List' else (dict, '{%s}')
    total = kind()
    for s in strings:
        try:
            part = load(s)
        except Bad:
            part = None
        if type(part) is not kind:
            part = load(brackets % s)
            if type(part) is not kind:
                raise Bad('type')
        if kind is list:
            total += part
        else:
            if set(part) & set(total):
                raise Bad('duplicate')
            total.update(part)
    return ref_yaml(t, total)


WORDS = ['a', 'foo', 'true', '1', 'null', '~', '- a', 'a: b', '#x', '@', 'é', "it's", '"', ' a ', '',
         '[a]', '{a: b}', 'a,b', 'a\nb', '2014-01-01', '1.5', '0x1', 'yes', '=', '<<', '!x', '&a',
         '*a', '%', '`', '|', '>', '-', '---', '--x', 'a#b', 'a #b', ':', 'x:y', '日本', '\t', 'no',
         '1_000', '12:30', '\\', "'", 'a]', '}', '?', '? a', '1e3', '.inf', 'Null', 'ON', 'A_b-c']
words = st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS[:3]),
                  st.text(st.characters(blacklist_categories=('Cs', 'Cc')), max_size=5))
PATHS = ['/a/b', 'rel', 'a/../b', '~', '~/x', './x/', '//a', '/a//b/', '..', 'é', 'a b', '/', '.',
         '../../x', '/a/./b/..', '///x', '~/../y', 'a~', '/~', 'true', '12', '~/', 'x/~/y', 'a#b', '~root/x', '~nobody', '~daemon/../y', 'x/~root',
         '$HOME', '/a/$HOME/b', '${HOME}/x', '$', '$$', '%HOME%/x', '$USER', '/a/${PATH}', '*', '/a/*', '[a]',
         '{a,b}', 'a\\b', '\\a', 'C:\\x', 'file:///a', 'http://x/y', '%20', '/a/.', '/..', '...', '/a/~root',
         'a/', '.hidden', '-x', 'ä/../ö', '$(pwd)', '`pwd`']
paths = st.sampled_from(PATHS)
scalars = st.one_of(words, st.booleans(), st.integers(-3, 300), st.sampled_from([1.5, -0.25, 1e10]),
                    st.none())
trees = st.recursive(scalars, lambda c: st.one_of(
    st.lists(c, max_size=3), st.dictionaries(words, c, max_size=2)), max_leaves=5)

TYPES = ['String', 'Boolean', 'Any', 'Path', ['List', 'String'], ['List', 'Any'], ['List', 'Boolean'],
         ['List', 'Path'], ['List', ['List', 'String']], ['Dict', 'Any'], ['Dict', 'String'],
         ['Dict', ['List', 'String']], ['Dict', 'Path'], ['MergingDict', ['List', 'String']],
         ['MergingDict', ['Dict', 'Any']], ['MergingDict', 'Boolean'], ['MergingDict', 'Any'],
         ['List', ['Dict', 'Boolean']], ['Dict', ['Dict', 'Path']], ['MergingDict', 'Path']]
types = st.sampled_from(TYPES)


def inner(t):
    return trees if t == 'Any' else values(t)


def values(t):
    """Valid values that are not null."""
    if t == 'String':
        return words
    if t == 'Boolean':
        return st.booleans()
    if t == 'Path':
        return paths
    if t == 'Any':
        return trees.filter(lambda v: v is not None)
    if t[0] == 'List':
        return st.lists(inner(t[1]), max_size=3)
    return st.dictionaries(DICT_KEYS, inner(t[1]), max_size=3)


DICT_KEYS = st.sampled_from(['a', 'apt', 'pip', 'a', 'apt', 'pip', None]).flatmap(
    lambda k: st.just(k) if k else words)


def representatives(t):
    """Some values of every type, among them the falsy ones and ones with common keys."""
    if t == 'String':
        return ['a', '', "'b'"]
    if t == 'Boolean':
        return [True, False]
    if t == 'Path':
        return ['/a', 'x/../~', '~/b', '//a', '$HOME/${HOME}/%HOME%']
    if t == 'Any':
        return ['a', 0, False, '', [], {}, ['a'], {'a': 1}, {'a': {'b': 1}}, {'a': {'c': [1]}}]
    inner = representatives(t[1]) + [None] * (t[1] == 'Any')
    if t[0] == 'List':
        return [[], inner[:1], inner[1:], inner[:2] * 2]
    return [{}, {'a': inner[0]}, {'a': inner[-1], 'pip': inner[1]}, {'pip': inner[0], 'apt': inner[-1]}]


def flow(v):
    s = yaml.safe_dump([v], default_flow_style=True, width=1 << 20, allow_unicode=True).strip()
    assert s[0] == '[' and s[-1] == ']'
    return s[1:-1]


@st.composite
def cli_strings(draw, t, value):
    """Ways to write a value on the command line."""
    if t in ('String', 'Path'):
        return [value]
    if t in ('Boolean', 'Any'):
        if t == 'Boolean' and draw(st.booleans()):
            return [draw(st.sampled_from(['yes', 'on', 'True', 'TRUE'] if value else
                                         ['no', 'off', 'False', 'FALSE']))]
        s = flow(value)
        return [s]
    items = list(value) if t[0] == 'List' else list(value.items())
    n = draw(st.integers(0, len(items)))
    m = draw(st.integers(n, len(items)))
    parts = draw(st.sampled_from([[items], [items[:n], items[n:]],
                                  [items[:n], items[n:m], items[m:]]]))
    res = []
    for p in parts:
        whole = flow(p if t[0] == 'List' else dict(p))
        bare = whole[1:-1]
        kind = list if t[0] == 'List' else dict
        ambiguous = len(p) == 1 and (t[0] == 'List' and isinstance(p[0], kind))
        if draw(st.booleans()) and not ambiguous:
            res.append(bare)
        else:
            res.append(whole)
    return res


# ----------------------------------------------------------------------- C02

def run_type(fn):
    try:
        with quiet():
            return ('ok', fn())
    except ConfigError as e:
        if not isinstance(e, xcu.ConfigValueError):
            fail('raised %s, not ConfigValueError' % type(e).__name__)
        return ('bad', str(e))


def reference(fn):
    try:
        return ('ok', fn())
    except Bad:
        return ('bad', None)
    except Unspecified:
        return ('unspecified', None)


def compare(got, want, what):
    if want[0] == 'unspecified':
        return
    if got[0] != want[0]:
        fail('%s: %s, expected %s' % (
            what, 'rejected (%s)' % got[1] if got[0] == 'bad' else 'accepted as %s' % short(got[1]),
            'value %s' % short(want[1]) if want[0] == 'ok' else 'rejection'))
    if want[0] == 'ok':
        expect_same(got[1], want[1], what)


odd_keys = st.one_of(words, words, st.sampled_from([1, True, None, 1.5]))
any_tree = st.recursive(scalars, lambda c: st.one_of(
    st.lists(c, max_size=3), st.dictionaries(odd_keys, c, max_size=2)), max_leaves=5)


@st.composite
def mutated(draw, t):
    """A value for t with one place replaced by something else."""
    v = draw(values(t))
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(any_tree)
    if k <= 2:
        return v
    return _mutate(draw, v)


def _mutate(draw, v):
    if isinstance(v, (list, dict)) and v and draw(st.booleans()):
        if isinstance(v, list):
            i = draw(st.integers(0, len(v) - 1))
            v[i] = _mutate(draw, v[i])
        else:
            k = draw(st.sampled_from(sorted(v)))
            if draw(st.booleans()):
                v[k] = _mutate(draw, v[k])
            else:
                v[draw(st.sampled_from([1, True, 2.5, '1']))] = v.pop(k)
        return v
    return draw(st.one_of(st.sampled_from([0, 1, True, False, 'true', 'x', [], {}, [[]], ['a'], {'a': 'b'},
                                           1.5, '', [1], {'a': 1}]), any_tree))


yaml_case = types.flatmap(lambda t: st.tuples(st.just(copy.deepcopy(t)), mutated(t)))


def check_from_yaml(v, rec):
    t, value = v
    want = reference(lambda: ref_yaml(t, copy.deepcopy(value)))
    rec.event(want[0] if want[0] != 'bad' else 'rejected')
    rec.event('type %s' % (t if isinstance(t, str) else t[0]))
    rec.nontrivial(want[0] != 'unspecified' and value is not None)
    T = build(t)
    T = T() if isinstance(T, type) else T
    before = repr(value)
    got = run_type(lambda: T.from_yaml(value))
    compare(got, want, 'from_yaml of %s for type %s' % (short(value), t))
    expect_eq(repr(value), before, 'input value afterwards')
    # as entry of a file, alone and in a group
    d = ConfigDescription('config.yaml')
    d.add('x', type=build(t))
    d.add('g/y', type=build(t))
    d.add('other', type=xcu.String)
    path = os.path.join(os.environ['TMPDIR'], 'c02.yaml')
    for doc, get in (({'x': value, 'other': 'o'}, lambda c: c['x']),
                     ({'g': {'y': value}}, lambda c: c['g']['y'])):
        ctx.write(path, yaml.safe_dump(doc, allow_unicode=True))
        got = run_type(lambda: get(xcu.config_from_file(path, d)))
        compare(got, want, 'config file entry %s for type %s' % (short(value), t))
        got = run_type(lambda: get(xcu.config_from_parsed_yaml(copy.deepcopy(doc), d,
                                                               use_defaults=True)))
        compare(got, want, 'parsed entry %s with defaults for type %s' % (short(value), t))
    if want[0] == 'ok':
        expect_same(T.verify(want[1]), want[1], 'verify')
    elif want[0] == 'bad' and t not in ('Path',):
        got = run_type(lambda: T.verify(copy.deepcopy(value)))
        expect(got[0] == 'bad', 'verify accepts {} for type {}', value, t)


fragments = st.lists(st.sampled_from(['a', 'b', ':', ': ', ',', '[', ']', '{', '}', ' ', '-', '- ', '#',
                                      '"', "'", '1', 'true', 'null', '\n', '&', '*', '!', '?', '|', 'é',
                                      'a: b', '[a]', '{a: b}', 'a: [b]', ', ', '\t', '%', '@', '`',
                                      '2014-13-45', '!!int x', '<<', '=', '0o8', '.inf', '~']),
                     max_size=6).map(''.join)


@st.composite
def cli_case(draw):
    t = copy.deepcopy(draw(types))
    if draw(st.integers(0, 2)):
        v = draw(values(t))
        strings = draw(cli_strings(t, v))
        return dict(t=t, value=v, strings=strings)
    multiple = t[0] in ('List', 'Dict', 'MergingDict')
    if multiple and draw(st.booleans()):
        # options that may have keys in common
        strings = []
        for v in draw(st.lists(values(t), min_size=2, max_size=4)):
            strings.extend(draw(cli_strings(t, v)))
        return dict(t=t, value=None, strings=strings)
    strings = draw(st.lists(fragments, min_size=1, max_size=2 if multiple else 1))
    return dict(t=t, value=None, strings=strings)


def cli_examples():
    res = []
    for t in ('String', 'Path', 'Any', 'Boolean'):
        for w in WORDS + PATHS:
            res.append(dict(t=t, value=None, strings=[w]))
    for t in TYPES:
        if isinstance(t, list):
            vs = [flow(v) for v in representatives(t)]
            vs += [v[1:-1] for v in vs]
            for a in vs:
                res.append(dict(t=t, value=None, strings=[a]))
            for a in vs[1:4]:
                for b in vs:
                    res.append(dict(t=t, value=None, strings=[a, b]))
                    res.append(dict(t=t, value=None, strings=[a, b, a]))
                    res.append(dict(t=t, value=None, strings=[a, vs[0], b]))
    return res


def check_cli(v, rec):
    t, strings = v['t'], v['strings']
    T = build(t)
    T = T() if isinstance(T, type) else T
    if v['value'] is not None:
        want = reference(lambda: ref_yaml(t, copy.deepcopy(v['value'])))
        other = reference(lambda: ref_cli(t, strings))
        if repr(other) != repr(want):
            assume(False)         # not rendered faithfully
        rec.event('rendered value')
    else:
        want = reference(lambda: ref_cli(t, strings))
        rec.event('free text: ' + want[0])
    rec.event('type %s' % (t if isinstance(t, str) else t[0]))
    rec.nontrivial(want[0] != 'unspecified')
    rec.event('%d options' % len(strings))
    multiple = T.command_line_multiple()
    expect_eq(multiple, isinstance(t, list), 'command_line_multiple of %s' % (t,))
    got = run_type(lambda: T.from_command_line(list(strings) if multiple else strings[0]))
    compare(got, want, 'options %s for type %s' % (short(strings), t))
    # through the argument parser
    d = ConfigDescription('config.yaml')
    d.add('g/it_em', type=build(t), command_line=True)
    d.add('other', type=build(t), command_line_argument='--oth-er')
    p = argparse.ArgumentParser(add_help=False)
    d.add_arguments(p)
    try:
        with quiet():
            args = p.parse_args(['--g-it-em=' + s for s in strings])
    except SystemExit:
        fail('argument parser rejects %s' % short(strings))
    got = run_type(lambda: xcu.config_from_args(args, d))
    compare((got[0], got[1]['g']['it_em'] if got[0] == 'ok' else got[1]), want,
            'options %s for type %s' % (short(strings), t))
    if got[0] == 'ok':
        expect_same(got[1]['other'], unset(t), 'option not given')


file_bytes = st.one_of(
    any_tree.map(lambda v: yaml.safe_dump(v, allow_unicode=True).encode('utf-8', 'replace')),
    st.dictionaries(odd_keys, any_tree, max_size=3).map(
        lambda v: yaml.safe_dump(v, allow_unicode=True).encode('utf-8', 'replace')),
    any_tree.map(lambda v: yaml.safe_dump({'g': v}, allow_unicode=True).encode('utf-8', 'replace')),
    fragments.map(lambda s: s.encode()), st.binary(max_size=8),
    st.text(max_size=8).map(lambda s: s.encode('utf-8', 'replace')))


# sizes of comments in config files
PADS = [3000, 5000, 9000, 18000, 70000]


def padding(size, char='\u20ac', shift=0):
    """Comments whose characters are spread over block boundaries."""
    if not size:
        return ''
    line = '# ' + char * 60 + '\n'
    return '#' * (shift + 1) + '\n' + line * (size // len(line.encode('utf-8')) + 1)


def check_file(v, rec):
    data = v
    if isinstance(v, tuple):
        data = padding(*v[1:]).encode('utf-8')
        data = v[0] + data + b'x: [1]\ng: {y: "%s"}\n' % ('é' * (v[1] // 2)).encode('utf-8')
        rec.event('large')
    path = os.path.join(os.environ['TMPDIR'], 'c02f.yaml')
    with open(path, 'wb') as f:
        f.write(data)
    d = ConfigDescription('config.yaml')
    d.add('x', type=xcu.Any)
    d.add('g/y', type=xcu.Any)
    got = run_type(lambda: xcu.config_from_file(path, d))
    try:
        loaded = yaml.safe_load(data.decode('utf-8'))
    except UnicodeDecodeError:
        rec.event('not UTF-8')
        rec.nontrivial()
        expect(got[0] == 'bad', 'file {} that is not UTF-8 accepted as {}', data, got[1])
        return
    except Exception:
        rec.event('invalid YAML')
        rec.nontrivial()
        expect(got[0] == 'bad', 'invalid YAML {} accepted as {}', data, got[1])
        return
    rec.nontrivial(bool(data))
    if loaded is None:
        loaded = {}
    ok = isinstance(loaded, dict) and all(isinstance(k, str) for k in loaded)
    g = loaded.get('g') if ok else None
    if ok and g is not None and not isinstance(g, dict):
        ok = False
    rec.event('dict with text keys' if ok else 'other structure')
    if not ok:
        expect(got[0] == 'bad', 'file {} accepted as {}', data, got[1])
        return
    expect(got[0] == 'ok', 'file {} rejected: {}', data, got[1])
    expect_same(got[1], {'x': loaded.get('x'), 'g': {'y': (g or {}).get('y')}}, 'config from file')


def check_unreadable(v, rec):
    path = os.path.join(os.environ['TMPDIR'], 'c02u.yaml')
    with open(path, 'wb') as f:
        f.write(v.encode('utf-8', 'replace'))
    d = ConfigDescription('config.yaml')
    d.add('x', type=xcu.Any)

    def read():
        import resource
        got = run_type(lambda: xcu.config_from_file(path, d))
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        resource.setrlimit(resource.RLIMIT_NOFILE, (0, hard))
        try:
            open(path).close()
        except EnvironmentError:
            pass
        else:
            raise HarnessError('file could be opened')
        print([got[0], run_type(lambda: xcu.config_from_file(path, d))[0]])
    status, out, err = ctx.forked(read)
    rec.nontrivial()
    expect(status == 0, 'config file {} that cannot be opened (and could before): {}', v, err[-600:])
    got = ast.literal_eval(out)
    rec.event('file is ' + got[0])
    expect_eq(got[1], 'bad', 'result of reading a config file that cannot be opened')

    # somebody else's file
    opened = []
    where = os.path.dirname(path)
    while where != os.path.dirname(where):
        mode = os.stat(where).st_mode
        if not mode & 0o001:
            os.chmod(where, mode | 0o001)
            opened.append((where, mode & 0o7777))
        where = os.path.dirname(where)
    os.chmod(path, 0)

    def other_user():
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except EnvironmentError:
            print([None])
            return
        if not os.path.isfile(path):
            raise HarnessError('file is not there')
        try:
            open(path).close()
        except EnvironmentError:
            pass
        else:
            raise HarnessError('file could be opened')
        print([run_type(lambda: xcu.config_from_file(path, d))[0]])
    try:
        status, out, err = ctx.forked(other_user)
    finally:
        for where, mode in opened:
            os.chmod(where, mode)
        os.remove(path)
    expect(status == 0, 'config file {} that must not be read: {}', v, err[-600:])
    got = ast.literal_eval(out)[0]
    rec.count('read by another user', got is not None)
    if got is not None:
        expect_eq(got, 'bad', 'result of reading a config file that must not be read')


RULES['C02'] = 'the reference decides about the value (no nulls inside typed containers); distinct by the whole value'
SUBS['C02'] = [
    Sub('yaml', yaml_case, check_from_yaml, quick=900, qshards=3, examples=[
        (['List', 'String'], [1]), ('Boolean', 0), ('Boolean', 1), (['Dict', 'String'], {1: 'a'}),
        (['MergingDict', ['List', 'String']], {'a': 'b'}), ('String', '')] +
        [(copy.deepcopy(t), copy.deepcopy(v)) for t in TYPES for u in TYPES for v in representatives(u)] +
        [(t, v) for t in ('Boolean', 'String', 'Path') for v in (0, 1, 0.0, 1.0, 'true', 'yes', '', [], {},
                                                                [True], b'a', -1, 'no')]),
    Sub('command-line', cli_case, check_cli, quick=1200, qshards=4, examples=cli_examples()),
    Sub('file', file_bytes, check_file, quick=600, examples=[b'', b'null', b'[a]', b'1: a', b'x: 1\n2: a',
                                                             b'g: 1', b'g: [a]', b'g:', b'- x', b'a'] +
        [b'x: \xff', b'x: J\xfcrgen\n', b'# J\xfcrgen\nx: 1\n', b'\xff\xfex\x00', b'x: \xed\xa0\x80', b'x: \xc3',
         b'g: {y: \xe9}', b'\xef\xbb\xbfx: \xc3\xa9\n'] +
        [(a, n, c, k) for a in (b'', b'\xef\xbb\xbf') for n in PADS + [140000]
         for c in '\u20ac\xe9\U0001f600a' for k in (0, 1)] +
        [('%s: %s' % (g, x)).encode() for g in ('g', 'x')
         for x in ('[]', '0', "''", 'false', 'no', '0.0', '{}', 'null', '~', 'yes', '[{}]', '!!set {}', '!!omap []',
                   '2014-01-01', '!!binary ""')] + [b'[]', b'0', b"''", b'false', b'{}', b'no', b'[[]]', b'!!set {}', b'--- {}']),
    Sub('unreadable', st.sampled_from(['x: 1', '', 'x: {}', 'y: 2', '[]', 'x']), check_unreadable, quick=6, thorough=6, shards=1),
]


# ---------------------------------------------- reference of effective config

# item, type, default, option
ITEMS = [
    ('os_override', 'String', None, '--os'),
    ('os_options/features', ['List', 'String'], None, '--os-features'),
    ('core_installers', ['List', 'String'], None, '--core-installers'),
    ('use_additional_installers', 'Boolean', True, '--use-additional-installers'),
    ('install_from', ['MergingDict', ['List', 'String']], {}, '--install-from'),
    ('installer_options', ['MergingDict', ['Dict', 'Any']], {}, '--installer-options'),
    ('user_sources', 'Boolean', False, '--user-sources'),
    ('cache_dir', 'Path', None, '--cache-dir'),
    ('sources_dir', 'Path', None, '--sources-dir'),
    ('disabled_plugins/os', ['List', 'String'], [], '--disable-os-plugins'),
    ('disabled_plugins/installer', ['List', 'String'], [], '--disable-installer-plugins'),
    ('disabled_plugins/spec', ['List', 'String'], [], '--disable-spec-plugins'),
]


def set_item(d, name, value):
    if '/' in name:
        g, s = name.split('/')
        if not isinstance(d.get(g), dict):
            d[g] = {}
        d[g][s] = value
    else:
        d[name] = value


def get_item(d, name):
    if '/' in name:
        g, s = name.split('/')
        return d[g][s]
    return d[name]


def effective(items, layers):
    """Combined configuration of layers (highest priority first).

    :param layers: dicts item name -> YAML value
    """
    res = {}
    for name, t, default, _ in items:
        vals = [ref_yaml(t, l[name]) for l in layers if l.get(name) is not None]
        if t[0] == 'MergingDict':
            v = {}
            for x in reversed(vals + [default or {}]):
                v.update(copy.deepcopy(x))
        else:
            v = copy.deepcopy(vals[0]) if vals else \
                (copy.deepcopy(default) if default is not None else unset(t))
        set_item(res, name, v)
    return res


def file_doc(settings):
    """Contents of a config file with the given item settings."""
    doc = {}
    for name, v in settings.items():
        if '/' in name and v is None and name.split('/')[0] not in doc:
            pass
        set_item(doc, name, v)
    return doc


# unknown entries that look like items of groups
GROUP_JUNK = [['x'], {'a': 1}, None, 'text', {'install_dir': '/x'}, True]
JUNK = [None, None, {'unknown_item': 3}, {'zzz': {'a': [1]}}, {'os-override': 'x'},
        {'features': ['x']}, {'Core_installers': ['x']}]


@st.composite
def layer(draw, items, p=3):
    """Settings of one config file: item -> value or None."""
    res = {}
    for name, t, _, _ in items:
        k = draw(st.integers(0, p + 2))
        if k == 0:
            res[name] = None
        elif k <= 2:
            res[name] = draw(values(t))
    return res


@st.composite
def config_file(draw, items, p=3):
    """None (no file), raw text without contents, or settings."""
    k = draw(st.integers(0, 7))
    if k == 0:
        return None
    if k == 1:
        return dict(text=draw(st.sampled_from(['', '# nothing\n', 'null\n', '{}\n', '---\n', '~'])),
                    settings={})
    junk = copy.deepcopy(draw(st.sampled_from(JUNK)))
    groups = sorted(n for n, _, _, _ in items if '/' in n)
    if groups and draw(st.integers(0, 3)) == 3:
        junk = dict(junk or {})
        junk[draw(st.sampled_from(groups))] = draw(st.sampled_from(GROUP_JUNK))
    return dict(settings=draw(layer(items, p)), junk=junk, text=None, link=draw(st.integers(0, 7)) == 7,
                pad=(draw(st.sampled_from([0] * 60 + PADS)), draw(st.sampled_from('\u20ac\xe9a')), draw(st.integers(0, 2))))


def write_config(path, f):
    if f is None:
        return
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    text = f['text']
    if text is None:
        doc = file_doc(f['settings'])
        doc.update(f.get('junk') or {})
        text = yaml.safe_dump(doc, allow_unicode=True)
    if f.get('link'):
        # kept somewhere else
        if os.path.lexists(path):
            os.unlink(path)
        os.symlink(path + '.linked', path)
        path += '.linked'
    ctx.write(path, padding(*f.get('pad', (0,))) + text)


def settings(f):
    return f['settings'] if f else {}


@st.composite
def cli_layer(draw, items, p=3):
    """item -> (value, strings)"""
    res = {}
    for name, t, _, option in items:
        if option and draw(st.integers(0, p)) == 0:
            v = draw(values(t))
            s = draw(cli_strings(t, v))
            try:
                if repr(ref_cli(t, s)) != repr(ref_yaml(t, copy.deepcopy(v))):
                    continue
            except (Bad, Unspecified):
                continue
            res[name] = (v, s)
    return res


def options(items, cli):
    res = []
    for name, t, _, option in items:
        if name in cli:
            res += [option + '=' + s for s in cli[name][1]]
    return res


def cli_values(cli):
    return dict((n, v) for n, (v, s) in cli.items())


def env_vars(tool, case):
    up = tool.upper()
    return dict((k, v) for k, v in ((up + '_PREFIX', case.get('env_prefix')),
                                    (up + '_DIR', case.get('env_dir'))) if v is not None)


# variables that do not matter; all of xylem's are XYLEM_DIR, XYLEM_PREFIX, XYLEM_DEBUG, XYLEM_PDB
NOISE = dict((k, '/nonexistent/noise') for k in (
    'XDG_CONFIG_HOME', 'XDG_CONFIG_DIRS', 'XDG_CACHE_HOME', 'XDG_DATA_HOME', 'DESTDIR', 'PREFIX',
    'VIRTUAL_ENV', 'XYLEM_CACHE_DIR', 'XYLEM_SOURCES_DIR', 'XYLEM_CONFIG', 'XYLEM_CONFIG_DIR',
    'XYLEM_ROOT', 'XYLEM_HOME', 'XYLEM_PATH', 'TOOL-X_CONFIG', 'TOOL-X_CONFIG_DIR'))
NOISE.update(SUDO_USER='nobody', SUDO_UID='65534', SUDO_GID='65534', SUDO_COMMAND='xylem',
             USER='nobody', LOGNAME='nobody', XYLEM_OS='beos:r5', XYLEM_OS_OVERRIDE='beos:r5',
             XYLEM_FEATURES='noise', XYLEM_NO_USER_CONFIG='1', XYLEM_VERBOSE='1', XYLEM_NO_COLOR='1',
             NO_COLOR='1', CI='true', FAKEROOTKEY='1')


class Environ(object):
    """The given variables and no others that matter; with 'noisy', some that do not."""

    def __init__(self, d, noisy=None):
        # so that both are used, and a case always has the same environment
        noisy = zlib.crc32(repr(sorted(d)).encode()) % 2 if noisy is None else noisy
        self.d = dict(NOISE, **d) if noisy else dict(d)
        self.old = {}

    def __enter__(self):
        for k in list(os.environ):
            if (k.startswith(('XYLEM_', 'TOOL-X')) and k != 'XYLEM_REPO') or k in self.d:
                self.old[k] = os.environ.pop(k)
        os.environ.update(self.d)

    def __exit__(self, *a):
        for k in self.d:
            os.environ.pop(k, None)
        os.environ.update(self.old)


def user_dir(tool):
    return os.path.join(HOME, '.config', tool)


def clear_dirs(*dirs):
    for d in dirs:
        if os.path.isdir(d):
            shutil.rmtree(d)


# ----------------------------------------------------------------------- C01

NAMES = ['foo', 'b_ar', 'baz', 'grp/foo', 'grp/q_x', 'g_2/z', 'Big_9', 'Grp/Sub-X']


@st.composite
def description(draw):
    items = []
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    for n in names:
        t = copy.deepcopy(draw(types))
        default = draw(st.one_of(st.none(), values(t)))
        if default is not None and t not in ('String', 'Boolean', 'Any'):
            # defaults are values, i.e. already converted
            default = ref_yaml(t, default)
        option = draw(st.sampled_from([None, '', '', 'opt-' + n.replace('/', '-')]))
        if option == '':
            option = '--' + n.replace('_', '-').replace('/', '-')
        elif option:
            option = '--' + option
        items.append((n, t, default, option))
    return items


@st.composite
def cascade(draw, items_strategy, p=3):
    items = draw(items_strategy)
    return dict(items=items, cli=draw(cli_layer(items, p)), user=draw(config_file(items, p)),
                system=draw(config_file(items, p)), dirfile=draw(config_file(items, p)),
                use_dir=draw(st.integers(0, 3)) == 0, no_user=draw(st.integers(0, 3)) == 0,
                how_dir=draw(st.sampled_from(['option', 'env'])),
                how_prefix=draw(st.sampled_from(['option', 'env'])), noisy=draw(st.booleans()))


def cascade_examples():
    """All pairs of representative values of all types in each pair of layers."""
    for name in ('foo', 'grp/q_x'):
        for t in TYPES:
            vals = representatives(t)
            for top in vals:
                for bottom in vals:
                    for where in (('cli', 'user'), ('user', 'system'), ('cli', 'default'),
                                  ('system', 'default')):
                        if name != 'foo' and where != ('user', 'system'):
                            continue
                        layers = dict(zip(where, (top, bottom)))
                        default = layers.get('default')
                        if default is not None and t not in ('String', 'Boolean', 'Any'):
                            default = ref_yaml(t, copy.deepcopy(default))
                        cli = {}
                        if 'cli' in layers:
                            s = layers['cli'] if t in ('String', 'Path') else flow(layers['cli'])
                            cli[name] = (copy.deepcopy(layers['cli']), [s])

                        def file(k):
                            return (dict(text=None, junk=None,
                                         settings={name: copy.deepcopy(layers[k])})
                                    if k in layers else None)
                        yield dict(items=[(name, copy.deepcopy(t), default, '--opt')], cli=cli,
                                   user=file('user'), system=file('system'), dirfile=None,
                                   use_dir=False, no_user=False, how_dir='env', how_prefix='env')


def layers_of(v):
    if v['use_dir']:
        files = [v['dirfile']]
    elif v['no_user']:
        files = [v['system']]
    else:
        files = [v['user'], v['system']]
    return [cli_values(v['cli'])] + [settings(f) for f in files]


def global_options(v, tool, prefix, xdir):
    opts, e = [], {}
    if v['how_prefix'] == 'option':
        opts.append('--prefix=' + prefix)
    else:
        e[tool.upper() + '_PREFIX'] = prefix
    if v['use_dir']:
        if v['how_dir'] == 'option':
            opts.append('--%s-dir=%s' % (tool, xdir))
        else:
            e[tool.upper() + '_DIR'] = xdir
    if v['no_user']:
        opts.append('--no-user-config')
    return opts, e


def classify_cascade(v, rec):
    ls = layers_of(v)
    n = sum(1 for l in ls if any(x is not None for x in l.values()))
    rec.event('%d layers with values' % n)
    rec.nontrivial(n >= 2)
    names = [i[0] for i in v['items']]
    if any(sum(1 for l in ls if l.get(nm) is not None) > 1 for nm in names):
        rec.event('item set in several layers')
    if any(l.get(nm, 0) is None for l in ls for nm in names):
        rec.event('null entry')
    if v['use_dir']:
        rec.event('tool dir')
    if v['no_user']:
        rec.event('no user config')


def spoil(x):
    """Change each list and dict in x."""
    for n in nodes(x):
        if isinstance(n, list):
            n[:] = n[1:] + ['spoiled']
        else:
            for k in list(n):
                n[k] = 'spoiled'
            n['spoiled'] = 'spoiled'


def custom_description(items):
    d = ConfigDescription('sub.yaml')
    for name, t, default, option in items:
        kw = {}
        if option:
            if option == '--' + name.replace('_', '-').replace('/', '-'):
                kw['command_line'] = True
            else:
                kw['command_line_argument'] = option[2:]
        d.add(name, type=build(t), default=copy.deepcopy(default), **kw)
    return d


def load_custom(d, v, items):
    tool = 'tool-x'
    with ctx.TempDir() as base:
        prefix, xdir = os.path.join(base, 'pre'), os.path.join(base, 'xd')
        clear_dirs(user_dir(tool))
        write_config(os.path.join(user_dir(tool), 'sub.yaml'), v['user'])
        write_config(os.path.join(prefix, 'etc', tool, 'sub.yaml'), v['system'])
        write_config(os.path.join(xdir, 'sub.yaml'), v['dirfile'])
        opts, e = global_options(v, tool, prefix, xdir)
        parser = argparse.ArgumentParser(add_help=False)
        try:
            with Environ(e, v.get('noisy')), quiet():
                d.add_arguments(parser)
                xcu.add_global_config_arguments(parser, tool)
                args = parser.parse_args(opts + options(items, v['cli']))
                xcu.handle_global_config_arguments(args, tool)
                return xcu.load_config(args, d, tool)
        except SystemExit:
            fail('argument parser rejects %s' % short(opts + options(items, v['cli'])))
        except ConfigError as x:
            fail('rejected: %s' % x)
        finally:
            clear_dirs(user_dir(tool))


def check_custom(v, rec):
    items = [tuple(i) for i in v['items']]
    classify_cascade(v, rec)
    d = custom_description(items)
    want = effective(items, layers_of(v))
    got = load_custom(d, v, items)
    for name, t, _, _ in items:
        expect_same(get_item(got, name), get_item(want, name), 'item %s (%s)' % (name, t))
    expect_same(got, want, 'effective configuration')
    for name, t, _, _ in items:
        x = got
        for part in name.split('/'):
            x = getattr(x, part)
        expect(x is get_item(got, name), 'attribute access to {} differs', name)
    if v['user'] != v['system']:
        # the same with the files exchanged
        w = dict(v, user=v['system'], system=v['user'])
        expect_same(load_custom(d, w, items), effective(items, layers_of(w)),
                    'effective configuration with exchanged files')
        rec.count('configurations with exchanged files')


def check_repeated(v, rec):
    """The same configuration again after the first one was changed."""
    items = [tuple(i) for i in v['items']]
    d = custom_description(items)
    want = effective(items, layers_of(v))
    rec.nontrivial(any(isinstance(get_item(want, i[0]), (list, dict)) for i in items))
    rec.event('default is list or dict' if any(isinstance(i[2], (list, dict)) for i in items)
              else 'defaults scalar')
    for i in range(3):
        got = load_custom(d, v, items)
        expect_same(got, want, 'configuration number %d' % (i + 1))
        spoil(got)
    docs = [file_doc(settings(v[k])) for k in ('user', 'system', 'dirfile')]
    for doc in docs:
        before = repr_(doc)
        one = xcu.config_from_parsed_yaml(doc, d, use_defaults=True)
        want = plain(one)
        expect_eq(repr_(doc), before, 'input')
        spoil(one)
        expect_eq(repr_(doc), before, 'input after the config was changed')
        expect_same(xcu.config_from_parsed_yaml(doc, d, use_defaults=True), want,
                    'configuration from the same dict')
    one = xcu.config_from_defaults(d)
    want = plain(one)
    spoil(one)
    expect_same(xcu.config_from_defaults(d), want, 'configuration from defaults')


def parse_real(argv):
    parser = argparse.ArgumentParser(add_help=False)
    xconfig.add_config_arguments(parser)
    add_global_arguments(parser)
    try:
        args = parser.parse_args(argv)
    except SystemExit:
        fail('argument parser rejects %s' % short(argv))
    handle_global_arguments(args)
    xconfig.handle_config_arguments(args)
    return xconfig.get_config()


def ref_os(s):
    features = None
    if '&' in s:
        i = s.index('&')
        f = s[i + 1:].strip()
        s = s[:i]
        features = [x.strip() for x in f.split(',')] if f else []
    version = None
    if ':' in s:
        i = s.index(':')
        version = s[i + 1:].strip()
        s = s[:i]
    return s.strip(), version, features


def finish(cfg, prefix, xdir):
    """Post-processing of the effective configuration."""
    if cfg['os_override'] is not None:
        n, ver, f = ref_os(cfg['os_override'])
        cfg['os_override'] = (n, ver)
        if f is not None:
            cfg['os_options']['features'] = f
    for item, user_sub, sys_sub in (('cache_dir', 'cache', 'var/cache/xylem'),
                                    ('sources_dir', 'sources.d', 'etc/xylem/sources.d')):
        if cfg[item] is None:
            if xdir is not None:
                cfg[item] = os.path.join(xdir, user_sub)
            elif cfg['user_sources']:
                cfg[item] = os.path.join(user_dir('xylem'), user_sub)
            else:
                cfg[item] = os.path.join(prefix, sys_sub)
    return cfg


def ordered(x):
    if isinstance(x, dict):
        return collections.OrderedDict((k, ordered(y)) for k, y in x.items())
    return [ordered(y) for y in x] if isinstance(x, list) else x


def check_real(v, rec):
    classify_cascade(dict(v, items=ITEMS), rec)
    with ctx.TempDir() as base:
        prefix, xdir = os.path.join(base, 'pre'), os.path.join(base, 'xd')
        clear_dirs(user_dir('xylem'))
        write_config(os.path.join(user_dir('xylem'), 'config.yaml'), v['user'])
        write_config(os.path.join(prefix, 'etc/xylem/config.yaml'), v['system'])
        write_config(os.path.join(xdir, 'config.yaml'), v['dirfile'])
        opts, e = global_options(v, 'xylem', prefix, xdir)
        want = finish(effective(ITEMS, layers_of(v)), prefix, xdir if v['use_dir'] else None)
        try:
            with Environ(e, v.get('noisy')), quiet():
                got = parse_real(opts + options(ITEMS, v['cli']))
        except ConfigError as x:
            fail('rejected: %s' % x)
        finally:
            clear_dirs(user_dir('xylem'))
    for name, t, _, _ in ITEMS:
        expect_same(get_item(got, name), get_item(want, name), 'item %s' % name)
    expect_same(dict(got), want, 'effective configuration')
    # a plain dict (or one of a subclass) passed to the API is combined with the defaults alone
    for n, l in enumerate(layers_of(v)):
        doc = file_doc(copy.deepcopy(l))
        if (len(l) + n) % 3 == 2:
            doc = ordered(doc)
        with quiet():
            got = xconfig.ensure_config(doc)
        want = effective(ITEMS, [l])
        if want['os_override'] is not None:
            n, ver, f = ref_os(want['os_override'])
            want['os_override'] = (n, ver)
            if f is not None:
                want['os_options']['features'] = f
        got = dict(got)
        for item in ('cache_dir', 'sources_dir'):
            if want[item] is None:
                # derived, see C04
                got.pop(item, None)
                del want[item]
        expect_same(got, want, 'configuration from the dict %s' % short(l))


RULES['C01'] = ('at least two of the layers command line, user/system/directory file set a value (api: at '
               'least two functions are given a plain dict); '
                'distinct by the whole cascade')
SUBS['C01'] = [
    Sub('custom', cascade(description(), 1), check_custom, quick=900, qshards=3,
        examples=list(cascade_examples())),
    Sub('xylem', None, check_real, quick=900, qshards=3),
]


@st.composite
def real_cascade(draw):
    v = draw(cascade(st.just(ITEMS)))
    v.pop('items')
    return v


SUBS['C01'][1].strategy = real_cascade


# the API functions given no config, a plain dict or a config dict

API_OS = ['ubuntu:precise', 'ubuntu:trusty', 'debian:jessie']
API_CORE = [None, ['apt'], ['pip'], ['pip', 'apt']]
API_FROM = [None, {'pip': ['key']}, {'apt': ['key', 'other'], 'pip': []}]


@st.composite
def plain_config(draw):
    n = st.integers(0, 10 ** 6)
    return dict(os=draw(n) % len(API_OS), sources=draw(n) % 2, cache=draw(n) % 2, core=draw(n) % len(API_CORE),
                install_from=draw(n) % len(API_FROM), additional=bool(draw(n) % 3), null=draw(st.booleans()))


@st.composite
def plain_case(draw):
    call = st.tuples(st.sampled_from(['update', 'dry', 'lookup', 'compact', 'resolve', 'install']),
                     plain_config(), st.sampled_from(['dict', 'dict', 'config', 'none']))
    return dict(common=draw(plain_config()), calls=[list(c) for c in draw(st.lists(call, min_size=3, max_size=7))])


def plain_doc(base, c):
    d = dict(os_override=API_OS[c['os']], sources_dir=os.path.join(base, 's%d' % c['sources']),
             cache_dir=os.path.join(base, 'c%d' % c['cache']), use_additional_installers=c['additional'])
    for item, v in (('core_installers', API_CORE[c['core']]), ('install_from', API_FROM[c['install_from']])):
        if v is not None or c['null']:
            d[item] = copy.deepcopy(v)
    return d


def check_plain(v, rec):
    from xylem.install import install
    from xylem.lookup import lookup
    from xylem.resolve import resolve
    from xylem.update import update
    from xylem.sources import RulesDatabase, SourcesContext

    def packages(c, inst):
        return '%s-%s-%d' % (inst, API_OS[c['os']].replace(':', '-'), c['sources'])

    old = xconfig.get_config()
    with ctx.TempDir() as base:
        for w in (0, 1):
            rules = {}
            for i, name in enumerate(API_OS):
                n, ver = name.split(':')
                rules.setdefault(n, {})[ver] = dict(
                    (inst, [packages(dict(os=i, sources=w), inst)]) for inst in ('apt', 'pip'))
            ctx.write(os.path.join(base, 'r%d.yaml' % w), yaml.safe_dump({'key': rules}))
            os.mkdir(os.path.join(base, 's%d' % w))
            ctx.write(os.path.join(base, 's%d' % w, '1.yaml'),
                      yaml.safe_dump([{'rules': 'file://%s/r%d.yaml' % (base, w)}]))
        cached = set()
        forms = set()
        try:
            for fn, c, form in v['calls']:
                with quiet():
                    common = xconfig.ensure_config(plain_doc(base, v['common']))
                xconfig.set_config(common)
                doc = plain_doc(base, c)
                before = copy.deepcopy(doc)
                kept = copy.deepcopy(dict(common))
                if form == 'none':
                    c, arg = v['common'], None
                elif form == 'config':
                    with quiet():
                        arg = xconfig.ensure_config(doc)
                else:
                    arg = doc
                place = (c['sources'], c['cache'])
                if fn not in ('update', 'dry') and place not in cached:
                    # the sources have to be fetched for this configuration
                    with quiet():
                        update(config=xconfig.ensure_config(plain_doc(base, c)))
                    cached.add(place)
                forms.add((form == 'dict', fn))
                rec.event('%s with %s' % (fn, form))
                what = '%s with config %s (global: %s)' % (fn, short(arg), short(plain_doc(base, v['common'])))
                both = {'apt': {'packages': [packages(c, 'apt')]}, 'pip': {'packages': [packages(c, 'pip')]}}
                core = API_CORE[c['core']] or ['apt']
                chosen = {1: 'pip', 2: 'apt'}.get(c['install_from'], core[0])
                on = API_OS[c['os']]
                if fn in ('update', 'dry'):
                    tree = ctx.snapshot(base)
                    with quiet():
                        update(fn == 'dry', config=arg)
                    if fn == 'dry':
                        expect_same(ctx.snapshot(base), tree, 'files after ' + what)
                    else:
                        cached.add(place)
                        with quiet():
                            db = RulesDatabase(SourcesContext(xconfig.ensure_config(plain_doc(base, c))))
                            db.load_from_cache()
                        others = [k for k, e in ctx.snapshot(base).items()
                                  if tree.get(k) != e and not k.startswith('c%d' % c['cache'])]
                        expect(not others, '%s: changed %s', what, others)
                        expect_eq(len(db.sources), 1, 'number of sources after ' + what)
                elif fn in ('lookup', 'compact'):
                    with quiet():
                        got = lookup('key', compact=fn == 'compact', config=arg)
                    expect_same(got, both if fn == 'lookup' else dict(
                        (i, r['packages']) for i, r in both.items()), 'result of ' + what)
                elif fn == 'resolve':
                    with quiet():
                        res, errors = resolve(['key'], config=arg)
                    expect_same(res, [('key', (chosen, [{'package': packages(c, chosen)}]))], 'result of ' + what)
                    expect_eq(errors, [], 'errors of ' + what)
                else:
                    with quiet():
                        errors, failed = install(['nope'], config=arg)
                    expect_eq([k for k, _ in errors], ['nope'], 'errors of ' + what)
                    expect(on in str(errors[0][1]), '%s: error %s does not name the OS', what, errors[0][1])
                    expect_eq(failed, [], 'install errors of ' + what)
                if form == 'dict':
                    expect_same(doc, before, 'dict passed to ' + what)
                expect(xconfig.get_config() is common, '%s replaced the global configuration', what)
                expect_same(dict(common), kept, 'global configuration after ' + what)
        finally:
            xconfig.set_config(old)
    rec.nontrivial(len([1 for d, _ in forms if d]) >= 2)


SUBS['C01'].append(Sub('api', plain_case(), check_plain, quick=240, qshards=3, examples=[
    dict(common=dict(os=0, sources=0, cache=0, core=0, install_from=0, additional=True, null=False),
         calls=[[fn, dict(os=o, sources=1, cache=1, core=2, install_from=f, additional=a, null=n), 'dict']
                for fn in ('update', 'lookup', 'compact', 'resolve', 'install', 'dry')])
    for o, f, a, n in ((1, 0, True, False), (2, 2, False, True))]))


# ----------------------------------------------------------------------- C03

names = st.sampled_from(['ubuntu', 'osx', 'a b', 'é', '', 'a-b', 'u/x', 'mac@x', '10.8', 'Mac OS X', 'None', '"q"',
                         'a  b', '[x]', 'ﬁ', '#', '~', '{0}'])
versions = st.sampled_from(['precise', 'mountain lion', '10.8', '', '1:2', 'a:b:c', 'é', '::', ': x', 'Precise', '01',
                            '10.10', 'null', 'any_version', "'1'", '1_0', '[1, 2]', '~', '-1', '10.8.0', 'İ'])
feats = st.lists(st.sampled_from(['a', 'b c', 'x:y', 'é', 'a&b', '&', 'f1', 'F1', '0', 'null', '[a]', '"b"', 'a;b',
                                  '-x', 'a=b']), max_size=3)
space = st.sampled_from(['', '', '', ' ', '  ', '\t', '\n ', '\xa0'])


@st.composite
def os_string(draw):
    parts = [draw(space), draw(names), draw(space)]
    if draw(st.integers(0, 3)):
        parts += [':', draw(space), draw(versions), draw(space)]
    if draw(st.booleans()):
        parts += ['&', draw(space)]
        for i, f in enumerate(draw(feats)):
            parts += ([','] if i else []) + [draw(space), f, draw(space)]
    return ''.join(parts)


def check_parse_os(s, rec):
    want = ref_os(s)
    rec.nontrivial(want[1] is not None or want[2] is not None)
    rec.event('version' if want[1] is not None else 'no version')
    rec.event('features' if want[2] else ('empty features' if want[2] == [] else 'no features'))
    got = xconfig.parse_os_override(s)
    expect_same(list(got), list(want), 'parse_os_override(%r)' % s)


@st.composite
def os_case(draw):
    return dict(file=draw(st.one_of(st.none(), os_string())), cli=draw(st.one_of(st.none(), os_string())),
                file_features=draw(st.one_of(st.none(), feats)),
                cli_features=draw(st.one_of(st.none(), feats)))


def check_os_effective(v, rec):
    s = v['cli'] if v['cli'] is not None else v['file']
    features = v['cli_features'] if v['cli_features'] is not None else v['file_features']
    want = None
    if s is not None:
        n, ver, f = ref_os(s)
        want = (n, ver)
        if f is not None:
            features = f
            rec.event('features in override')
        rec.nontrivial()
    rec.event('override from ' + ('cli' if v['cli'] is not None else 'file' if v['file'] is not None
                                  else 'nowhere'))
    doc = {}
    if v['file'] is not None:
        doc['os_override'] = v['file']
    if v['file_features'] is not None:
        doc['os_options'] = {'features': v['file_features']}
    with ctx.TempDir() as base:
        ctx.write(os.path.join(base, 'config.yaml'), yaml.safe_dump(doc, allow_unicode=True))
        argv = ['--xylem-dir=' + base]
        if v['cli'] is not None:
            argv.append('--os=' + v['cli'])
        if v['cli_features'] is not None:
            argv.append('--os-features=' + flow(v['cli_features']))
        with Environ({}), quiet():
            got = parse_real(argv)
    expect_eq(got.os_override, want, 'os_override')
    expect_eq(got.os_options.features, features, 'features')
    # a plain dict for the API
    if s is not None or features is not None:
        d = {}
        if s is not None:
            d['os_override'] = s
        f = v['cli_features'] if v['cli_features'] is not None else v['file_features']
        if f is not None:
            d['os_options'] = {'features': f}
        before = copy.deepcopy(d)
        with quiet():
            c = xconfig.ensure_config(d)
        expect_eq(c.os_override, want, 'os_override from a plain dict')
        expect_eq(c.os_options.features, features, 'features from a plain dict')
        expect_eq(d, before, 'plain dict afterwards')
        expect(xconfig.ensure_config(c) is c, 'ensure_config copies a config dict')
        expect_eq(c.os_override, want, 'os_override after second ensure_config')


RULES['C03'] = 'an override is given (for parsing: with version or features); distinct by all inputs'
SUBS['C03'] = [
    Sub('parse', os_string, check_parse_os, quick=800, examples=['a&', 'a:', ':', '&', 'a&b:c', 'a:b&c:d',
                                                                 ' a : b & c , d ']),
    Sub('effective', os_case, check_os_effective, quick=500, qshards=2),
]


# ----------------------------------------------------------------------- C04

REL = ['{b}/$HOME/x', '{b}/link/s', '~/link/s', '{b}/one', '{b}/two/../three', 'rel/x', '~/y', '{b}//z/', './w/.', '../{n}/v', '~', '{b}/é x']


@st.composite
def dirs_case(draw):
    maybe = lambda s: draw(st.one_of(st.none(), s))  # noqa
    p = st.sampled_from(REL)
    # directories that are not written to
    other = st.integers(0, 5).flatmap(lambda k: st.sampled_from(
        ['~root/x', '~nobody', '~daemon/../y', '{b}/~root', '~/~root/x', '~{n}/x']) if k == 5 else p)
    rare = lambda s: draw(st.one_of(st.none(), st.none(), s))  # noqa
    return dict(prefix=maybe(p), env_prefix=rare(p), dir=rare(p), env_dir=rare(p),
                no_user=draw(st.booleans()),
                user_sources=draw(st.sampled_from([None, None, 'cli', 'cli-no', 'file', 'file-no'])),
                cache=draw(st.sampled_from([None, None, 'cli', 'file', 'both'])), cache_path=draw(other),
                cache_path2=draw(other),
                sources=draw(st.sampled_from([None, None, 'cli', 'file', 'both'])),
                sources_path=draw(other), sources_path2=draw(other), fallback=draw(st.booleans()),
                empty_file=draw(st.booleans()))


def check_dirs(v, rec):
    with ctx.TempDir() as base:
        cwd = os.path.join(base, 'cwd')
        os.mkdir(cwd)
        os.chdir(cwd)
        try:
            _check_dirs(v, rec, base)
        finally:
            os.chdir(SCRATCH)
            for f in os.listdir(HOME):
                f = os.path.join(HOME, f)
                shutil.rmtree(f) if os.path.isdir(f) and not os.path.islink(f) else os.unlink(f)


def _check_dirs(v, rec, base):
    for d in (base, HOME):
        os.mkdir(os.path.join(d, 'real'))
        os.symlink('real', os.path.join(d, 'link'))
    def p(key):
        x = v[key]
        return None if x is None else x.format(b=base, n='cwd')

    if v['prefix'] is None and v['env_prefix'] is None and not v['fallback']:
        v['env_prefix'] = '{b}/fallback'
    prefix = p('prefix') if v['prefix'] is not None else p('env_prefix')
    default_prefix = prefix is None
    prefix = '/' if default_prefix else norm_path(prefix)
    xdir = p('dir') if v['dir'] is not None else p('env_dir')
    xdir = None if xdir is None else norm_path(xdir)
    argv, e, doc = [], {}, {}
    if v['prefix'] is not None:
        argv.append('--prefix=' + p('prefix'))
    if v['env_prefix'] is not None:
        e['XYLEM_PREFIX'] = p('env_prefix')
    if v['dir'] is not None:
        argv.append('--xylem-dir=' + p('dir'))
    if v['env_dir'] is not None:
        e['XYLEM_DIR'] = p('env_dir')
    if v['no_user']:
        argv.append('--no-user-config')
    us = v['user_sources']
    if us in ('cli', 'cli-no'):
        argv.append('--user-sources=' + ('yes' if us == 'cli' else 'no'))
    elif us:
        doc['user_sources'] = us == 'file'
    for item, key in (('cache_dir', 'cache'), ('sources_dir', 'sources')):
        how = v[key]
        if how in ('cli', 'both'):
            argv.append('--%s=%s' % (item.replace('_', '-'), p(key + '_path')))
        if how in ('file', 'both'):
            doc[item] = p(key + '_path2')
    # the config file is in the place that is used
    if xdir is not None:
        cf = os.path.join(xdir, 'config.yaml')
    elif default_prefix and v['no_user']:
        cf, doc = None, {}
        v['cache'] = {'file': None, 'both': 'cli'}.get(v['cache'], v['cache'])
        v['sources'] = {'file': None, 'both': 'cli'}.get(v['sources'], v['sources'])
        us = us if us in ('cli', 'cli-no') else None
    elif v['no_user']:
        cf = os.path.join(prefix, 'etc/xylem/config.yaml')
    else:
        cf = os.path.join(user_dir('xylem'), 'config.yaml')
    if not doc and not v.get('empty_file', True):
        cf = None
    if cf:
        if not os.path.isdir(os.path.dirname(cf)):
            os.makedirs(os.path.dirname(cf))
        ctx.write(cf, yaml.safe_dump(doc, allow_unicode=True))
    user_sources = us in ('cli', 'file')
    want = {}
    for item, key, sub, sysdir in (('cache_dir', 'cache', 'cache', 'var/cache/xylem'),
                                   ('sources_dir', 'sources', 'sources.d', 'etc/xylem/sources.d')):
        if v[key] in ('cli', 'both'):
            want[item] = norm_path(p(key + '_path'))
        elif v[key] == 'file':
            want[item] = norm_path(p(key + '_path2'))
        elif xdir is not None:
            want[item] = os.path.join(xdir, sub)
        elif user_sources:
            want[item] = os.path.join(user_dir('xylem'), sub)
        else:
            want[item] = os.path.join(prefix, sysdir)
    rec.event('dir from ' + ('cli' if v['dir'] else 'env' if v['env_dir'] else 'nowhere'))
    rec.event('prefix from ' + ('cli' if v['prefix'] else 'env' if v['env_prefix'] else 'default'))
    rec.event('user sources' if user_sources else 'no user sources')
    if xdir is not None:
        rec.event('xylem dir exists' if os.path.isdir(xdir) else 'xylem dir does not exist')
    elif not default_prefix:
        rec.event('prefix exists' if os.path.isdir(prefix) else 'prefix does not exist')
    rec.event('explicit' if v['cache'] or v['sources'] else 'derived')
    rec.nontrivial(sum(1 for k in ('prefix', 'env_prefix', 'dir', 'env_dir', 'user_sources', 'cache',
                                   'sources') if v[k]) >= 2)
    with Environ(e), quiet():
        got = parse_real(argv)
    expect_eq(got.cache_dir, want['cache_dir'], 'cache_dir')
    expect_eq(got.sources_dir, want['sources_dir'], 'sources_dir')
    # a dict passed to the API: without prefix and xylem dir, but otherwise the same
    from xylem.sources import RulesDatabase, SourcesContext
    api = {}
    if us:
        api['user_sources'] = user_sources
    for item, key in (('cache_dir', 'cache'), ('sources_dir', 'sources')):
        if v[key]:
            api[item] = p(key + ('_path' if v[key] in ('cli', 'both') else '_path2'))
    given = copy.deepcopy(api)
    with quiet():
        s = SourcesContext(xconfig.ensure_config(api))
    for item, got_path in (('cache_dir', os.path.dirname(s.cache_dir)), ('sources_dir', s.sources_dir)):
        sub, sysdir = {'cache_dir': ('cache', '/var/cache/xylem'),
                       'sources_dir': ('sources.d', '/etc/xylem/sources.d')}[item]
        expect_eq(got_path, norm_path(api[item]) if item in api else
                  os.path.join(user_dir('xylem'), sub) if user_sources else sysdir,
                  '%s with %s passed to the API' % (item, given))
    # effect: rules are read from and cached below exactly these directories
    if not all(w.startswith(os.path.dirname(HOME)) for w in want.values()):
        rec.event('outside scratch: compared only')
        return
    sd = want['sources_dir']
    if cf and os.path.dirname(cf) == sd:
        rec.event('config file in the sources directory: compared only')
        return
    if not os.path.isdir(sd):
        os.makedirs(sd)
    ctx.write(os.path.join(sd, 'a.yaml'), '- data: x\n')
    table = {'x': {'foo': {'ubuntu': {'any_version': {'apt': {'packages': ['p']}}}}}}
    scratch = os.path.dirname(HOME)
    before = files_below(scratch)
    with quiet():
        s = SourcesContext(got, spec_plugins=[ctx.DataSpec(table)])
        s.ensure_cache_dir()
        db = RulesDatabase(s)
        db.update()
        db2 = RulesDatabase(SourcesContext(got, spec_plugins=[ctx.DataSpec({})]))
        db2.load_from_cache()
        ic = ctx.installer_context(('ubuntu', 'precise'))
        res = db2.lookup('foo', ic)
    expect(bool(res), 'rules from {} are not in the database', sd)
    new = files_below(scratch) - before
    expect(len(new) > 0, 'nothing was cached')
    expect(all(n.startswith(os.path.realpath(want['cache_dir']) + os.sep) for n in new),
           'files outside cache dir {}: {}', want['cache_dir'], sorted(new))
    rec.count('updates with derived directories')


def files_below(d):
    return set(os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs)


RULES['C04'] = 'at least two of the settings (prefix, dir, variables, user sources, explicit directories) are given'
SUBS['C04'] = [Sub('directories', dirs_case, check_dirs, quick=700, qshards=4)]


# ----------------------------------------------------------------------- C05

def api_doc():
    return st.one_of(layer(ITEMS, p=1), nested_layer(), layer(ITEMS, p=1), st.just({})).map(file_doc)


@st.composite
def nested_layer(draw):
    res = draw(layer(ITEMS, p=3))
    tree = st.recursive(st.integers(0, 2), lambda c: st.one_of(
        st.lists(c, min_size=1, max_size=2),
        st.dictionaries(st.sampled_from(['x', 'y']), c, min_size=1, max_size=2)), max_leaves=4)
    res['installer_options'] = {draw(st.sampled_from(['apt', 'pip'])): {'o': draw(tree), 'p': [draw(tree)]}}
    return res


c05_op = st.one_of(
    st.tuples(st.just('default')),
    st.tuples(st.just('defaults_of')),
    st.tuples(st.just('parsed'), api_doc(), st.booleans()),
    st.tuples(st.just('ensure'), api_doc()),
    st.tuples(st.just('args'), cli_layer([i for i in ITEMS if i[1] != 'Path'], p=2), api_doc()),
    st.tuples(st.just('merge'), st.integers(0, 9), st.integers(0, 9), st.integers(-3, 9)),
    st.tuples(st.just('mutate'), st.integers(0, 9), st.integers(0, 40), st.integers(0, 3)),
    st.tuples(st.just('mutate'), st.integers(0, 9), st.integers(0, 40), st.integers(0, 3)),
    st.tuples(st.just('mutate'), st.integers(0, 9), st.integers(2, 40), st.integers(0, 3)),
    st.tuples(st.just('copy'), st.integers(0, 9)),
    st.tuples(st.just('coerce'), st.integers(0, 9)),
)


def nodes(x):
    """All lists and dicts in x."""
    res = []

    def walk(y):
        if isinstance(y, dict):
            res.append(y)
            for v in y.values():
                walk(v)
        elif isinstance(y, (list, tuple)):
            if isinstance(y, list):
                res.append(y)
            for v in y:
                walk(v)
    walk(x)
    return res


def mutate(root, where, how, deep=True):
    ns = nodes(root)
    if not deep:
        ns = [root] + [v for v in root.values() if type(v) is type(root)]
    n = ns[where % len(ns)]
    if isinstance(n, list):
        if how == 0 or not n:
            n.append('mutated')
        elif how == 1:
            n.pop()
        else:
            n[0] = 'mutated'
    elif n is root or (isinstance(n, ConfigDict)):
        ks = sorted(k for k in n if not isinstance(n[k], ConfigDict))
        if ks:
            k = ks[how % len(ks)]
            n[k] = {'mutated': [1]} if isinstance(n[k], dict) else ['mutated']
    else:
        if how == 0 or not n:
            n['mutated'] = 1
        elif how == 1:
            n.pop(sorted(n)[0])
        else:
            n[sorted(n)[0]] = 'mutated'
    return n is not root


def check_isolation(ops, rec):
    description = xconfig.get_config_description()
    pristine = plain(xconfig.get_default_config())
    pool = []           # [object, expected contents, group of objects that may share]
    group = 0
    deep_mutations = merges = 0

    def add(obj, g=None, is_config=True):
        nonlocal group
        if g is None:
            group += 1
            g = group
        pool.append([obj, plain(obj), g, is_config])

    def verify(what):
        for i, (obj, want, g, _) in enumerate(pool):
            if repr_(obj) != repr(want):
                fail('after %s: object %d is %s, was %s' % (what, i, short(repr_(obj)), short(repr(want))))
        now = plain(xconfig.get_default_config())
        expect_eq(repr(now), repr(pristine), 'defaults after %s' % (what,))

    for op in ops:
        kind = op[0]
        configs = [p for p in pool if p[3] is True]
        if kind == 'default':
            add(xconfig.get_default_config())
        elif kind == 'defaults_of':
            add(xcu.config_from_defaults(description))
        elif kind in ('parsed', 'ensure'):
            doc = copy.deepcopy(op[1])
            with quiet():
                if kind == 'parsed':
                    c = xcu.config_from_parsed_yaml(doc, description, use_defaults=op[2])
                else:
                    c = xconfig.ensure_config(doc)
            add(doc, is_config=False)
            add(c)
        elif kind == 'args':
            with ctx.TempDir() as base:
                ctx.write(os.path.join(base, 'config.yaml'), yaml.safe_dump(op[2], allow_unicode=True))
                with Environ({}), quiet():
                    c = parse_real(['--xylem-dir=' + base] + options(ITEMS, op[1]))
            expect(xconfig.get_config() is c, 'get_config')
            add(c)
        elif kind == 'merge' and len(configs) >= 1:
            a, b, c = [configs[i % len(configs)] for i in op[1:4]]
            args = [a[0], b[0]] + ([c[0]] if op[3] >= 0 else [])
            m = xcu.merge_configs(description, *args)
            merges += 1
            # values may be shared with the merged ones, the config itself not
            pool.append([m, plain(m), None, 'merged'])
        elif kind == 'mutate' and pool:
            p = pool[op[1] % len(pool)]
            deep = mutate(p[0], op[2], op[3], deep=p[3] != 'merged')
            deep_mutations += deep
            p[1] = plain(p[0])
            if p[3] is True:
                # merged configs may share its values
                for q in pool:
                    if q[3] == 'merged':
                        q[1] = plain(q[0])
        elif kind == 'copy' and configs:
            c = configs[op[1] % len(configs)][0]
            d = xcu.copy_to_dict(c)
            expect_eq(repr_(d), repr(plain(c)), 'copy_to_dict')
            expect(not any(isinstance(n, ConfigDict) for n in nodes(d)), 'copy has a ConfigDict')
            ids = set(id(n) for n in nodes(c))
            expect(not any(id(n) in ids for n in nodes(d)), 'copy shares structure')
            add(d, is_config=False)
        elif kind == 'coerce' and pool:
            src = pool[op[1] % len(pool)]
            for flag in (False, True):
                r = xcu.ceorce_config_dict(src[0], copy=flag)
                expect_eq(repr_(r), repr(src[1]), 'ceorce_config_dict')
                expect(isinstance(r, ConfigDict), 'ceorce_config_dict returned {}', type(r))
                for k, val in r.items():
                    if isinstance(val, dict) and not isinstance(src[0], ConfigDict):
                        expect(isinstance(val, ConfigDict), 'nested dict {} not coerced', k)
        verify(op[:1] + tuple(short(x, 100) for x in op[1:]))
    rec.event('deep mutations' if deep_mutations else 'no deep mutation')
    rec.event('merges' if merges else 'no merge')
    rec.nontrivial(deep_mutations > 0 and len(pool) > 1)


def plain(x):
    if isinstance(x, dict):
        return dict((k, plain(x[k])) for k in sorted(x, key=repr))
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    return x


def repr_(x):
    return repr(plain(x))


odd_keys = st.sampled_from([1, 0, -3, 2.5, None, (1, 'x')])
# trees in which ('c', {...}) stands for a config dict, ('t', [...]) for a tuple; keys that are names of dict methods
# ('items') shadow those in a config dict, and are unspecified
marked_words = words.filter(lambda k: not hasattr(dict, k))
marked_trees = st.dictionaries(st.one_of(*[marked_words] * 4 + [odd_keys]), st.recursive(scalars, lambda c: st.one_of(
    st.lists(c, min_size=1, max_size=3),
    st.dictionaries(st.one_of(marked_words, marked_words, odd_keys), c, min_size=1, max_size=3),
    st.tuples(st.just('t'), st.lists(c, max_size=3)),
    st.tuples(st.just('c'), st.dictionaries(st.one_of(marked_words, marked_words, odd_keys), c,
                                            max_size=3))), max_leaves=8),
    max_size=3)


def unmark(x):
    if isinstance(x, tuple) and x[0] == 't':
        return tuple(unmark(v) for v in x[1])
    if isinstance(x, tuple):
        return ConfigDict((k, unmark(v)) for k, v in x[1].items())
    if isinstance(x, dict):
        return dict((k, unmark(v)) for k, v in x.items())
    if isinstance(x, list):
        return [unmark(v) for v in x]
    return x


def check_copies(v, rec):
    src = unmark(('c', v))
    want = plain(src)
    depth = len(nodes(src))
    rec.nontrivial(depth >= 3)
    rec.event('with config dicts inside' if any(isinstance(n, ConfigDict) for n in nodes(src)[1:])
              else 'without')
    d = xcu.copy_to_dict(src)
    expect_eq(repr_(d), repr(want), 'copy_to_dict')
    expect(type(d) is dict, 'copy_to_dict returned {}', type(d))
    ids = set(id(n) for n in nodes(src))
    expect(not any(id(n) in ids for n in nodes(d)), 'copy shares structure with the original')
    for n in nodes(d):
        n.clear()
    expect_eq(repr_(src), repr(want), 'original after changing the copy')
    for root in (src, unmark(v)):
        for flag in (False, True):
            types = tree_types(root)
            r = xcu.ceorce_config_dict(root, copy=flag)
            expect_eq(tree_types(root), types, 'types in the original after coercing')
            expect(isinstance(r, ConfigDict), 'ceorce_config_dict returned {}', type(r))
            expect_eq(repr_(r), repr(want), 'ceorce_config_dict')
            expect_eq(repr_(root), repr(want), 'original after coercing')
            if flag or not isinstance(root, ConfigDict):
                expect(r is not root, 'not a new dict')
                for k, x in r.items():
                    if isinstance(x, dict):
                        expect(isinstance(x, ConfigDict), 'nested dict {} not coerced', k)
                for k in list(r):
                    if isinstance(k, str) and k.isidentifier() and not hasattr(dict, k):
                        expect(getattr(r, k) is r[k], 'attribute {}', k)
            if flag:
                # everything but the lists is a copy
                for n in dict_nodes(r):
                    n['changed'] = 1
                expect_eq(repr_(root), repr(want), 'original after changing the coerced copy')


def dict_nodes(x):
    if isinstance(x, dict):
        for y in x.values():
            for n in dict_nodes(y):
                yield n
        yield x


def tree_types(x):
    if isinstance(x, dict):
        return type(x), [(k, tree_types(y)) for k, y in x.items()]
    if isinstance(x, list):
        return type(x), [tree_types(y) for y in x]
    return type(x)


RULES['C05'] = 'a nested list or dict of a configuration is changed while others exist; distinct by the history'
SUBS['C05'] = [Sub('copies', marked_trees, check_copies, quick=600),
               Sub('repeated', cascade(description(), 1), check_repeated, quick=500, qshards=2),
               Sub('histories', st.lists(c05_op, min_size=4, max_size=14), check_isolation, quick=1200,
                   qshards=5, examples=[
    [('default',), ('mutate', 0, 3, 0), ('default',)],
    [('ensure', {'installer_options': {'apt': {'opts': [1, {'a': [2]}]}}}), ('mutate', 1, 0, 0),
     ('mutate', 1, 1, 0), ('mutate', 1, 2, 0), ('mutate', 1, 3, 0), ('mutate', 1, 4, 0),
     ('mutate', 1, 5, 0), ('mutate', 1, 6, 0), ('mutate', 1, 7, 0), ('mutate', 1, 8, 0),
     ('mutate', 1, 9, 0), ('mutate', 1, 10, 0), ('mutate', 1, 11, 0), ('mutate', 1, 12, 0),
     ('mutate', 1, 13, 0)]])]


# ----------------------------------------------------------------------- C06

COMMANDS = ['resolve', 'lookup', 'install', 'update']


@st.composite
def place_case(draw):
    cli = draw(cli_layer(ITEMS, p=2))
    file = st.one_of(st.none(), layer(ITEMS).map(lambda s: dict(settings=s, text=None)))
    return dict(cli=cli, before=sorted(n for n in cli if draw(st.booleans())),
                command=draw(st.sampled_from(COMMANDS)),
                prefix=draw(st.sampled_from([None, 'before', 'after', 'env', 'relative'])),
                xdir=draw(st.sampled_from([None, 'before', 'after', 'env', 'relative'])),
                verbose=draw(st.sampled_from([None, None, 'before', 'after'])),
                debug=draw(st.sampled_from([None, None, 'before', 'after'])),
                no_color=draw(st.sampled_from([None, 'before', 'after'])),
                no_user=draw(st.sampled_from([None, 'before', 'after'])),
                print_config=draw(st.sampled_from(['before', 'after'])),
                user=draw(file), dirfile=draw(file), system=draw(file),
                separate=draw(st.booleans()), standalone=draw(st.integers(0, 2)) == 2)


def place_examples():
    """All places of the directories and flags, for each kind of command."""
    def file(*core):
        return dict(settings={'core_installers': list(core)}, text=None)
    for standalone in (False, True):
        for user in (None, file('user')):
            for xdir in (None, 'before', 'after', 'env', 'relative'):
                for prefix in (None, 'before', 'after', 'env', 'relative'):
                    yield dict(cli={}, before=[], command=COMMANDS[len(str(xdir)) % 4],
                               prefix=prefix, xdir=xdir, verbose=None, debug=None, no_color=None,
                               no_user='after' if user and prefix == 'env' else None,
                               print_config='after', user=user, dirfile=file('dir'),
                               system=file('system'), separate=False, standalone=standalone)
    # special forms of the OS override
    for i, s in enumerate(['ubuntu:', ':10', ':', '', '&', 'a&', 'a:&f', 'a:b:c', 'a:b:', 'a&b&c',
                           ' a : b ', 'a: ', 'a: &f', 'None:None', 'a:None', '~', 'a:b&f,g:h']):
        for where in ('before', 'after', 'file'):
            file_ = dict(settings={'os_override': s}, text=None) if where == 'file' else None
            yield dict(cli={'os_override': (s, [s])} if file_ is None else {},
                       before=['os_override'] if where == 'before' else [],
                       command=COMMANDS[i % 4], prefix='after', xdir='after' if file_ else None,
                       verbose=None, debug=None, no_color=None, no_user=None,
                       print_config='after', user=None, dirfile=file_, system=None,
                       separate=False, standalone=where == 'after' and i % 2 == 0)


def to_printed(cfg):
    cfg = copy.deepcopy(cfg)
    if cfg['os_override'] is not None:
        # in the form of config files
        cfg['os_override'] = ':'.join(x for x in cfg['os_override'] if x is not None)
    return cfg


def run_main(argv):
    from xylem.commands.main import main
    main(argv)


def state_main(argv, standalone=None):
    """main, followed by the state of the global options."""
    import sys
    from xylem.commands.main import main
    from xylem import log_utils, terminal_color
    try:
        if standalone:
            import importlib
            sys.argv = ['xylem-' + standalone] + argv
            sys.exit(importlib.import_module('xylem.commands.' + standalone).main())
        main(argv)
    except SystemExit as e:
        sys.stdout.flush()
        sys.stderr.write('\nSTATE %r %r %r\n' % (log_utils.is_verbose(), log_utils.is_debug(),
                                               bool(terminal_color.ansi('redf'))))
        raise


def check_place(v, rec):
    cli = v['cli']
    before, after = [], []
    with ctx.TempDir() as base:
        prefix, xdir = os.path.join(base, 'pre'), os.path.join(base, 'xd')

        environ = {}

        def put(where, opt):
            (before if where == 'before' else after).extend(opt)
        for name, t, _, option in ITEMS:
            if name in cli:
                strings = cli[name][1]
                for s in strings:
                    if v['separate'] and not s.startswith('-'):
                        o = [option, s]
                    else:
                        o = [option + '=' + s]
                    put('before' if name in v['before'] else 'after', o)
        for where, path, opt, var in ((v['prefix'], prefix, '--prefix', 'XYLEM_PREFIX'),
                                      (v['xdir'], xdir, '--xylem-dir', 'XYLEM_DIR')):
            if where == 'env':
                environ[var] = path
            elif where == 'relative':
                put('before', [opt, os.path.relpath(path)])
            elif where:
                put(where, [opt, path])
        for key, opt in (('verbose', '-v'), ('debug', '-d'), ('no_color', '--no-color'),
                         ('no_user', '--no-user-config'), ('print_config', '--print-config')):
            if v[key]:
                put(v[key], [opt])
        argv = before + ([] if v['standalone'] else [v['command']]) + after + \
            (['foo'] if v['command'] in ('resolve', 'lookup', 'install') else [])
        # positional keys would be swallowed by nothing: all options take one value
        clear_dirs(user_dir('xylem'))
        write_config(os.path.join(user_dir('xylem'), 'config.yaml'), v['user'])
        write_config(os.path.join(xdir, 'config.yaml'), v['dirfile'])
        write_config(os.path.join(prefix, 'etc/xylem/config.yaml'), v['system'])
        layers = [cli_values(cli)]
        if v['xdir']:
            layers.append(settings(v['dirfile']))
        else:
            if not v['no_user']:
                layers.append(settings(v['user']))
            if v['prefix']:
                layers.append(settings(v['system']))
        rec.event('standalone' if v['standalone'] else 'subcommand')
        rec.event('dir: %s' % v['xdir'])
        rec.event('prefix: %s' % v['prefix'])
        want = finish(effective(ITEMS, layers), prefix if v['prefix'] else '/',
                      xdir if v['xdir'] else None)
        rec.nontrivial(len(before) > 0 and bool(cli))
        rec.event('options before' if before else 'none before')
        rec.event('options after' if after else 'none after')
        rec.event(v['command'])
        with Environ(environ):
            status, out, err = ctx.forked(
                lambda: state_main(argv, v['command'] if v['standalone'] else None))
        try:
            expect_eq(status, 0, 'exit status of xylem %s (%s)' % (short(argv), short(err[-800:])))
            expect('STATE %r %r %r\n' % (bool(v['verbose']), bool(v['debug']), not v['no_color']) in err,
                   'global options verbose/debug/color, stderr {}', err[-300:])
            text = ctx_strip(out)
            try:
                printed = yaml.safe_load(text)
            except yaml.YAMLError as e:
                fail('printed config is no YAML: %s\n%s' % (e, text))
            expect_same(printed, to_printed(want), 'printed effective configuration')
            # read back as config file
            back = dict(printed)
            xd2 = os.path.join(base, 'xd2')
            os.mkdir(xd2)
            ctx.write(os.path.join(xd2, 'config.yaml'), yaml.safe_dump(back, allow_unicode=True))
            with Environ({}), quiet():
                again = parse_real(['--xylem-dir=' + xd2])
            expect_same(dict(again), want, 'printed configuration read back')
            # the same as dict passed to the API
            doc = file_doc(dict((n, get_item(effective(ITEMS, layers), n)) for n, _, _, _ in ITEMS))
            api = xconfig.ensure_config(doc)
            for name, t, _, _ in ITEMS:
                if name not in ('cache_dir', 'sources_dir'):
                    expect_same(get_item(api, name), get_item(want, name), 'item %s of plain dict' % name)
        finally:
            clear_dirs(user_dir('xylem'))


def ctx_strip(s):
    import re
    return re.sub('\x1b\\[[0-9;]*m', '', s)


DECLARED = ['foo', 'b_ar', 'grp/foo', 'grp/q_x', 'Big_9', 'Grp/Sub-X', 'x']


@st.composite
def declaration_case(draw):
    t = copy.deepcopy(draw(types))
    value = draw(values(t))
    return dict(name=draw(st.sampled_from(DECLARED)), type=t,
                command_line=draw(st.sampled_from([None, True, False])),
                argument=draw(st.sampled_from([None, '', 'opt', '--opt', 'a-b_c', 'Opt-X', '--Opt_Y', 'o--p'])),
                metavar=draw(st.sampled_from([None, '', 'X', 'a b'])),
                help=draw(st.sampled_from([None, '', 'Some help', '100 %% é'])),
                value=value, strings=draw(cli_strings(t, value)))


def declaration_examples():
    for name in ('b_ar', 'grp/q_x', 'Grp/Sub-X'):
        for command_line in (None, True, False):
            for argument in (None, '', 'opt', '--opt'):
                for metavar in (None, '', 'X'):
                    for t, value, strings in (('String', 'v w', ['v w']), ('Boolean', True, ['true']),
                                              ('MergingDict', {'a': 1}, ['a: 1'])):
                        yield dict(name=name, type=t, command_line=command_line,
                                   argument=argument, metavar=metavar, help=None, value=value,
                                   strings=strings)


def check_declaration(v, rec):
    """Declared items have their option, which acts like the file's entry."""
    d = ConfigDescription('sub.yaml')
    kw = dict((k, v[j]) for k, j in (('command_line', 'command_line'), ('help', 'help'),
                                     ('command_line_argument', 'argument'),
                                     ('command_line_metavar', 'metavar')) if v[j] is not None)
    d.add('other', type=build('String'), command_line=True)
    d.add(v['name'], type=build(v['type']), **kw)
    has = v['command_line']
    if has is None:
        has = v['argument'] is not None or v['metavar'] is not None
    option = '--' + ((v['argument'] or '').lstrip('-') or v['name'].replace('_', '-').replace('/', '-'))
    rec.event('option' if has else 'no option')
    rec.nontrivial(has)
    parser = argparse.ArgumentParser(add_help=False)
    d.add_arguments(parser)
    options_ = sorted(o for a in parser._actions for o in a.option_strings)
    expect_eq(options_, sorted(['--other'] + [option] * has), 'options')
    text = parser.format_help()
    expect(not has or option in text, 'option {0} is not in the help: {1}', option, text)
    if not has:
        return
    args = parser.parse_args(['%s=%s' % (option, s) for s in v['strings']] + ['--other=o'])
    got = xcu.config_from_args(args, d)
    doc = file_doc({v['name']: v['value'], 'other': 'o'})
    want = xcu.config_from_parsed_yaml(doc, d)
    expect_same(get_item(got, v['name']), get_item(want, v['name']), 'item %s' % v['type'])
    expect_same(get_item(got, 'other'), 'o', 'other item')


# -- config items that belong to commands

@st.composite
def command_items_case(draw):
    items = draw(description())
    n = draw(st.integers(1, 3))
    cli = draw(cli_layer(items, 1))
    return dict(items=items, n=n, owner=[draw(st.integers(0, n - 1)) for _ in items], cli=cli,
                before=sorted(k for k in cli if draw(st.booleans())),
                file=draw(st.one_of(st.none(), layer(items))),
                call=draw(st.sampled_from(['entry0zz', 'entry1yy', 'entry2xx'][:n] * 2 + COMMANDS)),
                hidden=draw(st.sampled_from([None, None, None, 0, 1, 2])),
                print_config=draw(st.booleans()))


def command_items_examples():
    """Text and list items of each command, set in one place, for each called command."""
    for owner in (0, 1):
        for call in ('entry0zz', 'entry1yy', 'update', 'resolve'):
            for place in ('nowhere', 'before', 'after', 'file'):
                for name, t, val in (('foo', 'String', 'v'), ('grp/foo', ['List', 'String'], ['v'])):
                    cli = {name: (val, ['v'])} if place in ('before', 'after') else {}
                    yield dict(items=[(name, t, None, '--my-opt')], n=2, owner=[owner], cli=cli,
                               before=[name] if place == 'before' else [], call=call,
                               hidden=owner if t == 'String' else None,
                               file={name: val} if place == 'file' else None, print_config=False)


def check_command_items(v, rec):
    """Items added by a command can be set like any other with all commands."""
    import json
    from .plugins import Site
    items = [tuple(i) for i in v['items']]
    hidden = v.get('hidden')

    def make(n):
        def prepare_config(d):
            for (name, t, default, option), owner in zip(items, v['owner']):
                if owner == n:
                    d.add(name, type=build(t), default=default, command_line=bool(option),
                          command_line_argument=option, help='Help of ' + name)

        def main(args):
            print('RESULT' + json.dumps(dict((i[0], get_item(xconfig.get_config(), i[0]))
                                             for i in items)))
        return dict(title='_' * (n == hidden) + 'entry%d%s' % (n, 'zyx'[n % 3] * 2), description='D', main=main,
                    prepare_arguments=lambda p: None, prepare_config=prepare_config)
    plugin = v['call'].startswith('entry')
    if plugin and v['call'][5] == str(hidden):
        v['call'] = '_' + v['call']
    rec.event('hidden command' if hidden is not None and hidden < v['n'] else 'public commands')
    show = v['print_config'] or not plugin
    rec.event('called: ' + ('plugin' if plugin else 'builtin'))
    rec.event('printed' if show else 'used')
    rec.nontrivial(bool(v['cli']) or bool(v['file']))
    before, after = [], []
    for name, t, _, option in items:
        if name in v['cli']:
            (before if name in v['before'] else after).extend(
                option + '=' + s for s in v['cli'][name][1])
    rec.event('before' if before else 'not before')
    if show:
        after.append('--print-config')
    if v['call'] in ('resolve', 'lookup', 'install'):
        after.append('foo')
    want = effective(items, [cli_values(v['cli']), v['file'] or {}])
    with ctx.TempDir() as base, Site('xylem.commands', [make(n) for n in range(v['n'])],
                                     [0] * v['n'], [hidden]):
        if v['file'] is not None:
            ctx.write(os.path.join(base, 'config.yaml'),
                      yaml.safe_dump(file_doc(v['file']), allow_unicode=True))
        argv = ['--xylem-dir', base] + before + [v['call']] + after
        with Environ({}):
            status, out, err = ctx.forked(lambda: run_main(argv))
    expect_eq(status, 0, 'exit status of xylem %s (%s)' % (short(argv), short(err[-800:])))
    out = ctx_strip(out)
    if show:
        try:
            printed = yaml.safe_load(out)
        except yaml.YAMLError as e:
            fail('printed config is no YAML: %s\n%s', e, out)
        got = dict((i[0], get_item(printed, i[0])) for i in items)
    else:
        expect('RESULT' in out, 'command did not run: {}', out)
        got = json.loads(out[out.index('RESULT') + 6:].splitlines()[0])
    for name, t, _, _ in items:
        expect_same(got[name], get_item(want, name), 'item %s of type %s with xylem %s' % (
            name, t, short(argv)))


RULES['C06'] = 'at least one config option and one option in front of the command; distinct by all options and files'
SUBS['C06'] = [
    Sub('placement', place_case, check_place, quick=260, qshards=5, thorough=1500, talk=False,
        examples=place_examples()),
    Sub('declarations', declaration_case, check_declaration, quick=300,
        examples=declaration_examples()),
    Sub('items of commands', command_items_case, check_command_items, quick=160,
        examples=command_items_examples()),
]


# ----------------------------------------------------------------------- C08

ADDED = ['foo', 'foo-bar', 'foo_bar', 'bar', 'grp', 'grp/foo', 'grp/bar', 'grp-foo', 'grp_foo', 'foo/bar',
         'Foo', 'bar/foo', 'bar_foo', 'GRP/foo', 'a', 'a/a', 'my-x/c', 'my_x/d',
         'my-x', 'my_x', 'my', 'x', 'my/x-c', 'my_x-c', 'foo2', 'a2/a']
SETTINGS = [{}, {}, {'command_line': True}, {'command_line': True}, {'command_line_metavar': 'M'},
            {'command_line_argument': 'foo'}, {'command_line_argument': '--foo-bar'},
            {'command_line_argument': '--opt'}, {'command_line_argument': 'opt'},
            {'command_line_argument': 'opt', 'command_line': False},
            {'command_line_metavar': '', 'command_line': None},
            {'command_line_metavar': 'M', 'command_line': False},
            {'command_line_argument': 'opt-x', 'command_line_metavar': 'M'}]


@st.composite
def adding_case(draw):
    return [(draw(st.sampled_from(ADDED)), copy.deepcopy(draw(types)), dict(draw(st.sampled_from(SETTINGS))))
            for _ in range(draw(st.integers(1, 7)))]


def adding_examples():
    """All pairs of names and of settings."""
    for a in ADDED:
        for b in ADDED:
            for between in ([], [('quux', 'Any', {})]):
                yield [(a, 'String', {})] + between + [(b, 'Any', {'command_line': True})]
    for x in SETTINGS:
        for y in SETTINGS:
            yield [('foo', 'String', dict(x)), ('z/q', 'Boolean', {}), ('z/foo_bar', 'String', dict(y))]


def option_of(name, kw):
    """The option (without dashes) that a declaration has or None."""
    shown = kw.get('command_line')
    argument = kw.get('command_line_argument')
    if shown is None:
        shown = argument is not None or kw.get('command_line_metavar') is not None
    if not shown:
        return None
    if argument:
        return argument[2:] if argument.startswith('--') else argument
    return name.replace('_', '-').replace('/', '-')


def check_adding(v, rec):
    """Declarations that clash are rejected, others make up the configuration."""
    d = ConfigDescription('sub.yaml')
    other = ConfigDescription('other.yaml')
    names, opts = [], {}
    rejected = None
    for n, (name, t, kw) in enumerate(v):
        groups = set(x.split('/')[0] for x in names if '/' in x)
        option = option_of(name, kw)
        clash = None
        if name in names:
            clash = 'same name'
        elif name in groups:
            clash = 'name of a group'
        elif '/' in name and name.split('/')[0] in names:
            clash = 'group named like an item'
        elif option is not None and option in opts:
            clash = 'same option'
        try:
            d.add(name, type=build(t), **kw)
        except xcu.ConfigDescriptionError:
            expect(clash, 'declaration {} of {} is rejected', n, v)
            rejected = clash
            break
        expect(not clash, 'declaration {} of {} is accepted: {}', n, v, clash)
        names.append(name)
        if option is not None:
            opts[option] = name
    rec.event(rejected or 'accepted')
    rec.nontrivial(bool(rejected) or len(v) > 1)
    # no other description is affected
    expect_eq((other.itemlist, other.items, other.groups, other.command_line_arguments),
              ([], {}, {}, {}), 'another description after %s' % v)
    if rejected:
        # what was to be added is free in another description
        other.add(v[len(names)][0], type=build('Any'), **v[len(names)][2])
        return
    expect_eq([i.name for i in d.itemlist], names, 'order of the items')
    expect_eq(sorted(d.items), sorted(names), 'items')
    grouped = {}
    for name in names:
        if '/' in name:
            grouped.setdefault(name.split('/')[0], []).append(name.split('/')[1])
    expect_eq(dict((g, sorted(x)) for g, x in d.groups.items()),
              dict((g, sorted(x)) for g, x in grouped.items()), 'groups')
    expect_eq(dict((o, i.name) for o, i in d.command_line_arguments.items()), opts, 'options')
    for i in d.itemlist:
        expect(d.items[i.name] is i, 'item {} is not the one declared', i.name)
    # the configuration has these entries and each option sets its own
    items = [(name, t, None, option_of(name, kw)) for name, t, kw in v]
    want = effective(items, [])
    expect_same(xcu.config_from_defaults(d), want, 'defaults')
    expect_same(xcu.config_from_parsed_yaml({}, d, use_defaults=True), want, 'empty configuration')
    dests = [o.replace('-', '_') for o in opts]
    if len(set(dests)) != len(dests):
        return
    parser = argparse.ArgumentParser(add_help=False)
    d.add_arguments(parser)
    for option, name in opts.items():
        t = [i[1] for i in items if i[0] == name][0]
        val = VALUE_OF[t if isinstance(t, str) else t[0]]
        if not isinstance(t, str) and t[1] != 'String':
            val = ('[]', []) if t[0] == 'List' else ('{}', {})
        args = parser.parse_args(['--%s=%s' % (option, val[0])])
        want = effective(items, [])
        set_item(want, name, val[1])
        got = xcu.merge_configs(d, xcu.config_from_args(args, d), xcu.config_from_defaults(d))
        expect_same(got, want, 'configuration with --%s=%s of %s' % (option, val[0], v))


VALUE_OF = {'String': ('v', 'v'), 'Path': ('/v', '/v'), 'Boolean': ('true', True), 'Any': ('v', 'v'),
            'List': ('v', ['v']), 'Dict': ('k: v', {'k': 'v'}), 'MergingDict': ('k: v', {'k': 'v'})}

RULES['C08'] = 'several declarations or a rejected one; distinct by the sequence of declarations'
SUBS['C08'] = [
    Sub('adding', adding_case, check_adding, quick=1500, examples=adding_examples()),
]
