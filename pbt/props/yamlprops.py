"""C07: YAML dumping and loading."""
import copy

import yaml
from hypothesis import assume, strategies as st

from .. import ctx, env
from ..core import HarnessError, Sub, expect, expect_eq, fail, quiet, short
from .config import fragments, words
from .rules import expect_same

from xylem.config_utils import ConfigDict, ceorce_config_dict, copy_to_dict
from xylem.yaml_utils import dump_yaml, load_yaml

SUBS, RULES, LEVEL = {}, {}, {}

text = st.one_of(
    words, words,
    st.text(max_size=8),
    st.text('ab \n\x85\u2028\u2029:-\r\t\'\"', min_size=1, max_size=5),
    st.text(' \n\t:-#"\'a\\,[]{}&*!|>%@`?=\r\x00\x07\x7f\xa0\ufeffé\U0001F600', max_size=8),
    st.integers(-10 ** 6, 10 ** 6).map(str), st.floats(allow_nan=False).map(str),
    st.dates().map(str), st.datetimes().map(str), st.sampled_from(
        ['yes', 'No', 'on', 'OFF', 'y', 'n', '0b1', '0o7', '07', '1:30', '1_0', '.5', '5.', '+1', '-.inf',
         '.NaN', 'nan', '1e5', '1.0e+5', '0x', '2001-01-01', 'NULL', 'a ' * 60, 'x' * 300,
         'word ' * 40 + '\n' + 'word ' * 40]))
scalars = st.one_of(text, text, st.integers(), st.booleans(), st.none(),
                    st.floats(allow_nan=False), st.integers(-5, 5))
trees = st.recursive(scalars, lambda c: st.one_of(
    st.lists(c, max_size=4), st.dictionaries(text, c, max_size=4)), max_leaves=12)


def intern_tree(x, seen):
    """Equal containers become one object."""
    if isinstance(x, dict):
        for k in x:
            x[k] = intern_tree(x[k], seen)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            x[i] = intern_tree(v, seen)
    else:
        return x
    return seen.setdefault(repr(x), x)


def depth(x):
    if isinstance(x, dict):
        return 1 + max([depth(v) for v in x.values()] or [0])
    if isinstance(x, list):
        return 1 + max([depth(v) for v in x] or [0])
    return 0


@st.composite
def tree_case(draw):
    t = draw(trees.filter(lambda v: v is not None))
    if draw(st.integers(0, 2)) == 0:
        t = draw(st.sampled_from([lambda x: [x, x], lambda x: {'a': x, 'b': [x]},
                                  lambda x: {'a': {'c': x}, 'b': {'c': x}}]))(t)
    return dict(tree=copy.deepcopy(t), kind=draw(st.sampled_from(['dict', 'config', 'shared'])))


def check_round_trip(v, rec):
    tree = v['tree']
    want = copy.deepcopy(tree)
    rec.event(v['kind'])
    rec.event('depth %d' % min(depth(tree), 4))
    rec.nontrivial(depth(tree) >= 1)
    if v['kind'] == 'config':
        obj = to_config(tree)
    elif v['kind'] == 'shared':
        obj = intern_tree(tree, {})
    else:
        obj = tree
    dumped = dump_yaml(obj)
    expect(isinstance(dumped, str), 'dump_yaml returned {}', type(dumped))
    expect_same(obj, want, 'data after dumping')
    got = load_yaml(dumped)
    expect_same(got, want, 'data dumped as %s' % short(dumped))
    try:
        ref = yaml.safe_load(dumped)
    except Exception as e:
        fail('dump is not plain YAML: %s' % e)
    expect_same(ref, want, 'data dumped as %s and read by PyYAML' % short(dumped))
    spoil(got)
    expect_same(load_yaml(dumped), want, 'data loaded later')
    got = load_yaml(dumped)
    # dumping the loaded data gives the same text again
    expect_eq(dump_yaml(got), dump_yaml(copy.deepcopy(got)), 'dump of equal data')


def to_config(x):
    if isinstance(x, dict):
        return ConfigDict((k, to_config(v)) for k, v in x.items())
    if isinstance(x, list):
        return [to_config(v) for v in x]
    return x


def spoil(x, seen=None):
    """Modify every container within x."""
    seen = {} if seen is None else seen
    if isinstance(x, (dict, list, set)) and id(x) not in seen:
        seen[id(x)] = x
        if isinstance(x, dict):
            for y in list(x.values()):
                spoil(y, seen)
            x['spoiled'] = 1
        elif isinstance(x, list):
            for y in x:
                spoil(y, seen)
            x.append('spoiled')
        else:
            x.add('spoiled')
    return bool(seen)


def check_load(v, rec):
    rec.nontrivial(len(v) > 1)
    try:
        want = yaml.safe_load(v)
        ok = True
    except yaml.YAMLError:
        rec.event('YAML error')
        ok = False
    except Exception:
        rec.event('other error of PyYAML')
        ok = False
    try:
        got = load_yaml(v)
    except yaml.YAMLError as e:
        if ok:
            fail('YAML error for %s: %s' % (short(v), e))
        str(e)
        return
    except Exception as e:
        fail('%s raised by load_yaml: %s' % (type(e).__name__, e))
    if ok:
        rec.event('data')
        expect(repr(got) == repr(want), 'loaded {}, expected {}', got, want)
        # what is done with the data does not matter for others
        if spoil(got):
            expect(repr(load_yaml(v)) == repr(want), 'loaded {} later, expected {}', load_yaml(v), want)
    else:
        fail('load_yaml returns %s for invalid YAML' % short(repr(got)))


tags = st.sampled_from(['!!int', '!!float', '!!bool', '!!null', '!!timestamp', '!!binary', '!!set', '!!omap',
                        '!!pairs', '!!map', '!!seq', '!!str', '!x', '!!python/object:os.system',
                        '!<tag:yaml.org,2002:int>', '!', '!!merge', '!!value'])
loaded_text = st.one_of(
    st.text(max_size=12), fragments, fragments,
    st.lists(st.one_of(fragments, st.sampled_from(['\n', '\n  ', '\n- ', '--- ', '\n...\n', '%YAML 1.1\n'])),
             max_size=6).map(''.join),
    st.tuples(tags, st.one_of(text, fragments)).map(lambda t: '%s %s' % t),
    st.tuples(st.sampled_from(['a: ', '- ', '? ', '[', '{a: ', '<<: ']), tags,
              st.one_of(text, fragments)).map(lambda t: '%s%s %s' % t),
    trees.map(lambda t: yaml.safe_dump(t)).flatmap(
        lambda s: st.tuples(st.integers(0, max(0, len(s) - 1)), st.sampled_from(
            ['', ':', '-', '\n', ' ', '"', '[', '}', '&', '*', '\t'])).map(
                lambda p: s[:p[0]] + p[1] + s[p[0] + 1:])),
    st.integers(1, 150).map(lambda n: "[" * n),
    st.integers(1, 60).map(lambda n: "{a: " * n),
    st.dates().map(lambda d: str(d).replace('-0', '-4')),
)

RULES['C07'] = 'the tree has at least one container / the text more than one character; distinct by tree and kind'
SUBS['C07'] = [
    Sub('round-trip', tree_case, check_round_trip, quick=900, qshards=3),
    Sub('load', loaded_text, check_load, quick=900, qshards=3, examples=[
        '2014-13-45', '!!int x', '!!float x', '&a [*a]', '{[a]: 1}', '[' * 700, '!!binary é', '<<: 1',
        'a: &x {<<: *x}', '!!bool x', '!!timestamp x', '0b', '1:', '!!omap a', '{{}: 1}', '', '\x00']),
]
