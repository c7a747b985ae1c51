"""R01-R07: rules files and rules dicts."""
import collections
import copy
import json
import os
import re

import yaml
from hypothesis import strategies as st

from .. import ctx, gen, ref
from ..core import Sub, expect, expect_eq, fail, is_known, quiet, short

from xylem.exception import XylemError
from xylem.sources import RulesDatabase
from xylem.sources import rules_dict as rd
from xylem.specs.plugins import rules as rs
from xylem.specs.plugins.rules import RulesSpec

SUBS, RULES, LEVEL = {}, {}, {}


def rules_same(a, b):
    """Equal as YAML data: types of scalars matter."""
    return repr_sorted(a) == repr_sorted(b)


def repr_sorted(x):
    if isinstance(x, dict):
        return 'd{%s}' % ','.join(sorted('%r:%s' % (k, repr_sorted(v)) for k, v in x.items()))
    if isinstance(x, list):
        return 'l[%s]' % ','.join(repr_sorted(v) for v in x)
    return repr(x)


def expect_same(got, want, what):
    if repr_sorted(got) != repr_sorted(want):
        fail('%s: got %s, expected %s' % (what, short(got), short(want)))


def share(doc):
    """Same document, equal dicts and lists of one level being one object."""
    seen = {}

    def one(level, x):
        return seen.setdefault((level, repr(x)), x)
    for osd in doc.values():
        if not isinstance(osd, dict):
            continue
        for os_name, vd in list(osd.items()):
            if os_name == 'any_os':
                continue
            osd[os_name] = one('os', vd)
            if isinstance(osd[os_name], dict):
                for v, i in list(osd[os_name].items()):
                    osd[os_name][v] = one('version', i)
    return doc


def yaml_text(doc, style):
    return yaml.safe_dump(doc, default_flow_style=style, allow_unicode=True)


def load_text(text):
    """Load a rules file like an update does."""
    with ctx.TempDir() as d:
        path = os.path.join(d, 'rules.yaml')
        ctx.write(path, text)
        url = 'file://' + path
        spec = RulesSpec()
        data = spec.load_data(url)
        spec.verify_data(data, url)
        return data


# ------------------------------------------------------------------------ R01

def is_shorthand(doc):
    return not rules_same(ref.expand(doc), doc)


def check_expand(doc, rec):
    want = ref.expand(copy.deepcopy(doc))
    rec.nontrivial(is_shorthand(doc))
    for osd in doc.values():
        for o, v in osd.items():
            rec.event('any_os' if o == 'any_os' else 'os value %s' % type(v).__name__)
    got = rs.expand_rules(copy.deepcopy(doc))
    expect_same(got, want, 'expanded')
    again = rs.expand_rules(copy.deepcopy(got))
    expect_same(again, want, 'expanded twice')
    rd.verify_rules_dict(got)


def check_load(v, rec):
    doc, style, shared, wrap = v
    want = ref.expand(copy.deepcopy(doc))
    if not doc and wrap:
        text = ['', '---\n', '# nothing\n', 'null\n'][wrap % 4]
        rec.event('empty document')
    else:
        text = yaml_text(share(doc) if shared else doc, style)
    rec.nontrivial(is_shorthand(doc))
    if '&id' in text:
        rec.event('shared nodes')
    got = load_text(text)
    expect_same(got, want, 'loaded')


BAD = {
    # values that are not allowed at the level
    'doc': ['text', [], ['a'], 3, True],
    'os': [None, 'text', [], ['a'], 3, False, 0],
    'versions': [3, True, False, 0, 2.5],
    'installers': [3, True, False, 0, 2.5],
    'rule': [3, True, False, 0, 2.5],
    'packages': [3, {}, {'a': 'b'}, True, False, 0],
    'depends': [3, {}, {'a': 'b'}, True, False, 0, [3], [['foo']], [None]],
}


@st.composite
def bad_doc(draw):
    """Document with one value of a type that is not allowed at its level."""
    level = draw(st.sampled_from(sorted(BAD) + ['any_os']))
    doc = draw(gen.raw_rules())
    if level == 'doc':
        return draw(st.sampled_from(BAD['doc'])), level, None
    key = draw(gen.key)
    if level == 'os':
        doc[key] = draw(st.sampled_from(BAD['os']))
        return doc, level, key
    osd = doc.setdefault(key, {})
    os_name = draw(st.sampled_from(gen.OSES))
    if level == 'any_os':
        kind = draw(st.integers(0, 2))
        if kind == 0:       # any_version next to something else
            osd['any_os'] = {'any_version': draw(gen.raw_installer_dict(gen.INSTALLERS, False)),
                             draw(st.sampled_from(['precise', 'pip'])): draw(
                                 gen.raw_installer_dict(gen.INSTALLERS, False))}
        elif kind == 1:     # shorthand without installer
            osd['any_os'] = draw(gen.raw_list)
        else:               # any_os with the default installer
            osd['any_os'] = {'any_version': draw(st.one_of(
                gen.raw_list, st.fixed_dictionaries({'default_installer': gen.raw_rule()})))}
        return doc, level, key
    bad = draw(st.sampled_from(BAD[level]))
    if draw(st.integers(0, 3)) == 0 and level not in ('versions',):
        os_name = 'any_os'
        versions = ['any_version']
    else:
        versions = ['any_version'] + gen.VERSIONS[os_name]
    if level == 'versions':
        osd[os_name] = bad
        return doc, level, key
    vdict = osd.get(os_name)
    if not isinstance(vdict, dict) or os_name == 'any_os':
        vdict = {}
    osd[os_name] = vdict
    v = draw(st.sampled_from(versions))
    if level == 'installers':
        vdict[v] = bad
        return doc, level, key
    idict = vdict.get(v)
    if not isinstance(idict, dict):
        idict = {}
    vdict[v] = idict
    inst = draw(st.sampled_from(gen.INSTALLERS))
    if level == 'rule':
        idict[inst] = bad
        return doc, level, key
    rule = idict.get(inst)
    if not isinstance(rule, dict):
        rule = {'packages': draw(gen.packages)} if draw(st.booleans()) else {}
    rule[level] = bad
    idict[inst] = rule
    return doc, level, key


def is_spec_parsing_error_crash(e):
    """Known finding: SpecParsingError cannot be instantiated (TypeError)."""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    code = tb.tb_frame.f_code
    return (isinstance(e, TypeError) and code.co_name == '__init__' and
            code.co_filename.endswith('xylem/specs/plugins/rules.py') and
            isinstance(tb.tb_frame.f_locals.get('self'), rs.SpecParsingError))


def check_reject(v, rec):
    doc, level, key = v
    rec.event('bad %s' % level)
    rec.nontrivial(True)
    text = yaml_text(doc, False)
    try:
        got = load_text(text)
    except (ValueError, XylemError) as e:
        if key is not None:
            expect(key in str(e), 'the error does not name the key {0}: {1}', key, str(e))
        expect(str(e).strip() != '', 'empty error message')
        return
    except TypeError as e:
        if is_known('R01', 'spec-parsing-error') and is_spec_parsing_error_crash(e):
            rec.event('known finding')
            return
        raise
    fail('invalid %s accepted for key %s, result %s' % (level, key, repr(got).replace(
        '{', '{{').replace('}', '}}')))


def level_nodes(doc):
    """(level, parent, key, node) of the values of a raw rules document, outside in. The
    shorthand of any_os without any_version is an installer dict."""
    for k, osd in doc.items():
        yield 'os', doc, k, osd
        for o, vd in (osd.items() if isinstance(osd, dict) else ()):
            if o == 'any_os' and isinstance(vd, dict) and 'any_version' not in vd:
                vds = [(osd, o, vd)]
            else:
                yield 'versions', osd, o, vd
                vds = [(vd, v, i) for v, i in vd.items()] if isinstance(vd, dict) else []
            for parent, v, i in vds:
                yield 'installers', parent, v, i
                for name, rule in (i.items() if isinstance(i, dict) else ()):
                    yield 'rule', i, name, rule
                    for f, val in (rule.items() if isinstance(rule, dict) else ()):
                        yield 'value', rule, f, val


def valid_doc(doc):
    if not all(isinstance(osd, dict) for osd in doc.values()):
        return False
    for osd in doc.values():       # nothing but any_version under any_os
        vd = osd.get('any_os')
        if isinstance(vd, dict) and 'any_version' in vd and len(vd) > 1:
            return False
    try:
        rules = ref.expand(copy.deepcopy(doc))
    except (AttributeError, TypeError):
        return False
    return ref.rules_ok(rules, True) and not any(
        'default_installer' in i and gen.BUILTIN_DEFAULTS.get(o) in i
        for osd in rules.values() for o, vd in osd.items() for i in vd.values())


@st.composite
def alias_case(draw):
    """Rules document with nodes to be repeated by aliases, and keys to be merged (<<)."""
    doc = draw(gen.raw_rules(defaults=gen.BUILTIN_DEFAULTS, pairs=False).filter(bool))
    if draw(st.booleans()):
        doc.setdefault(draw(gen.key), draw(gen.raw_os_dict(gen.BUILTIN_DEFAULTS, False)))
    for _ in range(draw(st.integers(0, 3))):
        nodes = list(level_nodes(doc))
        level, _, _, node = nodes[draw(st.integers(0, len(nodes) - 1))]
        targets = [n for n in nodes if n[0] == level]
        if draw(st.integers(0, 7)) == 7:      # another level
            targets = [n for n in nodes if {n[0], level} in (
                {'versions', 'installers'}, {'installers', 'rule'}, {'os', 'versions'})] or targets
        _, parent, k, _ = targets[draw(st.integers(0, len(targets) - 1))]
        if level == 'os' and draw(st.booleans()):
            k = draw(st.sampled_from(['new', 'foo2']))
        elif level == 'versions' and draw(st.booleans()):
            k = draw(st.sampled_from(gen.OSES))
        old = parent.get(k, parent)
        parent[k] = copy.deepcopy(node)
        if not valid_doc(doc):
            parent[k] = old
            if old is parent:
                del parent[k]
    return doc, draw(st.sampled_from(['all', 'all', 'lists', 'none'])), \
        draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=2)), \
        draw(st.integers(0, 7))


def alias_text(doc, mode, merges, seed):
    """Text of the document with equal nodes as aliases and merged keys, and its meaning."""
    doc = copy.deepcopy(doc)
    keys = list(doc)
    merged = {}
    for i, j in merges:
        a, b = sorted((i % len(keys), j % len(keys)))
        if a != b and keys[a] not in merged and keys[b] not in merged and \
                keys[b] not in merged.values():
            merged[keys[b]] = keys[a]
    anchors = {}

    def scalar(x):
        return json.dumps(x, ensure_ascii=False)

    def emit(x, depth, source=None, merge=None):
        if not isinstance(x, (dict, list)):
            return scalar(x)
        anchor = ''
        if source is not None:
            anchor = '&%s ' % source
        elif merge is None and (mode == 'all' or mode == 'lists' and isinstance(x, list)):
            ident = (depth if seed % 4 else 0, repr(x))
            if ident in anchors:
                return '*%s' % anchors[ident]
            anchors[ident] = 'n%d' % len(anchors)
            anchor = '&%s ' % anchors[ident]
        if isinstance(x, list):
            return '%s[%s]' % (anchor, ', '.join(emit(y, depth + 1) for y in x))
        return '%s{%s}' % (anchor, ', '.join(
            ([] if merge is None else ['<<: *%s' % merge]) +
            ['%s: %s' % (scalar(k), emit(y, depth + 1)) for k, y in x.items()]))

    text, want = '', {}
    for n, k in enumerate(keys):
        if k in merged:
            want[k] = dict(want[merged[k]], **doc[k])
            body = emit(doc[k], 0, None, 'm%d' % keys.index(merged[k]))
        else:
            want[k] = doc[k]
            body = emit(doc[k], 0, 'm%d' % n if k in merged.values() else None)
        text += '%s: %s\n' % (scalar(k), body)
    for name in set(re.findall(r'&(\w+) ', text)):     # drop the unused anchors
        if not re.search(r'\*%s\b' % name, text):
            text = text.replace('&%s ' % name, '')
    return text, want


def shared_dicts(doc):
    """Levels at which dicts occur that occur more than once: list of sorted lists of levels."""
    seen = {}

    def below(x):
        for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()):
            if isinstance(y, dict):
                seen.setdefault(id(y), []).append('value')
            below(y)
    for level, parent, k, node in level_nodes(doc):
        if isinstance(node, dict):
            seen.setdefault(id(node), []).append(level)
        if level == 'value':
            below(node)
    return [sorted(v) for v in seen.values() if len(v) > 1]


def check_alias_load(v, rec):
    text, doc = alias_text(*v)
    loaded = yaml.safe_load(text)
    if not rules_same(loaded, doc):
        fail('harness: text %s does not mean %s' % (text, short(doc)))
    want = ref.expand(copy.deepcopy(doc))
    shared = shared_dicts(loaded)
    mixed = any(len(set(levels)) > 1 for levels in shared)
    rec.nontrivial('*n' in text)
    rec.event('dict at several levels' if mixed else 'shared %s' % (
        '+'.join(sorted(set(levels[0] for levels in shared))) or
        ('list' if '*n' in text else 'nothing')))
    if mixed and is_known('R01', 'aliased-mapping'):
        try:
            got = load_text(text)
        except (ValueError, XylemError, TypeError):
            got = None
        if not rules_same(got, want):
            rec.event('known finding')
        return
    expect_same(load_text(text), want, 'loaded')


SUBS['R01'] = [
    Sub('aliases', alias_case(), check_alias_load, quick=900, qshards=2),
    Sub('expand', gen.raw_rules(), check_expand, quick=1500, qshards=3),
    Sub('load', st.tuples(gen.raw_rules(), st.sampled_from([None, True, False]),
                          st.booleans(), st.integers(0, 4)), check_load, quick=700),
    Sub('reject', bad_doc(), check_reject, quick=900, qshards=2),
]
RULES['R01'] = ('rules documents drawn from the grammar of allowed shorthands at each level '
                '(reject: with one value of a disallowed type); non-trivial if expansion has '
                'to change the document (reject: always)')


# ------------------------------------------------------------------------ R02

IDENTS = ['foo', 'a.b', 'x+y', 'a-b', '_', '’', 'é', '²', 'mountain lion', 'any_os',
          'any_version', 'default_installer', 'unset_installers', 'any_key', '', ' ', 'a b',
          'a\n', '\n', 'a/b', 'foo\t', 'mountain  lion', 'mountain lion ', 'any_os ', 'a:b',
          'Any_OS', 'a@b', 'a\u0301', 'lion', '日本', 'a,b', '~', '*', 'any_version\n', 'Mountain Lion', 'MOUNTAIN LION',
          'Mountain lion', 'snow leopard', 'the mountain lion', 'mountain lions', 'mountain\tlion', 'mountain\nlion',
          'mountain lion\n', 'default_Installer', 'ANY_KEY', 'any-os', 'any_os1', 'xany_os', 'anyos', 'any.version']
ident = st.one_of(st.sampled_from(IDENTS),
                  st.text(alphabet='aZ9_.’+- \n\té²/:', max_size=4))
bad_values = st.one_of(
    st.none(), st.booleans(), st.integers(0, 2), st.just('text'), st.just([]), st.just({}),
    st.just(['a']), st.just({'a': 'b'}), st.just(()), st.just(b'bytes'), st.just([[]]),
    st.just({'packages': []}), st.just({'apt': {'packages': ['p']}})).map(copy.deepcopy)
KEYS = [None, 1, True, (), b'x', 2.5, -1]
bad_keys = st.one_of(ident, ident, ident, st.sampled_from(KEYS))


def containers(x, path=()):
    """Paths of all nodes."""
    yield path
    if isinstance(x, dict):
        for k, v in x.items():
            for p in containers(v, path + (k,)):
                yield p
    elif isinstance(x, list):
        for n, v in enumerate(x):
            for p in containers(v, path + (n,)):
                yield p


def at(x, path):
    for p in path:
        x = x[p]
    return x


@st.composite
def maybe_invalid(draw):
    rules = draw(st.dictionaries(gen.key, gen.exp_os_dict(empties=True),
                                 min_size=draw(st.sampled_from([1, 1, 1, 0])), max_size=2))
    # start at one of the levels
    level = draw(st.sampled_from(['rule', 'rules', 'installers', 'rule', 'version', 'os', 'rules']))
    x = rules
    for l in ['rules', 'os', 'version', 'installers', 'rule']:
        if l == level:
            break
        if not x:
            level = l
            break
        x = x[draw(st.sampled_from(sorted(x)))]
    for _ in range(draw(st.sampled_from([1, 1, 0, 1, 2, 2]))):
        p = draw(st.sampled_from(sorted(containers(x), key=repr)))
        node = at(x, p)
        kind = draw(st.integers(0, 4))
        if kind <= 2 and isinstance(node, dict):
            k = draw(bad_keys)
            if kind == 0 and node:      # rename a key, keeping the value
                old = draw(st.sampled_from(sorted(node, key=repr)))
                v = node.pop(old)
            elif node and kind == 1:    # another entry with a plausible value
                v = copy.deepcopy(node[draw(st.sampled_from(sorted(node, key=repr)))])
            else:
                v = draw(bad_values)
            node[k] = v
        elif kind == 3 and isinstance(node, dict) and len(p) >= 1:
            node['depends'] = draw(st.one_of(
                bad_values, st.lists(ident, max_size=2), st.lists(bad_keys, max_size=2)))
        elif isinstance(node, list) and kind < 3:
            node.append(draw(bad_keys))
        else:
            v = draw(bad_values)
            if not p:
                x = v
            else:
                at(x, p[:-1])[p[-1]] = v
    return level, x, draw(st.sampled_from([None, True, False])), draw(st.integers(0, 4)) == 4


VERIFY = {
    'rules': (rd.verify_rules_dict, ref.rules_ok),
    'os': (rd.verify_os_dict, ref.os_ok),
    'version': (rd.verify_version_dict, ref.versions_ok),
    'installers': (rd.verify_installer_dict, ref.installers_ok),
}


class OtherDict(dict):
    pass


def other_types(x):
    """The same with dicts and lists of subclasses."""
    if isinstance(x, dict):
        cls = OtherDict if len(x) % 2 else collections.OrderedDict
        return cls((k, other_types(y)) for k, y in x.items())
    if isinstance(x, list):
        return OtherList(other_types(y) for y in x)
    return x


class OtherList(list):
    pass


def check_verify(v, rec):
    level, x, default, other = v
    if other:
        x = other_types(x)
        rec.event('dicts of other types')
    before = copy.deepcopy(x)
    if level == 'rule':
        want = ref.rule_ok(x)
        calls = [lambda: rd.verify_installer_rule(x)]
    else:
        fn, ok = VERIFY[level]
        want = ok(x, default is not False)
        if default is None:
            calls = [lambda: fn(x)]
        else:
            calls = [lambda: fn(x, allow_default_installer=default), lambda: fn(x, default)]
        if level == 'rules' and default is not False:
            calls.append(lambda: RulesSpec().verify_data(x, 'url'))
    rec.event('%s %s' % (level, 'valid' if want else 'invalid'))
    rec.nontrivial(x not in ({}, None))
    for call in calls:
        try:
            call()
            got = True
        except ValueError as e:
            got = False
            expect(str(e), 'no message')
        expect_eq(got, want, 'accepted')
        expect_same(x, before, 'data after verification')


IDENT_FNS = [
    ('verify_xylem_key', ()), ('verify_os_name', ('any_os',)),
    ('verify_os_version', ('any_version',)), ('verify_installer_name', ('default_installer',))]


def check_ident(v, rec):
    x, n = v
    name, allowed = IDENT_FNS[n]
    want = ref.ident_ok(x, allowed)
    rec.event('%s %s' % (name, want))
    rec.nontrivial(x not in ('', None))
    try:
        getattr(rd, name)(x)
        got = True
    except ValueError:
        got = False
    expect_eq(got, want, '%s(%r) accepted' % (name, x))
    # the identifier where it is used
    rule = {'packages': ['p'], 'depends': ['foo', x]}
    uses = [('depends', lambda: rd.verify_installer_rule(rule), ref.rule_ok(rule))]
    try:
        hash(x)
    except TypeError:
        pass
    else:
        good = {'packages': []}
        for fn, ok, doc in (
                (rd.verify_rules_dict, ref.rules_ok, {x: {'ubuntu': {'any_version': {'apt': good}}}}),
                (rd.verify_os_dict, ref.os_ok, {'any_os': {'any_version': {}}, x: {'any_version': {}}}),
                (rd.verify_version_dict, ref.versions_ok, {'any_version': {}, x: {}}),
                (rd.verify_installer_dict, ref.installers_ok, {'apt': good, x: good})):
            for default in (True, False):
                uses.append(('%s %s' % (fn.__name__, default),
                             lambda fn=fn, doc=doc, default=default: fn(doc, default),
                             ok(doc, default)))
    for what, fn, want in uses:
        try:
            fn()
            got = True
        except ValueError:
            got = False
        expect_eq(got, want, '%s: %r accepted' % (what, x))


SUBS['R02'] = [
    Sub('verify', maybe_invalid(), check_verify, quick=2400, qshards=4),
    Sub('identifiers', st.tuples(st.one_of(ident, bad_keys, st.text(max_size=3)),
                                 st.integers(0, 3)), check_ident, quick=2000,
        examples=[(x, n) for x in IDENTS + KEYS for n in range(4)], qshards=2),
]
RULES['R02'] = ('expanded rules dicts or parts of them with 0-2 random corruptions (keys renamed, '
                'entries added, values replaced) and identifiers; non-trivial if not empty')


# ------------------------------------------------------------------------ R03

def queries(rules_list):
    """All (key, os, version) whose answers can differ, and some others."""
    keys, oses = {'unknown'}, {}
    for rules in rules_list:
        for k, osd in rules.items():
            keys.add(k)
            for o, vd in osd.items():
                vs = oses.setdefault(o if o != 'any_os' else 'beos', set())
                if isinstance(vd, dict):
                    vs.update(vd)
    res = []
    for k in sorted(keys):
        for o in set(list(oses) + ['beos', 'ubuntu']):
            for v in sorted(oses.get(o, ())) + ['precise', 'unmentioned']:
                if v != 'any_version':
                    res.append((k, o, v))
    return sorted(set(res))


def resembling(name):
    """Other names that resemble this one."""
    return sorted(set(w for w in (name + '.1', name[:-1], name.upper(), name + '-x', name.replace('-', '_'),
                                  name.replace('_', '-'), name.replace('.', ''), name.split('.')[0],
                                  name.rstrip('0123456789'), '0' + name) if w and w != name))


def drop_clash(rules, default):
    for osd in rules.values():
        for vd in osd.values():
            for idict in vd.values():
                if 'default_installer' in idict:
                    idict.pop(default, None)
    return rules


@st.composite
def lookup_case(draw):
    oses = draw(st.sampled_from([['ubuntu'], gen.OSES]))
    # the version may be unknown (None), which no name of a version means
    none = draw(st.integers(0, 3)) == 3
    rules = draw(gen.exp_rules(min_size=1, max_size=2, oses=oses, empties=draw(st.booleans()),
                               versions=dict((o, ['None', 'null', '0'] if none else gen.VERSIONS[o][:2])
                                             for o in oses)))
    default = draw(st.sampled_from(gen.INSTALLERS + ['dflt']))
    return drop_clash(rules, default), default


def levels_hit(rules, k, o, v):
    osd = rules.get(k, {})
    return sum([bool(osd.get('any_os', {}).get('any_version')),
                bool(osd.get(o, {}).get('any_version')), bool(osd.get(o, {}).get(v))])


def check_lookup(v, rec):
    rules, default = v
    before = copy.deepcopy(rules)
    names = queries([rules])
    # names that resemble ones with rules
    others = [(k, o, w) for k, osd in rules.items() for o, vd in osd.items() for x in vd for w in resembling(x)]
    others += [(k, w, x) for k, osd in rules.items() for o, vd in osd.items() for w in resembling(o) for x in vd]
    others += [(w, o, x) for k, osd in rules.items() for w in resembling(k) for o, vd in osd.items() for x in vd]
    others = [q for q in others if 'any_os' not in q and 'any_version' not in q]
    for k, o, ver in names + others + [(k, o, None) for k, o in sorted(set((k, o) for k, o, _ in names))]:
        want = ref.lookup(before, k, o, ver, default)
        got = rd.lookup_rules(rules, k, o, ver, default)
        expect_same(got, want, 'lookup of %s for %s:%s' % (k, o, ver))
        n = levels_hit(before, k, o, ver)
        rec.event('levels %d' % n)
        rec.nontrivial(n >= 2)
        rec.count('lookups')
    expect_same(rules, before, 'rules after lookup')


@st.composite
def source_case(draw, n=3, empties=False, foreign=False):
    os_tuple = draw(st.sampled_from(ctx.OS_TUPLES))
    # few names, such that levels and layers interact
    oses = [os_tuple[0], draw(st.sampled_from(['ubuntu', 'debian', 'osx']))]
    versions = dict((o, [os_tuple[1], draw(st.sampled_from(gen.VERSIONS['ubuntu']))])
                    for o in oses)
    if empties:
        # one of four cases has empty dicts
        empties = draw(st.integers(0, 3)) == 3
    layers = draw(st.lists(
        gen.exp_rules(min_size=1, max_size=3 if empties else 2, oses=oses, versions=versions,
                      keys=['foo', 'libc++', 'a.b_c'], empties=empties,
                      defaults=gen.BUILTIN_DEFAULTS), min_size=1, max_size=n))
    if foreign:
        # rules for other systems only
        others = [o for o in ('ubuntu', 'debian', 'osx', 'fedora') if o != os_tuple[0]]
        for layer in layers:
            for k in draw(st.lists(st.sampled_from(['bar', 'baz']), max_size=2, unique=True)):
                layer[k] = draw(gen.exp_os_dict(oses=others, any_os=False, defaults=gen.BUILTIN_DEFAULTS,
                                                versions=dict((o, [os_tuple[1], '1']) for o in others)))
    return layers, os_tuple


def database(base, layers, table=None):
    """RulesDatabase with one source per rules dict, spread over two files."""
    table = {} if table is None else table
    table.update(('l%d' % n, r) for n, r in enumerate(layers))
    entries = [('data', 'l%d' % n) for n in range(len(layers))]
    half = len(entries) // 2
    files = {'10-a.yaml': entries[:half], '20-b.yaml': entries[half:]}
    sc = ctx.sources_context(base, [ctx.DataSpec(table)], files)
    db = RulesDatabase(sc)
    db.load_from_source()
    return db


def check_source_lookup(v, rec):
    (rules,), os_tuple = v
    ic = ctx.installer_context(os_tuple)
    default = gen.BUILTIN_DEFAULTS[os_tuple[0]]
    spec = RulesSpec()
    before = copy.deepcopy(rules)
    with ctx.TempDir() as d:
        src = database(d, [rules]).sources[0]
        for k in gen.KEYS + ['unknown']:
            want = ref.lookup(before, k, os_tuple[0], os_tuple[1], default)
            rec.nontrivial(levels_hit(before, k, *os_tuple) >= 2)
            rec.event('found' if want else 'none')
            expect_same(spec.lookup(rules, k, ic), want, 'Spec.lookup of %s' % k)
            expect_same(src.lookup(k, ic), want, 'RulesSource.lookup of %s' % k)
    expect_same(rules, before, 'rules after lookup')


SUBS['R03'] = [
    Sub('lookup', lookup_case(), check_lookup, quick=500),
    Sub('source', source_case(1), check_source_lookup, quick=200),
]
RULES['R03'] = ('rules dicts x all keys, OSs and versions of a small universe x default '
                'installers; non-trivial if at least two of the three levels have rules for '
                'some queried key')


# ------------------------------------------------------------------------ R04

@st.composite
def merge_case(draw):
    # few names, such that layers interact
    oses = draw(st.sampled_from([['ubuntu'], ['ubuntu', 'debian'], gen.OSES]))
    versions = dict((o, gen.VERSIONS[o][:2]) for o in oses)
    # an OS may have no default installer, or be unknown
    defaults = dict((o, draw(st.sampled_from(['apt', 'pip', 'yum', 'apt', 'pip', None])))
                    for o in oses if draw(st.integers(0, 5)))
    layers = draw(st.lists(gen.exp_rules(
        min_size=1, max_size=2, oses=oses, versions=versions, defaults=defaults,
        keys=['foo', 'bar']), min_size=2, max_size=4))
    shared = draw(st.integers(0, 2)) == 2
    if shared:
        for l in layers:
            same_elsewhere(draw, l, oses, defaults)
    return layers, defaults, shared


def same_elsewhere(draw, rules, oses, defaults):
    """Give keys and OSs the rules of others."""
    for k, osd in rules.items():
        for o in [o for o in osd if o != 'any_os']:
            to = draw(st.sampled_from(oses))
            if to != o and (defaults.get(to, 0) == defaults.get(o, 0) or not any(
                    'default_installer' in i for i in osd[o].values())):
                osd[to] = copy.deepcopy(osd[o])
    if len(rules) == 1 and draw(st.booleans()):
        k, osd = list(rules.items())[0]
        rules['bar' if k == 'foo' else 'foo'] = copy.deepcopy(osd)


def one_object(x, seen=None):
    """The same with equal dicts and lists being one object."""
    seen = {} if seen is None else seen
    if isinstance(x, dict):
        x = dict((k, one_object(y, seen)) for k, y in x.items())
    elif isinstance(x, list):
        x = [one_object(y, seen) for y in x]
    else:
        return x
    return seen.setdefault(repr(x), x)


def check_merge(v, rec):
    layers, defaults, shared = v
    before = copy.deepcopy(layers)
    if shared:
        layers = one_object(layers)
        rec.event('shared nodes')
    merged = rd.merge_rules(layers, defaults)
    expect_same(layers, before, 'input after merging')
    interact = 0
    for k, osd in merged.items():
        for o, vd in osd.items():
            expect(o == 'any_os' or o in defaults, 'merged rules contain OS {0}', o)
            for ver, idict in vd.items():
                expect('default_installer' not in idict, 'default_installer in merged {0}',
                       merged)
    for k, o, ver in queries(layers):
        if o not in defaults:
            continue
        want = ref.layered(before, k, o, ver, defaults[o])
        got = ref.lookup(merged, k, o, ver, defaults[o])
        expect_same(got, want, 'merged rules for %s on %s:%s' % (k, o, ver))
        got = rd.lookup_rules(merged, k, o, ver, defaults[o])
        expect_same(got, want, 'lookup in merged rules for %s on %s:%s' % (k, o, ver))
        interact = max(interact, sum(bool(ref.lookup(l, k, o, ver, defaults[o])) for l in before))
        rec.count('lookups')
    rec.event('%d layers interact' % interact)
    if None in defaults.values():
        rec.event('OS without default installer')
    rec.nontrivial(interact >= 2)


def check_database(v, rec):
    layers, os_tuple = v
    before = copy.deepcopy(layers)
    ic = ctx.installer_context(os_tuple)
    default = gen.BUILTIN_DEFAULTS[os_tuple[0]]
    with ctx.TempDir() as d:
        db = database(d, layers)
        for k in gen.KEYS + ['unknown']:
            want = ref.layered(before, k, os_tuple[0], os_tuple[1], default)
            expect_same(db.lookup(k, ic), want, 'database lookup of %s' % k)
            rec.nontrivial(sum(bool(ref.lookup(l, k, os_tuple[0], os_tuple[1], default))
                               for l in before) >= 2)
    expect_same(layers, before, 'rules after lookup')


@st.composite
def history_case(draw):
    """Lookups and key listings of one database while sources, OS and results change."""
    keys = ['foo', 'bar', 'new']
    tuples = draw(st.permutations(ctx.OS_TUPLES))[:2]
    tuples.append(draw(st.sampled_from([t for t in ctx.OS_TUPLES if t[0] == tuples[0][0]])))
    oses = sorted(set(t[0] for t in tuples))
    rules = gen.exp_rules(
        max_size=2, keys=keys, oses=oses, defaults=gen.BUILTIN_DEFAULTS,
        versions=dict((o, [t[1] for t in tuples if t[0] == o]) for o in oses))
    layers = draw(st.lists(rules, min_size=1, max_size=3))
    key, os_tuple = st.sampled_from(keys), st.sampled_from(tuples)
    ops = {'lookup': st.tuples(st.just('lookup'), key, os_tuple),
           'keys': st.tuples(st.just('keys'), os_tuple),
           'spoil': st.tuples(st.just('spoil'), key, os_tuple),
           'change': st.tuples(st.just('change'), st.integers(0, len(layers) - 1), rules,
                               st.sampled_from([True, True, False])),
           'reload': st.tuples(st.just('reload'))}
    op = st.sampled_from(['lookup'] * 4 + ['keys'] * 2 + ['spoil', 'change', 'change', 'reload'])
    return layers, draw(st.lists(op.flatmap(ops.get), min_size=2, max_size=9))


def check_history(v, rec, pid):
    layers, ops = v
    loaded = copy.deepcopy(layers)
    lookups = 0
    with ctx.TempDir() as d:
        table = {}
        db = database(d, layers, table)
        now = copy.deepcopy(layers)
        for n, op in enumerate(ops):
            rec.event(op[0])
            if op[0] in ('lookup', 'spoil'):
                _, k, os_tuple = op
                got = db.lookup(k, ctx.installer_context(os_tuple))
                want = ref.layered(loaded, k, os_tuple[0], os_tuple[1],
                                   gen.BUILTIN_DEFAULTS[os_tuple[0]])
                if pid == 'R04':
                    expect_same(got, want, 'step %d: database lookup of %s on %s' % (
                        n, k, os_tuple))
                else:
                    expect_eq(bool(got), any(
                        ref.has_rule(l.get(k, {}), *os_tuple) for l in loaded),
                        'step %d: lookup of %s on %s non-empty' % (n, k, os_tuple))
                lookups += bool(want)
                if op[0] == 'spoil':
                    got.clear()
                    got['spoiled'] = {'packages': ['spoiled']}
            elif op[0] == 'keys':
                os_tuple = op[1]
                got = db.keys(ctx.installer_context(os_tuple))
                want = set(k for l in loaded for k in l if ref.has_rule(l[k], *os_tuple))
                expect_eq(sorted(got), sorted(want), 'step %d: keys on %s' % (n, os_tuple))
                lookups += bool(want)
                del got[:]
            else:
                if op[0] == 'change':
                    now[op[1]] = op[2]
                    table['l%d' % op[1]] = copy.deepcopy(op[2])
                if op[0] == 'reload' or op[3]:
                    db.load_from_source()
                    loaded = copy.deepcopy(now)
    rec.nontrivial(lookups >= 2)


def check_large(v, rec, pid):
    """Many sources, and many keys in each of them."""
    n, m, os_tuple = v
    rec.nontrivial(n * m > 50)
    rec.event('%d sources, %d keys' % (n, m))
    default = gen.BUILTIN_DEFAULTS[os_tuple[0]]
    layers = []
    for i in range(n):
        layer = {}
        for j in range(m):
            o, w = [os_tuple, (os_tuple[0], 'any_version'), ('any_os', 'any_version'), ('suse', '11')][(i + j) % 4]
            inst = ['pip', 'gem', 'x%d' % i][(i // 4 + j) % 3]
            layer['k%d' % j] = {o: {w: {inst: {'packages': ['p%d-%d' % (i, j)]}}}}
        layer['only%d' % i] = {os_tuple[0]: {os_tuple[1]: {'pip': {'packages': ['o']}}}}
        layers.append(layer)
    ic = ctx.installer_context(os_tuple)
    before = copy.deepcopy(layers)
    with ctx.TempDir() as d:
        db = database(d, layers)
        if pid == 'R06':
            got = db.keys(ic)
            want = set(k for l in before for k in l if ref.has_rule(l[k], *os_tuple))
            expect(sorted(got) == sorted(want), 'keys: got {}, expected {}; missing {}, spurious {}', len(got),
                   len(want), sorted(want - set(got))[:5], sorted(set(got) - want)[:5])
            return
        keys = sorted(set('k%d' % j for j in (0, 1, 2, m // 2, m - 1)) |
                      set('only%d' % i for i in (0, 1, n // 2, n - 2, n - 1)) | set(['unknown']))
        for k in keys:
            want = ref.layered(before, k, os_tuple[0], os_tuple[1], default)
            expect_same(db.lookup(k, ic), want, 'database lookup of %s' % k)
        merged = rd.merge_rules(layers, gen.BUILTIN_DEFAULTS)
        for k in keys:
            want = ref.layered(before, k, os_tuple[0], os_tuple[1], default)
            expect_same(rd.lookup_rules(merged, k, os_tuple[0], os_tuple[1], default), want,
                        'lookup of %s in the merged rules' % k)


LARGE = [(1, 1), (2, 9000), (12, 2000), (70, 3), (130, 20), (300, 3), (1100, 2)]


def large_sub(pid):
    return Sub('large', st.tuples(st.integers(1, 400), st.integers(1, 20), st.sampled_from(ctx.OS_TUPLES)),
               lambda v, rec: check_large(v, rec, pid), quick=4, thorough=60,
               examples=[s + (('ubuntu', 'precise'),) for s in LARGE])


SUBS['R04'] = [
    large_sub('R04'),
    Sub('history', history_case(), lambda v, rec: check_history(v, rec, 'R04'), quick=400,
        qshards=2),
    Sub('merge', merge_case(), check_merge, quick=900, qshards=3),
    Sub('database', source_case(4), check_database, quick=300),
]
RULES['R04'] = ('lists of 1-4 rules dicts over a shared small universe of keys, OSs, versions and '
                'installers; non-trivial if for some query at least two layers have rules')


# ------------------------------------------------------------------------ R05

@st.composite
def compact_case(draw):
    defaults = dict((o, draw(st.sampled_from(['apt', 'pip', 'yum', 'homebrew'])))
                    for o in gen.OSES if draw(st.integers(0, 4)))
    rules = draw(gen.exp_rules(min_size=1, max_size=2, empties=draw(st.integers(0, 3)) == 0,
                               defaults=defaults))
    return rules, defaults


def collapse(compacted, pid, rec):
    """Known finding: versions equal to any_version are dropped, but an any_version that is left
    alone with a list is only replaced by that list by another compaction."""
    if not is_known(pid, 'any-version-left'):
        return compacted
    res = {}
    for k, osd in compacted.items():
        res[k] = {}
        for o, vd in osd.items():
            if o != 'any_os' and isinstance(vd, dict) and list(vd) == ['any_version'] and \
                    isinstance(vd['any_version'], list):
                vd = vd['any_version']
                rec.event('known finding')
            res[k][o] = vd
    return res


def check_compact(v, rec):
    rules, defaults = v
    before = copy.deepcopy(rules)
    compacted = rs.compact_rules(rules, defaults)
    rec.nontrivial(not rules_same(compacted, before))
    comp = copy.deepcopy(compacted)
    expanded = ref.expand(comp)
    for k, o, ver in queries([before]):
        d = defaults.get(o, 'DEFAULT')
        want = ref.lookup(before, k, o, ver, d)
        expect_same(ref.lookup(expanded, k, o, ver, d), want,
                    'rules for %s on %s:%s after compaction' % (k, o, ver))
    expect_same(rs.expand_rules(copy.deepcopy(comp)), expanded, 'expanded compact rules')
    again = rs.compact_rules(copy.deepcopy(expanded), defaults)
    comp2 = collapse(comp, 'R05', rec)
    expect_same(again, comp2, 'compacted again')
    for k, osd in comp.items():
        for o, vd in osd.items():
            if comp2[k][o] != vd:
                expect(len(before[k][o]) > 1, 'any_version left in {0}', osd)
    again = rs.compact_rules(ref.expand(copy.deepcopy(comp2)), defaults)
    expect_same(again, comp2, 'compacted a third time')
    rec.event('os without default installer' if any(
        o not in defaults for osd in before.values() for o in osd) else 'defaults')


@st.composite
def clash_case(draw):
    rules, defaults = draw(compact_case())
    o = draw(st.sampled_from(['ubuntu', 'debian']))
    defaults.setdefault(o, 'apt')
    idict = draw(gen.exp_installer_dict(gen.INSTALLERS))
    idict['default_installer'] = draw(gen.exp_rule())
    idict[defaults[o]] = draw(gen.exp_rule())
    k = draw(gen.key)
    rules.setdefault(k, {}).setdefault(o, {})[draw(st.sampled_from(
        ['any_version', 'precise', 'new']))] = idict
    return rules, defaults


def check_clash(v, rec):
    rules, defaults = v
    rec.nontrivial()
    with quiet():
        try:
            got = rs.compact_rules(rules, defaults)
        except ValueError:
            return
    fail('rules naming both default_installer and the default installer were compacted to %s' %
         repr(got).replace('{', '{{').replace('}', '}}'))


SUBS['R05'] = [
    Sub('compact', compact_case(), check_compact, quick=800, qshards=2),
    Sub('clash', clash_case(), check_clash, quick=250),
]
RULES['R05'] = ('expanded rules dicts with repeated installer dicts among versions and random '
                'default installers; non-trivial if compaction changes the dict '
                '(clash: always)')


# ------------------------------------------------------------------------ R06

def check_keys(v, rec):
    layers, os_tuple = v
    ic = ctx.installer_context(os_tuple)
    default = gen.BUILTIN_DEFAULTS[os_tuple[0]]
    before = copy.deepcopy(layers)
    union, full, total = set(), set(), set()
    with ctx.TempDir() as d:
        db = database(d, layers)
        for n, rules in enumerate(before):
            want = set(k for k, osd in rules.items() if ref.has_rule(osd, *os_tuple))
            # empty installer dicts may or may not count as rules
            empty = set(k for k in want if not ref.lookup(rules, k, os_tuple[0], os_tuple[1], default))
            if empty:
                rec.event('empty rule')
            union |= want
            full |= want - empty
            for what, got in [('Spec', RulesSpec().keys(layers[n], ic)),
                              ('RulesSource', db.sources[n].keys(ic))]:
                got = list(got)
                expect_eq(len(got), len(set(got)), 'distinct keys of %s' % what)
                got = set(got)
                expect_eq(sorted(got | empty), sorted(want), 'keys of %s' % what)
            total |= got
            rec.event('some' if want else 'none')
            if 0 < len(want) < len(rules):
                rec.nontrivial()
        got = list(db.keys(ic))
        expect_eq(sorted(got), sorted(total), 'keys of the database')
        for k in gen.KEYS + ['unknown']:
            found = db.lookup(k, ic)
            expect_eq(bool(found), k in full, 'lookup of %s (%s) non-empty' % (k, found))
            hits = [n for n, l in enumerate(before) if k in l and ref.has_rule(l[k], *os_tuple)]
            if len(hits) > 1:
                rec.event('key in several sources')
    expect_same(layers, before, 'rules after listing')


SUBS['R06'] = [
    large_sub('R06'),
    Sub('keys', source_case(3, True, True), check_keys, quick=900, qshards=3),
    Sub('history', history_case(), lambda v, rec: check_history(v, rec, 'R06'), quick=400,
        qshards=2),
]
RULES['R06'] = ('lists of rules dicts as sources of a database x OS overrides; non-trivial if some '
                'source has keys with and keys without rules for the OS')


# ------------------------------------------------------------------------ R07

@st.composite
def file_case(draw):
    doc = draw(gen.raw_rules(defaults=gen.BUILTIN_DEFAULTS, pairs=False))
    style = draw(st.sampled_from([None, True, False]))
    write = draw(st.integers(0, 3)) > 0
    corrupt = draw(st.sampled_from([None, None, None, 'yaml', 'value', 'ident', 'clash', 'utf8']))
    if corrupt == 'utf8':
        corrupt = ('utf8', draw(st.sampled_from([b'# J\xfcrgen\n', b'x\xff: {any_os: {pip: [a]}}\n',
                                                 b'x: {any_os: {pip: [\xe9]}}\n', b'\xc3', b'# \xed\xa0\x80\n'])))
    elif corrupt == 'yaml':
        pos = draw(st.integers(0, 20))
        corrupt = ('yaml', pos, draw(st.sampled_from(
            ['foo: [', '\t- x: y\n  z', '{', '"', 'a: b: c\n', '&x *y\n', '- a\nb: c\n', '%', '@a',
             'a: !!int x\n', 'x: !unknown y\n'])))
    elif corrupt == 'value':
        doc, level, _ = draw(bad_doc())
        corrupt = ('value', level)
    elif corrupt == 'ident':
        doc[draw(st.sampled_from(['a b', 'any_key', 'x/y', '', 'any_os', 'a:b']))] = \
            draw(gen.raw_os_dict())
        corrupt = ('ident',)
    elif corrupt == 'clash':
        doc[draw(gen.key)] = {'ubuntu': {draw(st.sampled_from(['any_version', 'precise'])): {
            'apt': draw(gen.raw_rule()), 'default_installer': draw(gen.raw_rule())}}}
        corrupt = ('clash',)
    if not corrupt and draw(st.integers(0, 9)) == 9:
        doc = {}
    return (doc, style, write, corrupt, draw(st.sampled_from(LINKS)), draw(st.sampled_from(COMMENTS)),
            draw(st.sampled_from(FILE_NAMES)), draw(st.sampled_from(HOW)))


# what comes before the rules in the file
COMMENTS = ['', '', '# rules\n', '---\n', '\n\n', '# {}\n---\n', '\ufeff']
COMMENTS = COMMENTS * 6 + ['# \n' * k + ('# ' + c * 60 + '\n') * n for k in (0, 1) for n in (40, 80, 1000) for c in '\u20acé']
# the file is given as it is, or by a link
LINKS = ['', '', '', 'link', 'relative', 'directory']


FILE_NAMES = ['rules.yaml'] * 4 + [
    '$HOME.yaml', '${PATH}', '%(x)s %d.yaml', 'a b.yaml', '*.yaml', 'é.yaml', 'rules', '.rules.yaml',
    '~root', '~', '@{rf}@!.yaml', '{0} {x}.yaml', 'rules.yaml.bak', "'r\".yaml", 'rules.yaml~',
    'rules.txt', '#rules.yaml#', '-w', 'config.yaml']
# how its path is written
HOW = ['absolute'] * 3 + ['relative', 'home', 'dotted', 'bare']


def spelled(path, how):
    """The path written differently, for the working directory and home directory."""
    d, name = os.path.split(path)
    if how == 'relative':
        return os.path.join('.', name)
    if how == 'bare':
        return './' + name if name[0] in '~-' else name
    if how == 'home':
        return os.path.join('~', name)
    if how == 'dotted':
        return os.path.join(d, 'x', '..', '.', name)
    return path


class Place(object):
    """Make d the working directory and the home directory."""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd(), os.environ.get('HOME')
        os.chdir(self.d)
        os.environ['HOME'] = self.d

    def __exit__(self, *a):
        os.chdir(self.old[0])
        os.environ['HOME'] = self.old[1]


def run_compact(path, write):
    from xylem.commands import _compact_rules_file
    from xylem.commands.main import main
    with quiet() as (out, err):
        try:
            main(['_compact_rules_file', path, '--xylem-dir', '/nonexistent/xylem'] +
                 (['-w'] if write else []))
            failed = False
        except (ValueError, XylemError, yaml.YAMLError):
            failed = True
        except TypeError as e:
            if not (is_known('R07', 'spec-parsing-error') and is_spec_parsing_error_crash(e)):
                raise
            failed = True
        except SystemExit as e:
            failed = e.code not in (None, 0)
    return failed, out.getvalue(), err.getvalue()


def strip_colors(text):

    return re.sub('\x1b\\[[0-9;]*m', '', text)


def check_file(v, rec):
    doc, style, write, corrupt, link, comment, name, how = v
    text = yaml_text(doc, style)
    if not corrupt:
        text = comment + text
        if not doc:
            rec.event('no rules')
    if corrupt and corrupt[0] == 'yaml':
        lines = text.splitlines(True)
        lines.insert(corrupt[1] % (len(lines) + 1), corrupt[2])
        text = ''.join(lines)
        try:
            yaml.safe_load(text)
            rec.event('still YAML')
            return
        except (yaml.YAMLError, ValueError):
            pass
    if corrupt and corrupt[0] == 'utf8':
        text = text.encode('utf-8') + b'\n' + corrupt[1]
    with ctx.TempDir() as d:
        def run(write, path=None):
            with Place(d):
                return run_compact(path or os.path.join(d, name), write)
        path = given = os.path.join(d, name)
        ctx.write(path, text)
        if how == 'dotted':
            os.mkdir(os.path.join(d, 'x'))
        if name != 'rules.yaml':
            rec.event('unusual name')
        rec.event(how + ' path')
        if link == 'directory':
            os.symlink(d, os.path.join(d, 'link'))
            given = os.path.join(d, 'link', name)
        elif link:
            given = os.path.join(d, 'other.yaml')
            os.symlink(name if link == 'relative' else path, given)
        rec.event('by link' if link else 'file itself')
        before = ctx.snapshot(d)
        failed, out, err = run(write, spelled(given, how))
        if link and link != 'directory':
            expect(os.path.islink(given), 'the link to the file has been replaced')
        content = open(path, 'rb').read()
        if corrupt:
            rec.event('invalid %s' % corrupt[0])
            rec.nontrivial()
            expect(failed, 'no failure for invalid file:\n{0}', text)
            expect_eq(ctx.snapshot(d), before, 'directory after failure')
            return
        expect(not failed, 'failed: {0}', err)
        rec.event('write' if write else 'print')
        if write:
            result = content.decode('utf-8')
            # the same that would have been printed
            ctx.write(path, text)
            failed, printed, err = run(False)
            expect(not failed, 'printing failed: {0}', err)
            expect_eq(strip_colors(printed).rstrip(), strip_colors(result).rstrip(),
                      'printed and written rules')
            ctx.write(path, content)
        else:
            expect_eq(ctx.snapshot(d), before, 'directory after printing')
            result = strip_colors(out)
        rec.nontrivial(result.strip() != text.strip())
        try:
            after = ref.expand(yaml.safe_load(result))
        except yaml.YAMLError as e:
            fail('result is no YAML: %s\n%s' % (e, result))
        want = ref.expand(doc)
        expect(ref.rules_ok(after, True), 'result is not a valid rules dict: {0}', result)
        for k, o, ver in queries([doc]):
            dflt = gen.BUILTIN_DEFAULTS.get(o, 'DEFAULT')
            expect_same(ref.lookup(after, k, o, ver, dflt), ref.lookup(want, k, o, ver, dflt),
                        'rules for %s on %s:%s' % (k, o, ver))
        if write:
            failed, out, err = run(True)
            expect(not failed, 'second run failed: {0}', err)
            second = open(path, 'rb').read().decode('utf-8')
            first = yaml.safe_load(result)
            collapsed = collapse(first, 'R07', rec)
            if collapsed == first:
                expect_eq(second, result, 'file after second run')
            else:
                expect_same(yaml.safe_load(second), collapsed, 'rules after second run')
                failed, out, err = run(True)
                expect(not failed, 'third run failed: {0}', err)
                expect_eq(open(path, 'rb').read().decode('utf-8'), second, 'file after third run')
            expect_eq(sorted(os.listdir(d)), sorted(before), 'files')


def check_alias_file(v, rec):
    text, doc = alias_text(*v)
    want = ref.expand(copy.deepcopy(doc))
    shared = shared_dicts(yaml.safe_load(text))
    # known finding: what is shared between keys or levels is changed more than once
    odd = any(len(set(levels)) > 1 or 'os' in levels for levels in shared)
    known = odd and is_known('R07', 'aliased-mapping')
    rec.nontrivial('*n' in text or '<<' in text)
    rec.event('mappings shared by keys or levels' if odd else 'shared %s' % (
        '+'.join(sorted(set(levels[0] for levels in shared))) or
        ('lists' if '*n' in text else 'nothing')))
    with ctx.TempDir() as d:
        path = os.path.join(d, 'rules.yaml')
        ctx.write(path, text)
        before = ctx.snapshot(d)
        try:
            failed, out, err = run_compact(path, True)
        except (AttributeError, KeyError, TypeError):
            if not known:
                raise
            rec.event('known finding')
            expect_eq(ctx.snapshot(d), before, 'directory after failure')
            return
        if failed:
            expect(known, 'failed: {0}', err)
            rec.event('known finding')
            expect_eq(ctx.snapshot(d), before, 'directory after failure')
            return
        result = open(path, 'rb').read().decode('utf-8')
        after = ref.expand(yaml.safe_load(result))
        for k, o, ver in queries([doc]):
            dflt = gen.BUILTIN_DEFAULTS.get(o, 'DEFAULT')
            a, b = ref.lookup(after, k, o, ver, dflt), ref.lookup(want, k, o, ver, dflt)
            if known and not rules_same(a, b):
                rec.event('known finding')
                return
            expect_same(a, b, 'rules for %s on %s:%s' % (k, o, ver))


SUBS['R07'] = [
    Sub('file', file_case(), check_file, quick=900, qshards=3),
    Sub('aliases', alias_case(), check_alias_file, quick=500, qshards=2),
]
RULES['R07'] = ('rules files in random mixes of shorthands and YAML styles, some corrupted, in write '
                'or print mode; non-trivial if the result differs from the file or the file is '
                'invalid')
