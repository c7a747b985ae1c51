"""X05: help, version and usage."""
import argparse
import copy
import os
import re

from hypothesis import strategies as st

from .. import ctx
from ..core import Sub, expect, expect_eq, short
from .config import (COMMANDS, ITEMS, TYPES, Environ, build, ctx_strip, description, ref_yaml,
                     representatives)

from xylem.config_utils import ConfigDescription, ConfigHelpFormatter

SUBS, RULES, LEVEL = {}, {}, {}


# ------------------------------------------------------------ formatted texts

WORDS = ['a', 'foo', 'é', 'x:y', '(b)', '*', 'R', '--opt', '`c`', '{0}', 'ü,', 'word.', '"q"', '|',
         'Loremipsumdolor', '[d]', "it's", '#', '%%', '@', '1.', 'R|']
word = st.sampled_from(WORDS)
block = st.lists(word, min_size=1, max_size=25).filter(lambda b: b[0] != 'R|')
RAW = ['key: value', '- item', '* x  y', 'R|', 'a' * 120, '  two   spaces', 'é', '# c', '"a\\b"', '%%']


@st.composite
def paragraph(draw):
    """A list of blocks (lists of words), or the lines of a raw paragraph."""
    if draw(st.integers(0, 2)) == 2:
        lines = draw(st.lists(st.tuples(st.integers(0, 6), st.sampled_from(RAW)), min_size=1,
                              max_size=4))
        if len(lines) > 1 and draw(st.booleans()):
            # blank lines, empty or with spaces
            lines.insert(draw(st.integers(1, len(lines) - 1)), (draw(st.integers(0, 3)), ''))
        return ('raw', [list(l) for l in lines], draw(st.integers(0, 5)))
    return ('text', draw(st.lists(block, min_size=1, max_size=3)),
            draw(st.sampled_from([' ', '\n', '  ', '\n    ', ' \n', '\t'])))


def source(p):
    """How the author writes the paragraph."""
    if p[0] == 'text':
        return '\n\n'.join(p[2].join(b) for b in p[1])
    base = p[2]
    first = p[1][0]
    lines = [' ' * (base + first[0]) + 'R|' + first[1]]
    lines += [' ' * (base + 2 + n) + text if text or n else '' for n, text in p[1][1:]]
    return '\n'.join(lines)


def shown(p, width):
    """The lines it has to become."""
    if p[0] == 'raw':
        # the marker counts as indentation
        lines = [' ' * (p[2] + 2 + n) + text for n, text in p[1]]
        cut = min(len(l) - len(l.lstrip(' ')) for l in lines if l.strip())
        return [l[cut:].replace('%%', '%') for l in lines]
    res = []
    for b in p[1]:
        line = ''
        for w in ' '.join(b).replace('%%', '%').split():
            if line and len(line) + 1 + len(w) > width:
                res.append(line)
                line = w
            else:
                line = line + ' ' + w if line else w
        res.append(line)
    return res


@st.composite
def text_case(draw):
    return dict(paragraphs=[list(p) for p in draw(st.lists(paragraph(), min_size=1, max_size=4))],
                breaks=draw(st.integers(3, 5)), columns=draw(st.sampled_from([40, 80, 100, 57])),
                where=draw(st.sampled_from(['description', 'group', 'argument', 'epilog'])))


def text_examples():
    for columns in (40, 80):
        for where in ('description', 'group', 'argument', 'epilog'):
            for ps in ([('text', [['a', 'b'], ['c']], '\n')], [('raw', [[0, 'x'], [2, 'y'], [0, 'z']], 3)],
                       [('raw', [[0, 'x'], [1, ''], [2, 'y'], [0, ''], [0, 'z']], 0)],
                       [('raw', [[1, 'x'], [0, ''], [0, 'z']], 2), ('text', [['a'], ['b']], ' ')],
                       [('raw', [[2, 'x'], [0, 'y']], 0), ('text', [['foo'] * 30], ' ')],
                       [('text', [['foo'] * 30, ['foo'] * 29], '\n  '), ('raw', [[0, 'a' * 120]], 0)],
                       [('text', [['a']], ' '), ('text', [['b']], ' '), ('text', [['c'], ['d']], ' ')]):
                yield dict(paragraphs=[list(p) for p in ps], breaks=3, columns=columns, where=where)


def check_text(v, rec):
    ps = v['paragraphs']
    where = v['where']
    if where != 'argument':
        # only help texts of arguments have %-formatting
        ps = [['raw', [[n, t.replace('%%', '%')] for n, t in p[1]], p[2]] if p[0] == 'raw' else
              ['text', [[w.replace('%%', '%') for w in b] for b in p[1]], p[2]] for p in ps]
    text = ('\n' * v['breaks']).join(source(p) for p in ps)
    rec.event(where)
    rec.nontrivial(len(ps) > 1 or ps[0][0] == 'raw' or len(ps[0][1]) > 1)
    kw = dict(formatter_class=ConfigHelpFormatter, prog='prog', usage='USAGE', add_help=False)
    if where in ('description', 'epilog'):
        kw[where] = text
    os.environ['COLUMNS'] = str(v['columns'])
    try:
        parser = argparse.ArgumentParser(**kw)
        if where == 'group':
            g = parser.add_argument_group('GROUP', text)
            g.add_argument('--end-of-group')
        elif where == 'argument':
            parser.add_argument('--opt', help=text)
            parser.add_argument('--end-of-group')
        out = parser.format_help()
    finally:
        del os.environ['COLUMNS']
    columns = v['columns'] - 2
    lines = [l.rstrip() for l in out.splitlines()]
    if where == 'group':
        i = lines.index('GROUP:') + 1
        body = lines[i:[n for n, l in enumerate(lines) if '--end-of-group' in l][-1]]
        indent = 2
    elif where == 'argument':
        i = [n for n, l in enumerate(lines) if l.startswith('  --opt OPT')][-1]
        body = [' ' * 12 + lines[i][12:]] if lines[i] != '  --opt OPT' else []
        body += lines[i + 1:[n for n, l in enumerate(lines) if '--end-of-group' in l][-1]]
        # the column of the help texts
        filled = [l for l in body if l.strip()]
        indent = min(len(l) - len(l.lstrip()) for l in filled) if filled else 0
    else:
        body = lines[lines.index('usage: USAGE') + 1:]
        indent = 0
    while body and not body[0]:
        del body[0]
    while body and not body[-1]:
        body.pop()
    # like the standard formatter, which counts the indentation of a group twice
    width = max(columns - indent * (2 if where == 'group' else 1), 11)
    want = []
    for p in ps:
        if want:
            want.append('')
        want += [l.rstrip() for l in shown(p, width)]
    # blank lines are collapsed by argparse
    got = [l[indent:] for l in body]
    for l in body:
        expect(l[:indent].strip() == '', 'line {} is not indented by {}:\n{}', l, indent, out)
    want = '\n'.join(want).strip('\n').split('\n')
    expect_eq(got, want, 'lines of the text %r (%s) in\n%s' % (text, where, out))


# ------------------------------------------------------------------- commands

WRITING = ['update', 'install', 'resolve', 'lookup', '_compact_rules_file']
ARGUMENTS = {
    'update': ['--dry-run', '-n'], 'install': ['xylem_key', '--all', '--reinstall', '--dry-run',
                                               '--continue-on-error', '--fix-prerequisites'],
    'resolve': ['xylem_key', '--all', '--show-default-installer'], 'lookup': ['xylem_key'],
    '_compact_rules_file': ['rules-file', '-w', '--write']}
COMMON = ['-h', '--help', '--version', '-v', '--verbose', '-d', '--debug', '--config', '--print-config',
          '--prefix', '--xylem-dir', '--no-user-config'] + [i[3] for i in ITEMS]
BROKEN = [None, '{', 'core_installers: 3\n', 'user_sources: {a: b}\n', '- x\n']


@st.composite
def call(draw):
    return dict(command=draw(st.sampled_from([None] + WRITING)),
                flag=draw(st.sampled_from(['-h', '--help', '--version'])),
                place=draw(st.sampled_from(['before', 'after', 'end'])),
                extra=draw(st.lists(st.sampled_from(
                    ['-v', '-d', '--no-color', '--no-user-config', '--os=ubuntu:precise',
                     '--core-installers=apt', '--os=nonsense', '--user-sources=true',
                     '--print-config']), max_size=3, unique=True)),
                keys=draw(st.lists(st.sampled_from(['foo', 'é']), max_size=2)),
                standalone=draw(st.booleans()), config=draw(st.sampled_from(BROKEN)))


def call_examples():
    for command in [None] + WRITING:
        for flag in ('-h', '--help', '--version'):
            for place in ('before', 'after'):
                for standalone in (False, True):
                    yield dict(command=command, flag=flag, place=place, extra=[], keys=[],
                               standalone=standalone, config='{' if command else None)


def check_call(v, rec):
    import sys
    import xylem
    command, flag, standalone = v['command'], v['flag'], v['standalone'] and v['command']
    if command is None or standalone:
        argv = [flag] + v['extra'] if v['place'] != 'end' else v['extra'] + [flag]
        own = bool(standalone)
    elif v['place'] == 'before':
        argv = v['extra'] + [flag, command] + v['keys']
        own = False
    elif v['place'] == 'after':
        argv = v['extra'] + [command, flag] + v['keys']
        own = True
    else:
        argv = [command] + v['extra'] + v['keys'] + [flag]
        own = True
    rec.event('standalone' if standalone else 'command help' if own else 'tool help')
    rec.event(flag)
    rec.nontrivial(command is not None)
    with ctx.TempDir() as base:
        rules = os.path.join(base, 'r.yaml')
        ctx.write(rules, 'foo: {ubuntu: {any_version: [a]}}\n')
        os.makedirs(os.path.join(base, 'xd/sources.d'))
        ctx.write(os.path.join(base, 'xd/sources.d/1.yaml'), '- rules: file://%s\n' % rules)
        if v['config'] is not None:
            ctx.write(os.path.join(base, 'xd/config.yaml'), v['config'])
        before = ctx.snapshot(base)

        def main():
            if standalone:
                import importlib
                sys.argv = ['xylem-' + command] + argv
                sys.exit(importlib.import_module('xylem.commands.' + command).main())
            from xylem.commands.main import main
            main(argv)
        with Environ({'XYLEM_DIR': os.path.join(base, 'xd'), 'COLUMNS': '100'}):
            status, out, err = ctx.forked(main)
        expect_eq(ctx.snapshot(base), before, 'files after xylem %s' % argv)
    expect_eq(status, 0, 'exit status of xylem %s (%s)' % (argv, err[-300:]))
    expect_eq(err, '', 'standard error of xylem %s' % argv)
    out = ctx_strip(out)
    if flag == '--version':
        expect_eq(out.strip(), xylem.__version__, 'output of xylem %s' % argv)
        return
    text = ' '.join(out.split())
    for name in COMMON:
        if name != '--config':
            expect(re.search(r'(^|[ \[])%s\b' % re.escape(name), text), '{} is not in the help {}', name, out)
    expect('FOO' not in out and '@@' not in out, 'odd help {}', out)
    if own:
        for name in ARGUMENTS[command]:
            expect(re.search(r'(^|[ \[])%s\b' % re.escape(name), text), '{} is not in the help {}', name, out)
    else:
        for name in COMMANDS:
            expect(re.search(r'\b%s\b' % name, text), 'command {} is not in the help {}', name, out)
        expect('compact' not in out, 'hidden command is in the help {}', out)


# --------------------------------------------------------------- config items

HELPS = [None, 'short', 'Some words of help that are so many that they do not fit into one line of '
         'the output.', 'é ü', 'a: {0}', 'first\n\nsecond', '100%%']


@st.composite
def items_case(draw):
    items = draw(description())
    return dict(items=items, columns=draw(st.sampled_from([60, 80, 120])),
                helps=[draw(st.sampled_from(HELPS)) for _ in items],
                metavars=[draw(st.sampled_from([None, None, 'META', 'A|B'])) for _ in items])


def items_examples():
    for name in ('foo', 'a_b', 'grp/q_x'):
        for option in (None, '--' + name.replace('_', '-').replace('/', '-'), '--opt'):
            for t in TYPES:
                for default in [None] + [d for d in representatives(t)]:
                    if t not in ('String', 'Boolean', 'Any') and default is not None:
                        default = ref_yaml(t, default)
                    yield dict(items=[(name, t, default, option)], columns=80, helps=['hh'],
                               metavars=[None])
    for default in ('100%', '%s', '%(prog)s', '%%', ['%d'], {'a': '%'}):
        t = 'String' if isinstance(default, str) else ['List', 'String'] if isinstance(default, list) \
            else ['Dict', 'String']
        for metavar in (None, 'M'):
            yield dict(items=[('foo', t, default, '--foo')], columns=80, helps=[None], metavars=[metavar])


def check_items(v, rec):
    d = ConfigDescription('tool')
    for (name, t, default, option), text, metavar in zip(v['items'], v['helps'], v['metavars']):
        kw = dict(command_line_metavar=metavar) if option and metavar else {}
        if option is None:
            kw['command_line'] = False
        elif option == '--' + name.replace('_', '-').replace('/', '-') and not metavar:
            kw['command_line'] = True
        else:
            kw['command_line_argument'] = option
        d.add(name, text, build(t), copy.deepcopy(default), **kw)
    os.environ['COLUMNS'] = str(v['columns'])
    try:
        parser = argparse.ArgumentParser(formatter_class=ConfigHelpFormatter, prog='prog',
                                         usage='USAGE', add_help=False)
        d.add_arguments(parser)
        out = parser.format_help()
    finally:
        del os.environ['COLUMNS']
    # the texts of the options
    shown = {}
    for line in out.splitlines():
        m = re.match(r'  (--\S+) ', line + ' ')
        if m:
            option = m.group(1)
            shown[option] = []
            line = line[2 + len(option):]
        if shown:
            shown[option].append(line)
    shown = dict((k, ''.join(''.join(x).split())) for k, x in shown.items())
    want = [option for _, _, _, option in v['items'] if option]
    expect_eq(sorted(shown), sorted(want), 'options in the help\n' + out)
    rec.nontrivial(any(o for _, _, _, o in v['items']))
    flat = ''.join(out.split())
    for _, t, _, option in v['items']:
        parsing = option and build(t).command_line_parsing_help() or ''
        expect(''.join(parsing.split()) in flat, 'the help does not tell how values of type {} are parsed\n{}', t, out)
    for (name, t, default, option), text, metavar in zip(v['items'], v['helps'], v['metavars']):
        if not option:
            continue
        have = shown[option]
        if text:
            text = ''.join((text % {}).split())
            expect(text in have, 'the help text of {} is not shown in\n{}', name, out)
        if metavar:
            expect(have.startswith(metavar), 'metavar of {} in\n{}', name, out)
        elif t == 'Boolean':
            expect(have.startswith('yes|no'), 'metavar of {} in\n{}', name, out)
        have = have[have.rindex(text) + len(text):] if text else have
        if text:
            expect(have.startswith('('), 'the help text of {} is shown with {} behind it in\n{}', name, short(have), out)
        kind = t if isinstance(t, str) else t[0]
        expect('type:%s' % kind in have, 'type {} of {} is not shown in\n{}', kind, name, out)
        info = 'default:%s)' % ''.join(str(default).split())
        if default is None or default == {} and kind == 'MergingDict':
            rec.event('no default')
            expect('default:' not in have, 'default of {} in\n{}', name, out)
        else:
            rec.event('default')
            expect(info in have, 'default {} of {} is not shown in\n{}', default, name, out)
        info = 'config:`%s`' % name
        named = option[2:] == name.replace('_', '-')
        expect((info in have) == (not named), 'config name of {} in\n{}', name, out)
        rec.event('named like the config item' if named else 'other name')


RULES['X05'] = ('a text with several paragraphs or line breaks, or a call with a command; distinct by text, '
                'width and place or by the call')
SUBS['X05'] = [
    Sub('texts', text_case, check_text, quick=600, examples=text_examples()),
    Sub('items', items_case, check_items, quick=300, examples=items_examples()),
    Sub('calls', call, check_call, quick=120, examples=call_examples()),
]
