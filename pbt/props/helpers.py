"""X02-X04: exceptions, console output, text, processes and contexts."""
import argparse
import io
import os
import re
import sys
import traceback

from hypothesis import strategies as st

from .. import ctx
from ..core import Sub, expect, expect_eq, fail, quiet
from .rules import strip_colors

from xylem import log_utils, terminal_color, util
from xylem.arguments import add_global_arguments, handle_global_arguments
from xylem.exception import (XylemError, XylemInternalError, chain_exception, exc_to_str,
                             raise_from, type_error_msg)
from xylem.installers import InstallerError, InvalidRuleError
from xylem.resolve import ResolutionError
from xylem.text_utils import to_bytes, to_str, type_name

SUBS, RULES, LEVEL = {}, {}, {}

# ------------------------------------------------------------------------ X02

CAUSE = 'The above error was the direct cause of the following:'


class Falsy(Exception):
    def __len__(self):
        return 0


class Twisted(Exception):
    def __str__(self):
        raise ValueError('no text')


class Equal(Exception):
    """Equal to all others, not hashable."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Same(Equal):
    def __hash__(self):
        return 1


TYPES = dict((t.__name__, t) for t in [
    ValueError, KeyError, TypeError, OSError, RuntimeError, Exception, KeyboardInterrupt,
    XylemError, XylemInternalError, ResolutionError, InstallerError, InvalidRuleError, Falsy,
    Twisted, Equal, Same])

TEXTS = st.one_of(
    st.sampled_from(['', ' ', 'simple', 'two\nlines', 'end\n', '\n', '{}', '{0!r}', '%s %d', 'é ’ 日本',
                     '@!bold@|', 'Traceback (most recent call last):', ' --- ', 'a\n\n  b', '\t',
                     '{cause} {0} {', '%(cause)s %', '{exc_args}{from_exc!r}', '$cause ${exc}', '\\1 \\n']),
    st.text(st.characters(blacklist_categories=('Cs',), blacklist_characters='\x1b'), max_size=12))


def link(kind, msg, limit_depth, inner):
    """Raise an exception of the kind, caused by whatever inner raises."""
    def descend(n):
        if n:
            descend(n - 1)
        elif inner is None:
            raise kind(msg)
        else:
            try:
                inner()
            except BaseException as e:
                raise_from(kind, msg, e)
    descend(limit_depth)


def throw(exc, depth):
    if depth:
        throw(exc, depth - 1)
    raise exc


@st.composite
def chain_case(draw):
    n = draw(st.integers(1, 5))
    return dict(chain=[(draw(st.sampled_from(sorted(TYPES))), draw(TEXTS), draw(st.integers(0, 3)))
                       for _ in range(n)],
                context=draw(st.booleans()),
                tb=draw(st.sampled_from(['default', 'none', 'false', 'true', 'given'])),
                limit=draw(st.sampled_from(['default', None, 1, 2, 10])),
                chained=draw(st.sampled_from(['default', True, False])),
                how=draw(st.sampled_from(['raise', 'raise', 'mixed', 'make'])),
                raised=[draw(st.booleans()) for _ in range(n)])


def chain_examples():
    """Chains of which any members have been raised."""
    for kind in ('Equal', 'Same'):
        for kinds in ([kind] * 2, [kind] * 4, ['ValueError', kind], [kind, 'ValueError', kind]):
            for tb in ('true', 'none'):
                for how in ('raise', 'mixed'):
                    yield dict(chain=[(k, 'm', 0) for k in kinds], context=False, tb=tb, limit=None,
                               chained=True, how=how, raised=[True] * len(kinds))
    for tb in ('true', 'given', 'none'):
        for chained in (True, False):
            for bits in range(16):
                yield dict(chain=[('ValueError', 'm%d' % n, n) for n in range(4)], context=False,
                           tb=tb, limit=None, chained=chained, how='mixed',
                           raised=[bool(bits >> n & 1) for n in range(4)])


def pieces(chain, tb, limit):
    res = []
    for e in chain:
        lines = traceback.format_exception(type(e), e, e.__traceback__ if tb else None, limit,
                                           chain=False)
        res.append(''.join(lines))
    return res


def check_chain(v, rec):
    fn = None
    if v['context']:
        # an exception being handled is not a cause
        def fn():
            raise IndexError('only the context')

        def first(kind, msg, depth, inner=fn):
            try:
                inner()
            except IndexError:
                link(kind, msg, depth, None)
    built = []
    if v['how'] == 'raise':
        fn = None
        for n, (kind, msg, depth) in enumerate(v['chain']):
            def fn(kind=TYPES[kind], msg=msg, depth=depth, inner=fn, n=n):
                if n == 0 and v['context']:
                    first(kind, msg, depth)
                link(kind, msg, depth, inner)
        try:
            fn()
        except BaseException as e:
            exc = e
    else:
        exc = None
        for (kind, msg, depth), raised in zip(v['chain'], v['raised']):
            exc = chain_exception(TYPES[kind], msg, exc)
            expect(exc.__traceback__ is None, 'chain_exception raised')
            if v['how'] == 'mixed' and raised:
                # with a traceback, unlike others of the chain
                try:
                    throw(exc, depth)
                except BaseException as e:
                    exc = e
    e = exc
    while e is not None:
        built.insert(0, e)
        e = e.__cause__
    expect_eq([type(e).__name__ for e in built], [k for k, _, _ in v['chain']], 'types of the chain')
    for e, (kind, msg, _) in zip(built, v['chain']):
        expect(type(e) is TYPES[kind], 'type {}', type(e))
        expect_eq(e.args, (msg,), 'arguments of the exception')
    kw = {}
    tb = v['tb'] in ('true', 'given') and exc.__traceback__ is not None
    if v['tb'] != 'default':
        kw['tb'] = {'none': None, 'false': False, 'true': True, 'given': exc.__traceback__}[v['tb']]
    limit = None
    if v['limit'] != 'default':
        kw['limit'] = limit = v['limit']
    chained = v['chained'] is not False
    if v['chained'] != 'default':
        kw['chain'] = v['chained']
    text = exc_to_str(exc, **kw)
    rec.event('tb: %s' % tb)
    rec.event('length %d' % len(built))
    rec.event('how: ' + v['how'])
    if not chained:
        rec.event('unchained')
    rec.nontrivial(len(built) > 1)
    expect(isinstance(text, str), 'type of the text')
    shown = built if chained else built[-1:]
    want = pieces(shown, tb, limit)
    sep = '\n%s\n\n' % CAUSE if tb else ' --- %s\n' % CAUSE
    expect_eq(text.rstrip('\n'), sep.join(want).rstrip('\n'), 'formatted chain')


def check_deep(v, rec):
    """Long chains."""
    n, tb = v
    exc = None
    for i in range(n):
        try:
            raise_from(ValueError, 'number %d.' % i, exc)
        except ValueError as e:
            exc = e
    text = exc_to_str(exc, tb=tb)
    rec.nontrivial(n > 5)
    expect_eq(re.findall('(?m)^ValueError: number (\\d+)\\.$', text), [str(i) for i in range(n)],
              'messages of the chain')
    expect_eq(text.count(CAUSE), n - 1, 'number of cause lines')
    expect_eq(text.count('Traceback (most'), n if tb else 0, 'number of tracebacks')


class Looping(ValueError):
    """An exception whose cause is looked up only so many times."""

    lookups = 0
    cause = None

    @property
    def __cause__(self):
        self.lookups += 1
        expect(self.lookups < 1000, 'formatting does not come to an end')
        return self.cause


def check_cycle(v, rec):
    """The last cause is one of the exceptions in front of it."""
    n, back, tb, chained = v
    excs = [Looping('number %d.' % i) for i in range(n)]
    for i, e in enumerate(excs):
        e.cause = excs[i + 1] if i + 1 < n else excs[back % n]
        if tb:
            try:
                throw(e, i % 3)
            except Looping:
                pass
    text = exc_to_str(excs[0], tb=tb, chain=chained)
    rec.nontrivial()
    rec.event('cycle of %d' % (n - back % n))
    got = re.findall('(?m)^[.\\w]*Looping: number (\\d+)\\.', text)
    expect_eq(sorted(set(got)), sorted(str(i) for i in range(n if chained else 1)), 'messages shown')
    # what the exception is comes last
    expect_eq(got[-1:], ['0'], 'last message')


def check_handler(v, rec):
    """The exception hook prints the chain with tracebacks."""
    chain, pdb = v
    fn = None
    for kind, msg, depth in chain:
        def fn(kind=TYPES[kind], msg=msg, depth=depth, inner=fn):
            link(kind, msg, depth, inner)
    try:
        fn()
    except BaseException as e:
        exc = e
    was = util.pdb_enabled()
    util.enable_pdb(pdb)
    try:
        with quiet() as (out, err):
            util.custom_exception_handler(type(exc), exc, exc.__traceback__)
    finally:
        util.enable_pdb(was)
    built = []
    while exc is not None:
        built.insert(0, exc)
        exc = exc.__cause__
    rec.nontrivial(len(built) > 1)
    expect_eq(out.getvalue(), '', 'standard output')
    want = ('\n%s\n\n' % CAUSE).join(pieces(built, True, None))
    expect_eq(strip_colors(err.getvalue()).split(), want.split(), 'printed exception')


def check_type_error(v, rec):
    name, value, what = v
    text = type_error_msg(name, value) if what is None else type_error_msg(name, value, what)
    rec.nontrivial()
    for part in (name, str(value), type(value).__name__, what or ''):
        expect(part in text, '{} is not in {}', part, text)
    expect(what or ' as ' not in text.replace(str(value), ''), 'purpose in {}', text)
    expect_eq(type_name(value), type(value).__name__, 'name of the type')


RULES['X02'] = 'a case is non-trivial if the chain has at least two exceptions'
SUBS['X02'] = [
    Sub('chains', chain_case, check_chain, quick=1500, qshards=2, examples=chain_examples()),
    Sub('cycles', st.tuples(st.integers(1, 6), st.integers(0, 5), st.booleans(), st.sampled_from([True, True, False])),
        check_cycle, quick=60, thorough=400, shards=1, examples=[(1, 0, False, True), (2, 1, True, True)]),
    Sub('long chains', st.tuples(st.integers(1, 60), st.booleans()), check_deep, quick=60,
        examples=[(400, False), (200, True)]),
    Sub('exception hook', lambda: st.tuples(st.lists(st.tuples(
        st.sampled_from(sorted(set(TYPES) - {'KeyboardInterrupt'})), TEXTS, st.integers(0, 2)),
        min_size=1, max_size=4), st.booleans()), check_handler, quick=150),
    Sub('type errors', st.tuples(st.sampled_from(['str', 'list of str', 'é']), st.one_of(
        st.none(), st.integers(), TEXTS, st.lists(st.integers(), max_size=3),
        st.dictionaries(TEXTS, st.integers(), max_size=2)),
        st.sampled_from([None, 'xylem key', 'rule'])), check_type_error, quick=200),
]

# ------------------------------------------------------------------------ X03


class Console(object):
    """Sets the state of the console and restores it."""

    def __init__(self, verbose, debug, colors):
        self.want = verbose, debug, colors

    def __enter__(self):
        self.was = log_utils.is_verbose(), log_utils.is_debug()
        self.set(*self.want)

    def set(self, verbose, debug, colors):
        log_utils.enable_verbose(verbose)
        log_utils.enable_debug(debug)
        if colors:
            terminal_color.enable_ANSI_colors()
        else:
            terminal_color.disable_ANSI_colors()

    def __exit__(self, *args):
        self.set(self.was[0], self.was[1], True)


class File(io.StringIO):
    """File which is false as long as it is empty."""

    def __len__(self):
        return len(self.getvalue())


class Sized(object):
    """Object with a text."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


MESSAGES = st.one_of(
    TEXTS.map(lambda t: ('text', t)), TEXTS.map(lambda t: ('bytes', t)),
    TEXTS.map(lambda t: ('object', t)), st.integers().map(lambda t: ('int', t)),
    st.lists(TEXTS, max_size=3).map(lambda t: ('list', t)),
    TEXTS.map(lambda t: ('exception', t)))


def message(m):
    """The message object and its text."""
    kind, x = m
    if kind == 'bytes':
        return x.encode('utf-8'), x
    if kind == 'object':
        return Sized(x), x
    if kind == 'int':
        return x, str(x)
    if kind == 'list':
        return list(x), '[' + ', '.join(x) + ']'
    if kind == 'exception':
        e = XylemError(x)
        t = ''.join(traceback.format_exception_only(type(e), e))
        return e, t[:-1]
    return x, x


FUNCS = ['info', 'warning', 'error', 'debug', 'info_v']


@st.composite
def calls(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 3)) == 0:
            ops.append(('state', draw(st.booleans()), draw(st.booleans()), draw(st.booleans())))
        elif ops and draw(st.integers(0, 4)) == 4:
            # the same once more
            ops.append(draw(st.sampled_from(ops[-2:])))
        else:
            ops.append(('call', draw(st.sampled_from(FUNCS)), draw(MESSAGES),
                        draw(st.sampled_from(['default', 'none', 'file', 'false file', 'out', 'err'])),
                        draw(st.sampled_from(['default', '', ' | '])),
                        # the same message several times
                        draw(st.sampled_from([1, 1, 2, 3]))))
    return dict(state=[draw(st.booleans()) for _ in range(3)], ops=ops)


def check_messages(v, rec):
    verbose, debug, colors = v['state']
    with Console(verbose, debug, colors):
        for op in v['ops']:
            if op[0] == 'state':
                _, verbose, debug, colors = op
                Console.set(None, verbose, debug, colors)
                expect_eq((log_utils.is_verbose(), log_utils.is_debug()), (verbose, debug), 'flags')
                continue
            _, name, m, target, end, times = op
            obj, text = message(m)
            f = File() if target == 'false file' else io.StringIO()
            kw = {}
            if end != 'default':
                kw['end'] = end
            with quiet() as (out, err):
                if target != 'default':
                    kw['file'] = {'none': None, 'out': sys.stdout, 'err': sys.stderr}.get(target, f)
                for _ in range(times):
                    getattr(log_utils, name)(obj, **kw)
            got = dict(out=out.getvalue(), err=err.getvalue(), file=f.getvalue())
            shown = {'debug': debug, 'info_v': verbose}.get(name, True)
            where = 'out' if name == 'info' else 'err'
            where = {'default': where, 'none': where, 'file': 'file', 'false file': 'file'}.get(
                target, target)
            rec.event('to: ' + target)
            rec.event('%s %s' % (name, 'shown' if shown else 'hidden'))
            rec.event('colors' if colors else 'no colors')
            rec.event('message: ' + m[0])
            rec.nontrivial(bool(text))
            for w in got:
                want = text + ('\n' if end == 'default' else end) if shown and w == where else ''
                if colors:
                    got[w] = strip_colors(got[w])
                want *= times
                expect_eq(got[w], want, '%s(%r) on %s' % (name, obj, w))


def check_exit(v, rec):
    m, colors = v
    obj, text = message(m)

    def run():
        with Console(False, False, colors):
            log_utils.error(obj, exit=True)
            print('still there')
    status, out, err = ctx.forked(run)
    rec.nontrivial()
    expect_eq(status, 1, 'exit status')
    expect_eq(out, '', 'standard output')
    expect_eq(strip_colors(err) if colors else err, text + '\n', 'standard error')


COLORS = ['black', 'red', 'green', 'yellow', 'blue', 'purple', 'cyan', 'white']
SHORT = dict(zip(COLORS, 'krgybpcw'))
CODES = {'boldon': 1, 'italicson': 3, 'ulon': 4, 'invon': 7, 'boldoff': 22, 'italicsoff': 23,
         'uloff': 24, 'invoff': 27, 'reset': 0}
for _n, _c in enumerate(COLORS):
    for _k in (_c, _c + 'f', SHORT[_c] + 'f'):
        CODES[_k] = 30 + _n
    for _k in (_c + 'b', SHORT[_c] + 'b'):
        CODES[_k] = 40 + _n
PUNCT = {'!': 'boldon', '/': 'italicson', '_': 'ulon', '|': 'reset'}

PLAIN = st.text(st.one_of(st.sampled_from('ab {}$%_!/|\\é\n0'), st.characters(
    blacklist_categories=('Cs',), blacklist_characters='@\x1b')), max_size=6)


def seq(key, colors):
    return '\x1b[%dm' % CODES[key] if colors else ''


@st.composite
def template(draw):
    parts = []
    for _ in range(draw(st.integers(0, 6))):
        kind = draw(st.sampled_from(['text', 'text', 'brace', 'bare', 'punct', 'at']))
        if kind == 'text':
            parts.append((kind, draw(PLAIN)))
        elif kind == 'punct':
            parts.append((kind, draw(st.sampled_from(sorted(PUNCT)))))
        elif kind == 'at':
            parts.append((kind, ''))
        else:
            parts.append((kind, draw(st.sampled_from(sorted(CODES)))))
    return parts, draw(st.booleans())


def check_fmt(v, rec):
    parts, colors = v
    src = want = ''
    for kind, x in parts:
        if kind == 'text':
            if src.endswith('@@') and x[:1] in PUNCT:
                x = ' ' + x   # the literal @ is not followed by an annotation's character
            src, want = src + x, want + x
        elif kind == 'brace':
            src, want = src + '@{%s}' % x, want + seq(x, colors)
        elif kind == 'bare':
            src, want = src + '@%s.' % x, want + seq(x, colors) + '.'
        elif kind == 'punct':
            if src.endswith('@@'):
                src, want = src + '.', want + '.'
            src, want = src + '@' + x, want + seq(PUNCT[x], colors)
        else:
            if src.endswith('@@'):
                src, want = src + '.', want + '.'
            src, want = src + '@@', want + '@'
        rec.event(kind)
    rec.nontrivial(len(set(k for k, _ in parts)) > 1)
    with Console(False, False, colors):
        got = terminal_color.fmt(src)
    expect(got in (want, want + seq('reset', colors)), 'fmt({}) is {}, expected {}',
           src, repr(got), repr(want))


def check_ansi(v, rec):
    """Sequence of en- and disabling."""
    rec.nontrivial(len(v) > 1)
    try:
        for on in v:
            (terminal_color.enable_ANSI_colors if on else terminal_color.disable_ANSI_colors)()
            for key in CODES:
                expect_eq(terminal_color.ansi(key), seq(key, on), 'ansi(%r)' % key)
                expect_eq(log_utils.ansi(key), seq(key, on), 'ansi(%r)' % key)
            expect_eq(terminal_color.ansi('escape'), '\x1b' if on else '', 'ansi escape')
            for p, key in PUNCT.items():
                if p in '!|/_':
                    expect_eq(terminal_color.ansi(p), seq(key, on), 'ansi(%r)' % p)
    finally:
        terminal_color.enable_ANSI_colors()


def check_sanitize(v, rec):
    text, colors = v
    rec.nontrivial('@' in text)
    with Console(False, False, colors):
        got = terminal_color.fmt(terminal_color.sanitize(text))
    reset = seq('reset', colors)
    expect(got in (text, text + reset), 'fmt(sanitize({})) is {}', repr(text), repr(got))


SPECIAL = '\ufeff\u2028\u2029\x85\x00\x0b\x0c\x1c\x7f\r\n\xa0\xe9\u0301\ufffd\uffff\U0001f600'
ANY = st.text(st.one_of(st.characters(blacklist_categories=('Cs',)), st.sampled_from(SPECIAL)),
              max_size=20)


def check_text(v, rec):
    text, raw, enc = v
    rec.nontrivial(any(ord(c) > 127 for c in text))
    b = to_bytes(text)
    expect(type(b) is bytes and type(to_str(b)) is str, 'types')
    expect_eq(b, text.encode('utf-8'), 'to_bytes(%r)' % text)
    expect_eq(to_str(b), text, 'to_str(to_bytes(%r))' % text)
    expect_eq(to_str(text), text, 'to_str(%r)' % text)
    expect_eq(to_bytes(b), b, 'to_bytes(%r)' % b)
    expect_eq(to_str(to_bytes(text, enc), enc), text.encode(enc, 'replace').decode(enc), enc)
    # arbitrary bytes never fail, valid ones are kept
    got = to_str(raw)
    expect_eq(got, raw.decode('utf-8', 'replace'), 'to_str(%r)' % raw)
    expect_eq(to_bytes(raw), raw, 'to_bytes(%r)' % raw)
    obj = Sized(text)
    expect_eq(to_str(obj), text, 'to_str(object)')
    expect_eq(to_bytes(obj), b, 'to_bytes(object)')
    expect_eq(to_str(type(obj)), 'Sized', 'to_str(type)')


OBJECTS = st.one_of(st.none(), st.booleans(), st.integers(), st.floats(allow_nan=False),
                    st.lists(st.one_of(st.integers(), TEXTS), max_size=3),
                    st.dictionaries(TEXTS, st.integers(), max_size=2),
                    st.tuples(TEXTS, st.integers()))


def check_objects(v, rec):
    rec.nontrivial(v is not None)
    if type(v) is list and all(isinstance(x, str) for x in v):
        want = '[' + ', '.join(v) + ']'
    else:
        want = str(v)
    expect_eq(to_str(v), want, 'to_str(%r)' % (v,))
    expect_eq(to_bytes(v), str(v).encode('utf-8'), 'to_bytes(%r)' % (v,))


def check_indent(v, rec):
    text, width, char, exclude = v
    kw = {}
    if char is not None:
        kw['character'] = char
    if exclude is not None:
        kw['exclude_first'] = exclude
    got = util.indent(text, width, **kw)
    pre = width * (char if char is not None else ' ')
    lines = text.split('\n')
    rec.nontrivial(len(lines) > 1 and width > 0)
    want = '\n'.join(l if exclude and n == 0 else pre + l for n, l in enumerate(lines))
    expect_eq(got, want, 'indent(%r, %r, %r)' % (text, width, kw))


def check_duplicates(v, rec):
    got = util.remove_duplicates(iter(v) if len(v) % 2 else list(v))
    want = []
    for x in v:
        if x not in want:
            want.append(x)
    rec.nontrivial(len(want) < len(v))
    expect_eq(got, want, 'remove_duplicates(%r)' % (v,))
    # of equal elements, the first is kept
    expect_eq([repr(x) for x in got], [repr(x) for x in want], 'elements of %r' % (v,))


class Item(object):
    """Equal to others of the same value, with another appearance."""

    def __init__(self, value, label):
        self.value, self.label = value, label

    def __eq__(self, other):
        return isinstance(other, Item) and self.value == other.value

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.value)

    def __repr__(self):
        return '<%s>' % self.label


def check_equal_items(v, rec):
    items = [Item(value, n if distinct else 'same') for n, (value, distinct) in enumerate(v)]
    want = []
    for x in items:
        if x not in want:
            want.append(x)
    got = util.remove_duplicates(list(items))
    rec.nontrivial(len(want) < len(items))
    expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
           'remove_duplicates kept {0} of {1}', got, [(i.value, i.label) for i in items])


FLAGS = ['-v', '--verbose', '-d', '--debug', '--no-color', '--pdb']


def check_flags(v, rec):
    argv, environ = v
    rec.nontrivial(bool(argv))
    was = util.pdb_enabled()
    with Console(False, False, True):
        for k in environ:
            os.environ[k] = '1'
        try:
            parser = argparse.ArgumentParser(add_help=False)
            add_global_arguments(parser)
            handle_global_arguments(parser.parse_args(argv))
            expect_eq(log_utils.is_verbose(), '-v' in argv or '--verbose' in argv, 'verbose')
            expect_eq(log_utils.is_debug(),
                      '-d' in argv or '--debug' in argv or 'XYLEM_DEBUG' in environ, 'debug')
            expect_eq(util.pdb_enabled(), '--pdb' in argv or 'XYLEM_PDB' in environ, 'pdb')
            for key in CODES:
                expect_eq(terminal_color.ansi(key), seq(key, '--no-color' not in argv),
                          'ansi(%r)' % key)
        finally:
            for k in environ:
                del os.environ[k]
            util.enable_pdb(was)


ENCODINGS = ['utf-8', 'utf-16', 'latin-1', 'ascii', 'utf-8-sig', 'cp1252']
LINES = st.one_of(ANY, st.lists(st.sampled_from(['', 'a', '  b', 'é', '\r', '\t', '\x0b', '\x85']),
                                max_size=6).map('\n'.join))

RULES['X03'] = ('a case is non-trivial if the text is not empty (messages), combines several '
                'annotations (fmt), contains @ (sanitize), non-ASCII characters (text), several lines '
                '(indent) or duplicates')
SUBS['X03'] = [
    Sub('messages', calls, check_messages, quick=1200, qshards=2, examples=[
        dict(state=[verbose, debug, colors], ops=[
            ('call', name, ('text', 'message'), target, 'default', 1 + n) for name in FUNCS for n in (0, 1)
            for target in ('default', 'none', 'file', 'false file', 'out', 'err')])
        for verbose in (False, True) for debug in (False, True) for colors in (False, True)]),
    Sub('error exits', lambda: st.tuples(MESSAGES, st.booleans()), check_exit, quick=40),
    Sub('fmt', template, check_fmt, quick=800),
    Sub('ansi', lambda: st.lists(st.booleans(), min_size=1, max_size=5), check_ansi, quick=60),
    Sub('sanitize', lambda: st.tuples(st.text(st.one_of(
        st.sampled_from('@@@!/_|a '), st.characters(blacklist_categories=('Cs',))).filter(
            lambda c: c not in '{}'), max_size=10), st.booleans()), check_sanitize, quick=500),
    Sub('text', lambda: st.tuples(ANY, st.binary(max_size=12), st.sampled_from(
        ENCODINGS)), check_text, quick=500, examples=[
            (a + x + b, raw, enc) for x in SPECIAL for a, b, raw in (
                ('', '', b'\xef\xbb\xbf\xef\xbb\xbf'), (x, 'a', b'\xef\xbb\xbfx'),
                ('a', '', b'x\xff\r\n'), ('a ', ' b', b'\x00'))
            for enc in ENCODINGS]),
    Sub('objects', OBJECTS, check_objects, quick=300),
    Sub('indent', lambda: st.tuples(LINES, st.integers(0, 9), st.sampled_from(
        [None, ' ', '-', '\t', '> ']), st.sampled_from([None, True, False])), check_indent, quick=400),
    Sub('duplicates', lambda: st.lists(st.sampled_from(
        ['a', 'b', 'c', 'd', 1, 2, 'é', '', None, 1.0, True, 0, False, 0.0, 'A', '1', (1,), (True,), b'a']),
        max_size=12), check_duplicates, quick=300),
    Sub('equal elements', lambda: st.lists(st.tuples(st.integers(0, 3), st.booleans()), max_size=8),
        check_equal_items, quick=150),
    Sub('flags', lambda: st.tuples(st.lists(st.sampled_from(FLAGS), max_size=4), st.lists(
        st.sampled_from(['XYLEM_DEBUG', 'XYLEM_PDB']), unique=True)), check_flags, quick=100),
]

# ------------------------------------------------------------------------ X04

PYTHON = sys.executable
CODE = ('import sys\n'
        'o, e, s = sys.argv[1:4]\n'
        'sys.stdout.buffer.write(bytes.fromhex(o)); sys.stdout.flush()\n'
        'sys.stderr.buffer.write(bytes.fromhex(e)); sys.stderr.flush()\n'
        'sys.exit(int(s))\n')
SH = '/bin/sh'


@st.composite
def process(draw):
    texts = st.one_of(ANY.map(lambda t: t.encode('utf-8')), st.binary(max_size=10),
                      st.sampled_from([b'', b'x\n', b'a' * 100000, b'\xff\xfe']))
    texts = st.one_of(texts, texts, texts, st.builds(
        lambda shift, char, n: b'a' * shift + char.encode('utf-8') * (n // len(char.encode('utf-8'))),
        st.integers(0, 3), st.sampled_from('é€\U0001f600'), st.sampled_from([5000, 70000, 140000])))
    return dict(out=draw(texts).hex(), err=draw(texts).hex(), status=draw(st.sampled_from(
        [0, 0, 1, 2, 126, 127, 128, 255, -9, -15, -1])))


def check_process(v, rec):
    with ctx.TempDir() as base:
        o, e = os.path.join(base, 'o'), os.path.join(base, 'e f')
        ctx.write(o, bytes.fromhex(v['out']))
        ctx.write(e, bytes.fromhex(v['err']))
        cmd = [SH, '-c', '/bin/cat "$1"; /bin/cat "$2" >&2; %s' % (
            'exit $3' if v['status'] >= 0 else 'kill $3 $$'), 'sh', o, e, str(v['status'])]
        out = bytes.fromhex(v['out']).decode('utf-8', 'replace')
        err = bytes.fromhex(v['err']).decode('utf-8', 'replace')
        rec.nontrivial(bool(out) and bool(err))
        rec.event('status %d' % v['status'])
        with quiet() as (so, se):
            expect_eq(util.read_stdout(cmd), out, 'read_stdout')
            expect_eq(tuple(util.read_stdout_err(cmd)), (out, err, v['status']), 'read_stdout_err')
        expect_eq((so.getvalue(), se.getvalue()), ('', ''), 'own output')


def check_installed(v, rec):
    """Programs are found by name on the path or by path."""
    kind, status, by_path = v
    with ctx.TempDir() as base:
        path = os.path.join(base, 'prog')
        if kind == 'directory':
            os.mkdir(path)
        elif kind != 'absent':
            ctx.write(path, '#!%s\necho output; echo error >&2\n/bin/cat\nexit %d\n' % (
                os.path.join(base, 'gone') if kind == 'no interpreter' else '/bin/sh', status))
            os.chmod(path, 0o644 if kind == 'not executable' else 0o755)
        old = os.environ['PATH']
        os.environ['PATH'] = old + os.pathsep + base
        # something waits on the standard input
        stdin = os.dup(0)
        r, w = os.pipe()
        os.write(w, b'for xylem\n')
        os.close(w)
        os.dup2(r, 0)
        os.close(r)
        try:
            with quiet() as (so, se):
                got = util.is_program_installed(path if by_path else 'prog')
            left = os.read(0, 100)
        finally:
            os.environ['PATH'] = old
            os.dup2(stdin, 0)
            os.close(stdin)
        rec.event(kind)
        rec.nontrivial(kind != 'absent')
        expect_eq(got, kind == 'program', 'is_program_installed of %s' % kind)
        expect_eq(left, b'for xylem\n', 'rest of the standard input')
        expect_eq((so.getvalue(), se.getvalue()), ('', ''), 'own output')


class Stop(Exception):
    pass


# what the body of a context may raise
RAISED = [Stop, SystemExit, KeyboardInterrupt, GeneratorExit, FileNotFoundError, OSError, StopIteration,
          TypeError]


def thrown(n):
    e = RAISED[n]('thrown here')
    e.is_thrown = True
    return e


def is_thrown(e):
    return getattr(e, 'is_thrown', False)


@st.composite
def nest(draw, depth=0):
    """Nested contexts, with what happens inside."""
    kind = draw(st.sampled_from(['cd', 'temp', 'io']))
    body = []
    for _ in range(draw(st.integers(0, 3 if depth < 3 else 1))):
        what = draw(st.sampled_from(['nest', 'file', 'print', 'raise', 'chdir', 'rmdir']
                                    if depth < 3 else ['file', 'print', 'raise', 'chdir']))
        body.append((what, draw(nest(depth + 1)) if what == 'nest' else
                     draw(st.integers(0, len(RAISED) - 1)) if what == 'raise' else None))
        if what == 'raise':
            break
    # how the directory is given, resp. whether the context is made before others are entered
    how = draw(st.sampled_from(['absolute', 'relative', 'removed', 'link']))
    early = draw(st.integers(0, 2)) == 2
    return (kind, draw(st.sampled_from(['', 'é', 'x-'])), body, how, early)


def nest_examples():
    """All pairs of contexts, made when entered or in advance, left normally or not."""
    for outer in ('cd', 'temp', 'io'):
        for inner in ('cd', 'temp', 'io'):
            for how in ('absolute', 'relative', 'removed', 'link'):
                for early in (False, True):
                    for end, after in [([], [])] + [
                            x for n in range(len(RAISED))
                            for x in (([('raise', n)], []), ([], [('raise', n)]))]:
                            yield (outer, '', [
                                ('print', None), ('nest', (inner, '', [('print', None)] + end, how,
                                                           early))] +
                                (after or [('print', None)]), how, False)


def here():
    try:
        return os.getcwd()
    except FileNotFoundError:
        return None


def make_context(node, base, state):
    """(context, target directory)"""
    kind, prefix, body, how, early = node
    target = None
    state['n'] += 1
    if kind == 'cd':
        target = os.path.join(base, 'd%d%s' % (state['n'], prefix))
        os.mkdir(target)
        arg = target
        if how == 'link':
            arg = os.path.join(base, 'l%d' % state['n'])
            os.symlink(target, arg)
        elif how == 'relative' and not early:
            arg = os.path.relpath(target)
        return util.change_directory(arg), target
    if kind == 'temp':
        return util.temporary_directory(prefix) if prefix else util.temporary_directory(), None
    return util.redirected_stdio(), None


def run_nest(node, base, state, rec, cm=None):
    kind, prefix, body, how, early = node
    cwd = os.getcwd()
    so, se = sys.stdout, sys.stderr
    made = []
    printed = []
    raised = False
    captured = None
    cm, target = cm or make_context(node, base, state)
    # contexts in the body that are made before this one is entered
    ready = dict((n, make_context(sub, base, state)) for n, (what, sub) in enumerate(body)
                 if what == 'nest' and sub[4])
    rec.event(kind)
    try:
        with cm as value:
            if kind == 'io':
                out, err = value
                captured = out, err
                expect(sys.stdout is out and sys.stderr is err, 'streams are not redirected')
                expect_eq(os.getcwd(), cwd, 'working directory')
            elif kind == 'cd':
                expect_eq(os.getcwd(), os.path.realpath(target), 'working directory')
            else:
                made.append(value)
                expect(os.path.isdir(value) and os.listdir(value) == [], 'no empty directory {}', value)
                expect_eq(os.path.realpath(value), os.getcwd(), 'working directory')
                expect(os.path.basename(value).startswith(prefix), 'prefix of {}', value)
                mode = os.stat(value).st_mode
                expect(mode & 0o777 == 0o700, 'temporary directory {} has mode {:o}', value, mode)
            if kind == 'cd' and how == 'removed':
                os.rmdir(target)
                rec.event('directory removed')
                body = [(w, x) for w, x in body if w in ('raise', 'print')]
            for n, (what, sub) in enumerate(body):
                if what == 'nest':
                    run_nest(sub, base, state, rec, ready.get(n))
                elif what == 'file' and kind != 'io':
                    ctx.write('file%d' % n, 'x')
                    if kind == 'temp':
                        os.makedirs(os.path.join(value, 'sub', str(n)))
                elif what == 'print' and kind == 'io':
                    print('é%d' % n)
                    sys.stderr.write('E%d\n' % n)
                    printed.append(n)
                elif what == 'chdir' and kind != 'io':
                    os.chdir(base)
                elif what == 'rmdir' and kind == 'temp':
                    os.chdir(base)
                    ctx.shutil.rmtree(value)
                    break
                elif what == 'raise':
                    raised = True
                    rec.event('raised in ' + kind)
                    raise thrown(sub)
    except BaseException as e:
        if not is_thrown(e):
            raise
        stopped = e
    else:
        stopped = None
    expect_eq(stopped is not None, raised or has_raise(kind, body), 'exception passes through')
    expect(sys.stdout is so and sys.stderr is se, 'streams are not restored')
    expect_eq(here(), cwd, 'working directory after %s' % kind)
    for m in made:
        expect(not os.path.exists(m), 'directory {} is left', m)
    if captured:
        want = (''.join('é%d\n' % n for n in printed), ''.join('E%d\n' % n for n in printed))
        got = tuple(c.getvalue() for c in captured)
        expect_eq(got, want, 'captured output')
    if stopped is not None:
        raise stopped


def has_raise(kind, body):
    for w, s in body:
        if w == 'raise' or (w == 'nest' and has_raise(s[0], [
                x for x in s[2] if not (s[0] == 'cd' and s[3] == 'removed') or x[0] != 'nest'])):
            return True
        if w == 'rmdir' and kind == 'temp':
            return False   # left right away
    return False


def check_nest(v, rec):
    with ctx.TempDir() as base:
        base = os.path.realpath(base)
        start = os.path.join(base, 'start')
        os.mkdir(start)
        old = os.getcwd()
        os.chdir(start)
        so, se = sys.stdout, sys.stderr
        before = set(os.listdir(ctx.tempfile.gettempdir()))
        try:
            try:
                run_nest(v, base, dict(n=0), rec)
            except BaseException as e:
                if not is_thrown(e):
                    raise
                rec.event('left by exception')
            expect_eq(set(os.listdir(ctx.tempfile.gettempdir())), before, 'temporary directories')
        finally:
            sys.stdout, sys.stderr = so, se
            os.chdir(old)
    rec.nontrivial(bool(v[2]))


def check_tempdir(v, rec):
    n, where = v
    with ctx.TempDir() as base:
        paths = [util.create_temporary_directory(base) if where else util.create_temporary_directory()
                 for _ in range(n)]
        rec.nontrivial(n > 1)
        try:
            expect_eq(len(set(paths)), n, 'distinct directories')
            for p in paths:
                expect(os.path.isdir(p) and not os.listdir(p), 'no empty directory {}', p)
                expect_eq(os.path.realpath(os.path.dirname(p)), os.path.realpath(
                    base if where else ctx.tempfile.gettempdir()), 'parent')
                expect(os.path.basename(p).startswith('xylem_'), 'name {}', p)
                expect_eq(os.stat(p).st_mode & 0o077, 0, 'access for others')
        finally:
            for p in paths:
                os.rmdir(p)


@st.composite
def reuse_case(draw):
    """Uses of a few contexts, some of them several times, at different places."""
    contexts = draw(st.lists(st.sampled_from(['cd', 'temp', 'io']), min_size=1, max_size=2))
    return dict(contexts=contexts, uses=draw(st.lists(st.tuples(
        st.integers(0, 1), st.integers(0, 2), st.one_of(st.just(0), st.integers(0, len(RAISED)))),
        min_size=2, max_size=5)))


def check_reuse(v, rec):
    old = os.getcwd()
    so, se = sys.stdout, sys.stderr
    with ctx.TempDir() as base:
        base = os.path.realpath(base)
        for n in range(3):
            os.mkdir(os.path.join(base, 's%d' % n))
        made = []
        for n, kind in enumerate(v['contexts']):
            target = os.path.join(base, 'target%d' % n)
            os.mkdir(target)
            made.append(util.change_directory(target) if kind == 'cd' else
                        util.temporary_directory('t-') if kind == 'temp' else
                        util.redirected_stdio())
        seen = set()
        try:
            for i, start, raises in v['uses']:
                i %= len(made)
                kind = v['contexts'][i]
                start = os.path.join(base, 's%d' % start)
                os.chdir(start)
                # the streams differ as well
                o, e = io.StringIO(), io.StringIO()
                sys.stdout, sys.stderr = o, e
                path = captured = None
                try:
                    with made[i] as value:
                        if kind == 'cd':
                            expect_eq(os.getcwd(), os.path.join(base, 'target%d' % i), 'directory')
                        elif kind == 'temp':
                            path = value
                            expect_eq((os.getcwd(), os.listdir('.')), (os.path.realpath(value), []),
                                      'directory')
                            expect(value not in seen, 'directory {} again', value)
                            seen.add(value)
                            ctx.write('file', 'x')
                        else:
                            captured = value
                        print('text')
                        sys.stderr.write('error')
                        if raises:
                            raise thrown(raises - 1)
                except BaseException as x:
                    if not is_thrown(x):
                        raise
                expect_eq(os.getcwd(), start, 'directory after %s' % kind)
                expect(sys.stdout is o and sys.stderr is e, 'streams are not restored')
                if path:
                    expect(not os.path.exists(path), 'directory {} is left', path)
                want = ('text\n', 'error')
                if kind == 'io':
                    expect_eq(tuple(c.getvalue() for c in captured), want, 'captured output')
                    want = ('', '')
                expect_eq((o.getvalue(), e.getvalue()), want, 'printed output')
        finally:
            sys.stdout, sys.stderr = so, se
            os.chdir(old)
    used = [i % len(made) for i, _, _ in v['uses']]
    rec.event('used up to %d times' % max(used.count(i) for i in used))
    rec.nontrivial(len(set(used)) < len(used))


def check_gone(v, rec):
    """Contexts whose surrounding directory is removed."""
    kinds, files, raises = v
    old = os.getcwd()
    with ctx.TempDir() as base:
        base = os.path.realpath(base)
        outer, target = os.path.join(base, 'outer'), os.path.join(base, 'target')
        os.mkdir(outer)
        os.mkdir(target)
        os.chdir(outer)
        made = []

        def enter(kinds):
            if not kinds:
                os.rmdir(outer)
                if raises:
                    raise thrown(raises - 1)
                return
            with (util.temporary_directory('x') if kinds[0] == 'temp' else
                  util.change_directory(target) if kinds[0] == 'cd' else
                  util.redirected_stdio()) as value:
                if kinds[0] == 'temp':
                    made.append(value)
                    for n in range(files):
                        os.makedirs(os.path.join(value, 'd%d' % n, 'e'))
                enter(kinds[1:])
        stopped = False
        try:
            try:
                enter(kinds)
            except BaseException as e:
                if not is_thrown(e):
                    raise
                stopped = True
            expect_eq(stopped, bool(raises), 'exception passes through')
            for m in made:
                expect(not os.path.exists(m), 'directory {} is left', m)
        finally:
            os.chdir(old)
            for m in made:
                ctx.shutil.rmtree(m, ignore_errors=True)
    rec.nontrivial('temp' in kinds)


RULES['X04'] = ('a case is non-trivial if the process writes to both streams, the program exists, '
                'something happens within the context, a context is used several times, or several directories are made')
SUBS['X04'] = [
    Sub('processes', process, check_process, quick=120, qshards=2, examples=[
        dict(out=(b'a' * k + c.encode('utf-8') * 50000).hex(), err=(b'a' * k + c.encode('utf-8') * n).hex(),
             status=0) for c in 'é€\U0001f600' for k in (0, 1) for n in (0, 50000)] + [
        dict(out=o.encode('utf-8').hex(), err=e.encode('utf-8').hex(), status=s)
        for c in list(SPECIAL) + ['\r\n', '\n\n', ' \n', '\x1b[0m', '\t', '\\n', '%s {}']
        for o, e, s in ((c, c + 'x', 0), ('x' + c + 'y' + c, 'x' + c, -9), (c + c, c + c + 'a', 1))]),
    Sub('programs', lambda: st.tuples(st.sampled_from(['absent', 'program', 'not executable']),
                                      st.integers(0, 255), st.booleans()), check_installed,
        quick=60, examples=[(kind, n, by) for kind in ('program', 'absent', 'not executable',
                                                       'directory', 'no interpreter')
                            for n in (0, 1, 2, 126, 127, 128, 130, 255) for by in (False, True)]),
    Sub('contexts', nest, check_nest, quick=400, qshards=2, examples=nest_examples()),
    Sub('removed surroundings', st.tuples(st.lists(st.sampled_from(['temp', 'cd', 'io']), min_size=1, max_size=3),
                                          st.integers(0, 2), st.integers(0, len(RAISED))), check_gone, quick=60),
    Sub('reused contexts', reuse_case, check_reuse, quick=100),
    Sub('temporary directories', lambda: st.tuples(st.integers(1, 5), st.booleans()), check_tempdir,
        quick=40),
]
for _sub in SUBS['X03']:        # is about the output
    _sub.talk = False
