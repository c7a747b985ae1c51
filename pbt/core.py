"""Sub-checks, recording of what was generated, and the hypothesis driver."""
import ast
import collections
import contextlib
import copy
import hashlib
import io
import locale
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
import zlib

from . import env


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The harness itself is broken."""


class Stuck(BaseException):
    """A case has not finished in CASE_SECONDS (cases take milliseconds)."""


CASE_SECONDS = 120


def known_findings(pid):
    """id -> text of the genuine defects that are recorded, not repaired."""
    res = collections.OrderedDict()
    path = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('known: property=%s ' % pid):
                head, text = line.rstrip('\n').split(' :: ', 1)
                res[head.split('id=', 1)[1].strip()] = text
    return res


def is_known(pid, ident):
    return ident in known_findings(pid)


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*[short(a) for a in args]) if args else msg)


def expect_eq(got, want, what):
    if not (got == want):
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))


def short(x, n=700):
    r = x if isinstance(x, str) else repr(x)
    return r if len(r) <= n else r[:n] + '...'


class Rec(object):
    """Records one sub-check's cases."""

    def __init__(self):
        self.evaluations = 0
        self.labels = collections.Counter()
        self.distinct = set()
        self.samples = []
        self._sample_labels = set()
        self._cur_labels = None
        self._nontrivial = False
        self.extra = collections.Counter()

    def begin(self):
        self.evaluations += 1
        self._cur_labels = set()
        self._nontrivial = False

    def event(self, label):
        self._cur_labels.add(label)

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def count(self, name, n=1):
        """Additional measured counts, e.g. crash points per case."""
        self.extra[name] += n

    def end(self, value):
        for l in self._cur_labels:
            self.labels[l] += 1
        if self._nontrivial:
            r = repr(value)
            h = hashlib.sha1(r.encode('utf-8', 'surrogatepass')).digest()[:10]
            if h not in self.distinct:
                self.distinct.add(h)
                key = frozenset(self._cur_labels)
                if len(self.samples) < 4 and len(r) < 1500 and \
                        len(self.distinct) % 7 == 3 and key not in self._sample_labels:
                    self._sample_labels.add(key)
                    self.samples.append(r)
                elif not self.samples and len(self.distinct) == 1:
                    self.samples.append(short(r, 1500))


class Sub(object):
    """One sub-check of a property.

    :param strategy: hypothesis strategy (or function returning one) of
        plain literal values
    :param check: function of (value, rec), raising Violation
    :param quick: number of examples in the quick tier
    :param thorough: number of examples per shard in the thorough tier
    :param examples: values that are always tried first, spread over the shards
    :param talk: whether to turn on verbose and debug output in some cases
    """

    def __init__(self, name, strategy, check, quick=300, thorough=None,
                 shards=4, examples=(), qshards=1, talk=True):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.qshards = qshards
        self.examples = list(examples)
        self.talk = talk


def in_xylem(tb):
    pkg = os.path.join(env.REPO, 'xylem') + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, value, rec):
    """Run one case; unexpected exceptions out of xylem are violations."""
    rec.begin()
    signal.signal(signal.SIGALRM, _stuck)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS, 5)
    try:
        n = zlib.crc32(repr(value).encode('utf-8', 'surrogatepass')) % 11
        with surroundings(n if sub.talk or n > 3 else 0):
            sub.check(copy.deepcopy(value), rec)
            if n == 6:          # the same once more
                sub.check(copy.deepcopy(value), rec)
    except Violation:
        raise
    except Exception as e:
        _reraise(e)
    except SystemExit as e:
        _reraise(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        rec.end(value)


@contextlib.contextmanager
def surroundings(n):
    """Circumstances that must not matter.

    Verbose or debug output, no colours, a locale without UTF-8, another working
    directory, which has to stay empty, another time zone, or other arguments of
    the process.
    """
    from xylem import log_utils, terminal_color
    was = log_utils.is_verbose(), log_utils.is_debug(), locale.setlocale(locale.LC_CTYPE), os.getcwd()
    other, tz, argv = None, os.environ.get('TZ'), sys.argv
    with quiet() if n in (1, 2, 3) else contextlib.nullcontext():
        try:
            if n in (1, 2, 3):
                log_utils.enable_verbose(n != 3)
                log_utils.enable_debug(n == 2)
            if n == 3:
                terminal_color.disable_ANSI_colors()
            if n == 4:
                locale.setlocale(locale.LC_CTYPE, 'C')
            if n == 5:
                other = tempfile.mkdtemp(prefix='cwd-')
                os.chdir(other)
            if n == 7:
                os.environ['TZ'] = 'XXX-5:30'
                time.tzset()
            if n == 8:
                sys.argv = ['-x', '--no-such-option=\u00e9', 'update', '--help']
            yield
            if other and os.listdir(other):
                raise Violation('files in the working directory: %s' % os.listdir(other))
        finally:
            if n in (1, 2, 3):
                log_utils.enable_verbose(was[0])
                log_utils.enable_debug(was[1])
            if n == 3:
                terminal_color.enable_ANSI_colors()
            if n == 4:
                locale.setlocale(locale.LC_CTYPE, was[2])
            if n == 7:
                if tz is None:
                    os.environ.pop('TZ', None)
                else:
                    os.environ['TZ'] = tz
                time.tzset()
            if n == 8:
                sys.argv = argv
            if other:
                os.chdir(was[3])
                shutil.rmtree(other, ignore_errors=True)


def _stuck(signum, frame):
    """Give up on a case; raised again in case something swallows it."""
    where = ''.join(traceback.format_stack(frame)[-6:])
    pkg = os.path.join(env.REPO, 'xylem') + os.sep
    while frame is not None:
        if os.path.abspath(frame.f_code.co_filename).startswith(pkg):
            raise Stuck('not finished after %d s\n%s' % (CASE_SECONDS, where))
        frame = frame.f_back
    raise HarnessError('not finished after %d s\n%s' % (CASE_SECONDS, where))


def _reraise(e):
    import hypothesis
    if isinstance(e, (hypothesis.errors.HypothesisException,
                      hypothesis.errors.UnsatisfiedAssumption, HarnessError)):
        raise e
    if in_xylem(e.__traceback__):
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        raise Violation('unexpected %s: %s\n%s' % (type(e).__name__, e, tb)) from e
    if odd_outcome(e):
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        raise Violation('the check cannot make sense of the outcome: %s: %s\n%s' % (
            type(e).__name__, e, tb)) from e
    raise e


def odd_outcome(e):
    """Whether an exception of a check itself is due to what it was given.

    The checks pass on the unchanged tree, so these come from outcomes of an
    unexpected form, such as text that is not YAML or a missing file.  Names of
    xylem that are gone are no such thing; neither is a lack of resources.
    """
    if isinstance(e, AttributeError):
        return not isinstance(e.obj, types.ModuleType)
    return isinstance(e, (TypeError, ValueError, LookupError, FileNotFoundError, FileExistsError,
                          NotADirectoryError, IsADirectoryError, AssertionError, RecursionError)) \
        or type(e).__module__.split('.')[0] == 'yaml'


def derive_seed(*parts):
    h = hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def literal(value):
    """Textual form of a value from which it can be read back."""
    r = repr(value)
    try:
        if ast.literal_eval(r) == value:
            return r
    except (ValueError, SyntaxError):
        pass
    raise HarnessError('value is not a literal: %s' % short(r))


def drive(sub, seed, max_examples, rec, shard=0, nshards=1):
    """Search for a failing case; returns (value, message) or None."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60
    state = {}

    def remember(value, e):
        state['value'] = value
        state['msg'] = str(e)

    for value in sub.examples[shard::nshards]:
        try:
            run_case(sub, value, rec)
        except (Violation, Stuck) as e:
            remember(value, e)
            return state['value'], state['msg']

    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy

    @hypothesis.seed(seed)
    @settings(max_examples=max_examples, database=None, deadline=None,
              phases=[Phase.generate, Phase.shrink], print_blob=False,
              report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow])
    @given(strategy)
    def test(value):
        try:
            run_case(sub, value, rec)
        except (Violation, Stuck) as e:
            remember(value, e)
            raise

    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            test()
    except (Violation, Stuck):
        return state['value'], state['msg']
    except hypothesis.errors.Flaky as e:
        # the failing value did not fail again when replayed
        for _ in range(5):
            try:
                run_case(sub, state['value'], rec)
            except Violation as v:
                return state['value'], str(v)
        raise HarnessError('flaky: %s (%s)' % (state.get('msg'), e))
    return None


@contextlib.contextmanager
def quiet():
    """Capture what the code under test prints; yields (out, err)."""
    out, err = io.StringIO(), io.StringIO()
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        yield out, err
    finally:
        sys.stdout, sys.stderr = so, se
