"""S07: downloading."""
import http.client
import errno
import io
import os
import socket
import ssl
import time
import urllib.error
import urllib.request
from email.message import Message

from hypothesis import strategies as st

from ..core import HarnessError, Sub, expect, expect_eq, fail, quiet

SUBS, RULES, LEVEL = {}, {}, {}

_sleeps = None
_real_sleep = time.sleep


def _sleep(seconds):
    if _sleeps is None:
        return _real_sleep(seconds)
    _sleeps.append(seconds)


# before xylem is imported, however it may bind the function
time.sleep = _sleep

from xylem.exception import XylemError  # noqa
from xylem.load_url import DownloadFailure, load_url  # noqa


class TooMany(BaseException):
    pass


class Body(io.BytesIO):
    def __init__(self, data, error=None):
        io.BytesIO.__init__(self, data)
        self.error = error

    def _fail(self):
        if self.error is not None:
            raise self.error

    def read(self, *args):
        self._fail()
        return io.BytesIO.read(self, *args)

    def readinto(self, b):
        self._fail()
        return io.BytesIO.readinto(self, b)

    def readline(self, *args):
        self._fail()
        return io.BytesIO.readline(self, *args)

    def readlines(self, *args):
        self._fail()
        return io.BytesIO.readlines(self, *args)


OPEN_ERRORS = {
    'urlerror-timeout': lambda: urllib.error.URLError(socket.timeout('timed out')),
    'timeout': lambda: socket.timeout('timed out'),
    'urlerror-etimedout': lambda: urllib.error.URLError(OSError(errno.ETIMEDOUT, 'Connection timed out')),
    'etimedout': lambda: OSError(errno.ETIMEDOUT, 'Connection timed out'),
    'refused': lambda: urllib.error.URLError(ConnectionRefusedError(111, 'refused')),
    'gaierror': lambda: urllib.error.URLError(socket.gaierror(-2, 'Name not known')),
    'urlerror-reset': lambda: urllib.error.URLError(ConnectionResetError(104, 'reset')),
    'urlerror-aborted': lambda: urllib.error.URLError(ConnectionAbortedError(103, 'aborted')),
    'urlerror-pipe': lambda: urllib.error.URLError(BrokenPipeError(32, 'Broken pipe')),
    'urlerror-again': lambda: urllib.error.URLError(socket.gaierror(-3, 'Temporary failure')),
    'urlerror-eagain': lambda: urllib.error.URLError(BlockingIOError(11, 'Try again')),
    'urlerror-ssl': lambda: urllib.error.URLError(ssl.SSLError(1, 'handshake failure')),
    'urlerror-disconnected': lambda: urllib.error.URLError(http.client.RemoteDisconnected('closed')),
    'urlerror-unreachable': lambda: urllib.error.URLError(OSError(errno.ENETUNREACH, 'unreachable')),
    'reason-text': lambda: urllib.error.URLError('timed out'),
    'reason-oserror': lambda: urllib.error.URLError(OSError(113, 'No route to host')),
    'reset': lambda: ConnectionResetError(104, 'reset'),
    'oserror': lambda: OSError(5, 'I/O error'),
    'disconnected': lambda: http.client.RemoteDisconnected('closed'),
    'badstatus': lambda: http.client.BadStatusLine('x'),
    'linetoolong': lambda: http.client.LineTooLong('header line'),
    'invalidurl': lambda: http.client.InvalidURL('nonnumeric port'),
    'valueerror': lambda: ValueError('invalid'),
    'unicode': lambda: UnicodeEncodeError('ascii', 'é', 0, 1, 'ordinal not in range'),
}
READ_ERRORS = {
    'read-timeout': lambda: socket.timeout('timed out'),
    'read-incomplete': lambda: http.client.IncompleteRead(b'ab', 3),
    'read-reset': lambda: ConnectionResetError(104, 'reset'),
    'read-oserror': lambda: OSError(5, 'I/O error'),
}
RETRIED = {'urlerror-timeout', 'timeout', 'read-timeout', 'urlerror-etimedout', 'etimedout', 503}
# answered by a redirection before the outcome
TARGETS = ['http://other.invalid/b.yaml', 'https://x/y', 'http://x/y/', 'http://x:80/?a=b', 'HTTPS://X/', '/z', 'c']
CODES = [503, 404, 500, 502, 504, 403, 401, 408, 429, 400, 505, 410]


class Server(urllib.request.HTTPHandler):
    def __init__(self, outcomes, final, headers=(), redirections=()):
        urllib.request.HTTPHandler.__init__(self)
        self.headers = list(headers)
        self.outcomes = list(outcomes)
        self.final = final
        self.redirections = list(redirections)
        self.redirected = 0
        self.timeouts = []
        self.urls = []
        self.errors = []

    def _open(self, req):
        self.timeouts.append(req.timeout)
        if self.redirected:
            self.redirected -= 1
            steps = self.steps
        else:
            self.urls.append(req.full_url)
            if len(self.urls) > 60:
                raise TooMany()
            steps = self.steps = list(self.redirections.pop(0)) if self.redirections else []
        if steps:
            self.redirected += 1
            code, target = steps.pop(0)
            msg = Message()
            msg['Location'] = target
            r = urllib.request.addinfourl(Body(b'redirected'), msg, req.full_url, code)
            r.msg = 'moved'
            return r
        o = self.outcomes.pop(0) if self.outcomes else self.final
        msg = Message()
        for name, value in self.headers:
            msg[name] = value
        error = None
        data, code = b'', 200
        if isinstance(o, tuple):
            data, ctype = o
            if ctype is not None:
                msg['Content-Type'] = ctype
        elif isinstance(o, int):
            code = o
            data = b'failure page'
        elif o in OPEN_ERRORS:
            error = OPEN_ERRORS[o]()
            self.errors.append(error)
            raise error
        else:
            error = READ_ERRORS[o]()
            self.errors.append(error)
        if code != 200:
            self.errors.append(code)
        r = urllib.request.addinfourl(Body(data, error), msg, req.full_url, code)
        r.msg = 'reason'
        return r

    def http_open(self, req):
        return self._open(req)

    https_open = http_open


CTYPES = [None, '', 'text/plain', 'text/yaml; charset=utf-8', 'text/plain; charset=latin-1',
          'text/plain;charset="utf-16"', 'text/plain; CHARSET=UTF-8', 'text/plain; charset=nope',
          'text/plain; charset=ascii', 'text/plain; charset=""', 'text/html; a=b; charset=cp1252',
          'text/plain; charset=hex', 'text/plain; charset=utf-32-le', 'application/octet-stream',
          'text/plain; charset=shift_jis', 'text/plain; charset=utf8; x=y', 'text/plain; charset=idna',
          'text/plain; charset=undefined', 'text/plain; charset=x\x01y']
CHARSETS = dict(zip(CTYPES, ['utf-8', 'utf-8', 'utf-8', 'utf-8', 'latin-1', 'utf-16', 'utf-8', None,
                             'ascii', None, 'cp1252', None, 'utf-32-le', 'utf-8', 'shift_jis',
                             'utf-8', None, None, None]))
for _type, _charset in [
        ('text/plain; charset="latin-1"', 'latin-1'), ("text/plain; Charset=Latin-1", 'latin-1'),
        ('TEXT/PLAIN;CHARSET="UTF-16-LE";x=y', 'utf-16-le'), ('text/plain;charset=latin-1;q=1', 'latin-1'),
        ('text/plain; x="charset=utf-16"; charset=cp1252', 'cp1252'), ('text/plain; charset = latin-1', None),
        ('text/plain;  charset=latin-1 ', 'latin-1'), ('text/plain; xcharset=utf-16; charset=ascii', 'ascii'),
        ('text/plain; charset="iso-8859-1" ; format=flowed', 'latin-1'), ('text/plain;', 'utf-8'),
        ('text/plain; format=flowed', 'utf-8'), ('text/plain; x="; charset=utf-16"', 'utf-8'),
        ('charset=latin-1', 'utf-8')]:
    if _charset is not None:
        CTYPES.append(_type)
        CHARSETS[_type] = _charset
texts = st.text(max_size=12)
bodies = st.one_of(
    st.binary(max_size=12), texts.map(lambda s: s.encode('utf-8', 'replace')),
    texts.map(lambda s: s.encode('utf-16', 'replace')),
    st.text('aé€あ\r\n\ufeff', max_size=8).map(lambda s: s.encode('utf-8')),
    st.text('aé€あ\r\n', max_size=8).map(lambda s: s.encode('utf-8')[:-1]))
bodies = st.one_of(bodies, bodies, bodies, bodies, bodies, bodies, bodies, st.tuples(
    st.just('big'), st.sampled_from([1000, 5000, 9000, 20000, 70000, 140000]), st.sampled_from('aé€\U0001f600\n'),
    st.integers(0, 3), st.sampled_from([b'', b'\xe2', b'x', '\u20ac'.encode('utf-8')])))


def body(b):
    return big(*b[1:]) if isinstance(b, tuple) else b




def big(size, char, shift, end):
    """A long body in UTF-8 whose characters are spread over block boundaries."""
    c = char.encode('utf-8')
    return b'a' * shift + c * ((size - shift) // len(c)) + end


success = st.tuples(bodies, st.one_of(st.sampled_from(CTYPES[:4]), st.sampled_from(CTYPES)))
retried = st.sampled_from(sorted(RETRIED, key=str))
outcome = st.one_of(retried, retried, retried, success, st.sampled_from(CODES),
                    st.sampled_from(sorted(OPEN_ERRORS)), st.sampled_from(sorted(READ_ERRORS)))


# headers which do not change the meaning of a response or the configured waiting time
HEADERS = [('Retry-After', '3'), ('Retry-After', '0'), ('Retry-After', '-1'), ('Retry-After', '86400'),
           ('Retry-After', 'Fri, 31 Dec 1999 23:59:59 GMT'), ('Retry-After', 'soon'),
           ('retry-after', '2.5'), ('Connection', 'close'), ('Date', 'Fri, 31 Dec 1999 23:59:59 GMT'),
           ('Expires', '0'), ('Cache-Control', 'no-store'), ('Server', 'utf-16'),
           ('X-Content-Type', 'text/plain; charset=utf-16'), ('Content-Language', 'latin-1'),
           ('Location', 'http://other.invalid/'), ('Link', '<http://other.invalid/>; rel=canonical'),
           ('Last-Modified', 'nonsense'), ('ETag', '"a"'), ('X-RateLimit-Reset', '9')]


URLS = ['HTTP://x/y', 'Https://EXAMPLE.org/A.yaml', 'http://[::1]:8080/a', 'http://u:p@x/y', 'http://x/a%20b%2F%C3%A9',
        'http://x/?q=http://z/&r=%7B%7D', 'http://x//y/../z', 'http://x/y.yaml?token=a:b@c', 'http://x/{0}%s{}',
        'http://x/503', 'http://x/~user/a+b;c=d,e', 'http://127.0.0.1/y', 'http://x/' + 'y' * 3000]


@st.composite
def case(draw):
    return dict(
        redirections=draw(st.one_of(st.just([]), st.lists(st.lists(st.tuples(
            st.sampled_from([301, 302, 303, 307]), st.sampled_from(TARGETS)), max_size=2), max_size=4))),
        headers=draw(st.one_of(st.just([]), st.lists(st.sampled_from(HEADERS), min_size=1, max_size=3))),
        outcomes=draw(st.one_of(st.lists(outcome, max_size=5),
                                st.lists(retried, max_size=5).flatmap(
                                    lambda l: outcome.map(lambda o: l + [o])))),
        final=draw(st.one_of(success, retried, outcome)),
        retry=draw(st.one_of(st.none(), st.integers(-3, 5))),
        period=draw(st.one_of(st.none(), st.sampled_from([0, 1, 0.5, 7]))),
        timeout=draw(st.one_of(st.none(), st.sampled_from([1, 10, 0.25, 33]))),
        url=draw(st.sampled_from(['http://x/y', 'https://example.org/a.yaml?b=1#f', 'http://x:80'] + URLS)))


def check_load(v, rec):
    global _sleeps
    v = dict(v, outcomes=[(body(o[0]), o[1]) if isinstance(o, tuple) else o for o in v['outcomes']],
             final=(body(v['final'][0]), v['final'][1]) if isinstance(v['final'], tuple) else v['final'])
    kw = {}
    for arg, key in (('retry', 'retry'), ('retry_period', 'period'), ('timeout', 'timeout')):
        if v[key] is not None:
            kw[arg] = v[key]
    retry = max(0, kw.get('retry', 2))
    # reference
    seq = list(v['outcomes'])
    attempts = 0
    while True:
        o = seq.pop(0) if seq else v['final']
        attempts += 1
        if o in RETRIED and attempts <= retry:
            continue
        break
    server = Server(v['outcomes'], v['final'], v.get('headers', ()), v.get('redirections', ()))
    opener = urllib.request.OpenerDirector()
    for h in (server, urllib.request.HTTPDefaultErrorHandler(),
              urllib.request.HTTPErrorProcessor(), urllib.request.HTTPRedirectHandler(), urllib.request.UnknownHandler()):
        opener.add_handler(h)
    old = urllib.request._opener
    urllib.request.install_opener(opener)
    _sleeps = []
    failure = result = None
    try:
        with quiet():
            result = load_url(v['url'], **kw)
    except DownloadFailure as e:
        failure = e
    except TooMany:
        fail('more than 60 requests for retry=%r' % kw.get('retry', 2))
    finally:
        sleeps, _sleeps = _sleeps, None
        urllib.request.install_opener(old)
    expect_eq(len(server.urls), attempts, 'number of requests')
    expect_eq(sleeps, [kw.get('retry_period', 1)] * (attempts - 1), 'waiting times')
    expect_eq(set(server.timeouts), {kw.get('timeout', 10)}, 'timeouts passed')
    expect_eq(set(server.urls), {v['url']}, 'requested urls')
    rec.nontrivial(attempts > 1 or failure is not None)
    rec.event('retries: %d' % (attempts - 1))
    if len(server.timeouts) > attempts:
        rec.event('redirected')
    if isinstance(o, tuple):
        data, ctype = o
        charset = CHARSETS[ctype]
        if charset is not None:
            if failure is not None:
                fail('DownloadFailure %r for a successful response' % str(failure))
            want = data.decode(charset, 'replace')
            expect(type(result) is str, 'result is no text: {}', result)
            expect_eq(result, want, 'text for Content-Type %r' % (ctype,))
            rec.event('success')
            return
        if ctype.endswith('idna') and failure is None:
            rec.event('odd codec')      # pure ASCII may be decoded
            expect_eq(result, data.decode('idna', 'strict'), 'text for idna')
            return
        rec.event('undecodable')
        if ctype.endswith('""') and failure is None:
            # a parser may take an empty charset as absent
            expect_eq(result, data.decode('utf-8', 'replace'), 'text for empty charset')
            return
        if not data and result == '':
            return          # nothing to decode
        expect(failure is not None, 'no DownloadFailure for Content-Type {}, got {}', ctype, result)
        expect(isinstance(failure.__cause__, Exception), 'no cause for decoding failure')
        return
    rec.event('failed: %s' % (o,))
    expect(failure is not None, 'no failure for outcome {}, got {}', o, result)
    expect(isinstance(failure, XylemError), 'DownloadFailure is no XylemError')
    cause = failure.__cause__
    if isinstance(o, int):
        expect(isinstance(cause, urllib.error.HTTPError), 'cause of HTTP {} is {}', o, repr(cause))
        expect_eq(cause.code, o, 'code of the cause')
    else:
        expect(cause is server.errors[-1], 'cause is {}, the last error was {}',
               repr(cause), repr(server.errors[-1]))


BAD_URLS = ['foo', '', 'nope://x', 'http://[::1', 'http:///x', 'file:///nonexistent/x', ':', '//x',
            'http://', 'file://otherhost/x', 'a b', 'http:', 'http://x:port/', 'http://a b/',
            'http://127.0.0.1:1/x', 'http://x/\n', 'ftp://', 'data:,%zz;', 'http://é é/',
            'http://x\x00/', 'mailto:a@b', 'file:', 'http://\ud800/', 'http://.invalid/']


def check_bad_url(v, rec):
    global _sleeps
    rec.nontrivial()
    scheme = v['url'].split(':')[0]
    rec.event(scheme if scheme in ('http', 'file', 'nope', 'mailto', 'ftp', 'data') else 'no scheme')
    old = urllib.request._opener
    urllib.request.install_opener(None)
    _sleeps = []
    try:
        with quiet():
            r = load_url(v['url'], retry=v['retry'], timeout=5)
    except DownloadFailure as e:
        expect(isinstance(e.__cause__, Exception), 'no cause for url {}', v['url'])
        r = None
    finally:
        sleeps, _sleeps = _sleeps, None
        urllib.request.install_opener(old)
    expect(r is None or v['url'].startswith('data:'), 'text {} loaded from {}', r, v['url'])
    expect_eq(sleeps, [], 'retries for malformed or unreachable url')


def check_file_url(v, rec):
    """Local files, through the real URL handlers."""
    path = os.path.abspath('s07.' + v['ext'])
    v = dict(v, data=body(v['data']))
    with open(path, 'wb') as f:
        f.write(v['data'])
    rec.nontrivial(len(v['data']) > 0)
    try:
        got = load_url('file://' + path)
    finally:
        os.unlink(path)
    expect_eq(got, v['data'].decode('utf-8', 'replace'), 'contents of local file')


RULES['S07'] = ('at least one retry or failure happened, or the contents were not empty; '
                'distinct by the whole fault sequence and parameters')
SUBS['S07'] = [
    Sub('faults', case, check_load, quick=1500, qshards=2, examples=[
        dict(outcomes=['read-timeout', 503, 'urlerror-timeout'], final=(b'ok', None), retry=3,
             period=2, timeout=4, url='http://x/y'),
        dict(outcomes=[], final=503, retry=-1, period=None, timeout=None, url='http://x/y')] + [
        dict(outcomes=o, final=(b'caf\xc3\xa9 \x80', c), retry=None, period=None, timeout=None,
             url='http://x/y') for c in CTYPES for o in ([], [503])] + [
        dict(outcomes=[], final=(('big', n, c, k, b''), t), retry=None, period=None, timeout=None,
             url='http://x/y') for n in (9000, 70000, 140000, 1100000, 4500000) for c in ('é€\U0001f600' if n < 1e6 else '€') for k in (0, 1)
        for t in (None, 'text/yaml; charset=utf-8')] + [
        dict(redirections=[[], [(c, t)]], outcomes=[o], final=(b'ok', None), retry=None, period=p, timeout=p, url=u)
        for c in (301, 307) for t in TARGETS for o, p in ((503, None), ('read-timeout', 7))
        for u in ('http://x/y', 'HTTPS://x/y')] + [
        dict(outcomes=[503], final=(b'ok', None), retry=None, period=None, timeout=None, url=u) for u in URLS] + [
        dict(headers=[h], outcomes=[503, 'read-timeout'], final=f, retry=None, period=p, timeout=None,
             url='http://x/y') for h in HEADERS for f in ((b'ok', None), 503) for p in (None, 0, 7)]),
    Sub('bad-urls', st.fixed_dictionaries(dict(
        url=st.one_of(st.sampled_from(BAD_URLS),
                      st.text('abc :/[]?#@%.\n\t0é', max_size=8)), retry=st.integers(-1, 3))),
        check_bad_url, quick=150, examples=[dict(url=u, retry=2) for u in BAD_URLS]),
    Sub('file', st.fixed_dictionaries(dict(data=bodies, ext=st.sampled_from(['yaml', 'txt', 'html', 'x']))),
        check_file_url, quick=150, examples=[
            dict(data=('big', n, '€', k, b''), ext='yaml') for n in (9000, 70000, 1100000, 4500000, 25000000) for k in (0, 1)]),
]
