"""Objects of xylem that the checks need, confined to the scratch directory."""
import os
import shutil
import tempfile

import yaml

import xylem.config as xconfig
from xylem.installers import InstallerContext
from xylem.os_support import OSSupport
from xylem.sources import SourcesContext
from xylem.specs import Spec

_os_support = None

# (name, version) pairs that the built-in OS plugins accept as override
OS_TUPLES = [('ubuntu', 'precise'), ('ubuntu', 'trusty'), ('ubuntu', 'lucid'),
             ('debian', 'wheezy'), ('debian', 'jessie'), ('debian', 'squeeze'),
             ('osx', 'mountain lion'), ('osx', 'lion'), ('osx', 'mavericks'),
             ('xubuntu', 'precise')]


def config(**kw):
    c = xconfig.get_default_config()
    for k, v in kw.items():
        c[k] = v
    return c


def os_support(os_tuple):
    global _os_support
    if _os_support is None:
        _os_support = OSSupport()
    _os_support.override_os(os_tuple)
    return _os_support


def installer_context(os_tuple, installers=None, core=None, additional=(), cfg=None):
    c = InstallerContext(cfg if cfg is not None else config(), os_support(os_tuple),
                         setup_installers=False)
    if installers is not None:
        by = dict((i.name, i) for i in installers)
        c.installer_plugins = list(installers)
        c.core_installers = [by[n] for n in core]
        c.additional_installers = [by[n] for n in additional]
    return c


class TempDir(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='c-')
        return self.path

    def __exit__(self, *args):
        for base, dirs, files in os.walk(self.path):
            for d in dirs:
                p = os.path.join(base, d)
                if not os.path.islink(p):
                    os.chmod(p, 0o700)
        shutil.rmtree(self.path, ignore_errors=True)


class DataSpec(Spec):
    """Spec plugin whose arguments name entries of a dict of rules dicts."""

    def __init__(self, table, name='data'):
        self._table = table
        self._name = name
        from xylem.specs.plugins.rules import RulesSpec
        self._rules = RulesSpec()

    @property
    def name(self):
        return self._name

    @property
    def version(self):
        return 1

    def unique_id(self, arguments):
        return '%s %s' % (self._name, arguments)

    def load_data(self, arguments):
        return self._table[arguments]

    def verify_arguments(self, arguments):
        pass

    def verify_data(self, data, arguments):
        return self._rules.verify_data(data, arguments)

    def is_data_outdated(self, data, arguments, data_load_time):
        return True

    def lookup(self, data, xylem_key, installer_context):
        return self._rules.lookup(data, xylem_key, installer_context)

    def keys(self, data, installer_context):
        return self._rules.keys(data, installer_context)


def sources_context(base, specs=None, sources=None):
    """Sources context below directory `base`.

    :param sources: file name -> list of (spec, arguments)
    """
    sd = os.path.join(base, 'sources.d')
    if sources is not None:
        if not os.path.isdir(sd):
            os.makedirs(sd)
        for fname, entries in sources.items():
            write(os.path.join(sd, fname),
                  yaml.safe_dump([{s: a} for s, a in entries], allow_unicode=True))
    return SourcesContext(config(sources_dir=sd, cache_dir=os.path.join(base, 'cache')),
                          spec_plugins=specs)


def write(path, content):
    if not isinstance(content, bytes):
        content = content.encode('utf-8')
    with open(path, 'wb') as f:
        f.write(content)


def snapshot(path):
    """Everything observable about a directory tree."""
    res = {}
    for base, dirs, files in os.walk(path):
        for d in dirs:
            p = os.path.join(base, d)
            res[os.path.relpath(p, path)] = ('dir', os.lstat(p).st_mode)
        for f in files:
            p = os.path.join(base, f)
            if os.path.islink(p):
                res[os.path.relpath(p, path)] = ('link', os.readlink(p))
            else:
                s = os.lstat(p)
                with open(p, 'rb') as h:
                    res[os.path.relpath(p, path)] = ('file', s.st_mode, s.st_mtime_ns, h.read())
    return res


def forked(fn, timeout=60):
    """Run fn in a child process with captured output.

    :returns: (exit status, stdout, stderr); the exit status is what the
        interpreter would exit with after fn
    """
    import signal
    import sys
    import traceback
    import time
    fo, out = tempfile.mkstemp(prefix='o-')
    fe, err = tempfile.mkstemp(prefix='e-')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.dup2(fo, 1)
            os.dup2(fe, 2)
            os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
            sys.stdin = open(0, closefd=False)
            sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', errors='backslashreplace', closefd=False)
            try:
                fn()
                code = 0
            except SystemExit as e:
                if e.code is None:
                    code = 0
                elif isinstance(e.code, int):
                    code = e.code & 255
                else:
                    sys.stderr.write(str(e.code) + '\n')
            except BaseException:
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    end = time.time() + timeout
    try:
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                st = None
                break
            time.sleep(0.002)
        texts = []
        for path in (out, err):
            with open(path, encoding='utf-8', errors='replace', newline='') as f:
                texts.append(f.read())
    finally:
        for fd, path in ((fo, out), (fe, err)):
            os.close(fd)
            os.unlink(path)
    status = None if st is None else (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st))
    return status, texts[0], texts[1]
