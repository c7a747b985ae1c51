"""Locations and process environment of the checks."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('XYLEM_REPO', '/repo'))
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def add_tools():
    """Make hypothesis importable, behind everything of the own interpreter."""
    try:
        import hypothesis  # noqa
    except ImportError:
        if TOOLS not in sys.path:
            sys.path.append(TOOLS)


def setup_scratch(scratch):
    """Confine the process to a scratch directory.

    Has to run before xylem is imported, since xylem expands `~` on import.
    """
    home = os.path.join(scratch, 'home')
    bindir = os.path.join(scratch, 'bin')
    tmp = os.path.join(scratch, 'tmp')
    for d in (home, bindir, tmp):
        if not os.path.isdir(d):
            os.makedirs(d)
    for k in list(os.environ):
        if k.startswith(('XYLEM_', 'ROS_')) and k != 'XYLEM_REPO':
            del os.environ[k]
    os.environ['HOME'] = home
    os.environ['TMPDIR'] = tmp
    os.environ['LC_ALL'] = 'C.UTF-8'
    for k in ('http_proxy', 'https_proxy', 'all_proxy', 'no_proxy'):
        os.environ.pop(k, None)
        os.environ.pop(k.upper(), None)
    # the only programs that commands run by the code under test can find
    os.environ['PATH'] = bindir
    os.chdir(scratch)
    import tempfile
    tempfile.tempdir = tmp
    # REPO first: the working tree decides, whatever is installed
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
