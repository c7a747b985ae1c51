"""Runs one shard of one sub-check and writes the result as JSON."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import env


def load(pid):
    from .registry import MODULES
    return importlib.import_module('pbt.props.' + MODULES[pid])


def record_lines(path):
    """Development: append each line of xylem that is executed to a file."""
    fd = os.open(path, os.O_WRONLY | os.O_APPEND)
    pkg = os.path.join(env.REPO, 'xylem') + os.sep
    mon = sys.monitoring

    def line(code, number):
        if code.co_filename.startswith(pkg):
            os.write(fd, ('%s:%d\n' % (os.path.relpath(code.co_filename, env.REPO),
                                       number)).encode())
        return mon.DISABLE
    mon.use_tool_id(1, 'lines')
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)


def main():
    pid, subname, shard, tier, seed, scratch, out = sys.argv[1:8]
    max_examples = int(sys.argv[8])
    lines = os.environ.get('XYLEM_COV')
    env.add_tools()
    env.setup_scratch(scratch)
    # whoever starts the check may ignore signals (nohup does), which processes inherit
    for number in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM):
        if signal.getsignal(number) == signal.SIG_IGN:
            signal.signal(number, signal.default_int_handler if number == signal.SIGINT
                          else signal.SIG_DFL)
    t0 = time.time()
    result = dict(sub=subname, shard=int(shard), status='error')
    try:
        from . import core
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        sys.setrecursionlimit(3000)
        if lines:
            record_lines(lines)
        mod = load(pid)
        import xylem
        if not xylem.__file__.startswith(env.REPO):
            raise core.HarnessError('wrong xylem: %s' % xylem.__file__)
        sub = [s for s in mod.SUBS[pid] if s.name == subname][0]
        rec = core.Rec()
        found = core.drive(sub, core.derive_seed(seed, pid, subname, shard),
                           max_examples, rec, int(shard),
                           sub.qshards if tier == 'quick' else sub.shards)
        result.update(evaluations=rec.evaluations,
                      distinct=[h.hex() for h in rec.distinct],
                      labels=dict(rec.labels), samples=rec.samples,
                      extra=dict(rec.extra), status='ok')
        if found:
            value, msg = found
            result.update(status='violation', value=core.literal(value),
                          message=msg)
    except BaseException:
        result['status'] = 'error'
        result['traceback'] = traceback.format_exc()
    result['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(result, f)


if __name__ == '__main__':
    main()
