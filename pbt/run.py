"""Entry point: runs all sub-checks of one property."""
import argparse
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import env


def replay(args):
    env.add_tools()
    scratch = tempfile.mkdtemp(prefix='xylem-replay-')
    try:
        data = json.load(open(args.replay))
        env.setup_scratch(scratch)
        from . import core, worker
        sub = [s for s in worker.load(data['property']).SUBS[data['property']]
               if s.name == data['sub']][0]
        try:
            core.run_case(sub, ast.literal_eval(data['value']), core.Rec())
        except (core.Violation, core.Stuck) as e:
            print('case: %s' % data['value'])
            print(e)
            print('VIOLATION property=%s replay=%s' % (data['property'], args.replay))
            return 1
        print('holds for the replayed case')
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--sub')
    ap.add_argument('--replay')
    ap.add_argument('--stats', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    if args.replay:
        args.replay = os.path.abspath(args.replay)
        sys.exit(replay(args))
    sys.exit(run(args))


def run(args):
    t0 = time.time()
    pid = args.property
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(args.seed)
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix='xylem-check-%s-' % pid)
    try:
        return _run(args, pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def list_subs(pid, scratch):
    """Names and sizes of sub-checks, from a separate process."""
    code = ('import sys,json; from pbt import env; env.add_tools(); '
            'env.setup_scratch(%r); from pbt.worker import load; m=load(%r); '
            'json.dump([m.LEVEL.get(%r,"exploration"), m.RULES[%r], '
            '[(s.name,s.quick,s.thorough,s.shards,s.qshards) for s in m.SUBS[%r]]],'
            'sys.stdout)' % (scratch, pid, pid, pid, pid))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        sys.stderr.write(p.stderr.decode())
        raise SystemExit(2)
    return json.loads(p.stdout.decode())


def _run(args, pid, tier, seed, scratch, t0):
    d0 = os.path.join(scratch, 'list')
    os.makedirs(d0)
    level, rule, subs = list_subs(pid, d0)
    tasks = []
    if args.sub and args.sub not in [s[0] for s in subs]:
        sys.exit('no such part; there are: %s' % ', '.join(s[0] for s in subs))
    for name, quick, thorough, shards, qshards in subs:
        if args.sub and name != args.sub:
            continue
        n, k = (quick, qshards) if tier == 'quick' else (thorough, shards)
        for shard in range(k):
            tasks.append((name, shard, max(1, n // k) if tier == 'quick' else n))
    # long ones first
    procs, results = [], []
    limit = 780 if tier == 'quick' else 6 * 3600
    queue = list(tasks)
    while queue or procs:
        while queue and len(procs) < args.jobs:
            name, shard, n = queue.pop(0)
            d = os.path.join(scratch, '%s-%d' % (name, shard))
            os.makedirs(d)
            out = os.path.join(scratch, '%s-%d.json' % (name, shard))
            log = open(os.path.join(scratch, '%s-%d.log' % (name, shard)), 'wb')
            p = subprocess.Popen(
                [sys.executable, '-W', 'ignore', '-m', 'pbt.worker', pid, name,
                 str(shard), tier, str(seed), d, out, str(n)],
                stdin=subprocess.DEVNULL, stdout=log, stderr=log)
            procs.append((p, name, shard, out, log))
        time.sleep(0.02)
        for t in list(procs):
            p, name, shard, out, log = t
            if p.poll() is None:
                if time.time() - t0 > limit:
                    p.kill()
                    p.wait()
                else:
                    continue
            procs.remove(t)
            log.close()
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                results.append(dict(sub=name, shard=shard, status='error',
                                    traceback='worker ended with %s\n%s' % (
                                        p.returncode,
                                        open(log.name, 'rb').read()[-3000:].decode('utf-8', 'replace'))))
    return report(args, pid, tier, seed, level, rule, results, t0)


def report(args, pid, tier, seed, level, rule, results, t0):
    results.sort(key=lambda r: (r['sub'], r['shard']))
    violations = [r for r in results if r['status'] == 'violation']
    errors = [r for r in results if r['status'] == 'error']
    # the checks themselves recognise recorded findings (core.is_known)
    new = violations
    from .core import known_findings
    for text in known_findings(pid).values():
        print('KNOWN-FINDING: property=%s %s' % (pid, text))

    per_sub, samples, distinct, evals = {}, [], 0, 0
    byname = {}
    for r in results:
        byname.setdefault(r['sub'], []).append(r)
    for name, rs in sorted(byname.items()):
        ds = set()
        labels, extra = {}, {}
        ev = 0
        for r in rs:
            ds.update(r.get('distinct', ()))
            ev += r.get('evaluations', 0)
            for k, v in r.get('labels', {}).items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r.get('extra', {}).items():
                extra[k] = extra.get(k, 0) + v
            for s in r.get('samples', ())[:2]:
                if len([x for x in samples if x['check'] == name]) < 3:
                    samples.append(dict(check=name, case=s))
        per_sub[name] = dict(evaluations=ev, distinct_nontrivial=len(ds),
                             classes=dict(sorted(labels.items())),
                             wall_s=round(sum(r.get('wall', 0) for r in rs), 2))
        if extra:
            per_sub[name]['counts'] = extra
        distinct += len(ds)
        evals += ev
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=level,
        coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
                      rule=rule, samples=samples, checks=per_sub),
        assumptions=['CPython 3.12 in /opt/venv on Linux; xylem imported from %s' % env.REPO],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    if not args.no_evidence:
        edir = os.path.join(env.VERIF, 'evidence')
        if not os.path.isdir(edir):
            os.makedirs(edir)
        tmp = os.path.join(edir, '.%s.%d.tmp' % (pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
        os.replace(tmp, os.path.join(edir, pid + '.json'))
    if args.stats:
        for name, s in per_sub.items():
            print('%-22s %s' % (name, json.dumps(s)))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
        pid, tier, seed, evals, distinct, time.time() - t0))
    for r in errors[:2]:
        sys.stderr.write('ERROR in %s shard %d of %s:\n%s\n' % (
            r['sub'], r['shard'], pid, r['traceback'][-1500:]))
    if new:
        rdir = os.path.join(env.VERIF, 'replay')
        if not os.path.isdir(rdir):
            os.makedirs(rdir)
        for v in new:
            path = os.path.join(rdir, '%s-%s%s.json' % (
                pid, v['sub'].replace(' ', '-'), '-%s' % v['shard'] if v['shard'] else ''))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, sub=v['sub'], value=v['value'],
                               message=v['message'], seed=seed, tier=tier), f, indent=1)
            print('case: %s' % v['value'])
            print(v['message'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        return 2
    return 0


if __name__ == '__main__':
    main()
