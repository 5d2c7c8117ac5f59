"""Entry point: python -m harness.main check P01 --tier quick | replay FILE | worker ..."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import boot

N_SHARDS = int(os.environ.get('VERIF_SHARDS', '8'))
BUDGET = {'quick': 300.0, 'thorough': 780.0}
CASE_TIMEOUT = {'quick': 60, 'thorough': 120}


def load(pid):
    d = os.path.join(boot.VERIF, 'harness', 'props')
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            return importlib.import_module('harness.props.' + f[:-3])
    raise SystemExit('unknown property ' + pid)


def sub_seed(seed, pid, name, shard):
    return int(hashlib.sha256(('%d/%s/%s/%d' % (seed, pid, name, shard)).encode()).hexdigest()[:15], 16)


def known_findings(pid):
    """Lines 'finding: property=<id> sub=<sub> case=<sha> <what fails>'."""
    out = {}
    path = os.path.join(boot.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:') and ('property=%s ' % pid) in line:
                parts = line.split(None, 4)
                key = (parts[2].split('=', 1)[1], parts[3].split('=', 1)[1])
                out[key] = parts[4].strip()
    return out


def worker(args):
    boot.setup()
    from . import core
    mod = load(args.pid)
    out = {'subs': {}, 'failure': None}
    deadline = time.monotonic() + args.budget
    for sub in mod.SUBS:
        if args.only and sub.name not in args.only.split(','):
            continue
        total = 3 * sub.quick if args.tier == 'quick' else sub.thorough
        total = max(1, int(total * args.scale))
        n = total // args.shards + (1 if args.shard < total % args.shards else 0)
        if n == 0:
            continue
        t0 = time.monotonic()
        # Every sub-check gets a fair part of the remaining budget.
        st, failure = core.run_sub(sub, n, sub_seed(args.seed, mod.ID, sub.name, args.shard),
                                   deadline, args.stop, CASE_TIMEOUT[args.tier])
        out['subs'][sub.name] = {
            'requested': n, 'evaluations': st.evaluations, 'trivial': st.trivial,
            'labels': st.labels, 'hashes': sorted(st.hashes), 'samples': st.samples,
            'timeouts': st.timeouts, 'wall': time.monotonic() - t0,
        }
        if failure:
            out['failure'] = failure
            open(args.stop, 'w').close()
            break
        if os.path.exists(args.stop) or time.monotonic() > deadline:
            break
    tmp = args.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.rename(tmp, args.out)
    return 0


def do_replay(path, quiet=False):
    boot.setup()
    from . import core
    rec = json.load(open(path))
    mod = load(rec['property'])
    subs = {s.name: s for s in mod.SUBS}
    import signal
    def on_alarm(signum, frame):
        raise core.CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    for name, case in rec['cases']:
        try:
            signal.alarm(CASE_TIMEOUT['quick'])
            try:
                core.run_case(subs[name], case)
            except core.CaseTimeout:
                raise core.Violation('no result within %d s' % CASE_TIMEOUT['quick'])
            finally:
                signal.alarm(0)
        except core.Violation as e:
            if not quiet:
                print('sub-check: %s\ncase: %s\nviolated: %s' % (name, core.canon(case), e))
            print('VIOLATION property=%s replay=%s' % (rec['property'], path))
            return 1
    if not quiet:
        print('no violation: property %s holds on the replayed case(s)' % rec['property'])
    return 0


def env():
    e = dict(os.environ)
    e.update(boot.THREAD_ENV)
    e['PYTHONPATH'] = boot.VERIF
    return e


def py():
    p = '/opt/venv/bin/python'
    return p if os.path.exists(p) else sys.executable


def write_replay(pid, cases, message):
    d = os.path.join(boot.VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'message': message, 'cases': cases}, f, indent=1)
    return path


def confirm(pid, failure, work):
    """Re-runs the failing case in a fresh process, without Hypothesis.

    Returns the replay path, or None when nothing reproduces."""
    name = failure['sub']
    trials = [[[name, failure['case']]], [[name, failure['first_case']]]]
    # A failure that needs the preceding cases (state leaking between calls).
    hist = [[name, c] for c in failure['history']]
    for n in (2, 5, 20, 100, len(hist)):
        trials.append(hist[-n:])
    seen = []
    for t in trials:
        if not t or t in seen:
            continue
        seen.append(t)
        path = write_replay(pid, t, failure['message'])
        try:
            r = subprocess.run([py(), '-m', 'harness.main', 'replay', path], env=env(),
                               cwd=boot.VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=150)
        except subprocess.TimeoutExpired:
            r = None
        if r is not None and r.returncode == 1:
            return path, r.stdout.decode(errors='replace')
        os.unlink(path)
    return None, None


def check(args):
    t0 = time.monotonic()
    pid = args.pid
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = args.tier
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    rc = 2
    try:
        rc = _check(args, pid, seed, tier, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def _check(args, pid, seed, tier, work, t0):
    budget = args.budget or BUDGET[tier]
    e = env()
    e['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(work, 'hyp')
    e['MPLCONFIGDIR'] = os.path.join(work, 'mpl')
    e['TMPDIR'] = work
    stop = os.path.join(work, 'stop')
    procs = []
    shards = args.shards or N_SHARDS
    for s in range(shards):
        out = os.path.join(work, 'out%d.json' % s)
        log = open(os.path.join(work, 'log%d.txt' % s), 'wb')
        cmd = [py(), '-m', 'harness.main', 'worker', pid, '--tier', tier, '--seed', str(seed),
               '--shard', str(s), '--shards', str(shards), '--budget', str(budget),
               '--stop', stop, '--out', out, '--scale', str(args.scale), '--only', args.only or '']
        procs.append((subprocess.Popen(cmd, env=e, cwd=boot.VERIF, stdout=log, stderr=log), out, log))
    hard = time.monotonic() + budget + 75
    errors, results, killed = [], [], 0
    for s, (p, out, log) in enumerate(procs):
        try:
            p.wait(timeout=max(1.0, hard - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            killed += 1
        log.close()
        if os.path.exists(out):
            results.append(json.load(open(out)))
        elif p.returncode not in (0, -9):
            errors.append(open(os.path.join(work, 'log%d.txt' % s)).read()[-3000:])
        else:
            killed += p.returncode != -9
    boot_mod = load_meta(pid)
    subs, hashes = {}, {}
    samples = []
    for r in results:
        for name, d in r['subs'].items():
            a = subs.setdefault(name, {'requested': 0, 'evaluations': 0, 'trivial': 0,
                                       'classes': {}, 'timeouts': 0, 'cpu_s': 0.0})
            for k in ('requested', 'evaluations', 'trivial', 'timeouts'):
                a[k] += d[k]
            a['cpu_s'] = round(a['cpu_s'] + d['wall'], 2)
            for k, v in d['labels'].items():
                a['classes'][k] = a['classes'].get(k, 0) + v
            hashes.setdefault(name, set()).update(d['hashes'])
            if sum(x['sub'] == name for x in samples) < 2:
                samples += d['samples'][:1]
    for name in subs:
        subs[name]['distinct_nontrivial'] = len(hashes[name])
    evaluations = sum(a['evaluations'] for a in subs.values())
    nontrivial = sum(len(h) for h in hashes.values())
    failures = [r['failure'] for r in results if r['failure']]
    known = known_findings(pid)
    violation, unreproduced = None, []
    for f in failures:
        path, text = confirm(pid, f, work)
        if path:
            violation = (path, text, f)
            break
        if not f.get('hang'):  # a stalled machine is no evidence
            unreproduced.append(f['message'][:300])
    for (sub, sha), what in known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    inconclusive = [n for n, a in subs.items() if a['evaluations'] < a['requested'] * 0.999 and not failures]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': boot_mod['rule'],
            'samples': samples[:12],
            'sub_checks': subs,
            'shards': shards,
        },
        'assumptions': boot_mod['assumptions'],
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if violation else 0,
    }
    if killed or inconclusive:
        ev['coverage']['stopped_early'] = {'killed_shards': killed, 'subs': inconclusive}
    if unreproduced:
        ev['coverage']['unreproduced'] = unreproduced
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(boot.VERIF, 'evidence', pid + '.json')
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(evp + '.tmp', evp)
    for name, a in sorted(subs.items()):
        print('%s %-28s evaluated %6d  nontrivial %6d  cpu %.1fs%s' % (
            pid, name, a['evaluations'], a['distinct_nontrivial'], a['cpu_s'],
            '  TIMEOUTS %d' % a['timeouts'] if a['timeouts'] else ''))
        if args.verbose:
            for k, v in sorted(a['classes'].items()):
                print('      %-40s %d' % (k, v))
    if violation:
        print(violation[1].strip().rsplit('\n', 1)[0])
        print('VIOLATION property=%s replay=%s' % (pid, violation[0]))
        return 1
    if errors:
        sys.stderr.write('harness error in %d shard(s):\n%s\n' % (len(errors), errors[0]))
        return 2
    if unreproduced:
        sys.stderr.write('a failure did not reproduce in a fresh process: %s\n' % unreproduced[0])
        return 2
    if evaluations == 0 and not killed:
        sys.stderr.write('nothing was evaluated\n')
        return 2
    print('%s ok: %d cases, %d distinct non-trivial, %.1fs, seed %d%s' % (
        pid, evaluations, nontrivial, time.monotonic() - t0, seed,
        ' (stopped early: %s)' % inconclusive if inconclusive else ''))
    return 0


def load_meta(pid):
    boot.setup()
    m = load(pid)
    return {'rule': m.RULE, 'assumptions': getattr(m, 'ASSUMPTIONS', [])}


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd', required=True)
    c = sp.add_parser('check')
    c.add_argument('pid')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    c.add_argument('--budget', type=float, default=0)
    c.add_argument('--scale', type=float, default=1.0)
    c.add_argument('--shards', type=int, default=0)
    c.add_argument('--only', default='')
    c.add_argument('-v', '--verbose', action='store_true')
    w = sp.add_parser('worker')
    w.add_argument('pid')
    w.add_argument('--tier')
    w.add_argument('--seed', type=int)
    w.add_argument('--shard', type=int)
    w.add_argument('--shards', type=int)
    w.add_argument('--budget', type=float)
    w.add_argument('--stop')
    w.add_argument('--out')
    w.add_argument('--scale', type=float)
    w.add_argument('--only', default='')
    r = sp.add_parser('replay')
    r.add_argument('path')
    args = ap.parse_args()
    if args.cmd == 'worker':
        return worker(args)
    if args.cmd == 'replay':
        return do_replay(args.path)
    return check(args)


if __name__ == '__main__':
    sys.exit(main())
