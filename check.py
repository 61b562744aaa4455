#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   search for violations
   check.py --replay FILE                       replay a recorded violation"""
import collections, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build, props
JOBS = min(8, os.cpu_count() or 8)
RUN_TIMEOUT = 300

def build_for(prop):
    c = props.P[prop]
    os.makedirs(build.WORK, exist_ok=True)
    with open(os.path.join(build.WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build.build(c['progs'], full=c.get('full', False), access=c.get('access', False), defines=c.get('defines', ()))

class Runner:
    def __init__(self, B, prop, tmp):
        self.B, self.prop, self.tmp, self.n = B, prop, tmp, 0
    def run(self, seed, kv=(), filt=None, trace=None):
        self.n += 1
        out = tempfile.mktemp(dir=self.tmp)
        cmd = [self.B + '/sim', '--bin', self.B, '--prop', self.prop, '--seed', str(seed), '--out', out] + list(kv)
        ff = None
        if filt is not None:
            ff = out + '.f'
            with open(ff, 'w') as f:
                f.write('none 0\n' + ''.join('%s %s\n' % x for x in filt))
            cmd += ['--filter', ff]
        if trace:
            cmd += ['--trace', trace]
        env = {k: v for k, v in os.environ.items() if not k.startswith(('VERIF_', 'SIM_', 'LD_', 'MALLOC_'))}
        try:
            r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=RUN_TIMEOUT, env=env, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return {'seed': seed, 'err': 'timeout'}
        try:
            with open(out) as f:
                d = json.load(f)
        except Exception:
            return {'seed': seed, 'err': 'exit %d: %s' % (r.returncode, r.stderr.decode(errors='replace')[-300:])}
        finally:
            for p in (out, ff):
                if p and os.path.exists(p):
                    os.remove(p)
        return d

def cls(d):
    v = d.get('violations') or []
    return v[0]['class'] if v else None

def known():
    """the committed list of genuine defects that are recorded and not repaired"""
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m:
                r.append(dict(prop=m.group(1), cls=m.group(2), rx=re.compile(m.group(3)), what=m.group(4)))
    return r
def unknown_violation(prop, d, kf):
    for v in d.get('violations') or []:
        if not any(k['prop'] == prop and k['cls'] == v['class'] and k['rx'].search(v['msg']) for k in kf):
            return v
    return None

def minimise(R, seed, kv, first, kf, budget):
    """drop whole kinds of faults, then halves, quarters ... of the rest, while the same class of violation stays"""
    t_end = time.time() + budget
    want = first['class']
    base = R.run(seed, list(kv) + ['faultlog=1'])
    log = [(k, i) for k, i, _ in base.get('fault_log', [])]
    if not log:
        return None, 0, 0
    def fails(filt):
        d = R.run(seed, kv, filt)
        v = unknown_violation(R.prop, d, kf)
        return d if v and v['class'] == want else None
    kinds = collections.Counter(k for k, _ in log)
    cur = sorted(set(log))
    with ThreadPoolExecutor(JOBS) as ex:
        if fails([]):
            return [], len(log), 0
        live = set(kinds)
        for k in sorted(kinds, key=lambda k: -kinds[k]):
            if time.time() > t_end:
                break
            t = [(x, '*') for x in live if x != k]
            if fails(t):
                live.discard(k)
        # the wildcard run may have met opportunities the first one did not: record what it took
        d = R.run(seed, list(kv) + ['faultlog=1'], [(x, '*') for x in live])
        cur = sorted(set((k, i) for k, i, _ in d.get('fault_log', [])))
        if not fails(cur):
            return [(x, '*') for x in sorted(live)], len(log), -1
        n = 2
        while len(cur) >= 1 and time.time() < t_end:
            step = max(1, len(cur) // n)
            cuts = list(range(0, len(cur), step))
            hit = None
            for i in range(0, len(cuts), JOBS):
                if time.time() > t_end:
                    break
                cand = [cur[:c] + cur[c + step:] for c in cuts[i:i + JOBS]]
                for c, r in zip(cand, ex.map(fails, cand)):
                    if r:
                        hit = c
                        break
                if hit is not None:
                    break
            if hit is not None:
                cur = hit; n = max(2, n - 1)
            elif step == 1:
                break
            else:
                n = min(len(cur), n * 2)
    return cur, len(log), len(cur)

def replay(path):
    r = json.load(open(path))
    B = build_for(r['property'])
    tmp = tempfile.mkdtemp(prefix='alfalfa-sim-')
    try:
        R = Runner(B, r['property'], tmp)
        filt = None if r['filter'] is None else [tuple(x) for x in r['filter']]
        d = R.run(r['seed'], r['overrides'], filt, trace=path + '.trace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    v = [x for x in d.get('violations', []) if x['class'] == r['class']]
    if not v:
        print('replay: the violation does not occur (got %s)' % (d.get('err') or [x['class'] for x in d.get('violations', [])]))
        return 0
    print('replay: %s: %s (t=%.6f s); event hash %s (%s); trace in %s' % (v[0]['class'], v[0]['msg'], v[0]['t'] / 1e9, d['trace'], 'as recorded' if d['trace'] == r['event_hash'] else 'recorded %s' % r['event_hash'], path + '.trace'))
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1

def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    vseed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = props.P[prop]
    t0 = time.time()
    B = build_for(prop)
    t_build = time.time() - t0
    runs = c['runs'] if tier == 'quick' else 10 ** 9
    cap = c['cap'] if tier == 'quick' else 600
    kf = known()
    tmp = tempfile.mkdtemp(prefix='alfalfa-sim-')
    rc = 0
    try:
        R = Runner(B, prop, tmp)
        start = time.time()
        seeds = iter(vseed * 1000000 + i for i in range(1, runs + 1))
        results, bad, known_hits, errors = [], [], {}, []
        agg, faults = collections.Counter(), collections.Counter()
        hashes, sched, sim_ns, steps, switches, nontrivial, samples = set(), set(), 0, 0, 0, 0, []
        pend = set()
        with ThreadPoolExecutor(JOBS) as ex:
            def feed():
                while len(pend) < JOBS * 2 and not bad and time.time() - start < cap:
                    s = next(seeds, None)
                    if s is None:
                        return
                    pend.add(ex.submit(R.run, s))
            feed()
            while pend:
                done, _ = wait(pend, return_when=FIRST_COMPLETED)
                for f in done:
                    pend.discard(f)
                    d = f.result()
                    if 'err' in d:
                        errors.append(d); continue
                    results.append(d['seed'] if 'seed' in d else 0)
                    v = unknown_violation(prop, d, kf)
                    if v:
                        bad.append((d, v)); continue
                    for x in d.get('violations', []):
                        for k in kf:
                            if k['prop'] == prop and k['cls'] == x['class'] and k['rx'].search(x['msg']):
                                known_hits[k['what']] = known_hits.get(k['what'], 0) + 1
                    if d.get('partial'):
                        continue
                    agg.update(d['counters']); faults.update(d['faults'])
                    sched.add(d['sched']); hashes.add(d['trace']); sim_ns += d['sim_ns']; steps += d['steps']; switches += d['switches']
                    if d['counters'].get(c['nontrivial'], 0) > 0:
                        nontrivial += 1
                    if len(samples) < 3:
                        samples.append({'seed': d['seed'], 'simulated_s': d['sim_ns'] / 1e9, 'switches': d['switches'], 'faults': d['faults'], 'counters': d['counters'], 'event_hash': d['trace']})
                feed()
        wall = time.time() - start
        # determinism: a sample of the seeds again, in fresh processes
        det = 0
        if not bad:
            again = [x['seed'] for x in samples] + [vseed * 1000000 + i for i in range(4, 4 + (5 if tier == 'quick' else 60)) if i <= len(results)]
            with ThreadPoolExecutor(JOBS) as ex:
                for d in ex.map(R.run, again):
                    if 'trace' in d and not d.get('partial') and d['trace'] not in hashes:
                        print('error: seed %s is not repeatable' % d['seed']); return 3
                    det += 1
        if not bad and (errors or not results):
            # an infrastructure failure is not a verdict; try each of them once more, alone
            for e in list(errors):
                d = R.run(e['seed'])
                if 'err' in d:
                    print('error: seed %s: %s' % (e['seed'], d['err'])); return 3
                v = unknown_violation(prop, d, kf)
                if v:
                    bad.append((d, v))
            if not results:
                print('error: nothing was run'); return 3
        path = None
        bad.sort(key=lambda x: (x[0].get('sim_ns', 0), x[0].get('seed', 0)))
        for d, v in bad[:4]:
            seed = d.get('seed')
            e = R.run(seed)
            w = unknown_violation(prop, e, kf)
            if not w or w['class'] != v['class'] or e.get('trace') != d.get('trace'):
                print('error: seed %s: the violation %s is not repeatable (%s)' % (seed, v['class'], w and w['class'])); rc = 3; continue
            filt, n_all, n_min = (None, 0, 0) if d.get('partial') else minimise(R, seed, [], v, kf, 60 if tier == 'quick' else 240)
            f = R.run(seed, [], filt)
            w = unknown_violation(prop, f, kf)
            if not w or w['class'] != v['class']:
                filt, n_min, f, w = None, n_all, e, v
            g = R.run(seed, [], filt)
            if g.get('trace') != f.get('trace'):
                print('error: seed %s: the minimised run is not repeatable' % seed); rc = 3; continue
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, seed))
            with open(path, 'w') as o:
                json.dump({'property': prop, 'seed': seed, 'overrides': [], 'filter': filt, 'class': v['class'], 'message': w['msg'], 't_ns': w['t'], 'event_hash': f['trace'],
                           'faults_before_minimisation': n_all, 'faults_after': n_min}, o, indent=1)
            print('%s: %s (simulated time %.6f s, seed %d; %d injected faults and preemptions, %s after minimisation)' % (w['class'], w['msg'], w['t'] / 1e9, seed, n_all, n_min))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
            break
        for k in kf:
            if k['prop'] == prop and known_hits.get(k['what']):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        n = len(results)
        ev = {'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc == 1 else 0,
              'coverage': {'evaluations': n, 'distinct_nontrivial': min(nontrivial, len(hashes if c.get('history') else sched)),
                           'rule': 'one evaluation is one simulated run, a pure function of its seed; runs are distinct by the hash of %s and non-trivial when the oracle compared something (counter %s > 0)' % ('their event history (every system call, its data and every injected fault)' if c.get('history') else 'their interleaving (order of thread switches and events)', c['nontrivial']),
                           'samples': samples or [{'seed': results[0] if results else 0}],
                           'runs_per_hour': int(n / max(wall, 1e-3) * 3600), 'simulated_seconds': round(sim_ns / 1e9, 1), 'scheduler_steps': steps, 'context_switches': switches,
                           'distinct_interleavings': len(sched), 'distinct_event_histories': len(hashes), 'repeatability_reruns': det,
                           'faults_injected': dict(faults), 'oracle_counters': {k: v for k, v in agg.items() if not k.startswith('other:')},
                           'seeds': '%d..%d' % (vseed * 1000000 + 1, vseed * 1000000 + n), 'build_s': round(t_build, 1), 'known_finding_hits': known_hits,
                           'real_components': c.get('real', 'salsify-sender, salsify-receiver (main programs, encoder, decoder, net/, input/camera, poller, pacer, standard library, x264 helpers), compiled from /repo'),
                           'stub_components': c.get('stub', 'kernel (sockets, poll, V4L2 camera, files, clocks, threads scheduling), network, X11/GL display, SSIM-only x264 logging')},
              'assumptions': ['sampling: a clean batch is evidence, not proof', 'code between two system calls, locks or instrumented blocks runs atomically', 'sizes of pictures, durations and fault rates are those of the scenarios in sim/']}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
        print('%s %s: %d runs, %d distinct interleavings, %d distinct histories, %.0f simulated s, %d faults, %.1f s wall' % (prop, tier, n, len(sched), len(hashes), sim_ns / 1e9, sum(faults.values()), time.time() - t0))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('error: build failed\n%s' % e)
        sys.exit(2)
