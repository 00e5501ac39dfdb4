#!/usr/bin/env python3
"""check.py PROPERTY: builds the current tree, searches seeded simulated runs
for a violation of PROPERTY, minimises and reports what it finds.

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself failed (build error, irreproducible failure, ...).
"""
import os, sys, json, time, subprocess, tempfile, shutil, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb

VERIF = vb.VERIF
ST = ['cfg', 'ops', 'sched', 'tso', 'fault', 'net', 'disk', 'time', 'data', 'misc']

class Tape:
    def __init__(self, streams, head):
        self.s, self.head = streams, head
    @staticmethod
    def load(path):
        s, head = [[] for _ in ST], {}
        for l in open(path, errors='replace'):
            l = l.rstrip('\n')
            if l.startswith('stream '):
                f = l.split()
                s[int(f[1])] = [int(x) for x in f[3:]]
            elif ' ' in l and not l.startswith('#'):
                k, v = l.split(' ', 1)
                head.setdefault(k, v)
        return Tape(s, head)
    def write(self, path, extra=''):
        with open(path, 'w') as f:
            for k, v in self.head.items():
                f.write('%s %s\n' % (k, v))
            for i, x in enumerate(self.s):
                f.write('stream %d %d %s\n' % (i, len(x), ' '.join(map(str, x))))
            f.write(extra)
    def size(self):
        return sum(len(x) for x in self.s)
    def weight(self):
        return (self.size(), sum(sum(x) for x in self.s))

class Servers:
    """persistent replay servers, one run = one tape file"""
    def __init__(self, exe, args, n, tmp):
        self.p = [subprocess.Popen([exe, '--serve'] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL) for _ in range(n)]
        self.tmp, self.n = tmp, n
    def run(self, tapes):
        """-> list of results, in order"""
        res = [None] * len(tapes)
        q = queue.Queue()
        for i in range(len(tapes)):
            q.put(i)
        def work(k):
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                path = os.path.join(self.tmp, 'cand.%d' % k)
                tapes[i].write(path)
                try:
                    self.p[k].stdin.write((path + '\n').encode())
                    self.p[k].stdin.flush()
                    res[i] = json.loads(self.p[k].stdout.readline() or '{}')
                except Exception:
                    res[i] = {}
        th = [threading.Thread(target=work, args=(k,)) for k in range(min(self.n, len(tapes)))]
        for t in th: t.start()
        for t in th: t.join()
        return res
    def close(self):
        for p in self.p:
            p.kill()
            p.wait()

def minimise(srv, tape, cls, budget):
    end = time.time() + budget
    evals = 0
    best = tape
    def attempt(cands):
        nonlocal best, evals
        for i in range(0, len(cands), 16):
            if time.time() > end:
                return False
            chunk = [c for c in cands[i:i + 16]]
            r = srv.run(chunk)
            evals += len(chunk)
            for c, x in zip(chunk, r):
                if x and x.get('status') == 2 and x.get('cls') == cls:
                    # drop what the run never read
                    for k, used in enumerate(x['len']):
                        c.s[k] = c.s[k][:used]
                    if c.weight() < best.weight():
                        best = c
                        return True
        return False
    def mod(k, new):
        s = [list(x) for x in best.s]
        s[k] = new
        return Tape(s, best.head)
    progress = True
    while progress and time.time() < end:
        progress = False
        # whole streams and tails
        for k in range(len(ST)):
            n = len(best.s[k])
            if not n:
                continue
            cuts = sorted(set([0, n // 16, n // 8, n // 4, n // 2, n * 3 // 4]))
            if attempt([mod(k, best.s[k][:c]) for c in cuts if c < n]):
                progress = True
        for k in range(len(ST)):
            sz = max(1, len(best.s[k]) // 2)
            while sz and time.time() < end:
                i = 0
                while i < len(best.s[k]) and time.time() < end:
                    cands = []
                    j = i
                    while j < len(best.s[k]) and len(cands) < 16:
                        x = best.s[k]
                        cands.append(mod(k, x[:j] + x[j + sz:]))
                        if any(x[j:j + sz]):
                            cands.append(mod(k, x[:j] + [0] * len(x[j:j + sz]) + x[j + sz:]))
                        j += sz
                    if attempt(cands):
                        progress = True
                    else:
                        i = j
                sz //= 2
        # merge adjacent preemptions: (delay, thread) pairs
        k = 2
        x = best.s[k]
        if len(x) < 400:
            attempt([mod(k, x[:i] + [x[i] + x[i + 2]] + x[i + 3:]) for i in range(0, len(x) - 3)])
        for k in range(len(ST)):
            i = 0
            while i < len(best.s[k]) and time.time() < end:
                v = best.s[k][i]
                if v:
                    for nv in sorted(set([0, 1, v // 2, v - 1])):
                        if nv < v:
                            s = list(best.s[k])
                            s[i] = nv
                            if attempt([mod(k, s)]):
                                progress = True
                                break
                i += 1
    return best, evals

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = json.load(open(os.path.join(VERIF, 'harness/props.json')))[prop]
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    known = [f['id'] for f in kf['findings'] if f['property'] == prop]
    t0 = time.time()
    targets = cfg['targets']
    if vb.build([t['exe'] for t in targets]):
        print('check.py: build failed')
        return 2
    build_s = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='simcheck-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    workers = min(8, len(os.sched_getaffinity(0)))
    total = float(os.environ.get('VERIF_TIME') or cfg.get(tier + '_time') or (40 if tier == 'quick' else 900))
    wsum = sum(t.get('weight', 1) for t in targets)
    ev = {'runs': 0, 'ops': 0, 'steps': 0, 'simns': 0, 'states': 0, 'histories': 0, 'violations': 0, 'known': 0,
          'recheck': 0, 'recheck_bad': 0, 'inconclusive': 0, 'wall': 0.0}
    faults, probes, known_ids, per = {}, {}, {}, {}
    rc, viol, errors = 0, None, []
    samples = []
    try:
        for ti, t in enumerate(targets):
            exe = os.path.join(vb.B, 'bin', t['exe'])
            args = ['--prop', t.get('prop', prop)] + (['--thorough'] if tier == 'thorough' else [])
            if known:
                args += ['--known', ','.join(known)]
            out = os.path.join(tmp, 't%d' % ti)
            os.mkdir(out)
            r = subprocess.run([exe, '--seed', str(seed), '--time', str(total * t.get('weight', 1) / wsum),
                                '--workers', str(workers), '--out', out] + args,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=tmp)
            try:
                g = json.loads(r.stdout.decode().strip().split('\n')[-1])
            except Exception:
                print('check.py: %s failed (%d): %s' % (t['exe'], r.returncode, r.stderr.decode(errors='replace')[-2000:]))
                rc = 2
                break
            for k in ev:
                ev[k] += g[k]
            for d, src in ((faults, 'faults'), (probes, 'probes'), (known_ids, 'known_ids')):
                for k, v in g[src].items():
                    d[k] = d.get(k, 0) + v
            per[t['exe']] = {k: g[k] for k in ('runs', 'steps', 'states', 'histories', 'wall')}
            if g['recheck_bad']:
                errors.append('%s: %d runs out of %d repeated with the same decisions differed' % (
                    t['exe'], g['recheck_bad'], g['recheck']))
            # one sample run, written out
            base = Tape([[] for _ in ST], {})
            smp = subprocess.run([exe, '--seed', str(seed), '--runs', '1', '--time', '5', '--workers', '1', '-v', '--out', out] + args,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=tmp)
            lines = smp.stdout.decode(errors='replace').split('\n')
            samples.append({'harness': t['exe'], 'run': 'seed %d run 0' % seed, 'history': lines[:40]})
            if g['violations']:
                tapes = sorted((os.path.join(out, f) for f in os.listdir(out) if f.startswith('viol.')),
                               key=lambda p: Tape.load(p).weight())
                for path in tapes:
                    # gate: two fresh processes must reproduce it exactly
                    rr = []
                    for _ in range(2):
                        x = subprocess.run([exe, '--replay', path] + args, stdout=subprocess.PIPE,
                                           stderr=subprocess.DEVNULL, cwd=tmp)
                        try:
                            rr.append(json.loads(x.stdout.decode(errors='replace').strip().split('\n')[-1]))
                        except Exception:
                            rr.append({})
                    tp = Tape.load(path)
                    if rr[0].get('status') != 2 or rr[0].get('cls') != rr[1].get('cls') \
                            or rr[0].get('hash') != rr[1].get('hash') or rr[0].get('cls') != tp.head.get('class'):
                        errors.append('%s: violation %s did not replay identically (%s / %s)' % (
                            t['exe'], tp.head.get('class'), rr[0].get('cls'), rr[1].get('cls')))
                        continue
                    cls = rr[0]['cls']
                    srv = Servers(exe, args, workers, tmp)
                    best, evals = minimise(srv, tp, cls, 45 if tier == 'quick' else 240)
                    srv.close()
                    final = os.path.join(rdir, '%s-%s.replay' % (prop, ''.join(c if c.isalnum() else '_' for c in cls)[:60]))
                    best.head = {'property': prop, 'harness': t['exe'], 'class': cls,
                                 'origin': 'VERIF_SEED=%d run %s, %d decisions minimised to %d in %d replays' % (
                                     seed, tp.head.get('seed', ''), tp.size(), best.size(), evals)}
                    best.write(final)
                    logs = []
                    for _ in range(2):
                        x = subprocess.run([exe, '--replay', final, '-v', '-v'] + args, stdout=subprocess.PIPE,
                                           stderr=subprocess.DEVNULL, cwd=tmp)
                        logs.append(x.stdout.decode(errors='replace'))
                    last = json.loads(logs[0].strip().split('\n')[-1])
                    if logs[0] != logs[1] or last.get('status') != 2 or last.get('cls') != cls:
                        errors.append('%s: minimised violation %s did not replay identically' % (t['exe'], cls))
                        continue
                    trace = logs[0].strip().split('\n')[:-1]
                    best.write(final, '# %s\n# replay: build/bin/%s --replay %s -v %s\n' % (
                        last.get('msg', '').replace('\n', ' | '), t['exe'], final, ' '.join(args)) +
                        ''.join('# %s\n' % l for l in trace[-400:]))
                    viol = {'class': cls, 'message': last.get('msg', '')[:1500], 'replay': final,
                            'decisions': best.size(), 'from': tp.size()}
                    rc = 1
                    break
                if rc == 1:
                    break
                if not viol:
                    rc = 2
            if rc:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if errors and rc == 0:
        rc = 2
    wall = time.time() - t0
    hours = max(ev['wall'], 1e-9) / 3600
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(ev['runs']),
            'distinct_nontrivial': int(ev['histories']),
            'rule': cfg['rule'],
            'samples': samples,
            'technique': 'deterministic simulation with fault injection',
            'simulated_runs_per_hour': int(ev['runs'] / hours),
            'seeds_per_hour': int(ev['runs'] / hours),
            'seed_derivation': 'run i uses streams derived from (VERIF_SEED, i); one (seed, i) is one repeatable execution',
            'simulated_seconds': round(ev['simns'] / 1e9, 3),
            'scheduling_steps': int(ev['steps']),
            'workload_operations': int(ev['ops']),
            'distinct_states': int(ev['states']),
            'distinct_states_measure': cfg.get('state_measure', 'hash of the observable outcome of a run'),
            'faults_fired': faults,
            'rare_conditions_reached': probes,
            'determinism': {'runs_repeated': int(ev['recheck']), 'differing': int(ev['recheck_bad'])},
            'per_harness': per,
            'real_code': cfg.get('real', []),
            'stubbed': cfg.get('stub', []),
            'known_findings_hit': known_ids,
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': 1 if viol else 0,
    }
    if viol:
        evidence['coverage']['violation'] = viol
    if errors:
        evidence['coverage']['errors'] = errors[:10]
    evidence['coverage']['build_s'] = round(build_s, 2)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for f in kf['findings']:
        if f['property'] == prop and known_ids.get(f['id']):
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    print('%s %s: %d runs (%d distinct), %.0f simulated s, %d steps, build %.1fs, total %.1fs' % (
        prop, tier, ev['runs'], ev['histories'], ev['simns'] / 1e9, ev['steps'], build_s, wall))
    for e in errors[:5]:
        print('check.py: ' + e)
    if rc == 1:
        print('violation class: %s' % viol['class'])
        print('  ' + viol['message'].replace('\n', '\n  ')[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, viol['replay']))
    return rc

if __name__ == '__main__':
    sys.exit(main())
