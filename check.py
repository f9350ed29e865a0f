#!/usr/bin/env python3
"""Deterministic-simulation checks for GBTL.

  check.py <ID> [--thorough] [--seed N] [--time S]   decide one property on /repo's working tree
  check.py --replay FILE                              re-execute a replay file exactly
  check.py --setup                                    check that the tool chain can build the simulator

Exit 0: property held on everything explored; 1: VIOLATION line printed; 2: the machinery itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from jobs import JOBS, PARTS, QUICK_O0                # property -> jobs; group -> number of translation units
SIM = os.path.join(ROOT, 'sim')
PLATFORMS = ['sequential', 'optimized_sequential']
NCPU = min(8, os.cpu_count() or 1)
COMMON = ['-std=gnu++17', '-w', '-fwrapv', '-I' + SIM]


class HarnessError(Exception):
    pass


def sh(cmd, timeout=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build(work, groups, o0):
    """groups: set of group names. Returns {(group, platform): binary}."""
    out = {}
    rt = os.path.join(work, 'simrt.o')

    def cc_rt():
        r = sh(['clang++', '-O2'] + COMMON + ['-c', SIM + '/simrt.cpp', '-o', rt], 600)
        if r.returncode:
            raise HarnessError('simulator runtime does not compile:\n' + r.stdout[-3000:])

    def cc(g, p, k):
        o = os.path.join(work, '%s.%s.%d.o' % (g, p, k))
        cmd = ['clang++', '-O0' if g in o0 else '-O1'] + COMMON + ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-DSIM_PART=%d' % k]
        cmd += ['-I%s/src' % REPO, '-I%s/src/graphblas/platforms/%s' % (REPO, p), '-c', '%s/h_%s.cpp' % (SIM, g), '-o', o]
        r = sh(cmd, 800)
        if r.returncode:
            raise HarnessError('harness %s does not compile against %s (%s):\n%s' % (g, REPO, p, r.stdout[:6000]))
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        f0 = ex.submit(cc_rt)
        order = sorted(groups, key=lambda g: -PARTS.get(g, 1))
        fs = [(g, p, [ex.submit(cc, g, p, k) for k in range(PARTS.get(g, 1))]) for g in order for p in PLATFORMS]
        f0.result()
        for g, p, parts in fs:
            objs = [f.result() for f in parts]
            b = os.path.join(work, '%s.%s' % (g, p))
            # the library defines a few non-inline functions in its headers: identical copies in every part
            r = sh(['clang++', '-no-pie'] + objs + [rt, '-Wl,-z,muldefs', '-o', b], 300)
            if r.returncode:
                raise HarnessError('link failed: ' + r.stdout[-3000:])
            out[(g, p)] = b
    return out


def read_plan(fn):
    d = {'skip': [], 'fault': [], 'sched': [], 'ops': []}
    for l in open(fn):
        l = l.rstrip('\n')
        k, _, v = l.partition(' ')
        if k in d:
            d[k].append(v)
        else:
            d[k] = v
    return d


def write_plan(fn, d, extra=None):
    with open(fn, 'w') as f:
        for k in ('property', 'group', 'platform', 'opt', 'seed', 'cfg', 'maxdim', 'maxops'):
            if k in d:
                f.write('%s %s\n' % (k, d[k]))
        f.write('explicit\n')
        for k in ('ops', 'skip', 'fault', 'sched'):
            for v in d[k]:
                f.write('%s %s\n' % (k, v))
        for k in ('class', 'hash', 'message'):
            if k in d:
                f.write('%s %s\n' % (k, d[k]))


def run_plan(binary, d, work, log=False):
    fd, fn = tempfile.mkstemp(dir=work)
    os.close(fd)
    write_plan(fn, d)
    o = fn + '.o'
    r = sh([binary, '--plan', fn, '--out', o] + (['--log'] if log else []), 200)
    res = read_plan(o) if os.path.exists(o) else {'class': 'harness-error', 'hash': '', 'message': r.stdout}
    for x in (fn, o):
        if os.path.exists(x):
            os.unlink(x)
    res['log'] = r.stdout
    return res


def minimise(binary, d, work, cls, budget=40):
    """Greedy delta-debugging over schedule, faults, calls and sizes; keeps the violation class."""
    t0 = time.time()
    tried = [0]

    def ok(x):
        if time.time() - t0 > budget:
            return False
        tried[0] += 1
        try:
            return run_plan(binary, x, work)['class'] == cls
        except subprocess.TimeoutExpired:
            return False

    def with_(**kw):
        x = dict(d)
        x.update(kw)
        return x
    for key in ('sched', 'fault'):
        if d[key]:
            if ok(with_(**{key: []})):
                d = with_(**{key: []})
                continue
            n = 2
            while len(d[key]) > 1 and time.time() - t0 < budget:
                step = max(1, len(d[key]) // n)
                cut = False
                for i in range(0, len(d[key]), step):
                    x = with_(**{key: d[key][:i] + d[key][i + step:]})
                    if ok(x):
                        d = x
                        cut = True
                        break
                if cut:
                    n = max(2, n - 1)
                elif step == 1:
                    break
                else:
                    n *= 2
    ops = [(int(a.split()[0]), k) for a in d['ops'] for k in range(int(a.split()[1]))]
    have = set(tuple(map(int, s.split())) for s in d['skip'])
    for c, k in reversed(ops):
        if (c, k) not in have:
            x = with_(skip=d['skip'] + ['%d %d' % (c, k)])
            if ok(x):
                d = x
    for m in (1, 2, 3, 4, 6, 8):
        x = with_(maxdim=m)
        if ok(x):
            d = x
            break
    if d['sched'] and ok(with_(sched=[])):
        d = with_(sched=[])
    return d, tried[0]


def popcount(fn, acc):
    b = open(fn, 'rb').read()
    half = len(b) // 2
    for i in (0, 1):
        acc[i] |= int.from_bytes(b[i * half:(i + 1) * half], 'little')


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) replay=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def check(pid, tier, seed, tlim):
    t0 = time.time()
    spec = JOBS[pid]
    jobs = spec['jobs']
    if tlim is None:
        tlim = spec.get('time', 26) if tier == 'quick' else spec.get('thorough_time', 600)
    work = tempfile.mkdtemp(prefix='simchk.')
    try:
        o0 = set() if tier != 'quick' else set(g for g, _, _ in jobs) if len(jobs) > 1 else set(QUICK_O0)
        bins = build(work, sorted(set(g for g, _, _ in jobs)), o0)
        t_build = time.time() - t0
        # determinism: the same runs give the same traces in fresh processes
        det = []
        for (g, p), b in bins.items():
            cf = ','.join(c for gg, c, _ in jobs if gg == g)
            det.append((g, p, b, cf))

        def det1(x):
            g, p, b, cf = x
            a = [sh([b, '--cfg', cf, '--seed', str(seed), '--start', '7', '--maxruns', '6', '--hashes'], 200).stdout for _ in range(2)]
            if a[0] != a[1]:
                raise HarnessError('not deterministic: %s %s\n%s\n%s' % (g, p, a[0], a[1]))
            return a[0].count('\n')
        with ThreadPoolExecutor(NCPU) as ex:
            n_det = sum(ex.map(det1, det))
        # known findings: must still be there, must not hide anything else
        known = []
        for rp, text in known_findings(pid):
            d = read_plan(os.path.join(ROOT, rp))
            b = bins.get((d['group'], d['platform']))
            res = run_plan(b, d, work)
            if res['class'] == d['class']:
                print('KNOWN-FINDING: property=%s %s' % (pid, text))
                known.append(text)
        # search
        wsum = float(sum(w for _, _, w in jobs))
        tasks = []
        for ji, (g, cfgs, w) in enumerate(jobs):
            core_s = tlim * NCPU * w / wsum / 2           # per platform
            shards = max(1, min(NCPU // 2, int(round(core_s / max(4.0, tlim / 2.0)))))
            for p in PLATFORMS:
                for s in range(shards):
                    tasks.append((g, p, cfgs, s, shards, core_s / shards, ji))
        tasks.sort(key=lambda t: (t[3], -t[5]))
        stop = [False]
        procs = set()

        def run1(i):
            g, p, cfgs, s, shards, tt, ji = tasks[i]
            if stop[0]:
                return i, None
            out = os.path.join(work, 'o%d' % i)
            pr = subprocess.Popen([bins[(g, p)], '--cfg', cfgs, '--seed', str(seed * 1000 + ji), '--start', str(s), '--stride', str(shards),
                                   '--time', '%.2f' % tt, '--out', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            procs.add(pr)
            o = pr.communicate()[0]
            procs.discard(pr)
            return i, (pr.returncode, out, o)
        results = []
        viols = []
        errs = []
        with ThreadPoolExecutor(NCPU) as ex:
            for f in as_completed([ex.submit(run1, i) for i in range(len(tasks))]):
                i, r = f.result()
                if r is None:
                    continue
                if r[0] in (0, 1) and os.path.exists(r[1] + '.json'):
                    results.append((tasks[i], r[1]))
                if r[0] == 1:
                    viols.append((tasks[i], r[1] + '.plan'))
                    if not stop[0]:
                        stop[0] = True
                        for q in list(procs):
                            q.terminate()
                elif r[0] != 0 and not stop[0]:
                    errs.append((tasks[i], r))
        if errs and not viols:
            raise HarnessError('%s: exit %s\n%s' % (errs[0][0], errs[0][1][0], errs[0][1][2][-3000:]))
        # aggregate
        agg = {}
        fired, planned, probes = {}, {}, {}
        bm = [0, 0]
        for t, o in results:
            j = json.load(open(o + '.json'))
            for k, v in j.items():
                if isinstance(v, (int, float)) and k not in ('rc', 'max_live_blocks'):
                    agg[k] = agg.get(k, 0) + v
            for src, dst in ((j['fired'], fired), (j['planned'], planned), (j['probes'], probes)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            popcount(o + '.bm', bm)
        samples = []
        for (g, p, b, cf) in det[:2]:
            fn = os.path.join(work, 's')
            o = sh([b, '--cfg', cf, '--seed', str(seed * 1000), '--start', '1', '--maxruns', '1', '--log'], 100).stdout
            samples.append({'group': g, 'platform': p, 'run': o[:1500]})
        replay = None
        rc = 0
        reported = []
        if viols:
            rc = 1
            (g, p, cfgs, *_), pl = viols[0]
            d = read_plan(pl)
            d.update(property=pid, group=g, platform=p, opt='-O0' if g in o0 else '-O1')
            first = run_plan(bins[(g, p)], d, work)
            if first['class'] != d['class']:
                raise HarnessError('violation %s does not reproduce from its own plan (%s)' % (d['class'], first['class']))
            d2, tried = minimise(bins[(g, p)], d, work, d['class'])
            a = run_plan(bins[(g, p)], d2, work)
            b = run_plan(bins[(g, p)], d2, work)
            if a['class'] != d['class'] or a['hash'] != b['hash'] or b['class'] != a['class']:
                d2 = d
                a = first
                b = run_plan(bins[(g, p)], d2, work)
                if a['hash'] != b['hash']:
                    raise HarnessError('violation is not repeatable: %s' % d['class'])
            d2['class'], d2['hash'], d2['message'] = a['class'], a['hash'], a['message']
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            replay = os.path.join(ROOT, 'replays', '%s-%s.plan' % (pid, a['hash'][:10]))
            write_plan(replay, d2)
            reported.append({'class': a['class'], 'message': a['message'][:1500], 'replay': replay, 'minimiser_trials': tried})
        sim_s = agg.get('wall', 0)
        hours = sim_s / 3600.0 or 1
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
            'coverage': {
                'evaluations': int(agg.get('evals', 0)),
                'distinct_nontrivial': bin(bm[0]).count('1'),
                'rule': spec.get('rule', 'a case is one library call inside a simulated run, checked against the reference model; it is distinct by the hash of (call kind, descriptor, functors, injected fault kind and position, resulting contents), counted in a 2^22-bit map (collisions undercount); rejected-call and unchanged-object checks are not counted'),
                'samples': samples,
                'simulated_runs': int(agg.get('runs', 0)), 'seeds': int(agg.get('runs', 0)),
                'runs_per_cpu_hour': int(agg.get('runs', 0) / hours),
                'simulated_time_memory_accesses': int(agg.get('steps', 0)),
                'library_calls': int(agg.get('ops', 0)),
                'concurrent_runs': int(agg.get('conc_runs', 0)), 'context_switches': int(agg.get('switches', 0)),
                'distinct_interleavings': bin(bm[1]).count('1'),
                'faults_planned': planned, 'faults_fired': fired, 'probes': probes,
                'determinism_runs_compared': n_det,
                'jobs': [{'group': g, 'configurations': c, 'weight': w} for g, c, w in jobs],
                'real_code': 'all of src/graphblas and src/algorithms reached by the groups, both platforms, compiled from /repo with memory-access instrumentation',
                'stubbed': 'heap, locks/atomics/static guards, std::random_device-seeded engines, ostreams passed by the caller, the scheduler',
                'build_s': round(t_build, 1), 'reported': reported, 'known_findings_seen': known,
            },
            'assumptions': ['two 64-bit x86 platforms of the library only (sequential, optimized_sequential)', 'clang -fsanitize=thread instrumentation reports every memory access of library code; libstdc++ templates are included, precompiled libstdc++ code (iostreams) is not'],
            'wall_s': round(time.time() - t0, 1), 'violations': len(reported),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d runs, %d checked calls (%d distinct), %d accesses, faults fired %s, interleavings %d, build %.0fs total %.0fs' % (
            pid, tier, agg.get('runs', 0), agg.get('evals', 0), ev['coverage']['distinct_nontrivial'], agg.get('steps', 0), fired, ev['coverage']['distinct_interleavings'], t_build, time.time() - t0))
        if reported:
            print('violation: %s\n%s' % (reported[0]['class'], reported[0]['message'].replace('\\n', '\n')))
            print('VIOLATION property=%s replay=%s' % (pid, replay))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(fn):
    d = read_plan(fn)
    work = tempfile.mkdtemp(prefix='simrep.')
    try:
        bins = build(work, [d['group']], set([d['group']] if d.get('opt') == '-O0' else []))
        r = run_plan(bins[(d['group'], d['platform'])], d, work, log=True)
        print(r['log'])
        print('class %s hash %s\n%s' % (r['class'], r['hash'], r.get('message', '').replace('\\n', '\n')))
        same = r['class'] == d.get('class') and r['hash'] == d.get('hash')
        print('reproduced exactly' if same else 'NOT reproduced (expected class %s hash %s)' % (d.get('class'), d.get('hash')))
        return 1 if r['class'] != 'none' else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if '--setup' in a:
        work = tempfile.mkdtemp(prefix='simset.')
        try:
            r = sh(['clang++', '-O2'] + COMMON + ['-c', SIM + '/simrt.cpp', '-o', work + '/simrt.o'], 600)
            print(r.stdout)
            return 0 if r.returncode == 0 else 2
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if '--replay' in a:
        return replay(a[a.index('--replay') + 1])
    pid = a[0]
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(a[a.index('--seed') + 1]) if '--seed' in a else int(os.environ.get('VERIF_SEED', '1') or 1)
    tl = float(a[a.index('--time') + 1]) if '--time' in a else None
    return check(pid, tier, seed, tl)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except HarnessError as e:
        print('harness error: %s' % e)
        sys.exit(2)
