#!/usr/bin/env python3
"""check.py <property> : decide one property by seeded simulation (VERIF_SEED, VERIF_TIER).
   check.py --replay FILE [-v] : replay a violation against /repo's working tree.
   check.py --all : every check in turn."""
import os, sys, json, subprocess, time, shutil, struct, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from checks import CHECKS, QUICK_S, THOROUGH_S
REPLAYS = os.path.join(build.OUT, 'replays')
KNOWN = os.path.join(V, 'known-findings.txt')

def known_findings(pid):
    """lines: 'KNOWN property=Cxx scenario=<s> class=<c> <description>' or 'fixed: ...'"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'KNOWN property=(\S+) variant=(\S+) scenario=(\S+) class=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append(dict(variant=m.group(2), scen=m.group(3), cls=m.group(4), text=m.group(5).strip()))
    return out

def die(msg):
    print('ERROR ' + msg); sys.stdout.flush(); raise SystemExit(4)

def replay(path, verbose=False, quiet=False):
    head = dict(l.split(' ', 1) for l in open(path).read().splitlines() if l.startswith('# ') is False and ' ' in l and not l.startswith('D '))
    var = 'vc'
    for l in open(path):
        if l.startswith('# variant '): var = l.split()[2]
    host = build.build_host(); img = build.build_image(var)
    p = subprocess.run([host, '--pe', img, '--replay', path] + (['-v'] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if not quiet: print(p.stdout)
    return p.returncode

def check(pid):
    c = CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    budget = float(os.environ.get('VERIF_TIME', 0)) or (c.get('quick_s', QUICK_S) if tier == 'quick' else c.get('thorough_s', THOROUGH_S))
    host = build.build_host()
    byvar = {}
    for s in c['scens']:
        var, name = s.split(':') if ':' in s else ('vc', s)
        byvar.setdefault(var, []).append(name)
    imgs = {v: build.build_image(v) for v in byvar}
    work = os.path.join(build.OUT, 'work-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True); os.makedirs(REPLAYS, exist_ok=True)
    ncpu = len(os.sched_getaffinity(0)) or 1
    nscen = sum(len(x) for x in byvar.values())
    stats = []; known_hit = {}; findings = []
    kf = known_findings(pid)
    print('property=%s tier=%s seed=%d workers=%d' % (pid, tier, seed, ncpu)); sys.stdout.flush()
    try:
        # determinism gate: the same seeds, in two further fresh processes each, must give the same event hashes
        det = 0
        for var, names in byvar.items():
            kfile = os.path.join(work, 'known-' + var)
            with open(kfile, 'w') as f:
                for k in kf:
                    if k['variant'] == var: f.write('%s %s\n' % (k['scen'], k['cls']))
            b = budget * len(names) / nscen
            procs = []
            for w in range(ncpu):
                out = os.path.join(work, '%s-%d' % (var, w))
                procs.append((out, subprocess.Popen([host, '--pe', imgs[var], '--scen', ','.join(names), '--seed', str(seed), '--runs', '1000000000', '--time', '%.1f' % b,
                              '--worker', str(w), '--nworkers', str(ncpu), '--out', out, '--known', kfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
            for out, p in procs:
                o, _ = p.communicate()
                if p.returncode not in (0, 1) or not os.path.exists(out + '.json'):
                    print(o); die('simulator failed, exit %s' % p.returncode)
                st = json.load(open(out + '.json')); st['variant'] = var; st['out'] = out; stats.append(st)
                for k, v in st['known'].items(): known_hit[(var,) + tuple(k.split(' ', 1))] = v[1]
                if p.returncode == 1: findings.append((var, out + '.replay', o))
            if not any(f[0] == var for f in findings):
                n = max(2, 24 // len(names)) * len(names)
                hs = []
                ps = [subprocess.Popen([host, '--pe', imgs[var], '--scen', ','.join(names), '--seed', str(seed), '--runs', str(n if i else (n + 1) // 2), '--worker', '0', '--nworkers', '1', '--known', kfile, '--dumphash'] + (['--twice'] if not i else []), stdout=subprocess.PIPE, text=True, errors='replace') for i in (0, 1, 1)]
                for p in ps:
                    o, _ = p.communicate()
                    if p.returncode not in (0,): print(o); die('determinism gate: exit %d' % p.returncode)
                    hs.append([l for l in o.splitlines() if l.startswith('H ')])
                if hs[1] != hs[2] or hs[0] != hs[1][:len(hs[0])]: die('determinism gate: two processes disagree on the same seeds')
                det += len(hs[1])
        rep = {}
        for var, rp, o in findings:
            if not os.path.exists(rp): print(o); die('no replay file')
            head = dict(l.split(' ', 1) for l in open(rp).read().splitlines() if ' ' in l and not l.startswith('D '))
            key = (var, head['scenario'], head['class'])
            if key in rep and int(head['decisions']) >= rep[key][1]: continue
            dst = os.path.join(REPLAYS, '%s-%s-%s-%s.replay' % (pid, var, head['scenario'], re.sub(r'\W', '_', head['class'])))
            with open(dst, 'w') as f:
                f.write('# property %s\n# variant %s\n# replay: python3 /verif/check.py --replay %s\n' % (pid, var, dst)); f.write(open(rp).read())
            rep[key] = (dst, int(head['decisions']), o, head)
        # gate: a fresh process must reproduce each violation exactly
        for key, (dst, n, o, head) in rep.items():
            p = subprocess.run([host, '--pe', imgs[key[0]], '--replay', dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode != 1: print(o, p.stdout); die('violation does not reproduce in a fresh process: %s' % dst)
        evidence(pid, tier, seed, c, stats, rep, known_hit, det, time.time() - t0, ncpu)
        for k in kf:
            if (k['variant'], k['scen'], k['cls']) in known_hit or tier == 'quick':
                print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
        for key, (dst, n, o, head) in rep.items():
            print('  %s in scenario %s (%s): %s; seed %s, %d decisions after minimisation' % (head['class'], key[1], key[0], head.get('detail', ''), head['seed'], n))
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        tot = sum(s['runs'] for s in stats)
        print('%s: %d simulated runs, %d distinct non-trivial interleavings, %.0f simulated seconds, %.1f s' % (pid, tot, LAST['distinct'], sum(s['sim_s'] for s in stats), time.time() - t0))
        return 1 if rep else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

LAST = {}
def u64set(paths):
    s = set()
    for p in paths:
        b = open(p, 'rb').read(); s.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
    return s
def addmap(ms):
    o = {}
    for m in ms:
        for k, v in m.items(): o[k] = o.get(k, 0) + v
    return o
def evidence(pid, tier, seed, c, stats, rep, known_hit, det, wall, ncpu):
    hashes = sum(len(u64set([s['out'] + '.hash' for s in stats if s['variant'] == v])) for v in set(s['variant'] for s in stats))
    pairs = sum(len(u64set([s['out'] + '.pairs' for s in stats if s['variant'] == v])) for v in set(s['variant'] for s in stats))
    LAST['distinct'] = hashes
    runs = sum(s['runs'] for s in stats); simwall = max([s['elapsed'] for s in stats] + [0.001])
    el = sum(max(s['elapsed'] for s in stats if s['variant'] == v) for v in set(s['variant'] for s in stats))
    probes = addmap(s['probes'] for s in stats)
    src = ''.join(open(p).read() for p in build.scen_sources() if p.endswith('.c'))
    cov = dict(
        evaluations=runs, distinct_nontrivial=hashes,
        rule='one evaluation = one seeded simulated execution of a scenario (seed = f(VERIF_SEED, run number) decides workload, schedule, clock and faults); counted as distinct and non-trivial when at least two simulated threads ran, at least two context switches happened, and the hash of its sequence of (thread, switch point, wait outcome) was not seen before in this run of the check',
        samples=[dict(x, variant=s['variant']) for s in stats for x in s['samples']][:6],
        seeds_per_hour=int(runs / max(el, 0.001) * 3600), runs_per_hour=int(runs / max(el, 0.001) * 3600), workers=ncpu,
        simulated_seconds=round(sum(s['sim_s'] for s in stats), 3), instrumented_steps=sum(s['steps'] for s in stats), context_switches=sum(s['switches'] for s in stats),
        longest_run_steps=max(s['max_steps'] for s in stats), nontrivial_runs=sum(s['nontrivial'] for s in stats), runs_with_faults=sum(s['faulted_runs'] for s in stats),
        faults_injected={k: v for k, v in addmap(s['faults'] for s in stats).items() if v},
        environment_events=dict(wait_timeouts=sum(s['timeouts'] for s in stats), clock_leaps_while_runnable=sum(s['leaps'] for s in stats), context_redirects=sum(s['redirects'] for s in stats), suspends=sum(s['suspends'] for s in stats), terminations=sum(s['terminates'] for s in stats)),
        distinct_interleavings=hashes, distinct_switch_point_pairs=pairs,
        reached_probes=probes, runs_per_scenario=addmap(s['per_scenario'] for s in stats), variants=sorted(set(s['variant'] for s in stats)),
        determinism_gate='%d seeds re-run in two further processes and (half of them) twice plus by trace replay in a third: identical event hashes' % det,
        real_components=['the whole pthreads4w library, compiled from /repo\'s working tree (%s), PE/COFF code of the cross compiler' % ', '.join('%s: %s' % (v, build.VARIANTS[v]['lib']) for v in sorted(set(s['variant'] for s in stats))), 'mingw-w64 static runtime pieces it links (setjmp glue, string functions)'],
        stub_components=['kernel32/msvcrt (threads, waits, events, semaphores, TLS, heap, clocks, process, affinity, suspend/get/set context): sim/win32.inc', 'CPU and OS scheduler: sim/host.cpp (sequentially consistent, one simulated thread at a time, switch possible before every instrumented memory access and every API call)'],
    )
    if known_hit: cov['known_findings_hit'] = {' '.join(k): v for k, v in known_hit.items()}
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(wall, 2), violations=len(rep),
              assumptions=['sequentially consistent memory', 'simulated Win32 API behaves as documented by Microsoft', 'sampling, not enumeration: a clean batch is evidence and not proof'] + c.get('assume', []))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--replay']: raise SystemExit(replay(a[1], '-v' in a))
    if a[:1] == ['--all']:
        bad = 0
        for pid in CHECKS:
            try: r = check(pid)
            except SystemExit as e: r = e.code
            print('== %s exit %s' % (pid, r)); bad |= r != 0
        raise SystemExit(int(bad))
    raise SystemExit(check(a[0]))
