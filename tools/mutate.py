#!/usr/bin/env python3
"""mutate.py [-n N] [-s seed] [-t secs] [-j workers] [-o out.jsonl] [-R survivors-of.jsonl] [-M matrix-of-detected.jsonl] [files...]: systematic mutation of the library; which scenarios notice?
Works on copies in /tmp; prints survivors.  A development tool: no check uses it."""
import os, re, sys, subprocess, random, json, shutil, glob, argparse, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, os.path.join(V, 'tools')]
import build
from checks import CHECKS
from props import PROPS
ap = argparse.ArgumentParser(); ap.add_argument('-n', type=int, default=100); ap.add_argument('-s', type=int, default=1); ap.add_argument('-t', type=float, default=15); ap.add_argument('-T', type=float, default=40); ap.add_argument('-j', type=int, default=8); ap.add_argument('-o', default='/tmp/mut/out.jsonl'); ap.add_argument('-V', default='vc'); ap.add_argument('-l', action='store_true'); ap.add_argument('-k'); ap.add_argument('-R'); ap.add_argument('-M'); ap.add_argument('files', nargs='*'); A = ap.parse_args()
inv = lambda s: (s.split(':')[0] if ':' in s else 'vc') == A.V and not re.match(r'(long|many)_', s.split(':')[-1])   # those take too long per run
f2s = {}; f2p = {}
for p in PROPS:
    for f in p['anchors']['files']:
        f2p.setdefault(f, []).append(p['id'])
        for s in CHECKS.get(p['id'], {}).get('scens', []):
            if inv(s) and s.split(':')[-1] not in f2s.setdefault(f, []): f2s[f].append(s.split(':')[-1])
allsc = sorted({s.split(':')[-1] for c in CHECKS.values() for s in c['scens'] if inv(s)})
GROUPS = [('nWaitersBlocked', 'nWaitersToUnblock', 'nWaitersGone'), ('nSharedAccessCount', 'nCompletedSharedAccessCount', 'nExclusiveAccessCount'), ('semBlockLock', 'semBlockQueue'),
  ('mtxExclusiveAccess', 'mtxSharedAccessCompleted'), ('threadLock', 'stateLock', 'keyLock'), ('PTHREAD_CANCEL_ENABLE', 'PTHREAD_CANCEL_DISABLE'), ('PTHREAD_CANCEL_ASYNCHRONOUS', 'PTHREAD_CANCEL_DEFERRED'),
  ('PTHREAD_CREATE_DETACHED', 'PTHREAD_CREATE_JOINABLE'), ('PThreadStateRunning', 'PThreadStateCancelPending', 'PThreadStateCanceling', 'PThreadStateLast'), ('EBUSY', 'EINVAL', 'ETIMEDOUT'), ('ESRCH', 'EINVAL'), ('EAGAIN', 'ENOMEM'),
  ('PTHREAD_MUTEX_RECURSIVE', 'PTHREAD_MUTEX_ERRORCHECK', 'PTHREAD_MUTEX_NORMAL'), ('nInitialBarrierHeight', 'nCurrentBarrierHeight'), ('sched_priority', 'sched_policy'), ('prevReuse', 'nextReuse'), ('nextThread', 'nextKey'), ('prevThread', 'prevKey'),
  ('nextThread', 'prevThread'), ('nextKey', 'prevKey'), ('PTW32_ROBUST_CONSISTENT', 'PTW32_ROBUST_INCONSISTENT', 'PTW32_ROBUST_NOTRECOVERABLE'), ('PTW32_TRUE', 'PTW32_FALSE'), ('WAIT_OBJECT_0', 'WAIT_TIMEOUT')]
def blank(m): return re.sub(r'[^\n]', ' ', m.group(0))
def pairs(y):
    """adjacent simple statements"""
    out = []; last = None
    for m in re.finditer(r'(?<=[;{}\n])[ \t]*((?:\(void\)\s*)?[A-Za-z_*(][^;{}#]*;)', y):
        t = m.group(1).strip()
        if re.match(r'(if|while|for|return|else|switch|case|do|goto|break|continue|typedef|static|extern|default|int|long|void|char|unsigned|DWORD|HANDLE|size_t|pthread_\w+_t|ptw32_\w+_t|struct|const|ULONG|LONG|FILETIME|SYSTEMTIME|DWORD_PTR|cpu_set_t|sem_t|int64_t|ptw32_\w+)\b(?!\s*\()', t): last = None; continue
        if last and y[last[1]:m.start(1)].strip() == '': out.append((last[0], m.end(1), y[last[0]:last[1]], y[last[1]:m.start(1)], m.group(1)))
        last = (m.start(1), m.end(1))
    return out
def sites(f):
    x = open(os.path.join(build.REPO, f), newline='').read()
    y = re.sub(r'/\*.*?\*/|//[^\n]*|"(\\.|[^"\n])*"', blank, x, flags=re.S); y = re.sub(r'^[ \t]*#[^\n]*(\\\n[^\n]*)*', blank, y, flags=re.M)
    i0 = y.find('\n{'); out = []
    def add(a, b, new, k): out.append((f, a, b, new, k))
    for m in re.finditer(r'(?<![=<>!+\-*/&|])(==|!=|<=|>=|<|>|&&|\|\|)(?![=<>&|])', y):
        if m.start() < i0: continue
        if m.group(1) in '<>' and y[m.start()-1] == '-': continue
        for r in {'==': ['!='], '!=': ['=='], '<=': ['<'], '>=': ['>'], '<': ['<='], '>': ['>='], '&&': ['||'], '||': ['&&']}[m.group(1)]: add(m.start(1), m.end(1), r, 'op')
    for m in re.finditer(r'(?<=[;{}\n])[ \t]*((?:\(void\)\s*)?(?:[A-Za-z_][\w\->.\[\]\*\s()&]*?(?:=(?!=)|\(|\+\+|--|[+\-|&]=)|\+\+|--)[^;{}]*;)', y):
        if m.start() < i0: continue
        t = m.group(1)
        if re.match(r'(if|while|for|return|else|switch|case|do|goto|break|typedef|static|extern)\b', t) or re.match(r'(int|long|void|char|unsigned|DWORD|HANDLE|size_t|pthread_\w+_t|ptw32_\w+_t|struct|sem_t|register|const)\b[\s\*]+\w', t): continue
        add(m.start(1), m.end(1), ';', 'del')
    for m in re.finditer(r'\bif\s*\(', y):
        if m.start() < i0: continue
        d = 0; j = m.end() - 1
        while True:
            d += {'(': 1, ')': -1}.get(y[j], 0)
            if d == 0: break
            j += 1
        add(m.end(), j, '0', 'if0'); add(m.end(), j, '1', 'if1')
    for m in re.finditer(r'(?<![\w.])(-?)([012])(?![\w.])', y):
        if m.start() < i0: continue
        v = m.group(0); add(m.start(), m.end(), {'0': '1', '1': '0', '-1': '1', '2': '1', '-0': '0', '-2': '0'}[v], 'const')
    for m in re.finditer(r'(\+\+|--|\+=|-=)', y):
        if m.start() < i0: continue
        add(m.start(), m.end(), {'++': '--', '--': '++', '+=': '-=', '-=': '+='}[m.group(1)], 'inc')
    for m in pairs(y):
        a, b, s1, gap, s2 = m
        if a < i0: continue
        add(a, b, s2 + gap + s1, 'swap')
    for m in re.finditer(r'\b(if|while)\s*\(', y):          # drop one operand of a condition
        if m.start() < i0: continue
        d = 0; j = m.end() - 1; cut = [m.end()]
        while True:
            d += {'(': 1, ')': -1}.get(y[j], 0)
            if d == 0: break
            if d == 1 and y[j:j+2] in ('&&', '||'): cut += [j, j + 2]
            j += 1
        cut.append(j); seg = [(cut[k], cut[k+1]) for k in range(0, len(cut), 2)]
        if len(seg) > 1 and len({y[seg[k][1]:seg[k][1]+2] for k in range(len(seg) - 1)}) == 1:
            o = y[seg[0][1]:seg[0][1]+2]
            for k in range(len(seg)): add(m.end(), j, (' ' + o + ' ').join(x[a:b].strip() for q, (a, b) in enumerate(seg) if q != k), 'term')
        if m.group(1) == 'while' and not re.search(r'\}\s*$', y[:m.start()][-40:]) : add(m.start(1), m.end(1), 'if', 'whileif')
    for m in re.finditer(r'COMPARE_EXCHANGE_(LONG|PTR|SIZE)\s*\(', y):
        d = 0; j = m.end() - 1; c = []
        while True:
            d += {'(': 1, ')': -1}.get(y[j], 0)
            if d == 0: break
            if d == 1 and y[j] == ',': c.append(j)
            j += 1
        if len(c) == 2: add(m.start(), j, 'EXCHANGE_' + m.group(1) + ' (' + x[m.end():c[1]], 'cas')
    def block_end(k):
        """k: index of '{' -> index after its '}' and after any else part"""
        d = 0
        while True:
            d += {'{': 1, '}': -1}.get(y[k], 0); k += 1
            if d == 0: break
        e = re.match(r'\s*else\s*(if\s*\([^{}]*\)\s*)?\{', y[k:])
        return block_end(k + e.end() - 1) if e else k
    LOCKF = r'(?:\(void\)\s*)?(?:ptw32_mcs_lock_%s|pthread_mutex_%s|pthread_spin_%s)\s*\([^;{}]*;'
    for m in re.finditer(r'\bif\s*\([^;{}]*\)\s*\{', y):
        if m.start() < i0: continue
        try: e = block_end(m.end() - 1)
        except IndexError: continue
        r = re.match(r'\s*(' + LOCKF % ('release', 'unlock', 'unlock') + ')', y[e:])
        if r: add(m.start(), e + r.end(), r.group(1) + ' ' + x[m.start():e], 'hoist')
        a = re.search(r'(' + LOCKF % ('acquire', 'lock', 'lock') + r')\s*$', y[:m.start()])
        if a: add(a.start(), e, x[m.start():e] + ' ' + a.group(1), 'sink')
    for g in GROUPS:
        for m in re.finditer(r'\b(' + '|'.join(g) + r')\b', y):
            if m.start() < i0: continue
            for o in g:
                if o != m.group(1): add(m.start(1), m.end(1), o, 'name')
    return out, x
files = A.files or sorted(os.path.basename(p) for p in glob.glob(build.REPO + '/*.c') if os.path.basename(p) not in ('pthread.c', 'pthread-JMP.c', 'dll.c', 'config.h', 'signal.c', 'create.c'))
src = {}; S = []
for f in files:
    o, x = sites(f); src[f] = x; S += [s for s in o if not A.k or s[4] in A.k.split(',')]
print(len(S), 'sites'); random.Random(A.s).shuffle(S)
if A.l: sys.exit()
if A.R: S = [(j['f'], j['a'], j['b'], j['new'], j['k']) for j in map(json.loads, open(A.R)) if j['res'] == 'SURVIVED']   # once more, those that survived
if A.M: S = [(j['f'], j['a'], j['b'], j['new'], j['k']) for j in map(json.loads, open(A.M)) if j['res'] != 'SURVIVED']      # which of the properties anchored in the file notice?
random.Random(A.s).shuffle(S)
os.environ['VERIF_KEEP'] = '1'
BASEIMG = subprocess.check_output([sys.executable, '-c', 'import sys;sys.path.insert(0,%r);import build;build.OUT="/tmp/mut/build";print(build.build_host());print(build.build_image("%s"))' % (V, A.V)], text=True).split()
host, img = BASEIMG; objd = img[:-4] + '.d'
va = build.VARIANTS[A.V]
def lib_s(tree, out):
    cmd = [va['cc']] + [a.replace('-I' + build.REPO, '-I' + tree) for a in build.BASE] + va['defs'] + ['-w', '-S', os.path.join(tree, va['lib']), '-o', out]
    return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
def mktree(w):
    t = '/tmp/mut/w%d' % w; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    for p in build.repo_sources(): shutil.copy(p, t)
    return t
t0 = mktree(99); lib_s(t0, '/tmp/mut/base.s')
strip = lambda p: '\n'.join(l for l in open(p).read().splitlines() if not re.match(r'\s*(\.(file|ident|loc)|#)', l))
base = strip('/tmp/mut/base.s')
done = set()
if os.path.exists(A.o):
    for l in open(A.o): j = json.loads(l); done.add((j['f'], j['a'], j['b'], j['new']))
def one(arg):
    w, m = arg; f, a, b, new, k = m; t = trees[w]
    x = src[f]; open(os.path.join(t, f), 'w', newline='').write(x[:a] + new + x[b:])
    try:
        s = '/tmp/mut/m%d' % w; rec = dict(f=f, a=a, b=b, new=new, k=k, line=x.count('\n', 0, a) + 1, old=x[a:b])
        if lib_s(t, s + '.s'): return None
        y = strip(s + '.s')
        if y == base: return None
        if subprocess.call([sys.executable, V + '/sim/instr.py', s + '.s', s + '.i.s']) or subprocess.call([build.GCC, '-c', s + '.i.s', '-o', s + '.o']): return None
        objs = [p for p in glob.glob(objd + '/*.o') if os.path.basename(p) != 'lib.o']
        if subprocess.run([va['cc'], '-nostartfiles', '-nostdlib', '-o', s + '.exe', s + '.o'] + objs + ['-L' + objd, '-Wl,--start-group', '-lsimhost', '-lmingwex', '-lmsvcrt', '-lkernel32', '-lgcc', '-Wl,--end-group', '-Wl,-e,sim_guest_main', '-Wl,--image-base,0x140000000', '-Wl,--disable-dynamicbase', '-Wl,--disable-auto-import', '-Wl,--subsystem,console'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return None
        rel = list(dict.fromkeys(f2s.get(f, [])))
        rec['res'] = 'SURVIVED'
        todo = [(rel, A.t, 0), (allsc, A.T, 0)] if not A.M else [(sorted({s.split(':')[-1] for s in CHECKS[q]['scens'] if inv(s)}), A.t, q) for q in f2p.get(f, []) if q in CHECKS]
        for names, tm, prop in todo:
            if not names: continue
            if prop: rec.setdefault('by', {})[prop] = None
            for q in glob.glob(s + '.out*'): os.unlink(q)
            p = subprocess.run([host, '--pe', s + '.exe', '--scen', ','.join(names), '--seed', '5', '--runs', '1000000000', '--time', str(tm), '--worker', '0', '--nworkers', '1', '--out', s + '.out'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode != 0:
                try: h = dict(l.split(' ', 1) for l in open(s + '.out.replay').read().splitlines() if ' ' in l and not l.startswith('D ')); rec['res'] = '%s/%s' % (h['scenario'], h['class'])
                except Exception: rec['res'] = 'exit %d' % p.returncode
                if prop: rec['by'][prop] = rec['res']; continue
                if names is allsc: rec['late'] = 1
                break
        return rec
    finally:
        open(os.path.join(t, f), 'w', newline='').write(x)
import queue
trees = {w: mktree(w) for w in range(A.j)}; free = queue.Queue(); [free.put(w) for w in range(A.j)]
S = [m for m in S if (m[0], m[1], m[2], m[3]) not in done]
cnt = [0, 0, 0]
def go(m):
    if cnt[0] >= A.n: return
    w = free.get()
    try: r = one((w, m))
    finally: free.put(w)
    if not r: return
    cnt[0] += 1; cnt[1] += r['res'] == 'SURVIVED'; cnt[2] += 'late' in r
    open(A.o, 'a').write(json.dumps(r) + '\n')
    if r['res'] == 'SURVIVED': print('%s:%d [%s] %r -> %r' % (r['f'], r['line'], r['k'], r['old'][:90], r['new'])); sys.stdout.flush()
with ThreadPoolExecutor(A.j) as ex: list(ex.map(go, S))
print('mutants %d survived %d late %d' % tuple(cnt))
