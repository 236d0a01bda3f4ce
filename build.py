#!/usr/bin/env python3
"""Build the simulator host and the simulated PE images from /repo's working tree."""
import os, sys, re, subprocess, hashlib, glob, shutil, fcntl, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(V, 'build')
GCC = 'x86_64-w64-mingw32-gcc-win32'
GXX = 'x86_64-w64-mingw32-g++-win32'
BASE = ['-DPTW32_ARCHAMD64', '-DPTW32_BUILD_INLINED', '-DPTW32_STATIC_LIB', '-I' + REPO, '-DHAVE_CONFIG_H', '-DMINGW_HAS_SECURE_API', '-O2']
VARIANTS = {
    'vc':    dict(cc=GCC, lib='pthread-JMP.c', defs=['-DPTW32_CLEANUP_C'], lang='c'),
    'ce':    dict(cc=GXX, lib='pthread-EH.cpp', defs=['-DPTW32_CLEANUP_CXX', '-include', 'exception'], scenflags=['-xc++', '-fpermissive'], cxx=True),
    'dll':   dict(cc=GCC, lib='pthread-JMP.c', defs=['-DPTW32_CLEANUP_C', '-UPTW32_STATIC_LIB', '-DPTW32_BUILD', '-DSIM_DLL'], lang='c', dll=True),
    'small': dict(cc=GCC, lib='pthread-JMP.c', defs=['-DPTW32_CLEANUP_C', '-include', os.path.join(V, 'sim', 'smallint.h')], lang='c'),
}

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), p.stdout[-6000:]))
        raise SystemExit(5)
    return p.stdout

def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def repo_sources():
    return [p for e in ('*.c', '*.h', '*.cpp') for p in glob.glob(os.path.join(REPO, e))]
def sim_sources():
    return [p for p in glob.glob(os.path.join(V, 'sim', '*')) if os.path.isfile(p)] + [os.path.join(V, 'build.py')]
def scen_sources():
    return [p for p in glob.glob(os.path.join(V, 'scen', '*')) if os.path.isfile(p)]

def locked(fn):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return fn()

def build_host():
    d = digest(sim_sources())
    exe = os.path.join(OUT, 'simrun-' + d)
    def go():
        if os.path.exists(exe):
            return exe
        tmp = exe + '.tmp'
        objs = []
        for old in glob.glob(os.path.join(OUT, 'simrun-*')):
            os.unlink(old)
        cpps = [os.path.join(V, 'sim', 'host.cpp')]
        run(['g++', '-O2', '-g', '-std=c++17', '-no-pie', '-fno-pie', '-fno-stack-protector', '-fcf-protection=none', '-o', tmp] + cpps + [os.path.join(V, 'sim', 'ctx.S')])
        os.rename(tmp, exe)
        return exe
    return locked(go)

def build_image(variant):
    va = VARIANTS[variant]
    d = digest(repo_sources() + sim_sources() + scen_sources())
    img = os.path.join(OUT, '%s-%s.exe' % (variant, d))
    def go():
        if os.path.exists(img):
            return img
        for old in glob.glob(os.path.join(OUT, variant + '-*')):
            if os.path.isdir(old): shutil.rmtree(old)
            else: os.unlink(old)
        w = os.path.join(OUT, '%s-%s.d' % (variant, d)); os.makedirs(w, exist_ok=True)
        instr = os.path.join(V, 'sim', 'instr.py')
        names = []
        procs = []
        scs = sorted(glob.glob(os.path.join(V, 'scen', '*.c')))
        for s in scs:
            names += re.findall(r'^SCENARIO\((\w+)\)', open(s).read(), re.M)
        with open(os.path.join(w, 'scens.c'), 'w') as f:
            f.write('#include "simapi.h"\n' + ''.join('void scen_%s(void);\n' % n for n in names))
            f.write('__declspec(dllexport) const struct scen sim_scens[] = {\n' + ''.join('{"%s", scen_%s},\n' % (n, n) for n in names) + '{0,0}};\n')
        inc = ['-I' + os.path.join(V, 'sim'), '-I' + os.path.join(V, 'scen')]
        units = [('lib', va['cc'], os.path.join(REPO, va['lib']), BASE + va['defs'], True)]
        for s in scs:
            units.append((os.path.basename(s)[:-2], va['cc'], s, BASE + va['defs'] + va.get('scenflags', []) + inc + ['-w'], True))
        units.append(('guest_main', GCC, os.path.join(V, 'sim', 'guest_main.c'), ['-O1'] + (['-DSIM_DLL'] if va.get('dll') else []) + inc, False))
        units.append(('scens', GCC, os.path.join(w, 'scens.c'), ['-O1'] + inc, False))
        if va.get('cxx'):
            units.append(('cxxrt', GCC, os.path.join(V, 'sim', 'cxxrt.c'), ['-O1', '-fno-builtin'] + inc, False))
        for n, cc, src, fl, ins in units:
            procs.append((n, ins, subprocess.Popen([cc] + fl + ['-w', '-S', src, '-o', os.path.join(w, n + '.s')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = None
        for n, ins, p in procs:
            o, _ = p.communicate()
            if p.returncode: bad = (n, o)
        if bad:
            sys.stderr.write('BUILD FAILED: %s\n%s\n' % bad); raise SystemExit(5)
        objs = []; asms = []
        for n, ins, p in procs:
            s = os.path.join(w, n + '.s')
            if ins:
                s2 = os.path.join(w, n + '.i.s'); run([sys.executable, instr, s, s2]); s = s2
            asms.append(subprocess.Popen([GCC, '-c', s, '-o', os.path.join(w, n + '.o')])); objs.append(os.path.join(w, n + '.o'))
        for a in asms:
            if a.wait(): raise SystemExit(5)
        run([GCC, '-c', os.path.join(V, 'sim', 'hook.S'), '-o', os.path.join(w, 'hook.o')])
        if va.get('cxx'):
            run([GCC, '-c', os.path.join(V, 'sim', 'cxxrt.S'), '-o', os.path.join(w, 'cxxrt_s.o')]); objs.append(os.path.join(w, 'cxxrt_s.o'))
        run(['x86_64-w64-mingw32-dlltool', '-d', os.path.join(V, 'sim', 'simhost.def'), '-l', os.path.join(w, 'libsimhost.a')])
        tmp = img + '.tmp'
        run([GCC, '-nostartfiles', '-nostdlib', '-o', tmp] + objs + [os.path.join(w, 'hook.o'), '-L' + w, '-Wl,--start-group', '-lsimhost', '-lmingwex', '-lmsvcrt', '-lkernel32', '-lgcc', '-Wl,--end-group',
             '-Wl,-e,sim_guest_main', '-Wl,--image-base,0x140000000', '-Wl,--disable-dynamicbase', '-Wl,--disable-auto-import', '-Wl,--subsystem,console', '-Wl,-Map,' + os.path.join(w, 'map')])
        syms = run(['x86_64-w64-mingw32-nm', '-n', tmp])
        with open(img + '.sym', 'w') as f:
            for l in syms.splitlines():
                m = re.match(r'([0-9a-f]+) [tT] (\S+)', l)
                if m and not m.group(2).startswith('.'): f.write('%x %s\n' % (int(m.group(1), 16) - 0x140000000, m.group(2)))
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(w)
        os.rename(tmp, img)
        return img
    return locked(go)

if __name__ == '__main__':
    t = time.time()
    print(build_host())
    for v in sys.argv[1:] or ['vc']:
        print(build_image(v))
    print('%.1fs' % (time.time() - t))
