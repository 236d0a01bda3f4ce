#!/usr/bin/env python3
"""mkseed.py SPEC.py : write /verif/seeded/<id>/ from a spec (id, property, needs, breaks, edits=[(file, old, new)], demo)."""
import re, sys, os, subprocess, json, shutil, tempfile, textwrap
DEMO_SH = r'''#!/bin/bash
# exit 0: the library in the current directory behaves; cwd is /repo, built
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); export HOME=$T WINEPREFIX=$T/wp WINEARCH=win64 WINEDEBUG=-all WINEDLLOVERRIDES="mscoree,mshtml,winemenubuilder.exe,winedbg.exe="
unset DISPLAY WAYLAND_DISPLAY
trap 'wineserver -k 2>/dev/null; rm -rf "$T"' EXIT
x86_64-w64-mingw32-gcc-win32 -O1 -w -I"$R" -DHAVE_CONFIG_H -DMINGW_HAS_SECURE_API -DPTW32_STATIC_LIB -DPTW32_CLEANUP_C "$D/demo.c" @EXTRA@ "$R/_build/libpthreadVC3.a" -o "$T/demo.exe" || exit 3
O=/opt/vp/wineprefix
if [ -f $O/system.reg ]; then      # a private registry over the prepared prefix's files
  mkdir -p "$WINEPREFIX/dosdevices"; cp $O/*.reg "$WINEPREFIX/"; cp $O/.update-timestamp "$WINEPREFIX/" 2>/dev/null
  cp -rs $O/drive_c "$WINEPREFIX/drive_c"; ln -s ../drive_c "$WINEPREFIX/dosdevices/c:"; ln -s / "$WINEPREFIX/dosdevices/z:"
else timeout 200 wineboot -i >/dev/null 2>&1; timeout 30 wineserver -w; fi
timeout 60 wine "$T/demo.exe"; r=$?
echo "demo exit $r"; exit $r
'''
DEMO_H = r'''
#define _WIN32_WINNT 0x0600
#include <windows.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <process.h>
static void fail(const char *why) { printf("FAIL %s\n", why); fflush(stdout); TerminateProcess(GetCurrentProcess(), 1); ExitProcess(1); }
static void ok(void) { printf("OK\n"); fflush(stdout); ExitProcess(0); }
static DWORD WINAPI dog(void *a) { Sleep(20000); fail("hang"); return 0; }
static void watchdog(void) { CloseHandle(CreateThread(NULL, 0, dog, NULL, 0, NULL)); }
static struct timespec in_ms(int ms) { struct timespec t; FILETIME f; unsigned long long n; GetSystemTimeAsFileTime(&f);
  n = (((unsigned long long)f.dwHighDateTime << 32 | f.dwLowDateTime) - 116444736000000000ULL) + ms * 10000LL; t.tv_sec = n / 10000000; t.tv_nsec = n % 10000000 * 100; return t; }
'''
CXX = lambda t: t.replace('gcc-win32 -O1', 'g++-win32 -static -fpermissive -xc++ -include exception -O1').replace('CLEANUP_C ', 'CLEANUP_CXX ').replace('@EXTRA@ "$R/_build/libpthreadVC3.a"', '-xnone @EXTRA@ "$R/_build/libpthreadVCE3.a"')
DLL = lambda t: t.replace('x86_64-w64-mingw32-gcc-win32 -O1', 'x86_64-w64-mingw32-gcc-win32 -O2 -w -shared -I"$R" -DHAVE_CONFIG_H -DMINGW_HAS_SECURE_API -DPTW32_ARCHAMD64 -DPTW32_BUILD_INLINED -DPTW32_BUILD -DPTW32_CLEANUP_C "$R/pthread-JMP.c" -o "$T/pthreadVC3.dll" -Wl,--out-implib,"$T/libpthreadVC3.dll.a" || exit 3\nx86_64-w64-mingw32-gcc-win32 -O1').replace('-DPTW32_STATIC_LIB -DPTW32_CLEANUP_C "$D', '-DPTW32_CLEANUP_C "$D').replace('$R/_build/libpthreadVC3.a', '$T/libpthreadVC3.dll.a')
for spec in sys.argv[1:]:
    g = {}; exec(open(spec).read(), g)
    for s in g['SEEDS']:
        d = '/verif/seeded/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        t = tempfile.mkdtemp()
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'])
        try:
            for f, a, b in s['edits']:
                p = t + '/w/' + f; x = open(p, newline='').read()
                if '\r\n' in x: b = b.replace('\n', '\r\n')
                m = list(re.finditer(r'\s+'.join(map(re.escape, a.split())), x))     # whitespace-insensitive, must be unique
                assert len(m) == 1, (s['id'], f, len(m), a)
                open(p, 'w', newline='').write(x[:m[0].start()] + b.strip() + x[m[0].end():])
            diff = subprocess.check_output(['git', '-C', t + '/w', 'diff'])
        finally:
            subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w']); shutil.rmtree(t)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.c', 'w').write('/* %s */\n' % s['breaks'].replace('*/', '') + DEMO_H.lstrip() + textwrap.dedent(s['demo']))
        open(d + '/demo.sh', 'w').write((CXX(DEMO_SH) if s.get('cxx') else DLL(DEMO_SH) if s.get('dll') else DEMO_SH).replace('@EXTRA@', s.get('link', ''))); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], len(diff))
