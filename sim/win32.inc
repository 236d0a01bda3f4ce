// Simulated kernel32 / msvcrt. Included by host.cpp.
enum { FI_ALLOC, FI_EVENT, FI_SEM, FI_THREAD, FI_TLS, FI_DUP, FI_AFF, FI_PRIO, FI_OPENP, FI_CLOCK, FI_LATE, FI_STALL };
static bool tls_used[64]; static long live_tls; static std::vector<Thread *> *dead_pending_p; static Thread *dead_pending[MAXT]; static int n_dead_pending;
static void win32_reset() { memset(tls_used, 0, sizeof tls_used); tls_used[0] = true; live_tls = 0; n_dead_pending = 0; (void)dead_pending_p; WALL0 = 133500000000000000ull; }
static u64 wallclk() { return WALL0 + now() + wall_off; }
static const u64 EPOCH = 116444736000000000ull;

#define PT() point(CALLER)
static u64 W h_CreateEventA(void *sa, int manual, int init, const char *name) { u64 pc = CALLER; (void)sa; (void)name; point(pc); if (fault(FI_EVENT)) { cur->lasterr = 8; return 0; } Obj *o = new_obj(T_EVENT, pc); o->manual = manual; o->sig = init; cur->lasterr = 0; u64 h = new_handle(o); vl("CreateEvent #%d = %llx", o->id, (unsigned long long)h); return h; }
EXPORT(CreateEventA); EXPORT_AS("CreateEventW", CreateEventW, h_CreateEventA);
static u64 W h_CreateSemaphoreA(void *sa, int init, int max, const char *name) { u64 pc = CALLER; (void)sa; (void)name; point(pc); if (fault(FI_SEM)) { cur->lasterr = 8; return 0; } if (init < 0 || max <= 0 || init > max) { cur->lasterr = 87; return 0; } Obj *o = new_obj(T_SEM, pc); o->count = init; o->max = max; cur->lasterr = 0; u64 h = new_handle(o); vl("CreateSemaphore #%d = %llx", o->id, (unsigned long long)h); return h; }
EXPORT(CreateSemaphoreA); EXPORT_AS("CreateSemaphoreW", CreateSemaphoreW, h_CreateSemaphoreA);
static u64 W h_CreateMutexA(void *sa, int own, const char *name) { u64 pc = CALLER; (void)sa; (void)name; point(pc); if (fault(FI_EVENT)) { cur->lasterr = 8; return 0; } Obj *o = new_obj(T_MUTEX, pc); if (own) { o->owner = cur; o->depth = 1; } return new_handle(o); }
EXPORT(CreateMutexA); EXPORT_AS("CreateMutexW", CreateMutexW, h_CreateMutexA);
static int W h_ReleaseMutex(u64 h) { PT(); Obj *o = deref(h, "ReleaseMutex", CALLER); if (!o || o->type != T_MUTEX) { cur->lasterr = 6; return 0; } if (o->owner != cur) { cur->lasterr = 288; return 0; } if (--o->depth == 0) { o->owner = nullptr; signal_obj(o); } PT(); return 1; }
EXPORT(ReleaseMutex);
static int W h_CloseHandle(u64 h) {
  u64 pc = CALLER; point(pc);
  if (h == (u64)-1 || h == (u64)-2) return 1;
  int i = hidx(h);
  if (i > 0 && H[i].open) { H[i].open = false; H[i].close_pc = pc; H[i].close_tid = cur->id; H[i].o->nh--; hfree.push_back(i); vl("CloseHandle %llx #%d", (unsigned long long)h, H[i].o->id); mix(h); return 1; }
  if (i > 0 && !allow_handles) end_run_violation("stale-handle", "CloseHandle(%llx) at %llx: already closed by t%d at %llx", (unsigned long long)h, (unsigned long long)pc, H[i].close_tid, (unsigned long long)H[i].close_pc);
  cur->lasterr = 6; return 0;
}
EXPORT(CloseHandle);
static int W h_SetEvent(u64 h) { u64 pc = CALLER; point(pc); Obj *o = deref(h, "SetEvent", pc); if (!o || o->type != T_EVENT) { cur->lasterr = 6; return 0; } o->sig = true; vl("SetEvent #%d", o->id); mix(o->id + 1000); signal_obj(o); point(pc); return 1; }
EXPORT(SetEvent);
static int W h_ResetEvent(u64 h) { u64 pc = CALLER; point(pc); Obj *o = deref(h, "ResetEvent", pc); if (!o || o->type != T_EVENT) { cur->lasterr = 6; return 0; } o->sig = false; vl("ResetEvent #%d", o->id); return 1; }
EXPORT(ResetEvent);
static int W h_PulseEvent(u64 h) { u64 pc = CALLER; point(pc); Obj *o = deref(h, "PulseEvent", pc); if (!o || o->type != T_EVENT) { cur->lasterr = 6; return 0; } o->sig = true; signal_obj(o); o->sig = false; point(pc); return 1; }
EXPORT(PulseEvent);
static int W h_ReleaseSemaphore(u64 h, int n, int *prev) { u64 pc = CALLER; point(pc); Obj *o = deref(h, "ReleaseSemaphore", pc); if (!o || o->type != T_SEM) { cur->lasterr = 6; return 0; } if (n <= 0) { cur->lasterr = 87; return 0; } if (o->count + n > o->max) { cur->lasterr = 298; return 0; } if (prev) { guest_mem = true; *prev = o->count; guest_mem = false; } o->count += n; vl("ReleaseSemaphore #%d +%d -> %ld", o->id, n, o->count); mix(o->id + 2000); signal_obj(o); point(pc); return 1; }
EXPORT(ReleaseSemaphore);

static u64 dl_from_ms(u32 ms) { if (ms == 0xffffffffu) return NODL; u64 d = now() + (u64)ms * 10000; if (ms && fault(FI_LATE)) d += (u64)(1 + choose(K_LATE, 64)) * 10000; return d; }
static u32 wait_common(u64 pc) { // cur->wo/nw/wall/deadline set
  int r = try_wait(cur); if (r >= 0) { vl("wait satisfied immediately #%d", cur->wo[r]->id); mix(r + 5); return r; }
  if (cur->deadline <= now()) return 0x102;
  cur->wkind = 1; vl("blocks on #%d%s", cur->wo[0]->id, cur->nw > 1 ? ".." : ""); block(pc); vl("wait returns %d", cur->wres); return cur->wres;
}
static u32 W h_WaitForSingleObject(u64 h, u32 ms) {
  u64 pc = CALLER; point(pc); Obj *o = deref(h, "WaitForSingleObject", pc); if (!o) return 0xffffffffu;
  cur->nw = 1; cur->wo[0] = o; cur->wall = false; if (o == &objs[0] || o->type == T_PROC) { }
  if (ms == 0) cur->deadline = 0; else cur->deadline = dl_from_ms(ms);
  u32 r = wait_common(pc); return r;
}
EXPORT(WaitForSingleObject);
static u32 W h_WaitForSingleObjectEx(u64 h, u32 ms, int) { return h_WaitForSingleObject(h, ms); }
EXPORT(WaitForSingleObjectEx);
static u32 W h_WaitForMultipleObjects(u32 n, u64 *hs, int all, u32 ms) {
  u64 pc = CALLER; point(pc); if (n == 0 || n > 64) { cur->lasterr = 87; return 0xffffffffu; }
  Obj *os[64]; for (u32 i = 0; i < n; i++) { guest_mem = true; u64 h = hs[i]; guest_mem = false; os[i] = deref(h, "WaitForMultipleObjects", pc); if (!os[i]) return 0xffffffffu; }
  memcpy(cur->wo, os, n * sizeof os[0]); cur->nw = n; cur->wall = all; cur->deadline = ms ? dl_from_ms(ms) : 0;
  return wait_common(pc);
}
EXPORT(WaitForMultipleObjects);
static u32 W h_WaitForMultipleObjectsEx(u32 n, u64 *hs, int all, u32 ms, int) { return h_WaitForMultipleObjects(n, hs, all, ms); }
EXPORT(WaitForMultipleObjectsEx);
static u32 W h_SignalObjectAndWait(u64 a, u64 b, u32 ms, int) { u64 pc = CALLER; point(pc); Obj *o = deref(a, "SignalObjectAndWait", pc); if (!o) return 0xffffffffu; if (o->type == T_EVENT) o->sig = true; else if (o->type == T_SEM) o->count++; signal_obj(o); return h_WaitForSingleObject(b, ms); }
EXPORT(SignalObjectAndWait);
static void W h_Sleep(u32 ms) {
  u64 pc = CALLER; if (ms == 0) { point(pc, true); return; }
  point(pc); cur->deadline = dl_from_ms(ms); cur->wkind = 2; cur->nw = 0; block(pc);
}
EXPORT(Sleep);
static u32 W h_SleepEx(u32 ms, int) { h_Sleep(ms); return 0; }
EXPORT(SleepEx);
static int W h_SwitchToThread() { point(CALLER, true); return 1; }
EXPORT(SwitchToThread);

// --- threads
static void reap() { int k = 0; for (int i = 0; i < n_dead_pending; i++) { if (dead_pending[i] == cur) dead_pending[k++] = cur; else mprotect(dead_pending[i]->lo, STK_SIZE, PROT_NONE); } n_dead_pending = k; }
static void mark_dead(Thread *t) { dead_pending[n_dead_pending++] = t; }
static u64 create_thread(u64 fn, u64 arg, u32 flags, u32 *tid, u64 pc, bool crt, u32 stk) {
  point(pc); if (fault(FI_THREAD)) { if (crt) cur->err = 11; cur->lasterr = 8; return 0; }
  if (n_dead_pending) reap();
  Thread *t = new_thread(fn, arg, pc, flags & 4); t->stack_arg = stk; if (tid) { guest_mem = true; *tid = 1000 + t->id * 4; guest_mem = false; }
  u64 h = new_handle(t->obj); vl("create thread t%d handle %llx%s", t->id, (unsigned long long)h, flags & 4 ? " suspended" : ""); point(pc); return h;
}
static u64 W h__beginthreadex(void *sa, u32 stk, u64 fn, u64 arg, u32 flags, u32 *tid) { (void)sa; return create_thread(fn, arg, flags, tid, CALLER, true, stk); }
EXPORT(_beginthreadex);
static u64 W h_CreateThread(void *sa, u64 stk, u64 fn, u64 arg, u32 flags, u32 *tid) { (void)sa; return create_thread(fn, arg, flags, tid, CALLER, false, stk); }
EXPORT(CreateThread);
static u64 W h__beginthread(u64 fn, u32 stk, u64 arg) { u64 h = create_thread(fn, arg, 0, nullptr, CALLER, true, stk); return h ? h : (u64)-1; }
EXPORT(_beginthread);
static void exit_self(u32 code) { sync_steps(); steps++; cur->lstep++; vl("thread exit %u", code); if (cur->id == 0) { end_run(); } if (n_dead_pending) reap(); thread_dead(cur, code); dead_pending[n_dead_pending++] = cur; reschedule(true, false, false); abort(); }
static void W h__endthreadex(u32 code) { point(CALLER); dll_notify(3); exit_self(code); }
EXPORT(_endthreadex); EXPORT_AS("ExitThread", ExitThread, h__endthreadex);
static void W h__endthread() { point(CALLER); dll_notify(3); exit_self(0); }
EXPORT(_endthread);
static Thread *thr(u64 h, const char *api, u64 pc) { Obj *o = deref(h, api, pc); if (!o || o->type != T_THREAD) { cur->lasterr = 6; return nullptr; } return o->th; }
static int W h_TerminateThread(u64 h, u32 code) { u64 pc = CALLER; point(pc); Thread *t = thr(h, "TerminateThread", pc); if (!t) return 0; if (t->st == DEAD) { cur->lasterr = 5; return 0; } st_term++; vl("terminate t%d", t->id); t->terminated = true; if (t == cur) exit_self(code); t->deadline = NODL; t->wkind = 0; thread_dead(t, code); mprotect(t->lo, STK_SIZE, PROT_NONE); point(pc); return 1; }
EXPORT(TerminateThread);
static u32 W h_SuspendThread(u64 h) { u64 pc = CALLER; point(pc); Thread *t = thr(h, "SuspendThread", pc); if (!t) return 0xffffffffu; if (t->st == DEAD) { cur->lasterr = 5; return 0xffffffffu; } st_suspend++; u32 o = t->suspend++; vl("suspend t%d", t->id); point(pc); return o; }
EXPORT(SuspendThread);
static u32 W h_ResumeThread(u64 h) { u64 pc = CALLER; point(pc); Thread *t = thr(h, "ResumeThread", pc); if (!t) return 0xffffffffu; u32 o = t->suspend; if (t->suspend && --t->suspend == 0 && t->st == BLOCK && t->wkind == 1) { int r = try_wait(t); if (r >= 0) make_run(t, r); } vl("resume t%d (was %u)", t->id, o); mix(o + 31); point(pc); return o; }
EXPORT(ResumeThread);
static int W h_GetThreadContext(u64 h, u8 *ctx) { u64 pc = CALLER; point(pc); Thread *t = thr(h, "GetThreadContext", pc); if (!t || t->st == DEAD) return 0; guest_mem = true; if (*(u32 *)(ctx + 0x30) & 1) *(u64 *)(ctx + 0xF8) = t->pc + g_image_base, *(u64 *)(ctx + 0x98) = (u64)t->sp; guest_mem = false; return 1; }
EXPORT(GetThreadContext);
static int W h_SetThreadContext(u64 h, u8 *ctx) { u64 pc = CALLER; point(pc); Thread *t = thr(h, "SetThreadContext", pc); if (!t || t->st == DEAD) return 0; guest_mem = true; u64 rip = *(u64 *)(ctx + 0xF8); bool ctl = *(u32 *)(ctx + 0x30) & 1; guest_mem = false; if (!ctl) return 1; t->redirect = rip; vl("set context of t%d to %llx", t->id, (unsigned long long)(rip - g_image_base)); return 1; }
EXPORT(SetThreadContext);
static u64 W h_GetCurrentThread() { return (u64)-2; } EXPORT(GetCurrentThread);
static u32 W h_GetCurrentThreadId() { return 1000 + cur->id * 4; } EXPORT(GetCurrentThreadId);
static u32 W h_GetThreadId(u64 h) { Thread *t = thr(h, "GetThreadId", CALLER); return t ? 1000 + t->id * 4 : 0; } EXPORT(GetThreadId);
static u64 W h_GetCurrentProcess() { return (u64)-1; } EXPORT(GetCurrentProcess);
static u32 W h_GetCurrentProcessId() { return 77; } EXPORT(GetCurrentProcessId);
static u64 W h_OpenProcess(u32, int, u32 pid) { u64 pc = CALLER; point(pc); if (fault(FI_OPENP) || pid == 79) { cur->lasterr = 5; return 0; } if (pid != 77 && pid != 78) { cur->lasterr = 87; return 0; } Obj *o = new_obj(T_PROC, pc); o->count = pid - 77; return new_handle(o); } EXPORT(OpenProcess);
static u64 W h_OpenThread(u32, int, u32 id) { u64 pc = CALLER; point(pc); if (fault(FI_DUP)) { cur->lasterr = 5; return 0; } u32 i = (id - 1000) / 4; if (id < 1000 || i >= (u32)nT || T[i].st == DEAD) { cur->lasterr = 87; return 0; } return new_handle(T[i].obj); } EXPORT(OpenThread);
static int W h_GetExitCodeThread(u64 h, u32 *c) { Thread *t = thr(h, "GetExitCodeThread", CALLER); if (!t) return 0; guest_mem = true; *c = t->st == DEAD ? t->exitcode : 259; guest_mem = false; return 1; } EXPORT(GetExitCodeThread);
static int W h_DuplicateHandle(u64 sp, u64 h, u64 tp, u64 *out, u32 acc, int inh, u32 opt) { u64 pc = CALLER; (void)sp; (void)tp; (void)acc; (void)inh; point(pc); if (fault(FI_DUP)) { cur->lasterr = 8; return 0; } Obj *o = deref(h, "DuplicateHandle", pc); if (!o) return 0; u64 n = new_handle(o); guest_mem = true; *out = n; guest_mem = false; if (opt & 1) h_CloseHandle(h); return 1; } EXPORT(DuplicateHandle);
static int W h_GetThreadPriority(u64 h) { PT(); Thread *t = thr(h, "GetThreadPriority", CALLER); return t ? t->w32prio : 0x7fffffff; } EXPORT(GetThreadPriority);
static int W h_SetThreadPriority(u64 h, int p) { u64 pc = CALLER; point(pc); if (fault(FI_PRIO)) { cur->lasterr = 5; return 0; } Thread *t = thr(h, "SetThreadPriority", pc); if (!t) return 0; if (!(p == -15 || p == 15 || (p >= -2 && p <= 2))) { cur->lasterr = 87; return 0; } t->w32prio = p; vl("priority t%d = %d", t->id, p); return 1; } EXPORT(SetThreadPriority);
static u64 smask() { return (1ull << ncpu) - 1; }
static u64 pmask(int i = 0) { u64 m = proc_mask[i] & smask(); return m ? m : smask(); }
static u64 W h_SetThreadAffinityMask(u64 h, u64 m) { u64 pc = CALLER; point(pc); if (fault(FI_AFF)) { cur->lasterr = 87; return 0; } Thread *t = thr(h, "SetThreadAffinityMask", pc); if (!t) return 0; if (!m || (m & ~pmask())) { cur->lasterr = 87; return 0; } u64 o = t->affinity & pmask(); t->affinity = m; return o; } EXPORT(SetThreadAffinityMask);
static int W h_GetProcessAffinityMask(u64 h, u64 *p, u64 *s) { PT(); if (fault(FI_AFF)) { cur->lasterr = 5; return 0; } Obj *o = h == (u64)-1 ? nullptr : deref(h, "GetProcessAffinityMask", CALLER); if (h != (u64)-1 && !o) return 0; guest_mem = true; *p = pmask(o ? o->count : 0); *s = smask(); guest_mem = false; return 1; } EXPORT(GetProcessAffinityMask);
static int W h_SetProcessAffinityMask(u64 h, u64 m) { PT(); if (fault(FI_AFF)) { cur->lasterr = 87; return 0; } Obj *o = h == (u64)-1 ? nullptr : deref(h, "SetProcessAffinityMask", CALLER); if (h != (u64)-1 && !o) return 0; if (!m || (m & ~smask())) { cur->lasterr = 87; return 0; } int i = o ? o->count : 0; proc_mask[i] = m; if (!i) for (int k = 0; k < nT; k++) T[k].affinity = m; vl("process %d affinity %llx", 77 + i, m); return 1; } EXPORT(SetProcessAffinityMask);
static u32 W h_GetCurrentProcessorNumber() { return 0; } EXPORT(GetCurrentProcessorNumber);
static void W h_GetSystemInfo(u8 *p) { guest_mem = true; memset(p, 0, 48); *(u32 *)(p + 4) = 4096; *(u64 *)(p + 24) = smask(); *(u32 *)(p + 32) = ncpu; guest_mem = false; } EXPORT(GetSystemInfo); EXPORT_AS("GetNativeSystemInfo", GetNativeSystemInfo, h_GetSystemInfo);

// --- TLS, errors
static u32 W h_TlsAlloc() { PT(); if (fault(FI_TLS)) { cur->lasterr = 259; return 0xffffffffu; } for (int i = 0; i < 64; i++) if (!tls_used[i]) { tls_used[i] = true; live_tls++; for (int k = 0; k < nT; k++) T[k].tls[i] = 0; return i; } cur->lasterr = 259; return 0xffffffffu; } EXPORT(TlsAlloc);
static int W h_TlsFree(u32 i) { PT(); if (i >= 64 || !tls_used[i] || !i) { cur->lasterr = 87; return 0; } tls_used[i] = false; live_tls--; for (int k = 0; k < nT; k++) T[k].tls[i] = 0; return 1; } EXPORT(TlsFree);
static u64 W h_TlsGetValue(u32 i) { if (i >= 64) { cur->lasterr = 87; return 0; } cur->lasterr = 0; return cur->tls[i]; } EXPORT(TlsGetValue);
static int W h_TlsSetValue(u32 i, u64 v) { if (i >= 64) { cur->lasterr = 87; return 0; } cur->tls[i] = v; return 1; } EXPORT(TlsSetValue);
EXPORT_AS("FlsGetValue", FlsGetValue, h_TlsGetValue); EXPORT_AS("FlsSetValue", FlsSetValue, h_TlsSetValue); EXPORT_AS("FlsFree", FlsFree, h_TlsFree);
static u32 W h_FlsAlloc(u64) { return h_TlsAlloc(); } EXPORT(FlsAlloc);
static u32 W h_GetLastError() { return cur->lasterr; } EXPORT(GetLastError);
static void W h_SetLastError(u32 e) { cur->lasterr = e; } EXPORT(SetLastError);
static int *W h__errno() { return &cur->err; } EXPORT(_errno);
static int W h__set_errno(int e) { cur->err = e; return 0; } EXPORT(_set_errno);
static int W h__get_errno(int *e) { *e = cur->err; return 0; } EXPORT(_get_errno);

// --- time
static void W h_GetSystemTimeAsFileTime(u64 *p) { PT(); guest_mem = true; *p = wallclk(); guest_mem = false; } EXPORT(GetSystemTimeAsFileTime); EXPORT_AS("GetSystemTimePreciseAsFileTime", GSTP, h_GetSystemTimeAsFileTime);
static u64 W h_GetTickCount64() { return now() / 10000 + 100000; } EXPORT(GetTickCount64);
static u32 W h_GetTickCount() { return (u32)(now() / 10000 + 100000); } EXPORT(GetTickCount); EXPORT_AS("timeGetTime", timeGetTime, h_GetTickCount);
static int W h_QueryPerformanceCounter(u64 *p) { guest_mem = true; *p = now() + 1000000; guest_mem = false; return 1; } EXPORT(QueryPerformanceCounter);
static int W h_QueryPerformanceFrequency(u64 *p) { guest_mem = true; *p = 10000000; guest_mem = false; return 1; } EXPORT(QueryPerformanceFrequency);
static i64 W h__time64(i64 *p) { i64 t = (i64)(wallclk() - EPOCH) / 10000000; if (p) *p = t; return t; } EXPORT(_time64); EXPORT_AS("time", time, h__time64);
static void W h__ftime64(u8 *p) { PT(); i64 t = (i64)(wallclk() - EPOCH); guest_mem = true; *(i64 *)p = t / 10000000; *(u16 *)(p + 8) = (t / 10000) % 1000; guest_mem = false; } EXPORT(_ftime64);
static int W h__ftime64_s(u8 *p) { h__ftime64(p); return 0; } EXPORT(_ftime64_s);
static void jump_to(i64 d) { wall_off += d; vl("clock jump %lld ms", (long long)(d / 10000)); }
static const i64 jumps_ms[] = {0, 1, -1, 10, -10, 100, -100, 1000, -1000, 3600000, -3600000};
static void clock_fault() { u64 o = (u64)FI_CLOCK << 32 | cur->ford[FI_CLOCK]++; u32 want = 0; if (!replaying && !fair && (fault_mask_run & F_CLOCK) && faults_left != 0 && rng_c.below(fault_den * 10) == 0) want = 1 + rng_c.below(10); u32 v = choose_at(K_FAULT, cur->id, o, 11, want); if (v) { if (faults_left > 0) faults_left--; nfaults_fired++; st_fault[FI_CLOCK]++; jump_to(jumps_ms[v] * 10000); } }

// --- modules
static u64 W h_LoadLibraryA(const char *) { PT(); cur->lasterr = 126; return 0; } EXPORT(LoadLibraryA); EXPORT_AS("LoadLibraryW", LoadLibraryW, h_LoadLibraryA);
static u64 W h_LoadLibraryExA(const char *, u64, u32) { cur->lasterr = 126; return 0; } EXPORT(LoadLibraryExA);
static u64 W h_GetProcAddress(u64, const char *) { cur->lasterr = 127; return 0; } EXPORT(GetProcAddress);
static int W h_FreeLibrary(u64) { return 1; } EXPORT(FreeLibrary);
static u64 W h_GetModuleHandleA(const char *) { return g_image_base; } EXPORT(GetModuleHandleA); EXPORT_AS("GetModuleHandleW", GetModuleHandleW, h_GetModuleHandleA);
static u32 W h_GetSystemDirectoryA(char *b, u32 n) { if (n > 20) { guest_mem = true; strcpy(b, "C:\\windows\\system32"); guest_mem = false; } return 19; } EXPORT(GetSystemDirectoryA);
static void W h_OutputDebugStringA(const char *) {} EXPORT(OutputDebugStringA);
static int W h_IsDebuggerPresent() { return 0; } EXPORT(IsDebuggerPresent);
static int W h_SetThreadDescription(u64, void *) { return 0; } EXPORT(SetThreadDescription);
static void W h_RaiseException_nop(u32 code, u32, u32, void *) { end_run_violation("exception", "RaiseException(%x) with no handler", code); }

// --- critical sections (kept in the guest structure: u64 owner tid+1, u64 depth, u64 handle)
static void W h_InitializeCriticalSection(u64 *cs) { memset(cs, 0, 40); cs[2] = (u64)(new_obj(T_MUTEX, CALLER) - objs); } EXPORT(InitializeCriticalSection);
static int W h_InitializeCriticalSectionAndSpinCount(u64 *cs, u32) { h_InitializeCriticalSection(cs); return 1; } EXPORT(InitializeCriticalSectionAndSpinCount);
static int W h_InitializeCriticalSectionEx(u64 *cs, u32, u32) { h_InitializeCriticalSection(cs); return 1; } EXPORT(InitializeCriticalSectionEx);
static void W h_EnterCriticalSection(u64 *cs) { u64 pc = CALLER; point(pc); Obj *o = &objs[cs[2]]; cur->nw = 1; cur->wo[0] = o; cur->wall = false; cur->deadline = NODL; wait_common(pc); } EXPORT(EnterCriticalSection);
static int W h_TryEnterCriticalSection(u64 *cs) { u64 pc = CALLER; point(pc); cur->nw = 1; cur->wo[0] = &objs[cs[2]]; cur->wall = false; return try_wait(cur) >= 0; } EXPORT(TryEnterCriticalSection);
static void W h_LeaveCriticalSection(u64 *cs) { u64 pc = CALLER; point(pc); Obj *o = &objs[cs[2]]; if (o->owner == cur && --o->depth == 0) { o->owner = nullptr; signal_obj(o); } point(pc); } EXPORT(LeaveCriticalSection);
static void W h_DeleteCriticalSection(u64 *) {} EXPORT(DeleteCriticalSection);

// --- memory and strings
static u64 W h_malloc(u64 n) { u64 pc = CALLER; point(pc); if (fault(FI_ALLOC)) { cur->err = 12; return 0; } return heap_alloc(n, false, pc); } EXPORT(malloc);
static u64 W h_calloc(u64 n, u64 m) { u64 pc = CALLER; point(pc); if (fault(FI_ALLOC)) { cur->err = 12; return 0; } if (m && n > (1ull << 40) / m) return 0; return heap_alloc(n * m, true, pc); } EXPORT(calloc);
static void W h_free(u64 p) { u64 pc = CALLER; point(pc); vl("free %llx", (unsigned long long)p); heap_free(p, pc); } EXPORT(free);
static u64 W h_realloc(u64 p, u64 n) { u64 pc = CALLER; point(pc); if (!p) return h_malloc(n); if (fault(FI_ALLOC)) { cur->err = 12; return 0; } Blk *b = find_blk(p); if (!b || !b->live) end_run_violation("bad-free", "realloc of a dead block at %llx", (unsigned long long)pc); u64 q = heap_alloc(n, false, pc); memcpy((void *)q, (void *)p, std::min(n, b->size)); heap_free(p, pc); return q; } EXPORT(realloc);
static u64 W h__strdup(const char *s) { u64 pc = CALLER; point(pc); if (fault(FI_ALLOC)) { cur->err = 12; return 0; } guest_mem = true; u64 n = strlen(s) + 1; guest_mem = false; u64 p = heap_alloc(n, false, pc); if (p) memcpy((void *)p, s, n); return p; } EXPORT(_strdup); EXPORT_AS("strdup", strdup, h__strdup);
static u64 W h_HeapAlloc(u64, u32 fl, u64 n) { u64 pc = CALLER; point(pc); if (fault(FI_ALLOC)) { cur->lasterr = 8; return 0; } return heap_alloc(n, fl & 8, pc); } EXPORT(HeapAlloc);
static int W h_HeapFree(u64, u32, u64 p) { heap_free(p, CALLER); return 1; } EXPORT(HeapFree);
static u64 W h_GetProcessHeap() { return 0x4000; } EXPORT(GetProcessHeap);
static u64 W h_LocalAlloc(u32 fl, u64 n) { u64 pc = CALLER; point(pc); if (fault(FI_ALLOC)) { cur->lasterr = 8; return 0; } return heap_alloc(n, fl & 0x40, pc); } EXPORT(LocalAlloc);
static u64 W h_LocalFree(u64 p) { heap_free(p, CALLER); return 0; } EXPORT(LocalFree);
#define GM(expr) do { guest_mem = true; expr; guest_mem = false; } while (0)
static void *W h_memcpy(void *d, const void *s, u64 n) { GM(memcpy(d, s, n)); return d; } EXPORT(memcpy);
static void *W h_memmove(void *d, const void *s, u64 n) { GM(memmove(d, s, n)); return d; } EXPORT(memmove);
static void *W h_memset(void *d, int c, u64 n) { GM(memset(d, c, n)); return d; } EXPORT(memset);
static int W h_memcmp(const void *a, const void *b, u64 n) { int r; GM(r = memcmp(a, b, n)); return r < 0 ? -1 : r > 0; } EXPORT(memcmp);
static u64 W h_strlen(const char *s) { u64 r; GM(r = strlen(s)); return r; } EXPORT(strlen);
static u64 W h_strnlen(const char *s, u64 n) { u64 r; GM(r = strnlen(s, n)); return r; } EXPORT(strnlen);
static int W h_strcmp(const char *a, const char *b) { int r; GM(r = strcmp(a, b)); return r < 0 ? -1 : r > 0; } EXPORT(strcmp);
static int W h_strncmp(const char *a, const char *b, u64 n) { int r; GM(r = strncmp(a, b, n)); return r < 0 ? -1 : r > 0; } EXPORT(strncmp);
static char *W h_strcpy(char *d, const char *s) { GM(strcpy(d, s)); return d; } EXPORT(strcpy);
static char *W h_strncpy(char *d, const char *s, u64 n) { GM(strncpy(d, s, n)); return d; } EXPORT(strncpy);
static char *W h_strcat(char *d, const char *s) { GM(strcat(d, s)); return d; } EXPORT(strcat);
static char *W h_strncat(char *d, const char *s, u64 n) { GM(strncat(d, s, n)); return d; } EXPORT(strncat);
static int W h_strncpy_s(char *d, u64 dn, const char *s, u64 n) { if (!d || !dn) return 22; u64 l; GM(l = strnlen(s, n == (u64)-1 ? dn : n)); if (l >= dn) { if (n == (u64)-1) l = dn - 1; else { d[0] = 0; return 34; } } GM(memcpy(d, s, l)); d[l] = 0; return 0; } EXPORT(strncpy_s);
static int W h_strcpy_s(char *d, u64 dn, const char *s) { u64 l; GM(l = strlen(s)); if (l >= dn) { if (dn) d[0] = 0; return 34; } GM(memcpy(d, s, l + 1)); return 0; } EXPORT(strcpy_s);
static int W h_strncat_s(char *d, u64 dn, const char *s, u64 n) { u64 k; GM(k = strlen(d)); return k >= dn ? 22 : h_strncpy_s(d + k, dn - k, s, n); } EXPORT(strncat_s);
static int W h_memcpy_s(void *d, u64 dn, const void *s, u64 n) { if (n > dn) return 34; GM(memcpy(d, s, n)); return 0; } EXPORT(memcpy_s);
static char *W h_strchr(const char *s, int c) { char *r; GM(r = (char *)strchr(s, c)); return r; } EXPORT(strchr);
static char *W h_strrchr(const char *s, int c) { char *r; GM(r = (char *)strrchr(s, c)); return r; } EXPORT(strrchr);
static int W h_printf_nop() { return 0; } EXPORT_AS("puts", puts, h_printf_nop); EXPORT_AS("fflush", fflush, h_printf_nop); EXPORT_AS("perror", perror, h_printf_nop);
static void W h_abort() { end_run_violation("abort", "abort() called at %llx", (unsigned long long)CALLER); } EXPORT(abort);
static void W h_exit(int c) { end_run_violation("exit", "exit(%d) called at %llx", c, (unsigned long long)CALLER); } EXPORT(exit); EXPORT_AS("_exit", _exit_, h_exit); EXPORT_AS("ExitProcess", ExitProcess, h_exit);
static void W h__assert(const char *e, const char *, u32 l) { end_run_violation("assert", "assertion failed: %s line %u", e, l); } EXPORT(_assert);
EXPORT_AS("_setjmp", setjmp_, guest_setjmp); EXPORT_AS("_setjmpex", setjmpex_, guest_setjmp); EXPORT_AS("setjmp", setjmp0_, guest_setjmp); EXPORT_AS("__intrinsic_setjmpex", setjmp3_, guest_setjmp); EXPORT_AS("__intrinsic_setjmp", setjmp4_, guest_setjmp);
static void W h_longjmp(u64 *buf, int v) {
  guest_mem = true; u64 rsp = buf[2], rip = buf[10]; guest_mem = false;
  u64 here = (u64)__builtin_frame_address(0);
  if (rsp < (u64)cur->lo || rsp > (u64)cur->hi || rsp < here || rip < g_image_base || rip >= g_image_base + g_image_size) end_run_violation("bad-longjmp", "longjmp at %llx to a dead frame or a corrupt buffer (rsp %llx, stack %llx..%llx, rip %llx)", (unsigned long long)CALLER, (unsigned long long)rsp, (unsigned long long)here, (unsigned long long)cur->hi, (unsigned long long)rip);
  point(CALLER);
  guest_longjmp_raw(buf, v);
}
EXPORT(longjmp);

// ------------------------------------------------------------------ guest API
static int W h_sim_choice(int n) { return (int)choose(K_WORK, n); } EXPORT(sim_choice);
static void W h_sim_violation(const char *cls, i64 a, i64 b) { u64 pc = CALLER; end_run_violation(cls, "oracle at %llx (line %lld, value %lld)", (unsigned long long)pc, (long long)a, (long long)b); } EXPORT(sim_violation);
static void W h_sim_log(const char *tag, i64 a, i64 b) { mix((u64)a * 31 + b); vl("LOG %s %lld %lld", tag, (long long)a, (long long)b); } EXPORT(sim_log);
static void W h_sim_probe(const char *n) { if (!replaying) probes[n]++; vl("PROBE %s", n); } EXPORT(sim_probe);
static i64 W h_sim_seq() { return ++evseq; } EXPORT(sim_seq);
static i64 W h_sim_now() { sync_steps(); return now(); } EXPORT(sim_now);
static i64 W h_sim_unix_ns() { sync_steps(); return (i64)(wallclk() - EPOCH) * 100; } EXPORT(sim_unix_ns);
static void W h_sim_clock_set(i64 s) { sync_steps(); WALL0 = EPOCH + (u64)s * 10000000 - now(); wall_off = 0; } EXPORT(sim_clock_set);
static void W h_sim_clock_jump(i64 ms) { jump_to(ms * 10000); st_fault[FI_CLOCK]++; } EXPORT(sim_clock_jump);
static void W h_sim_tick(i64 u) { tbase += u; } EXPORT(sim_tick);
static void W h_sim_faults(u32 m) { fault_mask_scen = m; } EXPORT(sim_faults);
static int W h_sim_faults_fired() { return nfaults_fired; } EXPORT(sim_faults_fired);
static int W h_sim_thread_faults() { return cur->nfaults; } EXPORT(sim_thread_faults);
static int W h_sim_add(volatile int *p, int d) { *p += d; return *p; } EXPORT(sim_add);
static int W h_sim_set(volatile int *p, int v) { int o = *p; *p = v; return o; } EXPORT(sim_set);
static void W h_sim_wait_ge(volatile int *p, int v) { u64 pc = CALLER; point(pc); while (*p < v) { cur->wkind = 3; cur->ge_p = p; cur->ge_v = v; cur->deadline = NODL; block(pc); } } EXPORT(sim_wait_ge);
static void W h_sim_settle(int t) { u64 pc = CALLER; point(pc); cur->wkind = 4; cur->settle_timers = t; cur->deadline = NODL; block(pc); } EXPORT(sim_settle);
static void W h_sim_yield() { point(CALLER, true); } EXPORT(sim_yield);
static void W h_sim_stall() { u64 pc = CALLER; switch (choose(K_WORK, 4)) { case 0: case 1: point(pc); break; case 2: point(pc, true); break; default: point(pc); cur->deadline = now() + (u64)(1 + choose(K_WORK, 40)) * 5000; cur->wkind = 2; cur->nw = 0; block(pc); st_fault[FI_STALL]++; } } EXPORT(sim_stall);
static int W h_sim_tid() { return cur->id; } EXPORT(sim_tid);
static int W h_sim_ncpu() { return ncpu; } EXPORT(sim_ncpu);
static u32 W h_sim_stack_arg() { return cur->stack_arg; } EXPORT(sim_stack_arg);
static void W h_sim_set_ncpu(int n) { ncpu = n; } EXPORT(sim_set_ncpu);
static int W h_sim_live_handles(int type) { int n = 0; for (int i = 1; i <= nH; i++) if (H[i].open && (type < 0 || H[i].o->type == type)) n++; return n; } EXPORT(sim_live_handles);
static int W h_sim_live_blocks() { return (int)live_blocks; } EXPORT(sim_live_blocks);
static int W h_sim_live_tls() { return (int)live_tls; } EXPORT(sim_live_tls);
static int W h_sim_live_threads() { int n = 0; for (int i = 0; i < nT; i++) if (T[i].st != DEAD) n++; return n; } EXPORT(sim_live_threads);
static int W h_sim_thread_state(u64 h) { int i = hidx(h); if (i <= 0 || !H[i].open || H[i].o->type != T_THREAD) return 0; Thread *t = H[i].o->th; return t->st == DEAD ? 3 : t->st == BLOCK ? 2 : 1; } EXPORT(sim_thread_state);
static void W h_sim_allow(const char *w) { if (!strcmp(w, "handles")) allow_handles = true; else if (!strcmp(w, "deadlock")) allow_deadlock = true; } EXPORT(sim_allow);
static int W h_sim_block_live(u64 p) { Blk *b = find_blk(p); return b && b->live; } EXPORT(sim_block_live);
// a long deterministic stretch that does not count against the step budget
static u64 room_mark; static void W h_sim_room(int begin) { if (begin) { room_mark = steps; budget_rand += 60000000; budget_total += 60000000; } else { u64 d = 60000000 - (steps - room_mark); budget_rand -= d; budget_total -= d; } } EXPORT(sim_room);
