/* C++ exception runtime of the simulated process (variant "ce"): the Itanium C++
 * ABI on the x64 unwind tables the compiler emitted, two-phase, without the
 * operating system's dispatcher. Not instrumented; no scheduling points. */
#include <stdint.h>
#include <string.h>
#include "simapi.h"
typedef struct { uint64_t r[16]; uint64_t rip; uint64_t pad; uint8_t xmm[16][16]; } ctx_t; /* r: rax rcx rdx rbx rsp rbp rsi rdi r8..r15 */
typedef struct exc { void *type; void (*dtor)(void *); void *adj; struct exc *next; int handlers, used; uint64_t pad[2]; } exc_t; /* 64 bytes, object follows */
#define NTH 64
#define NSLOT 16
#define SLOT 320
static uint8_t pool[NTH * 4][SLOT] __attribute__((aligned(16)));
static exc_t *caught[NTH];
void abort(void);
static void (*term)(void);
extern uint8_t __ImageBase[];
typedef struct { uint32_t b, e, u; } rf_t;
extern void cxxrt_resume_at(ctx_t *c) __attribute__((noreturn));
int __gxx_personality_seh0(void) { return 0; }
/* typeinfo classes: only the address of the vtable matters here */
void *_ZTVN10__cxxabiv117__class_type_infoE[8], *_ZTVN10__cxxabiv120__si_class_type_infoE[8], *_ZTVN10__cxxabiv119__pointer_type_infoE[8], *_ZTVN10__cxxabiv123__fundamental_type_infoE[8];
typedef struct { void **vt; const char *name; void *base; } ti_t;
static ti_t fund_i = { &_ZTVN10__cxxabiv123__fundamental_type_infoE[2], "i", 0 };
void *_ZTIi[2];
__attribute__((constructor)) static void init_ti(void) { _ZTIi[0] = fund_i.vt; _ZTIi[1] = (void *)fund_i.name; }
void _ZSt9terminatev(void) { if (term) term(); abort(); for (;;); }
void *_ZSt13set_terminatePFvvE(void (*f)(void)) { void *o = (void *)term; term = f; return o; }
void __cxa_call_unexpected(void *e) { (void)e; _ZSt9terminatev(); }
void __cxa_call_terminate(void *e) { (void)e; _ZSt9terminatev(); }
void __cxa_pure_virtual(void) { _ZSt9terminatev(); }
static const rf_t *find_rf(uint64_t pc)
{
  uint8_t *b = __ImageBase; uint32_t pe = *(uint32_t *)(b + 0x3c); uint32_t *dd = (uint32_t *)(b + pe + 24 + 112);
  const rf_t *t = (const rf_t *)(b + dd[6]); int n = dd[7] / 12; uint64_t rva = pc - (uint64_t)b;
  int lo = 0, hi = n - 1;
  while (lo <= hi) { int m = (lo + hi) / 2; if (rva < t[m].b) hi = m - 1; else if (rva >= t[m].e) lo = m + 1; else return &t[m]; }
  return 0;
}
/* undo one frame; *lsda is its language-specific data or 0 */
static void step(ctx_t *c, const rf_t *f, uint64_t *lsda)
{
  uint8_t *b = __ImageBase; uint64_t off = f ? c->rip - (uint64_t)b - f->b : 0; int chained = 0;
  *lsda = 0;
  if (f) for (;;) {
    uint8_t *u = b + f->u; int fl = u[0] >> 3, n = u[2], fr = u[3] & 15, fo = u[3] >> 4;
    uint8_t *codes = u + 4, *after = codes + ((n + 1) & ~1) * 2; uint64_t base = c->r[4];
    if (fr) { int set = chained || off >= u[1]; for (int i = 0; i < n && !set; i++) if ((codes[i * 2 + 1] & 15) == 3 && codes[i * 2] <= off) set = 1; if (set) base = c->r[fr] - fo * 16; }
    if (!chained && (fl & 3)) *lsda = (uint64_t)(after + 4);
    for (int i = 0; i < n; ) {
      int co = codes[i * 2], op = codes[i * 2 + 1] & 15, inf = codes[i * 2 + 1] >> 4, len = 1; uint32_t a1 = *(uint16_t *)(codes + i * 2 + 2), a2 = *(uint32_t *)(codes + i * 2 + 2);
      switch (op) { case 1: len = inf ? 3 : 2; break; case 4: case 8: len = 2; break; case 5: case 9: len = 3; break; }
      if (chained || co <= off) switch (op) {
        case 0: c->r[inf] = *(uint64_t *)c->r[4]; c->r[4] += 8; break;
        case 1: c->r[4] += inf ? a2 : a1 * 8; break;
        case 2: c->r[4] += inf * 8 + 8; break;
        case 3: c->r[4] = base; break;
        case 4: c->r[inf] = *(uint64_t *)(base + a1 * 8); break;
        case 5: c->r[inf] = *(uint64_t *)(base + a2); break;
        case 8: memcpy(c->xmm[inf], (void *)(base + a1 * 16), 16); break;
        case 9: memcpy(c->xmm[inf], (void *)(base + a2), 16); break;
        default: abort();
      }
      i += len;
    }
    if (!(fl & 4)) break;
    f = (const rf_t *)after; chained = 1;
  }
  c->rip = *(uint64_t *)c->r[4]; c->r[4] += 8;
}
static uint64_t uleb(const uint8_t **p) { uint64_t v = 0; int s = 0; uint8_t x; do { x = *(*p)++; v |= (uint64_t)(x & 127) << s; s += 7; } while (x & 128); return v; }
static int64_t sleb(const uint8_t **p) { int64_t v = 0; int s = 0; uint8_t x; do { x = *(*p)++; v |= (int64_t)(x & 127) << s; s += 7; } while (x & 128); if (s < 64 && (x & 64)) v |= -(1LL << s); return v; }
static uint64_t enc(const uint8_t **p, int e)
{
  const uint8_t *at = *p; uint64_t v;
  if (e == 0xff) return 0;
  switch (e & 15) {
  case 0: case 4: case 12: v = *(uint64_t *)*p; *p += 8; break;
  case 1: v = uleb(p); break;
  case 2: v = *(uint16_t *)*p; *p += 2; break;
  case 3: v = *(uint32_t *)*p; *p += 4; break;
  case 9: v = sleb(p); break;
  case 10: v = *(int16_t *)*p; *p += 2; break;
  case 11: v = (int64_t)*(int32_t *)*p; *p += 4; break;
  default: abort(); v = 0;
  }
  if (v) { if ((e & 0x70) == 0x10) v += (uint64_t)at; if (e & 0x80) v = *(uint64_t *)v; }
  return v;
}
static int encsize(int e) { switch (e & 15) { case 2: case 10: return 2; case 3: case 11: return 4; default: return 8; } }
static int matches(void *want, void *have)
{
  ti_t *w = want, *h = have;
  for (;;) {
    if (w == h || !strcmp(w->name, h->name)) return 1;
    if (h->vt == &_ZTVN10__cxxabiv120__si_class_type_infoE[2]) { h = h->base; continue; }
    return 0;
  }
}
/* what the frame does with the exception: 0 nothing, 1 cleanup, 2 handler, 3 terminate */
static int judge(uint64_t lsda, uint64_t fn, uint64_t pc, exc_t *e, uint64_t *lp, int64_t *sel)
{
  const uint8_t *p = (const uint8_t *)lsda; uint64_t lpstart = fn; const uint8_t *tt = 0, *act, *end; int tte, cse, x;
  x = *p++; if (x != 0xff) lpstart = enc(&p, x);
  tte = *p++; if (tte != 0xff) { uint64_t o = uleb(&p); tt = p + o; }
  cse = *p++; { uint64_t o = uleb(&p); end = p + o; }
  act = end;
  while (p < end) {
    uint64_t s = fn + enc(&p, cse), l = enc(&p, cse), pad = enc(&p, cse), a = uleb(&p);
    if (pc - 1 < s) break;
    if (pc - 1 >= s + l) continue;
    if (!pad) return 0;
    *lp = lpstart + pad; *sel = 0;
    if (!a) return 1;
    const uint8_t *q = act + a - 1; int cleanup = 0;
    for (;;) {
      int64_t f = sleb(&q); const uint8_t *nx = q; int64_t d = sleb(&q);
      if (f == 0) cleanup = 1;
      else if (f > 0) { const uint8_t *tp = tt - f * encsize(tte); void *ti = (void *)enc(&tp, tte); if (!ti || (e->type && matches(ti, e->type))) { *sel = f; return 2; } }
      else { /* dynamic exception specification: the types the function lets through */
        const uint8_t *fp = tt - f - 1; uint64_t i; int ok = 0; while ((i = uleb(&fp))) { const uint8_t *tp = tt - i * encsize(tte); void *ti = (void *)enc(&tp, tte); if (ti && e->type && matches(ti, e->type)) ok = 1; }
        if (!ok) { *sel = f; return 2; }
      }
      if (!d) break;
      q = nx + d;
    }
    return cleanup ? 1 : 0;
  }
  return 3;
}
/* unwind from c (state right after the call into the runtime returned) */
static void unwind(ctx_t *c, exc_t *e, int search)
{
  uint64_t lp; int64_t sel;
  for (int ph = search ? 1 : 2; ph <= 2; ph++) {
    ctx_t k = *c;
    for (int n = 0;; n++) {
      const rf_t *f = find_rf(k.rip - 1); uint64_t lsda; ctx_t up = k;
      if (!f || n > 4000) { _ZSt9terminatev(); }      /* nobody catches it */
      step(&up, f, &lsda);
      int j = lsda ? judge(lsda, (uint64_t)__ImageBase + f->b, k.rip, e, &lp, &sel) : 0;
      if (j == 3) _ZSt9terminatev();
      if (j == 2 && ph == 1) break;
      if (j && ph == 2) { k.rip = lp; k.r[0] = (uint64_t)e; k.r[2] = (uint64_t)sel; cxxrt_resume_at(&k); }
      k = up;
    }
  }
  abort();
}
void *__cxa_allocate_exception(uint64_t n)
{
  int t = sim_tid();
  for (int i = 0; i < NTH * 4; i++) { exc_t *e = (exc_t *)pool[(i + t * 4) % (NTH * 4)]; if (!e->used) { if (n > SLOT - sizeof *e) break; memset(e, 0, SLOT); e->used = 1; return e + 1; } }
  _ZSt9terminatev(); return 0;
}
void __cxa_free_exception(void *o) { ((exc_t *)o - 1)->used = 0; }
void cxxrt_throw(ctx_t *c, void *obj, void *type, void (*dtor)(void *))
{ exc_t *e = (exc_t *)obj - 1; e->type = type; e->dtor = dtor; e->adj = obj; sim_probe("cxx_throw"); unwind(c, e, 1); }
void cxxrt_resume(ctx_t *c, exc_t *e) { unwind(c, e, 0); }
void *__cxa_begin_catch(exc_t *e)
{
  int t = sim_tid(); e->handlers = (e->handlers < 0 ? -e->handlers : e->handlers) + 1;
  if (caught[t] != e) { e->next = caught[t]; caught[t] = e; }
  return e->adj;
}
void *__cxa_get_exception_ptr(exc_t *e) { return e->adj; }
void __cxa_end_catch(void)
{
  int t = sim_tid(); exc_t *e = caught[t];
  if (!e) return;
  if (e->handlers < 0) { if (++e->handlers == 0) caught[t] = e->next; }
  else if (--e->handlers == 0) { caught[t] = e->next; if (e->dtor) e->dtor(e->adj); e->used = 0; }
}
void cxxrt_rethrow(ctx_t *c)
{
  int t = sim_tid(); exc_t *e = caught[t];
  if (!e) _ZSt9terminatev();
  e->handlers = -e->handlers; sim_probe("cxx_rethrow");
  unwind(c, e, 1);
}
/* std::uncaught_exceptions is not needed; operator new/delete are the heap's */
void *malloc(uint64_t); void free(void *);
void *_Znwy(uint64_t n) { return malloc(n ? n : 1); }
void _ZdlPv(void *p) { free(p); }
void _ZdlPvy(void *p, uint64_t n) { (void)n; free(p); }
