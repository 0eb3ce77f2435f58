/*
 * libsimrt: the simulator runtime.
 *
 * The package under test is linked with `-Wl,--wrap=<R API function>` against
 * this library, so every call its compiled code makes into the R runtime that
 * can allocate, evaluate user code or materialise a vector passes through a
 * wrapper below. Each such call is one numbered simulation event. What happens
 * there is decided by the plan the scheduler installed: nothing, a
 * collection, a failed allocation, an error, an interrupt or a jump.
 *
 * Nothing here reads a clock, draws from R's RNG, or depends on addresses.
 */
#define _GNU_SOURCE
#include <Rinternals.h>
#include <R_ext/Rallocators.h>
#include <R_ext/Altrep.h>
#include <R_ext/Rdynload.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

#ifdef length
#undef length
#endif

extern int R_PPStackTop;
extern int R_interrupts_pending;
extern void R_gc_torture(int gap, int wait, Rboolean inhibit);
extern void Rf_onintr(void);

/* ------------------------------------------------------------------ PRNG */
/* splitmix64 streams, independent of R's RNG */
static uint64_t rng_state = 1;
static inline uint64_t rng_next(void) {
  uint64_t z = (rng_state += UINT64_C(0x9E3779B97F4A7C15));
  z = (z ^ (z >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)) * UINT64_C(0x94D049BB133111EB);
  return z ^ (z >> 31);
}
static inline uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)) * UINT64_C(0x94D049BB133111EB);
  return z ^ (z >> 31);
}
static inline int rng_int(int lo, int hi) {
  if (hi <= lo) return lo;
  uint64_t span = (uint64_t) ((int64_t) hi - (int64_t) lo + 1);
  return (int) ((int64_t) lo + (int64_t) (rng_next() % span));
}

/* ---------------------------------------------------------------- events */
enum ev_class {
  EV_ALLOC = 0, /* an allocation: may collect, may fail */
  EV_EVAL = 1,  /* evaluation of R code: may collect, fail, be interrupted */
  EV_ALTREP = 2,/* materialisation of an alternative representation */
  EV_CB = 3     /* inside a scripted user callback */
};
enum act {
  ACT_NONE = 0,
  ACT_GC_MINOR = 1,
  ACT_GC_FULL = 2,
  ACT_FAIL = 3,     /* allocation failure */
  ACT_ERROR = 4,    /* error in evaluated code */
  ACT_INTERRUPT = 5,/* user interrupt */
  ACT_JUMP = 6,     /* non-local exit (callbacks only; done by the R side) */
  ACT_REENTER = 7,  /* nested operation (callbacks only; done by the R side) */
  ACT_BAD = 8,      /* contract-violating return value (callbacks only) */
  ACT_N = 9
};

static int sim_active = 0;
static long ev_count = 0;          /* C-level events in this execution */
static long cb_count = 0;          /* callback events in this execution */
static uint64_t ev_hash = 0;
static long ev_budget = 0;
static int gc_every = 0;           /* torture: collection at every event */
static int gc_every_full = 0;

#define MAX_PLAN 64
static int plan_n = 0;
static struct { int stream; long at; int act; int fired; } plan[MAX_PLAN];

static uint64_t fired_total[ACT_N];
static uint64_t ev_total = 0, exec_total = 0, cb_total = 0;

/* distinct (site, action) pairs reached, site = offset inside the package .so */
static uintptr_t base_addr = 0, end_addr = 0;
#define SITE_CAP (1u << 17)
static uint64_t site_keys[SITE_CAP];
static uint32_t n_sites = 0;
/* Call context of an event: up to CTX_DEPTH return addresses inside the
 * package (which is compiled with frame pointers), as offsets */
#define CTX_DEPTH 4
static uint64_t context(const void* fp_, uintptr_t* p_ra) {
  const uintptr_t* fp = fp_;
  uint64_t out = 0;
  *p_ra = 0;
  if (!fp) return 0;
  for (int i = 0; i < CTX_DEPTH; ++i) {
    uintptr_t ra = fp[1];
    if (ra < base_addr || ra >= end_addr) break;
    if (i == 0) *p_ra = ra - base_addr;
    out = mix64(out + (ra - base_addr) + UINT64_C(0x9E3779B97F4A7C15));
    const uintptr_t* up = (const uintptr_t*) fp[0];
    if (up <= fp || (uintptr_t) up - (uintptr_t) fp > ((uintptr_t) 1 << 20) || ((uintptr_t) up & 7)) break;
    fp = up;
  }
  return out;
}
static void site_add(uint64_t ctx, int act) {
  uint64_t key = mix64((ctx << 4) | (uint64_t) act);
  if (key == 0) key = 1;
  uint32_t i = (uint32_t) key & (SITE_CAP - 1);
  while (site_keys[i]) {
    if (site_keys[i] == key) return;
    i = (i + 1) & (SITE_CAP - 1);
  }
  if (n_sites > SITE_CAP / 2) return;
  site_keys[i] = key;
  ++n_sites;
}
static uintptr_t last_site = 0;

/* distinct states: hash of (operation, event class, site, plan action, outcome) fed by R */
static inline void hash_in(uint64_t v) {
  ev_hash = mix64(ev_hash ^ (v + UINT64_C(0x9E3779B97F4A7C15) + (ev_hash << 6) + (ev_hash >> 2)));
}

/* --------------------------------------------- quarantining vector memory */
/*
 * Vectors allocated by the package get their own block: pre-filled with a
 * poison pattern, followed by a canary, and when the collector releases the
 * block it is filled with another pattern and kept aside, so any later use of
 * it is visible at once and in the same way every time.
 */
#define TAIL 64
#define FILL_NEW 0xA7
#define FILL_DEAD 0xDB
struct blk { size_t size; uint64_t serial; struct blk* prev; struct blk* next; };
static struct blk live_head = {0, 0, &live_head, &live_head};
static struct blk dead_head = {0, 0, &dead_head, &dead_head};
static size_t dead_bytes = 0;
static size_t dead_cap = (size_t) 96 << 20;
static uint64_t blk_serial = 0;
static long canary_bad = 0;
static long n_live = 0;

static void* q_alloc(R_allocator_t* a, size_t size) {
  struct blk* b = malloc(sizeof(struct blk) + size + TAIL);
  if (!b) return NULL;
  b->size = size;
  b->serial = ++blk_serial;
  b->next = live_head.next; b->prev = &live_head;
  live_head.next->prev = b; live_head.next = b;
  ++n_live;
  unsigned char* p = (unsigned char*) (b + 1);
  if (size < 4096) memset(p, FILL_NEW, size);
  else { memset(p, FILL_NEW, 2048); memset(p + size - 2048, FILL_NEW, 2048); }
  memset(p + size, FILL_NEW, TAIL);
  return p;
}
static int canary_ok(struct blk* b) {
  unsigned char* p = (unsigned char*) (b + 1) + b->size;
  for (int i = 0; i < TAIL; ++i) if (p[i] != FILL_NEW) return 0;
  return 1;
}
static void q_free(R_allocator_t* a, void* ptr) {
  struct blk* b = ((struct blk*) ptr) - 1;
  if (!canary_ok(b)) ++canary_bad;
  b->prev->next = b->next; b->next->prev = b->prev;
  --n_live;
  if (b->size > ((size_t) 1 << 20)) { free(b); return; }
  memset(ptr, FILL_DEAD, b->size);
  /* quarantine, FIFO */
  b->prev = dead_head.prev; b->next = &dead_head;
  dead_head.prev->next = b; dead_head.prev = b;
  dead_bytes += b->size;
  while (dead_bytes > dead_cap) {
    struct blk* o = dead_head.next;
    o->prev->next = o->next; o->next->prev = o->prev;
    dead_bytes -= o->size;
    free(o);
  }
}
static R_allocator_t q_allocator = { q_alloc, q_free, NULL, NULL };

static int quarantine_on = 1;

static SEXP q_vector(SEXPTYPE type, R_xlen_t n) {
  if (!quarantine_on) return Rf_allocVector(type, n);
  switch (type) {
  case LGLSXP: case INTSXP:
    if (n == 1) {
      /* length-1 vectors bypass custom allocators: go through an equally
       * sized raw vector */
      SEXP x = Rf_allocVector3(RAWSXP, 8, &q_allocator);
      SET_TYPEOF(x, type); SETLENGTH(x, 1);
      return x;
    }
    break;
  case REALSXP:
    if (n == 1) {
      SEXP x = Rf_allocVector3(RAWSXP, 8, &q_allocator);
      SET_TYPEOF(x, type); SETLENGTH(x, 1);
      return x;
    }
    break;
  case CPLXSXP: case RAWSXP: case STRSXP: case VECSXP:
    break;
  default:
    return Rf_allocVector(type, n);
  }
  return Rf_allocVector3(type, n, &q_allocator);
}

/* ------------------------------------------------------------ collections */
static SEXP scramble_val = NULL;
static void scramble(int n) {
  /* Re-use nodes the collection has just released, overwriting them */
  for (int i = 0; i < n; ++i) {
    Rf_cons(scramble_val, scramble_val);
  }
  for (int i = 0; i < n / 8; ++i) {
    SEXP x = Rf_allocVector(RAWSXP, 8);  memset(RAW(x), FILL_DEAD, 8);
    x = Rf_allocVector(RAWSXP, 16); memset(RAW(x), FILL_DEAD, 16);
    x = Rf_allocVector(RAWSXP, 32); memset(RAW(x), FILL_DEAD, 32);
    x = Rf_allocVector(RAWSXP, 48); memset(RAW(x), FILL_DEAD, 48);
    x = Rf_allocVector(RAWSXP, 64); memset(RAW(x), FILL_DEAD, 64);
    x = Rf_allocVector(RAWSXP, 128); memset(RAW(x), FILL_DEAD, 128);
  }
}
static void gc_minor(void) {
  R_gc_torture(1, 1, FALSE);
  Rf_cons(R_NilValue, R_NilValue);
  R_gc_torture(0, 0, FALSE);
  scramble(512);
}
static void gc_full(void) {
  R_gc();
  scramble(512);
}

/* ----------------------------------------------------------------- event */
static const char* fail_msg = "cannot allocate vector of size %0.1f Kb";

static void fire(int act, size_t size, const void* fp) {
  ++fired_total[act];
  uintptr_t ra;
  uint64_t ctx = context(fp, &ra);
  if (ctx) { site_add(ctx, act); last_site = ra; }
  switch (act) {
  case ACT_GC_MINOR: gc_minor(); break;
  case ACT_GC_FULL: gc_full(); break;
  case ACT_FAIL:
    Rf_errorcall(R_NilValue, fail_msg, (double) size / 1024.0);
  case ACT_ERROR:
    Rf_errorcall(R_NilValue, "simulated callback failure");
  case ACT_INTERRUPT:
    R_interrupts_pending = 0;
    Rf_onintr();
    break;
  default: break;
  }
}

static void budget_exceeded(void) {
  /* One reproducible error instead of an endless run */
  ev_budget = 0;
  Rf_errorcall(R_NilValue, "simulation step budget exceeded");
}

/* Trace of the first events of an execution: call context and class, from
 * which the scheduler picks representative fault points */
#define TRACE_CAP 8192
static uint32_t trace_ctx[TRACE_CAP];
static uint8_t trace_cls[TRACE_CAP];
static int trace_on = 0;

static inline void event(int cls, size_t size, const void* fp) {
  if (!sim_active) return;
  long k = ++ev_count;
  ++ev_total;
  hash_in(((uint64_t) cls << 56) ^ (uint64_t) size);
  if (trace_on && k <= TRACE_CAP) {
    uintptr_t ra;
    trace_ctx[k - 1] = (uint32_t) (context(fp, &ra) & 0x3fffffff);
    trace_cls[k - 1] = (uint8_t) cls;
  }
  if (ev_budget && k > ev_budget) budget_exceeded();
  if (gc_every && (k % gc_every) == 0) fire(gc_every_full ? ACT_GC_FULL : ACT_GC_MINOR, size, fp);
  for (int i = 0; i < plan_n; ++i) {
    if (plan[i].stream != 0 || plan[i].fired) continue;
    int act = plan[i].act;
    /* An interrupt or an error in evaluated code can only arise where R code
     * runs: those fire at the first such event from their position on */
    int evalled = act == ACT_INTERRUPT || act == ACT_ERROR;
    if (evalled ? (cls == EV_EVAL && k >= plan[i].at) : k == plan[i].at) {
      plan[i].fired = 1;
      fire(act, size, fp);
    }
  }
}
#define RA (__builtin_frame_address(0))

/* Run an event while the given arguments are protected, for API functions
 * that protect their own arguments */
#define EVENT_P1(cls, size, a) do { Rf_protect(a); event(cls, size, RA); Rf_unprotect(1); } while (0)
#define EVENT_P2(cls, size, a, b) do { Rf_protect(a); Rf_protect(b); event(cls, size, RA); Rf_unprotect(2); } while (0)
#define EVENT_P3(cls, size, a, b, c) do { Rf_protect(a); Rf_protect(b); Rf_protect(c); event(cls, size, RA); Rf_unprotect(3); } while (0)

/* --------------------------------------------------------------- wrappers */
SEXP __wrap_Rf_allocVector(SEXPTYPE type, R_xlen_t n) {
  event(EV_ALLOC, (size_t) n * 8 + type, RA);
  return q_vector(type, n);
}
SEXP __wrap_Rf_allocArray(SEXPTYPE type, SEXP dims) {
  EVENT_P1(EV_ALLOC, 101, dims);
  return Rf_allocArray(type, dims);
}
SEXP __wrap_Rf_allocSExp(SEXPTYPE type) {
  event(EV_ALLOC, 102, RA);
  return Rf_allocSExp(type);
}
SEXP __wrap_Rf_cons(SEXP a, SEXP b) {
  EVENT_P2(EV_ALLOC, 103, a, b);
  return Rf_cons(a, b);
}
SEXP __wrap_Rf_lcons(SEXP a, SEXP b) {
  EVENT_P2(EV_ALLOC, 104, a, b);
  return Rf_lcons(a, b);
}
SEXP __wrap_Rf_lang1(SEXP a) { EVENT_P1(EV_ALLOC, 105, a); return Rf_lang1(a); }
SEXP __wrap_Rf_lang2(SEXP a, SEXP b) { EVENT_P2(EV_ALLOC, 106, a, b); return Rf_lang2(a, b); }
SEXP __wrap_Rf_lang3(SEXP a, SEXP b, SEXP c) { EVENT_P3(EV_ALLOC, 107, a, b, c); return Rf_lang3(a, b, c); }
SEXP __wrap_Rf_lang4(SEXP a, SEXP b, SEXP c, SEXP d) {
  Rf_protect(d); EVENT_P3(EV_ALLOC, 108, a, b, c); Rf_unprotect(1);
  return Rf_lang4(a, b, c, d);
}
SEXP __wrap_Rf_list1(SEXP a) { EVENT_P1(EV_ALLOC, 109, a); return Rf_list1(a); }
SEXP __wrap_Rf_list2(SEXP a, SEXP b) { EVENT_P2(EV_ALLOC, 110, a, b); return Rf_list2(a, b); }
SEXP __wrap_Rf_mkChar(const char* s) { event(EV_ALLOC, 111, RA); return Rf_mkChar(s); }
SEXP __wrap_Rf_mkCharCE(const char* s, cetype_t e) { event(EV_ALLOC, 112, RA); return Rf_mkCharCE(s, e); }
SEXP __wrap_Rf_mkCharLenCE(const char* s, int n, cetype_t e) { event(EV_ALLOC, 113, RA); return Rf_mkCharLenCE(s, n, e); }
SEXP __wrap_Rf_mkString(const char* s) { event(EV_ALLOC, 114, RA); return Rf_mkString(s); }
SEXP __wrap_Rf_mkNamed(SEXPTYPE t, const char** n) { event(EV_ALLOC, 115, RA); return Rf_mkNamed(t, n); }
SEXP __wrap_Rf_ScalarInteger(int x) {
  event(EV_ALLOC, 116, RA);
  SEXP out = q_vector(INTSXP, 1);
  INTEGER(out)[0] = x;
  return out;
}
SEXP __wrap_Rf_ScalarReal(double x) {
  event(EV_ALLOC, 117, RA);
  SEXP out = q_vector(REALSXP, 1);
  REAL(out)[0] = x;
  return out;
}
SEXP __wrap_Rf_ScalarString(SEXP x) {
  EVENT_P1(EV_ALLOC, 118, x);
  Rf_protect(x);
  SEXP out = q_vector(STRSXP, 1);
  SET_STRING_ELT(out, 0, x);
  Rf_unprotect(1);
  return out;
}
static int dup_allocates(SEXP x) {
  switch (TYPEOF(x)) {
  case NILSXP: case SYMSXP: case ENVSXP: case SPECIALSXP: case BUILTINSXP:
  case EXTPTRSXP: case BCODESXP: case WEAKREFSXP: case CHARSXP: case PROMSXP: return 0;
  default: return 1;
  }
}
SEXP __wrap_Rf_duplicate(SEXP x) {
  if (dup_allocates(x)) EVENT_P1(EV_ALLOC, 119, x);
  return Rf_duplicate(x);
}
SEXP __wrap_Rf_shallow_duplicate(SEXP x) {
  if (dup_allocates(x)) EVENT_P1(EV_ALLOC, 120, x);
  return Rf_shallow_duplicate(x);
}
SEXP __wrap_Rf_coerceVector(SEXP x, SEXPTYPE type) {
  if (TYPEOF(x) != type) EVENT_P1(EV_ALLOC, 121, x);
  return Rf_coerceVector(x, type);
}
SEXP __wrap_Rf_lengthgets(SEXP x, R_len_t n) { EVENT_P1(EV_ALLOC, 122, x); return Rf_lengthgets(x, n); }
SEXP __wrap_Rf_xlengthgets(SEXP x, R_xlen_t n) { EVENT_P1(EV_ALLOC, 123, x); return Rf_xlengthgets(x, n); }
void* __wrap_R_alloc(size_t n, int size) {
  if ((double) n * size > 0) event(EV_ALLOC, 124 + n * (size_t) size, RA);
  char* p = R_alloc(n, size);
  if (p && n && quarantine_on) memset(p, FILL_NEW, n * (size_t) size > 65536 ? 65536 : n * (size_t) size);
  return p;
}
const char* __wrap_Rf_translateChar(SEXP x) {
  const char* out = Rf_translateChar(x);
  if (out != CHAR(x)) event(EV_ALLOC, 125, RA);
  return out;
}
const char* __wrap_Rf_translateCharUTF8(SEXP x) {
  const char* out = Rf_translateCharUTF8(x);
  if (out != CHAR(x)) event(EV_ALLOC, 126, RA);
  return out;
}
SEXP __wrap_Rf_getAttrib(SEXP x, SEXP name) {
  /* Only compact row names are expanded; other attributes are returned as is */
  if (name == R_RowNamesSymbol && TYPEOF(x) == VECSXP) EVENT_P1(EV_ALLOC, 127, x);
  return Rf_getAttrib(x, name);
}
SEXP __wrap_Rf_setAttrib(SEXP x, SEXP name, SEXP val) {
  if (val != R_NilValue) EVENT_P3(EV_ALLOC, 128, x, name, val);
  return Rf_setAttrib(x, name, val);
}
void __wrap_Rf_copyMostAttrib(SEXP from, SEXP to) {
  if (ATTRIB(from) != R_NilValue) EVENT_P2(EV_ALLOC, 129, from, to);
  Rf_copyMostAttrib(from, to);
}
void __wrap_Rf_defineVar(SEXP sym, SEXP val, SEXP env) {
  EVENT_P3(EV_ALLOC, 130, sym, val, env);
  Rf_defineVar(sym, val, env);
}
SEXP __wrap_R_NewEnv(SEXP enclos, int hash, int size) {
  EVENT_P1(EV_ALLOC, 131, enclos);
  return R_NewEnv(enclos, hash, size);
}
SEXP __wrap_R_MakeExternalPtr(void* p, SEXP tag, SEXP prot) {
  EVENT_P2(EV_ALLOC, 132, tag, prot);
  return R_MakeExternalPtr(p, tag, prot);
}
SEXP __wrap_R_new_altrep(R_altrep_class_t cls, SEXP d1, SEXP d2) {
  EVENT_P2(EV_ALLOC, 133, d1, d2);
  return R_new_altrep(cls, d1, d2);
}
SEXP __wrap_Rf_asCharacterFactor(SEXP x) { EVENT_P1(EV_ALLOC, 134, x); return Rf_asCharacterFactor(x); }
SEXP __wrap_Rf_match(SEXP t, SEXP x, int nm) { EVENT_P2(EV_ALLOC, 135, t, x); return Rf_match(t, x, nm); }
SEXP __wrap_R_lsInternal3(SEXP env, Rboolean a, Rboolean b) { EVENT_P1(EV_ALLOC, 136, env); return R_lsInternal3(env, a, b); }

SEXP __wrap_Rf_eval(SEXP e, SEXP env) {
  switch (TYPEOF(e)) {
  case LANGSXP: case PROMSXP: case BCODESXP:
    event(EV_EVAL, TYPEOF(e), RA);
    break;
  default: break;
  }
  return Rf_eval(e, env);
}

static inline int lazy_altrep(SEXP x) {
  return ALTREP(x) && DATAPTR_OR_NULL(x) == NULL;
}
#define PTR_WRAP(NAME, RET)                                     \
  RET __wrap_##NAME(SEXP x) {                                   \
    if (ALTREP(x) && lazy_altrep(x)) EVENT_P1(EV_ALTREP, 140, x); \
    return NAME(x);                                             \
  }
PTR_WRAP(INTEGER, int*)
PTR_WRAP(LOGICAL, int*)
PTR_WRAP(REAL, double*)
PTR_WRAP(COMPLEX, Rcomplex*)
PTR_WRAP(RAW, Rbyte*)
PTR_WRAP(INTEGER_RO, const int*)
PTR_WRAP(LOGICAL_RO, const int*)
PTR_WRAP(REAL_RO, const double*)
PTR_WRAP(COMPLEX_RO, const Rcomplex*)
PTR_WRAP(RAW_RO, const Rbyte*)
PTR_WRAP(STRING_PTR_RO, const SEXP*)
PTR_WRAP(STRING_PTR, SEXP*)
PTR_WRAP(DATAPTR_RO, const void*)
SEXP __wrap_STRING_ELT(SEXP x, R_xlen_t i) {
  if (ALTREP(x) && lazy_altrep(x)) EVENT_P1(EV_ALTREP, 141, x);
  return STRING_ELT(x, i);
}

/* -------------------------------------------------- hooks inside the code */
/* Called from code guarded by VCTRS_SIM. Defaults leave behaviour as shipped. */
static int hash_mode = 0;
static uint64_t hash_seed = 0;
uint32_t vctrs_sim_hash(uint32_t h) {
  switch (hash_mode) {
  case 0: return h;
  case 1: return (uint32_t) mix64(h ^ hash_seed);        /* another layout */
  case 2: return (uint32_t) (mix64(h ^ hash_seed) & 1) + 7; /* two buckets */
  case 3: return 12345;                                    /* all collide */
  case 4: return (uint32_t) (mix64(h ^ hash_seed) & 7) << 28; /* high bits only */
  case 5: return UINT32_C(1) - UINT32_C(0x9e3779b9); /* combines to the reserved missing hash */
  case 6: return (uint32_t) (mix64(h ^ hash_seed) & 3); /* small values, 1 included */
  default: return h;
  }
}
#define N_KNOB 16
static double knobs[N_KNOB] = {-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1};
static uint64_t knob_reads[N_KNOB];
R_xlen_t vctrs_sim_knob(int id, R_xlen_t dflt) {
  if (id < 0 || id >= N_KNOB) return dflt;
  ++knob_reads[id];
  return knobs[id] < 0 ? dflt : (R_xlen_t) knobs[id];
}

/* ------------------------------------------------------------ R interface */
static int pp_at_begin = 0;

SEXP sim_init(SEXP so_path) {
  scramble_val = Rf_allocVector(RAWSXP, 8);
  R_PreserveObject(scramble_val);
  mallopt(M_TRIM_THRESHOLD, 1 << 30);
  void* h = dlopen(CHAR(STRING_ELT(so_path, 0)), RTLD_NOW | RTLD_NOLOAD);
  if (h) {
    void* s = dlsym(h, "R_init_vctrs");
    Dl_info info;
    if (s && dladdr(s, &info)) base_addr = (uintptr_t) info.dli_fbase;
    /* the package's objects are small and contiguous; find the end of text */
    FILE* f = base_addr ? fopen("/proc/self/maps", "r") : NULL;
    if (f) {
      char line[4096];
      while (fgets(line, sizeof line, f)) {
        unsigned long lo, hi; char perm[8];
        if (sscanf(line, "%lx-%lx %7s", &lo, &hi, perm) == 3 && perm[2] == 'x' &&
            strstr(line, "vctrs.so") && hi > end_addr) end_addr = hi;
      }
      fclose(f);
    }
  }
  return Rf_ScalarLogical(h != NULL && base_addr != 0);
}

/* plan: integer matrix columns (stream, at, act) as three vectors; opts: gc_every, gc_every_full, budget */
SEXP sim_begin(SEXP stream, SEXP at, SEXP act, SEXP opts) {
  plan_n = 0;
  int n = Rf_length(at);
  if (n > MAX_PLAN) n = MAX_PLAN;
  for (int i = 0; i < n; ++i) {
    plan[i].stream = INTEGER(stream)[i];
    plan[i].at = INTEGER(at)[i];
    plan[i].act = INTEGER(act)[i];
    plan[i].fired = 0;
  }
  plan_n = n;
  gc_every = INTEGER(opts)[0];
  gc_every_full = INTEGER(opts)[1];
  ev_budget = INTEGER(opts)[2];
  trace_on = INTEGER(opts)[3];
  ev_count = 0;
  cb_count = 0;
  ev_hash = UINT64_C(0x1234567);
  last_site = 0;
  ++exec_total;
  pp_at_begin = R_PPStackTop;
  sim_active = 1;
  return R_NilValue;
}

/* returns c(n_events, n_cb, fired, hash_lo, hash_hi, pp_diff, last_site) */
SEXP sim_end(void) {
  sim_active = 0;
  int pp_diff = R_PPStackTop - pp_at_begin;
  SEXP out = Rf_allocVector(REALSXP, 7);
  double* p = REAL(out);
  int fired = 0;
  for (int i = 0; i < plan_n; ++i) fired += plan[i].fired;
  p[0] = (double) ev_count;
  p[1] = (double) cb_count;
  p[2] = fired;
  p[3] = (double) (uint32_t) ev_hash;
  p[4] = (double) (uint32_t) (ev_hash >> 32);
  p[5] = pp_diff;
  p[6] = (double) last_site;
  plan_n = 0;
  gc_every = 0;
  ev_budget = 0;
  return out;
}

/* list(context, class) of the events of the last traced execution */
SEXP sim_trace(void) {
  int n = ev_count < TRACE_CAP ? (int) ev_count : TRACE_CAP;
  SEXP out = Rf_protect(Rf_allocVector(VECSXP, 2));
  SEXP a = Rf_allocVector(INTSXP, n); SET_VECTOR_ELT(out, 0, a);
  SEXP b = Rf_allocVector(INTSXP, n); SET_VECTOR_ELT(out, 1, b);
  for (int i = 0; i < n; ++i) { INTEGER(a)[i] = (int) trace_ctx[i]; INTEGER(b)[i] = trace_cls[i]; }
  Rf_unprotect(1);
  return out;
}

SEXP sim_set_active(SEXP x) {
  int old = sim_active;
  sim_active = INTEGER(x)[0];
  return Rf_ScalarInteger(old);
}

/* A scripted callback asks what to do. Returns the action code; GC happens here. */
SEXP sim_cb(void) {
  if (!sim_active) return Rf_ScalarInteger(0);
  long k = ++cb_count;
  ++cb_total;
  hash_in(UINT64_C(0xCB00000000) + k);
  int out = 0;
  for (int i = 0; i < plan_n; ++i) {
    if (plan[i].stream == 1 && plan[i].at == k && !plan[i].fired) {
      plan[i].fired = 1;
      int act = plan[i].act;
      if (act == ACT_GC_MINOR || act == ACT_GC_FULL) fire(act, 0, NULL);
      else { ++fired_total[act]; out = act; }
    }
  }
  return Rf_ScalarInteger(out);
}

SEXP sim_interrupt(void) { R_interrupts_pending = 0; Rf_onintr(); return R_NilValue; }
SEXP sim_gc(SEXP full) { if (INTEGER(full)[0]) gc_full(); else gc_minor(); return R_NilValue; }

SEXP sim_seed(SEXP seed) {
  /* seed: one double below 2^53 */
  rng_state = mix64((uint64_t) REAL(seed)[0] + UINT64_C(0xD1B54A32D192ED03));
  return R_NilValue;
}
SEXP sim_rng_get(void) {
  SEXP out = Rf_allocVector(RAWSXP, 8);
  memcpy(RAW(out), &rng_state, 8);
  return out;
}
SEXP sim_rng_set(SEXP x) { memcpy(&rng_state, RAW(x), 8); return R_NilValue; }
SEXP sim_int(SEXP n, SEXP lo, SEXP hi) {
  int m = Rf_asInteger(n), l = Rf_asInteger(lo), h = Rf_asInteger(hi);
  SEXP out = Rf_allocVector(INTSXP, m);
  int* p = INTEGER(out);
  for (int i = 0; i < m; ++i) p[i] = rng_int(l, h);
  return out;
}
SEXP sim_newseed(void) {
  return Rf_ScalarReal((double) (rng_next() & ((UINT64_C(1) << 48) - 1)));
}
SEXP sim_hash_mode(SEXP mode, SEXP seed) {
  hash_mode = INTEGER(mode)[0];
  hash_seed = (uint64_t) REAL(seed)[0];
  return R_NilValue;
}
SEXP sim_knobs(SEXP x) {
  for (int i = 0; i < N_KNOB; ++i) knobs[i] = i < Rf_length(x) ? REAL(x)[i] : -1;
  return R_NilValue;
}

SEXP sim_stats(void) {
  SEXP out = Rf_protect(Rf_allocVector(REALSXP, ACT_N + 6 + N_KNOB));
  double* p = REAL(out);
  for (int i = 0; i < ACT_N; ++i) p[i] = (double) fired_total[i];
  p[ACT_N] = (double) ev_total;
  p[ACT_N + 1] = (double) exec_total;
  p[ACT_N + 2] = (double) cb_total;
  p[ACT_N + 3] = (double) n_sites;
  p[ACT_N + 4] = (double) canary_bad;
  p[ACT_N + 5] = (double) n_live;
  for (int i = 0; i < N_KNOB; ++i) p[ACT_N + 6 + i] = (double) knob_reads[i];
  Rf_unprotect(1);
  return out;
}
SEXP sim_site_keys(void) {
  SEXP out = Rf_allocVector(STRSXP, n_sites);
  Rf_protect(out);
  uint32_t j = 0;
  char buf[32];
  for (uint32_t i = 0; i < SITE_CAP && j < n_sites; ++i) {
    if (site_keys[i]) {
      snprintf(buf, sizeof buf, "%016lx", (unsigned long) site_keys[i]);
      SET_STRING_ELT(out, j++, Rf_mkChar(buf));
    }
  }
  Rf_unprotect(1);
  return out;
}

/* canaries of all live blocks + already released ones */
SEXP sim_canary(void) {
  long bad = canary_bad;
  for (struct blk* b = live_head.next; b != &live_head; b = b->next) {
    if (!canary_ok(b)) ++bad;
  }
  canary_bad = 0;
  return Rf_ScalarInteger((int) bad);
}

/* Live cells after a full collection: reads R's own counters through gc() on
 * the R side; here only blocks allocated by the package */
SEXP sim_live_blocks(void) { return Rf_ScalarInteger((int) n_live); }

/* FNV digest of a raw vector, as hex */
SEXP sim_digest(SEXP x) {
  uint64_t h = UINT64_C(0xcbf29ce484222325);
  const Rbyte* p = RAW(x);
  R_xlen_t n = XLENGTH(x);
  for (R_xlen_t i = 0; i < n; ++i) { h ^= p[i]; h *= UINT64_C(0x100000001b3); }
  char buf[32];
  snprintf(buf, sizeof buf, "%016lx", (unsigned long) mix64(h));
  return Rf_mkString(buf);
}

/* Marks left on cached strings: walks vectors, counts strings with a negative
 * mark or a mark different from zero that is not R's own. R itself only ever
 * leaves non-negative marks. */
static long marks(SEXP x, int depth, long* pos) {
  long bad = 0;
  if (depth > 8) return 0;
  if (ALTREP(x)) return 0;
  switch (TYPEOF(x)) {
  case STRSXP: {
    R_xlen_t n = XLENGTH(x);
    for (R_xlen_t i = 0; i < n; ++i) {
      R_xlen_t t = TRUELENGTH(STRING_ELT(x, i));
      if (t < 0) ++bad;
      if (t > 0) *pos += t;
    }
    break;
  }
  case VECSXP: {
    R_xlen_t n = XLENGTH(x);
    for (R_xlen_t i = 0; i < n; ++i) bad += marks(VECTOR_ELT(x, i), depth + 1, pos);
    break;
  }
  default: break;
  }
  if (TYPEOF(x) != CHARSXP) {
    for (SEXP a = ATTRIB(x); a != R_NilValue; a = CDR(a)) bad += marks(CAR(a), depth + 1, pos);
  }
  return bad;
}
SEXP sim_marks(SEXP x) {
  long pos = 0;
  long bad = marks(x, 0, &pos);
  SEXP out = Rf_allocVector(REALSXP, 2);
  REAL(out)[0] = bad; REAL(out)[1] = pos;
  return out;
}

/* Header bits that identical() does not compare */
SEXP sim_bits(SEXP x) {
  return Rf_ScalarInteger((OBJECT(x) ? 1 : 0) | (IS_S4_OBJECT(x) ? 2 : 0));
}
SEXP sim_is_altrep(SEXP x) { return Rf_ScalarLogical(ALTREP(x)); }

/* Status file: which run is in progress, readable after a crash */
static char* status_mem = NULL;
SEXP sim_status_open(SEXP path) {
  int fd = open(CHAR(STRING_ELT(path, 0)), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return Rf_ScalarLogical(0);
  if (ftruncate(fd, 4096) != 0) { close(fd); return Rf_ScalarLogical(0); }
  status_mem = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  return Rf_ScalarLogical(status_mem != MAP_FAILED);
}
SEXP sim_status(SEXP s) {
  if (status_mem) {
    const char* p = CHAR(STRING_ELT(s, 0));
    strncpy(status_mem, p, 4000);
    status_mem[4000] = 0;
  }
  return R_NilValue;
}

/* Calls into the package's C interface, as another package would make them,
 * on fresh unreferenced vectors */
typedef SEXP (*fn2)(SEXP, SEXP);
SEXP sim_ccall2(SEXP name, SEXP a, SEXP b, SEXP dup) {
  DL_FUNC f = R_GetCCallable("vctrs", CHAR(STRING_ELT(name, 0)));
  int d = INTEGER(dup)[0];
  SEXP x = Rf_protect(d ? Rf_duplicate(a) : a);
  SEXP out = ((fn2) f)(x, b);
  Rf_unprotect(1);
  return out;
}

/* What R code that holds the only reference to `x` may do to it: overwrite its
   contents, the contents of elements nobody else refers to, and its attributes.
   Returns how many objects
   were overwritten. */
static int scribble(SEXP x, int depth) {
  if (depth > 12 || MAYBE_SHARED(x) || ALTREP(x)) return 0;
  R_xlen_t n;
  int out = 1;
  switch (TYPEOF(x)) {
  case LGLSXP: case INTSXP: { n = XLENGTH(x); int* p = INTEGER(x); for (R_xlen_t i = 0; i < n; ++i) p[i] = TYPEOF(x) == LGLSXP ? p[i] == 0 : 77; break; }
  case REALSXP: { n = XLENGTH(x); double* p = REAL(x); for (R_xlen_t i = 0; i < n; ++i) p[i] = -77.5; break; }
  case CPLXSXP: { n = XLENGTH(x); Rcomplex* p = COMPLEX(x); for (R_xlen_t i = 0; i < n; ++i) p[i].r = -77.5; break; }
  case RAWSXP: { n = XLENGTH(x); Rbyte* p = RAW(x); for (R_xlen_t i = 0; i < n; ++i) p[i] = 77; break; }
  case STRSXP: { SEXP z = Rf_protect(Rf_mkChar("<scribble>")); n = XLENGTH(x); for (R_xlen_t i = 0; i < n; ++i) SET_STRING_ELT(x, i, z); Rf_unprotect(1); break; }
  case VECSXP: {
    n = XLENGTH(x);
    for (R_xlen_t i = 0; i < n; ++i) out += scribble(VECTOR_ELT(x, i), depth + 1);
    for (R_xlen_t i = 0; i < n; i += 2) SET_VECTOR_ELT(x, i, R_NilValue);
    break;
  }
  default: return 0;
  }
  /* (an attribute's value is never changed in place by R, but its cell is) */
  SEXP z = Rf_protect(Rf_mkString("<scribble>"));
  for (SEXP a = ATTRIB(x); a != R_NilValue; a = CDR(a)) if (TAG(a) != R_ClassSymbol && TAG(a) != R_DimSymbol && TAG(a) != R_RowNamesSymbol) SETCAR(a, z);
  Rf_unprotect(1);
  return out;
}
SEXP sim_scribble(SEXP x) { return Rf_ScalarInteger(scribble(x, 0)); }

/* ------------------------------------------------- alternative vectors */
/* Vectors of every type whose contents come into being when first asked for:
 * data1 holds the source and the script (what a native subset gives), data2
 * the contents once they exist. */
static R_altrep_class_t alt_lgl, alt_int, alt_dbl, alt_cpl, alt_raw, alt_chr, alt_list;
static uint64_t alt_made = 0, alt_materialised = 0, alt_subsets = 0;

static SEXP alt_new(SEXP src, int mode) {
  R_altrep_class_t cls;
  switch (TYPEOF(src)) {
  case LGLSXP: cls = alt_lgl; break;
  case INTSXP: cls = alt_int; break;
  case REALSXP: cls = alt_dbl; break;
  case CPLXSXP: cls = alt_cpl; break;
  case RAWSXP: cls = alt_raw; break;
  case STRSXP: cls = alt_chr; break;
  case VECSXP: cls = alt_list; break;
  default: return src;
  }
  ++alt_made;
  MARK_NOT_MUTABLE(src);
  SEXP m = Rf_protect(Rf_ScalarInteger(mode));
  SEXP d1 = Rf_protect(Rf_cons(src, m));
  SEXP out = R_new_altrep(cls, d1, R_NilValue);
  Rf_unprotect(2);
  return out;
}
#define ALT_SRC(x) CAR(R_altrep_data1(x))
#define ALT_MODE(x) (INTEGER(CDR(R_altrep_data1(x)))[0])
#define ALT_CUR(x) (R_altrep_data2(x) == R_NilValue ? ALT_SRC(x) : R_altrep_data2(x))

static R_xlen_t alt_Length(SEXP x) { return XLENGTH(ALT_SRC(x)); }
static SEXP alt_materialise(SEXP x) {
  SEXP d = R_altrep_data2(x);
  if (d != R_NilValue) return d;
  d = Rf_shallow_duplicate(ALT_SRC(x));
  ++alt_materialised;
  R_set_altrep_data2(x, d);
  return d;
}
static void* alt_Dataptr(SEXP x, Rboolean writeable) { return DATAPTR(alt_materialise(x)); }
static const void* alt_Dataptr_or_null(SEXP x) {
  SEXP d = R_altrep_data2(x);
  if (d != R_NilValue) return DATAPTR_RO(d);
  /* some classes can show contents they keep elsewhere */
  if (ALT_MODE(x) & 4) return DATAPTR_RO(ALT_SRC(x));
  return NULL;
}
static int alt_lgl_Elt(SEXP x, R_xlen_t i) { return LOGICAL_ELT(ALT_CUR(x), i); }
static int alt_int_Elt(SEXP x, R_xlen_t i) { return INTEGER_ELT(ALT_CUR(x), i); }
static double alt_dbl_Elt(SEXP x, R_xlen_t i) { return REAL_ELT(ALT_CUR(x), i); }
static Rcomplex alt_cpl_Elt(SEXP x, R_xlen_t i) { return COMPLEX_ELT(ALT_CUR(x), i); }
static Rbyte alt_raw_Elt(SEXP x, R_xlen_t i) { return RAW_ELT(ALT_CUR(x), i); }
static SEXP alt_chr_Elt(SEXP x, R_xlen_t i) { return STRING_ELT(ALT_CUR(x), i); }
static void alt_chr_Set_elt(SEXP x, R_xlen_t i, SEXP v) { SET_STRING_ELT(alt_materialise(x), i, v); }
static SEXP alt_list_Elt(SEXP x, R_xlen_t i) { return VECTOR_ELT(ALT_CUR(x), i); }
static void alt_list_Set_elt(SEXP x, R_xlen_t i, SEXP v) { SET_VECTOR_ELT(alt_materialise(x), i, v); }

/* A native subset: declined, a plain vector, or another alternative vector */
static SEXP alt_Extract_subset(SEXP x, SEXP indx, SEXP call) {
  int mode = ALT_MODE(x) & 3;
  if (mode == 0 || TYPEOF(indx) != INTSXP) return NULL;
  ++alt_subsets;
  SEXP src = ALT_CUR(x);
  R_xlen_t n = XLENGTH(indx), m = XLENGTH(src);
  SEXP out = Rf_protect(Rf_allocVector(TYPEOF(src), n));
  for (R_xlen_t i = 0; i < n; ++i) {
    int k = INTEGER_ELT(indx, i);
    int na = k == NA_INTEGER || k < 1 || k > m;
    R_xlen_t j = na ? 0 : k - 1;
    switch (TYPEOF(src)) {
    case LGLSXP: LOGICAL(out)[i] = na ? NA_LOGICAL : LOGICAL_ELT(src, j); break;
    case INTSXP: INTEGER(out)[i] = na ? NA_INTEGER : INTEGER_ELT(src, j); break;
    case REALSXP: REAL(out)[i] = na ? NA_REAL : REAL_ELT(src, j); break;
    case CPLXSXP: if (na) COMPLEX(out)[i].r = COMPLEX(out)[i].i = NA_REAL; else COMPLEX(out)[i] = COMPLEX_ELT(src, j); break;
    case RAWSXP: RAW(out)[i] = na ? 0 : RAW_ELT(src, j); break;
    case STRSXP: SET_STRING_ELT(out, i, na ? NA_STRING : STRING_ELT(src, j)); break;
    case VECSXP: SET_VECTOR_ELT(out, i, na ? R_NilValue : VECTOR_ELT(src, j)); break;
    default: break;
    }
  }
  if (mode == 2) out = alt_new(out, ALT_MODE(x));
  Rf_unprotect(1);
  return out;
}
#define ALT_COMMON(cls)                                           \
  R_set_altrep_Length_method(cls, alt_Length);                    \
  R_set_altvec_Dataptr_method(cls, alt_Dataptr);                  \
  R_set_altvec_Dataptr_or_null_method(cls, alt_Dataptr_or_null);  \
  R_set_altvec_Extract_subset_method(cls, alt_Extract_subset)
static void alt_init(DllInfo* dll) {
  alt_lgl = R_make_altlogical_class("sim_lgl", "simrt", dll); ALT_COMMON(alt_lgl); R_set_altlogical_Elt_method(alt_lgl, alt_lgl_Elt);
  alt_int = R_make_altinteger_class("sim_int", "simrt", dll); ALT_COMMON(alt_int); R_set_altinteger_Elt_method(alt_int, alt_int_Elt);
  alt_dbl = R_make_altreal_class("sim_dbl", "simrt", dll); ALT_COMMON(alt_dbl); R_set_altreal_Elt_method(alt_dbl, alt_dbl_Elt);
  alt_cpl = R_make_altcomplex_class("sim_cpl", "simrt", dll); ALT_COMMON(alt_cpl); R_set_altcomplex_Elt_method(alt_cpl, alt_cpl_Elt);
  alt_raw = R_make_altraw_class("sim_raw", "simrt", dll); ALT_COMMON(alt_raw); R_set_altraw_Elt_method(alt_raw, alt_raw_Elt);
  alt_chr = R_make_altstring_class("sim_chr", "simrt", dll); ALT_COMMON(alt_chr); R_set_altstring_Elt_method(alt_chr, alt_chr_Elt); R_set_altstring_Set_elt_method(alt_chr, alt_chr_Set_elt);
  alt_list = R_make_altlist_class("sim_list", "simrt", dll); ALT_COMMON(alt_list); R_set_altlist_Elt_method(alt_list, alt_list_Elt); R_set_altlist_Set_elt_method(alt_list, alt_list_Set_elt);
}
SEXP sim_alt(SEXP src, SEXP mode) { return alt_new(src, INTEGER(mode)[0]); }
SEXP sim_alt_stats(void) {
  SEXP out = Rf_allocVector(REALSXP, 3);
  REAL(out)[0] = (double) alt_made; REAL(out)[1] = (double) alt_materialised; REAL(out)[2] = (double) alt_subsets;
  return out;
}
/* Give the fresh vector `x` the attributes of `from`, with the values in
 * `repl` (a named list) where it has them: in place, keeping representations */
SEXP sim_altattr(SEXP x, SEXP from, SEXP repl) {
  SEXP nms = Rf_protect(Rf_getAttrib(repl, R_NamesSymbol));
  SEXP head = R_NilValue, tail = R_NilValue;
  int np = 0;
  PROTECT_INDEX pi;
  R_ProtectWithIndex(head, &pi); ++np;
  for (SEXP a = ATTRIB(from); a != R_NilValue; a = CDR(a)) {
    SEXP v = CAR(a);
    for (R_xlen_t i = 0; i < Rf_xlength(repl); ++i) {
      if (Rf_installTrChar(STRING_ELT(nms, i)) == TAG(a)) v = VECTOR_ELT(repl, i);
    }
    MARK_NOT_MUTABLE(v);
    SEXP cell = Rf_protect(Rf_cons(v, R_NilValue));
    SET_TAG(cell, TAG(a));
    if (head == R_NilValue) { head = cell; R_Reprotect(head, pi); } else SETCDR(tail, cell);
    tail = cell;
    Rf_unprotect(1);
  }
  SET_ATTRIB(x, head);
  SET_OBJECT(x, OBJECT(from));
  if (IS_S4_OBJECT(from)) SET_S4_OBJECT(x);
  Rf_unprotect(1 + np);
  return x;
}

/* Drop a value's alternative representation state: returns whether expanded */
SEXP sim_expand(SEXP x) {
  switch (TYPEOF(x)) {
  case INTSXP: INTEGER(x); break;
  case REALSXP: REAL(x); break;
  case LGLSXP: LOGICAL(x); break;
  case STRSXP: case CPLXSXP: case RAWSXP: case VECSXP: if (ALTREP(x)) (void) DATAPTR_RO(x); break;
  default: break;
  }
  return x;
}

static const R_CallMethodDef calls[] = {
  {"sim_init", (DL_FUNC) &sim_init, 1},
  {"sim_begin", (DL_FUNC) &sim_begin, 4},
  {"sim_end", (DL_FUNC) &sim_end, 0},
  {"sim_trace", (DL_FUNC) &sim_trace, 0},
  {"sim_set_active", (DL_FUNC) &sim_set_active, 1},
  {"sim_cb", (DL_FUNC) &sim_cb, 0},
  {"sim_interrupt", (DL_FUNC) &sim_interrupt, 0},
  {"sim_gc", (DL_FUNC) &sim_gc, 1},
  {"sim_seed", (DL_FUNC) &sim_seed, 1},
  {"sim_rng_get", (DL_FUNC) &sim_rng_get, 0},
  {"sim_rng_set", (DL_FUNC) &sim_rng_set, 1},
  {"sim_int", (DL_FUNC) &sim_int, 3},
  {"sim_newseed", (DL_FUNC) &sim_newseed, 0},
  {"sim_hash_mode", (DL_FUNC) &sim_hash_mode, 2},
  {"sim_knobs", (DL_FUNC) &sim_knobs, 1},
  {"sim_stats", (DL_FUNC) &sim_stats, 0},
  {"sim_site_keys", (DL_FUNC) &sim_site_keys, 0},
  {"sim_canary", (DL_FUNC) &sim_canary, 0},
  {"sim_live_blocks", (DL_FUNC) &sim_live_blocks, 0},
  {"sim_digest", (DL_FUNC) &sim_digest, 1},
  {"sim_marks", (DL_FUNC) &sim_marks, 1},
  {"sim_bits", (DL_FUNC) &sim_bits, 1},
  {"sim_is_altrep", (DL_FUNC) &sim_is_altrep, 1},
  {"sim_status_open", (DL_FUNC) &sim_status_open, 1},
  {"sim_status", (DL_FUNC) &sim_status, 1},
  {"sim_ccall2", (DL_FUNC) &sim_ccall2, 4},
  {"sim_scribble", (DL_FUNC) &sim_scribble, 1},
  {"sim_expand", (DL_FUNC) &sim_expand, 1},
  {"sim_alt", (DL_FUNC) &sim_alt, 2},
  {"sim_alt_stats", (DL_FUNC) &sim_alt_stats, 0},
  {"sim_altattr", (DL_FUNC) &sim_altattr, 3},
  {NULL, NULL, 0}
};
void R_init_libsimrt(DllInfo* dll) {
  R_registerRoutines(dll, NULL, calls, NULL, NULL);
  R_useDynamicSymbols(dll, FALSE);
  alt_init(dll);
}
