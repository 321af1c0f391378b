/* Seams of the deterministic simulator for cryptokit.
   Everything nondeterministic that the library can observe is decided here,
   from one recorded stream of choices. */
#define _GNU_SOURCE
#define CAML_INTERNALS
#define CAML_NAME_SPACE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <zlib.h>
#include <caml/mlvalues.h>
#include <caml/alloc.h>
#include <caml/memory.h>
#include <caml/fail.h>
#include <caml/custom.h>
#include <caml/minor_gc.h>
#include <caml/major_gc.h>
#include <caml/compact.h>
#include <caml/domain_state.h>
#include <caml/domain.h>
#include <caml/signals.h>
#include <sanitizer/asan_interface.h>

/* ------------------------------------------------------------------ */
/* Choice stream                                                        */

#define MAXCH (1u << 20)
struct chfile { uint64_t magic, run, count, evhash, progress; uint32_t v[MAXCH]; };
static struct chfile *chf = NULL;
static uint64_t prng;
static uint32_t *script = NULL; static size_t script_len = 0, script_pos = 0;
static int replaying = 0;
static uint64_t evhash, evcount;
static int verbose = 0;

static uint64_t splitmix(uint64_t *s)
{
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void chf_init(void)
{
  if (chf) return;
  const char *p = getenv("SIM_CHOICES");
  if (p) {
    int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, sizeof(struct chfile)) == 0) {
      void *m = mmap(NULL, sizeof(struct chfile), PROT_READ | PROT_WRITE,
                     MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) chf = m;
      close(fd);
    }
  }
  if (!chf) chf = calloc(1, sizeof(struct chfile));
}

uint32_t sim_draw_c(uint32_t n)
{
  uint32_t r;
  if (n <= 1) return 0;
  if (replaying) {
    r = script_pos < script_len ? script[script_pos] % n : 0;
    script_pos++;
  } else
    r = (uint32_t) (splitmix(&prng) % n);
  if (chf && chf->count < MAXCH) chf->v[chf->count++] = r;
  return r;
}

/* true with probability num/den; choice 0 always means "no" */
static int chance(uint32_t num, uint32_t den)
{
  if (num == 0) return 0;
  return sim_draw_c(den) >= den - num;
}

static void ev_bytes(const char *s, size_t n)
{
  for (size_t i = 0; i < n; i++) { evhash ^= (unsigned char) s[i]; evhash *= 0x100000001b3ull; }
  evhash ^= 0xff; evhash *= 0x100000001b3ull;
  evcount++;
  if (chf) chf->evhash = evhash;
  if (verbose) { fwrite("  | ", 1, 4, stderr); fwrite(s, 1, n, stderr); fputc('\n', stderr); }
}
static void ev(const char *s) { ev_bytes(s, strlen(s)); }

CAMLprim value sim_draw(value n) { return Val_long(sim_draw_c((uint32_t) Long_val(n))); }
CAMLprim value sim_event(value s) { ev_bytes(String_val(s), caml_string_length(s)); return Val_unit; }
/* the harness has taken a step (events inside library calls are no progress) */
CAMLprim value sim_step(value s) { chf->progress++; return Val_unit; }
CAMLprim value sim_evhash(value u) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long) evhash); return caml_copy_string(b); }
CAMLprim value sim_evcount(value u) { return Val_long(evcount); }
CAMLprim value sim_nchoices(value u) { return Val_long(chf->count); }
CAMLprim value sim_choice_at(value i) { return Val_long(chf->v[Long_val(i)]); }
CAMLprim value sim_set_verbose(value b) { verbose = Bool_val(b); return Val_unit; }

/* ------------------------------------------------------------------ */
/* Fault counters                                                       */

enum { F_GC_MINOR, F_GC_MAJOR, F_GC_COMPACT, F_ALLOC_FAIL, F_ZALLOC_FAIL,
       F_SHORT_READ, F_READ_EINTR, F_READ_EIO, F_SHORT_WRITE, F_WRITE_EINTR,
       F_WRITE_EIO, F_WRITE_ENOSPC, F_GETENTROPY_FAIL, F_RDRAND_FAIL,
       F_RDRAND_STUCK, F_DEV_EOF, F_OPEN_FAIL, F_GUARD_ALLOC, F_EARLY_EOF, NF };
static const char *fnames[NF] = { "gc_minor", "gc_major", "gc_compact",
  "alloc_failure", "zlib_alloc_failure", "short_read", "read_EINTR",
  "read_EIO", "short_write", "write_EINTR", "write_EIO", "write_ENOSPC",
  "getentropy_failure", "rdrand_underflow", "rdrand_stuck", "device_EOF",
  "open_failure", "guarded_alloc", "early_EOF" };
static uint64_t fcount[NF];
CAMLprim value sim_fault_count(value i) { return Val_long(fcount[Long_val(i)]); }
CAMLprim value sim_fault_num(value u) { return Val_long(NF); }
CAMLprim value sim_fault_name(value i) { return caml_copy_string(fnames[Long_val(i)]); }
static void fault(int f) { fcount[f]++; ev(fnames[f]); }

static char cviol[256];
static void set_cviol(const char *s) { if (!cviol[0]) { strncpy(cviol, s, 255); } }
CAMLprim value sim_take_cviol(value u)
{ value r = caml_copy_string(cviol); cviol[0] = 0; return r; }

/* ------------------------------------------------------------------ */
/* Arming                                                               */

static int armed = 0;          /* inside a library call */
static int gc_num = 0;         /* GC probability: gc_num/16 per stub allocation */
static int gc_heavy = 0;       /* allow major / compaction */
static long fail_at = -1;      /* fail the k-th armed allocation */
static int fail_fired = 0;
static int guard_on = 0;       /* string allocations come from guarded memory */
static long alloc_points = 0;  /* armed allocations so far in this run */

/* While "storm" is on, a signal is pending at every safepoint of library code:
   the OCaml runtime then runs the simulator's handler at each of its poll and
   allocation points, which is exactly where a real program can be preempted or
   interrupted. */
static int storm = 0;
/* The tick of the thread library arrives in real time: it is left out, the
   simulator alone decides who runs and when handlers run. */
extern void __real_caml_record_signal(int);
void __wrap_caml_record_signal(int sig)
{ if (sig != SIGVTALRM) __real_caml_record_signal(sig); }
CAMLprim value sim_arm(value b)
{
  int o = armed; armed = Bool_val(b);
  if (storm && armed) caml_record_signal(SIGUSR2);
  return Val_bool(o);
}
CAMLprim value sim_storm(value b) { storm = Bool_val(b); return Val_unit; }
CAMLprim value sim_set_gc(value n, value heavy) { gc_num = Long_val(n); gc_heavy = Bool_val(heavy); return Val_unit; }
CAMLprim value sim_set_fail(value n) { fail_at = Long_val(n); fail_fired = 0; return Val_unit; }
CAMLprim value sim_fail_fired(value u) { return Val_bool(fail_fired); }
CAMLprim value sim_set_guard(value b) { guard_on = Bool_val(b); return Val_unit; }
CAMLprim value sim_alloc_points(value u) { return Val_long(alloc_points); }

static void poison_minor(void)
{
  char *lo = (char *) Caml_state->young_alloc_start;
  char *hi = (char *) Caml_state->young_ptr;
  if (hi > lo) memset(lo, 0xD7, hi - lo);
}
static void force_gc(int kind)
{
  caml_empty_minor_heap();
  if (kind >= 1) caml_finish_major_cycle();
  if (kind >= 2) { caml_finish_major_cycle(); caml_compact_heap(-1); }
  poison_minor();
}
CAMLprim value sim_force_gc(value k) { force_gc(Int_val(k)); return Val_unit; }

static void gc_point(void)
{
  if (!armed || gc_num == 0) return;
  if (chance(gc_num, 16)) {
    int k = 0;
    if (gc_heavy) { uint32_t d = sim_draw_c(16); k = d == 15 ? 2 : d >= 12 ? 1 : 0; }
    fault(k == 0 ? F_GC_MINOR : k == 1 ? F_GC_MAJOR : F_GC_COMPACT);
    force_gc(k);
  }
}
static int fail_point(void)
{
  if (!armed) return 0;
  alloc_points++;
  if (fail_at >= 0 && fail_at-- == 0) { fail_fired++; return 1; }
  return 0;
}

/* Out-of-heap OCaml strings whose surroundings are poisoned for ASan.
   (naked pointers are legal in this runtime; header is black.) */
static value guard_string(size_t len)
{
  size_t wosize = (len + sizeof(value)) / sizeof(value);
  size_t bsize = wosize * sizeof(value);
  char *m = malloc(16 + bsize + 16);
  /* keep the payload 16-aligned or 8-aligned as the OCaml heap would (8) */
  char *hp = m + 8;
  *(header_t *) hp = Make_header(wosize, String_tag, Caml_black);
  char *p = hp + 8;
  memset(p, 0xA5, bsize);
  ((value *) p)[wosize - 1] = 0;
  p[bsize - 1] = (char) (bsize - 1 - len);
  ASAN_POISON_MEMORY_REGION(m, 16);
  ASAN_POISON_MEMORY_REGION(p + len, bsize - len);
  ASAN_POISON_MEMORY_REGION(p + bsize, 16);
  /* byte-accurate tail inside the last word */
  if (len % 8) { ASAN_UNPOISON_MEMORY_REGION(p + (len & ~7ul), len % 8); ASAN_POISON_MEMORY_REGION(p + len, bsize - len); }
  return (value) p;
}
/* A string of len zero bytes in untouched address space (costs no memory when
   only read); the pages around it are not accessible. */
static value giant_string(size_t len, int aliased)
{
  size_t wosize = (len + sizeof(value)) / sizeof(value), bsize = wosize * sizeof(value);
  size_t mb = 1 << 20, span = ((bsize + mb - 1) / mb) * mb;
  char *m = mmap(NULL, span + 2 * mb, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) abort();
  char *end = m + mb + span, *p = end - bsize;
  mmap(m + mb - 4096, span + 4096, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (aliased) {   /* one megabyte of memory, seen over and over (not the last two) */
    int fd = memfd_create("alias", 0);
    if (fd < 0 || ftruncate(fd, mb)) abort();
    for (size_t o = mb; o + 2 * mb < span; o += mb)
      if (mmap(m + mb + o, mb, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_SHARED, fd, 0) == MAP_FAILED) abort();
    close(fd);
  }
  *(header_t *) (p - 8) = Make_header(wosize, String_tag, Caml_black);
  p[bsize - 1] = (char) (bsize - 1 - len);
  return (value) p;
}
CAMLprim value sim_giant(value vlen) { return giant_string(Long_val(vlen), 0); }
CAMLprim value sim_alias(value vlen) { return giant_string(Long_val(vlen), 1); }
CAMLprim value sim_guard_bytes(value vlen)
{ return guard_string(Long_val(vlen)); }

extern value __real_caml_alloc_string(mlsize_t);
value __wrap_caml_alloc_string(mlsize_t len)
{
  if (armed) {
    /* only large blocks: for small ones the runtime has no failure return */
    if (len > 2000 && fail_point()) { fault(F_ALLOC_FAIL); caml_raise_out_of_memory(); }
    gc_point();
    if (guard_on && len >= 1 && len < (1u << 20)) { fcount[F_GUARD_ALLOC]++; return guard_string(len); }
  }
  return __real_caml_alloc_string(len);
}
/* no failure here: the runtime itself ends in a fatal error when it cannot
   allocate a small block */
extern value __real_caml_alloc_custom(struct custom_operations *, uintnat, mlsize_t, mlsize_t);
value __wrap_caml_alloc_custom(struct custom_operations *ops, uintnat size, mlsize_t mem, mlsize_t max)
{
  if (armed) {
    gc_point();
  }
  return __real_caml_alloc_custom(ops, size, mem, max);
}
extern value __real_caml_alloc_custom_mem(struct custom_operations *, uintnat, mlsize_t);
value __wrap_caml_alloc_custom_mem(struct custom_operations *ops, uintnat size, mlsize_t mem)
{
  if (armed) {
    gc_point();
  }
  return __real_caml_alloc_custom_mem(ops, size, mem);
}
extern value __real_caml_alloc_small(mlsize_t, tag_t);
value __wrap_caml_alloc_small(mlsize_t wosize, tag_t tag)
{
  if (armed) gc_point();
  return __real_caml_alloc_small(wosize, tag);
}
extern value __real_caml_alloc(mlsize_t, tag_t);
value __wrap_caml_alloc(mlsize_t wosize, tag_t tag)
{
  if (armed) gc_point();
  return __real_caml_alloc(wosize, tag);
}
extern value __real_caml_copy_string(char const *);
value __wrap_caml_copy_string(char const *s)
{
  if (armed) gc_point();
  return __real_caml_copy_string(s);
}

/* A blocking section lets other threads run and the collector move things:
   both happen here, at once, whenever the library opens one. */
#include <caml/callback.h>
#include <caml/signals.h>
static int sections = 0;   /* threads only: otherwise nobody else can run */
CAMLprim value sim_sections(value b) { sections = Bool_val(b); return Val_unit; }
static void section_point(void)
{
  static const value *cl = NULL;
  if (!armed) return;
  armed = 0;
  if (!cl) cl = caml_named_value("sim_yield");
  force_gc(sim_draw_c(3)); fcount[F_GC_MINOR]++;
  if (cl) caml_callback_exn(*cl, Val_unit);   /* an abort is raised again at the next safepoint */
  armed = 1;
  if (storm) caml_record_signal(SIGUSR2);
}
/* The runtime retries to enter a blocking section as long as a signal is
   pending: hold the storm back meanwhile.  Armed code owns the baton, so
   nobody else looks at these variables. */
extern void __real_caml_enter_blocking_section(void);
void __wrap_caml_enter_blocking_section(void)
{
  if (!(storm && armed)) { __real_caml_enter_blocking_section(); return; }
  armed = 0;
  __real_caml_enter_blocking_section();
  armed = 1;
}
extern void __real_caml_leave_blocking_section(void);
void __wrap_caml_leave_blocking_section(void)
{
  __real_caml_leave_blocking_section();
  if (storm && armed) caml_record_signal(SIGUSR2);
}
void sim_enter_blocking_section(void) { section_point(); caml_enter_blocking_section(); }
void sim_leave_blocking_section(void) { caml_leave_blocking_section(); section_point(); }
/* exceptions go through these frames: no redzones to leave poisoned behind */
#define NOASAN __attribute__((no_sanitize("address")))
/* The runtime's own blocking sections, on behalf of channels and of Unix.read */
extern int __real_caml_read_fd(int, int, void *, int);
NOASAN int __wrap_caml_read_fd(int fd, int flags, void *buf, int n)
{
  if (sections) section_point();
  int r = __real_caml_read_fd(fd, flags, buf, n);
  if (sections) section_point();
  return r;
}
extern int __real_caml_write_fd(int, int, void *, int);
NOASAN int __wrap_caml_write_fd(int fd, int flags, void *buf, int n)
{
  if (sections) section_point();
  int r = __real_caml_write_fd(fd, flags, buf, n);
  if (sections) section_point();
  return r;
}
extern value __real_unix_read(value, value, value, value);
NOASAN value __wrap_unix_read(value fd, value buf, value ofs, value len)
{
  CAMLparam4(fd, buf, ofs, len);
  CAMLlocal1(r);
  if (sections) section_point();
  r = __real_unix_read(fd, buf, ofs, len);
  if (sections) section_point();
  CAMLreturn(r);
}

/* ------------------------------------------------------------------ */
/* C heap of the stubs, with accounting                                 */

#define NB 4096
struct blk { void *p; size_t n; int kind; int epoch; struct blk *next; };
static int epoch = 0;
static struct blk *tab[NB];
static uint64_t live_n[2], live_b[2];   /* 0: stubs, 1: zlib internal */
static unsigned hp(void *p) { return (unsigned) (((uintptr_t) p >> 4) * 2654435761u) % NB; }

struct secret { unsigned char *p; size_t n; struct secret *next; };
static struct secret *secrets = NULL;
static const char *scan(const void *p, size_t n)
{
  for (struct secret *s = secrets; s; s = s->next)
    if (memmem(p, n, s->p, s->n)) return "secret";
  return NULL;
}
CAMLprim value sim_secret_add(value v)
{
  struct secret *s = malloc(sizeof *s);
  s->n = caml_string_length(v); s->p = malloc(s->n); memcpy(s->p, String_val(v), s->n);
  s->next = secrets; secrets = s; return Val_unit;
}
CAMLprim value sim_secret_clear(value u)
{
  while (secrets) { struct secret *s = secrets; secrets = s->next; free(s->p); free(s); }
  return Val_unit;
}
CAMLprim value sim_has_secret(value v)
{ return Val_bool(scan(String_val(v), caml_string_length(v)) != NULL); }
/* contents of a custom / abstract block, searched in place */
CAMLprim value sim_block_has_secret(value v)
{ return Val_bool(scan((void *) v, Bsize_wsize(Wosize_val(v))) != NULL); }
/* any live C block of the stubs containing a registered secret */
CAMLprim value sim_cheap_has_secret(value kind)
{
  for (int i = 0; i < NB; i++)
    for (struct blk *b = tab[i]; b; b = b->next)
      if (b->kind == Int_val(kind) && scan(b->p, b->n)) return Val_true;
  return Val_false;
}

static void track(void *p, size_t n, int kind)
{
  struct blk *b = malloc(sizeof *b);
  b->p = p; b->n = n; b->kind = kind; b->epoch = epoch; b->next = tab[hp(p)]; tab[hp(p)] = b;
  live_n[kind]++; live_b[kind] += n;
}
static int untrack(void *p)
{
  struct blk **q = &tab[hp(p)];
  for (; *q; q = &(*q)->next)
    if ((*q)->p == p) {
      struct blk *b = *q; *q = b->next;
      live_n[b->kind]--; live_b[b->kind] -= b->n; free(b); return 1;
    }
  return 0;
}
CAMLprim value sim_live(value kind) { return Val_long(live_n[Int_val(kind)]); }
CAMLprim value sim_live_bytes(value kind) { return Val_long(live_b[Int_val(kind)]); }

void *sim_malloc(size_t n)
{
  if (fail_point()) { fault(F_ALLOC_FAIL); return NULL; }
  void *p = malloc(n ? n : 1);
  memset(p, 0xA5, n);
  track(p, n, 0); return p;
}
void *sim_calloc(size_t a, size_t b)
{ void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static size_t blksize(void *p)
{ for (struct blk *b = tab[hp(p)]; b; b = b->next) if (b->p == p) return b->n; return 0; }
/* what blocks allocated since the log was started contain when they are freed */
static int log_on = 0; static char *flog; static size_t flog_n, flog_cap;
CAMLprim value sim_freed_log(value b)
{ log_on = Bool_val(b); if (log_on) { epoch++; flog_n = 0; } return Val_unit; }
CAMLprim value sim_freed(value u) { value s = __real_caml_alloc_string(flog_n); if (flog_n) memcpy((char *) String_val(s), flog, flog_n); return s; }
static void log_free(void *p)
{
  if (!log_on) return;
  for (struct blk *b = tab[hp(p)]; b; b = b->next)
    if (b->p == p && b->epoch == epoch) {
      size_t n = (b->n + 7) & ~(size_t) 7;
      if (flog_n + n + 8 > (64 << 20)) return;
      if (flog_n + n + 8 > flog_cap) { flog_cap = 2 * (flog_n + n + 8); flog = realloc(flog, flog_cap); }
      *(size_t *) (flog + flog_n) = b->n; flog_n += 8;
      memset(flog + flog_n, 0, n); memcpy(flog + flog_n, p, b->n); flog_n += n;
      return;
    }
}
/* the static variables of the library's C code */
extern char __start_ck_bss[] __attribute__((weak)), __stop_ck_bss[] __attribute__((weak));
extern char __start_ck_data[] __attribute__((weak)), __stop_ck_data[] __attribute__((weak));
__attribute__((no_sanitize("address"))) CAMLprim value sim_statics(value u)
{
  size_t a = __stop_ck_bss - __start_ck_bss, b = __stop_ck_data - __start_ck_data;
  if (a > 16 << 20 || b > 16 << 20) return __real_caml_alloc_string(0);
  value s = __real_caml_alloc_string(a + b);
  char *d = (char *) String_val(s);
  for (size_t i = 0; i < a; i++) d[i] = __start_ck_bss[i];
  for (size_t i = 0; i < b; i++) d[a + i] = __start_ck_data[i];
  return s;
}
/* A new process: the static variables of the library as they were at the start. */
static char *data_at_start;
__attribute__((no_sanitize("address"), constructor)) static void save_statics(void)
{
  size_t b = __stop_ck_data - __start_ck_data;
  data_at_start = malloc(b + 1);
  for (size_t i = 0; i < b; i++) data_at_start[i] = ((volatile char *) __start_ck_data)[i];
}
__attribute__((no_sanitize("address"))) CAMLprim value sim_restart(value u)
{
  size_t a = __stop_ck_bss - __start_ck_bss, b = __stop_ck_data - __start_ck_data;
  for (size_t i = 0; i < a; i++) ((volatile char *) __start_ck_bss)[i] = 0;
  for (size_t i = 0; i < b; i++) ((volatile char *) __start_ck_data)[i] = data_at_start[i];
  return Val_unit;
}
/* contents of the C block a custom block points to ("" if none) */
CAMLprim value sim_cblock(value v)
{
  void *p = *(void **) Data_custom_val(v);
  for (struct blk *b = p ? tab[hp(p)] : NULL; b; b = b->next)
    if (b->p == p) { value s = __real_caml_alloc_string(b->n); memcpy((char *) String_val(s), p, b->n); return s; }
  return __real_caml_alloc_string(0);
}
CAMLprim value sim_custom_id(value v) { return caml_copy_string(Custom_ops_val(v)->identifier); }
CAMLprim value sim_custom_data(value v)
{ mlsize_t n = (Wosize_val(v) - 1) * sizeof(value); value s; CAMLparam1(v); s = __real_caml_alloc_string(n);
  memcpy((char *) String_val(s), Data_custom_val(v), n); CAMLreturn(s); }
void sim_free(void *p)
{
  if (!p) return;
  log_free(p);
  if (!untrack(p)) { set_cviol("free of a block that is not live"); return; }
  free(p);
}
void *sim_realloc(void *p, size_t n)
{
  void *q = sim_malloc(n);
  if (q && p) { size_t o = blksize(p); memcpy(q, p, o < n ? o : n); sim_free(p); }
  return q;
}
void *sim_stat_alloc(size_t n)
{ void *p = sim_malloc(n); if (!p) caml_raise_out_of_memory(); return p; }
void *sim_stat_alloc_noexc(size_t n) { return sim_malloc(n); }
void *sim_stat_resize(void *p, size_t n)
{ void *q = sim_realloc(p, n); if (!q) caml_raise_out_of_memory(); return q; }
void sim_stat_free(void *p) { sim_free(p); }
void *sim_aligned_alloc(size_t a, size_t n)
{
  void *p;
  if (fail_point()) { fault(F_ALLOC_FAIL); return NULL; }
  p = aligned_alloc(a, n); if (!p) return NULL;
  memset(p, 0xA5, n); track(p, n, 0); return p;
}
int sim_posix_memalign(void **r, size_t a, size_t n)
{
  void *p;
  if (fail_point()) { fault(F_ALLOC_FAIL); return ENOMEM; }
  if (posix_memalign(&p, a, n)) return ENOMEM;
  memset(p, 0xA5, n); track(p, n, 0); *r = p; return 0;
}
char *sim_strdup(const char *x)
{ size_t n = strlen(x) + 1; char *p = sim_malloc(n); if (p) memcpy(p, x, n); return p; }
void *sim_stat_calloc_noexc(size_t a, size_t b) { return sim_calloc(a, b); }
char *sim_stat_strdup(const char *x) { char *p = sim_strdup(x); if (!p) caml_raise_out_of_memory(); return p; }

static voidpf z_alloc(voidpf o, uInt items, uInt size)
{
  if (fail_point()) { fault(F_ZALLOC_FAIL); return Z_NULL; }
  size_t n = (size_t) items * size;
  void *p = malloc(n ? n : 1); memset(p, 0xA5, n); track(p, n, 1); return p;
}
static void z_free(voidpf o, voidpf p)
{
  log_free(p);
  if (!untrack(p)) { set_cviol("zlib free of a block that is not live"); return; }
  free(p);
}
extern int __real_deflateInit2_(z_streamp, int, int, int, int, int, const char *, int);
int __wrap_deflateInit2_(z_streamp s, int level, int method, int wb, int mem, int strat, const char *v, int sz)
{
  if (s && s->zalloc == NULL) { s->zalloc = z_alloc; s->zfree = z_free; s->opaque = NULL; }
  return __real_deflateInit2_(s, level, method, wb, mem, strat, v, sz);
}
extern int __real_inflateInit2_(z_streamp, int, const char *, int);
int __wrap_inflateInit2_(z_streamp s, int wb, const char *v, int sz)
{
  if (s && s->zalloc == NULL) { s->zalloc = z_alloc; s->zfree = z_free; s->opaque = NULL; }
  return __real_inflateInit2_(s, wb, v, sz);
}

/* ------------------------------------------------------------------ */
/* CPU personality                                                      */

static int cpu_bits(void)
{
  static int v = -1;
  if (v < 0) { const char *p = getenv("SIM_CPU"); v = p ? atoi(p) : 7; }
  return v;
}
int sim_get_cpuid(unsigned leaf, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
  int v = cpu_bits();
  *a = *b = *c = *d = 0;
  if (v == 8) return 0;               /* cpuid itself unavailable */
  if (leaf == 0) *a = 7;
  if (leaf == 1) {
    if (v & 1) *c |= 1u << 25;        /* AES-NI */
    if (v & 2) *c |= 1u << 1;         /* PCLMULQDQ */
    if (v & 4) *c |= 1u << 30;        /* RDRAND */
  }
  return 1;
}
extern int sim_bytecode; extern long sim_bytecode_calls;
CAMLprim value sim_set_bytecode(value b) { sim_bytecode = Bool_val(b); return Val_unit; }
CAMLprim value sim_bytecode_count(value u) { return Val_long(sim_bytecode_calls); }
int sim_cpu_supports(const char *f)
{
  int v = cpu_bits();
  if (v == 8) return 0;
  if (!strcmp(f, "aes")) return v & 1;
  if (!strcmp(f, "pclmul")) return v & 2;
  if (!strcmp(f, "rdrnd")) return v & 4;
  return 0;
}
/* A processor without AES or PCLMULQDQ: these instructions are illegal there. */
__attribute__((constructor)) static void remove_instructions(void)
{
  char path[4096], kind; unsigned long addr;
  int v = cpu_bits();
  ssize_t n = readlink("/proc/self/exe", path, sizeof(path) - 8);
  if (n <= 0 || (v & 3) == 3) return;
  strcpy(path + n, ".insns");
  FILE *f = fopen(path, "r");
  if (!f) return;
  while (fscanf(f, " %c %lx", &kind, &addr) == 2) {
    if (v != 8 && (v & (kind == 'A' ? 1 : 2))) continue;
    char *page = (char *) (addr & ~4095ul);
    if (mprotect(page, 8192, PROT_READ | PROT_WRITE | PROT_EXEC) != 0) continue;
    ((unsigned char *) addr)[0] = 0x0F; ((unsigned char *) addr)[1] = 0x0B;   /* ud2 */
    mprotect(page, 8192, PROT_READ | PROT_EXEC);
  }
  fclose(f);
}
CAMLprim value sim_cpu(value u) { return Val_int(cpu_bits()); }

/* ------------------------------------------------------------------ */
/* Entropy sources: byte number i of source s is a pure function         */

static uint64_t ent_seed = 0x1234567;
static uint64_t ent_pos[4];             /* 1 getentropy, 2 device, 3 rdrand */
static int ent_mode[4];                 /* fault mode, see below */
static int ent_p[4];                    /* fault probability, /64 */
static uint64_t ent_calls[4];
static unsigned char ent_byte(int src, uint64_t i)
{
  uint64_t s = ent_seed ^ ((uint64_t) src << 56) ^ ((i >> 3) * 0xD1342543DE82EF95ull);
  uint64_t w = splitmix(&s);
  return (unsigned char) (w >> (8 * (i & 7)));
}
CAMLprim value sim_ent_reset(value seed)
{
  ent_seed = (uint64_t) Long_val(seed) * 0x9E3779B97F4A7C15ull + 77;
  memset(ent_pos, 0, sizeof ent_pos); memset(ent_mode, 0, sizeof ent_mode);
  memset(ent_p, 0, sizeof ent_p); memset(ent_calls, 0, sizeof ent_calls);
  return Val_unit;
}
CAMLprim value sim_ent_config(value s, value mode, value p)
{ ent_mode[Int_val(s)] = Int_val(mode); ent_p[Int_val(s)] = Int_val(p); return Val_unit; }
CAMLprim value sim_ent_pos(value s) { return Val_long(ent_pos[Int_val(s)]); }
CAMLprim value sim_ent_calls(value s) { return Val_long(ent_calls[Int_val(s)]); }
CAMLprim value sim_ent_byte(value s, value i) { return Val_int(ent_byte(Int_val(s), Long_val(i))); }

int __wrap_getentropy(void *buf, size_t len)
{
  ent_calls[1]++;
  if (len > 256) { errno = EIO; return -1; }
  if (ent_mode[1] == 1 && chance(ent_p[1], 64)) {
    fault(F_GETENTROPY_FAIL);
    /* a failing call may leave a partly written buffer behind */
    errno = sim_draw_c(2) ? ENOSYS : EIO; return -1;
  }
  for (size_t i = 0; i < len; i++) ((unsigned char *) buf)[i] = ent_byte(1, ent_pos[1]++);
  return 0;
}

ssize_t __wrap_getrandom(void *buf, size_t len, unsigned flags)
{
  size_t done = 0;
  while (done < len) {
    size_t n = len - done < 256 ? len - done : 256;
    if (__wrap_getentropy((char *) buf + done, n) < 0) return -1;
    done += n;
  }
  return len;
}

/* RDRAND.  mode 0: healthy; 1: transient underflows (< 20 in a row);
   2: hard failure possible; 3: stuck at all ones (always) */
static int rd_streak = 0;
static int rd_init(void)
{ static int v = -1; if (v < 0) { const char *p = getenv("SIM_HW"); v = p ? atoi(p) : 0; } return v; }
CAMLprim value sim_hw_init(value u) { return Val_int(rd_init()); }
static uint64_t rd_budget = 0;
int sim_rdrand64(uint64_t *res)
{
  int m = ent_mode[3] ? ent_mode[3] : rd_init();
  ent_calls[3]++;
  if (m == 1 && rd_streak < 19 && chance(ent_p[3], 64)) { rd_streak++; fault(F_RDRAND_FAIL); *res = 0; return 0; }
  if (m == 2) {
    if (rd_budget > 0) { rd_budget--; *res = 0; return 0; }
    if (chance(ent_p[3], 64)) { rd_budget = 1 + sim_draw_c(200); fault(F_RDRAND_FAIL); *res = 0; return 0; }
  }
  if (m == 4) { fcount[F_RDRAND_FAIL]++; *res = 0; return 0; }   /* dead */
  rd_streak = 0;
  if (m == 3) { fcount[F_RDRAND_STUCK]++; *res = ~0ull; return 1; }
  uint64_t r = 0;
  for (int i = 0; i < 8; i++) r |= (uint64_t) ent_byte(3, ent_pos[3]++) << (8 * i);
  *res = r;
  return 1;
}
CAMLprim value sim_rd_reset(value u) { rd_streak = 0; rd_budget = 0; return Val_unit; }

/* ------------------------------------------------------------------ */
/* Simulated files and devices                                          */

#define FDBASE 900000
#define NFD 64
struct sfd { int used, dev, out; char *data; size_t len, cap, pos, limit; int closed;
             int p_short, p_eintr, p_eio, p_nospc; int eio_done, nclose; };
static struct sfd fds[NFD];
static int fd_open_count = 0, dev_open_total = 0;
static struct sfd *get(int fd) { return fd >= FDBASE && fd < FDBASE + NFD ? &fds[fd - FDBASE] : NULL; }
static int newfd(void)
{
  for (int i = 0; i < NFD; i++) if (!fds[i].used) {
    memset(&fds[i], 0, sizeof fds[i]); fds[i].used = 1; fd_open_count++; return i; }
  return -1;
}
CAMLprim value sim_fd_reset(value u)
{
  for (int i = 0; i < NFD; i++) if (fds[i].used && !fds[i].dev) { free(fds[i].data); fds[i].used = 0; }
  fd_open_count = 0;
  for (int i = 0; i < NFD; i++) if (fds[i].used) fd_open_count++;
  return Val_unit;
}
CAMLprim value sim_fd_open_count(value u) { return Val_long(fd_open_count); }
CAMLprim value sim_fd_in(value data)
{
  int i = newfd(); fds[i].len = caml_string_length(data);
  fds[i].data = malloc(fds[i].len + 1); memcpy(fds[i].data, String_val(data), fds[i].len);
  return Val_int(FDBASE + i);
}
CAMLprim value sim_fd_out(value limit)
{
  int i = newfd(); fds[i].out = 1; fds[i].limit = Long_val(limit); fds[i].cap = 256;
  fds[i].data = malloc(256);
  return Val_int(FDBASE + i);
}
CAMLprim value sim_fd_faults(value fd, value sh, value ei, value eio, value ns)
{
  struct sfd *f = get(Int_val(fd));
  f->p_short = Int_val(sh); f->p_eintr = Int_val(ei); f->p_eio = Int_val(eio); f->p_nospc = Int_val(ns);
  return Val_unit;
}
CAMLprim value sim_fd_pos(value fd) { return Val_long(get(Int_val(fd))->pos); }
CAMLprim value sim_fd_errs(value fd) { return Val_long(get(Int_val(fd))->eio_done); }
CAMLprim value sim_fd_data(value fd)
{
  struct sfd *f = get(Int_val(fd));
  value s = caml_alloc_string(f->len); memcpy((char *) String_val(s), f->data, f->len); return s;
}

static int dev_init(void)
{ static int v = -1; if (v < 0) { const char *p = getenv("SIM_DEV"); v = p ? atoi(p) : 0; } return v; }
static int open_mode = 0;   /* 0 follow SIM_DEV; else errno to give */
CAMLprim value sim_open_mode(value m) { open_mode = Int_val(m); return Val_unit; }
static int sim_path(const char *p)
{ return strcmp(p, "/dev/random") == 0 || strcmp(p, "/dev/urandom") == 0 || strncmp(p, "/sim/", 5) == 0; }
static int dev_open(const char *p)
{
  int e = open_mode ? open_mode : dev_init();
  if (e) { fault(F_OPEN_FAIL); errno = e; return -1; }
  int i = newfd(); if (i < 0) { errno = EMFILE; return -1; }
  fds[i].dev = 1; fds[i].limit = (size_t) -1; dev_open_total++;
  return FDBASE + i;
}
extern int __real_open64(const char *, int, int);
int __wrap_open64(const char *p, int fl, int mode)
{ return sim_path(p) ? dev_open(p) : __real_open64(p, fl, mode); }
extern int __real_open(const char *, int, int);
int __wrap_open(const char *p, int fl, int mode)
{ return sim_path(p) ? dev_open(p) : __real_open(p, fl, mode); }
CAMLprim value sim_dev_limit(value n)  /* bytes until the device reports EOF */
{ for (int i = 0; i < NFD; i++) if (fds[i].used && fds[i].dev)
    fds[i].limit = Long_val(n) < 0 ? (size_t) -1 : ent_pos[2] + Long_val(n); return Val_unit; }
static int dev_p_short, dev_p_eintr, dev_p_eio;
CAMLprim value sim_dev_faults(value a, value b, value c)
{ dev_p_short = Int_val(a); dev_p_eintr = Int_val(b); dev_p_eio = Int_val(c); return Val_unit; }
static int dev_errs = 0;
CAMLprim value sim_dev_errs(value u) { int r = dev_errs; dev_errs = 0; return Val_int(r); }

static ssize_t sread(struct sfd *f, char *buf, size_t n)
{
  if (f->closed || !f->used) { errno = EBADF; return -1; }
  if (f->dev) {
    ent_calls[2]++;
    if (chance(dev_p_eintr, 64)) { fault(F_READ_EINTR); dev_errs++; errno = EINTR; return -1; }
    if (chance(dev_p_eio, 64)) { fault(F_READ_EIO); dev_errs++; errno = EIO; return -1; }
    if (ent_pos[2] >= f->limit) { fault(F_DEV_EOF); return 0; }
    if (n > f->limit - ent_pos[2]) n = f->limit - ent_pos[2];
    if (n > 1 && chance(dev_p_short, 64)) { n = 1 + sim_draw_c(n - 1 > 1000 ? 1000 : n - 1); fault(F_SHORT_READ); }
    for (size_t i = 0; i < n; i++) buf[i] = ent_byte(2, ent_pos[2]++);
    return n;
  }
  if (chance(f->p_eintr, 64)) { fault(F_READ_EINTR); errno = EINTR; return -1; }
  if (chance(f->p_eio, 64)) { fault(F_READ_EIO); f->eio_done++; errno = EIO; return -1; }
  if (n > f->len - f->pos) n = f->len - f->pos;
  if (n > 1 && chance(f->p_short, 64)) {
    static const int pick[8] = { 1, 2, 3, 7, 15, 16, 17, 255 };
    uint32_t k = sim_draw_c(12); size_t m = k < 8 ? (size_t) pick[k] : 1 + sim_draw_c(300);
    if (m < n) { n = m; fault(F_SHORT_READ); }
  }
  memcpy(buf, f->data + f->pos, n); f->pos += n;
  return n;
}
static ssize_t swrite(struct sfd *f, const char *buf, size_t n)
{
  if (f->closed || !f->used || !f->out) { errno = EBADF; return -1; }
  if (chance(f->p_eintr, 64)) { fault(F_WRITE_EINTR); errno = EINTR; return -1; }
  if (chance(f->p_eio, 64)) { fault(F_WRITE_EIO); f->eio_done++; errno = EIO; return -1; }
  if (f->len >= f->limit) { fault(F_WRITE_ENOSPC); f->eio_done++; errno = ENOSPC; return -1; }
  if (n > f->limit - f->len) { n = f->limit - f->len; fault(F_SHORT_WRITE); }
  if (n > 1 && chance(f->p_short, 64)) { size_t m = 1 + sim_draw_c(n - 1 > 500 ? 500 : n - 1); if (m < n) { n = m; fault(F_SHORT_WRITE); } }
  if (f->len + n > f->cap) { f->cap = 2 * (f->len + n); f->data = realloc(f->data, f->cap); }
  memcpy(f->data + f->len, buf, n); f->len += n; f->pos = f->len;
  return n;
}
extern ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{ struct sfd *f = get(fd); return f ? sread(f, b, n) : __real_read(fd, b, n); }
extern ssize_t __real___read_chk(int, void *, size_t, size_t);
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t bs)
{ struct sfd *f = get(fd); return f ? sread(f, b, n) : __real_read(fd, b, n); }
extern ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{ struct sfd *f = get(fd); return f ? swrite(f, b, n) : __real_write(fd, b, n); }
extern int __real_close(int);
int __wrap_close(int fd)
{
  struct sfd *f = get(fd);
  if (!f) return __real_close(fd);
  if (!f->used || f->closed) { errno = EBADF; return -1; }
  fd_open_count--;
  if (f->dev) f->used = 0; else f->closed = 1;
  return 0;
}
extern off_t __real_lseek64(int, off_t, int);
off_t __wrap_lseek64(int fd, off_t o, int w)
{ struct sfd *f = get(fd); if (f && w == SEEK_CUR && o == 0 && !f->dev) return f->pos; if (f) { errno = ESPIPE; return -1; } return __real_lseek64(fd, o, w); }
extern off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w)
{ struct sfd *f = get(fd); if (f && w == SEEK_CUR && o == 0 && !f->dev) return f->pos; if (f) { errno = ESPIPE; return -1; } return __real_lseek(fd, o, w); }

/* ------------------------------------------------------------------ */
/* Run lifecycle                                                        */

CAMLprim value sim_begin(value run, value seed_hi, value seed_lo)
{
  chf_init();
  chf->magic = 0x53494d43; chf->run = Long_val(run); chf->count = 0;
  prng = (uint64_t) Long_val(seed_hi) * 0x9E3779B97F4A7C15ull ^ (uint64_t) Long_val(seed_lo);
  splitmix(&prng);
  evhash = 0xcbf29ce484222325ull; evcount = 0; chf->evhash = evhash;
  script_pos = 0;
  armed = 0; storm = 0; sections = 0; gc_num = 0; gc_heavy = 0; fail_at = -1; fail_fired = 0; guard_on = 0; alloc_points = 0;
  cviol[0] = 0; open_mode = 0;
  dev_p_short = dev_p_eintr = dev_p_eio = dev_errs = 0; rd_streak = 0; rd_budget = 0;
  return Val_unit;
}
CAMLprim value sim_set_script(value arr)
{
  chf_init();
  script_len = Wosize_val(arr); script = realloc(script, script_len * 4 + 4);
  for (size_t i = 0; i < script_len; i++) script[i] = (uint32_t) Long_val(Field(arr, i));
  script_pos = 0; replaying = 1;
  return Val_unit;
}
CAMLprim value sim_script_used(value u) { return Val_long(script_pos); }
CAMLprim value sim_block_addr_size(value v) { return Val_long(Wosize_val(v)); }

/* ---------- simulated time: one tick per retired instruction ---------- */
static volatile long clock_ticks;
static void clock_tick(int sig, siginfo_t * i, void * u) { clock_ticks++; }
CAMLprim value sim_clock_on(value u)
{
#ifdef __x86_64__
  static int installed = 0;
  if (! installed) {
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = clock_tick; a.sa_flags = SA_SIGINFO | SA_RESTART;
    sigaction(SIGTRAP, &a, NULL); installed = 1;
  }
  clock_ticks = 0;
  __asm__ volatile ("pushfq; orq $0x100, (%%rsp); popfq" : : : "memory", "cc");
#endif
  return Val_unit;
}
CAMLprim value sim_clock_off(value u)
{
#ifdef __x86_64__
  __asm__ volatile ("pushfq; andq $~0x100, (%%rsp); popfq" : : : "memory", "cc");
#endif
  return Val_long(clock_ticks);
}
