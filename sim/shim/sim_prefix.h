/* Force-included in every stub file of /repo: routes C-heap traffic of the
   stubs through the simulator, which counts it and may make it fail. */
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/signals.h>
#include <caml/threads.h>
extern void sim_enter_blocking_section(void);
extern void sim_leave_blocking_section(void);
#define caml_enter_blocking_section sim_enter_blocking_section
#define caml_leave_blocking_section sim_leave_blocking_section
extern void *sim_stat_alloc(size_t);
extern void *sim_stat_alloc_noexc(size_t);
extern void *sim_stat_resize(void *, size_t);
extern void sim_stat_free(void *);
extern void *sim_malloc(size_t);
extern void *sim_calloc(size_t, size_t);
extern void *sim_realloc(void *, size_t);
extern void sim_free(void *);
#define caml_stat_alloc sim_stat_alloc
#define caml_stat_alloc_noexc sim_stat_alloc_noexc
#define caml_stat_resize sim_stat_resize
#define caml_stat_free sim_stat_free
#define malloc sim_malloc
#define calloc sim_calloc
#define realloc sim_realloc
#define free sim_free
/* other ways to say the same */
extern void *sim_aligned_alloc(size_t, size_t);
extern int sim_posix_memalign(void **, size_t, size_t);
extern char *sim_strdup(const char *);
extern void *sim_stat_calloc_noexc(size_t, size_t);
extern char *sim_stat_strdup(const char *);
extern int sim_cpu_supports(const char *);
#define aligned_alloc sim_aligned_alloc
#define posix_memalign sim_posix_memalign
#define strdup sim_strdup
#define caml_stat_calloc_noexc sim_stat_calloc_noexc
#define caml_stat_strdup sim_stat_strdup
#define __builtin_cpu_init() ((void) 0)
#define __builtin_cpu_supports(f) sim_cpu_supports(f)
