// Allocation seam of the library objects (their malloc/calloc/realloc/free/strdup are renamed to mc_* by objcopy) and
// the sampling seam (rand -> mc_rand).
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include "alloc.hpp"
namespace mca { long live = 0; long total = 0; int fill = 0xA5; long fail_at = -1; long fail_from = -1; size_t fail_over = 0; int (*rand_hook)() = nullptr; void (*point)(int) = nullptr; bool (*should_fail)(size_t) = nullptr; long failed = 0; void (*on_alloc)(void *, size_t) = nullptr; void (*on_free)(void *, size_t) = nullptr; }
extern "C" {
static bool deny(size_t n) {
  long k = mca::total++;
  bool d = k == mca::fail_at || (mca::fail_from >= 0 && k >= mca::fail_from) || (mca::fail_over && n > mca::fail_over);
  if (!d && mca::should_fail) d = mca::should_fail(n);
  if (d) mca::failed++;
  return d;
}
void *mc_malloc(size_t n) { if (mca::point) mca::point(0); if (deny(n)) return 0; void *p = malloc(n); if (p) { mca::live++; memset(p, mca::fill, n); if (mca::on_alloc) mca::on_alloc(p, malloc_usable_size(p)); } return p; }
void *mc_calloc(size_t a, size_t b) { if (mca::point) mca::point(0); if (deny(a * b)) return 0; void *p = calloc(a, b); if (p) mca::live++; if (p && mca::on_alloc) mca::on_alloc(p, malloc_usable_size(p)); return p; }
void *mc_realloc(void *q, size_t n) {
  if (mca::point) mca::point(0);
  if (deny(n)) return 0;
  size_t old = 0;
#ifndef MC_NO_USABLE
  if (q) old = malloc_usable_size(q);
#endif
  if (q && mca::on_free) mca::on_free(q, old);
  void *p = realloc(q, n); if (p && mca::on_alloc) mca::on_alloc(p, malloc_usable_size(p)); if (p && !q) mca::live++;
  if (p && n > old) memset((char *)p + old, mca::fill, n - old);
  return p; }
void mc_free(void *p) { if (mca::point) mca::point(1); if (p) mca::live--; if (p && mca::on_free) mca::on_free(p, malloc_usable_size(p)); free(p); }
char *mc_strdup(const char *s) { char *p = (char *)mc_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
int mc_rand(void) { return mca::rand_hook ? mca::rand_hook() : RAND_MAX; }
}
