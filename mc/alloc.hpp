#pragma once
#include <stddef.h>
namespace mca {
extern long live;        // blocks currently allocated by the library
extern long total;       // allocations requested so far
extern int fill;         // byte that fresh memory is filled with
extern long fail_at;     // fail exactly this allocation
extern long fail_from;   // fail every allocation from this one on
extern size_t fail_over; // fail allocations larger than this
extern int (*rand_hook)();
extern void (*point)(int);
extern bool (*should_fail)(size_t);
extern long failed;
extern void (*on_alloc)(void *, size_t);
extern void (*on_free)(void *, size_t);
}
