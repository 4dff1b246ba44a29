// Stands in for the dfsan runtime in drivers built with another sanitizer (two
// sanitizer runtimes cannot share a process).  Only keeps one label per byte.
#include <atomic>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
typedef uint32_t L;
extern "C" {
L __polytracker_union_table(const L &, const L &);
L *ptvm_shadow_for(void *p);
}
#ifndef PT_SHADOW_EXTERN
#ifdef PT_SHADOW_SMALL // for MemorySanitizer, which leaves little address space; labels of distant addresses may coincide
static uintptr_t BASE = 0;
static const uintptr_t MASK = 0x0fffffff;
#else
static const uintptr_t BASE = 0x100100000000, MASK = 0x07ffffffffff;
#endif
__attribute__((constructor(101))) static void map_shadow() {
  void *p = mmap((void *)BASE, (MASK + 0x1000001) << 2, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (BASE ? MAP_FIXED_NOREPLACE : 0), -1, 0);
#ifdef PT_SHADOW_SMALL
  BASE = (uintptr_t)p;
#endif
  if (p != (void *)BASE) {
    perror("stub shadow");
    _Exit(93);
  }
  madvise(p, (MASK + 1) << 2, MADV_NOHUGEPAGE);
}
L *ptvm_shadow_for(void *p) {
  return (L *)(BASE + (((uintptr_t)p & MASK) << 2));
}
#endif
extern "C" {
L dfsan_union(L a, L b) {
  if (a == 0 || a == b)
    return b;
  if (b == 0)
    return a;
  return __polytracker_union_table(a, b);
}
L __dfsan_union(L a, L b) { return dfsan_union(a, b); }
void dfsan_set_label(L l, void *p, size_t n) {
  for (size_t i = 0; i < n; i++)
    *ptvm_shadow_for((char *)p + i) = l;
}
void dfsan_add_label(L l, void *p, size_t n) {
  for (size_t i = 0; i < n; i++) {
    L *s = ptvm_shadow_for((char *)p + i);
    *s = dfsan_union(*s, l);
  }
}
L dfsan_read_label(const void *p, size_t n) {
  L l = 0;
  for (size_t i = 0; i < n; i++)
    l = dfsan_union(l, *ptvm_shadow_for((char *)p + i));
  return l;
}
L __dfsan_union_load(const L *s, size_t n) {
  L l = 0;
  for (size_t i = 0; i < n; i++)
    l = dfsan_union(l, s[i]);
  return l;
}
L dfsan_get_label(long) { return 0; }
void __dfsan_set_label(L l, L, void *p, size_t n) { dfsan_set_label(l, p, n); }
}
