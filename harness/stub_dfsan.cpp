// The few internals dfsan_custom.cpp needs besides labels.  Built with the
// namespace __sanitizer renamed, so that they do not meet those of the real
// sanitizer runtime in the process.
#include "dfsan/dfsan.h"
#include "dfsan/dfsan_chained_origin_depot.h"
#include "dfsan/dfsan_thread.h"
#include "sanitizer_common/sanitizer_common.h"
#include "sanitizer_common/sanitizer_linux.h"
#include "sanitizer_common/sanitizer_stackdepot.h"
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <link.h>
namespace __sanitizer {
void CheckFailed(const char *file, int line, const char *cond, u64 a, u64 b) {
  fprintf(stderr, "CHECK failed: %s:%d %s %llu %llu\n", file, line, cond, (unsigned long long)a, (unsigned long long)b);
  abort();
}
void AdjustStackSize(void *) {}
void *internal_memcpy(void *d, const void *s, uptr n) { return memcpy(d, s, n); }
void *internal_memmove(void *d, const void *s, uptr n) { return memmove(d, s, n); }
void *internal_memset(void *d, int c, uptr n) { return memset(d, c, n); }
void StackDepotLockAll() {}
void StackDepotUnlockAll() {}
void ChainedOriginDepot::LockAll() {}
void ChainedOriginDepot::UnlockAll() {}
uptr internal_sched_yield() { return sched_yield(); }
void ForEachMappedRegion(link_map *, void (*)(const void *, uptr)) {}
} // namespace __sanitizer
namespace __dfsan {
using namespace __sanitizer;
Flags flags_data;
__attribute__((constructor)) static void set_flags() {
  const char *o = getenv("DFSAN_OPTIONS");
  flags_data.strict_data_dependencies = !(o && strstr(o, "strict_data_dependencies=0"));
}
static thread_local DFsanThread *current;
DFsanThread *GetCurrentThread() { return current; }
void SetCurrentThread(DFsanThread *t) { current = t; }
DFsanThread *DFsanThread::Create(void *tr, thread_callback_t fn, void *arg, bool origins) {
  DFsanThread *t = (DFsanThread *)calloc(1, sizeof(DFsanThread));
  t->start_routine_trampoline_ = tr;
  t->start_routine_ = fn;
  t->arg_ = arg;
  t->track_origins_ = origins;
  return t;
}
thread_return_t DFsanThread::ThreadStart() {
  dfsan_label r = 0;
  typedef void *(*fn)(void *, void *, dfsan_label, dfsan_label *);
  thread_return_t v = ((fn)start_routine_trampoline_)((void *)start_routine_, arg_, 0, &r);
  free(this);
  return v;
}
static char depot[64];
ChainedOriginDepot *GetChainedOriginDepot() { return (ChainedOriginDepot *)depot; }
} // namespace __dfsan
extern "C" {
void dfsan_clear_arg_tls(uptr, uptr) {}
void dfsan_clear_thread_local_state() {}
void dfsan_mem_origin_transfer(const void *, const void *, uptr) {}
dfsan_origin dfsan_read_origin_of_first_taint(const void *, uptr) { return 0; }
void dfsan_set_label_origin(dfsan_label l, dfsan_origin, void *p, uptr n) { dfsan_set_label(l, p, n); }
}
