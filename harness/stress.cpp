// Concurrency workload: threads call the runtime's entry points at the same
// time, each noting what it did, when, and which labels it saw.  Decides nothing;
// checks/c10.py compares the notes with the finished recording.
//   stress SEED THREADS OPS DELAY MIX LOG
// DELAY: bit 0 delays around mutexes, bit 1 signals that stall threads anywhere.
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

typedef uint32_t L;
extern "C" {
L dfsan_read_label(const void *, size_t);
void dfsan_set_label(L, void *, size_t);
L dfsan_union(L, L);
L __dfsan_union(L, L);
L __polytracker_union_table(const L &, const L &);
void __taint_start();
uint16_t __polytracker_log_func_entry(char *, uint16_t);
void __polytracker_log_func_exit(uint16_t);
void __polytracker_log_conditional_branch(L);
uint64_t __dfsw___polytracker_log_tainted_control_flow(uint64_t, uint32_t, L, L, L *);
void __polytracker_enter_function(uint32_t);
void __polytracker_leave_function(uint32_t);
int __dfsw_open(const char *, int, L, L, L *, L *, ...);
FILE *__dfsw_fopen(const char *, const char *, L, L, L *);
int __dfsw_close(int, L, L *);
int __dfsw_fclose(FILE *, L, L *);
ssize_t __dfsw_read(int, void *, size_t, L, L, L, L *);
ssize_t __dfsw_pread(int, void *, size_t, off_t, L, L, L, L, L *);
size_t __dfsw_fread(void *, size_t, size_t, FILE *, L, L, L, L, L *);
ssize_t __dfsw_write(int, void *, size_t, L, L, L, L *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
}

static int delays = 0;
static __thread uint64_t drng = 0; // nonzero in workers only
static uint64_t step(uint64_t &s) {
  s ^= s << 13;
  s ^= s >> 7;
  s ^= s << 17;
  return s;
}
static void stall(uint64_t r) {
  switch (r % 4) {
  case 0: syscall(SYS_sched_yield); break;
  case 1: {
    struct timespec t {0, (long)(r >> 8) % 60000};
    syscall(SYS_nanosleep, &t, nullptr);
    break;
  }
  default:
    for (volatile int i = 0; i < (int)((r >> 8) % 2000); i = i + 1)
      ;
  }
}
static void maybe() {
  if ((delays & 1) && drng) {
    uint64_t r = step(drng);
    if (r % 16 == 0)
      stall(r >> 4);
  }
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  maybe();
  int r = __real_pthread_mutex_lock(m);
  maybe();
  return r;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = __real_pthread_mutex_unlock(m);
  maybe();
  return r;
}
static void on_signal(int) {
  int e = errno;
  if (drng) {
    uint64_t r = drng * 0x9e3779b97f4a7c15ull ^ (uint64_t)(uintptr_t)&r;
    stall(r >> 7);
  }
  errno = e;
}

static int64_t now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec;
}

struct Rec {
  const char *op;
  int64_t t0, t1;
  long a, b, r;
  size_t l, n; // labels seen: lab[l, l + n)
};
struct Thread {
  int id;
  uint64_t rng;
  std::vector<Rec> recs;
  std::vector<L> lab;
  char *buf;
  pthread_t th;
};
static const int MAXT = 16, FILES = 14, PUB = 16;
static std::atomic<L> pub[MAXT][PUB];
static int shared_fd, in_fd, out_fd, ofd[MAXT];
static int nthreads, nops, mix;
static std::atomic<int> ready{0}, running{0};
static std::atomic<bool> go{false}, stop{false};

static void *work(void *p) {
  Thread &t = *(Thread *)p;
  char *b = t.buf;
  L zl = 0;
  auto rnd = [&](uint64_t n) { return (step(t.rng) >> 11) % n; };
  auto note = [&](const char *op, int64_t t0, int64_t t1, long a, long b2, long r, size_t l, size_t n) {
    t.recs.push_back({op, t0, t1, a, b2, r, l, n});
  };
  auto labels = [&](const char *q, size_t n) {
    size_t l = t.lab.size();
    for (size_t i = 0; i < n; i++)
      t.lab.push_back(dfsan_read_label(q + i, 1));
    return l;
  };
  L own[32] = {0};
  unsigned nown = 0;
  auto keep = [&](L l) {
    if (l) {
      own[nown++ % 32] = l;
      if (rnd(3) == 0)
        pub[t.id][rnd(PUB)].store(l, std::memory_order_release);
    }
  };
  auto some = [&]() -> L {
    L l = 0;
    if (rnd(3) == 0)
      l = pub[rnd(nthreads)][rnd(PUB)].load(std::memory_order_acquire);
    if (!l && nown)
      l = own[rnd(nown < 32 ? nown : 32)];
    return l;
  };
  int fd = -1, fk = 0, nextfile = 0;
  FILE *fp = nullptr;
  uint32_t ctr = 0;
  long pfn = 0;
  int lastix = -1;
  drng = t.rng | 1;
  ready++;
  while (!go.load(std::memory_order_acquire))
    ;
  for (int i = 0; i < nops; i++) {
    int k = (int)rnd(100);
    if (mix == 1) // labels
      k = k < 50 ? 30 + k % 12 : k < 75 ? 0 : k < 90 ? 60 : 10;
    else if (mix == 2) // logs
      k = k < 40 ? 66 + k % 10 : k < 90 ? 78 + k % 22 : 0;
    else if (mix == 3) // descriptors
      k = k < 40 ? 0 : k < 75 ? 20 : 45;
    int64_t t0, t1;
    size_t n, l;
    ssize_t r;
    if (k < 10) { // private file
      if (mix == 3 && fd >= 0 && rnd(3) == 0 && nextfile < FILES) {
        t0 = now();
        r = fp ? __dfsw_fclose(fp, 0, &zl) : __dfsw_close(fd, 0, &zl);
        t1 = now();
        note("close", t0, t1, fk, fd, r, 0, 0);
        fd = -1;
        fp = nullptr;
      }
      if (fd < 0) {
        if (nextfile >= FILES)
          continue;
        char path[32];
        snprintf(path, sizeof path, "t%d_%d", t.id, nextfile);
        L va = 0;
        t0 = now();
        if (rnd(4) == 0) {
          fp = __dfsw_fopen(path, "r", 0, 0, &zl);
          fd = fp ? fileno(fp) : -1;
        } else
          fd = __dfsw_open(path, O_RDONLY, 0, 0, &va, &zl);
        t1 = now();
        fk = nextfile++;
        note(fp ? "fopen" : "open", t0, t1, fk, 0, fd, 0, 0);
        continue;
      }
      n = 1 + rnd(12);
      t0 = now();
      r = fp ? (ssize_t)__dfsw_fread(b, 1, n, fp, 0, 0, 0, 0, &zl) : __dfsw_read(fd, b, n, 0, 0, 0, &zl);
      t1 = now();
      l = labels(b, r > 0 ? r : 0);
      note("read", t0, t1, fk, n, r, l, r > 0 ? r : 0);
      if (r > 0)
        keep(t.lab[l + rnd(r)]);
      if (r <= 0 && nextfile < FILES) {
        t0 = now();
        r = fp ? __dfsw_fclose(fp, 0, &zl) : __dfsw_close(fd, 0, &zl);
        t1 = now();
        note("close", t0, t1, fk, fd, r, 0, 0);
        fd = -1;
        fp = nullptr;
      }
    } else if (k < 16) { // one file shared by all
      n = 1 + rnd(20);
      long off = rnd(480);
      t0 = now();
      r = __dfsw_pread(shared_fd, b, n, off, 0, 0, 0, 0, &zl);
      t1 = now();
      l = labels(b, r > 0 ? r : 0);
      note("pread", t0, t1, off, n, r, l, r > 0 ? r : 0);
      if (r > 0)
        keep(t.lab[l + rnd(r)]);
    } else if (k < 20) { // one stream shared by all
      n = 1 + rnd(6);
      t0 = now();
      r = __dfsw_read(in_fd, b, n, 0, 0, 0, &zl);
      t1 = now();
      if (r > 0) {
        l = labels(b, r);
        note("sread", t0, t1, 0, n, r, l, r);
        keep(t.lab[l + rnd(r)]);
      }
    } else if (k < 26) { // fresh bytes to the shared output stream
      n = 1 + rnd(10);
      long off = rnd(480);
      t0 = now();
      r = __dfsw_pread(shared_fd, b, n, off, 0, 0, 0, 0, &zl);
      t1 = now();
      l = labels(b, r > 0 ? r : 0);
      note("pread", t0, t1, off, n, r, l, r > 0 ? r : 0);
      if (r <= 0)
        continue;
      n = r;
      t0 = now();
      r = __dfsw_write(out_fd, b, n, 0, 0, 0, &zl);
      t1 = now();
      note("swrite", t0, t1, 0, n, r, l, n);
    } else if (k < 45) { // union
      L x = some(), y = some(), z;
      if (!x || !y)
        continue;
      int how = (int)rnd(3);
      t0 = now();
      z = how == 0 ? dfsan_union(x, y) : how == 1 ? __dfsan_union(x, y) : __polytracker_union_table(x, y);
      t1 = now();
      note("union", t0, t1, x, y, z, 0, 0);
      keep(z);
    } else if (k < 56) { // private output
      n = 1 + rnd(16);
      for (size_t j = 0; j < n; j++) {
        b[j] = (char)j;
        dfsan_set_label(rnd(3) ? some() : 0, b + j, 1);
      }
      l = labels(b, n);
      t0 = now();
      r = __dfsw_write(ofd[t.id], b, n, 0, 0, 0, &zl);
      t1 = now();
      note("write", t0, t1, 0, n, r, l, n);
    } else if (k < 66) { // branch
      L x = some();
      if (!x)
        continue;
      t0 = now();
      __polytracker_log_conditional_branch(x);
      t1 = now();
      note("br", t0, t1, x, 0, 0, 0, 0);
    } else if (k < 78) { // function trace
      char name[40];
      bool priv = rnd(2);
      long num = priv ? pfn++ : (long)rnd(3) == 0 ? (long)rnd(40) : (long)(i / 12);
      snprintf(name, sizeof name, priv ? "p%d_%ld" : "s%.0d_%ld", priv ? t.id : 0, num);
      t0 = now();
      lastix = __polytracker_log_func_entry(name, strlen(name));
      t1 = now();
      memset(name, '?', sizeof name); // the caller's copy of the name is its own
      note(priv ? "fep" : "fes", t0, t1, num, 0, lastix, 0, 0);
      if (priv && rnd(2)) {
        t0 = now();
        __polytracker_log_func_exit(lastix);
        t1 = now();
        note("fxp", t0, t1, num, 0, lastix, 0, 0);
      }
    } else { // control-flow log
      uint32_t id = (uint32_t)t.id << 24 | ctr++;
      int what = (int)rnd(3);
      L x = what == 2 ? some() : 0;
      if (what == 2 && !x)
        what = 0;
      t0 = now();
      if (what == 0)
        __polytracker_enter_function(id);
      else if (what == 1)
        __polytracker_leave_function(id);
      else
        __dfsw___polytracker_log_tainted_control_flow(7, id, x, 0, &zl);
      t1 = now();
      note(what == 0 ? "ent" : what == 1 ? "lev" : "tcf", t0, t1, id, x, 0, 0, 0);
    }
  }
  drng = 0;
  running--;
  return nullptr;
}

static void *drain(void *) { // keeps the output stream from filling up
  char b[4096];
  while (!stop.load()) {
    if (read(out_fd, b, sizeof b) <= 0)
      usleep(200);
  }
  return nullptr;
}
static Thread *ths;
static void *pester(void *p) {
  uint64_t r = 88172645463325252ull ^ (uintptr_t)p;
  while (!stop.load(std::memory_order_relaxed)) {
    pthread_kill(ths[step(r) % nthreads].th, SIGUSR1);
    struct timespec t {0, (long)(step(r) % 40000)};
    syscall(SYS_nanosleep, &t, nullptr);
  }
  return nullptr;
}

int main(int argc, char **argv) {
  if (argc != 7)
    return 2;
  uint64_t seed = strtoull(argv[1], 0, 10);
  nthreads = atoi(argv[2]);
  nops = atoi(argv[3]);
  delays = atoi(argv[4]);
  mix = atoi(argv[5]);
  __taint_start();
  L va = 0, zl = 0;
  mkfifo("fi", 0600);
  mkfifo("fo", 0600);
  shared_fd = __dfsw_open("shared", O_RDONLY, 0, 0, &va, &zl);
  in_fd = __dfsw_open("fi", O_RDWR | O_NONBLOCK, 0, 0, &va, &zl);
  out_fd = __dfsw_open("fo", O_RDWR | O_NONBLOCK, 0, 0, &va, &zl);
  {
    char fill[4096];
    memset(fill, 'f', sizeof fill);
    for (int i = 0; i < 15; i++)
      if (write(in_fd, fill, sizeof fill) < 0)
        break;
  }
  ths = new Thread[nthreads];
  char *arena = (char *)malloc(nthreads * 256);
  for (int i = 0; i < nthreads; i++) {
    char name[16];
    snprintf(name, sizeof name, "o%d", i);
    ofd[i] = __dfsw_open(name, O_RDWR | O_CREAT | O_TRUNC, 0, 0, &va, &zl, 0600);
    ths[i].id = i;
    ths[i].rng = (seed * 1000003 + i + 1) * 0x9e3779b97f4a7c15ull | 1;
    ths[i].recs.reserve(nops * 2 + 8);
    ths[i].lab.reserve(nops * 12);
    ths[i].buf = arena + 256 * i;
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGUSR1, &sa, nullptr);
  pthread_t d, s;
  running = nthreads;
  for (int i = 0; i < nthreads; i++)
    pthread_create(&ths[i].th, nullptr, work, &ths[i]);
  pthread_create(&d, nullptr, drain, nullptr);
  while (ready.load() < nthreads)
    usleep(50);
  if (delays & 2)
    pthread_create(&s, nullptr, pester, &ths[0]);
  go.store(true, std::memory_order_release);
  // a thread that was joined is no valid target for a signal any more
  while (running.load() > 0)
    usleep(200);
  stop = true;
  if (delays & 2)
    pthread_join(s, nullptr);
  pthread_join(d, nullptr);
  for (int i = 0; i < nthreads; i++)
    pthread_join(ths[i].th, nullptr);
  FILE *f = fopen(argv[6], "w");
  for (int i = 0; i < nthreads; i++)
    for (auto &r : ths[i].recs) {
      fprintf(f, "%d %s %ld %ld %ld %ld %ld ", i, r.op, (long)r.t0, (long)r.t1, r.a, r.b, r.r);
      for (size_t j = 0; j < r.n; j++)
        fprintf(f, "%s%u", j ? "," : "", ths[i].lab[r.l + j]);
      fputc('\n', f);
    }
  fprintf(f, "end\n");
  fclose(f);
  exit(0);
}
