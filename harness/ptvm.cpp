// ptvm: stands in for a program instrumented by PolyTracker.
//
// It interprets a line-based script.  Each line is an operation a program can
// perform (open, read, strcpy, write, a branch, a function entry, ...).  In the
// tracked build every operation goes through the entry point that PolyTracker's
// instrumentation would call (the __dfsw_* wrappers and the __polytracker_* and
// __dfsan_* runtime functions).  In the native build (-DPTVM_NATIVE) the very
// same script runs on plain libc, which gives the reference for transparency.
//
// After every operation the monitor part logs, to a private descriptor: the
// return value, errno when the call failed, the label of the result, the file
// position before and after, and every byte and every label that changed in any
// memory the program owns.  Nothing here decides anything; the Python monitors
// replay the log against an independent model.
#include <algorithm>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <limits.h>
#include <link.h>
#include <linux/limits.h>
#include <map>
#include <math.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

typedef uint32_t L; // label

#ifdef PTVM_NATIVE
static inline L read_label(const void *, size_t) { return 0; }
static inline void put_label(L, void *, size_t) {}
#else
extern "C" {
L dfsan_read_label(const void *, size_t);
void dfsan_set_label(L, void *, size_t);
void dfsan_add_label(L, void *, size_t);
L dfsan_get_label(long);
L dfsan_union(L, L);
L __dfsan_union(L, L);
L __dfsan_union_load(const L *, size_t);
void __dfsan_set_label(L, L, void *, size_t);

void __taint_start();
void __polytracker_taint_argv(int, char **);
uint16_t __polytracker_log_func_entry(char *, uint16_t);
void __polytracker_log_func_exit(uint16_t);
L __polytracker_union_table(const L &, const L &);
void __polytracker_log_conditional_branch(L);
void __dfsw___polytracker_log_conditional_branch(uint64_t, L);
uint64_t __dfsw___polytracker_log_tainted_control_flow(uint64_t, uint32_t, L, L,
                                                       L *);
void __polytracker_enter_function(uint32_t);
void __polytracker_leave_function(uint32_t);

int __dfsw_open(const char *, int, L, L, L *, L *, ...);
int __dfsw_open64(const char *, int, L, L, L *, L *, ...);
int __dfsw_openat(int, const char *, int, L, L, L, L *, L *, ...);
FILE *__dfsw_fopen(const char *, const char *, L, L, L *);
FILE *__dfsw_fopen64(const char *, const char *, L, L, L *);
int __dfsw_close(int, L, L *);
int __dfsw_fclose(FILE *, L, L *);
ssize_t __dfsw_read(int, void *, size_t, L, L, L, L *);
ssize_t __dfsw_pread(int, void *, size_t, off_t, L, L, L, L, L *);
ssize_t __dfsw_pread64(int, void *, size_t, off_t, L, L, L, L, L *);
size_t __dfsw_fread(void *, size_t, size_t, FILE *, L, L, L, L, L *);
size_t __dfsw_fread_unlocked(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_fgetc(FILE *, L, L *);
int __dfsw_fgetc_unlocked(FILE *, L, L *);
int __dfsw__IO_getc(FILE *, L, L *);
int __dfsw_getc(FILE *, L, L *);
int __dfsw_getc_unlocked(FILE *, L, L *);
int __dfsw_getchar(L *);
int __dfsw_getchar_unlocked(L *);
char *__dfsw_fgets(char *, int, FILE *, L, L, L, L *);
char *__dfsw_gets(char *, L, L *);
ssize_t __dfsw_getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
ssize_t __dfsw___getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
void *__dfsw_mmap(void *, size_t, int, int, int, off_t, L, L, L, L, L, L, L *);
int __dfsw_munmap(void *, size_t, L, L, L *);
int __dfsw__putc(int, FILE *, L, L, L *);
int __dfsw_pthread_cond_broadcast(pthread_cond_t *, L, L *);
void __dfsw_exit(int, L);
void __dfsw___assert_fail(const char *, const char *, unsigned, const char *, L,
                          L, L, L);
int __dfsw_accept(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_accept4(int, struct sockaddr *, socklen_t *, int, L, L, L, L, L *);
int __dfsw_connect(int, const struct sockaddr *, socklen_t, L, L, L, L *);
ssize_t __dfsw_recv(int, void *, size_t, int, L, L, L, L, L *);
ssize_t __dfsw_recvfrom(int, void *, size_t, int, struct sockaddr *,
                        socklen_t *, L, L, L, L, L, L, L *);
ssize_t __dfsw_write(int, void *, size_t, L, L, L, L *);
size_t __dfsw_fwrite(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_putc(int, FILE *, L, L, L *);
int __dfsw_fputc(int, FILE *, L, L, L *);
ssize_t __dfsw_send(int, void *, size_t, int, L, L, L, L, L *);
void *__dfsw_malloc(size_t, L, L *);
void *__dfsw_realloc(void *, size_t, L, L, L *);
void __dfsw_free(void *, L);
char *__dfsw_strcat(char *, char *, L, L, L *);
}
#endif

#if !defined(PTVM_NATIVE) && !defined(PTVM_NO_DFSW_LIBC)
#define HAVE_LIBC_WRAPPERS 1
extern "C" {
void *__dfsw_calloc(size_t, size_t, L, L, L *);
int __dfsw_stat(const char *, struct stat *, L, L, L *);
int __dfsw_fstat(int, struct stat *, L, L, L *);
char *__dfsw_strchr(const char *, int, L, L, L *);
char *__dfsw_strrchr(char *, int, L, L, L *);
char *__dfsw_strpbrk(const char *, const char *, L, L, L *);
char *__dfsw_strstr(char *, char *, L, L, L *);
void *__dfsw_memchr(void *, int, size_t, L, L, L, L *);
int __dfsw_memcmp(const void *, const void *, size_t, L, L, L, L *);
int __dfsw_bcmp(const void *, const void *, size_t, L, L, L, L *);
int __dfsw_strcmp(const char *, const char *, L, L, L *);
int __dfsw_strcasecmp(const char *, const char *, L, L, L *);
int __dfsw_strncmp(const char *, const char *, size_t, L, L, L, L *);
int __dfsw_strncasecmp(const char *, const char *, size_t, L, L, L, L *);
size_t __dfsw_strlen(const char *, L, L *);
void *__dfsw_memcpy(void *, const void *, size_t, L, L, L, L *);
void *__dfsw_memmove(void *, const void *, size_t, L, L, L, L *);
void *__dfsw_memset(void *, int, size_t, L, L, L, L *);
char *__dfsw_strdup(const char *, L, L *);
char *__dfsw_strncpy(char *, const char *, size_t, L, L, L, L *);
char *__dfsw_strcpy(char *, const char *, L, L, L *);
long __dfsw_strtol(const char *, char **, int, L, L, L, L *);
long long __dfsw_strtoll(const char *, char **, int, L, L, L, L *);
unsigned long __dfsw_strtoul(const char *, char **, int, L, L, L, L *);
unsigned long long __dfsw_strtoull(const char *, char **, int, L, L, L, L *);
double __dfsw_strtod(const char *, char **, L, L, L *);
int __dfsw_sprintf(char *, const char *, L, L, L *, L *, ...);
int __dfsw_snprintf(char *, size_t, const char *, L, L, L, L *, L *, ...);
int __dfsw_clock_gettime(clockid_t, struct timespec *, L, L, L *);
int __dfsw_gettimeofday(struct timeval *, struct timezone *, L, L, L *);
time_t __dfsw_time(time_t *, L, L *);
char *__dfsw_ctime_r(const time_t *, char *, L, L, L *);
struct tm *__dfsw_localtime_r(const time_t *, struct tm *, L, L, L *);
int __dfsw_inet_pton(int, const char *, void *, L, L, L, L *);
char *__dfsw_getcwd(char *, size_t, L, L, L *);
char *__dfsw_get_current_dir_name(L *);
int __dfsw_gethostname(char *, size_t, L, L, L *);
int __dfsw_getrlimit(int, struct rlimit *, L, L, L *);
int __dfsw_getrusage(int, struct rusage *, L, L, L *);
int __dfsw_sigemptyset(sigset_t *, L, L *);
int __dfsw_poll(struct pollfd *, nfds_t, int, L, L, L, L *);
int __dfsw_select(int, fd_set *, fd_set *, fd_set *, struct timeval *, L, L, L,
                  L, L, L *);
int __dfsw_socketpair(int, int, int, int *, L, L, L, L, L *);
int __dfsw_getsockname(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_getpeername(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_getsockopt(int, int, int, void *, socklen_t *, L, L, L, L, L, L *);
ssize_t __dfsw_recvmsg(int, struct msghdr *, int, L, L, L, L *);
int __dfsw_pthread_create(pthread_t *, const pthread_attr_t *,
                          void *(*)(void *, void *, L, L *), void *, void *, L,
                          L, L, L, L *);
int __dfsw_pthread_join(pthread_t, void **, L, L, L *);
int __dfsw_sched_getaffinity(pid_t, size_t, cpu_set_t *, L, L, L, L *);
pid_t __dfsw_fork(L *);
int __dfsw_nanosleep(const struct timespec *, struct timespec *, L, L, L *);
int __dfsw_sigaction(int, const struct sigaction *, struct sigaction *, L, L, L,
                     L *);
int __dfsw_epoll_wait(int, struct epoll_event *, int, int, L, L, L, L, L *);
int __dfsw_getpwuid_r(id_t, struct passwd *, char *, size_t, struct passwd **,
                      L, L, L, L, L, L *);
int __dfsw_recvmmsg(int, struct mmsghdr *, unsigned, int, struct timespec *, L,
                    L, L, L, L, L *);
int __dfsw_sigaltstack(const stack_t *, stack_t *, L, L, L *);
sighandler_t __dfsw_signal(int, void *(*)(void *, int, L, L *), sighandler_t, L,
                           L, L *);
int __dfsw_dl_iterate_phdr(int (*)(void *, struct dl_phdr_info *, size_t, void *,
                                   L, L, L, L *),
                           void *, void *, L, L, L *);
int __dfsw_pthread_cond_broadcast(pthread_cond_t *, L, L *);
}
#endif

#ifndef PTVM_NATIVE
#ifdef PTVM_STUB_SHADOW
extern "C" L *ptvm_shadow_for(void *);
#endif
static L *shadow(void *p) {
#ifdef PTVM_STUB_SHADOW
  return ptvm_shadow_for(p);
#else
  return (L *)(((uintptr_t)p & ~0x700000000000ull) << 2);
#endif
}
// the monitor's own view of the labels, independent of the query functions
static inline L read_label(const void *p, size_t) { return *shadow((void *)p); }
static inline void put_label(L l, void *p, size_t n) {
  for (size_t i = 0; i < n; i++)
    *shadow((char *)p + i) = l;
}
#endif
// ---------------------------------------------------------------- state
static const int NREG = 8192, NSLOT = 48, NFD = 300, NFILE = 64;
struct Reg {
  int64_t v;
  L l;
};
static Reg R[NREG];
enum Kind { NONE, GUARD, HEAP, MAP, ARGV, LINE };
struct Slot {
  Kind kind = NONE;
  char *p = nullptr;
  size_t n = 0;
  void *base = nullptr;
  size_t maplen = 0;
  std::vector<unsigned char> mem;
  std::vector<L> lab;
  size_t probe = 0; // bytes of a mapping that may be read
};
static Slot S[NSLOT];
static int FD[NFD];
static FILE *FP[NFILE];
static int LISTEN[16];
static struct sockaddr_in LADDR[16];

static int tracefd = -1;
static std::string out;

static void flush_out() {
  const char *p = out.data();
  size_t n = out.size();
  while (n) {
    long w = syscall(SYS_write, tracefd, p, n);
    if (w < 0) {
      if (errno == EINTR)
        continue;
      syscall(SYS_exit_group, 97);
    }
    p += w;
    n -= w;
  }
  out.clear();
}
static void die(const char *m) {
  out += std::string("\n!harness ") + m + "\n";
  flush_out();
  syscall(SYS_exit_group, 98);
}
static void outf(const char *f, ...) __attribute__((format(printf, 1, 2)));
static void outf(const char *f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  out += b;
}

static void snapshot(Slot &s) {
  s.mem.resize(s.probe);
  s.lab.resize(s.n);
  if (s.probe)
    memcpy(s.mem.data(), s.p, s.probe);
  for (size_t i = 0; i < s.n; i++)
    s.lab[i] = read_label(s.p + i, 1);
}
// Logs what changed in every slot since the previous operation.
static void log_diffs() {
  static const char hx[] = "0123456789abcdef";
  for (int k = 0; k < NSLOT; k++) {
    Slot &s = S[k];
    if (s.kind == NONE)
      continue;
    size_t i = 0;
    while (i < s.probe) {
      if ((unsigned char)s.p[i] == s.mem[i]) {
        i++;
        continue;
      }
      size_t j = i;
      outf(" m%d+%zu:", k, i);
      while (j < s.probe && (unsigned char)s.p[j] != s.mem[j]) {
        unsigned char c = s.p[j];
        out += hx[c >> 4];
        out += hx[c & 15];
        s.mem[j] = c;
        j++;
      }
      i = j;
    }
    i = 0;
    while (i < s.n) {
      L l = read_label(s.p + i, 1);
      if (l == s.lab[i]) {
        i++;
        continue;
      }
      outf(" l%d+%zu:", k, i);
      bool first = true;
      while (i < s.n) {
        l = read_label(s.p + i, 1);
        if (l == s.lab[i])
          break;
        outf(first ? "%u" : ",%u", l);
        first = false;
        s.lab[i] = l;
        i++;
      }
    }
  }
}
// Announces a (new) slot with its full contents and labels.
static void log_slot(int k) {
  static const char hx[] = "0123456789abcdef";
  Slot &s = S[k];
  snapshot(s);
  outf(" s%d:%zu:%zu:", k, s.n, s.probe);
  for (unsigned char c : s.mem) {
    out += hx[c >> 4];
    out += hx[c & 15];
  }
  out += ":";
  bool any = false;
  for (L l : s.lab)
    any |= l != 0;
  if (any)
    for (size_t i = 0; i < s.n; i++)
      outf(i ? ",%u" : "%u", s.lab[i]);
}

static void new_guard(int k, size_t n) {
  Slot &s = S[k];
  size_t pg = 4096;
  size_t body = ((n + pg - 1) / pg + (n == 0)) * pg;
  char *b = (char *)mmap(nullptr, body + 2 * pg, PROT_NONE,
                         MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (b == MAP_FAILED)
    die("mmap");
  if (mprotect(b + pg, body, PROT_READ | PROT_WRITE))
    die("mprotect");
  s.kind = GUARD;
  s.base = b;
  s.maplen = body + 2 * pg;
  s.p = b + pg + body - n;
  s.n = s.probe = n;
}

// ---------------------------------------------------------------- script
struct Args {
  std::vector<std::string> t;
  size_t i = 0;
  const std::string &next() {
    if (i >= t.size())
      die(("missing argument in " + (t.empty() ? std::string() : t[0])).c_str());
    return t[i++];
  }
  bool more() const { return i < t.size(); }
  long num() { return strtol(next().c_str(), nullptr, 0); }
  Reg sc() { // scalar: immediate, or register with its label
    const std::string &s = next();
    if (s[0] == 'r')
      return R[atoi(s.c_str() + 1)];
    return Reg{(int64_t)strtoll(s.c_str(), nullptr, 0), 0};
  }
  int dst() {
    const std::string &s = next();
    return s == "_" ? -1 : atoi(s.c_str() + 1);
  }
  int slot() {
    const std::string &s = next();
    return atoi(s.c_str() + 1);
  }
  struct P {
    char *p;
    L l;
  };
  P ptr() { // s<k>+<off>[@r<i>] or null
    const std::string &s = next();
    if (s == "null")
      return P{nullptr, 0};
    int k = atoi(s.c_str() + 1);
    size_t plus = s.find('+');
    size_t at = s.find('@');
    long off = plus == std::string::npos ? 0 : atol(s.c_str() + plus + 1);
    P r{S[k].p ? S[k].p + off : nullptr, 0};
    if (at != std::string::npos)
      r.l = R[atoi(s.c_str() + at + 2)].l;
    return r;
  }
  int fdi() {
    const std::string &s = next();
    return atoi(s.c_str() + 1);
  }
  int fd() { // f<k> or immediate
    const std::string &s = next();
    if (s[0] == 'f')
      return FD[atoi(s.c_str() + 1)];
    return atoi(s.c_str());
  }
  FILE *file() {
    const std::string &s = next();
    if (s == "stdin")
      return stdin;
    if (s == "stdout")
      return stdout;
    if (s == "stderr")
      return stderr;
    return FP[atoi(s.c_str() + 1)];
  }
  std::string hex() {
    const std::string &s = next();
    std::string r;
    for (size_t k = 1; k + 1 < s.size(); k += 2)
      r += (char)strtol(s.substr(k, 2).c_str(), nullptr, 16);
    return r;
  }
};

static void set_reg(int d, int64_t v, L l) {
  if (d >= 0)
    R[d] = Reg{v, l};
}
#ifndef PTVM_NATIVE
// The record of a label as it is in the output file right now.
static int tdagfd = -1;
static long labels_at = -1;
static void find_labels() {
  const char *p = getenv("POLYDB");
  if (!p)
    return;
  int t = open(p, O_RDONLY | O_CLOEXEC);
  if (t < 0)
    return;
  tdagfd = fcntl(t, F_DUPFD_CLOEXEC, 901);
  close(t);
  unsigned char h[8];
  if (pread(tdagfd, h, 8, 0) != 8)
    return;
  unsigned n = h[6] | h[7] << 8;
  for (unsigned i = 0; i < n; i++) {
    struct {
      uint32_t tag, align;
      uint64_t off, size;
    } e;
    if (pread(tdagfd, &e, sizeof e, 8 + sizeof e * i) == sizeof e && e.tag == 2)
      labels_at = e.off;
  }
}
static void log_record(L l) {
  uint64_t v;
  int e = errno;
  if (l && l != 0x7eadbeefu && labels_at >= 0 &&
      pread(tdagfd, &v, 8, labels_at + 8l * l) == 8)
    outf(" R%llx", (unsigned long long)v);
  errno = e;
}
#endif
// Result of a scalar-valued operation.
static void res(int d, int64_t v, L l) {
  outf(" =%lld", (long long)v);
#ifndef PTVM_NATIVE
  outf(" ^%u", l);
  log_record(l);
#endif
  set_reg(d, v, l);
}
static void err_if(bool failed, int e) {
  if (failed)
    outf(" e%d", e);
}
static void res_ptr(int d, const void *p, L l) {
  if (!p) {
    outf(" =null");
  } else {
    bool found = false;
    for (int k = 0; k < 2 * NSLOT && !found; k++) // one past the end only last
      if (S[k % NSLOT].kind != NONE && (char *)p >= S[k % NSLOT].p &&
          (char *)p < S[k % NSLOT].p + S[k % NSLOT].n + k / NSLOT) {
        outf(" =s%d+%zd", k % NSLOT, (char *)p - S[k % NSLOT].p);
        found = true;
      }
    if (!found)
      outf(" =ptr");
  }
#ifndef PTVM_NATIVE
  outf(" ^%u", l);
#endif
  set_reg(d, p != nullptr, l);
}
static void pos_fd(char tag, int fd) {
  int e = errno;
  off_t o = lseek(fd, 0, SEEK_CUR);
  outf(" %c%lld", tag, (long long)o);
  errno = e;
}
static void pos_file(char tag, FILE *f) {
  int e = errno;
  off_t o = ftello(f);
  outf(" %c%lld", tag, (long long)o);
  errno = e;
}

#define POISON 0x7eadbeefu
#ifdef PTVM_NATIVE
#define CALL(fn, args, labels) fn args
#define CALLV(fn, args, labels) fn args
#define EXPAND(...) __VA_ARGS__
#else
#define EXPAND(...) __VA_ARGS__
#define CALL2(fn, ...) __dfsw_##fn(__VA_ARGS__, &rl)
#define CALL(fn, args, labels) CALL2(fn, EXPAND args, EXPAND labels)
#endif
#ifdef HAVE_LIBC_WRAPPERS
#define LCALL(fn, args, labels) CALL2(fn, EXPAND args, EXPAND labels)
#else
#define LCALL(fn, args, labels) fn args
#endif

typedef void (*Op)(Args &);
static struct {
  const char *name;
  Op fn;
} OPS[256];
static int nops;
struct Def {
  Def(const char *n, Op o) { OPS[nops++] = {n, o}; }
};
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define OP_(name, id)                                                          \
  static void CAT(op_, id)(Args & a);                                          \
  static Def CAT(def_, id)(name, CAT(op_, id));                                \
  static void CAT(op_, id)(Args & a)
#define OP(name) OP_(name, __COUNTER__)

// --- memory -----------------------------------------------------------------
OP("buf") { // buf s n : guarded buffer, right-aligned at an unmapped page
  int k = a.slot();
  size_t n = a.num();
  new_guard(k, n);
  log_slot(k);
}
OP("bufl") { // bufl s n : guarded buffer, left-aligned (catches underruns)
  int k = a.slot();
  size_t n = a.num();
  new_guard(k, n);
  S[k].p = (char *)S[k].base + 4096;
  log_slot(k);
}
OP("poke") { // poke s+o xHEX : uninstrumented store, labels untouched
  auto p = a.ptr();
  std::string h = a.hex();
  memcpy(p.p, h.data(), h.size());
}
OP("st") { // st s+o r : instrumented one-byte store
  auto p = a.ptr();
  Reg r = a.sc();
  *p.p = (char)r.v;
  put_label(r.l, p.p, 1);
}
OP("ld") { // ld r s+o : instrumented one-byte load
  int d = a.dst();
  auto p = a.ptr();
  res(d, (unsigned char)*p.p, read_label(p.p, 1));
}
OP("imm") {
  int d = a.dst();
  res(d, a.num(), 0);
}
OP("mov") { // mov rd rv rl : value of one, label of another
  int d = a.dst();
  Reg v = a.sc(), l = a.sc();
  res(d, v.v, l.l);
}
OP("uload") { // uload r s+o n : multi-byte load through the runtime
  int d = a.dst();
  auto p = a.ptr();
  size_t n = a.num();
  L l = 0;
  int64_t v = 0;
  memcpy(&v, p.p, std::min<size_t>(n, 8));
#ifndef PTVM_NATIVE
  l = __dfsan_union_load(shadow(p.p), n);
#endif
  res(d, v, l);
}
OP("rdl") { // rdl r s+o n : label query API
  int d = a.dst();
  auto p = a.ptr();
  size_t n = a.num();
  L l = 0;
#ifndef PTVM_NATIVE
  l = dfsan_read_label(p.p, n);
#endif
  (void)p;
  (void)n;
  res(d, 0, l);
}
OP("setl") { // setl s+o n r : label-setting API
  auto p = a.ptr();
  size_t n = a.num();
  Reg r = a.sc();
#ifndef PTVM_NATIVE
  dfsan_set_label(r.l, p.p, n);
#endif
  (void)p;
  (void)n;
}
OP("addl") {
  auto p = a.ptr();
  size_t n = a.num();
  Reg r = a.sc();
#ifndef PTVM_NATIVE
  dfsan_add_label(r.l, p.p, n);
#endif
  (void)n;
  (void)p;
}
OP("u") { // u rd ra rb : inlined equality test + runtime union, as the pass emits
  int d = a.dst();
  Reg x = a.sc(), y = a.sc();
  L l = 0;
#ifndef PTVM_NATIVE
  l = x.l == y.l ? x.l : __dfsan_union(x.l, y.l);
#endif
  res(d, x.v ^ y.v, l);
}
OP("ua") { // ua rd ra rb : client API union
  int d = a.dst();
  Reg x = a.sc(), y = a.sc();
  L l = 0;
#ifndef PTVM_NATIVE
  l = dfsan_union(x.l, y.l);
#endif
  res(d, x.v ^ y.v, l);
}
OP("ut") { // ut rd ra rb : union callback, non-zero labels only
  int d = a.dst();
  Reg x = a.sc(), y = a.sc();
  L l = 0;
#ifndef PTVM_NATIVE
  if (x.l && y.l)
    l = __polytracker_union_table(x.l, y.l);
  else
    l = x.l ? x.l : y.l;
#endif
  res(d, x.v ^ y.v, l);
}
// --- control flow -----------------------------------------------------------
OP("br") {
  Reg x = a.sc();
#ifndef PTVM_NATIVE
  __polytracker_log_conditional_branch(x.l);
#endif
  (void)x;
}
OP("brw") {
  Reg x = a.sc();
#ifndef PTVM_NATIVE
  __dfsw___polytracker_log_conditional_branch(x.v, x.l);
#endif
  (void)x;
}
OP("tcf") { // tcf rd r fid
  int d = a.dst();
  Reg x = a.sc();
  uint32_t f = (uint32_t)strtoul(a.next().c_str(), nullptr, 0);
  L rl = x.l;
  uint64_t v = x.v;
#ifndef PTVM_NATIVE
  rl = POISON;
  v = __dfsw___polytracker_log_tainted_control_flow(x.v, f, x.l, 0, &rl);
#endif
  (void)f;
  res(d, (int64_t)v, rl);
}
OP("ent") {
  uint32_t f = (uint32_t)strtoul(a.next().c_str(), nullptr, 0);
#ifndef PTVM_NATIVE
  __polytracker_enter_function(f);
#endif
  (void)f;
}
OP("lev") {
  uint32_t f = (uint32_t)strtoul(a.next().c_str(), nullptr, 0);
#ifndef PTVM_NATIVE
  __polytracker_leave_function(f);
#endif
  (void)f;
}
static uint16_t FIDX[NREG]; // indices handed out by the tracker are not program data
static void fidx_res(int d, int64_t v) {
  outf(" =%lld", (long long)v);
#ifndef PTVM_NATIVE
  outf(" ^0");
#endif
  if (d >= 0)
    FIDX[d] = (uint16_t)v;
  set_reg(d, 0, 0);
}
OP("fe") { // fe rd xNAME : function entry; the name lives in transient memory
  int d = a.dst();
  std::string n = a.hex();
  int64_t v = 0;
#ifndef PTVM_NATIVE
  char *tmp = (char *)malloc(n.size() + 1);
  memcpy(tmp, n.data(), n.size());
  tmp[n.size()] = 'Z';
  v = __polytracker_log_func_entry(tmp, (uint16_t)n.size());
  memset(tmp, 'Q', n.size());
  free(tmp);
#endif
  fidx_res(d, v);
}
OP("fes") { // fes rd xNAME : function entry; static storage, as the pass emits
  int d = a.dst();
  static std::map<std::string, std::string *> names;
  std::string n = a.hex();
  auto &e = names[n];
  if (!e)
    e = new std::string(n);
  int64_t v = 0;
#ifndef PTVM_NATIVE
  v = __polytracker_log_func_entry(e->data(), (uint16_t)e->size());
#endif
  fidx_res(d, v);
}
OP("fx") {
  const std::string &x = a.next();
#ifndef PTVM_NATIVE
  __polytracker_log_func_exit(x[0] == 'r' ? FIDX[atoi(x.c_str() + 1)]
                                          : (uint16_t)atoi(x.c_str()));
#endif
  (void)x;
}
// --- opening and closing ----------------------------------------------------
#ifdef PTVM_NATIVE
#define OPENISH(name)                                                          \
  OP(#name) {                                                                  \
    int k = a.fdi();                                                           \
    std::string path = a.hex();                                                \
    int fl = a.num();                                                          \
    errno = 0;                                                                 \
    int fd = a.more() ? name(path.c_str(), fl, (mode_t)a.num())                \
                      : name(path.c_str(), fl);                                \
    int e = errno;                                                             \
    outf(" =%d", fd >= 0 ? 1 : -1);                                            \
    err_if(fd < 0, e);                                                         \
    FD[k] = fd;                                                                \
  }
#else
static void log_size(int fd) { // what the source record should hold as size
  struct stat sb {};
  int e = errno;
  if (fd >= 0 && fstat(fd, &sb) == 0)
    outf(" z%lld", S_ISREG(sb.st_mode) ? (long long)sb.st_size : -1ll);
  errno = e;
}
#define OPENISH(name)                                                          \
  OP(#name) {                                                                  \
    int k = a.fdi();                                                           \
    std::string path = a.hex();                                                \
    int fl = a.num();                                                          \
    L rl = POISON, va[4] = {0, 0, 0, 0};                                       \
    errno = 0;                                                                 \
    int fd = a.more() ? __dfsw_##name(path.c_str(), fl, 0, 0, va, &rl,         \
                                      (mode_t)a.num())                         \
                      : __dfsw_##name(path.c_str(), fl, 0, 0, va, &rl);        \
    int e = errno;                                                             \
    outf(" =%d ^%u", fd >= 0 ? 1 : -1, rl);                                    \
    err_if(fd < 0, e);                                                         \
    outf(" fd%d", fd);                                                         \
    log_size(fd);                                                              \
    FD[k] = fd;                                                                \
  }
#endif
OPENISH(open)
OPENISH(open64)
OP("openat") { // openat f dirf|-100 path flags [mode]
  int k = a.fdi();
  int dir = a.fd();
  std::string path = a.hex();
  int fl = a.num();
  bool m = a.more();
  mode_t mode = m ? a.num() : 0;
  L rl = POISON;
  errno = 0;
#ifdef PTVM_NATIVE
  int fd = m ? openat(dir, path.c_str(), fl, mode) : openat(dir, path.c_str(), fl);
#else
  L va[4] = {0, 0, 0, 0};
  int fd = m ? __dfsw_openat(dir, path.c_str(), fl, 0, 0, 0, va, &rl, mode)
             : __dfsw_openat(dir, path.c_str(), fl, 0, 0, 0, va, &rl);
#endif
  int e = errno;
  outf(" =%d", fd >= 0 ? 1 : -1);
#ifndef PTVM_NATIVE
  outf(" ^%u", rl);
#endif
  err_if(fd < 0, e);
  outf(" fd%d", fd);
#ifndef PTVM_NATIVE
  log_size(fd);
#endif
  FD[k] = fd;
}
#ifdef PTVM_NATIVE
static void log_size(int) {}
#endif
#define FOPENISH(name)                                                         \
  OP(#name) {                                                                  \
    int k = a.fdi();                                                           \
    std::string path = a.hex(), mode = a.hex();                                \
    L rl = POISON;                                                             \
    errno = 0;                                                                 \
    FILE *f = CALL(name, (path.c_str(), mode.c_str()), (0, 0));                \
    int e = errno;                                                             \
    outf(" =%d", f ? 1 : -1);                                                  \
    if (rl != POISON)                                                          \
      outf(" ^%u", rl);                                                        \
    err_if(!f, e);                                                             \
    outf(" fd%d", f ? fileno(f) : -1);                                         \
    log_size(f ? fileno(f) : -1);                                              \
    FP[k] = f;                                                                 \
  }
FOPENISH(fopen)
FOPENISH(fopen64)
OP("close") {
  const std::string &s = a.next();
  int fd = s[0] == 'f' ? FD[atoi(s.c_str() + 1)] : atoi(s.c_str());
  L rl = POISON;
  errno = 0;
  int r = CALL(close, (fd), (0));
  int e = errno;
  outf(" fd%d", fd);
  res(-1, r, rl);
  err_if(r, e);
}
OP("fclose") {
  int k = a.fdi();
  if (!FP[k]) {
    outf(" skip");
    return;
  }
  L rl = POISON;
  errno = 0;
  outf(" fd%d", fileno(FP[k]));
  int r = CALL(fclose, (FP[k]), (0));
  int e = errno;
  FP[k] = nullptr;
  res(-1, r, rl);
  err_if(r, e);
}
// --- uninstrumented helpers the environment performs -------------------------
OP("lseek") {
  int fd = a.fd();
  long off = a.num();
  int wh = a.num();
  outf(" =%lld", (long long)lseek(fd, off, wh));
}
OP("fseek") {
  FILE *f = a.file();
  long off = a.num();
  int wh = a.num();
  if (!f) {
    outf(" skip");
    return;
  }
  outf(" =%d", fseeko(f, off, wh));
}
OP("fflush") {
  FILE *f = a.file();
  if (!f) {
    outf(" skip");
    return;
  }
  outf(" =%d", fflush(f));
}
OP("setvbuf") {
  FILE *f = a.file();
  int mode = a.num();
  if (!f) {
    outf(" skip");
    return;
  }
  outf(" =%d", setvbuf(f, nullptr, mode, mode == _IONBF ? 0 : 64));
}
OP("ungetc") {
  FILE *f = a.file();
  int c = a.num();
  if (!f) {
    outf(" skip");
    return;
  }
  outf(" =%d", ungetc(c, f));
}
OP("rawclose") {
  int k = a.fdi();
  outf(" fd%d =%d", FD[k], close(FD[k]));
}
OP("pipe") {
  int r = a.fdi(), w = a.fdi();
  int p[2];
  if (pipe(p))
    die("pipe");
  FD[r] = p[0];
  FD[w] = p[1];
  outf(" fd%d fd%d", p[0], p[1]);
}
OP("dup") {
  int d = a.fdi();
  int s = a.fd();
  FD[d] = dup(s);
  outf(" fd%d", FD[d]);
}
OP("feed") { // feed f xHEX : bytes appear on the other side (uninstrumented)
  int fd = a.fd();
  std::string h = a.hex();
  long n = syscall(SYS_write, fd, h.data(), h.size());
  outf(" =%ld", n);
}
OP("mkfifo") {
  std::string p = a.hex();
  outf(" =%d", mkfifo(p.c_str(), 0600));
}
OP("pipesz") { // pipesz f n : capacity of a pipe
  int fd = a.fd();
  outf(" =%d", fcntl(fd, F_SETPIPE_SZ, (int)a.num()));
}
OP("nonblock") {
  int fd = a.fd();
  fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
}
OP("fdopen") { // fdopen F f mode : uninstrumented
  int k = a.fdi();
  int fd = a.fd();
  std::string m = a.hex();
  FP[k] = fdopen(fd, m.c_str());
  outf(" =%d", FP[k] ? 1 : -1);
}
OP("unix") { // unix fa fb : untracked local socket pair
  int x = a.fdi(), y = a.fdi();
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv))
    die("socketpair");
  FD[x] = sv[0];
  FD[y] = sv[1];
  outf(" fd%d fd%d", sv[0], sv[1]);
}
// --- sockets ------------------------------------------------------------------
OP("listen") {
  int k = a.num();
  int s = socket(AF_INET, SOCK_STREAM, 0);
  memset(&LADDR[k], 0, sizeof LADDR[k]);
  LADDR[k].sin_family = AF_INET;
  LADDR[k].sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (bind(s, (sockaddr *)&LADDR[k], sizeof LADDR[k]) || listen(s, 16))
    die("listen");
  socklen_t n = sizeof LADDR[k];
  getsockname(s, (sockaddr *)&LADDR[k], &n);
  LISTEN[k] = s;
}
static void sock_name(int fd) {
  sockaddr_in l{}, r{};
  socklen_t n = sizeof l;
  char ls[64] = "", rs[64] = "";
  getsockname(fd, (sockaddr *)&l, &n);
  n = sizeof r;
  if (getpeername(fd, (sockaddr *)&r, &n))
    return;
  inet_ntop(AF_INET, &l.sin_addr, ls, sizeof ls);
  inet_ntop(AF_INET, &r.sin_addr, rs, sizeof rs);
  outf(" name:socket:%s:%d-%s:%d", ls, ntohs(l.sin_port), rs,
       ntohs(r.sin_port));
}
OP("connect") { // connect f k : to listener k
  int d = a.fdi();
  int k = a.num();
  int s = socket(AF_INET, SOCK_STREAM, 0);
  L rl = POISON;
  errno = 0;
  int r = CALL(connect, (s, (const sockaddr *)&LADDR[k], sizeof LADDR[k]),
               (0, 0, 0));
  int e = errno;
  FD[d] = s;
  res(-1, r, rl);
  err_if(r, e);
  outf(" fd%d", s);
  sock_name(s);
}
OP("connectbad") { // connect to a closed port: must fail, not be recorded
  int d = a.fdi();
  sockaddr_in sa{};
  int t = socket(AF_INET, SOCK_STREAM, 0);
  sa.sin_family = AF_INET;
  sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  bind(t, (sockaddr *)&sa, sizeof sa);
  socklen_t n = sizeof sa;
  getsockname(t, (sockaddr *)&sa, &n);
  int s = socket(AF_INET, SOCK_STREAM, 0);
  L rl = POISON;
  errno = 0;
  int r = CALL(connect, (s, (const sockaddr *)&sa, sizeof sa), (0, 0, 0));
  int e = errno;
  close(t);
  FD[d] = s;
  res(-1, r, rl);
  err_if(r, e);
  outf(" fd%d", s);
}
OP("accept") { // accept f k which(0 accept,1 accept4) wantaddr
  int d = a.fdi();
  int k = a.num();
  int which = a.num();
  int want = a.num();
  sockaddr_in sa{};
  socklen_t n = sizeof sa;
  sockaddr *pa = want ? (sockaddr *)&sa : nullptr;
  socklen_t *pn = want ? &n : nullptr;
  L rl = POISON;
  errno = 0;
  int r = which ? CALL(accept4, (LISTEN[k], pa, pn, SOCK_CLOEXEC), (0, 0, 0, 0))
                : CALL(accept, (LISTEN[k], pa, pn), (0, 0, 0));
  int e = errno;
  FD[d] = r;
  outf(" =%d", r >= 0 ? 1 : -1);
#ifndef PTVM_NATIVE
  outf(" ^%u", rl);
#endif
  err_if(r < 0, e);
  if (want)
    outf(" al%d", (int)n);
  outf(" fd%d", r);
  if (r >= 0)
    sock_name(r);
}
OP("acceptdead") { // peer connected and reset before accept
  int d = a.fdi();
  int k = a.num();
  int c = socket(AF_INET, SOCK_STREAM, 0);
  if (connect(c, (sockaddr *)&LADDR[k], sizeof LADDR[k]))
    die("connect");
  struct linger lg = {1, 0};
  setsockopt(c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
  close(c);
  L rl = POISON;
  errno = 0;
  int r = CALL(accept, (LISTEN[k], nullptr, nullptr), (0, 0, 0));
  int e = errno;
  FD[d] = r;
  outf(" =%d", r >= 0 ? 1 : -1);
#ifndef PTVM_NATIVE
  outf(" ^%u", rl);
#endif
  err_if(r < 0, e);
  outf(" fd%d", r);
}
OP("udp") { // udp fa fb which : two datagram sockets; which is connected to the other
  int d = a.fdi(), g = a.fdi();
  sockaddr_in sa{}, sb{};
  int x = socket(AF_INET, SOCK_DGRAM, 0), y = socket(AF_INET, SOCK_DGRAM, 0);
  for (auto [s, p] : {std::pair{x, &sa}, std::pair{y, &sb}}) {
    p->sin_family = AF_INET;
    p->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof *p;
    if (bind(s, (sockaddr *)p, sizeof *p) || getsockname(s, (sockaddr *)p, &n))
      die("udp");
  }
  if (connect(y, (sockaddr *)&sa, sizeof sa)) // the peer: not through the tracker
    die("udp");
  FD[d] = x;
  FD[g] = y;
  L rl = POISON;
  errno = 0;
  int r = CALL(connect, (x, (const sockaddr *)&sb, sizeof sb), (0, 0, 0));
  int e = errno;
  res(-1, r, rl);
  err_if(r, e);
  outf(" fd%d fd%d", x, y);
  sock_name(x);
}
OP("otherconn") { // otherconn fa fb family : a connection that is no AF_INET one
  int d = a.fdi(), g = a.fdi(), six = a.num();
  int l, x;
  socklen_t n;
  sockaddr_storage sa{};
  if (six) {
    auto p = (sockaddr_in6 *)&sa;
    p->sin6_family = AF_INET6;
    p->sin6_addr = in6addr_loopback;
    n = sizeof *p;
  } else {
    sa.ss_family = AF_UNIX; // automatic name
    n = sizeof(sa_family_t);
  }
  l = socket(sa.ss_family, SOCK_STREAM, 0);
  x = socket(sa.ss_family, SOCK_STREAM, 0);
  if (l < 0 || x < 0 || bind(l, (sockaddr *)&sa, n) || listen(l, 2)) {
    outf(" skip");
    close(l);
    close(x);
    return;
  }
  n = sizeof sa;
  getsockname(l, (sockaddr *)&sa, &n);
  L rl = POISON;
  errno = 0;
  int r = CALL(connect, (x, (const sockaddr *)&sa, n), (0, 0, 0));
  int e = errno;
  res(-1, r, rl);
  err_if(r, e);
  FD[d] = x;
  rl = POISON;
  errno = 0;
  sockaddr_storage peer{};
  socklen_t pn = sizeof peer;
  int y = CALL(accept, (l, (sockaddr *)&peer, &pn), (0, 0, 0));
  e = errno;
  FD[g] = y;
  outf(" acc%d fam%d", y >= 0, peer.ss_family);
#ifndef PTVM_NATIVE
  outf(" accl%u", rl);
#endif
  err_if(y < 0, e);
  outf(" fd%d fd%d", x, y);
  close(l);
}
OP("recv") { // recv rd f s+o n flags
  int d = a.dst();
  int fd = a.fd();
  auto p = a.ptr();
  size_t n = a.num();
  int fl = a.num();
  L rl = POISON;
  outf(" fd%d", fd);
  errno = 0;
  ssize_t r = CALL(recv, (fd, p.p, n, fl), (0, 0, 0, 0));
  int e = errno;
  res(d, r, rl);
  err_if(r < 0, e);
}
OP("recvfrom") { // recvfrom rd f s+o n flags wantaddr
  int d = a.dst();
  int fd = a.fd();
  auto p = a.ptr();
  size_t n = a.num();
  int fl = a.num();
  int want = a.num();
  sockaddr_in sa{};
  socklen_t sn = sizeof sa;
  L rl = POISON;
  outf(" fd%d", fd);
  errno = 0;
  ssize_t r = CALL(recvfrom,
                   (fd, p.p, n, fl, want ? (sockaddr *)&sa : nullptr,
                    want ? &sn : nullptr),
                   (0, 0, 0, 0, 0, 0));
  int e = errno;
  res(d, r, rl);
  err_if(r < 0, e);
}
OP("send") { // send rd f s+o n flags
  int d = a.dst();
  int fd = a.fd();
  auto p = a.ptr();
  size_t n = a.num();
  int fl = a.num();
  L rl = POISON;
  outf(" fd%d", fd);
  errno = 0;
  ssize_t r = CALL(send, (fd, p.p, n, fl), (0, 0, 0, 0));
  int e = errno;
  res(d, r, rl);
  err_if(r < 0, e);
}
// --- input ----------------------------------------------------------------------
OP("read") { // read rd f s+o n
  int d = a.dst();
  int fd = a.fd();
  auto p = a.ptr();
  Reg n = a.sc();
  L rl = POISON;
  outf(" fd%d", fd);
  pos_fd('<', fd);
  errno = 0;
  ssize_t r = CALL(read, (fd, p.p, (size_t)n.v), (0, p.l, n.l));
  int e = errno;
  pos_fd('>', fd);
  res(d, r, rl);
  err_if(r < 0, e);
}
#define PREADISH(name)                                                         \
  OP(#name) {                                                                  \
    int d = a.dst();                                                           \
    int fd = a.fd();                                                           \
    auto p = a.ptr();                                                          \
    Reg n = a.sc();                                                            \
    Reg off = a.sc();                                                          \
    L rl = POISON;                                                             \
    outf(" fd%d", fd);                                                         \
    pos_fd('<', fd);                                                           \
    errno = 0;                                                                 \
    ssize_t r = CALL(name, (fd, p.p, (size_t)n.v, (off_t)off.v),               \
                     (0, p.l, n.l, off.l));                                    \
    int e = errno;                                                             \
    pos_fd('>', fd);                                                           \
    res(d, r, rl);                                                             \
    err_if(r < 0, e);                                                          \
  }
PREADISH(pread)
PREADISH(pread64)
#define FREADISH(name)                                                         \
  OP(#name) {                                                                  \
    int d = a.dst();                                                           \
    FILE *f = a.file();                                                        \
    auto p = a.ptr();                                                          \
    size_t sz = a.num(), n = a.num();                                          \
    if (!f) {                                                                  \
      outf(" skip");                                                           \
      return;                                                                  \
    }                                                                          \
    L rl = POISON;                                                             \
    outf(" fd%d", fileno(f));                                                  \
    pos_file('<', f);                                                          \
    errno = 0;                                                                 \
    size_t r = CALL(name, (p.p, sz, n, f), (p.l, 0, 0, 0));                    \
    int e = errno;                                                             \
    pos_file('>', f);                                                          \
    outf(" st%d%d", !!feof(f), !!ferror(f));                                   \
    res(d, r, rl);                                                             \
    err_if(ferror(f), e);                                                      \
  }
FREADISH(fread)
FREADISH(fread_unlocked)
#define GETCISH(name, real)                                                    \
  OP(name) {                                                                   \
    int d = a.dst();                                                           \
    FILE *f = a.file();                                                        \
    if (!f) {                                                                  \
      outf(" skip");                                                           \
      return;                                                                  \
    }                                                                          \
    L rl = POISON;                                                             \
    outf(" fd%d", fileno(f));                                                  \
    pos_file('<', f);                                                          \
    errno = 0;                                                                 \
    int r = CALL(real, (f), (0));                                              \
    int e = errno;                                                             \
    pos_file('>', f);                                                          \
    outf(" st%d%d", !!feof(f), !!ferror(f));                                   \
    res(d, r, rl);                                                             \
    err_if(ferror(f), e);                                                      \
  }
GETCISH("fgetc", fgetc)
GETCISH("fgetc_unlocked", fgetc_unlocked)
GETCISH("getc_unlocked", getc_unlocked)
#undef getc
GETCISH("getc", getc)
#ifdef PTVM_NATIVE
GETCISH("_IO_getc", getc)
#else
GETCISH("_IO_getc", _IO_getc)
#endif
#ifdef PTVM_NATIVE
#define GETCHARCALL(name) name()
#else
#define GETCHARCALL(name) __dfsw_##name(&rl)
#endif
#define GETCHARISH(name)                                                       \
  OP(#name) {                                                                  \
    int d = a.dst();                                                           \
    L rl = POISON;                                                             \
    outf(" fd%d", fileno(stdin));                                              \
    pos_file('<', stdin);                                                      \
    int r = GETCHARCALL(name);                                                 \
    pos_file('>', stdin);                                                      \
    res(d, r, rl);                                                             \
  }
GETCHARISH(getchar)
GETCHARISH(getchar_unlocked)
OP("fgets") { // fgets rd F s+o n
  int d = a.dst();
  FILE *f = a.file();
  auto p = a.ptr();
  Reg n = a.sc();
  if (!f) {
    outf(" skip");
    return;
  }
  L rl = POISON;
  outf(" fd%d", fileno(f));
  pos_file('<', f);
  errno = 0;
  // the end of the line is the last byte that is not filler, whatever the line holds
  if (n.v > 0)
    memset(p.p, 0xa5, n.v);
  errno = 0;
  char *r = CALL(fgets, (p.p, (int)n.v, f), (p.l, n.l, 0));
  int e = errno;
  pos_file('>', f);
  long len = n.v;
  while (len > 0 && (unsigned char)p.p[len - 1] == 0xa5)
    len--;
  if (r)
    outf(" len%ld", len - 1);
  outf(" st%d%d", !!feof(f), !!ferror(f));
  res_ptr(d, r, rl);
  err_if(ferror(f), e);
}
#ifdef PTVM_NATIVE
extern "C" char *gets(char *);
#endif
OP("gets") { // gets rd s+o n : the space is enough
  int d = a.dst();
  auto p = a.ptr();
  long n = a.num();
  L rl = POISON;
  outf(" fd%d", fileno(stdin));
  pos_file('<', stdin);
  memset(p.p, 0xa5, n);
  errno = 0;
#ifdef PTVM_NATIVE
  char *r = gets(p.p);
#else
  char *r = __dfsw_gets(p.p, p.l, &rl);
#endif
  pos_file('>', stdin);
  while (n > 0 && (unsigned char)p.p[n - 1] == 0xa5)
    n--;
  if (r)
    outf(" len%ld", n - 1);
  outf(" st%d%d", !!feof(stdin), !!ferror(stdin));
  res_ptr(d, r, rl);
}
#define GETDELIMISH(name)                                                      \
  OP(#name) { /* name rd F slot delim initial(-1 null) */                      \
    int d = a.dst();                                                           \
    FILE *f = a.file();                                                        \
    int k = a.slot();                                                          \
    int delim = a.num();                                                       \
    long init = a.num();                                                       \
    if (!f) {                                                                  \
      outf(" skip");                                                           \
      return;                                                                  \
    }                                                                          \
    char *line = nullptr;                                                      \
    size_t cap = 0;                                                            \
    if (S[k].kind == LINE) {                                                   \
      line = S[k].p;                                                           \
      cap = S[k].n;                                                            \
    } else if (init >= 0) {                                                    \
      line = (char *)malloc(init ? init : 1);                                  \
      cap = init;                                                              \
    }                                                                          \
    L rl = POISON;                                                             \
    outf(" fd%d", fileno(f));                                                  \
    pos_file('<', f);                                                          \
    errno = 0;                                                                 \
    ssize_t r = CALL(name, (&line, &cap, delim, f), (0, 0, 0, 0));             \
    int e = errno;                                                             \
    pos_file('>', f);                                                          \
    outf(" st%d%d", !!feof(f), !!ferror(f));                                   \
    S[k].kind = LINE;                                                          \
    S[k].p = line;                                                             \
    S[k].n = line ? cap : 0;                                                   \
    S[k].probe = r >= 0 ? r + 1 : 0;                                           \
    res(d, r, rl);                                                             \
    err_if(ferror(f), e);                                                      \
    log_slot(k);                                                               \
  }
GETDELIMISH(getdelim)
GETDELIMISH(__getdelim)
OP("mmap") { // mmap slot f len prot flags off
  int k = a.slot();
  int fd = a.fd();
  size_t len = a.num();
  int prot = a.num();
  int flags = a.num();
  off_t off = a.num();
  struct stat sb {};
  long avail = 0;
  if (fd >= 0 && fstat(fd, &sb) == 0)
    avail = sb.st_size > off ? sb.st_size - off : 0;
  if (flags & MAP_ANONYMOUS)
    avail = len;
  L rl = POISON;
  outf(" fd%d", fd);
  errno = 0;
  void *at = nullptr;
  if (flags & MAP_FIXED) { // over the mapping the slot holds, of the same length
    if (S[k].kind != MAP || S[k].n != len)
      die("mmap over nothing");
    at = S[k].p;
  }
  void *r = CALL(mmap, (at, len, prot, flags, fd, off), (0, 0, 0, 0, 0, 0));
  int e = errno;
  outf(" =%d", r == MAP_FAILED ? -1 : 1);
#ifndef PTVM_NATIVE
  outf(" ^%u", rl);
#endif
  err_if(r == MAP_FAILED, e);
  if (r != MAP_FAILED) {
    size_t rounded = (avail + 4095) / 4096 * 4096;
    S[k].kind = MAP;
    S[k].p = (char *)r;
    S[k].n = len;
    S[k].probe = (prot & PROT_READ) ? std::min<size_t>(len, rounded) : 0;
    outf(" avail%ld", avail);
    log_slot(k);
  }
}
OP("munmapbad") { // munmapbad s+o n : not a page boundary, fails
  auto p = a.ptr();
  size_t n = a.num();
  if (((uintptr_t)p.p & 4095) == 0)
    p.p++, n--;
  L rl = POISON;
  errno = 0;
  int r = CALL(munmap, (p.p, n), (0, 0));
  int e = errno;
  res(-1, r, rl);
  err_if(r < 0, e);
}
OP("munmap") {
  int k = a.slot();
  if (S[k].kind != MAP) {
    outf(" skip");
    return;
  }
  char *p = S[k].p;
  size_t n = S[k].n;
  L rl = POISON;
  S[k].kind = NONE;
  int r = CALL(munmap, (p, n), (0, 0));
  res(-1, r, rl);
  // labels of memory that is gone must not linger for whoever maps it next
  void *q = mmap(p, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  (void)q;
  long left = 0;
  for (size_t i = 0; i < n; i++)
    left += read_label(p + i, 1) != 0;
  if (q != MAP_FAILED)
    munmap(q, n);
  outf(" left%ld", left);
}
// --- output -----------------------------------------------------------------------
OP("write") { // write rd f s+o n
  int d = a.dst();
  int fd = a.fd();
  auto p = a.ptr();
  Reg n = a.sc();
  L rl = POISON;
  outf(" fd%d", fd);
  pos_fd('<', fd);
  errno = 0;
  ssize_t r = CALL(write, (fd, p.p, (size_t)n.v), (0, p.l, n.l));
  int e = errno;
  pos_fd('>', fd);
  res(d, r, rl);
  err_if(r < 0, e);
}
OP("fwrite") { // fwrite rd F s+o size n
  int d = a.dst();
  FILE *f = a.file();
  auto p = a.ptr();
  size_t sz = a.num(), n = a.num();
  if (!f) {
    outf(" skip");
    return;
  }
  L rl = POISON;
  outf(" fd%d", fileno(f));
  pos_file('<', f);
  errno = 0;
  size_t r = CALL(fwrite, (p.p, sz, n, f), (p.l, 0, 0, 0));
  int e = errno;
  pos_file('>', f);
  res(d, r, rl);
  err_if(r < n && sz, e);
}
#define PUTCISH(name, real)                                                    \
  OP(name) {                                                                   \
    int d = a.dst();                                                           \
    FILE *f = a.file();                                                        \
    Reg c = a.sc();                                                            \
    if (!f) {                                                                  \
      outf(" skip");                                                           \
      return;                                                                  \
    }                                                                          \
    L rl = POISON;                                                             \
    outf(" fd%d", fileno(f));                                                  \
    pos_file('<', f);                                                          \
    errno = 0;                                                                 \
    int r = CALL(real, ((int)c.v, f), (c.l, 0));                               \
    int e = errno;                                                             \
    pos_file('>', f);                                                          \
    outf(" cl%u", c.l);                                                        \
    res(d, r, rl);                                                             \
    err_if(r == EOF, e);                                                       \
  }
#undef putc
PUTCISH("putc", putc)
PUTCISH("fputc", fputc)
#ifdef PTVM_NATIVE
PUTCISH("_putc", putc)
#else
PUTCISH("_putc", _putc)
#endif
// --- heap --------------------------------------------------------------------------
OP("malloc") { // malloc slot n
  int k = a.slot();
  Reg n = a.sc();
  L rl = POISON;
  char *r = (char *)CALL(malloc, ((size_t)n.v), (n.l));
  S[k] = Slot();
  S[k].kind = r ? HEAP : NONE;
  S[k].p = r;
  S[k].n = S[k].probe = r ? n.v : 0;
  outf(" =%d", r ? 1 : -1);
#ifndef PTVM_NATIVE
  outf(" ^%u", rl);
#endif
  if (r) {
    memset(r, 0xAA, n.v); // the program initialises what it was given
    put_label(0, r, n.v);
    log_slot(k);
  }
}
OP("calloc") { // calloc slot n m
  int k = a.slot();
  Reg n = a.sc(), m = a.sc();
  L rl = 0;
  char *r = (char *)LCALL(calloc, ((size_t)n.v, (size_t)m.v), (n.l, m.l));
  S[k] = Slot();
  S[k].kind = r ? HEAP : NONE;
  S[k].p = r;
  S[k].n = S[k].probe = r ? (size_t)n.v * m.v : 0;
  outf(" =%d", r ? 1 : -1);
#ifndef PTVM_NATIVE
  outf(" ^%u", rl);
#endif
  if (r)
    log_slot(k);
}
OP("taintheap") { // leaves tainted, freed blocks behind for later allocations
  size_t n = a.num();
  Reg r = a.sc();
  char *b[8];
  for (auto &p : b) {
    p = (char *)malloc(n);
    memset(p, 0x55, n);
    put_label(r.l, p, n);
  }
  for (auto &p : b)
    free(p);
}
OP("realloc") { // realloc slot n   (slot empty: realloc(NULL, n))
  int k = a.slot();
  Reg n = a.sc();
  char *old = S[k].kind == HEAP ? S[k].p : nullptr;
  size_t oldn = S[k].kind == HEAP ? S[k].n : 0;
  L rl = POISON;
  errno = 0;
  char *r = (char *)CALL(realloc, (old, (size_t)n.v), (0, n.l));
  int e = errno;
#ifndef PTVM_NATIVE
  outf(" ^%u", rl);
#endif
  if (!r && n.v != 0) {
    outf(" =-1");
    err_if(true, e);
    return; // old block still valid
  }
  outf(" =%d", r ? 1 : 0);
  S[k].kind = r ? HEAP : NONE;
  S[k].p = r;
  size_t nn = r ? n.v : 0;
  S[k].n = nn;
  S[k].probe = std::min(oldn, nn);
  outf(" keep%zu", std::min(oldn, nn));
  if (r) {
    log_slot(k);
    if (nn > oldn) { // the program initialises the new tail
      memset(r + oldn, 0xBB, nn - oldn);
      put_label(0, r + oldn, nn - oldn);
    }
    S[k].probe = nn;
    snapshot(S[k]);
  }
}
OP("free") {
  int k = a.slot();
  if (S[k].kind != HEAP) {
    outf(" skip");
    return;
  }
  char *p = S[k].p;
  S[k].kind = NONE;
#ifdef PTVM_NATIVE
  free(p);
#else
  __dfsw_free(p, 0);
#endif
}
// --- string.h and friends ---------------------------------------------------------
OP("strcat") {
  int d = a.dst();
  auto x = a.ptr(), y = a.ptr();
  L rl = POISON;
  res_ptr(d, CALL(strcat, (x.p, y.p), (x.l, y.l)), rl);
}
static int sgn(long v) { return v < 0 ? -1 : v > 0; }
#define MEM3(name)                                                             \
  OP(#name) {                                                                  \
    int d = a.dst();                                                           \
    auto x = a.ptr(), y = a.ptr();                                             \
    Reg n = a.sc();                                                            \
    L rl = POISON;                                                             \
    res_ptr(d, LCALL(name, (x.p, y.p, (size_t)n.v), (x.l, y.l, n.l)), rl);     \
  }
MEM3(memcpy)
MEM3(memmove)
MEM3(strncpy)
OP("memset") {
  int d = a.dst();
  auto x = a.ptr();
  Reg c = a.sc(), n = a.sc();
  L rl = POISON;
  res_ptr(d, LCALL(memset, (x.p, (int)c.v, (size_t)n.v), (x.l, c.l, n.l)), rl);
}
OP("strcpy") {
  int d = a.dst();
  auto x = a.ptr(), y = a.ptr();
  L rl = POISON;
  res_ptr(d, LCALL(strcpy, (x.p, y.p), (x.l, y.l)), rl);
}
OP("strdup") { // strdup slot s+o
  int k = a.slot();
  auto x = a.ptr();
  L rl = POISON;
  char *r = LCALL(strdup, (x.p), (x.l));
  S[k] = Slot();
  S[k].kind = HEAP;
  S[k].p = r;
  S[k].n = S[k].probe = strlen(r) + 1;
  outf(" =1");
#ifndef PTVM_NATIVE
  outf(" ^%u", rl);
#endif
  log_slot(k);
}
#define CMP3(name)                                                             \
  OP(#name) {                                                                  \
    int d = a.dst();                                                           \
    auto x = a.ptr(), y = a.ptr();                                             \
    Reg n = a.sc();                                                            \
    L rl = POISON;                                                             \
    int r = LCALL(name, (x.p, y.p, (size_t)n.v), (x.l, y.l, n.l));             \
    res(d, sgn(r), rl);                                                        \
  }
CMP3(memcmp)
CMP3(strncmp)
CMP3(strncasecmp)
OP("bcmp") {
  int d = a.dst();
  auto x = a.ptr(), y = a.ptr();
  Reg n = a.sc();
  L rl = POISON;
  int r = LCALL(bcmp, (x.p, y.p, (size_t)n.v), (x.l, y.l, n.l));
  res(d, r != 0, rl);
}
#define CMP2(name)                                                             \
  OP(#name) {                                                                  \
    int d = a.dst();                                                           \
    auto x = a.ptr(), y = a.ptr();                                             \
    L rl = POISON;                                                             \
    int r = LCALL(name, (x.p, y.p), (x.l, y.l));                               \
    res(d, sgn(r), rl);                                                        \
  }
CMP2(strcmp)
CMP2(strcasecmp)
OP("strlen") {
  int d = a.dst();
  auto x = a.ptr();
  L rl = POISON;
  size_t r = LCALL(strlen, (x.p), (x.l));
  res(d, r, rl);
}
#define CHR(name)                                                              \
  OP(#name) {                                                                  \
    int d = a.dst();                                                           \
    auto x = a.ptr();                                                          \
    Reg c = a.sc();                                                            \
    L rl = POISON;                                                             \
    res_ptr(d, LCALL(name, (x.p, (int)c.v), (x.l, c.l)), rl);                  \
  }
CHR(strchr)
CHR(strrchr)
OP("memchr") {
  int d = a.dst();
  auto x = a.ptr();
  Reg c = a.sc(), n = a.sc();
  L rl = POISON;
  res_ptr(d, LCALL(memchr, (x.p, (int)c.v, (size_t)n.v), (x.l, c.l, n.l)), rl);
}
#define STR2(name)                                                             \
  OP(#name) {                                                                  \
    int d = a.dst();                                                           \
    auto x = a.ptr(), y = a.ptr();                                             \
    L rl = POISON;                                                             \
    res_ptr(d, LCALL(name, (x.p, y.p), (x.l, y.l)), rl);                       \
  }
STR2(strstr)
STR2(strpbrk)
#define STRTO(name)                                                            \
  OP(#name) { /* name rd s+o base wantend */                                   \
    int d = a.dst();                                                           \
    auto x = a.ptr();                                                          \
    Reg b = a.sc();                                                            \
    int want = a.num();                                                        \
    char *end = nullptr;                                                       \
    L rl = POISON;                                                             \
    errno = 0;                                                                 \
    auto r = LCALL(name, (x.p, want ? &end : nullptr, (int)b.v),               \
                   (x.l, 0, b.l));                                             \
    int e = errno;                                                             \
    if (want)                                                                  \
      outf(" end%zd", end - x.p);                                              \
    outf(" e%d", e);                                                           \
    res(d, (int64_t)r, rl);                                                    \
  }
STRTO(strtol)
STRTO(strtoll)
STRTO(strtoul)
STRTO(strtoull)
OP("strtod") {
  int d = a.dst();
  auto x = a.ptr();
  int want = a.num();
  char *end = nullptr;
  L rl = POISON;
  errno = 0;
  double r = LCALL(strtod, (x.p, want ? &end : nullptr), (x.l, 0));
  int e = errno;
  int64_t bits;
  memcpy(&bits, &r, 8);
  if (want)
    outf(" end%zd", end - x.p);
  outf(" e%d", e);
  res(d, bits, rl);
}
// printf family: a fixed set of argument shapes, chosen by `kind`
OP("snprintf") { // snprintf rd s+o size(-1: sprintf) xFMT kind args...
  int d = a.dst();
  auto x = a.ptr();
  long size = a.num();
  std::string fmt = a.hex();
  int kind = a.num();
  Reg r1{}, r2{};
  Args::P p1{};
  if (kind == 1 || kind == 4 || kind == 5 || (kind >= 7 && kind != 13))
    r1 = a.sc();
  if (kind == 4 || kind == 7 || kind == 9 || kind == 11)
    r2 = a.sc();
  if (kind == 2 || kind == 5 || kind == 6 || kind == 8 || kind == 9 || kind == 13)
    p1 = a.ptr();
  Reg r3{};
  if (kind == 11)
    r3 = a.sc();
  L rl = POISON;
  int r = -9;
  double dv = (double)r1.v / 3.0;
  if (kind == 3)
    r1 = a.sc(), dv = (double)r1.v / 3.0;
#ifdef HAVE_LIBC_WRAPPERS
#define PF(...)                                                                \
  (size < 0 ? __dfsw_sprintf(x.p, fmt.c_str(), x.l, 0, va, &rl, ##__VA_ARGS__) \
            : __dfsw_snprintf(x.p, size, fmt.c_str(), x.l, 0, 0, va, &rl,      \
                              ##__VA_ARGS__))
#else
#define PF(...)                                                                \
  (size < 0 ? sprintf(x.p, fmt.c_str(), ##__VA_ARGS__)                         \
            : snprintf(x.p, size, fmt.c_str(), ##__VA_ARGS__))
#endif
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wformat-security"
#pragma clang diagnostic ignored "-Wformat-nonliteral"
  switch (kind) {
  case 0: {
    L va[2] = {0, 0};
    (void)va;
    r = PF();
    break;
  }
  case 1: { // one int
    L va[2] = {r1.l, 0};
    (void)va;
    r = PF((int)r1.v);
    break;
  }
  case 2: { // one string
    L va[2] = {p1.l, 0};
    (void)va;
    r = PF(p1.p);
    break;
  }
  case 3: { // one double
    L va[2] = {r1.l, 0};
    (void)va;
    r = PF(dv);
    break;
  }
  case 4: { // long, char
    L va[3] = {r1.l, r2.l, 0};
    (void)va;
    r = PF((long)r1.v, (int)(unsigned char)r2.v);
    break;
  }
  case 5: { // int, string
    L va[3] = {r1.l, p1.l, 0};
    (void)va;
    r = PF((int)r1.v, p1.p);
    break;
  }
  case 7: { // width, int
    L va[3] = {r1.l, r2.l, 0};
    (void)va;
    r = PF((int)r1.v, (int)r2.v);
    break;
  }
  case 8: { // width (or precision), string
    L va[3] = {r1.l, p1.l, 0};
    (void)va;
    r = PF((int)r1.v, p1.p);
    break;
  }
  case 9: { // width, precision, string
    L va[4] = {r1.l, r2.l, p1.l, 0};
    (void)va;
    r = PF((int)r1.v, (int)r2.v, p1.p);
    break;
  }
  case 10: { // one long double
    L va[2] = {r1.l, 0};
    (void)va;
    r = PF((long double)r1.v / 3);
    break;
  }
  case 11: { // width, precision, long double
    L va[4] = {r1.l, r2.l, r3.l, 0};
    (void)va;
    r = PF((int)r1.v, (int)r2.v, (long double)r3.v / 3);
    break;
  }
  case 12: { // errno in words, and an int
    L va[2] = {r1.l, 0};
    (void)va;
    errno = ENOENT;
    r = PF((int)r1.v);
    break;
  }
  case 13: { // string, then the count in a variable of some other size
    unsigned char n[16];
    memset(n, 0xee, 16);
    L va[3] = {p1.l, 0, 0};
    (void)va;
    r = PF(p1.p, n + 4);
    out += " n";
    for (unsigned char c : n)
      outf("%02x", c);
    break;
  }
  case 6: { // string, then %n
    int n = 77;
    L va[3] = {p1.l, 0, 0};
    (void)va;
    r = PF(p1.p, &n);
    outf(" n%d", n);
    break;
  }
  }
#pragma clang diagnostic pop
  res(d, r, rl);
}
// --- calls that fill caller memory with data from the system ---------------------
OP("stat") { // stat rd xPATH s+o
  int d = a.dst();
  std::string p = a.hex();
  auto x = a.ptr();
  L rl = POISON;
  errno = 0;
  struct stat *st = (struct stat *)x.p;
  int r = LCALL(stat, (p.c_str(), st), (0, x.l));
  int e = errno;
  if (!r)
    outf(" size%ld", (long)st->st_size);
  if (!r) { // fields that legitimately differ between runs
    long size = st->st_size;
    memset((void *)st, 0, sizeof *st);
    st->st_size = size;
  }
  res(d, r, rl);
  err_if(r, e);
}
OP("fstat") {
  int d = a.dst();
  int fd = a.fd();
  auto x = a.ptr();
  L rl = POISON;
  errno = 0;
  struct stat *st = (struct stat *)x.p;
  int r = LCALL(fstat, (fd, st), (0, x.l));
  int e = errno;
  if (!r) {
    long size = st->st_size;
    memset((void *)st, 0, sizeof *st);
    st->st_size = size;
  }
  res(d, r, rl);
  err_if(r, e);
}
OP("gettimeofday") {
  int d = a.dst();
  auto x = a.ptr();
  L rl = POISON;
  int r = LCALL(gettimeofday, ((struct timeval *)x.p, nullptr), (x.l, 0));
  memset(x.p, 1, sizeof(struct timeval));
  res(d, r, rl);
}
OP("clock_gettime") {
  int d = a.dst();
  int c = a.num();
  auto x = a.ptr();
  L rl = POISON;
  errno = 0;
  int r = LCALL(clock_gettime, (c, (struct timespec *)x.p), (0, x.l));
  int e = errno;
  if (!r)
    memset(x.p, 1, sizeof(struct timespec));
  res(d, r, rl);
  err_if(r, e);
}
OP("time") {
  int d = a.dst();
  auto x = a.ptr();
  L rl = POISON;
  time_t r = LCALL(time, ((time_t *)x.p), (x.l));
  if (x.p)
    memset(x.p, 1, sizeof(time_t));
  res(d, r > 0, rl);
}
OP("ctime_r") {
  int d = a.dst();
  auto x = a.ptr(), y = a.ptr();
  time_t t;
  memcpy(&t, x.p, sizeof t);
  L rl = POISON;
  res_ptr(d, LCALL(ctime_r, ((const time_t *)x.p, y.p), (x.l, y.l)), rl);
}
OP("localtime_r") {
  int d = a.dst();
  auto x = a.ptr(), y = a.ptr();
  L rl = POISON;
  struct tm *r =
      LCALL(localtime_r, ((const time_t *)x.p, (struct tm *)y.p), (x.l, y.l));
  memset((char *)y.p + offsetof(struct tm, tm_zone), 0, sizeof(char *)); // an address
  res_ptr(d, r, rl);
}
OP("inet_pton") { // inet_pton rd af s+o s+o
  int d = a.dst();
  int af = a.num();
  auto x = a.ptr(), y = a.ptr();
  L rl = POISON;
  errno = 0;
  int r = LCALL(inet_pton, (af, x.p, y.p), (0, x.l, y.l));
  int e = errno;
  res(d, r, rl);
  err_if(r < 0, e);
}
OP("getcwd") { // the directory differs between runs: contents are masked
  int d = a.dst();
  auto x = a.ptr();
  size_t n = a.num();
  L rl = POISON;
  errno = 0;
  char *r = LCALL(getcwd, (x.p, n), (x.l, 0));
  int e = errno;
  res_ptr(d, r, rl);
  err_if(!r, e);
  if (r) {
    outf(" len%zu", strlen(r));
  }
  memset(x.p, 3, n);
}
OP("getrlimit") {
  int d = a.dst();
  int w = a.num();
  auto x = a.ptr();
  L rl = POISON;
  errno = 0;
  int r = LCALL(getrlimit, (w, (struct rlimit *)x.p), (0, x.l));
  int e = errno;
  if (!r)
    memset(x.p, 1, sizeof(struct rlimit));
  res(d, r, rl);
  err_if(r, e);
}
OP("getrusage") {
  int d = a.dst();
  int w = a.num();
  auto x = a.ptr();
  L rl = POISON;
  errno = 0;
  int r = LCALL(getrusage, (w, (struct rusage *)x.p), (0, x.l));
  int e = errno;
  if (!r)
    memset(x.p, 1, sizeof(struct rusage));
  res(d, r, rl);
  err_if(r, e);
}
OP("gethostname") {
  int d = a.dst();
  auto x = a.ptr();
  size_t n = a.num();
  L rl = POISON;
  errno = 0;
  int r = LCALL(gethostname, (x.p, n), (x.l, 0));
  int e = errno;
  if (!r)
    outf(" len%zu", strlen(x.p));
  res(d, r, rl);
  err_if(r, e);
}
OP("sigemptyset") {
  int d = a.dst();
  auto x = a.ptr();
  L rl = POISON;
  int r = LCALL(sigemptyset, ((sigset_t *)x.p), (x.l));
  res(d, r, rl);
}
OP("poll") { // poll rd f s+o : one pollfd built in the buffer
  int d = a.dst();
  int fd = a.fd();
  auto x = a.ptr();
  struct pollfd *pf = (struct pollfd *)x.p;
  pf->fd = fd;
  pf->events = POLLIN;
  L rl = POISON;
  errno = 0;
  int r = LCALL(poll, (pf, 1, 0), (x.l, 0, 0));
  int e = errno;
  pf->fd = 0;
  res(d, r, rl);
  err_if(r < 0, e);
}
OP("select") { // select rd f s+o(fd_set) t|null
  int d = a.dst();
  int fd = a.fd();
  auto x = a.ptr();
  auto t = a.ptr();
  fd_set *s = (fd_set *)x.p;
  FD_ZERO(s);
  if (fd >= 0)
    FD_SET(fd, s);
  if (t.p)
    memset(t.p, 0, sizeof(timeval));
  L rl = POISON;
  int r = LCALL(select, (fd + 1, s, nullptr, nullptr, (timeval *)t.p),
                (0, x.l, 0, 0, t.l));
  FD_ZERO(s);
  res(d, r, rl);
}
OP("socketpair") { // socketpair fa fb s+o
  int p = a.fdi(), q = a.fdi();
  auto x = a.ptr();
  int *sv = (int *)x.p;
  L rl = POISON;
  int r = LCALL(socketpair, (AF_UNIX, SOCK_STREAM, 0, sv), (0, 0, 0, x.l));
  FD[p] = sv[0];
  FD[q] = sv[1];
  outf(" fd%d fd%d", sv[0], sv[1]);
  sv[0] = sv[1] = 0;
  res(-1, r, rl);
}
OP("recvmsg") { // recvmsg rd f s+o n s+o n
  int d = a.dst();
  int fd = a.fd();
  auto x = a.ptr();
  size_t n = a.num();
  auto y = a.ptr();
  size_t m = a.num();
  struct iovec iov[2] = {{x.p, n}, {y.p, m}};
  struct msghdr h {};
  h.msg_iov = iov;
  h.msg_iovlen = 2;
  L rl = POISON;
  outf(" fd%d", fd);
  errno = 0;
  ssize_t r = LCALL(recvmsg, (fd, &h, MSG_DONTWAIT), (0, 0, 0));
  int e = errno;
  res(d, r, rl);
  err_if(r < 0, e);
}
static void *thread_body(void *p) {
  (*(int *)p)++;
  return p;
}
#ifdef HAVE_LIBC_WRAPPERS
static void *tramp(void *cb, void *arg, L, L *rl) {
  *rl = 0;
  return ((void *(*)(void *))cb)(arg);
}
#endif
OP("thread") { // thread rd s+o : create, run, join through the wrappers
  int d = a.dst();
  auto x = a.ptr();
  static int counter = 0;
  pthread_t t;
  void **rv = (void **)x.p;
  L rl = POISON;
#ifdef HAVE_LIBC_WRAPPERS
  int r = __dfsw_pthread_create(&t, nullptr, tramp, (void *)thread_body,
                                &counter, 0, 0, 0, 0, &rl);
  if (!r)
    r = __dfsw_pthread_join(t, rv, 0, 0, &rl);
#else
  int r = pthread_create(&t, nullptr, thread_body, &counter);
  if (!r)
    r = pthread_join(t, rv);
#endif
  outf(" c%d eq%d", counter, rv && *rv == &counter);
  if (rv)
    memset(x.p, 0, sizeof(void *));
  res(d, r, rl);
}
static volatile int sig_seen;
static void on_sig(int s) { sig_seen += s; }
static void on_act(int s, siginfo_t *i, void *c) {
  sig_seen += i && i->si_signo == s && i->si_pid == getpid() && c ? 100 * s : 100000 * s;
}

// Calls that fill memory with data from the system.  `filled` lists the bytes
// the call is documented to have filled, `open` those it may have used.
static std::string filled, open_;
static void fills(size_t o, size_t n) {
  if (n)
    filled += (filled.empty() ? "" : ";") + std::to_string(o) + "," +
              std::to_string(n);
}
static void opens(size_t o, size_t n) {
  if (n)
    open_ += (open_.empty() ? "" : ";") + std::to_string(o) + "," +
             std::to_string(n);
}
#ifndef PTVM_NATIVE
static int phdr_cb(void *, struct dl_phdr_info *i, size_t n, void *data, L, L,
                   L, L *rl) {
#else
static int phdr_cb(struct dl_phdr_info *i, size_t n, void *data) {
#endif
  int *c = (int *)data;
  *c += i->dlpi_phnum > 0 && n >= 24;
#ifndef PTVM_NATIVE
  *rl = 0;
#endif
  return *c == 2 ? 77 : 0;
}
// two datagram sockets; the sender has a name of `longname` bytes
static bool dgrams(int &from, int &to, int longname) {
  from = socket(AF_UNIX, SOCK_DGRAM, 0);
  to = socket(AF_UNIX, SOCK_DGRAM, 0);
  sockaddr_un sa{};
  sa.sun_family = AF_UNIX;
  socklen_t n = sizeof(sa_family_t);
  bool ok = from >= 0 && to >= 0 && !bind(to, (sockaddr *)&sa, n);
  if (longname) {
    char *q = sa.sun_path + 1;
    q += snprintf(q, 40, "ptvm-%d-%d-", (int)syscall(SYS_getpid), from);
    while (q - sa.sun_path < 60)
      *q++ = 'x';
    n = sizeof(sa_family_t) + 60;
  }
  ok = ok && !bind(from, (sockaddr *)&sa, n);
  socklen_t m = sizeof sa;
  memset(&sa, 0, sizeof sa);
  ok = ok && !getsockname(to, (sockaddr *)&sa, &m) &&
       !connect(from, (sockaddr *)&sa, m);
  if (!ok) {
    close(from);
    close(to);
  }
  return ok;
}
OP("sysfill") { // sysfill rd which s+o variant : 384 bytes at s+o
  int d = a.dst();
  std::string w = a.next();
  auto x = a.ptr();
  int v = a.num();
  L rl = POISON;
  long r = 0;
  int e = 0;
  bool failed = false;
  size_t mask = 0; // contents that differ between two executions
  filled.clear();
  open_.clear();
  if (w == "epoll_wait") {
    int ep = epoll_create1(0), ev[3];
    for (int i = 0; i < 3; i++) {
      ev[i] = eventfd(i != 1, 0);
      struct epoll_event q {};
      q.events = EPOLLIN;
      q.data.u64 = 0x0102030405060708ull;
      epoll_ctl(ep, EPOLL_CTL_ADD, ev[i], &q);
    }
    errno = 0;
    r = LCALL(epoll_wait, (ep, (struct epoll_event *)x.p, v % 4, 0),
              (0, x.l, 0, 0));
    e = errno;
    failed = r < 0;
    if (r > 0)
      fills(0, r * sizeof(struct epoll_event));
    for (int i = 0; i < 3; i++)
      close(ev[i]);
    close(ep);
  } else if (w == "curdir") {
    char *q = (char *)malloc(PATH_MAX);
#ifndef PTVM_NATIVE
    put_label(R[0].l, q, PATH_MAX);
#endif
    free(q);
#ifndef PTVM_NATIVE
    char *c = __dfsw_get_current_dir_name(&rl);
    bool clean = true;
    for (size_t i = 0; c && i <= strlen(c); i++)
      clean = clean && read_label(c + i, 1) == 0;
    outf(" clean%d", clean);
#else
    char *c = get_current_dir_name();
    outf(" clean1");
#endif
    char here[PATH_MAX];
    r = c && getcwd(here, sizeof here) && !strcmp(c, here);
    free(c);
  } else if (w == "getpwuid_r") {
    static const unsigned uid[] = {0, 0, 424242, 1};
    static const int len[] = {300, 5, 300, 300};
    struct passwd *pw = (struct passwd *)x.p;
    struct passwd **res_ = (struct passwd **)(x.p + 56);
    char *b = x.p + 64;
    memset(x.p, 'q', 384);
    errno = 0;
    r = LCALL(getpwuid_r, ((id_t)uid[v % 4], pw, b, (size_t)len[v % 4], res_),
              (0, 0, x.l, 0, 0));
    outf(" found%d", *res_ == pw);
    fills(56, 8);
    opens(0, 48);
    opens(64, len[v % 4]);
    if (r == 0 && *res_ == pw) {
      fills(0, sizeof *pw);
      for (char *q : {pw->pw_name, pw->pw_passwd, pw->pw_gecos, pw->pw_dir,
                      pw->pw_shell})
        if (q >= b && q < b + len[v % 4])
          fills(q - x.p, strlen(q) + 1);
      outf(" who:%s", pw->pw_name);
    }
    mask = 384;
  } else if (w == "getsockopt") {
    static const int opt[] = {SO_TYPE, SO_LINGER, SO_TYPE, SO_LINGER};
    static const int len[] = {4, 8, 2, 60};
    int f = v == 7 ? -1 : socket(AF_INET, SOCK_STREAM, 0);
    socklen_t *n = (socklen_t *)(x.p + 64);
    *n = len[v % 4];
    errno = 0;
    r = LCALL(getsockopt, (f, SOL_SOCKET, opt[v % 4], x.p, n), (0, 0, 0, x.l, 0));
    e = errno;
    failed = r < 0;
    if (!r) {
      fills(0, *n);
      fills(64, sizeof *n);
    }
    if (f >= 0)
      close(f);
  } else if (w == "sockname" || w == "peername") {
    static const int len[] = {110, 2, 0, 10, 20};
    int f, g;
    if (!dgrams(f, g, v & 8)) {
      outf(" skip");
      return;
    }
    if (v == 7) // not connected
      std::swap(f, g);
    socklen_t given = len[v % 5], *n = (socklen_t *)(x.p + 128);
    *n = given;
    memset(x.p, 0, 128);
    errno = 0;
    r = w == "sockname"
            ? LCALL(getsockname, (f, (sockaddr *)x.p, n), (0, x.l, 0))
            : LCALL(getpeername, (f, (sockaddr *)x.p, n), (0, x.l, 0));
    e = errno;
    failed = r < 0;
    if (!r) {
      fills(0, std::min(given, *n));
      fills(128, sizeof *n);
    }
    outf(" n%u", *n);
    mask = 132;
    close(f);
    close(g);
  } else if (w == "nanosleep") {
    struct timespec q {0, 1};
    if (v % 3 == 1)
      q.tv_nsec = -1;
    if (v % 3 == 2) {
      q.tv_sec = 60;
      struct sigaction sa {}, old {};
      sa.sa_handler = [](int) {};
      sigaction(SIGALRM, &sa, &old);
      struct itimerval it {{0, 1000}, {0, 1000}}; // again, if it was early
      setitimer(ITIMER_REAL, &it, nullptr);
    }
    errno = 0;
    r = LCALL(nanosleep, (&q, (struct timespec *)x.p), (0, x.l));
    e = errno;
    struct itimerval off {};
    setitimer(ITIMER_REAL, &off, nullptr);
    failed = r < 0;
    if (r < 0 && e == EINTR) {
      fills(0, sizeof(struct timespec));
      mask = sizeof(struct timespec);
    }
  } else if (w == "recvname") {
    static const int nlen[] = {110, 0, 2, 8};
    static const int clen[] = {64, 0, 64, 20};
    int f, g, one = 1;
    if (!dgrams(f, g, v & 8)) {
      outf(" skip");
      return;
    }
    if (v & 1)
      setsockopt(g, SOL_SOCKET, SO_PASSCRED, &one, sizeof one);
    send(f, "0123456789abcdef", 16, 0);
    struct iovec iov[2] = {{x.p, 5}, {x.p + 8, (size_t)(v & 2 ? 5 : 30)}};
    struct msghdr h {};
    h.msg_iov = iov;
    h.msg_iovlen = 2;
    h.msg_name = nlen[v % 4] ? x.p + 64 : nullptr;
    h.msg_namelen = nlen[v % 4];
    h.msg_control = clen[v / 4 % 4] ? x.p + 192 : nullptr;
    h.msg_controllen = clen[v / 4 % 4];
    memset(x.p, 0, 384);
    errno = 0;
    r = LCALL(recvmsg, (g, &h, v & 4 ? MSG_TRUNC : v & 16 ? MSG_PEEK : 0),
              (0, 0, 0));
    e = errno;
    failed = r < 0;
    if (r >= 0) {
      fills(0, std::min(r, 5l));
      fills(8, std::min((size_t)std::max(0l, r - 5), iov[1].iov_len));
      fills(64, std::min((socklen_t)nlen[v % 4], h.msg_namelen));
      fills(192, h.msg_controllen);
    }
    outf(" n%u c%zu f%x", h.msg_namelen, h.msg_controllen, h.msg_flags);
    mask = 384;
    close(f);
    close(g);
  } else if (w == "recvmmsg") {
    int f, g;
    if (!dgrams(f, g, 0)) {
      outf(" skip");
      return;
    }
    int sent = v % 4;
    for (int i = 0; i < sent; i++)
      send(f, "0123456789abcdef", 4 * (i + 1), 0);
    struct mmsghdr *mv = (struct mmsghdr *)x.p;
    static struct iovec iov[3];
    memset(x.p, 0, 384);
    for (int i = 0; i < 3; i++) {
      iov[i] = {x.p + 192 + 16 * i, (size_t)(v & 4 ? 6 : 16)};
      mv[i].msg_hdr.msg_iov = &iov[i];
      mv[i].msg_hdr.msg_iovlen = 1;
    }
    errno = 0;
    r = LCALL(recvmmsg,
              (g, mv, (unsigned)(v & 8 ? 2 : 3),
               MSG_DONTWAIT | (v & 16 ? MSG_TRUNC : 0), nullptr),
              (0, x.l, 0, 0, 0));
    e = errno;
    failed = r < 0;
    for (int i = 0; i < r; i++) {
      fills(64 * i + offsetof(struct mmsghdr, msg_len), 4);
      opens(64 * i, sizeof(struct msghdr));
      fills(192 + 16 * i, std::min((size_t)mv[i].msg_len, iov[i].iov_len));
      outf(" q%u", mv[i].msg_len);
    }
    memset(x.p, 0, 192);
    close(f);
    close(g);
  } else if (w == "affinity") {
    size_t n = v % 3 == 0 ? 128 : v % 3 == 1 ? 4 : 64;
    errno = 0;
    r = LCALL(sched_getaffinity, (0, n, (cpu_set_t *)x.p), (0, 0, x.l));
    e = errno;
    failed = r < 0;
    if (!r) {
      fills(0, n);
      mask = n;
    }
  } else if (w == "altstack") {
    errno = 0;
    r = LCALL(sigaltstack, (nullptr, v & 1 ? nullptr : (stack_t *)x.p), (0, x.l));
    e = errno;
    failed = r < 0;
    if (!r && !(v & 1)) {
      fills(0, sizeof(stack_t));
      mask = sizeof(stack_t);
    }
  } else if (w == "phdr") {
    int c = 0;
#ifndef PTVM_NATIVE
    r = __dfsw_dl_iterate_phdr(phdr_cb, (void *)phdr_cb, &c, 0, 0, &rl);
#else
    r = dl_iterate_phdr(phdr_cb, &c);
#endif
    outf(" c%d", c);
  } else if (w == "broadcast") {
    static pthread_cond_t c = PTHREAD_COND_INITIALIZER;
    r = LCALL(pthread_cond_broadcast, (&c), (x.l));
  } else
    die("sysfill");
  if (mask)
    memset(x.p, 1, mask);
  if (!filled.empty())
    outf(" fills:%s", filled.c_str());
  if (!open_.empty())
    outf(" opens:%s", open_.c_str());
  res(d, r, rl);
  err_if(failed, e);
}
OP("sigaction") { // sigaction rd signum s+o(oldact)|null [kind]
  // kind: h handler, a action with details, i ignore, d default, q only ask;
  // H I D the same through signal()
  int d = a.dst();
  int sg = a.num();
  auto x = a.ptr();
  char kind = a.more() ? a.next()[0] : 'h';
  static char now[65];
  struct sigaction sa {};
  L rl = POISON;
  auto name = [](void *h) {
    return h == (void *)on_sig ? 1 : h == (void *)SIG_DFL ? 2 : h == (void *)SIG_IGN ? 3 : h == (void *)on_act ? 4 : 0;
  };
  auto hand = [&](char k) { return k == 'h' ? on_sig : k == 'i' ? SIG_IGN : SIG_DFL; };
  int r = 0, e = 0;
  errno = 0;
  if (kind < 'a') {
    sighandler_t o;
    kind += 32;
#ifdef HAVE_LIBC_WRAPPERS
    o = __dfsw_signal(sg, nullptr, hand(kind), 0, 0, &rl);
#else
    o = signal(sg, hand(kind));
#endif
    e = errno;
    r = o == SIG_ERR ? -1 : 0;
    outf(" old%d", r ? 9 : name((void *)o));
  } else {
    if (kind == 'a') {
      sa.sa_sigaction = on_act;
      sa.sa_flags = SA_SIGINFO;
    } else {
      sa.sa_handler = hand(kind);
      sa.sa_flags = sg & 1 ? SA_RESTART : SA_NODEFER;
    }
    sigemptyset(&sa.sa_mask);
    sigaddset(&sa.sa_mask, kind == 'h' ? SIGHUP : SIGURG);
    r = LCALL(sigaction, (sg, kind == 'q' ? nullptr : &sa, (struct sigaction *)x.p), (0, 0, x.l));
    e = errno;
    int same = -1;
    if (!r && x.p) {
      struct sigaction *o = (struct sigaction *)x.p;
      same = name(o->sa_flags & SA_SIGINFO ? (void *)o->sa_sigaction : (void *)o->sa_handler);
      outf(" flags%x.%d%d", o->sa_flags & (SA_SIGINFO | SA_RESTART | SA_NODEFER), sigismember(&o->sa_mask, SIGHUP), sigismember(&o->sa_mask, SIGURG));
      memset(x.p, 0, sizeof(struct sigaction));
    }
    outf(" old%d", same);
    if (sa.sa_handler != hand(kind) && kind != 'a')
      outf(" changed");
  }
  if (!r && sg < 65 && kind != 'q')
    now[sg] = kind;
  if (!r && sg < 65 && now[sg] && now[sg] != 'd')
    raise(sg);
  outf(" seen%d", sig_seen);
  res(d, r, rl);
  err_if(r, e);
}
OP("fork") { // fork rd : child leaves at once without running exit handlers
  int d = a.dst();
  L rl = POISON;
#ifdef HAVE_LIBC_WRAPPERS
  pid_t p = __dfsw_fork(&rl);
#else
  pid_t p = fork();
#endif
  if (p == 0)
    syscall(SYS_exit_group, 7);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  outf(" st%d", WEXITSTATUS(st));
  res(d, p > 0, rl);
}
OP("stackread") { // reads into fresh automatic storage, like most C programs do
  int d = a.dst();
  int fd = a.fd();
  size_t n = a.num();
  char b[256];
  put_label(0, b, sizeof b);
  L rl = POISON;
  outf(" fd%d", fd);
  pos_fd('<', fd);
  ssize_t r = CALL(read, (fd, b, std::min(n, sizeof b)), (0, 0, 0));
  pos_fd('>', fd);
  res(d, r, rl);
  out += " b:";
  for (size_t i = 0; i < sizeof b; i++) {
    L l = read_label(b + i, 1);
    if (l)
      outf("%zu=%u,", i, l);
  }
}
// --- environment / ending ---------------------------------------------------------
OP("note") { outf(" %s", a.next().c_str()); }
OP("umask") { umask((mode_t)a.num()); }
OP("reloadtrace") {}

static void finish(const char *how) {
  outf("end %s\n", how);
  flush_out();
}
OP("exit") {
  int c = a.num();
  log_diffs();
  out += "\n";
  finish("exit");
#ifdef PTVM_NATIVE
  exit(c);
#else
  __dfsw_exit(c, 0);
#endif
}
OP("_exit") {
  int c = a.num();
  out += "\n";
  finish("_exit");
  _exit(c);
}
OP("abort") {
  out += "\n";
  finish("abort");
  abort();
}
OP("kill") {
  int s = a.num();
  out += "\n";
  finish("kill");
  signal(s, SIG_DFL);
  raise(s);
}
extern "C" void __assert_fail(const char *, const char *, unsigned,
                              const char *) noexcept(true);
OP("assert") {
  out += "\n";
  finish("assert");
#ifdef PTVM_NATIVE
  __assert_fail("x", "f.c", 3, "fn");
#else
  __dfsw___assert_fail("x", "f.c", 3, "fn", 0, 0, 0, 0);
#endif
}
static bool want_return = false;
static int return_code = 0;
OP("return") {
  return_code = a.num();
  want_return = true;
}
OP("atexitmark") { // exit handlers registered by the program still run
  atexit([] {
    static const char m[] = "atexit-mark\n";
    (void)!syscall(SYS_write, tracefd, m, sizeof m - 1);
  });
}
OP("threadexit") { // exit() called from another thread while main waits
  int c = a.num();
  out += "\n";
  finish("exit");
  static int code;
  code = c;
  pthread_t t;
  pthread_create(
      &t, nullptr,
      [](void *) -> void * {
#ifdef PTVM_NATIVE
        exit(code);
#else
        __dfsw_exit(code, 0);
#endif
        return nullptr;
      },
      nullptr);
  pthread_join(t, nullptr);
}


OP("quick_exit") {
  int c = a.num();
  out += "\n";
  finish("quick_exit");
  quick_exit(c);
}
OP("mainend") { // the main thread leaves, another one ends the program later
  out += "\n";
  finish("exit");
  pthread_t t;
  pthread_create(
      &t, nullptr,
      [](void *) -> void * {
        usleep(2000);
        return nullptr;
      },
      nullptr);
  pthread_exit(nullptr);
}
static int abort_code;
static void deep_exit(int n, int c) {
  volatile char pad[64];
  pad[n & 63] = (char)n;
  if (n > 0) {
    deep_exit(n - 1, c + pad[0] * 0);
    return;
  }
#ifdef PTVM_NATIVE
  exit(c);
#else
  __dfsw_exit(c, 0);
#endif
}
OP("deepexit") { // deepexit n code
  int n = a.num(), c = a.num();
  log_diffs();
  out += "\n";
  finish("exit");
  deep_exit(n, c);
}
OP("onabort") { // onabort code : the program handles SIGABRT by exiting
  abort_code = a.num();
  signal(SIGABRT, [](int) { exit(abort_code); });
}
OP("sigexit") { // sigexit sig code : exit from a signal handler
  int s = a.num();
  abort_code = a.num();
  signal(s, [](int) {
#ifdef PTVM_NATIVE
    exit(abort_code);
#else
    __dfsw_exit(abort_code, 0);
#endif
  });
  log_diffs();
  out += "\n";
  finish("exit");
  raise(s);
}
// Threads that are still at work when the program ends.  What they record is
// recognisable: function "busy", function ids from 0xf0000000.
static L busy_a, busy_b;
static int busy_fd;
OP("busy") { // busy n ra rb f : unions of ra and rb, branches, logs, output to f
  int n = a.num();
  busy_a = a.sc().l;
  busy_b = a.sc().l;
  busy_fd = a.fd();
  for (int i = 0; i < n; i++) {
    pthread_t t;
    pthread_create(
        &t, nullptr,
        [](void *p) -> void * {
          (void)p;
          char *c = (char *)malloc(8);
          memset(c, 0, 8);
          for (uint32_t k = 0;; k++) {
#ifdef PTVM_NATIVE
            (void)!write(busy_fd, c, 1);
#else
            L x = busy_a, y = busy_b, rl;
            if (x && y && x != y)
              x = __polytracker_union_table(x, y);
            if (x)
              __polytracker_log_conditional_branch(x);
            __polytracker_enter_function(0xf0000000u + (k & 0xfff));
            char nm[] = "busy";
            uint16_t f = __polytracker_log_func_entry(nm, 4);
            __dfsw_write(busy_fd, c, 1, 0, 0, 0, &rl);
            __polytracker_log_func_exit(f);
            __polytracker_leave_function(0xf0000000u + (k & 0xfff));
#endif
          }
          return nullptr;
        },
        (void *)(intptr_t)i);
    pthread_detach(t);
  }
  usleep(1000);
}
static int handler_line = -1;
static void run_lines(size_t from);
OP("onexit") { // the lines after "handler" run in an exit handler
  atexit([] {
    if (handler_line >= 0)
      run_lines(handler_line);
  });
}
OP("handler") { want_return = true; }
#ifndef PTVM_NATIVE
static void find_labels();
#endif
OP("start") { // initialization of the tracker, when it was left out at first
#ifndef PTVM_NATIVE
  __taint_start();
  find_labels();
#endif
}

#include <malloc.h>
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
OP("heap") { // bytes allocated now
  flush_out();
  size_t n = __sanitizer_get_current_allocated_bytes
                 ? __sanitizer_get_current_allocated_bytes()
                 : mallinfo2().uordblks + mallinfo2().hblkhd;
  outf(" heap=%zu", n);
}
OP("cpu") { // CPU time of this process in microseconds
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  outf(" cpu=%lld", (long long)t.tv_sec * 1000000 + t.tv_nsec / 1000);
}
static long loop_left = -1;
static bool loop_back = false;
OP("loop") { loop_left = a.num() - 1; } // the lines up to "next", n times
OP("next") { loop_back = loop_left-- > 0; }
static std::vector<std::string> lines;
static void run_lines(size_t from) {
  want_return = false;
  int idx = (int)from;
  for (size_t li = from; li < lines.size(); li++) {
    auto &l = lines[li];
    Args a;
    size_t i = 0;
    while (i < l.size()) {
      size_t j = l.find(' ', i);
      if (j == std::string::npos)
        j = l.size();
      if (j > i)
        a.t.push_back(l.substr(i, j - i));
      i = j + 1;
    }
    if (a.t.empty() || a.t[0][0] == '#') {
      idx++;
      continue;
    }
    a.i = 1;
    Op fn = nullptr;
    for (int i = 0; i < nops && !fn; i++)
      if (!strcmp(OPS[i].name, a.t[0].c_str()))
        fn = OPS[i].fn;
    if (!fn)
      die(("unknown op " + a.t[0]).c_str());
    outf("%d", idx);
    if (out.size() > (1 << 16))
      flush_out();
    // crash attribution: the op index must be on disk before the call
    flush_out();
    fn(a);
    log_diffs();
    out += "\n";
    idx++;
    if (want_return)
      break;
    if (loop_back) {
      loop_back = false;
      while (li > 0 && lines[li].compare(0, 5, "loop ") != 0)
        li--;
      idx = (int)li + 1;
    }
  }
  flush_out();
}

int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
#ifdef PTVM_NATIVE
  // what the tracker itself prints when it starts, so that positions on stdout agree
  if (const char *b = getenv("PTVM_BANNER"))
    fputs(b, stdout);
#endif
  for (int &f : FD)
    f = -1;
  const char *script = getenv("PTVM_SCRIPT");
  const char *trace = getenv("PTVM_TRACE");
  if (!script || !trace)
    return 96;
  int t = open(trace, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  tracefd = fcntl(t, F_DUPFD_CLOEXEC, 900);
  close(t);
  if (tracefd < 0)
    return 95;
  {
    FILE *f = fopen(script, "r");
    if (!f)
      return 94;
    char *line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) >= 0) {
      while (n && (line[n - 1] == '\n'))
        line[--n] = 0;
      lines.push_back(line);
    }
    free(line);
    fclose(f);
  }
#ifndef PTVM_NATIVE
  if (!getenv("PTVM_NO_START")) {
    __taint_start();
    __polytracker_taint_argv(argc, argv);
  }
  find_labels();
#endif
  // argv strings are memory the program owns: slots 40..
  out += "argv";
  for (int i = 0; i < argc && i < 8; i++) {
    Slot &s = S[40 + i];
    s.kind = ARGV;
    s.p = argv[i];
    s.n = s.probe = strlen(argv[i]) + 1;
    log_slot(40 + i);
  }
  out += "\n";
  for (size_t i = 0; i < lines.size(); i++)
    if (lines[i] == "handler")
      handler_line = i + 1;
  run_lines(0);
  finish("return");
  return return_code;
}
