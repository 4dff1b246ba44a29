// Capacity monitor: random operations on the sections of the recording, each
// given a small block of memory of its own (bounded by ASan's red zones), next
// to a plain model of what should be in it.  One child process per sequence;
// error_exit ends the child after a last look at everything recorded.
//   sections KIND SEED FROM COUNT
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <atomic>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "taintdag/bitmap_section.h"
#include "taintdag/control_flow_log.h"
#include "taintdag/encoding.h"
#include "taintdag/error.h"
#include "taintdag/fnmapping.h"
#include "taintdag/fntrace.h"
#include "taintdag/labeldeq.h"
#include "taintdag/labels.h"
#include "taintdag/outputfile.h"
#include "taintdag/sink.h"
#include "taintdag/stream_offset.h"
#include "taintdag/string_table.h"
#include "taintdag/taint_source.h"

namespace td = taintdag;
using std::string;

static std::mt19937_64 rng;
static uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
static const char *kind = "?";
static long ops = 0, full = 0, seedno = 0;

[[noreturn]] static void done() {
  printf("ok %s %ld ops=%ld full=%ld\n", kind, seedno, ops, full);
  fflush(stdout);
  _exit(0);
}
[[noreturn]] static void bad(const string &s) {
  printf("BAD %s %ld after %ld operations: %s\n", kind, seedno, ops, s.c_str());
  fflush(stdout);
  _exit(9);
}
#define CHECK(c, msg)                                                          \
  do {                                                                         \
    if (!(c))                                                                  \
      bad(msg);                                                                \
  } while (0)
static string num(uint64_t n) { return std::to_string(n); }

// What an operation that may run out of space is expected to do.
static bool may_exit = false;
static std::function<void()> look; // everything recorded so far is in place
static void on_error(int) {
  if (!may_exit)
    bad("stopped with an error though there was room");
  full = 1;
  if (look)
    look();
  done();
}

struct Block { // exactly n bytes, nothing readable around them
  uint8_t *p;
  size_t n;
  explicit Block(size_t n) : p{(uint8_t *)calloc(1, n)}, n{n} {}
  std::span<uint8_t> span() { return {p, n}; }
};

struct Fake { // as much of an output file as the sections ask for
  td::StringTable *st = nullptr;
  template <typename T> T &section() { return *st; }
};
static string text(size_t n) {
  string s(n, 'x');
  for (auto &c : s)
    c = (char)rnd(256);
  return s;
}
static size_t len_for(size_t room) { // lengths around what fits
  switch (rnd(6)) {
  case 0: return 0;
  case 1: return room > 2 ? room - 2 : 0;
  case 2: return room > 3 ? room - 3 : 1;
  case 3: return room > 1 ? room - 1 : 2;
  case 4: return room;
  default: return rnd(40);
  }
}

template <typename ST> static void strings(size_t cap) {
  Block b(cap);
  Fake f;
  ST st(td::SectionArg<Fake>{f, b.span()});
  std::vector<std::pair<size_t, string>> model;
  size_t used = 0;
  look = [&] {
    CHECK(st.size() == used, "size is " + num(st.size()) + ", used are " + num(used));
    auto it = st.begin();
    for (auto &[o, s] : model) {
      CHECK(st.from_offset(o) == s, "a string changed");
      CHECK(*it == s, "iteration does not return the strings added");
      ++it;
    }
    CHECK(it == st.end(), "iteration does not end after the last string");
  };
  const size_t al = alignof(typename ST::length_t), lsz = sizeof(typename ST::length_t);
  for (int i = 0; i < 60; i++, ops++) {
    string s = text(std::min<size_t>(len_for(cap - used), 400));
    size_t need = (s.size() + lsz + al - 1) / al * al;
    may_exit = s.size() > ST::max_string_len;
    auto r = st.add_string(s);
    CHECK(!may_exit, "a string longer than the longest possible was accepted");
    if (need <= cap - used) {
      CHECK(r.has_value(), "no room for " + num(need) + " bytes with " + num(cap - used) + " left");
      CHECK(*r == used, "string at offset " + num(*r) + ", expected " + num(used));
      model.push_back({used, s});
      used += need;
    } else {
      full = 1;
      CHECK(!r.has_value(), "a string of " + num(need) + " bytes was accepted with " + num(cap - used) + " left");
    }
    look();
  }
}

static void sources(size_t cap) {
  size_t scap = rnd(3) ? 60000 : 200;
  Block sb(scap), b(cap * sizeof(td::SourceEntry));
  Fake f;
  td::StringTable st(td::SectionArg<Fake>{f, sb.span()});
  f.st = &st;
  auto sp = std::make_unique<td::Sources>(td::SectionArg<Fake>{f, b.span()});
  auto &so = *sp;
  struct E { string n; int fd; uint64_t size; bool closed; };
  std::vector<E> model;
  look = [&] {
    CHECK(so.count() == model.size() && so.size() == model.size() * sizeof(td::SourceEntry), "wrong number of sources");
    CHECK(st.size() <= scap, "strings beyond their space");
    size_t i = 0;
    for (auto &e : so) {
      auto &m = model[i++];
      CHECK(e.name(st) == m.n && e.fd == m.fd && e.size == m.size, "source " + num(i - 1) + " changed");
    }
  };
  auto expect = [&](int fd) -> long {
    for (size_t i = model.size(); i-- > 0;)
      if (model[i].fd == fd)
        return model[i].closed ? -1 : (long)i;
    return -1;
  };
  for (int i = 0; i < (int)cap + 40; i++, ops++) {
    int fd = rnd(4) ? (int)rnd(12) : -1;
    if (rnd(5) == 0) {
      so.close_fd(fd < 0 ? 3 : fd);
      long k = expect(fd < 0 ? 3 : fd);
      if (k >= 0)
        model[k].closed = true;
    }
    string n = text(rnd(30));
    uint64_t size = rnd(3) ? rnd(1000) : ~0ull;
    size_t before = st.size();
    auto r = so.add_source(n, fd, size);
    size_t need = (n.size() + 3) / 2 * 2;
    bool fits = model.size() < cap && need <= scap - before;
    if (fits) {
      CHECK(r && *r == model.size(), "source not added at the next index");
      model.push_back({n, fd, size, false});
    } else {
      full = 1;
      CHECK(!r, "a source was added beyond capacity");
    }
    if (i % 7 == 0 || i > (int)cap - 4)
      look();
    for (int q = 0; q < 12; q += 1 + rnd(4)) {
      auto m = so.mapping_idx(q);
      long k = expect(q);
      CHECK((m ? (long)*m : -1) == k, "descriptor " + num(q) + " belongs to another source than it should");
    }
  }
}

static void functions(size_t cap) {
  size_t scap = rnd(3) ? 60000 : 150;
  Block sb(scap), b(cap * sizeof(td::Function));
  Fake f;
  td::StringTable st(td::SectionArg<Fake>{f, sb.span()});
  f.st = &st;
  td::Functions fn(td::SectionArg<Fake>{f, b.span()});
  std::map<string, size_t> model;
  std::vector<string> names;
  look = [&] {
    CHECK(fn.count() == names.size(), "wrong number of functions");
    size_t i = 0;
    for (auto &e : fn)
      CHECK(st.from_offset(e.name_offset) == names[i++], "a function changed its name");
    CHECK(st.size() <= scap, "strings beyond their space");
  };
  for (int i = 0; i < (int)cap * 3 + 30; i++, ops++) {
    string n = names.size() && rnd(3) == 0 ? names[rnd(names.size())] : text(rnd(12));
    size_t before = st.size();
    auto r = fn.add_mapping(n);
    if (auto it = model.find(n); it != model.end()) {
      CHECK(r && *r == it->second, "a name changed its index");
      CHECK(st.size() == before, "a known name was stored again");
    } else if (names.size() < cap && (n.size() + 3) / 2 * 2 <= scap - before) {
      CHECK(r && *r == names.size(), "function not added at the next index");
      model[n] = names.size();
      names.push_back(n);
    } else {
      full = 1;
      CHECK(!r, "a function was added beyond capacity");
    }
    look();
  }
}

using Set = std::set<std::pair<int, int64_t>>;
// Labels that start far up: what is below is as if it had been handed out.
template <typename L> struct Far : L {
  using L::L;
  bool skip(size_t n) { // false if there is no way to
    if constexpr (requires(Far &f) { f.write(n); })
      return bool(this->write(n * sizeof(td::storage_t)));
    else
      return false;
  }
};
static void labels(size_t cap, size_t skip = 0) {
  // The whole of a real recording's labels is only reserved, not touched.
  const size_t bytes = cap * sizeof(td::storage_t);
  std::span<uint8_t> mem;
  if (skip) {
    auto p = (uint8_t *)mmap(nullptr, bytes + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mprotect(p, bytes, PROT_READ | PROT_WRITE))
      done(); // no room for it here
    mem = {p, bytes};
  } else
    mem = Block(bytes).span();
  Fake f;
  Far<td::Labels> la(td::SectionArg<Fake>{f, mem});
  if (skip && !la.skip(skip - 1))
    done();
  const size_t lo = skip ? skip : 1;      // the first label handed out here
  std::vector<Set> den(skip ? 0 : 1);     // denotation of each label handed out
  std::vector<td::storage_t> raw;
  if (!skip)
    raw.push_back(la.begin()[0]);
  const size_t base = skip;               // number of the first element of these
  const td::storage_t CF = (td::storage_t)1 << 62;
  auto decode_den = [&](size_t l) { // straight from the stored bits
    td::storage_t v = la.begin()[l];
    Set s;
    if (v >> 63) {
      s.insert({(int)(v & 0xff), (int64_t)((v >> 8) & ((1ull << 54) - 1))});
      return s;
    }
    size_t x = (v >> 31) & 0x7fffffff, y = v & 0x7fffffff;
    CHECK(x != y && x >= lo && y >= lo && x < l && y < l, "label " + num(l) + " refers to " + num(x) + " and " + num(y));
    if (x > y) {
      s = den[x - base];
      s.insert(den[y - base].begin(), den[y - base].end());
    } else
      for (size_t k = x; k <= y; k++)
        s.insert(den[k - base].begin(), den[k - base].end());
    return s;
  };
  look = [&] {
    CHECK(la.count() <= cap && la.size() == la.count() * 8, "labels beyond their space");
    CHECK(la.count() >= base + raw.size(), "labels were lost");
    for (size_t l = 0; l < raw.size(); l++)
      CHECK(((la.begin()[base + l] ^ raw[l]) & ~CF) == 0, "label " + num(base + l) + " changed its meaning");
  };
  const long brave = rnd(3) ? (long)rnd(300) : 0; // not beyond capacity before
  while (ops < 400) {
    size_t n = base + raw.size();
    may_exit = false;
    if (rnd(4) == 0 || n < lo + 2) {
      size_t len = rnd(3) ? 1 + rnd(9) : (rnd(2) ? cap - n : cap - n + 1);
      if (!len)
        len = 1;
      if (len > 5000)
        len = 50;
      if (ops < brave)
        len = std::min({len, cap - n, 1 + (size_t)rnd(9)});
      if (!len) {
        ops++;
        continue;
      }
      int64_t off = rnd(4) ? (int64_t)rnd(1000) : (((int64_t)1 << 54) - (int64_t)len + (rnd(20) == 0));
      int src = (int)rnd(255);
      may_exit = len > cap - n || off + (int64_t)len > ((int64_t)1 << 54);
      auto r = la.create_source_labels(src, off, len);
      CHECK(!may_exit, "labels were created beyond capacity");
      CHECK(r.first == n && r.second == n + len - 1, "source labels are not the next ones");
      CHECK(la.count() == n + len, "wrong number of labels");
      for (size_t i = 0; i < len; i++) {
        CHECK(la.begin()[n + i] == (((td::storage_t)1 << 63) | (td::storage_t)(off + i) << 8 | src), "source label " + num(n + i) + " has the wrong record");
        den.push_back({{src, off + (int64_t)i}});
        raw.push_back(la.begin()[n + i]);
      }
    } else if (rnd(8) == 0) {
      size_t c = lo + rnd(n - lo);
      la.affects_control_flow(c);
      std::set<size_t> seen;
      std::function<void(size_t)> marked = [&](size_t l) {
        if (!seen.insert(l).second)
          return;
        td::storage_t v = la.begin()[l];
        CHECK(v & CF, "label " + num(l) + ", part of " + num(c) + ", is not marked");
        if (v >> 63)
          return;
        size_t x = (v >> 31) & 0x7fffffff, y = v & 0x7fffffff;
        if (x > y)
          marked(x), marked(y);
        else
          for (size_t k = x; k <= y; k++)
            marked(k);
      };
      marked(c);
    } else {
      size_t x = lo + rnd(n - lo), y = rnd(3) ? lo + rnd(n - lo) : std::min(n - 1, x + 1);
      Set want = den[x - base];
      want.insert(den[y - base].begin(), den[y - base].end());
      may_exit = n == cap; // an existing label may do
      size_t r = la.union_taint(x, y);
      CHECK(la.count() <= n + 1, "a union made several labels");
      if (la.count() == n + 1) {
        CHECK(!may_exit, "a label was created beyond capacity");
        CHECK(r == n, "a label was made and another returned");
        den.push_back({});
        den[n - base] = decode_den(n);
        raw.push_back(la.begin()[n]);
      }
      CHECK(r >= lo && r < base + raw.size(), "union returned a label that does not exist");
      CHECK(den[r - base] == want, "union of " + num(x) + " and " + num(y) + " does not stand for their bytes");
    }
    look();
    ops++;
  }
}

// What is stored for a label, over the whole range of values.
static uint32_t some_label() {
  switch (rnd(4)) {
  case 0: return (uint32_t)(0x7fffffff - rnd(5));
  case 1: return (uint32_t)((1ull << (1 + rnd(31))) - rnd(3)) & 0x7fffffff;
  default: return (uint32_t)(rng() >> (33 + rnd(30)));
  }
}
static void encoding() {
  for (; ops < 3000; ops++) {
    bool cf = rnd(2);
    td::storage_t want;
    td::Taint t = td::SourceTaint(0, 0);
    if (rnd(3) == 0) {
      int i = (int)rnd(256);
      int64_t o = rnd(3) ? (int64_t)(rng() >> (10 + rnd(54))) : ((int64_t)1 << 54) - 1 - (int64_t)rnd(3);
      t = td::SourceTaint(i, o, cf);
      want = (td::storage_t)1 << 63 | (td::storage_t)o << 8 | (td::storage_t)i;
    } else {
      uint32_t a = some_label(), b = some_label();
      if (a > b)
        std::swap(a, b);
      if (!a || b - a < 2)
        continue;
      if (rnd(2)) {
        t = td::RangeTaint(a, b, cf);
        want = (td::storage_t)a << 31 | b;
      } else {
        t = rnd(2) ? td::UnionTaint(a, b, cf) : td::UnionTaint(b, a, cf);
        want = (td::storage_t)b << 31 | a;
      }
    }
    td::storage_t plain = want, full = want | (td::storage_t)1 << 62;
    if (cf)
      want = full;
    td::storage_t e = td::encode(t);
    CHECK(e == want, "stored as " + num(e) + " instead of " + num(want));
    CHECK(td::decode(e) == t, num(e) + " is not read as what was stored");
    CHECK(td::is_source_taint(e) == (e >> 63 != 0), "kind of " + num(e) + " is wrong");
    CHECK(td::check_affects_control_flow(e) == cf, "mark of " + num(e) + " is wrong");
    CHECK(td::add_affects_control_flow(e) == full, "marking changes " + num(e));
    CHECK(td::equal_ignore_cf(plain, full) && td::equal_ignore_cf(full, plain), "a mark makes labels differ");
    CHECK(!td::equal_ignore_cf(e, e ^ (td::storage_t)1 << (rnd(62))), "different labels are taken for equal");
    CHECK(!td::equal_ignore_cf(e, e ^ (td::storage_t)1 << 63), "different labels are taken for equal");
  }
}

static void sinks(size_t cap) {
  using S = td::TaintSink;
  Block b(cap * sizeof(td::SinkLogEntry));
  Fake f;
  S s(td::SectionArg<Fake>{f, b.span()});
  std::vector<std::tuple<int64_t, uint32_t, int>> model;
  look = [&] {
    CHECK(s.count() == model.size(), "wrong number of output records");
    size_t i = 0;
    for (auto &e : s) {
      auto &[o, l, k] = model[i++];
      CHECK(e.offset == o && e.label == l && e.sink == k, "an output record changed");
    }
  };
  for (; ops < (long)cap + 20; ops++) {
    int64_t o = (int64_t)(rng() >> (1 + rnd(60)));
    uint32_t l = (uint32_t)(rng() >> (33 + rnd(30)));
    int k = (int)rnd(256);
    s.log_single(o, l, k);
    if (model.size() < cap)
      model.push_back({o, l, k});
    else
      full = 1;
    look();
  }
}

static void events(size_t cap) {
  Block b(cap * sizeof(td::Event));
  Fake f;
  td::Events ev(td::SectionArg<Fake>{f, b.span()});
  std::vector<std::pair<int, int>> model;
  look = [&] {
    CHECK(ev.count() == model.size(), "wrong number of events");
    size_t i = 0;
    for (auto &e : ev) {
      CHECK((int)e.kind == model[i].first && e.function == model[i].second, "an event changed");
      i++;
    }
  };
  for (;; ops++) {
    auto k = rnd(2) ? td::Event::kind_t::entry : td::Event::kind_t::exit;
    int fn = rnd(3) ? (int)rnd(40) : (int)rnd(65536);
    may_exit = model.size() == cap;
    ev.log_fn_event(k, fn);
    CHECK(!may_exit, "an event beyond capacity was accepted");
    model.push_back({(int)k, fn});
    look();
  }
}

static void cflog(size_t cap) {
  Block b(cap);
  Fake f;
  td::ControlFlowLog cl(td::SectionArg<Fake>{f, b.span()});
  std::vector<uint8_t> model;
  auto put = [&](std::vector<uint8_t> &v, uint32_t x) {
    while (x >= 128) {
      v.push_back(128 | (x & 127));
      x >>= 7;
    }
    v.push_back((uint8_t)x);
  };
  look = [&] {
    CHECK(cl.size() == model.size(), "log has " + num(cl.size()) + " bytes, expected " + num(model.size()));
    CHECK(model.empty() || !memcmp(b.p, model.data(), model.size()), "the log changed");
  };
  auto value = [&] {
    uint32_t x = rnd(2) ? (uint32_t)(rng() >> rnd(64)) : (1u << rnd(32)) - (uint32_t)rnd(2);
    return x;
  };
  for (;; ops++) {
    uint32_t id = value(), l = value() & 0x7fffffff;
    int k = (int)rnd(3);
    auto m = model;
    m.push_back((uint8_t)k);
    put(m, id);
    if (k == 2)
      put(m, l);
    may_exit = m.size() > cap;
    if (k == 0)
      cl.enter_function(id);
    else if (k == 1)
      cl.leave_function(id);
    else
      cl.tainted_control_flow(l, id);
    CHECK(!may_exit, "an entry beyond capacity was accepted");
    model = m;
    look();
  }
}

template <size_t Cap, typename B> static void bitmap() {
  using S = td::BitmapSectionBase<5, Cap, B>;
  Block b(S::allocation_size);
  S s(b.span());
  std::vector<bool> model(Cap);
  size_t top = 0;
  const size_t per = sizeof(B) * 8;
  look = [&] {
    for (size_t i = 0; i < Cap; i++)
      CHECK(s.is_set(i) == model[i], "bit " + num(i) + " is " + num(s.is_set(i)));
    CHECK(s.size() == top * sizeof(B), "size is " + num(s.size()) + ", expected " + num(top * sizeof(B)));
    for (size_t i = Cap; i < S::allocation_size * 8; i++)
      CHECK(!(b.p[i / 8] >> (i % 8) & 1), "a bit beyond capacity is set");
  };
  auto used = [&](size_t bit) { top = std::max(top, bit / per + 1); };
  int n = 25;
  for (int i = 0; i < n; i++, ops++) {
    bool over = i == n - 1;
    switch (rnd(3)) {
    case 0: {
      size_t k = over ? Cap + rnd(3) : rnd(Cap);
      may_exit = k >= Cap;
      bool was = s.set(k);
      CHECK(!may_exit, "a bit beyond capacity was set");
      CHECK(was == model[k], "set does not tell whether the bit was set before");
      model[k] = true;
      used(k);
      break;
    }
    case 1: {
      size_t k = over ? Cap + rnd(3) : rnd(Cap);
      may_exit = k >= Cap;
      bool v = s.is_set(k);
      CHECK(!may_exit, "a bit beyond capacity was read");
      CHECK(v == model[k], "wrong bit");
      break;
    }
    default: {
      size_t k = rnd(Cap), len = rnd(3) ? rnd(Cap - k + 1) : Cap - k;
      if (rnd(3) == 0)
        len = std::min<size_t>(len, 1 + rnd(3));
      if (rnd(4) == 0) { // bucket boundaries
        k = k / per * per;
        len = std::min<size_t>(Cap - k, per * (1 + rnd(2)));
      }
      if (over)
        len = rnd(4) ? Cap - k + 1 + rnd(70) : ~(size_t)0 - rnd(2 * Cap);
      may_exit = len > Cap - k;
      s.set_range(k, len);
      CHECK(!may_exit, "bits beyond capacity were set");
      for (size_t j = 0; j < len; j++)
        model[k + j] = true;
      if (len)
        used(k + len - 1);
    }
    }
    look();
  }
}

template <size_t N> static void deq() {
  td::utils::LabelDeq<N> q;
  std::deque<uint32_t> m;
  for (; ops < 3000; ops++) {
    CHECK(q.empty() == m.empty(), "emptiness differs");
    size_t want = rnd(4) ? N / 2 + 1 : 3 * N;
    if (m.empty() || rnd(2 * want) >= m.size()) {
      uint32_t v = (uint32_t)rng();
      q.push_back(v);
      m.push_back(v);
    } else {
      uint32_t v = q.pop_front();
      CHECK(v == m.front(), "labels come out in another order");
      m.pop_front();
    }
  }
}

// Output files made of sections of awkward sizes and alignments.
template <uint8_t Tag, size_t Size, size_t Align> struct Raw {
  static constexpr uint8_t tag{Tag};
  static constexpr size_t allocation_size{Size};
  static constexpr size_t align_of{Align};
  std::span<uint8_t> r;
  size_t used = 0;
  template <typename OF> Raw(td::SectionArg<OF> a) : r{a.range} {}
  size_t size() const { return used; }
};
template <typename... S> static void layout() {
  char name[] = "/tmp/ptsectXXXXXX";
  int fd = mkstemp(name);
  close(fd);
  std::vector<std::vector<uint8_t>> want;
  std::vector<size_t> sizes;
  {
    td::OutputFile<S...> of{std::filesystem::path{name}};
    size_t i = 0;
    auto fill = [&](auto &s, size_t size, size_t align) {
      CHECK(s.r.size() >= size, "a section got less space than it asked for");
      CHECK((uintptr_t)s.r.data() % align == 0, "section " + num(i) + " is not aligned to " + num(align));
      s.used = rnd(3) ? s.r.size() : rnd(s.r.size() + 1);
      memset(s.r.data(), 0x11 * (int)++i, s.r.size());
      want.emplace_back(s.r.size(), 0x11 * (int)i);
      sizes.push_back(s.used);
      ops++;
    };
    (fill(of.template section<S>(), S::allocation_size, S::align_of), ...);
    i = 0;
    auto again = [&](auto &s) {
      CHECK(!memcmp(s.r.data(), want[i].data(), want[i].size()), "sections overlap");
      i++;
    };
    (again(of.template section<S>()), ...);
  }
  FILE *f = fopen(name, "rb");
  std::vector<uint8_t> d(1 << 20);
  size_t n = fread(d.data(), 1, d.size(), f);
  fclose(f);
  unlink(name);
  uint16_t cnt;
  CHECK(n >= 8 && !memcmp(d.data(), "TDAG", 4), "no header");
  memcpy(&cnt, &d[6], 2);
  CHECK(cnt == sizeof...(S), "wrong section count");
  for (size_t k = 0; k < cnt; k++) {
    uint64_t off, size;
    memcpy(&off, &d[8 + 24 * k + 8], 8);
    memcpy(&size, &d[8 + 24 * k + 16], 8);
    CHECK(off >= 8 + 24 * cnt && off + want[k].size() <= n, "section " + num(k) + " lies outside the file");
    CHECK(size == sizes[k], "section " + num(k) + " has size " + num(size) + " in the header");
    CHECK(!memcmp(&d[off], want[k].data(), size), "section " + num(k) + " is not where the header says");
  }
}

static void offsets() {
  auto so = std::make_unique<td::StreamOffset<20>>();
  std::vector<int64_t> m(20);
  for (; ops < 300; ops++) {
    size_t k = rnd(ops > 250 ? 22 : 20), n = rnd(5) ? rnd(50) : 0;
    may_exit = k >= 20;
    auto r = so->increase(k, n);
    CHECK(!may_exit, "an offset of a source that cannot exist");
    CHECK(r == m[k], "stream offset " + num(r) + ", expected " + num(m[k]));
    m[k] += n;
  }
}

// Threads set neighbouring bits at the same time, many rounds.
static void mtbitmap() {
  constexpr size_t Cap = 2048;
  using S = td::BitmapSectionBase<5, Cap, uint64_t>;
  const int T = 4, ROUNDS = 4000;
  Block b(S::allocation_size);
  std::unique_ptr<S> s;
  std::atomic<int> round{0}, left{0};
  std::vector<std::pair<size_t, size_t>> job(T);
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      for (int r = 1; r <= ROUNDS; r++) {
        for (int n = 0; round.load(std::memory_order_acquire) < r; n++)
          if (n > 3000)
            std::this_thread::yield();
        auto [from, n] = job[t];
        if (n == 1)
          s->set(from);
        else
          s->set_range(from, n);
        left.fetch_sub(1);
      }
    });
  for (int r = 1; r <= ROUNDS; r++, ops++) {
    memset(b.p, 0, b.n);
    s = std::make_unique<S>(b.span());
    std::vector<size_t> order{0, 1, 2, 3};
    std::shuffle(order.begin(), order.end(), rng);
    size_t at = rnd(1000);
    std::vector<bool> model(Cap);
    for (auto t : order) {
      size_t n = rnd(3) ? 1 + rnd(70) : 1 + rnd(6);
      job[t] = {at, n};
      for (size_t i = 0; i < n; i++)
        model[at + i] = true;
      at += n;
    }
    left = T;
    round.store(r, std::memory_order_release);
    for (int n = 0; left.load() > 0; n++)
      if (n > 3000)
        std::this_thread::yield();
    for (size_t i = 0; i < Cap; i++)
      CHECK(s->is_set(i) == model[i], "bits set at the same time: bit " + num(i) + " is " + num(s->is_set(i)));
    CHECK(s->size() == ((at - 1) / 64 + 1) * 8, "bits set at the same time: size is " + num(s->size()) + ", bits up to " + num(at - 1) + " are set");
  }
  for (auto &t : th)
    t.join();
}

// Threads use all sections at the same time, small enough for some to fill up.
static void mtmix() {
  const int T = 4, ROUNDS = 600, N = 10;
  struct Step { int what; long a, b, r; };
  struct World {
    size_t fcap, scap, kcap;
    Block stb{8192}, fb, sb, lb{600 * 8}, kb, eb{N * 4 * 4}, cb{N * 4 * 8};
    Fake f;
    td::StringTable st;
    td::Functions fn;
    td::Sources so;
    td::Labels la;
    td::TaintSink si;
    td::Events ev;
    td::ControlFlowLog cl;
    td::StreamOffset<4> of;
    World(size_t fc, size_t sc, size_t kc)
        : fcap{fc}, scap{sc}, kcap{kc}, fb{fc * sizeof(td::Function)}, sb{sc * sizeof(td::SourceEntry)}, kb{kc * sizeof(td::SinkLogEntry)},
          st{td::SectionArg<Fake>{f, stb.span()}}, fn{td::SectionArg<Fake>{fix(f, st), fb.span()}}, so{td::SectionArg<Fake>{f, sb.span()}},
          la{td::SectionArg<Fake>{f, lb.span()}}, si{td::SectionArg<Fake>{f, kb.span()}}, ev{td::SectionArg<Fake>{f, eb.span()}},
          cl{td::SectionArg<Fake>{f, cb.span()}} {}
    static Fake &fix(Fake &f, td::StringTable &st) {
      f.st = &st;
      return f;
    }
    ~World() {
      for (auto *p : {stb.p, fb.p, sb.p, lb.p, kb.p, eb.p, cb.p})
        free(p);
    }
  };
  std::unique_ptr<World> w;
  std::vector<std::vector<Step>> plan(T);
  std::atomic<int> round{0}, left{0};
  std::vector<std::thread> th;
  auto fname = [](long a) { return "function" + num(a); };
  auto sname = [](int t, long a) { return "source" + num(t) + "/" + num(a) + string(a % 7, 'x'); };
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      for (int r = 1; r <= ROUNDS; r++) {
        for (int n = 0; round.load(std::memory_order_acquire) < r; n++)
          if (n > 3000)
            std::this_thread::yield();
        for (auto &x : plan[t]) {
          switch (x.what) {
          case 0: {
            string n = fname(x.a);
            auto i = w->fn.add_mapping(n);
            x.r = i ? (long)*i : -1;
            break;
          }
          case 1: {
            auto i = w->so.add_source(sname(t, x.a), 10 + t, x.b);
            x.r = i ? (long)*i : -1;
            if (i) {
              auto m = w->so.mapping_idx(10 + t);
              if (!m || *m != *i)
                x.r = -2;
              if (x.b % 2) {
                w->so.close_fd(10 + t);
                if (w->so.mapping_idx(10 + t))
                  x.r = -3;
              }
            }
            break;
          }
          case 2: {
            auto g = w->la.create_source_labels(t, x.a, x.b);
            x.r = g.second == g.first + x.b - 1 ? (long)g.first : -1;
            if (x.r > 0 && x.b > 2) {
              w->la.affects_control_flow(g.first + 1);
              auto u = w->la.union_taint(g.first, g.first + 2);
              x.r |= (long)u << 32;
            }
            break;
          }
          case 3: w->si.log_single(x.a, (uint32_t)x.b, t); break;
          case 4: w->ev.log_fn_event(x.a % 2 ? td::Event::kind_t::entry : td::Event::kind_t::exit, (uint16_t)x.b); break;
          case 5: w->cl.enter_function((uint32_t)x.b); break;
          default: x.r = w->of.increase(1, x.a);
          }
        }
        left.fetch_sub(1);
      }
    });
  for (int r = 1; r <= ROUNDS; r++, ops++) {
    w = std::make_unique<World>(1 + rnd(8), 1 + rnd(16), 1 + rnd(16));
    int focus = rnd(2) ? (int)rnd(7) : -1;
    for (int t = 0; t < T; t++) {
      plan[t].clear();
      for (int i = 0; i < N; i++) {
        int k = focus >= 0 && rnd(4) ? focus : (int)rnd(7);
        long a = k == 0 ? (long)rnd(8) : k == 1 ? i : k == 3 ? (long)rnd(1000000) : k == 6 ? 1 + (long)rnd(9) : (long)rnd(100);
        long b = k == 2 ? 1 + (long)rnd(6) : t * 1000 + i + 1;
        plan[t].push_back({k, a, b, 0});
      }
    }
    left = T;
    round.store(r, std::memory_order_release);
    for (int n = 0; left.load() > 0; n++)
      if (n > 3000)
        std::this_thread::yield();
    // functions
    std::map<string, long> names;
    for (auto &p : plan)
      for (auto &x : p)
        if (x.what == 0 && x.r >= 0) {
          auto [it, fresh] = names.insert({fname(x.a), x.r});
          CHECK(fresh || it->second == x.r, "threads got different indices for one function name");
          CHECK(x.r < (long)w->fn.count() && w->st.from_offset(w->fn.begin()[x.r].name_offset) == fname(x.a), "a function index leads to another name");
        }
    CHECK(w->fn.count() == names.size(), num(w->fn.count()) + " functions recorded, " + num(names.size()) + " names were given an index");
    for (auto &p : plan)
      for (auto &x : p)
        if (x.what == 0 && x.r < 0)
          CHECK(w->fn.count() == w->fcap, "a function was refused though there was room");
    // sources
    std::set<long> seen;
    bool refused = false;
    for (int t = 0; t < T; t++)
      for (auto &x : plan[t])
        if (x.what == 1) {
          CHECK(x.r != -2, "the descriptor of a source just added belongs to another");
          CHECK(x.r != -3, "the descriptor of a closed source still belongs to one");
          if (x.r < 0) {
            refused = true;
            continue;
          }
          CHECK(seen.insert(x.r).second, "two sources share an index");
          CHECK(x.r < (long)w->so.count(), "a source is not recorded");
          auto e = w->so.begin()[x.r];
          CHECK(e.name(w->st) == sname(t, x.a) && e.fd == 10 + t && e.size == (uint64_t)x.b, "a source is recorded with the wrong contents");
        }
    CHECK(seen.size() == w->so.count() && (!refused || w->so.count() == w->scap), "the number of sources is wrong");
    // labels
    size_t labels = 1;
    std::set<long> ls;
    for (int t = 0; t < T; t++)
      for (auto &x : plan[t])
        if (x.what == 2) {
          CHECK(x.r > 0, "the labels of one read are not contiguous");
          long first = x.r & 0xffffffff, u = x.r >> 32;
          for (long i = 0; i < x.b; i++) {
            CHECK(ls.insert(first + i).second, "two reads share a label");
            auto v = w->la.begin()[first + i];
            CHECK((v & ~((td::storage_t)1 << 62)) == (((td::storage_t)1 << 63) | (td::storage_t)(x.a + i) << 8 | t), "a source label has the wrong record");
            CHECK((v >> 62 & 1) == (u && i == 1), "a label is wrongly marked");
          }
          labels += x.b;
          if (u) {
            CHECK(ls.insert(u).second, "two unions share a label");
            auto v = w->la.begin()[u];
            long p = v >> 31 & 0x7fffffff, q = v & 0x7fffffff;
            CHECK(p == first + 2 && q == first, "a union has the wrong record");
            labels++;
          }
        }
    CHECK(w->la.count() == labels, num(w->la.count()) + " labels recorded, expected " + num(labels));
    // outputs, events, log: each thread's in order, nothing else
    std::vector<size_t> pos(T);
    auto next = [&](int t, int what) -> Step * {
      while (pos[t] < plan[t].size() && plan[t][pos[t]].what != what)
        pos[t]++;
      return pos[t] < plan[t].size() ? &plan[t][pos[t]++] : nullptr;
    };
    size_t total = 0;
    for (auto &p : plan)
      for (auto &x : p)
        total += x.what == 3;
    CHECK(w->si.count() == std::min(total, w->kcap), "the number of outputs is wrong");
    for (auto &e : w->si) {
      CHECK(e.sink < T, "an output is torn");
      auto x = next(e.sink, 3);
      CHECK(x && x->a == e.offset && x->b == (long)e.label, "an output is torn, lost or out of order");
    }
    pos.assign(T, 0);
    for (auto &e : w->ev) {
      int t = e.function / 1000;
      CHECK(t < T, "an event is torn");
      auto x = next(t, 4);
      CHECK(x && x->b == e.function && (e.kind == td::Event::kind_t::entry) == (x->a % 2), "an event is torn, lost or out of order");
    }
    for (int t = 0; t < T; t++)
      CHECK(!next(t, 4), "an event is lost");
    pos.assign(T, 0);
    size_t at = 0;
    while (at < w->cl.size()) {
      CHECK(w->cb.p[at++] == 0, "the control-flow log is torn");
      long id = w->cb.p[at] & 127;
      if (w->cb.p[at++] & 128)
        id |= (long)w->cb.p[at++] << 7;
      CHECK(id / 1000 < T, "the control-flow log is torn");
      auto x = next(id / 1000, 5);
      CHECK(x && x->b == id, "an entry of the control-flow log is torn, lost or out of order");
    }
    for (int t = 0; t < T; t++)
      CHECK(!next(t, 5), "an entry of the control-flow log is lost");
    // stream offsets: disjoint, without gaps
    std::map<long, long> spans;
    for (auto &p : plan)
      for (auto &x : p)
        if (x.what == 6)
          CHECK(spans.insert({x.r, x.a}).second, "two reads got the same stream offset");
    long off = 0;
    for (auto &[a, n] : spans) {
      CHECK(a == off, "stream offsets overlap or leave a gap");
      off += n;
    }
  }
  for (auto &t : th)
    t.join();
}

static void one(const string &k) {
  if (k == "strings") {
    size_t cap = 2 + rnd(600);
    switch (rnd(3)) {
    case 0: strings<td::StringTableBase<uint8_t, uint8_t, 3, 100>>(std::min<size_t>(cap, 255)); break;
    case 1: strings<td::StringTableBase<uint16_t, uint8_t, 3, 100>>(cap); break;
    default: strings<td::StringTable>(cap);
    }
  } else if (k == "sources")
    sources(rnd(3) ? 1 + rnd(20) : 200 + rnd(56));
  else if (k == "functions")
    functions(1 + rnd(30));
  else if (k == "labels")
    labels(1 + (rnd(2) ? rnd(30) : rnd(400)));
  else if (k == "farlabels") {
    const size_t cap = (size_t)1 << 31;
    size_t at = rnd(2) ? cap - 5 - rnd(600) : ((size_t)1 << (20 + rnd(11))) - rnd(300);
    labels(cap, at);
  } else if (k == "encoding")
    encoding();
  else if (k == "sinks")
    sinks(1 + rnd(60));
  else if (k == "events")
    events(1 + rnd(60));
  else if (k == "cflog")
    cflog(1 + rnd(200));
  else if (k == "offsets")
    offsets();
  else if (k == "deq") {
    switch (rnd(5)) {
    case 0: deq<1>(); break;
    case 1: deq<2>(); break;
    case 2: deq<3>(); break;
    case 3: deq<7>(); break;
    default: deq<32>();
    }
  } else if (k == "bitmap") {
    switch (rnd(16)) {
    case 0: bitmap<1, uint8_t>(); break;
    case 1: bitmap<8, uint8_t>(); break;
    case 2: bitmap<9, uint8_t>(); break;
    case 3: bitmap<100, uint8_t>(); break;
    case 4: bitmap<31, uint16_t>(); break;
    case 5: bitmap<32, uint16_t>(); break;
    case 6: bitmap<33, uint16_t>(); break;
    case 7: bitmap<100, uint32_t>(); break;
    case 8: bitmap<128, uint32_t>(); break;
    case 9: bitmap<1, uint64_t>(); break;
    case 10: bitmap<63, uint64_t>(); break;
    case 11: bitmap<64, uint64_t>(); break;
    case 12: bitmap<65, uint64_t>(); break;
    case 13: bitmap<128, uint64_t>(); break;
    case 14: bitmap<130, uint64_t>(); break;
    default: bitmap<1000, uint64_t>();
    }
  } else if (k == "mtbitmap") {
    mtbitmap();
  } else if (k == "mtmix") {
    mtmix();
  } else if (k == "layout") {
    switch (rnd(5)) {
    case 0: layout<Raw<1, 10, 2>, Raw<2, 64, 8>, Raw<3, 7, 1>, Raw<4, 16, 4>>(); break;
    case 1: layout<Raw<1, 1, 1>, Raw<2, 8, 8>, Raw<3, 1, 1>, Raw<4, 8, 8>, Raw<5, 3, 1>, Raw<6, 32, 16>>(); break;
    case 2: layout<Raw<1, 4096, 8>, Raw<2, 4, 4>, Raw<3, 4096, 8>>(); break;
    case 3: layout<Raw<1, 5, 1>>(); break;
    default: layout<Raw<1, 6, 2>, Raw<2, 16, 8>, Raw<3, 2, 2>, Raw<4, 24, 8>>(); break;
    }
  } else {
    fprintf(stderr, "unknown kind\n");
    exit(2);
  }
}

int main(int argc, char **argv) {
  if (argc != 5)
    return 2;
  kind = argv[1];
  long seed = atol(argv[2]), from = atol(argv[3]), count = atol(argv[4]);
  for (long i = from; i < from + count; i++) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      seedno = i;
      rng.seed(std::hash<string>{}(string(kind)) ^ (uint64_t)(seed * 1000003 + i));
      freopen("/dev/null", "w", stderr);
      td::error_function = on_error;
      one(kind);
      look = nullptr;
      done();
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 9)))
      printf("DIED %s %ld status %d signal %d\n", kind, i, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  }
}
