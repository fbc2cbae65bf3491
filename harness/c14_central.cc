// C14: the central free list over real spans and a modelled page heap:
// sequential histories with every count compared, and every schedule of two
// or three threads.
#include <sys/mman.h>

#include "lib/mc.h"
#include "tcmalloc/central_freelist.h"
#include "tcmalloc/common.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];
namespace tcmalloc::tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock pageheap_lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
HeapPartitioningMode Parameters::heap_partitioning_mode() { return HeapPartitioningMode::kOff; }
}

// ---- the modelled page heap ----
static const int kSlots = 24;
static const int kMaxObj = 1024;
static size_t osize, opages, ocount, obatch;
enum : unsigned char { kFree, kOut };  // objects: with the list / handed out
struct Slot {
  alignas(64) char raw[sizeof(Span)];
  unsigned char at[kMaxObj];
  bool live;
  int out;
};
static Slot slots[kSlots];
static char* mem;
static int norder;  // spans given out
static int allocated_spans, returned_spans, refused;
static int refuse_at = -1;             // refuse the n-th request from now on
static bool refuse_all;
static long hook_in, hook_out;
static size_t step_bytes() { return opages * kPageSize; }
static char* base(int s) { return mem + s * step_bytes(); }
static Span* span(int s) { return reinterpret_cast<Span*>(slots[s].raw); }
static int slot_of(const Span* p) {
  long d = reinterpret_cast<const char*>(p) - reinterpret_cast<const char*>(slots);
  VX_CHECK(d >= 0 && d < (long)sizeof slots && d % sizeof(Slot) == 0, "a span pointer from nowhere: %p", p);
  return d / sizeof(Slot);
}
static void locate(void* p, int* s, int* i) {
  long d = static_cast<char*>(p) - mem;
  VX_CHECK(d >= 0 && d < (long)(kSlots * step_bytes()), "object %p lies outside all memory obtained", p);
  *s = d / step_bytes();
  long o = d % step_bytes();
  VX_CHECK(slots[*s].live, "object %p lies in a span that was given back", p);
  VX_CHECK(o % osize == 0 && o / osize < ocount, "an object at offset %ld of its span, objects have %zu bytes, the span has %zu", o, osize, ocount);
  *i = o / osize;
}
struct Heap {
  static void InvokeInsertRangeHook(size_t cls, absl::Span<void*> b) {
    mc::Off o;
    VX_CHECK(cls == 1, "hook for class %zu", cls);
    hook_in += b.size();
  }
  static void InvokeRemoveRangeHook(size_t cls, absl::Span<void*> b) {
    mc::Off o;
    VX_CHECK(cls == 1, "hook for class %zu", cls);
    hook_out += b.size();
  }
  static uint64_t now;
  static uint64_t clock_now() { return now; }
  static double clock_frequency() { return 1000.0; }
  static size_t class_to_size(int c) { return osize; }
  static Length class_to_pages(int c) { return Length(opages); }
  static size_t num_objects_to_move(int c) { return obatch; }
  static void MapObjectsToSpans(absl::Span<void*> b, Span** out, int cls) {
    mc::Off o;
    for (size_t k = 0; k < b.size(); ++k) {
      int s, i;
      locate(b[k], &s, &i);
      out[k] = span(s);
    }
  }
  static Span* AllocateSpan(int cls, size_t objs, Length pages) {
    int s = 0;
    pageheap_lock.lock();
    {
      mc::Off o;
      VX_CHECK(cls == 1 && objs == ocount && pages == Length(opages), "a span of %zu objects, %zu pages asked for", objs, pages.raw_num());
      if (refuse_all || (refuse_at >= 0 && refuse_at-- == 0)) {
        ++refused;
        s = -1;
      } else {
        while (s < kSlots && slots[s].live) ++s;
        if (s == kSlots) vx::fail("harness error: spans");
        ++allocated_spans;
        slots[s].live = true;
        slots[s].out = 0;
        memset(slots[s].at, kFree, ocount);
        ++norder;
      }
    }
    pageheap_lock.unlock();
    if (s < 0) return nullptr;
    // writes below take part in the race detection: whoever still uses an
    // earlier incarnation of this span is found out
    memset(slots[s].raw, 0x5a, sizeof(Span));
    Span* p = new (slots[s].raw) Span(Range(PageIdContaining(base(s)), pages));
    memset(base(s), 0xa5, osize < 16 ? osize : 16);
    return p;
  }
  static void DeallocateSpans(size_t objs, absl::Span<Span*> spans) {
    int which[kMaxObjectsToMove];
    {
      mc::Off o;
      VX_CHECK(!spans.empty() && spans.size() <= kMaxObjectsToMove && objs == ocount, "%zu spans of %zu objects returned", spans.size(), objs);
      for (size_t k = 0; k < spans.size(); ++k) {
        int s = which[k] = slot_of(spans[k]);
        VX_CHECK(slots[s].live, "a span is returned to the page heap twice");
        VX_CHECK(slots[s].out == 0, "a span is returned to the page heap with %d of its objects in use", slots[s].out);
        slots[s].out = -1;  // not again
        ++returned_spans;
      }
    }
    for (size_t k = 0; k < spans.size(); ++k) {
      memset(slots[which[k]].raw, 0x5a, sizeof(Span));
      memset(base(which[k]), 0xdd, osize < 16 ? osize : 16);
    }
    pageheap_lock.lock();
    {
      mc::Off o;
      for (size_t k = 0; k < spans.size(); ++k) slots[which[k]].live = false;
    }
    pageheap_lock.unlock();
  }
};
uint64_t Heap::now = 1 << 20;
typedef central_freelist_internal::CentralFreeList<Heap> List;

static void set_kind(size_t size, size_t pages) {
  osize = size;
  opages = pages;
  ocount = pages * kPageSize / size;
  obatch = std::min<size_t>(32, std::max<size_t>(2, 65536 / size));
  for (auto& s : slots) s.live = false;
  norder = allocated_spans = returned_spans = refused = 0;
  refuse_at = -1;
  refuse_all = false;
  hook_in = hook_out = 0;
  if (!mem) {
    mem = static_cast<char*>(mmap(nullptr, (1ul << 27) + kPageSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    mem = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(mem) + kPageSize - 1) / kPageSize * kPageSize);
  }
}
// Takes up to n objects; they are marked as handed out.
static int take(List& l, int n, void** b) {
  for (int k = 0; k < n; ++k) b[k] = nullptr;
  int got = l.RemoveRange(absl::MakeSpan(b, n));
  mc::Off o;
  VX_CHECK(got >= 0 && got <= n, "asked for %d objects, got %d", n, got);
  for (int k = 0; k < got; ++k) {
    int s, i;
    locate(b[k], &s, &i);
    VX_CHECK(slots[s].at[i] == kFree, "object %d of a span is handed out although it is in use", i);
    slots[s].at[i] = kOut;
    ++slots[s].out;
  }
  // the program writes what it was given
  mc::on();
  for (int k = 0; k < got; ++k) memset(b[k], 0x11, osize < 16 ? osize : 16);
  mc::off();
  return got;
}
static void give(List& l, int n, void** b) {
  {
    mc::Off o;
    for (int k = 0; k < n; ++k) {
      int s, i;
      locate(b[k], &s, &i);
      const unsigned char* p = static_cast<unsigned char*>(b[k]);
      for (size_t q = 0; q < (osize < 16 ? osize : 16); ++q) VX_CHECK(p[q] == 0x11, "the list wrote into an object that was handed out");
      if (slots[s].at[i] != kOut) vx::fail("harness error: giving back what is not held");
      slots[s].at[i] = kFree;
      --slots[s].out;
    }
  }
  l.InsertRange(absl::MakeSpan(b, n));
}
static int width(unsigned v) { return 32 - __builtin_clz(v); }
// Compares every figure with what was handed out and returned.
static void books(List& l, const char* when) {
  long out = 0, live = 0;
  size_t hist[17] = {}, lists[8] = {}, nonempty = 0;
  for (auto& s : slots) {
    if (!s.live) continue;
    ++live;
    out += s.out;
    if (ocount == 1) continue;
    VX_CHECK(s.out > 0, "%s: a span with all its objects back was kept", when);
    ++hist[width(s.out)];
    if (s.out < (int)ocount) {
      ++nonempty;
      int a = s.out;
      ++lists[ocount <= 16 ? (a <= 8 ? 8 - a : 0) : 8 - std::min(width(a), 8)];
    }
  }
  VX_CHECK(live == allocated_spans - returned_spans, "%s: harness error", when);
  if (ocount == 1) {
    VX_CHECK(l.length() == 0, "%s: %zu free objects of a class with one object per span", when, l.length());
    VX_CHECK(hook_out - hook_in == out, "%s: hooks saw %ld objects out and %ld back, %ld are out", when, hook_out, hook_in, out);
    return;
  }
  VX_CHECK((long)l.length() == live * (long)ocount - out, "%s: %ld free objects reported, %ld spans of %zu were obtained and %ld objects are out", when, (long)l.length(), live, ocount, out);
  SpanStats st = l.GetSpanStats();
  VX_CHECK((long)st.num_spans_requested == allocated_spans && (long)st.num_spans_returned == returned_spans, "%s: %zu spans obtained and %zu returned reported, it is %d and %d", when, st.num_spans_requested, st.num_spans_returned, allocated_spans, returned_spans);
  VX_CHECK((long)st.obj_capacity == live * (long)ocount, "%s: capacity %zu objects in %ld spans", when, st.obj_capacity, live);
  VX_CHECK(l.OverheadBytes() == live * (step_bytes() % osize), "%s: overhead %zu", when, l.OverheadBytes());
  for (int w = 1; w <= 16; ++w) VX_CHECK(l.NumSpansWith(w) == hist[w], "%s: %zu spans with %d.. objects out reported, there are %zu", when, l.NumSpansWith(w), 1 << (w - 1), hist[w]);
  size_t sum = 0;
  for (int i = 0; i < 8; ++i) {
    size_t n = l.NumSpansInList(i);
    VX_CHECK(n == lists[i], "%s: %zu spans on list %d, %zu belong there", when, n, i, lists[i]);
    sum += n;
  }
  VX_CHECK(sum == nonempty, "%s: %zu spans on lists, %zu have free objects", when, sum, nonempty);
  VX_CHECK(hook_out - hook_in == out, "%s: hooks saw %ld objects out and %ld back, %ld are out", when, hook_out, hook_in, out);
}
struct Kind { size_t size, pages; };
static const Kind kKinds[] = {
    {8192, 1}, {4096, 1}, {8192, 3}, {2048, 1}, {2688, 1}, {1024, 1}, {512, 1}, {480, 1}, {64, 1}, {8, 1}, {16, 1}, {14336, 7}, {9472, 5}, {262144, 32}};
static List* fresh_list() {
  alignas(64) static char raw[sizeof(List)];
  memset(raw, 0, sizeof raw);
  List* l = new (raw) List();
  l->Init(1);
  return l;
}

static void history() {
  int which = choose(sizeof kKinds / sizeof *kKinds);
  set_kind(kKinds[which].size, kKinds[which].pages);
  List& l = *fresh_list();
  books(l, "at first");
  static void* held[kSlots * kMaxObj];
  int n = 0;
  void* b[kMaxObjectsToMove];
  const int max = std::min<int>(obatch, kMaxObjectsToMove);
  int depth = vx::thorough() ? 6 : 4;
#ifdef TCMALLOC_INTERNAL_LEGACY_LOCKING
  --depth;
#endif
  if (ocount <= 4) ++depth;
  uint64_t seq = 0;
  for (int d = 0; d < depth; ++d) {
    int o = choose(11);
    if (o < 5) {
      int want = o == 0 ? 1 : o == 1 ? 2 : o == 2 ? (int)std::min<size_t>(ocount, 128) : o == 3 ? (int)std::min<size_t>(ocount + 1, 128) : max;
      if (norder > kSlots - 2) return;
      refuse_all = choose(2);
      long freec = ocount == 1 ? 0 : (long)(allocated_spans - returned_spans) * (long)ocount - n;
      int a0 = allocated_spans, r0 = refused;
      int got = take(l, want, b);
      vx::op("%sremove %d = %d", refuse_all ? "(no memory) " : "", want, got);
      int expect;
      bool asks = ocount == 1 || freec < want;
      if (ocount == 1) expect = refuse_all ? 0 : 1;
      else if (freec >= want) expect = want;
      else expect = freec + (refuse_all ? 0 : (int)std::min<long>(want - freec, ocount));
      VX_CHECK(got == expect, "asked for %d with %ld free%s: got %d, expected %d", want, freec, refuse_all ? " and no memory" : "", got, expect);
      VX_CHECK((allocated_spans - a0) + (refused - r0) == asks, "%d spans were asked for to hand out %d with %ld free", (allocated_spans - a0) + (refused - r0), want, freec);
      if (refuse_all && !asks) return;  // the refusal made no difference
      refuse_all = false;
      for (int k = 0; k < got; ++k) held[n++] = b[k];
      // refill prefers the most-used spans; which object is up to the list
      for (int k = 0; k < got; ++k) seq = vx::mix(seq, (char*)b[k] - mem);
    } else {
      if (!n) return;
      int m = 0;
      int cap = std::min<int>(kMaxObjectsToMove, n);
      if (o == 5) b[m++] = held[--n];
      else if (o == 6) {  // oldest
        b[m++] = held[0];
        memmove(held, held + 1, --n * sizeof *held);
      } else if (o == 7) {  // newest batch
        while (m < cap && m < max) b[m++] = held[--n];
      } else if (o == 8) {  // oldest batch, in order
        while (m < cap && m < max) b[m] = held[m], ++m;
        memmove(held, held + m, (n -= m) * sizeof *held);
      } else if (o == 9) {  // every other one
        int q = 0;
        for (int k = 0; k < n; ++k)
          if (k % 2 == 0 && m < cap) b[m++] = held[k];
          else held[q++] = held[k];
        n = q;
      } else {  // from both ends, so that spans alternate
        while (m < cap && n > 0) {
          b[m++] = held[--n];
          if (m < cap && n > 0) {
            b[m++] = held[0];
            memmove(held, held + 1, --n * sizeof *held);
          }
        }
      }
      int live0 = 0;
      for (auto& s : slots) live0 += s.live;
      int r0 = returned_spans;
      give(l, m, b);
      int empty = 0, live1 = 0;
      for (auto& s : slots) live1 += s.live;
      empty = live0 - live1;
      VX_CHECK(returned_spans - r0 == empty, "harness error");
      vx::op("insert %d (kind %d), %d spans back", m, o, empty);
      seq = vx::mix(seq, o * 1000 + m);
    }
    vx::step();
    books(l, "after an operation");
    uint64_t h = vx::mix(which, seq);
    h = vx::mix(h, 77);
    vx::state(h);
  }
  // everything goes back
  while (n > 0) {
    int m = 0;
    while (m < (int)kMaxObjectsToMove && n > 0) b[m++] = held[--n];
    give(l, m, b);
    books(l, "while emptying");
  }
  VX_CHECK(allocated_spans == returned_spans, "%d of %d spans were not returned", allocated_spans - returned_spans, allocated_spans);
  VX_CHECK(l.length() == 0, "%zu objects left", l.length());
}

// Lifetimes and histograms of whole runs: every object of several spans out
// and back, in every order of the spans.
static void runs() {
  int which = choose(sizeof kKinds / sizeof *kKinds);
  set_kind(kKinds[which].size, kKinds[which].pages);
  List& l = *fresh_list();
  int spans = 1 + choose(3), order_kind = choose(5), ins = 1 + choose(4);
  static void* held[kSlots * kMaxObj];
  void* b[kMaxObjectsToMove];
  int n = 0, total = spans * ocount;
  int rem = choose(3);
  while (n < total) {
    int want = rem == 0 ? 1 : rem == 1 ? 7 : (int)kMaxObjectsToMove;
    if (want > total - n) want = total - n;
    int got = take(l, want, b);
    VX_CHECK(got > 0, "nothing handed out although there is memory");
    for (int k = 0; k < got; ++k) held[n++] = b[k];
  }
  VX_CHECK(allocated_spans == spans, "%d objects of %zu per span took %d spans", total, ocount, allocated_spans);
  books(l, "all out");
  for (int k = 0; k < n; ++k) {  // reorder
    int j = k;
    if (order_kind == 1) j = n - 1 - k;
    if (order_kind == 2) j = (k * 7 + 3) % n;
    if (order_kind == 3) j = k ^ 1;
    if (order_kind == 4) j = (k % spans) * ocount + k / spans;
    if (j > k && j < n) std::swap(held[k], held[j]);
  }
  int step = ins == 1 ? 1 : ins == 2 ? 2 : ins == 3 ? 33 : 128;
  for (int k = 0; k < n;) {
    int m = 0;
    while (m < step && k < n) b[m++] = held[k++];
    give(l, m, b);
    books(l, "while emptying");
    vx::step();
  }
  VX_CHECK(returned_spans == spans, "%d of %d spans were returned", returned_spans, spans);
  vx::state(vx::mix(which * 1000 + spans * 100 + order_kind * 10 + ins, rem));
}

// ---- schedules ----
static List* mcl;
static void probe_counts() {
  VX_CHECK(mcl->length() <= allocated_spans * ocount, "at some point %zd free objects reported in %d spans of %zu", (ssize_t)mcl->length(), allocated_spans, ocount);
}
static void threads() {
  static const Kind kMc[] = {{4096, 1}, {2048, 1}, {8192, 3}, {512, 1}, {8192, 1}, {8, 1}};
  int which = choose(6);
  set_kind(kMc[which].size, kMc[which].pages);
  List& l = *fresh_list();
  mcl = &l;
  // What each thread holds at first: slices of objects taken in order.
  void* h[3][160];
  int n[3] = {};
  void* spare[160];
  int nspare = 0;
  int st = choose(5);
  {
    void* b[128];
    auto fill = [&](int want, int t) {
      while (want > 0) {
        int got = take(l, want < 128 ? want : 128, b);
        for (int k = 0; k < got; ++k) (t < 3 ? h[t][n[t]++] : spare[nspare++]) = b[k];
        want -= got;
      }
    };
    int per = ocount > 4 ? 3 : ocount;
    if (st == 1) fill(1, 0), fill(1, 1);                    // one span shared
    if (st == 2) fill(per, 0), fill(per, 1), fill(1, 2);    // a span each
    if (st == 3) fill(per - 1 + (per == 1), 0), fill(2, 1), fill(1, 2);
    if (st == 4) {                                          // all of one span between two
      if (ocount > 16) return;
      for (size_t k = 0; k < ocount; ++k) fill(1, k % 2);
      fill(1, 2);
    }
  }
  int refuse = choose(3) - 1;
  mc::reset();
  refuse_at = refuse;
  auto op = [&](int t, int k) {
    if (k <= 2) {
      int want = k == 0 ? 1 : k == 1 ? 2 : (int)(ocount < 8 ? ocount + 1 : 4);
      n[t] += take(l, want, h[t] + n[t]);
    } else if (k == 3 || k == 4) {
      int m = k == 3 ? 1 : n[t];
      if (m > n[t]) m = n[t];
      if (m > 0) {
        n[t] -= m;
        give(l, m, h[t] + n[t]);
      }
    } else {
      size_t s = 0;
      for (int i = 6; i < 8; ++i) s = std::max(s, l.NumSpansInList(i));
      size_t len = l.length();
      (void)l.OverheadBytes();
      mc::Off o;
      VX_CHECK(s <= (size_t)allocated_spans && len <= allocated_spans * ocount, "statistics: %zu spans on a list, %zu free objects", s, len);
    }
  };
  static const int kA[][2] = {{4, 0}, {2, 3}, {3, 2}, {1, 4}};
  static const int kB[][2] = {{2, 4}, {4, 2}, {0, 0}, {3, 0}};
  static const int kC[] = {4, 2, 5};
  #if !defined(NDEBUG) || defined(TCMALLOC_INTERNAL_LEGACY_LOCKING)
  const int few = vx::thorough() ? 4 : 2;
#else
  const int few = 4;
#endif
  int a = choose(few), b = choose(4), c = choose(3);
  if (c == 2 && !vx::thorough() && (a > 1 || b > 1)) return;
  auto ta = [&] { op(0, kA[a][0]); op(0, kA[a][1]); };
  auto tb = [&] { op(1, kB[b][0]); op(1, kB[b][1]); };
  auto tc = [&] { op(2, kC[c]); };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::spawn(tc);
  mc::Cfg cfg;
  bool deep = (which == 0 && refuse < 0 && c < 2 && st < 2) || vx::thorough();
#if !defined(NDEBUG) || defined(TCMALLOC_INTERNAL_LEGACY_LOCKING)
  deep = false;
#endif
  cfg.preempt = (vx::thorough() ? 2 : 1) + deep;
  mc::probe = ocount > 1 ? probe_counts : nullptr;
  mc::go(cfg);
  mc::probe = nullptr;
  refuse_at = -1;
  books(l, "after all threads");
  uint64_t hsh = vx::mix(which * 1000 + st * 100 + refuse * 10 + 50, a * 100 + b * 10 + c);
  for (auto& s : slots) hsh = vx::mix(hsh, s.live ? s.out + 1 : 0);
  vx::state(hsh);
  for (int t = 0; t < 3; ++t)
    while (n[t] > 0) {
      int m = n[t] < 100 ? n[t] : 100;
      n[t] -= m;
      give(l, m, h[t] + n[t]);
    }
  if (nspare) give(l, nspare, spare);
  books(l, "with everything back");
  VX_CHECK(allocated_spans == returned_spans, "%d spans were not returned", allocated_spans - returned_spans);
}

static const vx::Scenario kScenarios[] = {
    {"history", history, 50000},
    {"runs", runs, 50},
    {"threads", threads, 50000},
};
int main(int argc, char** argv) {
  tcmalloc::tcmalloc_internal::log_message_writer = [](const char*, int) {};
  return vx::explore_main(argc, argv, kScenarios, sizeof kScenarios / sizeof kScenarios[0]);
}
