// C26: the per-span object list hands out every object exactly once, inside
// the span, at multiples of the object size, with exact counts; pointer/index
// conversions are exact; memory of objects handed out is never written.
#include <sys/mman.h>

#include <vector>

#include "lib/explore.h"
#include "tcmalloc/common.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

namespace tcmalloc::tcmalloc_internal {
HeapPartitioningMode Parameters::heap_partitioning_mode() { return HeapPartitioningMode::kOff; }
}
extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];

constexpr size_t kSpanPages = 63;
static char* mem() {
  static char* m = [] {
    size_t n = (kSpanPages + 3) * kPageSize;
    char* p = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    return reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(p) + kPageSize - 1) / kPageSize * kPageSize) + kPageSize;
  }();
  return m;
}

struct Model {
  size_t size, pages, count;
  uint32_t recip;
  bool bitmap;
  alignas(64) char raw[sizeof(Span)];
  Span* s;
  std::vector<char> out;       // 1: handed out
  std::vector<uint16_t> held;  // handed-out objects, oldest first
  std::vector<void*> buf;
  uint64_t when;

  Model(size_t sz, size_t pg) : size(sz), pages(pg), count(pg * kPageSize / sz) {
    recip = Span::CalcReciprocal(size);
    bitmap = Span::UseBitmapForSize(size);
    memset(raw, 0xcc, sizeof raw);
    s = new (raw) Span(Range(PageIdContaining(mem()), Length(pages)));
    buf.resize(count + 64);
    out.assign(count, 0);
  }
  char* at(size_t i) { return mem() + i * size; }
  // What the program writes into its objects: both ends (everything if small).
  void scribble(size_t i) {
    unsigned char v = 0x40 + i * 7;
    if (size <= 64) memset(at(i), v, size);
    else memset(at(i), v, 16), memset(at(i) + size - 16, v, 16);
  }
  void verify(size_t i) {
    unsigned char v = 0x40 + i * 7;
    const unsigned char* p = reinterpret_cast<unsigned char*>(at(i));
    bool ok = true;
    if (size <= 64) for (size_t k = 0; k < size; ++k) ok &= p[k] == v;
    else for (size_t k = 0; k < 16; ++k) ok &= p[k] == v && p[size - 1 - k] == v;
    VX_CHECK(ok, "the list wrote into object %zu of %zu (size %zu) while the program held it", i, count, size);
  }
  void verify_all() { for (auto i : held) verify(i); }

  void take(size_t n, size_t got) {
    size_t avail = count - held.size();
    VX_CHECK(got == (n < avail ? n : avail), "asked for %zu objects of size %zu with %zu of %zu available: got %zu", n, size, avail, count, got);
    for (size_t k = 0; k < got; ++k) {
      uintptr_t off = static_cast<char*>(buf[k]) - mem();
      VX_CHECK(off % size == 0 && off / size < count, "size %zu, %zu pages: object handed out at offset %#zx, the span holds %zu objects", size, pages, off, count);
      size_t i = off / size;
      VX_CHECK(!out[i], "size %zu, %zu pages: object %zu of %zu handed out twice", size, pages, i, count);
      out[i] = 1;
      held.push_back(i);
      scribble(i);
    }
    books();
  }
  void books() {
    VX_CHECK(s->Allocated() == held.size(), "size %zu, %zu pages: count says %d objects are out, %zu are", size, pages, int(s->Allocated()), held.size());
    VX_CHECK(s->FreelistEmpty(size, count) == (held.size() == count), "size %zu, %zu pages: empty says %d with %zu of %zu out", size, pages, s->FreelistEmpty(size, count), held.size(), count);
    VX_CHECK(s->first_page() == PageIdContaining(mem()) && s->num_pages() == Length(pages) && s->bytes_in_span() == pages * kPageSize && s->last_page() == s->first_page() + Length(pages - 1) && !s->sampled() && !s->donated(), "size %zu: the span's own description changed", size);
    VX_CHECK(s->nonempty_index() == 0xff % (1 << Span::kNonemptyIndexBits), "the span's list index changed");
  }
  void build(size_t n, uint64_t t = 0x123456789abcull) {
    out.assign(count, 0);
    held.clear();
    when = t;
    s->set_nonempty_index(0xff % (1 << Span::kNonemptyIndexBits));
    std::fill(buf.begin(), buf.end(), nullptr);
    int got = s->BuildFreelist(size, count, absl::MakeSpan(buf.data(), n), t);
    take(n, got);
    VX_CHECK(buf[n] == nullptr, "wrote past the end of the batch");
    uint64_t at = s->AllocTime();
    VX_CHECK(at <= t && t - at < 64, "span born at %llu, reported %llu", (unsigned long long)t, (unsigned long long)at);
  }
  void pop(size_t n) {
    std::fill(buf.begin(), buf.begin() + n + 1, nullptr);
    size_t got = s->FreelistPopBatch(absl::MakeSpan(buf.data(), n), size);
    take(n, got);
    VX_CHECK(buf[n] == nullptr, "wrote past the end of the batch");
    verify_all();
    uint64_t at = s->AllocTime();
    VX_CHECK(at <= when && when - at < 64, "the span's birth time changed");
  }
  // Returns the given objects; true if the span took them.
  bool push(const std::vector<uint16_t>& which, bool by_index) {
    for (auto i : which) verify(i);
    bool ok;
    std::vector<void*> p;
    std::vector<Span::ObjIdx> x;
    for (auto i : which) {
      p.push_back(at(i));
      x.push_back(bitmap ? s->BitmapPtrToIdx(at(i), size, recip) : s->PtrToIdx(at(i), size));
    }
    if (by_index) ok = s->FreelistPushBatch(absl::MakeSpan(x), size, recip);
    else ok = s->FreelistPushBatch(absl::MakeSpan(p), size, recip);
    VX_CHECK(ok == (which.size() != held.size()), "size %zu: returning %zu of %zu objects: %s", size, which.size(), held.size(), ok ? "kept" : "refused");
    if (!ok) return false;
    for (auto i : which) out[i] = 0;
    size_t w = 0;
    for (auto i : held) if (out[i]) held[w++] = i;
    held.resize(w);
    verify_all();
    books();
    return true;
  }
  void conversions() {
    for (size_t i = 0; i < count; ++i) {
      if (bitmap) {
        VX_CHECK(s->BitmapPtrToIdx(at(i), size, recip) == i, "size %zu: object %zu of %zu has index %d", size, i, count, s->BitmapPtrToIdx(at(i), size, recip));
        VX_CHECK(s->BitmapIdxToPtr(i, size) == at(i), "size %zu: index %zu of %zu is at the wrong address", size, i, count);
      } else {
        Span::ObjIdx x = s->PtrToIdx(at(i), size);
        VX_CHECK(s->IdxToPtr(x, size, reinterpret_cast<uintptr_t>(mem())) == reinterpret_cast<void*>(at(i)), "size %zu: object %zu of %zu does not survive conversion to an index", size, i, count);
        VX_CHECK(x != Span::ObjIdx(-1), "object %zu has the index that ends the list", i);
      }
    }
  }
};

static std::vector<size_t> all_sizes() {
  std::vector<size_t> v;
  for (size_t s = 8; s <= 1024 && s <= kMaxSize; s += static_cast<size_t>(kAlignment)) v.push_back(s);
  for (size_t s = 1152; s <= kMaxSize; s += 128) v.push_back(s);
  return v;
}

// Every geometry a size class may have, in blocks of sizes.
static void geometries() {
  static const std::vector<size_t> sizes = all_sizes();
  size_t blocks = 64;
  size_t b = choose(blocks);
  for (size_t k = b; k < sizes.size(); k += blocks) {
    size_t size = sizes[k];
    size_t tried = 0;
    for (size_t pages = 1; pages <= 32; ++pages) {
      size_t count = pages * kPageSize / size;
      if (count == 0 || !Span::IsValidSizeClass(size, Length(pages))) continue;
      ++tried;
      Model m(size, pages);
      vx::op("size %zu, %zu pages, %zu objects", size, pages, count);
      m.s->set_nonempty_index(0xff % (1 << Span::kNonemptyIndexBits));
      m.conversions();
      bool few = !vx::thorough() && ((size > 1024 && k % 16 != 3) || count > 4096);
      const size_t builds[] = {1, 32, count + 3, 2, 128, 0};
      for (size_t bi = 0; bi < (few ? 2 : 6); ++bi)
        for (size_t pop : {size_t(32), size_t(1), size_t(128), count + 7}) {
          if (few && pop != 32 && pop != count + 7) continue;
          if (count > 512 && pop == 1 && !vx::thorough()) pop = 5;
          for (int order = 0; order < 4; ++order) {
            if (few && (order == 1 || order == 2)) continue;
            size_t pb = order == 0 ? 32 : order == 1 ? 1 : order == 2 ? 7 : 128;
            size_t first = builds[bi] > m.buf.size() - 1 ? m.buf.size() - 1 : builds[bi];
            if (pop > m.buf.size() - 1) pop = m.buf.size() - 1;
            // checking every held object after every pop would be quadratic;
            // histories() does that
            m.build(first);
            auto drain = [&] {
              while (m.held.size() < count) {
                std::fill(m.buf.begin(), m.buf.begin() + pop + 1, nullptr);
                size_t got = m.s->FreelistPopBatch(absl::MakeSpan(m.buf.data(), pop), size);
                m.take(pop, got);
              }
              VX_CHECK(m.s->FreelistPopBatch(absl::MakeSpan(m.buf.data(), 1), size) == 0, "an object beyond the last");
              m.verify_all();
            };
            drain();
            for (int round = 0; round < 2; ++round) {
              // return all but one (the kept one differs), in some order
              std::vector<uint16_t> o(m.held);
              if (o.size() < 2) break;
              if (order & 1) std::reverse(o.begin(), o.end());
              if (order >= 2) std::stable_partition(o.begin(), o.end(), [](uint16_t i) { return i % 3; });
              o.erase(o.begin() + (round ? o.size() / 2 : 0));
              for (size_t at = 0; at < o.size(); at += pb) {
                std::vector<uint16_t> part(o.begin() + at, o.begin() + std::min(o.size(), at + pb));
                // the slow path of push() is quadratic too: batches only
                bool by_index = (order + round) & 1;
                std::vector<void*> p;
                std::vector<Span::ObjIdx> x;
                for (auto i : part) {
                  m.verify(i);
                  p.push_back(m.at(i));
                  x.push_back(m.bitmap ? m.s->BitmapPtrToIdx(m.at(i), size, m.recip) : m.s->PtrToIdx(m.at(i), size));
                  m.out[i] = 0;
                }
                bool ok = by_index ? m.s->FreelistPushBatch(absl::MakeSpan(x), size, m.recip) : m.s->FreelistPushBatch(absl::MakeSpan(p), size, m.recip);
                VX_CHECK(ok, "size %zu, %zu pages: objects refused with others still out", size, pages);
              }
              size_t w = 0;
              for (auto i : m.held) if (m.out[i]) m.held[w++] = i;
              m.held.resize(w);
              VX_CHECK(m.held.size() == 1, "harness: %zu held", m.held.size());
              m.books();
              m.verify_all();
              drain();
            }
          }
        }
    }
    vx::step(tried);
  }
}

// Every history over a few geometries.
static void histories() {
  struct G { size_t size, pages; };
  static std::vector<G> gs = [] {
    std::vector<G> v;
    // list spans: many objects; bitmap spans: around the bitmap's size
    size_t list_max = 0;
    for (size_t s = 8; s < kMaxSize; s += 8) if (!Span::UseBitmapForSize(s)) list_max = s; else break;
    if (kAlignment > std::align_val_t(8)) list_max -= list_max % 16;
    for (size_t s : {size_t(kAlignment), size_t(16), size_t(32), list_max})
      if (s && Span::IsValidSizeClass(s, Length(1))) v.push_back({s, 1});
    size_t want[] = {1, 2, 3, 12, 13, 25, 63, 64, 65, 128, 192};
    for (size_t w : want) {
      bool done = false;
      for (size_t pages = 1; pages <= 4 && !done; ++pages)
        for (size_t s = 64; s <= kMaxSize && !done; s += s < 1024 ? 16 : 128)
          if (pages * kPageSize / s == w && Span::UseBitmapForSize(s) && Span::IsValidSizeClass(s, Length(pages))) v.push_back({s, pages}), done = true;
    }
    return v;
  }();
  size_t g = choose(gs.size());
  Model m(gs[g].size, gs[g].pages);
  vx::op("size %zu, %zu pages, %zu objects", m.size, m.pages, m.count);
  static const size_t starts[] = {1, 2, 32, 9999};
  size_t st = starts[choose(4)];
  m.s->set_nonempty_index(0xff % (1 << Span::kNonemptyIndexBits));
  if (st > m.count) st = m.count;
  // leave room so that histories reach both the embedded list's ends
  bool nearly = m.count > 300;
  if (st == 9999 || st == m.count) st = m.count;
  m.build(st);
  if (nearly && st != m.count) {  // drain big spans to their last objects
    while (m.count - m.held.size() > 40) {
      size_t n = m.count - m.held.size() - 40;
      std::fill(m.buf.begin(), m.buf.begin() + n + 1, nullptr);
      size_t got = m.s->FreelistPopBatch(absl::MakeSpan(m.buf.data(), n), m.size);
      m.take(n, got);
    }
  }
  int depth = vx::thorough() ? 5 : kPageShift == 13 ? 4 : 3;
  if (m.count > 4000) depth -= 1;
  for (int d = 0; d < depth; ++d) {
    size_t c = choose(14);
    vx::op("%zu", c);
    if (c < 5) {
      const size_t ns[] = {1, 2, 11, 13, m.count};
      m.pop(ns[c]);
      continue;
    }
    bool by_index = (c - 5) % 2;
    std::vector<uint16_t> o;
    size_t h = m.held.size();
    switch ((c - 5) / 2) {
      case 0: if (h) o.push_back(m.held[0]); break;
      case 1: for (size_t i = 0; i < 3 && i < h; ++i) o.push_back(m.held[h - 1 - i]); break;
      case 2: for (size_t i = 0; i < h && o.size() < 14; i += 2) o.push_back(m.held[i]); break;
      case 3: for (size_t i = 0; i + 1 < h && o.size() < 128; ++i) o.push_back(m.held[i]); break;
      default:
        if (c == 13) {  // all of them: the span must refuse, and can be rebuilt
          o = m.held;
          if (o.size() > 128) o.clear();
        }
    }
    if (o.empty()) continue;
    if (!m.push(o, by_index)) m.build(d % 3 ? 1 : m.count / 2, 77777777 + d);
  }
  m.verify_all();
  // whatever is left comes out exactly once
  while (m.held.size() < m.count) m.pop(m.count > 300 ? 512 < m.buf.size() ? 512 : m.count : 7);
  vx::step(1);
}

int main(int argc, char** argv) {
  mem();
  vx::Scenario sc[] = {{"geometries", geometries, 1}, {"histories", histories, 512}};
  return vx::explore_main(argc, argv, sc, 2);
}
