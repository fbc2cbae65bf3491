// C42: intrusive lists against arrays.
#include "lib/explore.h"
#include "tcmalloc/hinted_tracker_lists.h"
#include "tcmalloc/internal/linked_list.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

// ---- LinkedList ----
struct Obj { void* link; uint64_t body; };
static void linked_list() {
  static Obj o[6];
  LinkedList l;
  constexpr int K = 6;
  int stack[K], n = 0;   // model: order known while only single pushes and pops were used
  bool in[K] = {}, ordered = true;
  for (int i = 0; i < K; ++i) o[i] = {reinterpret_cast<void*>(0x1111), 0xabc0u + i};
  int depth = vx::thorough() ? 9 : 7;
  for (int d = 0; d < depth; ++d) {
    int free_n = K - n;
    int c = choose(8);
    void* b[K];
    if (c == 0) {
      if (!free_n) { c = 1; } else {
        int i = 0;
        while (in[i]) ++i;
        vx::op("Push(%d)", i);
        l.Push(&o[i]);
        in[i] = true;
        stack[n++] = i;
      }
    }
    if (c == 1) {
      void* r = nullptr;
      bool ok = l.TryPop(&r);
      vx::op("TryPop");
      VX_CHECK(ok == (n > 0), "TryPop returned %d with %d elements", ok, n);
      if (ok) {
        int i = static_cast<Obj*>(r) - o;
        VX_CHECK(i >= 0 && i < K && r == &o[i] && in[i], "TryPop returned an element that is not on the list");
        if (ordered) VX_CHECK(i == stack[n - 1], "TryPop returned element %d, the last one pushed was %d", i, stack[n - 1]);
        in[i] = false;
        for (int k = 0; k < n; ++k)
          if (stack[k] == i) { memmove(stack + k, stack + k + 1, (n - k - 1) * sizeof(int)); break; }
        --n;
      }
    }
    if (c >= 2 && c <= 4) {
      int N = c - 1;
      if (N > free_n) return;
      int j = 0, rot = choose(2);
      for (int q = 0; q < K && j < N; ++q) {
        int i = rot ? K - 1 - q : q;
        if (!in[i]) { b[j++] = &o[i]; in[i] = true; stack[n++] = i; }
      }
      vx::op("PushBatch(%d)", N);
      l.PushBatch(N, b);
      if (N > 1) ordered = false;
    }
    if (c >= 5) {
      int N = c - 4;
      if (N > n) return;
      vx::op("PopBatch(%d)", N);
      l.PopBatch(N, b);
      for (int j = 0; j < N; ++j) {
        int i = static_cast<Obj*>(b[j]) - o;
        VX_CHECK(i >= 0 && i < K && in[i], "PopBatch(%d) returned an element that is not on the list or returned it twice", N);
        in[i] = false;
        for (int k = 0; k < n; ++k)
          if (stack[k] == i) { memmove(stack + k, stack + k + 1, (n - k - 1) * sizeof(int)); break; }
        --n;
      }
    }
    VX_CHECK(l.length() == size_t(n), "length %zu with %d elements", l.length(), n);
    VX_CHECK(l.empty() == (n == 0), "empty() is %d with %d elements", l.empty(), n);
    for (int i = 0; i < K; ++i) VX_CHECK(o[i].body == 0xabc0u + i, "element written beyond its link");
    vx::step();
    uint64_t h = ordered;
    for (int i = 0; i < n; ++i) h = vx::mix(h, stack[i] + 1);
    vx::state(h);
  }
  // empty it: everything comes out once
  void* r;
  while (l.TryPop(&r)) {
    int i = static_cast<Obj*>(r) - o;
    VX_CHECK(i >= 0 && i < K && in[i], "draining returned a foreign element");
    in[i] = false;
    --n;
  }
  VX_CHECK(n == 0, "%d elements were lost", n);
}

// ---- TList ----
struct Item : TList<Item>::Elem { int id; };
template <typename L>
static void check_tlist(const L& l, const int* m, int n, Item* it) {
  VX_CHECK(l.empty() == (n == 0) && l.length() == size_t(n), "length %zu with %d items", l.length(), n);
  int k = 0;
  for (Item* x : l) {
    VX_CHECK(k < n && x == &it[m[k]], "forward traversal, position %d", k);
    ++k;
  }
  VX_CHECK(k == n, "forward traversal ends after %d of %d items", k, n);
  k = n;
  for (auto i = l.rbegin(); i != l.rend(); ++i) {
    --k;
    VX_CHECK(k >= 0 && *i == &it[m[k]] && i->id == m[k], "backward traversal, position %d", k);
  }
  VX_CHECK(k == 0, "backward traversal ends %d items early", k);
  if (n) VX_CHECK(l.first() == &it[m[0]] && l.last() == &it[m[n - 1]], "first or last item");
  for (int p = 0; p < n; ++p) {
    auto i = l.at(&it[m[p]]);
    VX_CHECK(*i == &it[m[p]], "at()");
    int q = p;
    for (; i != l.end(); ++i, ++q) VX_CHECK(q < n && *i == &it[m[q]], "iteration from an item");
    VX_CHECK(q == n, "iteration from an item ends early");
    for (q = n; q > p;) { --i; --q; VX_CHECK(*i == &it[m[q]], "iterating back"); }
    VX_CHECK(i == l.at(&it[m[p]]), "iterators to one item differ");
  }
}
static void tlist() {
  constexpr int K = 5;
  static Item it[K];
  TList<Item> l, l2;  // a second list, so that items move between lists
  int m[2][K], n[2] = {};
  for (int i = 0; i < K; ++i) { new (&it[i]) Item; it[i].id = i; }
  int depth = vx::thorough() ? 9 : 7;
  for (int d = 0; d < depth; ++d) {
    int w = choose(2);
    TList<Item>& L = w ? l2 : l;
    int* M = m[w];
    int& N = n[w];
    int i = 0;
    auto used = [&](int x) {
      for (int q = 0; q < 2; ++q) for (int k = 0; k < n[q]; ++k) if (m[q][k] == x) return true;
      return false;
    };
    while (i < K && used(i)) ++i;
    int c = choose(3);
    if (c == 0) {  // add at some position
      if (i == K) return;
      int how = choose(4);
      int at = 0;
      if (how < 2) {
        at = how ? N : 0;
        if (how) L.append(&it[i]); else L.prepend(&it[i]);
        vx::op("list %d %s(%d)", w, how ? "append" : "prepend", i);
      } else {
        if (!N) return;
        int p = choose(N);
        vx::op("list %d %s(%d, %d)", w, how == 3 ? "append" : "prepend", M[p], i);
        if (how == 3) L.append(&it[M[p]], &it[i]); else L.prepend(&it[M[p]], &it[i]);
        at = how == 3 ? p + 1 : p;
      }
      memmove(M + at + 1, M + at, (N - at) * sizeof(int));
      M[at] = i;
      ++N;
    } else if (c == 1) {
      if (!N) return;
      int p = choose(N);
      vx::op("list %d remove(%d)", w, M[p]);
      bool e = L.remove(&it[M[p]]);
      memmove(M + p, M + p + 1, (N - p - 1) * sizeof(int));
      --N;
      VX_CHECK(e == (N == 0), "remove returned %d with %d items left", e, N);
    } else {  // move to the other list
      if (!N) return;
      int p = choose(N), x = M[p];
      vx::op("move %d", x);
      L.remove(&it[x]);
      memmove(M + p, M + p + 1, (N - p - 1) * sizeof(int));
      --N;
      (w ? l : l2).append(&it[x]);
      m[!w][n[!w]++] = x;
    }
    check_tlist(l, m[0], n[0], it);
    check_tlist(l2, m[1], n[1], it);
    vx::step();
    uint64_t h = 1;
    for (int q = 0; q < 2; ++q) { for (int k = 0; k < n[q]; ++k) h = vx::mix(h, m[q][k] + 1); h = vx::mix(h, 99); }
    if (vx::visited(h, depth - d)) return;
  }
}

// ---- HintedTrackerLists ----
template <size_t N>
static void hinted() {
  constexpr int K = 4;
  static Item it[K];
  HintedTrackerLists<Item, N> h;
  int where[K];
  for (int i = 0; i < K; ++i) { new (&it[i]) Item; it[i].id = i; where[i] = -1; }
  int idx[8], ni = 0;
  for (size_t c : {size_t{0}, size_t{1}, size_t{62}, size_t{63}, size_t{64}, N / 2, N - 2, N - 1}) {
    bool dup = c >= N;
    for (int k = 0; k < ni; ++k) dup |= idx[k] == int(c);
    if (!dup) idx[ni++] = c;
  }
  int depth = vx::thorough() ? 8 : 6;
  auto least = [&](size_t n) {
    int best = -1;
    for (int i = 0; i < K; ++i)
      if (where[i] >= int(n) && (best < 0 || where[i] < best)) best = where[i];
    return best;
  };
  for (int d = 0; d < depth; ++d) {
    int c = choose(4);
    if (c == 0) {
      int e = 0;
      while (e < K && where[e] >= 0) ++e;
      if (e == K) return;
      where[e] = idx[choose(ni)];
      vx::op("Add(%d, %d)", e, where[e]);
      h.Add(&it[e], where[e]);
    } else if (c == 1) {
      int e = choose(K);
      if (where[e] < 0) return;
      vx::op("Remove(%d, %d)", e, where[e]);
      h.Remove(&it[e], where[e]);
      where[e] = -1;
    } else if (c == 2) {
      int e = choose(K), to = idx[choose(ni)];
      if (where[e] < 0 || where[e] == to) return;
      vx::op("Move(%d, %d, %d)", e, where[e], to);
      h.Move(&it[e], where[e], to);
      where[e] = to;
    } else {
      int n = idx[choose(ni)];
      vx::op("GetLeast(%d)", n);
      Item* t = h.GetLeast(n);
      int w = least(n);
      if (w < 0) {
        VX_CHECK(!t, "GetLeast(%d) returned an element although nothing is at or above", n);
      } else {
        VX_CHECK(t, "GetLeast(%d) returned nothing; the least list is %d", n, w);
        int e = t - it;
        VX_CHECK(e >= 0 && e < K && where[e] == w, "GetLeast(%d) returned an element of list %d, the least non-empty is %d", n, e >= 0 && e < K ? where[e] : -9, w);
        where[e] = -1;
      }
    }
    // every query
    size_t total = 0;
    for (int i = 0; i < K; ++i) total += where[i] >= 0;
    VX_CHECK(h.size() == total, "size() %zu with %zu elements", h.size(), total);
    uint64_t hs = N;
    for (size_t n = 0; n < N; ++n) {
      int w = least(n);
      auto p = h.PeekLeast(n);
      VX_CHECK((p.tracker != nullptr) == (w >= 0), "PeekLeast(%zu)", n);
      VX_CHECK(p.index == (w < 0 ? N : size_t(w)), "PeekLeast(%zu) says list %zu, the least non-empty is %d", n, p.index, w);
      if (p.tracker) VX_CHECK(where[p.tracker - it] == w, "PeekLeast(%zu) returned an element of another list", n);
      size_t cnt = 0, seen = 0;
      for (int i = 0; i < K; ++i) cnt += where[i] == int(n);
      VX_CHECK(h.SizeOfList(n) == cnt && h[n].length() == cnt && h[n].empty() == !cnt, "list %zu has %zu elements, %zu expected", n, h.SizeOfList(n), cnt);
      for (Item* x : h[n]) { VX_CHECK(where[x - it] == int(n), "list %zu contains an element of list %d", n, where[x - it]); hs = vx::mix(hs, (x - it) + 1 + n * 8); ++seen; }
      VX_CHECK(seen == cnt, "list contents");
      // visiting from n on
      int cnts[K] = {};
      int last = -1;
      h.Iter([&](Item& x) {
        int e = &x - it;
        cnts[e]++;
        VX_CHECK(where[e] >= last, "Iter visits lists out of order");
        last = where[e];
      }, n);
      for (int i = 0; i < K; ++i) VX_CHECK(cnts[i] == (where[i] >= int(n)), "Iter from %zu visited element %d of list %d %d times", n, i, where[i], cnts[i]);
    }
    vx::step();
    if (vx::visited(hs, depth - d)) return;
  }
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"free-object list", linked_list, 1000}, {"doubly linked list", tlist, 1000},
      {"tracker lists 1", hinted<1>, 1000}, {"tracker lists 2", hinted<2>, 1000}, {"tracker lists 64", hinted<64>, 300}, {"tracker lists 65", hinted<65>, 300}, {"tracker lists 256", hinted<256>, 100}};
  return vx::explore_main(argc, argv, sc, 7);
}
