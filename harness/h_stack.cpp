// Monitors of the paged stack: S01 LIFO model, S02 iterators, S03 life of elements and pages, S04 failures,
// S05 atomic operations, S06 synchronised iterators, S07 copies.
#define VF_WRAP_MUTEX
#include "common.h"
#include <falcon/engine/pagedstack.h>
#include <algorithm>
#include <map>
#include <mutex>

using vf::Rng;
using vf::fmt;

// ---------------------------------------------------------------- observed elements and memory
struct Fault { int what; };
struct Inject {
   long at = 0, count = 0; bool fired = false; const void* src = nullptr; const void* dst = nullptr;
   void arm(long k) { at = k; count = 0; fired = false; src = dst = nullptr; }
   void off() { at = 0; }
   bool hit() { return at && ++count == at; }
};
static Inject inject;
static long live = 0, made = 0;

struct El {
   int v; El* self; unsigned magic;
   static constexpr unsigned ALIVE = 0xA11FE, DEAD = 0xDEADDEAD;
   void born() { self = this; magic = ALIVE; ++live; ++made; }
   El(): v(-1) { born(); }
   El(int x): v(x) { if(inject.hit()) { inject.fired = true; throw Fault{0}; } born(); }
   El(int x, int y): El(x + y) {}
   El(const El& o): v(o.v) { o.check("copied"); if(inject.hit()) { inject.fired = true; inject.src = &o; throw Fault{1}; } born(); }
   El& operator=(const El& o) { check("assigned"); o.check("assigned from"); if(inject.hit()) { inject.fired = true; inject.src = &o; inject.dst = this; throw Fault{2}; } v = o.v; return *this; }
   ~El() { check("destroyed"); magic = DEAD; v = -2; --live; }
   void check(const char* what) const {
      if(magic != ALIVE) vf::viol("dead-element-used", fmt("an element that is not alive was %s", what));
      else if(self != this) vf::viol("element-moved", fmt("an element was %s at another address than where it was made", what));
   }
};
struct Blocks {
   std::map<void*, std::pair<size_t, size_t>> live; long dataLive = 0, dataAllocs = 0, allocs = 0;
} static blocks;
template<typename T> struct Alloc {
   using value_type = T; using size_type = size_t; using difference_type = ptrdiff_t; using pointer = T*; using const_pointer = const T*; using reference = T&; using const_reference = const T&;
   template<typename U> struct rebind { using other = Alloc<U>; };
   Alloc() noexcept {} template<typename U> Alloc(const Alloc<U>&) noexcept {}
   static constexpr bool data() { return std::is_same<T, El>::value || std::is_same<T, int>::value || std::is_same<T, std::string>::value; }
   T* allocate(size_t n) {
      if(inject.hit()) { inject.fired = true; throw std::bad_alloc(); }
      void* p = ::operator new(n * sizeof(T)); blocks.live[p] = {n, sizeof(T)}; ++blocks.allocs; if(data()) { ++blocks.dataLive; ++blocks.dataAllocs; }
      return static_cast<T*>(p);
   }
   void deallocate(T* p, size_t n) noexcept {
      auto i = blocks.live.find(p);
      if(i == blocks.live.end()) { vf::viol("block-not-owned", "a block not obtained from the allocator, or already given back, was given to it"); return; }
      if(i->second.first != n || i->second.second != sizeof(T)) vf::viol("block-size", "a block was given back with another size");
      blocks.live.erase(i); if(data()) --blocks.dataLive; ::operator delete(p);
   }
   bool operator==(const Alloc&) const noexcept { return true; } bool operator!=(const Alloc&) const noexcept { return false; }
};

template<typename T> struct Val;
template<> struct Val<int> { static int mk(int n) { return n; } static int get(int v) { return v; } static constexpr bool tracked = false; };
template<> struct Val<std::string> { static std::string mk(int n) { return "string value, long enough: " + std::to_string(n); } static int get(const std::string& s) { return s.size() > 27 ? atoi(s.c_str() + 27) : -7; } static constexpr bool tracked = false; };
template<> struct Val<El> { static El mk(int n) { return El(n); } static int get(const El& e) { e.check("read"); return e.v; } static constexpr bool tracked = true; };

// ---------------------------------------------------------------- the stack and its model
static int nextValue = 0;
struct Checks { bool values = true, iterators = false, life = false, place = false, pages = false; };
static std::string hist;
static void log(const std::string& s) { if(hist.size() < 1500) { hist += s; hist += ' '; } }

// A mutex of the stacks used by one thread: an operation that locks twice would never return, nor one after an operation that left it locked.
struct WatchMutex {
   static long& held() { static long n = 0; return n; }
   static long& taken() { static long n = 0; return n; }
   bool locked = false;
   void lock() { if(locked) vf::viol("self-deadlock", "an operation locked the stack's mutex while it was locked; " + hist); locked = true; ++held(); ++taken(); }
   bool try_lock() { if(locked) return false; locked = true; ++held(); ++taken(); return true; }
   void unlock() { if(!locked) vf::viol("unlock-unlocked", "an operation unlocked the stack's mutex that was not locked; " + hist); else { locked = false; --held(); } }
};

template<typename T> struct Driver {
   using Stack = falcon::PagedStack<T, Alloc, WatchMutex>;
   using V = Val<T>;
   size_t ps, pre; std::unique_ptr<Stack> s; std::vector<int> m; std::vector<const void*> addr; Checks ck;
   Driver(size_t p, size_t a): ps(p), pre(a), s(new Stack(p, a)) {}
   explicit Driver(const Driver& o, int): ps(o.ps), pre(o.pre), m(o.m), ck(o.ck) { s.reset(new Stack(*o.s)); }
   size_t n() const { return m.size(); }
   size_t needPages(size_t sz) const { return std::max<size_t>(1, (sz + ps - 1) / ps); }
   void bad(const char* key, const std::string& d) { vf::viol(key, fmt("page size %zu, preallocated %zu: %s; history: %s", ps, pre, d.c_str(), hist.c_str())); }
   void expect(const char* what, int got, int want) { if(got != want) bad("value", fmt("%s gives %d instead of %d", what, got, want)); }

   void pushed(size_t before) {
      // new elements: their addresses from now on
      if(!ck.life && !ck.place) return;
      addr.resize(before);
      size_t k = n() - before; std::vector<const void*> a; const Stack& cs = *s; auto it = cs.begin();
      for(size_t i = 0; i < k; ++i, ++it) a.push_back(&*it);
      addr.insert(addr.end(), a.rbegin(), a.rend());
   }
   void removed() { addr.resize(std::min(addr.size(), n())); }

   // one random operation; returns its name
   const char* op(Rng& r) {
      Stack& st = *s; const Stack& cs = st; size_t sz = n(); long allocsBefore = blocks.dataAllocs; long held = blocks.dataLive; bool pushes = false;
      const char* name = "?";
      unsigned k = unsigned(r.below(100));
      // keep it from growing or shrinking for ever: phases
      if(sz > 4 * ps * 4 + 6 && r.chance(1, 2)) k = 40 + unsigned(r.below(30));
      if(k < 18) { name = "push"; int v = ++nextValue; log("push"); st.push(V::mk(v)); m.push_back(v); pushes = true; }
      else if(k < 26) { name = "emplace"; int v = ++nextValue; log("emplace"); emplace(v); m.push_back(v); pushes = true; }
      else if(k < 38) {
         name = "push-many"; int c = int(r.range(2, 5)); int v = nextValue; nextValue += c; log(fmt("push%d", c)); T a = V::mk(v + 1), b = V::mk(v + 2), d = V::mk(v + 3), e = V::mk(v + 4), f = V::mk(v + 5);
         switch(c) { case 2: st.push(a, b); break; case 3: st.push(a, b, d); break; case 4: st.push(a, b, d, e); break; default: st.push(a, b, d, e, f); }
         for(int i = 1; i <= c; ++i) m.push_back(v + i);
         pushes = true;
      }
      else if(k < 46) { name = "pop"; if(sz) { log("pop"); st.pop(); m.pop_back(); } }
      else if(k < 54) { name = "pop-values"; size_t c = std::min<size_t>(sz, r.range(1, 4)); if(c) { log(fmt("pop%zu", c)); T a = V::mk(0), b = V::mk(0), d = V::mk(0), e = V::mk(0); T* p[] = {&a, &b, &d, &e};
            switch(c) { case 1: st.pop(a); break; case 2: st.pop(a, b); break; case 3: st.pop(a, b, d); break; default: st.pop(a, b, d, e); }
            for(size_t i = 0; i < c; ++i) { expect("pop", V::get(*p[i]), m.back()); m.pop_back(); } } }
      else if(k < 60) { name = "pop-reverse"; size_t c = std::min<size_t>(sz, r.range(1, 4)); if(c) { log(fmt("popr%zu", c)); T a = V::mk(0), b = V::mk(0), d = V::mk(0), e = V::mk(0); T* p[] = {&a, &b, &d, &e};
            switch(c) { case 1: st.pop_reverse(a); break; case 2: st.pop_reverse(a, b); break; case 3: st.pop_reverse(a, b, d); break; default: st.pop_reverse(a, b, d, e); }
            for(size_t i = 0; i < c; ++i) expect("pop_reverse", V::get(*p[i]), m[sz - c + i]); m.resize(sz - c); } }
      else if(k < 66) { name = "discard"; size_t c = r.chance(1, 8) ? sz : r.below(std::min<size_t>(sz, 2 * ps + 2) + 1); log(fmt("discard%zu", c)); st.discard(c); m.resize(sz - c); }
      else if(k < 74) { name = "discard-to"; if(sz) { size_t c = r.below(std::min<size_t>(sz, 2 * ps + 2)); int how = int(r.below(6)); log(fmt("discardto%d@%zu", how, c));
            if(how == 0) { auto it = st.begin(); it += c; st.discard(it); m.resize(sz - c - 1); }
            else if(how == 1) { auto it = cs.begin(); it += c; st.discard(it); m.resize(sz - c - 1); }
            else if(how == 2) { auto it = st.rbegin(); it += sz - 1 - c; st.discard(it); m.resize(sz - 1 - c); }
            else if(how == 3) { auto it = cs.rbegin(); it += sz - 1 - c; st.discard(it); m.resize(sz - 1 - c); }
            else if(how == 4) { st.discard(st.from_top(c + 1)); m.resize(sz - c - 1); }
            else { st.discard(cs.from_top(c + 1)); m.resize(sz - c - 1); } } }
      else if(k < 76) { name = "clear"; if(r.chance(1, 3)) { log("clear"); st.clear(); m.clear(); } }
      else if(k < 80) { name = "shrink"; log("shrink"); st.shrink_to_fit(); if(ck.life && blocks.dataLive - others != long(needPages(sz))) bad("shrink", fmt("%ld pages kept for %zu elements", blocks.dataLive - others, sz)); held = blocks.dataLive; }
      else if(k < 84) { name = "set-top"; if(sz) { int v = ++nextValue; log("settop"); st.top(V::mk(v)); m.back() = v; } }
      else if(k < 87) { name = "top"; if(sz) expect("top", V::get(cs.top()), m.back()); }
      else if(k < 91) { name = "peek"; size_t c = std::min<size_t>(sz, r.range(1, 4)); if(c) { T a = V::mk(0), b = V::mk(0), d = V::mk(0), e = V::mk(0); T* p[] = {&a, &b, &d, &e};
            switch(c) { case 1: cs.peek(a); break; case 2: cs.peek(a, b); break; case 3: cs.peek(a, b, d); break; default: cs.peek(a, b, d, e); }
            for(size_t i = 0; i < c; ++i) expect("peek", V::get(*p[i]), m[sz - 1 - i]); } }
      else if(k < 95) { name = "peek-reverse"; size_t c = std::min<size_t>(sz, r.range(1, 4)); if(c) { T a = V::mk(0), b = V::mk(0), d = V::mk(0), e = V::mk(0); T* p[] = {&a, &b, &d, &e};
            switch(c) { case 1: cs.peek_reverse(a); break; case 2: cs.peek_reverse(a, b); break; case 3: cs.peek_reverse(a, b, d); break; default: cs.peek_reverse(a, b, d, e); }
            for(size_t i = 0; i < c; ++i) expect("peek_reverse", V::get(*p[i]), m[sz - c + i]); } }
      else { name = "peek-depth"; if(sz) { size_t depth = r.range(1, sz); size_t c = std::min<size_t>(depth, r.range(1, 4)); T a = V::mk(0), b = V::mk(0), d = V::mk(0), e = V::mk(0); T* p[] = {&a, &b, &d, &e};
            switch(c) { case 1: cs.peek_depth(depth, a); break; case 2: cs.peek_depth(depth, a, b); break; case 3: cs.peek_depth(depth, a, b, d); break; default: cs.peek_depth(depth, a, b, d, e); }
            for(size_t i = 0; i < c; ++i) expect("peek_depth", V::get(*p[i]), m[sz - depth + i]); } }
      if(WatchMutex::held()) bad("left-locked", fmt("%s left the stack's mutex locked", name));
      if(ck.life && !inject.at) {
         if(blocks.dataAllocs != allocsBefore) {
            if(!pushes) bad("unexpected-page", fmt("%s requested pages", name));
            else if(held - others >= long(needPages(n()))) bad("pages-not-reused", fmt("%s requested pages with %ld held, %zu needed", name, held - others, needPages(n())));
         }
      }
      if(ck.pages && blocks.dataLive < held && !inject.at) bad("pages-let-go", fmt("%s released %ld pages, no shrinking was asked for", name, held - blocks.dataLive));
      if(n() > sz) pushed(sz); else if(n() < sz) removed();
      return name;
   }
   long others = 0;       // pages of other stacks
   long othersLive = 0;   // elements of other stacks
   void emplace(int v);

   void check(Rng& r, bool full) {
      Stack& st = *s; const Stack& cs = st;
      if(cs.size() != n()) bad("size", fmt("size() is %zu instead of %zu", cs.size(), n()));
      if(cs.empty() != m.empty()) bad("empty", fmt("empty() is %d with %zu elements", int(cs.empty()), n()));
      if(vf::violated()) return;
      if(n()) expect("top", V::get(cs.top()), m.back());
      if(full && n() && ck.values) { T x = V::mk(0); for(size_t d = 1; d <= n(); ++d) { cs.peek_depth(d, x); expect("content", V::get(x), m[n() - d]); } vf::stat("contents_compared"); }
      if(ck.iterators) iterators(r);
      if(ck.life) lifeCheck();
      if(ck.life || ck.place) placeCheck();
   }
   void lifeCheck() {
      if(V::tracked && live - othersLive != long(n())) bad("live-elements", fmt("%ld elements alive with %zu in the stack", live - othersLive, n()));
      if(blocks.dataLive - others < long(needPages(n()))) bad("pages", fmt("%ld pages for %zu elements", blocks.dataLive - others, n()));
   }
   void placeCheck() {
      const Stack& cs = *s; size_t i = n();
      for(auto it = cs.begin(); i > 0; ++it) { --i; if(i < addr.size() && addr[i] && addr[i] != (const void*)&*it) { bad("element-relocated", fmt("the element at position %zu was at another address", i)); break; } vf::stat("addresses_compared"); }
   }
   template<typename It, typename End> void forward(const char* what, It it, End end, bool rev) {
      size_t k = 0; It first = it;
      for(; it != end; ++it) {
         if(k >= n()) { bad("iterator-overrun", fmt("%s goes on after %zu elements", what, n())); return; }
         expect(what, V::get(*it), rev ? m[k] : m[n() - 1 - k]); ++k;
         const It c = it; if(&*c != it.operator->()) bad("iterator-access", what);
         if(vf::violated()) return;
      }
      if(k != n()) { bad("iterator-count", fmt("%s visits %zu elements of %zu", what, k, n())); return; }
      // back again
      while(k > 0) { --it; --k; expect("stepping back", V::get(*it), rev ? m[k] : m[n() - 1 - k]); if(vf::violated()) return; }
      if(!(it == first)) bad("iterator-equality", fmt("%s stepped back to the beginning differs from it", what));
      vf::stat("traversals"); vf::stat("visited", (long long)n());
   }
   template<typename It> void moves(Rng& r, const char* what, It first, It end, bool rev) {
      // positions 0..n; the n-th is the end
      size_t a = r.below(n() + 1), b = r.below(n() + 1);
      It x = first; x += a; It y = first; for(size_t i = 0; i < b; ++i) { It old = y++; if(old == y || !(old != y)) bad("iterator-equality", fmt("%s: a position equals the next", what)); }
      if((x == y) != (a == b) || (x != y) != (a != b)) bad("iterator-equality", fmt("%s: positions %zu and %zu compare %s", what, a, b, x == y ? "equal" : "different"));
      if((x == end) != (a == n())) bad("iterator-equality", fmt("%s: position %zu of %zu compares wrongly with the end", what, a, n()));
      if(b < a) { x -= a - b; if(!(x == y)) bad("iterator-equality", fmt("%s: -= %zu from %zu", what, a - b, a)); }
      else if(b > a) { for(size_t i = b; i > a; --i) { It old = y--; if(i < n()) expect(what, V::get(*old), rev ? m[i] : m[n() - 1 - i]); } if(!(x == y)) bad("iterator-equality", fmt("%s: -- from %zu to %zu", what, b, a)); }
      size_t p = std::min(a, b); if(p < n()) expect(what, V::get(*x), rev ? m[p] : m[n() - 1 - p]);
      vf::stat("positions_compared");
   }
   void iterators(Rng& r) {
      Stack& st = *s; const Stack& cs = st;
      switch(r.below(6)) {
      case 0: forward("iterator", st.begin(), st.end(), false); break;
      case 1: forward("const iterator", cs.begin(), cs.end(), false); break;
      case 2: forward("cbegin", st.cbegin(), st.cend(), false); break;
      case 3: forward("reverse iterator", st.rbegin(), st.rend(), true); break;
      case 4: forward("const reverse iterator", cs.rbegin(), cs.rend(), true); break;
      default: forward("crbegin", st.crbegin(), st.crend(), true); break;
      }
      if(vf::violated()) return;
      moves(r, "iterator", st.begin(), st.end(), false); moves(r, "const iterator", cs.begin(), cs.end(), false);
      moves(r, "reverse iterator", st.rbegin(), st.rend(), true); moves(r, "const reverse iterator", cs.crbegin(), cs.crend(), true);
      if(vf::violated()) return;
      { size_t d = r.chance(1, 4) ? n() : r.below(n() + 1); size_t k = 0;
        if(r.chance(1, 2)) { for(auto it = st.from_top(d); it != st.rend(); ++it, ++k) { if(k >= d) { bad("from-top", "goes beyond the top"); return; } expect("from_top", V::get(*it), m[n() - d + k]); } }
        else { for(auto it = cs.from_top(d); it != cs.rend(); ++it, ++k) { if(k >= d) { bad("from-top", "goes beyond the top"); return; } expect("const from_top", V::get(*it), m[n() - d + k]); } }
        if(k != d) bad("from-top", fmt("from_top(%zu) visits %zu elements", d, k));
        vf::stat("from_top");
      }
      if(n() && r.chance(1, 2)) {
         size_t i = r.below(n()); int v = ++nextValue;
         if(r.chance(1, 2)) { auto it = st.begin(); it += n() - 1 - i; *it = V::mk(v); } else { auto it = st.rbegin(); it += i; *it.operator->() = V::mk(v); }
         m[i] = v; log(fmt("write@%zu", i));
         const Stack& c2 = st; T x = V::mk(0); for(size_t d = 1; d <= n(); ++d) { c2.peek_depth(d, x); expect("after writing through an iterator", V::get(x), m[n() - d]); }
         vf::stat("writes");
      }
   }
};
template<> void Driver<int>::emplace(int v) { s->push_emplace(v); }
template<> void Driver<std::string>::emplace(int v) { s->push_emplace(Val<std::string>::mk(v).c_str()); }
template<> void Driver<El>::emplace(int v) { if(v & 1) s->push_emplace(v - 7, 7); else s->push_emplace(v); }

static void geometry(Rng& r, size_t& ps, size_t& pre) {
   ps = r.chance(1, 8) ? 1 : r.chance(1, 6) ? r.range(9, 40) : r.range(1, 8); pre = r.range(1, 5);
   if(r.chance(1, 60)) { ps = 1024; pre = 4; }
}

template<typename T> static void sequential(Rng& r, long idx, Checks ck, const char* prop) {
   size_t ps, pre; geometry(r, ps, pre); hist.clear(); blocks.dataAllocs = 0;
   vf::setContext(fmt("%s case %ld page size %zu preallocated %zu", prop, idx, ps, pre));
   long live0 = live; size_t blocks0 = blocks.live.size(); uint64_t h = vf::mix(ps, pre);
   int N = int(r.range(5, 80)); size_t maxSize = 0;
   {
      Driver<T> d(ps, pre); d.ck = ck; d.othersLive = live0;
      d.check(r, true);
      for(int i = 0; i < N && !vf::violated(); ++i) {
         const char* o = d.op(r); h = vf::mix(h, vf::hashStr(o)); h = vf::mix(h, d.n()); maxSize = std::max(maxSize, d.n());
         d.check(r, i % 4 == 3 || i == N - 1); vf::stat("operations");
      }
      vf::statMax("max_pages", long(maxSize / ps + 1));
   }
   if(live != live0) vf::viol("elements-leaked", fmt("%ld elements alive after the stack was destroyed; %s", live - live0, hist.c_str()));
   if(blocks.live.size() != blocks0) vf::viol("blocks-leaked", fmt("%zu blocks not given back to the allocator; %s", blocks.live.size() - blocks0, hist.c_str()));
   vf::stat("evaluations"); if(maxSize > ps) vf::distinct(h);
   if(idx < 3) vf::sample(fmt("case %ld: page size %zu, preallocated %zu: %s", idx, ps, pre, hist.substr(0, 300).c_str()));
   vf::tick();
}

// large stacks and pages: sizes about those of the pages, and about the widths an index may be kept in
template<typename T> struct Large {
   using D = Driver<T>; using V = Val<T>; Rng& r; D d; size_t budget;
   static size_t pageSize(Rng& r) {
      static const size_t A[] = {64, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000};
      return r.chance(1, 4) ? size_t(r.range(1, 9)) : A[r.below(sizeof A / sizeof *A)];
   }
   static size_t limit() { return std::is_same<T, int>::value ? 220000 : std::is_same<T, std::string>::value ? 9000 : 72000; }
   Large(Rng& rr, size_t ps, size_t pre): r(rr), d(ps, pre) { budget = limit(); budget = std::min(budget, ps < 10 ? ps * 40000 : budget); }
   Large(const Large& o): r(o.r), d(o.d, 0), budget(o.budget) {}
   size_t target() {   // a number of elements
      size_t ps = d.ps; if(r.chance(1, 2) && budget / ps) { size_t k = ps * r.range(1, int64_t(budget / ps)); long a = long(r.range(-2, 2)); return size_t(std::max<long>(0, long(k) + a)); }
      static const size_t W[] = {0, 1, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072}; size_t w = W[r.below(11)]; return r.chance(1, 3) && w <= budget ? w : r.below(budget + 1);
   }
   void to(size_t n) {
      auto& st = *d.s; size_t sz = d.n();
      if(n > sz) { log(fmt("grow%zu", n)); d.m.reserve(n);
         while(d.n() < n) { size_t left = n - d.n(); int v = nextValue;
            if(left >= 5 && (v & 7) == 0) { T a = V::mk(v + 1), b = V::mk(v + 2), c = V::mk(v + 3), e = V::mk(v + 4), f = V::mk(v + 5); st.push(a, b, c, e, f); for(int i = 1; i <= 5; ++i) d.m.push_back(v + i); nextValue += 5; }
            else { ++nextValue; if(v & 1) st.push(V::mk(v + 1)); else d.emplace(v + 1); d.m.push_back(v + 1); } }
         vf::stat("large_pushed", (long long)(n - sz)); vf::tick(); return; }
      if(n == sz) return;
      switch(r.below(5)) {
      case 0: { log(fmt("popto%zu", n)); T x = V::mk(0), y = V::mk(0); while(d.n() > n && !vf::violated()) { if(d.n() - n >= 2 && (d.n() & 3) == 0) { st.pop(x, y); d.expect("pop", V::get(x), d.m.back()); d.m.pop_back(); d.expect("pop", V::get(y), d.m.back()); d.m.pop_back(); } else { st.pop(x); d.expect("pop", V::get(x), d.m.back()); d.m.pop_back(); } } break; }
      case 1: log(fmt("discardto%zu", n)); st.discard(sz - n); d.m.resize(n); break;
      case 2: { log(fmt("discardit%zu", n)); auto it = st.begin(); it += sz - 1 - n; st.discard(it); d.m.resize(n); break; }
      case 3: { log(fmt("discardrit%zu", n)); auto it = st.rbegin(); it += n; st.discard(it); d.m.resize(n); break; }
      default: log(fmt("discardft%zu", n)); st.discard(st.from_top(sz - n)); d.m.resize(n); break;
      }
      vf::stat("large_removed", (long long)(sz - n));
   }
   void look() {
      auto& st = *d.s; const auto& cs = st; size_t n = d.n(); auto& m = d.m;
      if(st.size() != n) d.bad("size", fmt("size() is %zu instead of %zu", st.size(), n));
      if(st.empty() != (n == 0)) d.bad("empty", fmt("with %zu elements", n));
      if(vf::violated() || !n) return;
      d.expect("top", V::get(st.top()), m.back());
      for(int i = 0; i < 24 && !vf::violated(); ++i) {
         size_t a = r.chance(1, 2) ? r.below(n) : std::min(n - 1, size_t(std::max<long>(0, long(r.below(n / d.ps + 1) * d.ps) + r.range(-1, 1))));   // position from the bottom
         T x = V::mk(0), y = V::mk(0);
         if(n - a >= 2) { cs.peek_depth(n - a, x, y); d.expect("peek_depth", V::get(y), m[a + 1]); } else cs.peek_depth(n - a, x);
         d.expect("peek_depth", V::get(x), m[a]);
         auto b = st.begin(); b += n - 1 - a; d.expect("begin() +=", V::get(*b), m[a]);
         auto q = cs.rbegin(); q += a; d.expect("rbegin() +=", V::get(*q), m[a]);
         auto f = st.from_top(n - a); auto f2 = f; for(size_t k = 0; k < 6 && a + k < n; ++k, ++f) d.expect("from_top", V::get(*f), m[a + k]);
         for(size_t k = 0; k < 3 && a + k + 1 < n; ++k) { ++f2; d.expect("++", V::get(*f2), m[a + k + 1]); }
         size_t c = r.below(n); auto b2 = st.begin(); b2 += n - 1 - c; if((b == b2) != (a == c) || (b != b2) != (a != c)) d.bad("iterator-equality", fmt("positions %zu and %zu", a, c));
         if(c > a) { auto t = b; t -= c - a; if(!(t == b2)) d.bad("iterator-equality", fmt("-= %zu to position %zu", c - a, c)); d.expect("-=", V::get(*t), m[c]); }
         vf::stat("large_positions");
      }
   }
   void whole() {
      const auto& cs = *d.s; size_t i = 0, n = d.n();
      for(auto it = cs.rbegin(); it != cs.rend(); ++it, ++i) { if(i >= n) { d.bad("iterator-overrun", "goes on after the top"); return; } if(V::get(*it) != d.m[i]) { d.bad("value", fmt("element %zu of %zu is %d instead of %d", i, n, V::get(*it), d.m[i])); return; } }
      if(i != n) { d.bad("iterator-count", fmt("%zu elements of %zu visited", i, n)); return; }
      if(d.ck.iterators && !vf::violated()) d.forward("iterator", cs.begin(), cs.end(), false);
      vf::stat("large_traversals"); vf::tick();
   }
   void pages(long base) {
      if(V::tracked && live - d.othersLive != long(d.n())) d.bad("live-elements", fmt("%ld elements alive with %zu in the stack", live - d.othersLive, d.n()));
      d.s->shrink_to_fit(); if(blocks.dataLive - base != long(d.needPages(d.n()))) d.bad("shrink", fmt("%ld pages kept for %zu elements", blocks.dataLive - base, d.n()));
   }
};
template<typename T> static void large(Rng& r, long idx, Checks ck, const char* prop) {
   size_t ps = Large<T>::pageSize(r), pre = size_t(ps > 2000 ? r.range(1, 3) : r.chance(1, 12) ? 256 * r.range(1, 3) : r.chance(1, 40) && ps < 40 ? 65536 : r.chance(1, 3) ? r.range(5, 300) : r.range(1, 5)); hist.clear(); blocks.dataAllocs = 0; nextValue = 0;
   vf::setContext(fmt("%s large case %ld page size %zu preallocated %zu", prop, idx, ps, pre));
   long live0 = live, data0 = blocks.dataLive; size_t blocks0 = blocks.live.size(); uint64_t h = vf::mix(ps, pre); size_t top = 0;
   {
      Large<T> l(r, ps, pre); l.d.ck = ck; l.d.othersLive = live0; int N = int(r.range(3, 8));
      for(int i = 0; i < N && !vf::violated(); ++i) {
         size_t before = l.d.n(); std::vector<const void*> at; 
         size_t n = l.target();
         if(ck.life) for(auto it = l.d.s->rbegin(); it != l.d.s->rend(); ++it) at.push_back(&*it);
         l.to(n); top = std::max(top, n); l.look(); h = vf::mix(h, n);
         if(ck.life && !vf::violated()) { size_t k = 0; for(auto it = l.d.s->rbegin(); k < std::min(before, n); ++it, ++k) if((const void*)&*it != at[k]) { l.d.bad("element-relocated", fmt("the element at position %zu was at another address", k)); break; } }
         if(!vf::violated() && r.chance(1, 3)) { if(true) { l.pages(data0); l.look(); } }
         if(!vf::violated() && r.chance(1, 3)) l.whole();
         vf::stat("operations");
      }
      if(!vf::violated()) l.whole();
      if(!vf::violated() && !strcmp(prop, "S07")) {
         Large<T> c(l); c.d.othersLive = live - long(c.d.n()); c.look(); c.whole(); c.to(c.target()); c.look(); if(!vf::violated()) { l.look(); l.whole(); }
         Large<T> a(r, Large<T>::pageSize(r), 1); a.to(r.below(2000)); *a.d.s = *l.d.s; a.d.m = l.d.m; a.look(); a.whole(); l.to(l.target()); l.look(); if(!vf::violated()) { a.look(); a.whole(); c.whole(); } vf::stat("large_copies", 2);
      }
      vf::statMax("max_elements", long(top)); vf::statMax("max_page_size", long(ps)); vf::statMax("max_pages", long(top / ps + 1));
   }
   if(live != live0) vf::viol("elements-leaked", fmt("%ld elements alive after the stack was destroyed; %s", live - live0, hist.c_str()));
   if(blocks.live.size() != blocks0) vf::viol("blocks-leaked", fmt("%zu blocks not given back; %s", blocks.live.size() - blocks0, hist.c_str()));
   vf::stat("evaluations"); vf::stat("large_cases"); if(top > ps) vf::distinct(h); vf::tick();
}

// ================================================================== S04
using FD = Driver<El>;
static void rebuild(FD& d, uint64_t seed, int prefix) { Rng r(seed); for(int i = 0; i < prefix; ++i) d.op(r); }

static void caseFaults(Rng& r, long idx) {
   size_t ps, pre; geometry(r, ps, pre); if(ps > 40) ps = 3;
   uint64_t seed = r.next(); int prefix = int(r.below(40)); int kind = int(r.below(12)); int c = int(r.range(2, 5)); uint64_t after = r.next();
   static const char* KIND[] = {"push", "emplace", "push-many", "pop-values", "pop-reverse", "peek", "peek-reverse", "set-top", "copy", "assign", "construct", "sync-read"};
   vf::setContext(fmt("S04 case %ld page size %zu preallocated %zu: %s", idx, ps, pre, KIND[kind]));
   inject.off();
   for(long k = 1;; ++k) {
      hist.clear(); nextValue = 0; long live0 = live; size_t blocks0 = blocks.live.size(); bool thrown = false, completed = false;
      {
         std::unique_ptr<FD> dp; 
         if(kind == 10) {
            inject.arm(k);
            try { dp.reset(new FD(ps, pre)); completed = true; } catch(std::bad_alloc&) { thrown = true; }
            inject.off();
         }
         else {
            dp.reset(new FD(ps, pre)); FD& d = *dp; d.othersLive = live0; rebuild(d, seed, prefix);
            std::unique_ptr<FD> other;
            if(kind == 9) { other.reset(new FD(r.chance(1, 2) ? ps : ps + 1, pre)); Rng r3(after); for(int i = 0; i < 15; ++i) other->op(r3); }
            std::vector<int> old = d.m; size_t sz = d.n(); int base = nextValue; nextValue += 10; hist += "[" + std::string(KIND[kind]) + "] ";
            if(((kind >= 3 && kind <= 7) || kind == 11) && sz == 0) { vf::stat("evaluations"); dp.reset(); break; }
            size_t cc = std::min<size_t>(sz, size_t(c > 4 ? 4 : c)); El a[5] = {El(base + 1), El(base + 2), El(base + 3), El(base + 4), El(base + 5)};
            auto idxOf = [&](const void* p) { for(int i = 0; i < 5; ++i) if(p == &a[i]) return i; return -1; };
            bool usual = false; std::string what;
            inject.arm(k);
            try {
               auto& st = *d.s; const auto& cs = st;
               switch(kind) {
               case 0: st.push(a[0]); break;
               case 1: st.push_emplace(base + 1); break;
               case 2: if(c == 2) st.push(a[0], a[1]); else if(c == 3) st.push(a[0], a[1], a[2]); else if(c == 4) st.push(a[0], a[1], a[2], a[3]); else st.push(a[0], a[1], a[2], a[3], a[4]); break;
               case 3: if(cc == 1) st.pop(a[0]); else if(cc == 2) st.pop(a[0], a[1]); else if(cc == 3) st.pop(a[0], a[1], a[2]); else st.pop(a[0], a[1], a[2], a[3]); break;
               case 4: if(cc == 1) st.pop_reverse(a[0]); else if(cc == 2) st.pop_reverse(a[0], a[1]); else if(cc == 3) st.pop_reverse(a[0], a[1], a[2]); else st.pop_reverse(a[0], a[1], a[2], a[3]); break;
               case 5: if(cc == 1) cs.peek(a[0]); else if(cc == 2) cs.peek(a[0], a[1]); else if(cc == 3) cs.peek(a[0], a[1], a[2]); else cs.peek(a[0], a[1], a[2], a[3]); break;
               case 6: if(cc == 1) cs.peek_reverse(a[0]); else if(cc == 2) cs.peek_depth(sz, a[0], a[1]); else if(cc == 3) cs.peek_reverse(a[0], a[1], a[2]); else cs.peek_depth(sz, a[0], a[1], a[2], a[3]); break;
               case 7: st.top(a[0]); break;
               case 8: { FD::Stack copy(st); (void)copy; break; }
               case 9: { *other->s = st; break; }
               case 11: { if(c % 2) { auto it = st.sync_begin(); for(size_t q = 1; q < cc; ++q) ++it; it.get(a[0]); } else { auto it = cs.sync_begin(); auto copy = it; copy.get(a[0]); } break; }
               }
               completed = true;
            }
            catch(Fault&) { thrown = true; } catch(std::bad_alloc&) { thrown = true; }
            catch(...) { thrown = true; vf::viol("exception-changed", "another exception reached the caller"); }
            if(WatchMutex::held()) { d.bad("left-locked", fmt("%s, %s at event %ld, left the stack's mutex locked", KIND[kind], thrown ? "failing" : "counting", k)); return; }
            bool fired = inject.fired; const void* src = inject.src; const void* dst = inject.dst; inject.off();
            if(completed && fired) { vf::viol("exception-swallowed", fmt("%s returned normally although an element or the allocator threw (event %ld); %s", KIND[kind], k, hist.c_str())); return; }
            (void)usual;
            // what has to be there
            size_t now = d.s->size();
            if(completed) {
               if(kind == 0 || kind == 1) d.m.push_back(base + 1); else if(kind == 2) for(int i = 0; i < c; ++i) d.m.push_back(base + 1 + i);
               else if(kind == 3 || kind == 4) d.m.resize(sz - cc); else if(kind == 7) d.m.back() = base + 1;
               if(kind == 9) other->m = d.m;
            }
            else {
               if(kind == 2) {
                  int failing = idxOf(src);
                  if(now < sz || now >= sz + size_t(c)) { d.bad("failed-push", fmt("size %zu after a failed push of %d values on %zu", now, c, sz)); return; }
                  if(failing >= 0 && now != sz + size_t(failing)) d.bad("failed-push", fmt("%zu values of a multiple push kept, the %d-th failed", now - sz, failing + 1));
                  for(size_t i = sz; i < now; ++i) d.m.push_back(base + 1 + int(i - sz));
               }
               else if(kind == 3) {
                  int failing = idxOf(dst);
                  if(failing >= 0) { if(now != sz - size_t(failing)) d.bad("failed-pop", fmt("size %zu after delivering %d of %zu values of a pop", now, failing, sz)); for(int i = 0; i < failing; ++i) { if(a[i].v != old[sz - 1 - i]) d.bad("failed-pop", "a delivered value is wrong"); } d.m.resize(std::min(sz, now)); }
               }
               else if(now != sz) d.bad("failed-operation-changed-contents", fmt("%s failed at event %ld and left %zu elements instead of %zu", KIND[kind], k, now, sz));
               if(kind == 9) { other->m.clear(); for(auto it = other->s->rbegin(); it != other->s->rend(); ++it) { it->check("found"); other->m.push_back(it->v); } if(other->s->size() != other->m.size()) d.bad("failed-assignment", "sizes disagree"); }
               vf::stat((std::string("fault_") + KIND[kind]).c_str());
            }
            if(vf::violated()) return;
            d.othersLive = live0 + 5 + (other ? long(other->n()) : 0); 
            if(live - d.othersLive != long(d.n())) d.bad("live-elements", fmt("%ld elements alive with %zu in the stack after %s failed at event %ld", live - d.othersLive, d.n(), KIND[kind], k));
            if(kind == 11) { size_t b, dep, cb, cd; d.s->shrink_to_fit(); d.s->getStats(b, dep, cb, cd); if(b != d.needPages(d.n())) d.bad("shrink-not-done", fmt("%zu pages kept for %zu elements after a synchronised iterator failed to read", b, d.n())); }
            // the stack stays usable
            Rng r2(after); d.check(r2, true); d.ck.place = true; d.pushed(0);
            for(int i = 0; i < 14 && !vf::violated(); ++i) { d.op(r2); d.check(r2, i % 3 == 0); }
            if(other) { for(int i = 0; i < 14 && !vf::violated(); ++i) { other->op(r2); other->check(r2, true); } }
            vf::distinct(vf::mix(vf::mix(kind * 64 + k, ps * 8 + pre), sz));
         }
      }
      if(live != live0) vf::viol("elements-leaked", fmt("%ld elements alive at the end, %s failing at event %ld; %s", live - live0, KIND[kind], k, hist.c_str()));
      if(blocks.live.size() != blocks0) vf::viol("blocks-leaked", fmt("%zu blocks not given back, %s failing at event %ld; %s", blocks.live.size() - blocks0, KIND[kind], k, hist.c_str()));
      vf::stat("evaluations"); vf::stat(thrown ? "failures_injected" : "completed");
      vf::tick();
      if(vf::violated() || completed) break;
      if(k > 3000) { vf::viol("endless", "the operation never completes"); break; }
      if(idx < 2 && k == 1) vf::sample(fmt("case %ld: %s failing at event 1 after %s", idx, KIND[kind], hist.substr(0, 300).c_str()));
   }
}

// ================================================================== S07
static void caseCopies(Rng& r, long idx) {
   hist.clear(); nextValue = 0; vf::setContext(fmt("S07 case %ld", idx)); long live0 = live; size_t blocks0 = blocks.live.size(); uint64_t h = 3;
   {
      std::vector<std::unique_ptr<FD>> v;
      auto fix = [&] { long total = 0; for(auto& d: v) total += long(d->n()); for(auto& d: v) { d->othersLive = live0 + total - long(d->n()); } };
      auto all = [&] { long total = 0; for(auto& d: v) total += long(d->n()); if(live - live0 != total) vf::viol("live-elements", fmt("%ld elements alive with %ld in all the stacks; %s", live - live0, total, hist.c_str())); for(auto& d: v) { d->check(r, true); if(vf::violated()) return; } };
      size_t ps, pre; geometry(r, ps, pre); v.emplace_back(new FD(ps, pre));
      int N = int(r.range(8, 45));
      for(int i = 0; i < N && !vf::violated(); ++i) {
         unsigned k = unsigned(r.below(100));
         if(v.empty() || (k < 6 && v.size() < 5)) { geometry(r, ps, pre); log("new"); v.emplace_back(new FD(ps, pre)); }
         else if(k < 18 && v.size() < 6) { size_t a = r.below(v.size()); log(fmt("copy%zu", a)); v.emplace_back(new FD(*v[a], 0)); vf::stat("copies"); if(v[a]->n() > v[a]->ps) vf::stat("multi_page_copies"); }
         else if(k < 30) { size_t a = r.below(v.size()), b = r.below(v.size()); log(fmt("assign%zu=%zu", a, b)); auto& res = (*v[a]->s = *v[b]->s); if(&res != v[a]->s.get()) vf::viol("assignment-result", "operator= doesn't return the stack"); v[a]->m = std::vector<int>(v[b]->m); vf::stat(a == b ? "self_assignments" : "assignments"); }
         else if(k < 36) { size_t a = r.below(v.size()); log(fmt("destroy%zu", a)); v.erase(v.begin() + long(a)); vf::stat("destroyed"); }
         else if(!v.empty()) { size_t a = r.below(v.size()); log(fmt("#%zu", a)); v[a]->op(r); if(r.chance(1, 2)) v[a]->op(r); }
         if(r.chance(1, 5) && !v.empty()) { auto& d = r.pick(v); d->iterators(r); }
         fix(); all(); h = vf::mix(h, k * 8 + v.size()); vf::stat("operations");
      }
      // shrinking and synchronised iterators are the copy's own
      if(v.size() && !vf::violated()) {
         auto& d = *v[0]; { auto it = d.s->sync_begin(); FD c(d, 0); long before = blocks.dataLive; (void)before; c.s->shrink_to_fit(); for(int i = 0; i < 9; ++i) c.op(r); c.othersLive = live - long(c.n()); c.check(r, true); }
         fix(); all();
         // nor do the source's readers hold back the pages of the copy, or a request pending there release them
         if(!vf::violated()) {
            auto pages = [](FD& x) { size_t b, dep, cb, cd; x.s->getStats(b, dep, cb, cd); return b; };
            auto grow = [&](FD& x, size_t n) { while(x.n() < n) { int v = ++nextValue; x.s->push(El(v)); x.m.push_back(v); } };
            auto least = [&](FD& x, const char* what) { x.s->shrink_to_fit(); size_t w = std::max<size_t>(1, x.needPages(x.n())); if(pages(x) != w) vf::viol("copy-not-independent", fmt("%s keeps %zu pages after shrinking, where %zu hold its %zu elements; %s", what, pages(x), w, x.n(), hist.c_str())); vf::stat("copies_shrunk"); };
            grow(d, d.n() + r.below(3 * d.ps + 1)); bool pending = r.chance(1, 2); size_t held = 0;
            size_t g1, g2; geometry(r, g1, g2); FD t(g1, g2); grow(t, r.below(2 * t.ps + 1));
            {
               auto i1 = d.s->sync_begin(); auto i2 = i1; if(pending) { d.s->discard(d.n() / 2); d.m.resize(d.n() - d.n() / 2); held = pages(d); d.s->shrink_to_fit(); if(pages(d) != held) vf::viol("shrunk-under-iterator", hist); }
               FD c(d, 0); bool assigned = r.chance(1, 2); if(assigned) { *t.s = *d.s; t.m = std::vector<int>(d.m); }
               FD* who[2] = {&c, assigned ? &t : nullptr}; const char* name[2] = {"a stack copied while synchronised iterators read the source", "a stack assigned while synchronised iterators read the source"};
               for(int i = 0; i < 2 && !vf::violated(); ++i) if(who[i]) {
                  FD& x = *who[i]; size_t n0 = x.n(); grow(x, n0 + 3 * x.ps); x.s->discard(x.n() - n0); x.m.resize(n0); size_t had = pages(x);
                  { auto own = x.s->sync_begin(); auto o2 = x.s->sync_end(); } if(pages(x) != had) vf::viol("copy-not-independent", fmt("%s gives up pages it wasn't asked to: %zu of %zu left; %s", name[i], pages(x), had, hist.c_str()));
                  least(x, name[i]);
                  if(r.chance(1, 2)) { grow(x, x.n() + 2 * x.ps); x.s->discard(x.n() - n0); x.m.resize(n0); had = pages(x); { auto own = x.s->sync_begin(); x.s->shrink_to_fit(); if(pages(x) != had) vf::viol("shrunk-under-iterator", fmt("%s; %s", name[i], hist.c_str())); } if(pages(x) != std::max<size_t>(1, x.needPages(n0))) vf::viol("copy-not-independent", fmt("%s doesn't shrink when its own iterator is gone; %s", name[i], hist.c_str())); }
               }
               if(pending && pages(d) != held) vf::viol("copy-not-independent", fmt("the source shrank under its iterators; %s", hist.c_str()));
            }
            if(pending && pages(d) != std::max<size_t>(1, d.needPages(d.n()))) vf::viol("copy-not-independent", fmt("the source doesn't shrink when its iterators are gone; %s", hist.c_str()));
            t.s.reset(); fix(); all();
         }
      }
   }
   if(live != live0) vf::viol("elements-leaked", fmt("%ld elements alive at the end; %s", live - live0, hist.c_str()));
   if(blocks.live.size() != blocks0) vf::viol("blocks-leaked", fmt("%zu blocks not given back; %s", blocks.live.size() - blocks0, hist.c_str()));
   vf::stat("evaluations"); vf::distinct(h); vf::tick();
   if(idx < 3) vf::sample(fmt("case %ld: %s", idx, hist.substr(0, 300).c_str()));
}

// ================================================================== S06, one thread: the position model
static void caseSync(Rng& r, long idx) {
   size_t ps, pre; geometry(r, ps, pre); if(ps > 40) ps = 2; hist.clear(); nextValue = 0;
   vf::setContext(fmt("S06 case %ld page size %zu preallocated %zu", idx, ps, pre)); long live0 = live; size_t blocks0 = blocks.live.size(); uint64_t h = vf::mix(ps, pre);
   {
      FD d(ps, pre); d.othersLive = live0; auto& st = *d.s; const auto& cs = st;
      struct It { std::unique_ptr<FD::Stack::sync_iterator> a; std::unique_ptr<FD::Stack::const_sync_iterator> c; size_t pos = 0; bool end = false, loose = false;
         void get(El& e) { if(a) a->get(e); else c->get(e); } void inc() { if(a) ++*a; else ++*c; } void dec() { if(a) --*a; else --*c; } };
      std::vector<It> its; bool requested = false;
      d.ck.pages = true; long had = blocks.dataLive;
      auto dropped = [&] {
         if(!requested && blocks.dataLive < had) d.bad("shrunk-unasked", fmt("%ld pages released with a synchronised iterator, no shrinking was asked for", had - blocks.dataLive));
         if(its.empty() && requested) { requested = false; vf::stat("deferred_shrinks"); if(blocks.dataLive != long(d.needPages(d.n()))) d.bad("shrink-not-done", fmt("%ld pages kept for %zu elements after the last synchronised iterator is gone", blocks.dataLive, d.n())); }
      };
      // resolves where the iterator is after it reported an empty stack
      auto settle = [&](It& i) { if(!i.loose || d.m.empty()) return !i.loose; El e(0); i.get(e); size_t top = d.n() - 1; if(i.pos < d.n() && e.v == d.m[i.pos]) {} else if(e.v == d.m[top]) i.pos = top; else { d.bad("sync-value", fmt("after an emptied stack, the iterator gives %d", e.v)); return false; } i.loose = false; return true; };
      int N = int(r.range(10, 90));
      for(int n = 0; n < N && !vf::violated(); ++n) {
         unsigned k = unsigned(r.below(100)); size_t sz = d.n(); had = blocks.dataLive;
         if(k < 34 && r.chance(1, 10)) {   // another stack's values take the place of all
            size_t g1, g2; geometry(r, g1, g2); if(g1 > 40) g1 = 3; FD::Stack o(g1, g2); std::vector<int> m; for(size_t q = r.below(3 * ps + 2); q > 0; --q) { int x = ++nextValue; o.push(El(x)); m.push_back(x); }
            log(fmt("assign%zu", m.size())); long pages = blocks.dataLive; st = o; d.m = m; vf::stat("assigned_over"); if(!its.empty() && blocks.dataLive < pages) d.bad("shrunk-under-iterator", "pages released by an assignment while a synchronised iterator exists");
         }
         else if(k < 34) { bool had = !its.empty(); long pages = blocks.dataLive; size_t hl = hist.size();
            const char* o = d.op(r); if(!strcmp(o, "shrink") && had) { requested = true; vf::stat("shrinks_requested"); if(blocks.dataLive != pages) d.bad("shrunk-under-iterator", "pages released while a synchronised iterator exists"); } (void)hl; }
         else if(k < 48 && its.size() < 6) { It i; if(r.chance(1, 2)) { i.a.reset(new FD::Stack::sync_iterator(st.sync_begin())); } else if(r.chance(1, 2)) { i.c.reset(new FD::Stack::const_sync_iterator(cs.sync_begin())); } else { i.c.reset(new FD::Stack::const_sync_iterator(st.csync_begin())); }
            i.end = sz == 0; i.pos = sz ? sz - 1 : 0; its.push_back(std::move(i)); log("it"); vf::stat("iterators"); }
         else if(k < 54 && !its.empty() && its.size() < 7) { auto& o = r.pick(its); It i; i.pos = o.pos; i.end = o.end; i.loose = o.loose; if(o.a) i.a.reset(new FD::Stack::sync_iterator(*o.a)); else i.c.reset(new FD::Stack::const_sync_iterator(*o.c)); its.push_back(std::move(i)); log("copy"); vf::stat("iterator_copies"); }
         else if(k < 58 && its.size() > 1) { size_t x = r.below(its.size()), y = r.below(its.size()); if(bool(its[x].a) == bool(its[y].a)) { if(its[x].a) *its[x].a = *its[y].a; else *its[x].c = *its[y].c; its[x].pos = its[y].pos; its[x].end = its[y].end; its[x].loose = its[y].loose; log("assign"); vf::stat("iterator_assignments"); } }
         else if(k < 66 && !its.empty()) { its.erase(its.begin() + long(r.below(its.size()))); log("drop"); dropped(); }
         else if(k < 68) { its.clear(); log("dropall"); dropped(); }
         else if(!its.empty()) {
            auto& i = r.pick(its); if(i.end) { bool e = i.a ? *i.a == st.sync_end() : *i.c == cs.sync_end(); if(!e) d.bad("sync-end", "an iterator that reached the end differs from it"); continue; }
            bool isEnd = i.a ? *i.a == st.sync_end() : *i.c == st.csync_end(); if(isEnd && !i.loose) { d.bad("sync-end", fmt("an iterator at position %zu equals the end", i.pos)); continue; }
            if(sz && i.loose && !settle(i)) continue;
            bool thrown = false; El e(0); int how = int(r.below(4));
            if(how == 3 && !(sz && i.pos < sz && i.pos + 1 >= sz)) {   // stepping back past the top is not allowed
               log("--"); try { i.dec(); } catch(std::runtime_error&) { thrown = true; }
               if(sz) { if(i.pos < sz) ++i.pos; else { i.pos = sz - 1; vf::stat("resynchronised"); } }
            }
            else if(how == 2) { log("++"); try { i.inc(); } catch(std::runtime_error&) { thrown = true; } if(sz) { if(i.pos < sz) { if(i.pos == 0) i.end = true; else --i.pos; } else { i.pos = sz - 1; vf::stat("resynchronised"); } } }
            else { log("get"); try { i.get(e); } catch(std::runtime_error&) { thrown = true; }
               if(sz && !thrown) { size_t want = i.pos < sz ? i.pos : sz - 1; if(e.v != d.m[want]) d.bad("sync-value", fmt("the iterator gives %d instead of %d (position %zu of %zu)", e.v, d.m[want], i.pos, sz)); if(i.pos >= sz) vf::stat("resynchronised"); i.pos = want; vf::stat("values_read"); } }
            if(thrown != (sz == 0)) d.bad("sync-empty", fmt("the iterator %s with %zu elements", thrown ? "threw" : "did not throw", sz));
            if(thrown) { vf::stat("emptied_reported"); i.loose = true; }
         }
         else {
            // unmodified: visit all
            size_t q = sz; if(r.chance(1, 2)) { for(auto it = st.sync_begin(); it != st.sync_end() && !vf::violated(); ++it) { El e(0); it.get(e); if(q == 0 || e.v != d.m[--q]) d.bad("sync-traversal", "wrong element"); } }
            else { for(auto it = cs.sync_begin(); it != cs.sync_end() && !vf::violated(); ++it) { El e(0); it.get(e); if(q == 0 || e.v != d.m[--q]) d.bad("sync-traversal", "wrong element"); } }
            if(q) d.bad("sync-traversal", fmt("%zu elements not visited", q)); vf::stat("sync_traversals");
         }
         h = vf::mix(h, k * 16 + its.size()); h = vf::mix(h, d.n());
         if(!vf::violated()) d.check(r, n % 5 == 0);
         vf::stat("operations");
      }
      had = blocks.dataLive; its.clear(); if(!vf::violated()) dropped();
   }
   if(live != live0) vf::viol("elements-leaked", fmt("%ld elements alive at the end; %s", live - live0, hist.c_str()));
   if(blocks.live.size() != blocks0) vf::viol("blocks-leaked", "blocks not given back");
   vf::stat("evaluations"); vf::distinct(h); vf::tick();
   if(idx < 3) vf::sample(fmt("case %ld: page size %zu: %s", idx, ps, hist.substr(0, 300).c_str()));
}

// S06: iterators that move from one stack to another by assignment
static void caseSyncSeveral(Rng& r, long idx) {
   hist.clear(); nextValue = 0; vf::setContext(fmt("S06 several stacks, case %ld", idx)); long live0 = live; size_t blocks0 = blocks.live.size(); uint64_t h = 11;
   {
      using A = FD::Stack::sync_iterator; using B = FD::Stack::const_sync_iterator;
      struct It { std::unique_ptr<A> a; std::unique_ptr<B> c; size_t of, pos; };
      struct One { std::unique_ptr<FD> d; bool requested = false; size_t held = 0; };
      std::vector<One> v(size_t(r.range(2, 3))); std::vector<It> its;
      auto pages = [&](One& o) { size_t b, dep, cb, cd; o.d->s->getStats(b, dep, cb, cd); return b; };
      auto put = [&](One& o, size_t n) { while(n--) { int x = ++nextValue; o.d->s->push(El(x)); o.d->m.push_back(x); } };
      for(auto& o: v) { size_t ps, pre; geometry(r, ps, pre); if(ps > 40) ps = 3; o.d.reset(new FD(ps, pre)); put(o, r.range(1, int64_t(3 * ps))); }
      auto count = [&](size_t of) { size_t n = 0; for(auto& i: its) n += i.of == of; return n; };
      auto look = [&] {
         for(size_t k = 0; k < v.size() && !vf::violated(); ++k) { auto& o = v[k]; size_t p = pages(o), n = count(k), least = o.d->needPages(o.d->n());
            if(n && p < o.held) vf::viol("shrunk-under-iterator", fmt("stack %zu has %zu pages of %zu with %zu iterators; %s", k, p, o.held, n, hist.c_str()));
            if(!n && o.requested) { if(p != least) vf::viol("shrink-not-done", fmt("stack %zu keeps %zu pages, %zu needed, after its last iterator is gone; %s", k, p, least, hist.c_str())); o.requested = false; vf::stat("deferred_shrinks"); }
            else if(!n && p < o.held) vf::viol("shrunk-unasked", fmt("stack %zu has %zu pages of %zu; %s", k, p, o.held, hist.c_str()));
            o.held = p;
         } };
      int N = int(r.range(10, 60));
      for(int n = 0; n < N && !vf::violated(); ++n) {
         unsigned k = unsigned(r.below(100)); size_t w = r.below(v.size()); One& o = v[w]; FD& d = *o.d;
         if(k < 12) { put(o, r.range(1, int64_t(2 * d.ps))); log(fmt("#%zu push", w)); }
         else if(k < 26) { if(d.n() > 1) { size_t x = r.range(1, int64_t(d.n()) - 1); d.s->discard(x); d.m.resize(d.n() - x); log(fmt("#%zu discard%zu", w, x)); } }
         else if(k < 40) { log(fmt("#%zu shrink", w)); size_t least = d.needPages(d.n()); if(count(w)) { o.requested = true; vf::stat("shrinks_requested"); } else { o.held = std::min(o.held, least); } d.s->shrink_to_fit(); if(!count(w)) { if(pages(o) != least) vf::viol("shrink-not-done", hist); o.held = pages(o); } }
         else if(k < 58 && its.size() < 6) { It i; if(r.chance(1, 2)) i.a.reset(new A(d.s->sync_begin())); else i.c.reset(new B(const_cast<const FD::Stack&>(*d.s).sync_begin())); i.of = w; i.pos = d.n() - 1; its.push_back(std::move(i)); log(fmt("#%zu it", w)); }
         else if(k < 78 && its.size()) { It &x = r.pick(its), &y = r.pick(its); if(bool(x.a) == bool(y.a)) { log(fmt("assign#%zu=#%zu%s", x.of, y.of, &x == &y ? " itself" : "")); if(x.of != y.of) vf::stat("iterators_moved_over"); if(x.a) *x.a = *y.a; else *x.c = *y.c; x.of = y.of; x.pos = y.pos; } }
         else if(k < 86 && its.size()) { auto i = its.begin() + long(r.below(its.size())); log(fmt("drop#%zu", i->of)); its.erase(i); }
         else if(its.size()) { It& i = r.pick(its); FD& e = *v[i.of].d; if(i.a ? *i.a == e.s->sync_end() : *i.c == e.s->csync_end()) vf::viol("sync-end", hist);
            El x(0); if(i.a) i.a->get(x); else i.c->get(x); size_t want = i.pos < e.n() ? i.pos : e.n() - 1; if(x.v != e.m[want]) vf::viol("sync-value", fmt("an iterator gives %d instead of %d (position %zu of %zu on stack %zu); %s", x.v, e.m[want], i.pos, e.n(), i.of, hist.c_str())); i.pos = want; vf::stat("values_read");
            if(want && r.chance(1, 2)) { if(i.a) ++*i.a; else ++*i.c; --i.pos; } }
         look(); h = vf::mix(h, k * 8 + w); vf::stat("operations");
      }
      // nor does an iterator keep a stack it no longer looks at from being destroyed
      while(v.size() > 1 && its.size() && !vf::violated()) { size_t of = r.below(v.size()); if(count(of)) { for(auto& i: its) if(i.of == of) { for(auto& j: its) if(j.of != of && bool(j.a) == bool(i.a)) { if(i.a) *i.a = *j.a; else *i.c = *j.c; i.of = j.of; i.pos = j.pos; break; } } look(); its.erase(std::remove_if(its.begin(), its.end(), [&](It& i) { return i.of == of; }), its.end()); look(); }
         v.erase(v.begin() + long(of)); for(auto& i: its) if(i.of > of) --i.of; vf::stat("destroyed");
         for(auto& i: its) { FD& e = *v[i.of].d; El x(0); if(i.a) i.a->get(x); else i.c->get(x); size_t want = i.pos < e.n() ? i.pos : e.n() - 1; if(x.v != e.m[want]) vf::viol("sync-value", hist); i.pos = want; } }
      its.clear(); if(!vf::violated()) look();
   }
   if(live != live0) vf::viol("elements-leaked", fmt("%ld elements alive at the end; %s", live - live0, hist.c_str()));
   if(blocks.live.size() != blocks0) vf::viol("blocks-leaked", "blocks not given back");
   vf::stat("evaluations"); vf::distinct(h); vf::tick();
}

// S06: many iterators at once, on small and large pages
static void caseSyncMany(Rng& r, long idx) {
   static const size_t C[] = {2, 100, 127, 128, 129, 255, 256, 257, 258, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
   size_t ps = r.chance(1, 3) ? Large<El>::pageSize(r) : size_t(r.range(1, 8)), count = C[r.below(sizeof C / sizeof *C)]; hist.clear(); nextValue = 0; size_t blocks0 = blocks.live.size(); long live0 = live, data0 = blocks.dataLive;
   vf::setContext(fmt("S06 many iterators, case %ld page size %zu, %zu iterators", idx, ps, count));
   {
      Large<El> l(r, ps, size_t(r.range(1, 3))); FD& d = l.d; d.othersLive = live0; l.to(std::min<size_t>(l.budget, r.chance(1, 2) ? ps * r.range(1, 5) + r.below(3) : r.range(1, 3000)));
      auto& st = *d.s; const auto& cs = st; using A = FD::Stack::sync_iterator; using B = FD::Stack::const_sync_iterator;
      struct It { std::unique_ptr<A> a; std::unique_ptr<B> c; size_t pos; }; std::vector<It> its;
      while(its.size() < count) {
         It i; size_t n = d.n();
         if(its.empty() || r.chance(1, 3)) { if(r.chance(1, 2)) i.a.reset(new A(st.sync_begin())); else i.c.reset(new B(r.chance(1, 2) ? cs.sync_begin() : st.csync_begin())); i.pos = n - 1; }
         else { auto& o = its[r.chance(1, 2) ? its.size() - 1 : r.below(its.size())]; i.pos = o.pos; if(o.a) i.a.reset(new A(*o.a)); else i.c.reset(new B(*o.c)); }
         size_t steps = std::min<size_t>(i.pos, r.below(4)); i.pos -= steps; while(steps--) { if(i.a) ++*i.a; else ++*i.c; }
         its.push_back(std::move(i));
      }
      vf::tick(); vf::statMax("max_iterators", long(count)); size_t pages = size_t(blocks.dataLive - data0); bool requested = false;
      auto request = [&] { st.shrink_to_fit(); requested = true; vf::stat("shrinks_requested"); if(size_t(blocks.dataLive - data0) < pages) d.bad("shrunk-under-iterator", fmt("pages released while %zu synchronised iterators exist", its.size())); };
      auto change = [&] { size_t n = d.n(); if(r.chance(1, 2) || n < 2) l.to(std::min(l.budget, n + r.below(2 * std::min<size_t>(ps, 2000) + 5))); else l.to(r.range(1, int64_t(n))); pages = size_t(blocks.dataLive - data0); };
      auto read = [&](It& i) { El e(0); if(i.a) i.a->get(e); else i.c->get(e); size_t want = i.pos < d.n() ? i.pos : d.n() - 1; if(e.v != d.m[want]) d.bad("sync-value", fmt("an iterator gives %d instead of %d (position %zu of %zu, %zu iterators)", e.v, d.m[want], i.pos, d.n(), its.size())); i.pos = want; vf::stat("values_read"); };
      if(r.chance(1, 2)) request();
      change(); 
      while(its.size() && !vf::violated()) {
         if(r.chance(1, 4)) request(); if(r.chance(1, 4)) change();
         for(int k = 0; k < 20 && !vf::violated(); ++k) read(r.pick(its));
         size_t leave = its.size() > 300 && r.chance(1, 2) ? C[r.below(14)] : r.below(its.size()); if(leave >= its.size()) leave = its.size() - 1; if(its.size() > 3 && leave == 0) leave = r.range(1, 3);
         while(its.size() > leave) { std::swap(r.pick(its), its.back()); its.pop_back(); }
         if(leave && size_t(blocks.dataLive - data0) < pages) d.bad("shrunk-under-iterator", fmt("pages released while %zu synchronised iterators exist", its.size()));
         vf::tick();
      }
      if(requested && !vf::violated()) { vf::stat("deferred_shrinks"); if(size_t(blocks.dataLive - data0) != d.needPages(d.n())) d.bad("shrink-not-done", fmt("%ld pages kept for %zu elements after the last of %zu synchronised iterators is gone", blocks.dataLive - data0, d.n(), count)); }
      if(!vf::violated()) { l.look(); l.whole(); st.shrink_to_fit(); if(size_t(blocks.dataLive - data0) != d.needPages(d.n())) d.bad("shrink-not-done", "without iterators"); }
   }
   if(live != live0 && !vf::violated()) vf::viol("elements-leaked", hist);
   if(blocks.live.size() != blocks0 && !vf::violated()) vf::viol("blocks-leaked", hist);
   vf::stat("evaluations"); vf::stat("many_iterators"); vf::distinct(vf::mix(count, ps * 1000 + idx)); vf::tick();
}

// ================================================================== concurrency
struct P2 { long a, b; P2(long x = 0): a(x), b(~x) {} bool ok() const { return b == ~a; } };
using MStack = falcon::PagedStack<P2, std::allocator, std::mutex>;
static void setDelays(Rng& r) { static const unsigned rates[] = {0, 0, 30, 120, 400}; vf::Delays::rate() = rates[r.below(5)]; vf::Delays::seed() = r.next() | 1; }

// S06 with threads
static void caseSyncMT(Rng& r, long idx) {
   setDelays(r); size_t ps = r.range(1, 6), pre = r.range(1, 3); int I = int(r.range(1, 3)), P = int(r.range(0, 2)); int N = int(r.range(40, 250));
   vf::setContext(fmt("S06 concurrent case %ld page size %zu iterators %d pushers %d", idx, ps, I, P));
   std::vector<long> reads(I, 0), ends(I, 0), empties(I, 0); 
   {
      MStack s(ps, pre); std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int i = 0; i < I + P + 1; ++i) seeds.push_back(r.next());
      th.emplace_back([&] { Rng rr(seeds[0]); size_t own = 0;
         for(int n = 0; n < N; ++n) { vf::tick();
            switch(rr.below(10)) {
            case 0: case 1: case 2: s.push(P2(n)); ++own; break;
            case 3: s.push(P2(n), P2(n + 1), P2(n + 2)); own += 3; break;
            case 4: if(own) { s.pop(); --own; } break;
            case 5: if(own > 1) { P2 a, b; s.pop(a, b); own -= 2; if(!a.ok() || !b.ok()) vf::viol("torn-value", "popped"); } break;
            case 6: { size_t c = rr.below(own + 1); s.discard(c); own -= c; break; }
            case 7: if(rr.chance(1, 4)) { s.clear(); own = 0; } else if(rr.chance(1, 4)) { MStack o(2, 1); for(own = rr.below(6); o.size() < own; ) o.push(P2(n)); s = o; } else if(rr.chance(1, 4)) { MStack c(s); } break;
            case 8: s.shrink_to_fit(); break;
            default: if(own) { if(rr.chance(1, 2)) s.top(P2(n)); else { P2 a; s.pop_reverse(a); --own; } }
            }
            if(rr.chance(1, 8)) std::this_thread::yield();
         } });
      for(int p = 0; p < P; ++p) th.emplace_back([&, p] { Rng rr(seeds[1 + p]); for(int n = 0; n < N / 2; ++n) { if(rr.chance(1, 2)) s.push(P2(n)); else s.push_emplace(n); if(rr.chance(1, 10)) s.shrink_to_fit(); vf::tick(); } });
      for(int i = 0; i < I; ++i) th.emplace_back([&, i] { Rng rr(seeds[1 + P + i]); const MStack& cs = s;
         for(int round = 0; round < N / 8 + 1; ++round) { vf::tick();
            auto walk = [&](auto it, auto endFn) {
               try { for(int k = 0; k < 60 && it != endFn(); ++k) { P2 v; it.get(v); if(!v.ok() || v.a < 0 || v.a > N + 3) vf::viol("sync-invented-value", fmt("a synchronised iterator gave a value never pushed (%ld)", v.a)); ++reads[i];
                     if(rr.chance(1, 6)) { auto c = it; P2 w; c.get(w); if(!w.ok()) vf::viol("sync-invented-value", "copied iterator"); if(rr.chance(1, 2)) it = c; }
                     if(rr.chance(1, 12)) break;
                     ++it; }
                  ++ends[i]; }
               catch(const std::runtime_error&) { ++empties[i]; } };
            if(rr.chance(1, 2)) walk(s.sync_begin(), [&] { return s.sync_end(); }); else walk(cs.sync_begin(), [&] { return cs.sync_end(); });
            if(rr.chance(1, 8)) s.shrink_to_fit();
         } });
      for(auto& t: th) t.join();
      // the stack is consistent, and shrinks now
      size_t n = s.size(), k = 0; for(auto it = s.begin(); it != s.end(); ++it) { if(!it->ok()) vf::viol("torn-value", "left in the stack"); ++k; }
      if(n != k) vf::viol("size", fmt("size() %zu, %zu elements visited", n, k));
      s.shrink_to_fit(); size_t b, dep, cb, cd; s.getStats(b, dep, cb, cd); if(b != std::max<size_t>(1, (n + ps - 1) / ps)) vf::viol("shrink-not-done", fmt("%zu pages for %zu elements", b, n));
   }
   long rd = 0, em = 0; for(int i = 0; i < I; ++i) { rd += reads[i]; em += empties[i]; }
   vf::stat("concurrent_reads", rd); vf::stat("concurrent_empties", em); vf::stat("evaluations"); vf::distinct(vf::mix(rd * 1000 + em, idx));
}

// S05: linearizability of short histories
struct Call { int op = 0; int k = 0; std::vector<long> in, out; size_t n = 0; uint64_t call = 0, ret = 0; };
enum { C_PUSH, C_PUSHN, C_POP, C_POPR, C_PEEK, C_PEEKR, C_SIZE, C_EMPTY, C_DISCARD, C_SETTOP, C_EMPLACE, C_SHRINK, C_CLEAR, C_POP0, C_DEPTH, C_COPY, C_COPYTO, C_LOCKED, C_ASSIGN };
static const char* CN[] = {"push", "pushn", "pop", "pop_reverse", "peek", "peek_reverse", "size", "empty", "discard", "settop", "emplace", "shrink", "clear", "pop()", "peek_depth", "copy", "copy by assignment", "traversal under the lock", "assign"};
static void perform(MStack& s, Call& c) {
   P2 v[3]; auto in = [&](int i) { return P2(c.in[i]); };
   auto readAll = [&](const MStack& t) { for(auto it = t.rbegin(); it != t.rend(); ++it) { c.out.push_back(it->a); if(!it->ok()) vf::viol("torn-value", CN[c.op]); } };
   std::unique_ptr<MStack> other; if(c.op == C_COPYTO || c.op == C_ASSIGN) { other.reset(new MStack(size_t(c.k), 1)); for(int i = 0; i < (c.op == C_ASSIGN ? 3 : c.k); ++i) other->push(in(i)); }
   c.call = vf::stamp();
   switch(c.op) {
   case C_PUSH: s.push(in(0)); break;
   case C_EMPLACE: s.push_emplace(c.in[0]); break;
   case C_PUSHN: if(c.k == 2) s.push(in(0), in(1)); else s.push(in(0), in(1), in(2)); break;
   case C_POP0: s.pop(); break;
   case C_POP: if(c.k == 1) s.pop(v[0]); else if(c.k == 2) s.pop(v[0], v[1]); else s.pop(v[0], v[1], v[2]); break;
   case C_POPR: if(c.k == 1) s.pop_reverse(v[0]); else if(c.k == 2) s.pop_reverse(v[0], v[1]); else s.pop_reverse(v[0], v[1], v[2]); break;
   case C_PEEK: if(c.k == 1) s.peek(v[0]); else if(c.k == 2) s.peek(v[0], v[1]); else s.peek(v[0], v[1], v[2]); break;
   case C_PEEKR: if(c.k == 1) s.peek_reverse(v[0]); else if(c.k == 2) s.peek_reverse(v[0], v[1]); else s.peek_reverse(v[0], v[1], v[2]); break;
   case C_DEPTH: if(c.k == 1) s.peek_depth(c.n, v[0]); else s.peek_depth(c.n, v[0], v[1]); break;
   case C_SIZE: c.n = s.size(); break;
   case C_EMPTY: c.n = s.empty(); break;
   case C_DISCARD: s.discard(size_t(c.k)); break;
   case C_SETTOP: s.top(in(0)); break;
   case C_SHRINK: s.shrink_to_fit(); break;
   case C_CLEAR: s.clear(); break;
   case C_COPY: other.reset(new MStack(s)); break;
   case C_COPYTO: *other = s; break;
   case C_LOCKED: { MStack::lock_guard guard(&s); const MStack& cs = s; readAll(cs); break; }
   case C_ASSIGN: s = *other; break;
   }
   c.ret = vf::stamp();
   if(c.op == C_COPY || c.op == C_COPYTO) { readAll(*other); if(other->size() != c.out.size()) vf::viol("copy-size", CN[c.op]); vf::stat("concurrent_copies"); }
   if(c.op == C_POP || c.op == C_POPR || c.op == C_PEEK || c.op == C_PEEKR || c.op == C_DEPTH) for(int i = 0; i < c.k; ++i) { c.out.push_back(v[i].a); if(!v[i].ok()) vf::viol("torn-value", CN[c.op]); }
}
static bool applyModel(std::vector<long>& m, const Call& c) {
   size_t n = m.size();
   switch(c.op) {
   case C_PUSH: case C_EMPLACE: m.push_back(c.in[0]); return true;
   case C_PUSHN: for(int i = 0; i < c.k; ++i) m.push_back(c.in[i]); return true;
   case C_POP0: m.pop_back(); return true;
   case C_POP: for(int i = 0; i < c.k; ++i) { if(m.back() != c.out[i]) return false; m.pop_back(); } return true;
   case C_POPR: for(int i = 0; i < c.k; ++i) if(m[n - c.k + i] != c.out[i]) return false; m.resize(n - c.k); return true;
   case C_PEEK: for(int i = 0; i < c.k; ++i) if(m[n - 1 - i] != c.out[i]) return false; return true;
   case C_PEEKR: for(int i = 0; i < c.k; ++i) if(m[n - c.k + i] != c.out[i]) return false; return true;
   case C_DEPTH: for(int i = 0; i < c.k; ++i) if(m[n - c.n + i] != c.out[i]) return false; return true;
   case C_SIZE: return c.n == n;
   case C_EMPTY: return c.n == m.empty();
   case C_DISCARD: m.resize(n - c.k); return true;
   case C_SETTOP: m.back() = c.in[0]; return true;
   case C_CLEAR: m.clear(); return true;
   case C_COPY: case C_COPYTO: case C_LOCKED: return c.out == m;
   case C_ASSIGN: m = c.in; return true;
   default: return true;
   }
}
static bool linearize(std::vector<std::vector<Call>>& th, std::vector<size_t>& at, const std::vector<long>& m, const std::vector<long>& fin, std::set<std::pair<std::vector<size_t>, std::vector<long>>>& seen) {
   bool done = true; uint64_t minRet = ~0ull;
   for(size_t t = 0; t < th.size(); ++t) if(at[t] < th[t].size()) { done = false; minRet = std::min(minRet, th[t][at[t]].ret); }
   if(done) return m == fin;
   if(!seen.insert({at, m}).second) return false;
   for(size_t t = 0; t < th.size(); ++t) {
      if(at[t] >= th[t].size() || th[t][at[t]].call > minRet) continue;
      std::vector<long> m2 = m; if(!applyModel(m2, th[t][at[t]])) continue;
      at[t]++; bool ok = linearize(th, at, m2, fin, seen); at[t]--;
      if(ok) return true;
   }
   return false;
}
static void caseLin(Rng& r, long idx) {
   setDelays(r); int T = int(r.range(2, 4)); int K = int(r.range(2, 5)); size_t ps = r.range(1, 5); bool withClear = r.chance(1, 6);
   vf::setContext(fmt("S05 case %ld threads %d page size %zu", idx, T, ps));
   MStack s(ps, r.range(1, 2)); std::vector<long> m, fin; long next = 1; size_t base = withClear ? r.below(4) : size_t(T * K * 3) + r.below(4);
   for(size_t i = 0; i < base; ++i) { s.push(P2(next)); m.push_back(next++); }
   std::vector<std::vector<Call>> th(T);
   for(auto& t: th) for(int i = 0; i < K; ++i) {
      Call c; static const int A[] = {C_PUSH, C_PUSH, C_PUSHN, C_PUSHN, C_POP, C_POP, C_POP, C_POPR, C_POPR, C_PEEK, C_PEEKR, C_SIZE, C_EMPTY, C_DISCARD, C_SETTOP, C_EMPLACE, C_SHRINK, C_POP0, C_DEPTH, C_COPY, C_COPYTO, C_LOCKED};
      static const int B[] = {C_PUSH, C_PUSHN, C_EMPLACE, C_CLEAR, C_SIZE, C_EMPTY, C_SHRINK, C_COPY, C_COPYTO, C_ASSIGN, C_LOCKED};
      c.op = withClear ? B[r.below(11)] : A[r.below(22)]; c.k = c.op == C_PUSHN ? int(r.range(2, 3)) : c.op == C_DEPTH ? int(r.range(1, 2)) : int(r.range(1, 3)); if(c.op == C_DEPTH) c.n = size_t(r.range(2, 5));
      for(int q = 0; q < 3; ++q) c.in.push_back(next++);
      t.push_back(c);
   }
   { std::vector<std::thread> v; vf::Barrier bar(T); for(int t = 0; t < T; ++t) v.emplace_back([&, t] { bar.wait(); for(auto& c: th[t]) perform(s, c); }); for(auto& t: v) t.join(); }
   for(auto it = s.rbegin(); it != s.rend(); ++it) fin.push_back(it->a);
   std::vector<size_t> at(T, 0); std::set<std::pair<std::vector<size_t>, std::vector<long>>> seen; uint64_t h = T; bool overlap = false;
   std::string d; for(int t = 0; t < T; ++t) for(auto& c: th[t]) { d += fmt("t%d %s%d[%lu,%lu]", t, CN[c.op], c.k, (unsigned long)c.call, (unsigned long)c.ret); for(auto x: c.out) d += fmt(" %ld", x); d += "; "; for(int u = 0; u < T; ++u) if(u != t) for(auto& o: th[u]) if(o.call < c.ret && c.call < o.ret) overlap = true; }
   if(!linearize(th, at, m, fin, seen)) { std::string f; for(auto x: fin) f += fmt("%ld ", x); vf::viol("not-linearizable", fmt("no order of the calls explains: %s final %s (initially 1..%zu)", d.c_str(), f.c_str(), base)); }
   for(int t = 0; t < T; ++t) for(auto& c: th[t]) { h = vf::mix(h, c.op); for(auto x: c.out) h = vf::mix(h, x); }
   for(auto x: fin) h = vf::mix(h, x);
   vf::stat("evaluations"); vf::stat("calls", T * K); vf::stat("overlapping_histories", overlap); if(overlap) vf::distinct(h); vf::statMax("max_states", (long)seen.size()); vf::tick();
   if(idx < 2) vf::sample(fmt("case %ld: %s", idx, d.substr(0, 400).c_str()));
}
// S05: stacks copied and assigned to each other by several threads while they're changed; values come and go in pairs
static void caseCross(Rng& r, long idx) {
   setDelays(r); int T = int(r.range(2, 5)); int N = int(r.range(20, 150)); size_t S = r.range(1, 3); size_t ps = r.range(1, 9);
   vf::setContext(fmt("S05 cross %ld threads %d stacks %zu page size %zu", idx, T, S, ps));
   std::vector<std::unique_ptr<MStack>> st; for(size_t i = 0; i < S; ++i) { st.emplace_back(new MStack(r.range(1, 9), r.range(1, 2))); for(int q = 0; q < int(r.below(6)); ++q) st[i]->push(P2(q * 2 + 2), P2(q * 2 + 3)); }
   // every value is even when lower, and the one above it its successor
   auto judge = [&](const MStack& t, const char* what) {
      long low = 0; size_t n = 0; for(auto it = t.rbegin(); it != t.rend(); ++it, ++n) { if(!it->ok()) vf::viol("torn-value", what); if(n % 2 == 0) low = it->a; else if(it->a != low + 1) { vf::viol("pair-split", fmt("%s holds %ld above %ld", what, it->a, low)); return; } }
      if(n % 2) vf::viol("pair-split", fmt("%s holds %zu values, and they come in pairs", what, n));
   };
   std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
   vf::Barrier bar(T);
   for(int t = 0; t < T; ++t) th.emplace_back([&, t] { Rng rr(seeds[t]); long next = (t + 1) * 1000000; bar.wait();
      for(int i = 0; i < N; ++i) { vf::tick(); MStack& a = *st[rr.below(S)]; MStack& b = *st[rr.below(S)];
         switch(rr.below(8)) {
         case 0: case 1: a.push(P2(next), P2(next + 1)); next += 2; break;
         case 2: { MStack c(a); judge(c, "a copy"); vf::stat("concurrent_copies"); if(rr.chance(1, 2)) { P2 x, y; c.push(P2(next), P2(next + 1)); next += 2; c.pop(x, y); } break; }
         case 3: case 4: a = b; vf::stat(&a == &b ? "concurrent_self_assignments" : "concurrent_assignments"); break;
         case 5: { MStack c(2, 1); c.push(P2(next), P2(next + 1), P2(next + 2), P2(next + 3)); next += 4; a = c; break; }
         case 6: { MStack c(3, 1); c = a; judge(c, "a stack assigned from another"); break; }
         default: if(rr.chance(1, 3)) a.clear(); else { MStack::lock_guard guard(&a); const MStack& ca = a; judge(ca, "a locked stack"); vf::stat("locked_traversals"); }
         }
      } });
   for(auto& t: th) t.join();
   uint64_t h = S; for(auto& s: st) { judge(*s, "a stack in the end"); h = vf::mix(h, s->size()); for(auto it = s->rbegin(); it != s->rend(); ++it) h = vf::mix(h, it->a); }
   vf::stat("evaluations"); vf::stat("cross_operations", T * N); vf::distinct(h); vf::tick();
}
// S05: long runs, conservation
static void caseStress(Rng& r, long idx) {
   setDelays(r); int T = int(r.range(2, 6)); int N = int(r.range(50, 600)); size_t ps = r.range(1, 9);
   vf::setContext(fmt("S05 stress %ld threads %d page size %zu", idx, T, ps));
   MStack s(ps, 1); size_t base = size_t(T) * 4; for(size_t i = 0; i < base; ++i) s.push(P2(long(i + 1)));
   std::vector<std::vector<long>> pushed(T), popped(T); std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
   for(int t = 0; t < T; ++t) th.emplace_back([&, t] { Rng rr(seeds[t]); long next = (t + 1) * 1000000; long credit = 4;   // what this thread may take out, its share of the base included
      for(int i = 0; i < N; ++i) { vf::tick();
         switch(rr.below(9)) {
         case 0: case 1: s.push(P2(next)); pushed[t].push_back(next++); ++credit; break;
         case 2: { long a = next; next += 3; s.push(P2(a), P2(a + 1), P2(a + 2)); for(int q = 0; q < 3; ++q) pushed[t].push_back(a + q); credit += 3; break; }
         case 3: s.push_emplace(next); pushed[t].push_back(next++); ++credit; break;
         case 4: if(credit >= 1) { P2 a; s.pop(a); if(!a.ok()) vf::viol("torn-value", "pop"); popped[t].push_back(a.a); --credit; } break;
         case 5: if(credit >= 2) { P2 a, b; s.pop(a, b); if(!a.ok() || !b.ok()) vf::viol("torn-value", "pop2"); popped[t].push_back(a.a); popped[t].push_back(b.a); credit -= 2; } break;
         case 6: if(credit >= 2) { P2 a, b; s.pop_reverse(a, b); if(!a.ok() || !b.ok()) vf::viol("torn-value", "pop_reverse"); popped[t].push_back(a.a); popped[t].push_back(b.a); credit -= 2; } break;
         case 7: if(credit >= 1) { P2 a; s.peek(a); if(!a.ok()) vf::viol("torn-value", "peek"); } break;
         default: {   // one call at a time: a further one would order it with the other threads' operations
            const MStack& cs = s; size_t b, d, c, e; P2 a, a2;
            for(int rep = rr.chance(1, 4) ? int(rr.below(40)) : 1; rep > 0; --rep) switch(rr.below(credit >= 2 ? 11 : 5)) {
            case 0: case 1: s.shrink_to_fit(); break;
            case 2: (void)cs.size(); break;
            case 3: (void)cs.empty(); break;
            case 4: cs.getStats(b, d, c, e); if(d != ps || c < 1 || c > b || e > ps) vf::viol("statistics", fmt("%zu pages of %zu, %zu in use, %zu elements in the last", b, d, c, e)); vf::stat("statistics_read"); break;
            case 5: cs.peek_depth(1, a); if(!a.ok()) vf::viol("torn-value", "peek_depth"); break;
            case 6: cs.peek_reverse(a, a2); if(!a.ok() || !a2.ok()) vf::viol("torn-value", "peek_reverse"); break;
            case 7: cs.peek(a, a2); if(!a.ok() || !a2.ok()) vf::viol("torn-value", "peek"); break;
            case 8: cs.peek_depth(2, a); if(!a.ok()) vf::viol("torn-value", "peek_depth"); break;
            case 9: (void)&cs.top(); break;
            case 10: (void)s.from_top(1 + rr.below(2)); (void)cs.from_top(1); break;
            }
            if(rr.chance(1, 2)) for(volatile int spin = int(rr.below(2000)); spin > 0; spin = spin - 1) {}
         }
         }
      } });
   for(auto& t: th) t.join();
   std::map<long, int> count; for(size_t i = 0; i < base; ++i) count[long(i + 1)]++; for(auto& v: pushed) for(auto x: v) count[x]++;
   for(auto& v: popped) for(auto x: v) if(--count[x] < 0) vf::viol("value-duplicated", fmt("value %ld was popped twice, or never pushed", x));
   size_t left = 0; for(auto it = s.begin(); it != s.end(); ++it) { ++left; if(--count[it->a] < 0) vf::viol("value-duplicated", fmt("value %ld left in the stack was popped, or never pushed", it->a)); }
   if(left != s.size()) vf::viol("size", "size() after concurrent use");
   for(auto& c: count) if(c.second > 0) { vf::viol("value-lost", fmt("value %ld was lost", c.first)); break; }
   // what one thread pushed and nobody took is still in its order
   std::map<long, long> last; for(auto it = s.rbegin(); it != s.rend(); ++it) { auto& l = last[it->a / 1000000]; if(it->a <= l) { vf::viol("order", "values of one thread are out of order"); break; } l = it->a; }
   uint64_t h = T; for(auto& v: popped) for(auto x: v) h = vf::mix(h, x);
   vf::stat("evaluations"); vf::stat("stress_operations", T * N); vf::distinct(h); vf::tick();
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   std::string mode = vf::options().str("mode"); long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog(mode.c_str(), 60);
   for(long i = vf::options().get("from", 0); i < cases; ++i) {
      Rng r(vf::mix(seed, uint64_t(i)));
      Checks ck; ck.iterators = mode == "S02"; ck.life = ck.pages = mode == "S03"; ck.values = mode != "S03";
      if(mode.size() > 3 && mode.substr(3) == "large") {
         std::string p = mode.substr(0, 3); ck.iterators = p == "S02"; ck.life = p == "S03";
         switch(p == "S03" || p == "S07" ? (r.chance(1, 3) ? 1 : 2) : int(r.below(3))) { case 0: large<int>(r, i, ck, p.c_str()); break; case 1: large<std::string>(r, i, ck, p.c_str()); break; default: large<El>(r, i, ck, p.c_str()); }
      }
      else if(mode == "S01" || mode == "S02" || mode == "S03") {
         switch(mode == "S03" ? (r.chance(1, 6) ? 1 : 2) : int(r.below(3))) { case 0: sequential<int>(r, i, ck, mode.c_str()); break; case 1: sequential<std::string>(r, i, ck, mode.c_str()); break; default: sequential<El>(r, i, ck, mode.c_str()); }
      }
      else if(mode == "S04") caseFaults(r, i);
      else if(mode == "S05") caseLin(r, i);
      else if(mode == "S05stress") { if(i % 3 == 2) caseCross(r, i); else caseStress(r, i); }
      else if(mode == "S06") { if(i % 4 == 1) caseSyncSeveral(r, i); else caseSync(r, i); }
      else if(mode == "S06many") caseSyncMany(r, i);
      else if(mode == "S06mt") caseSyncMT(r, i);
      else if(mode == "S07") caseCopies(r, i);
      else { fprintf(stderr, "unknown mode\n"); return 3; }
      if(vf::violated()) break;
   }
   if(WatchMutex::taken()) vf::stat("locks_watched", WatchMutex::taken());
   vf::stat("injected_delays", (long long)vf::Delays::count().load());
   return vf::finish();
}
