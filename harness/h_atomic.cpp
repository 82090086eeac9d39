// Monitors of A01 (atomic operations) and G01 (singletons).
#include "common.h"
#include <falcon/atomic.h>
#include <falcon/singleton.h>
#include <algorithm>
#include <climits>
#include <array>

using namespace falcon;
using vf::Rng; using vf::fmt;

static inline int32_t wrapAdd(int32_t a, int32_t b) { return int32_t(uint32_t(a) + uint32_t(b)); }
static void pause(Rng& r) { if(r.chance(1, 4)) { unsigned n = unsigned(r.below(60)); for(volatile unsigned i = 0; i < n; i = i + 1) {} } }
struct RelaxedBarrier {
   std::atomic<int> n{0}; int total; explicit RelaxedBarrier(int t): total(t) {}
   void wait() { n.fetch_add(1, std::memory_order_relaxed); long k = 0; while(n.load(std::memory_order_relaxed) < total) { if(++k > 2000) { std::this_thread::yield(); } } }
};

// ---------------------------------------------------------------- single operations
enum OP { INC, DEC, ADD, FETCH, SET, EXCH, CAS, XOR, AND, OR, OPS };
static const char* OPN[] = {"inc", "dec", "add", "fetch", "set", "exchange", "cas", "xor", "and", "or"};
struct Op { int k; int32_t a, b; int32_t ret; uint64_t from, to; };

static int32_t apply(int32_t& v, const Op& o) {
   int32_t was = v;
   switch(o.k) {
   case INC: v = wrapAdd(v, 1); return v;
   case DEC: v = wrapAdd(v, -1); return v;
   case ADD: v = wrapAdd(v, o.a); return v;
   case FETCH: return v;
   case SET: v = o.a; return 0;
   case EXCH: v = o.a; return was;
   case CAS: if(v == o.a) { v = o.b; return 1; } return 0;
   case XOR: v ^= o.a; return was;
   case AND: v &= o.a; return was;
   case OR: v |= o.a; return was;
   }
   return 0;
}
static int32_t perform(atomic_int& x, const Op& o) {
   switch(o.k) {
   case INC: return atomicInc(x);
   case DEC: return atomicDec(x);
   case ADD: return atomicAdd(x, o.a);
   case FETCH: return atomicFetch(x);
   case SET: atomicSet(x, o.a); return 0;
   case EXCH: return atomicExchange(x, o.a);
   case CAS: return atomicCAS(x, o.a, o.b) ? 1 : 0;
   case XOR: return atomicXor(x, o.a);
   case AND: return atomicAnd(x, o.a);
   case OR: return atomicOr(x, o.a);
   }
   return 0;
}
static int32_t edge(Rng& r) {
   static const int32_t e[] = {0, 1, -1, 2, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 0x55555555, 0x0000ffff, int32_t(0xffff0000), 255, 256, 65536};
   return r.chance(1, 2) ? e[r.below(sizeof e / sizeof *e)] : int32_t(r.next());
}
static void sequential(Rng& r, long idx) {
   vf::setContext(fmt("A01 sequential case %ld", idx));
   struct { int32_t guardA; atomic_int x; int32_t guardB; } m; int32_t v = edge(r); m.guardA = 0x11111111; m.guardB = 0x22222222; m.x = v;
   uint64_t h = uint64_t(uint32_t(v));
   for(int i = 0; i < 40; ++i) {
      Op o; o.k = int(r.below(OPS)); o.a = edge(r); o.b = edge(r); if(o.k == CAS && r.chance(1, 2)) o.a = v;
      int32_t before = v; int32_t expect = apply(v, o); int32_t got = perform(m.x, o);
      if(got != expect) { vf::viol(fmt("A01:return:%s", OPN[o.k]), fmt("%s(%d, %d) on %d returned %d, %d expected", OPN[o.k], o.a, o.b, before, got, expect)); return; }
      if(atomicFetch(m.x) != v) { vf::viol(fmt("A01:value:%s", OPN[o.k]), fmt("%s(%d, %d) on %d left %d, %d expected", OPN[o.k], o.a, o.b, before, atomicFetch(m.x), v)); return; }
      h = vf::mix(h, uint64_t(o.k) << 32 | uint32_t(o.a));
   }
   if(m.guardA != 0x11111111 || m.guardB != 0x22222222) vf::viol("A01:neighbours", "an operation changed memory beside the variable");
   vf::stat("evaluations"); vf::stat("sequential_operations", 40); vf::distinct(h);
}

// ---------------------------------------------------------------- linearizability
static bool linearize(const std::vector<std::vector<Op>>& hist, std::vector<size_t>& pos, int32_t v, int32_t final_, std::set<std::pair<std::vector<size_t>, int32_t>>& seen, long& states) {
   bool done = true; uint64_t minTo = ~0ull;
   for(size_t t = 0; t < hist.size(); ++t) if(pos[t] < hist[t].size()) { done = false; minTo = std::min(minTo, hist[t][pos[t]].to); }
   if(done) return v == final_;
   if(!seen.insert({pos, v}).second) return false;
   ++states;
   for(size_t t = 0; t < hist.size(); ++t) {
      if(pos[t] >= hist[t].size()) continue;
      const Op& o = hist[t][pos[t]];
      if(o.from > minTo) continue;
      int32_t nv = v;
      if(apply(nv, o) != o.ret) continue;
      ++pos[t];
      if(linearize(hist, pos, nv, final_, seen, states)) return true;
      --pos[t];
   }
   return false;
}
// the workers stay, the cases are given to them
struct Team {
   int T; std::vector<std::thread> th; std::atomic<long> gen{0}; std::atomic<int> done{0}; std::atomic<bool> stop{false}; std::function<void(int)> job;
   explicit Team(int t): T(t) { for(int i = 0; i < T; ++i) th.emplace_back([this, i] { long seen = 0; while(true) { long k = 0; while(gen.load() == seen) { if(stop.load()) return; if(++k > 3000) std::this_thread::yield(); } ++seen; job(i); done.fetch_add(1); } }); }
   void run(std::function<void(int)> j) { job = j; done = 0; gen.fetch_add(1); long k = 0; while(done.load() < T) { if(++k > 3000) std::this_thread::yield(); } }
   ~Team() { stop = true; for(auto& t: th) t.join(); }
};
static void histories(Rng& r, long idx, Team& team) {
   int T = team.T; int n = int(r.range(2, T > 3 ? 4 : 6));
   vf::setContext(fmt("A01 history case %ld threads=%d operations=%d", idx, T, n));
   std::vector<std::vector<Op>> h(T, std::vector<Op>(n)); int32_t init = int32_t(r.below(3));
   unsigned kinds = unsigned(r.next()) | (1u << r.below(OPS)) | (1u << r.below(OPS));
   for(auto& v: h) for(auto& o: v) { do { o.k = int(r.below(OPS)); } while(!(kinds >> o.k & 1)); o.a = int32_t(r.below(4)); o.b = int32_t(r.below(4)); if(o.k == ADD && r.chance(1, 2)) o.a = -o.a; if(o.k == AND) o.a = ~(1 << r.below(2)); }
   static struct alignas(64) { atomic_int x; char pad[60]; } m; m.x = init;
   std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
   RelaxedBarrier bar(T);
   team.run([&](int t) { Rng rr(seeds[t]); bar.wait(); for(auto& o: h[t]) { pause(rr); o.from = vf::stamp(); o.ret = perform(m.x, o); o.to = vf::stamp(); } });
   int32_t fin = atomicFetch(m.x);
   bool overlap = false;
   for(int a = 0; a < T && !overlap; ++a) for(int b = a + 1; b < T && !overlap; ++b) for(auto& x: h[a]) for(auto& y: h[b]) if(x.from < y.to && y.from < x.to) { overlap = true; break; }
   std::vector<size_t> pos(T, 0); std::set<std::pair<std::vector<size_t>, int32_t>> seen; long states = 0;
   if(!linearize(h, pos, init, fin, seen, states)) {
      std::string d = fmt("initial %d", init);
      for(int t = 0; t < T; ++t) { d += fmt("; thread %d:", t); for(auto& o: h[t]) d += fmt(" [%llu-%llu] %s(%d,%d)=%d", (unsigned long long)o.from, (unsigned long long)o.to, OPN[o.k], o.a, o.b, o.ret); }
      vf::viol("A01:not-atomic", d + fmt("; final %d: no order of the operations explains it", fin));
   }
   vf::stat("evaluations"); vf::stat("linearized_operations", long(T) * n); vf::statMax("max_states", states);
   if(overlap) { uint64_t hh = uint64_t(init); for(auto& v: h) for(auto& o: v) hh = vf::mix(hh, uint64_t(o.k) << 40 ^ uint64_t(uint32_t(o.a)) << 20 ^ uint32_t(o.ret)); vf::distinct(hh); vf::stat("overlapping_histories"); if(idx < 2) vf::sample(fmt("%d threads of %d operations linearized in %ld states", T, n, states)); }
}

// ---------------------------------------------------------------- conservation under stress
static void stress(Rng& r, long idx) {
   int T = int(r.range(2, 4)); int n = int(r.range(200, 3000)); int kind = int(r.below(7));
   static const char* names[] = {"counting", "adding", "exchanging", "cas", "bits", "halves", "mixed-bits"};
   vf::setContext(fmt("A01 stress case %ld %s threads=%d operations=%d", idx, names[kind], T, n));
   static struct alignas(64) { atomic_int x; char pad[60]; } m;
   std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
   std::vector<std::vector<int32_t>> got(T); std::vector<int32_t> sums(T, 0); std::vector<long> bad(T, 0);
   int32_t init = kind == 2 ? -1 : kind >= 4 ? 0 : edge(r); m.x = init;
   RelaxedBarrier bar(T); std::vector<std::thread> th;
   for(int t = 0; t < T; ++t) th.emplace_back([&, t] {
      Rng rr(seeds[t]); std::vector<int32_t> g; int32_t sum = 0; long wrong = 0; bar.wait();
      uint32_t mine = 0xffu << (t * 8), bits = 0;
      for(int i = 0; i < n; ++i) {
         switch(kind) {
         case 0: g.push_back(t % 2 == 0 || T < 3 ? atomicInc(m.x) : atomicAdd(m.x, 1)); break;
         case 1: { int32_t a = edge(rr); unsigned w = unsigned(rr.below(4)); if(w == 0) { atomicInc(m.x); a = 1; } else if(w == 1) { atomicDec(m.x); a = -1; } else atomicAdd(m.x, a); sum = wrapAdd(sum, a); break; }
         case 2: g.push_back(atomicExchange(m.x, t * n + i)); break;
         case 3: { int32_t v; do { v = atomicFetch(m.x); } while(!atomicCAS(m.x, v, wrapAdd(v, 3))); g.push_back(v); break; }
         case 4: { uint32_t b = (1u << rr.below(8)) << (t * 8); uint32_t was = uint32_t(atomicXor(m.x, int32_t(b))); if((was & mine) != bits) ++wrong; bits ^= b; break; }
         case 5: { uint32_t v = uint32_t(rr.below(65536)); v |= v << 16; uint32_t s; if(rr.chance(1, 3)) { atomicSet(m.x, int32_t(v)); s = uint32_t(atomicFetch(m.x)); } else if(rr.chance(1, 2)) s = uint32_t(atomicExchange(m.x, int32_t(v))); else s = uint32_t(atomicFetch(m.x)); if((s >> 16) != (s & 0xffff)) ++wrong; break; }
         case 6: { uint32_t b = uint32_t(rr.below(256)) << (t * 8), was; switch(rr.below(4)) { case 0: was = uint32_t(atomicXor(m.x, int32_t(b))); if((was & mine) != bits) ++wrong; bits ^= b; break; case 1: was = uint32_t(atomicOr(m.x, int32_t(b))); if((was & mine) != bits) ++wrong; bits |= b; break; case 2: was = uint32_t(atomicAnd(m.x, int32_t(~b))); if((was & mine) != bits) ++wrong; bits &= ~b; break; default: if((uint32_t(atomicFetch(m.x)) & mine) != bits) ++wrong; } break; }
         }
      }
      got[t] = std::move(g); sums[t] = kind >= 4 ? int32_t(bits) : sum; bad[t] = wrong;
   });
   for(auto& t: th) t.join();
   int32_t fin = atomicFetch(m.x); vf::tick();
   for(int t = 0; t < T; ++t) if(bad[t]) vf::viol(fmt("A01:stress:%s", names[kind]), fmt("thread %d: %ld values returned are not those the variable could have", t, bad[t]));
   std::vector<int32_t> all; for(auto& g: got) all.insert(all.end(), g.begin(), g.end());
   uint32_t expect = uint32_t(init);
   if(kind == 0) {
      expect += uint32_t(T) * n; std::vector<uint32_t> rel; for(int32_t v: all) rel.push_back(uint32_t(v) - uint32_t(init)); std::sort(rel.begin(), rel.end());
      for(size_t i = 0; i < rel.size(); ++i) if(rel[i] != i + 1) { vf::viol("A01:stress:counting", fmt("value number %zu of those returned by the increments is %u over the initial one", i + 1, rel[i])); break; }
   }
   else if(kind == 1) for(int32_t s: sums) expect += uint32_t(s);
   else if(kind == 2) {
      expect = uint32_t(fin); all.push_back(fin); std::sort(all.begin(), all.end());
      for(size_t i = 0; i < all.size(); ++i) if(all[i] != int32_t(i) - 1) { vf::viol("A01:stress:exchanging", fmt("%s value %d among those exchanged", all[i] < int32_t(i) - 1 ? "duplicated" : "lost", all[i])); break; }
   }
   else if(kind == 3) { expect += 3u * uint32_t(T) * uint32_t(n); std::vector<uint32_t> rel; for(int32_t v: all) rel.push_back(uint32_t(v) - uint32_t(init)); std::sort(rel.begin(), rel.end()); for(size_t i = 0; i < rel.size(); ++i) if(rel[i] != 3 * i) { vf::viol("A01:stress:cas", fmt("two compare-and-swaps succeeded on %u over the initial value", rel[i])); break; } }
   else if(kind == 5) expect = uint32_t(fin);
   else { expect = 0; for(int32_t s: sums) expect |= uint32_t(s); }
   if(uint32_t(fin) != expect) vf::viol(fmt("A01:stress:%s", names[kind]), fmt("final value %d, %d expected", fin, int32_t(expect)));
   // distinct by how the threads took turns
   uint64_t h = uint64_t(kind); if(kind == 0 || kind == 2 || kind == 3) for(size_t i = 0; i < got[0].size(); ++i) h = vf::mix(h, uint32_t(got[0][i])); else h = vf::mix(h, uint32_t(fin));
   vf::stat("evaluations"); vf::stat("stress_operations", (long long)T * n); vf::distinct(h);
}

// ---------------------------------------------------------------- publication
static void publish(Rng& r, long idx) {
   int rounds = int(r.range(5, 60)); bool exch = r.chance(1, 2); int readers = int(r.range(1, 2));
   vf::setContext(fmt("A01 publication case %ld by %s", idx, exch ? "exchange" : "set"));
   struct Data { uint64_t w[8]; std::string s; }; std::vector<Data> data(rounds); std::unique_ptr<atomic_int> flag(new atomic_int); *flag = 0; std::vector<long> wrong(readers, 0), seen(readers, 0);
   uint64_t seed = r.next(); RelaxedBarrier bar(readers + 1); std::vector<std::thread> th;
   for(int k = 0; k < readers; ++k) th.emplace_back([&, k] {
      bar.wait(); int32_t have = 0;
      while(have < rounds) {
         int32_t v = atomicFetch(*flag); if(v < have) ++wrong[k]; if(v <= have) { std::this_thread::yield(); continue; }
         for(int32_t i = have; i < v; ++i) { for(int q = 0; q < 8; ++q) if(data[i].w[q] != uint64_t(i) * 8 + q) ++wrong[k]; if(data[i].s.size() != 40) ++wrong[k]; ++seen[k]; }
         have = v;
      }
   });
   th.emplace_back([&] { Rng rr(seed); bar.wait(); for(int i = 0; i < rounds; ++i) { for(int q = 0; q < 8; ++q) data[i].w[q] = uint64_t(i) * 8 + q; data[i].s.assign(40, 'x'); if(exch) { if(atomicExchange(*flag, i + 1) != i) ++wrong[0]; } else atomicSet(*flag, i + 1); pause(rr); } });
   for(auto& t: th) t.join();
   vf::tick();
   long s = 0; for(int k = 0; k < readers; ++k) { s += seen[k]; if(wrong[k]) vf::viol("A01:publish", fmt("%ld values not seen as written before the %s", wrong[k], exch ? "exchange" : "set")); }
   vf::stat("evaluations"); vf::stat("published_values", s); vf::distinct(vf::mix(vf::mix(exch, rounds), readers + idx * 4));
}
static void runA01(long cases, uint64_t seed) {
   {
      Team two(2), three(3);
      for(long i = 0; i < cases * 4 && !vf::violated(); ++i) { Rng r(seed * 1000003 + i); vf::tick(); if(r.chance(1, 2)) histories(r, i, two); else histories(r, i, three); }
   }
   for(long i = 0; i < cases && !vf::violated(); ++i) { Rng r(seed * 2000003 + i); vf::tick(); sequential(r, i); }
   for(long i = 0; i < cases / 8 + 1 && !vf::violated(); ++i) { Rng r(seed * 3000017 + i); vf::tick(); stress(r, i); }
   for(long i = 0; i < cases / 8 + 1 && !vf::violated(); ++i) { Rng r(seed * 4000037 + i); vf::tick(); publish(r, i); }
}
static void runA01race(long cases, uint64_t seed) {
   for(long i = 0; i < cases && !vf::violated(); ++i) { Rng r(seed * 5000011 + i); vf::tick(); publish(r, i); stress(r, i); }
}

// ---------------------------------------------------------------- G01
static const int TYPES = 200;
static std::atomic<int> built[TYPES + 1], died[TYPES + 1]; static uint64_t slow[TYPES + 1];
struct Thing {
   int n; uint64_t words[12]; std::string name; long changes = 0; bool complete = false;
   __attribute__((noinline)) explicit Thing(int N): n(N) {
      built[n].fetch_add(1, std::memory_order_relaxed);
      Rng r(slow[n]);
      for(int i = 0; i < 12; ++i) {
         words[i] = uint64_t(n) * 100 + i;
         unsigned k = unsigned(r.below(12)); if(k == 0) usleep(unsigned(r.below(60))); else if(k < 3) std::this_thread::yield(); else for(volatile unsigned q = 0; q < k * 20; q = q + 1) {}
      }
      name = "singleton number " + std::to_string(n) + " with a long name";
      complete = true;
   }
   __attribute__((noinline)) ~Thing() { died[n].fetch_add(1, std::memory_order_relaxed); }
   __attribute__((noinline)) bool sound(int N) const { if(n != N || !complete || name.size() < 20) return false; for(int i = 0; i < 12; ++i) if(words[i] != uint64_t(n) * 100 + i) return false; return true; }
};
template<int N> struct Typed: public Thing { Typed(): Thing(N) {} };
// one built while another is
struct Nesting: public Thing { const Thing* other; Nesting(): Thing(TYPES) { Singleton<Typed<0>> s; other = s.operator->(); } };

// one that fails to be built a number of times
template<int K> struct Reluctant {
   static std::atomic<int>& tries() { static std::atomic<int> t{0}; return t; }
   static std::atomic<int>& alive() { static std::atomic<int> t{0}; return t; }
   uint64_t words[8]; std::string name; bool complete = false;
   Reluctant() {
      int n = tries().fetch_add(1, std::memory_order_relaxed);
      for(int i = 0; i < 8; ++i) { words[i] = 7; if(i == 4) std::this_thread::yield(); }
      name = "a reluctant singleton with a long name";
      if(n < K % 8) throw K;
      for(int i = 0; i < 8; ++i) words[i] = uint64_t(i) * 3 + 1;
      complete = true; alive().fetch_add(1, std::memory_order_relaxed);
   }
   bool sound() const { for(int i = 0; i < 8; ++i) if(words[i] != uint64_t(i) * 3 + 1) return false; return complete; }
};
template<int K> static void reluctant(uint64_t seed) {
   using T = Reluctant<K>;
   Rng r(vf::mix(seed, K)); int N = int(r.range(1, 6));
#ifdef VF_TSAN
   N = 1;    // the race detector doesn't know that a failed construction is ordered before the next attempt
#endif
   vf::setContext(fmt("G01 singleton failing %d times, threads=%d", K % 8, N));
   RelaxedBarrier bar(N); std::vector<std::thread> th; std::vector<const T*> got(N, nullptr); std::vector<int> odd(N, 0), failures(N, 0);
   for(int t = 0; t < N; ++t) th.emplace_back([&, t] {
      Singleton<T> s; const Singleton<T>& c = s; bar.wait();
      for(int k = 0; k < 12; ++k) {
         try {
            const T* p = nullptr;
            switch((k + t) % 4) { case 0: p = s.get(); break; case 1: p = c.operator->(); break; case 2: p = &*c; break; default: p = s.mtbl.operator->(); }
            if(!p || !p->sound()) { odd[t] = 1; return; }
            if(got[t] && got[t] != p) odd[t] = 2;
            got[t] = p;
         }
         catch(int k2) { if(k2 != K || got[t]) odd[t] = 3; ++failures[t]; }
      }
   });
   for(auto& t: th) t.join();
   int f = 0; for(int t = 0; t < N; ++t) {
      f += failures[t];
      if(odd[t] == 1) vf::viol("G01:incomplete", "an accessor returned an instance whose construction failed");
      if(odd[t] > 1) vf::viol("G01:different", fmt("an accessor reached another instance, or failed after one was built (%d)", odd[t]));
      if(got[t] && got[t] != got[0] && got[0]) vf::viol("G01:different", "two threads reached different instances");
   }
   const T* last = Singleton<T>().get();
   for(int t = 0; t < N; ++t) if(got[t] && got[t] != last) vf::viol("G01:different", "another instance is reached afterwards");
   if(f != K % 8) vf::viol("G01:failures", fmt("%d constructions failed, told %d times", K % 8, f));
   if(T::alive().load() != 1) vf::viol("G01:built", fmt("constructed %d times", T::alive().load()));
   vf::stat("failed_constructions", f); vf::stat("evaluations"); vf::tick();
}

// what the cases need of each type
struct Access {
   void* (*make)(); void (*drop)(void*);
   const Thing* (*reach)(void*, unsigned); Thing* (*change)(void*, unsigned);
};
template<int N> struct AccessOf {
   using S = Singleton<Typed<N>>;
   static void* make() { return new S; }
   static void drop(void* p) { delete static_cast<S*>(p); }
   static const Thing* reach(void* p, unsigned how) {
      S& s = *static_cast<S*>(p); const S& c = s;
      switch(how) {
      case 0: return s.get();
      case 1: return s.operator->();
      case 2: return &*s;
      case 3: return c.operator->();
      case 4: return &*c;
      case 5: return s.mtbl.operator->();
      default: return &*s.mtbl;
      }
   }
   static Thing* change(void* p, unsigned how) { S& s = *static_cast<S*>(p); switch(how % 3) { case 0: return s.get(); case 1: return s.mtbl.operator->(); default: return &*s.mtbl; } }
};
static void singleton(const Access& a, int N, uint64_t seed) {
   Rng r(vf::mix(seed, N)); slow[N] = r.next();
   int T = N % 40 == 17 ? int(r.range(10, 32)) : int(r.range(2, 6)); bool shared = r.chance(1, 2);
   vf::setContext(fmt("G01 type %d threads=%d", N, T));
   if(built[N].load()) vf::viol("G01:early", "constructed before first use");
   void* one = a.make(); void* two = a.make();
   if(built[N].load()) vf::viol("G01:early", "constructed before first use, by declaring a wrapper");
   std::vector<unsigned> how(T); for(auto& h: how) h = unsigned(r.below(7));
   std::vector<const Thing*> got(T, nullptr); std::vector<int> sound(T, 0); std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
   std::mutex mtx; RelaxedBarrier bar(T); std::vector<std::thread> th; std::atomic<int> waited{0};
   for(int t = 0; t < T; ++t) th.emplace_back([&, t] {
      Rng rr(seeds[t]); void* mine = a.make(); void* s = shared ? (t % 2 ? one : two) : mine;
      bar.wait(); pause(rr);
      if(built[N].load(std::memory_order_relaxed)) waited.fetch_add(1, std::memory_order_relaxed);
      const Thing* p = a.reach(s, how[t]); sound[t] = p->sound(N); got[t] = p;
      for(int i = 0; i < 5; ++i) { std::lock_guard<std::mutex> g(mtx); ++a.change(s, unsigned(i) + how[t])->changes; }
      void* again = a.make(); if(a.reach(again, unsigned(rr.below(7))) != p) sound[t] = -1;
      a.drop(again); a.drop(mine);
   });
   for(auto& t: th) t.join();
   vf::tick();
   for(int t = 0; t < T; ++t) {
      if(sound[t] == 0) vf::viol("G01:incomplete", fmt("accessor %u returned an instance under construction", how[t]));
      if(sound[t] < 0) vf::viol("G01:different", "a second wrapper reached another instance");
      if(got[t] != got[0]) vf::viol("G01:different", fmt("accessors %u and %u reached different instances", how[0], how[t]));
   }
   a.drop(one);
   for(unsigned k = 0; k < 7; ++k) { void* s = a.make(); const Thing* p = a.reach(s, k); a.drop(s); if(p != got[0]) vf::viol("G01:different", fmt("accessor %u reached another instance afterwards", k)); else if(p->changes != T * 5) vf::viol("G01:changes", fmt("accessor %u sees %ld changes, %d made", k, p->changes, T * 5)); }
   a.drop(two);
   if(built[N].load() != 1) vf::viol("G01:built", fmt("constructed %d times", built[N].load()));
   if(died[N].load()) vf::viol("G01:destroyed", "destroyed while in use");
   vf::stat("evaluations"); vf::stat("accesses", T * 7); if(waited.load()) vf::stat("raced_first_uses"); vf::distinct(vf::mix(seed, vf::mix(N, T * 2 + shared)));
   if(N < 3) vf::sample(fmt("type %d first used by %d threads, accessor kinds %u %u, %d of them during construction", N, T, how[0], how[1], waited.load()));
}
template<int... I> static void runG01(uint64_t seed, std::integer_sequence<int, I...>) {
   static const Access all[] = {{&AccessOf<I>::make, &AccessOf<I>::drop, &AccessOf<I>::reach, &AccessOf<I>::change}...};
   int n = 0; for(auto& x: all) { if(vf::violated()) break; singleton(x, n++, seed); }
   if(!vf::violated()) { reluctant<1>(seed); reluctant<2>(seed); reluctant<3>(seed); reluctant<7>(seed); reluctant<8>(seed); reluctant<9>(seed); reluctant<13>(seed); }
   vf::setContext("G01 nested");
   Singleton<Nesting> s; if(s->other != Singleton<Typed<0>>().get() || !s->sound(TYPES)) vf::viol("G01:nested", "a singleton used while another is built is another instance");
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   std::string mode = vf::options().str("mode"); long cases = vf::options().get("cases", 50); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog(mode.c_str(), 60);
   if(mode == "A01") runA01(cases, seed);
   else if(mode == "A01race") runA01race(cases, seed);
   else if(mode == "G01") runG01(seed, std::make_integer_sequence<int, TYPES>());
   return vf::finish();
}
