// Monitors of F01-F03: Futex and RFutex, as they are and over an atomic that fails its weak exchanges at will.
#include "common.h"
#include <iostream>
#include <algorithm>
#include <mutex>
#include <sched.h>
#include <sys/syscall.h>
#include <condition_variable>
#include <shared_mutex>
#include <future>
#include <chrono>

// ---------------------------------------------------------------- the instrumented atomic
// Derived from the real one, so that whatever is not replaced here still works.
struct Hooks {
   // per thread: what the thread did on the futex
   long ops = 0;        // operations that could acquire
   long failed = 0;     // of them, those that found the lock taken
   long seen = 0;       // plain reads that found it taken
   long limit = -1;     // the lock is given back by the hook after this many failed attempts
   void (*release)(void*) = nullptr; void* what = nullptr;
   bool active = false, inRelease = false;
};
static thread_local Hooks hooks;
static std::atomic<unsigned> spuriousRate{0};
static std::atomic<long> spuriousCount{0}, yieldCount{0};
static thread_local std::vector<long>* yieldAt = nullptr;
static thread_local long yieldsHere = 0;
static thread_local void (*onYield)() = nullptr;

extern "C" int sched_yield() noexcept {
   yieldCount.fetch_add(1, std::memory_order_relaxed); ++yieldsHere;
   if(yieldAt && !hooks.inRelease) yieldAt->push_back(hooks.failed);
   if(onYield) onYield();
   return int(syscall(SYS_sched_yield));
}

static bool spurious() {
   unsigned r = spuriousRate.load(std::memory_order_relaxed);
   if(!r) return false;
   static std::atomic<uint64_t> tid{0};
   static thread_local uint64_t s = 0;
   if(!s) s = (tid.fetch_add(1, std::memory_order_relaxed) + 77) * 0x9E3779B97F4A7C15ull;
   s ^= s << 13; s ^= s >> 7; s ^= s << 17;
   bool hit = (s >> 22) % 1024 < r;
   if(hit) spuriousCount.fetch_add(1, std::memory_order_relaxed);
   return hit;
}
static void before() {
   Hooks& h = hooks;
   if(h.active && !h.inRelease && h.release && h.failed + h.seen >= h.limit) { h.inRelease = true; h.release(h.what); h.inRelease = false; h.release = nullptr; }
   if(!h.inRelease) { ++h.ops; vf::maybeDelay(); }
}
static void after(bool failed) { Hooks& h = hooks; if(!h.inRelease) { if(failed) ++h.failed; vf::maybeDelay(); } }

namespace std {
template<class T> struct vf_atomic: public atomic<T> {
   using B = atomic<T>; using O = memory_order;
   vf_atomic() noexcept = default;
   constexpr vf_atomic(T v) noexcept: B(v) {}
   vf_atomic(const vf_atomic&) = delete; vf_atomic& operator=(const vf_atomic&) = delete;
   static O fail(O o) { return o == O::memory_order_acq_rel ? O::memory_order_acquire : o == O::memory_order_release ? O::memory_order_relaxed : o; }
   T operator=(T v) noexcept { store(v); return v; }
   operator T() const noexcept { return load(); }
   T load(O o = memory_order_seq_cst) const noexcept { before(); T v = B::load(o); if(!hooks.inRelease && v != T()) ++hooks.seen; after(false); return v; }
   void store(T v, O o = memory_order_seq_cst) noexcept { if(!hooks.inRelease) vf::maybeDelay(); B::store(v, o); if(!hooks.inRelease) vf::maybeDelay(); }
   T exchange(T v, O o = memory_order_seq_cst) noexcept { before(); T r = B::exchange(v, o); after(r != T()); return r; }
   bool compare_exchange_weak(T& e, T d, O s, O f) noexcept {
      before();
      if(spurious()) { T was = B::load(f); if(was == e) { after(false); return false; } e = was; after(true); return false; }
      bool r = B::compare_exchange_strong(e, d, s, f); after(!r); return r;
   }
   bool compare_exchange_weak(T& e, T d, O s = memory_order_seq_cst) noexcept { return compare_exchange_weak(e, d, s, fail(s)); }
   bool compare_exchange_strong(T& e, T d, O s, O f) noexcept { before(); bool r = B::compare_exchange_strong(e, d, s, f); after(!r); return r; }
   bool compare_exchange_strong(T& e, T d, O s = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, d, s, fail(s)); }
};
}

#ifdef VF_INSTR
#define atomic vf_atomic
#endif
#include <falcon/futex.h>
#ifdef VF_INSTR
#include VF_FUTEX_CPP
#undef atomic
#endif

using falcon::Futex; using falcon::RFutex;
using vf::Rng; using vf::fmt;

// ---------------------------------------------------------------- what the lock protects
struct Protected {
   std::atomic<int> inside{0};
   uint64_t words[6] = {0, 0, 0, 0, 0, 0}; uint64_t count = 0; int lastThread = -1; uint64_t order = 1;
   int changes = 0;
   std::string text = "start";
   void use(Rng& rr, int me, const char* what) {
      int in = inside.fetch_add(1, std::memory_order_relaxed);
      if(in != 0) vf::viol(fmt("%s:exclusion", what), "two threads hold the lock at the same time");
      uint64_t w = words[0];
      for(int i = 0; i < 6; ++i) if(words[i] != w) { vf::viol(fmt("%s:publish", what), "what the previous holder wrote is seen in part"); break; }
      if(w != count) vf::viol(fmt("%s:publish", what), fmt("saw %llu uses, %llu written", (unsigned long long)w, (unsigned long long)count));
      ++w;
      for(int i = 0; i < 6; ++i) { words[i] = w; if(i == 2 && rr.chance(1, 8)) { for(volatile int q = 0; q < int(rr.below(200)); q = q + 1) {} } if(i == 3 && rr.chance(1, 64)) std::this_thread::yield(); }
      ++count;
      if(me != lastThread) { ++changes; lastThread = me; }
      order = vf::mix(order, uint64_t(me));
      if(rr.chance(1, 16)) text = "text of thread " + std::to_string(me) + " long enough to be allocated";
      inside.fetch_sub(1, std::memory_order_relaxed);
   }
};

static unsigned pickRate(Rng& r) { static const unsigned rates[] = {0, 0, 20, 100, 300}; return rates[r.below(5)]; }

// ---------------------------------------------------------------- F01
template<unsigned N> static void futexCase(Rng& r, long idx) {
   vf::Delays::rate() = pickRate(r); vf::Delays::seed() = r.next() | 1;
   static const unsigned sp[] = {0, 100, 500, 900}; spuriousRate = sp[r.below(4)];
   int T = int(r.range(2, 4)); int n = int(r.range(20, N == 0 ? 150 : 400));
   if(idx % 60 == 31) { T = int(r.range(6, N == 0 || N > 1000 ? 8 : 20)); n = int(r.range(3, 12)); vf::stat("crowds"); }
   vf::setContext(fmt("F01 case %ld spin=%u threads=%d uses=%d", idx, N, T, n));
   std::unique_ptr<Futex<N>> fp(new Futex<N>); Futex<N>& f = *fp; Protected p; std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
   if(f.isLocked()) vf::viol("F01:isLocked", "a new futex reports itself locked");
   bool hold = r.chance(1, 3), asks = r.chance(1, 4);      // started while somebody has it
   std::atomic<int> got{0};
   if(hold) f.lock();
   // what a thread that doesn't take it, but finds it free again, sees
   std::string note; uint64_t expectNote = r.next(); std::vector<uint64_t> notes(hold ? 2 : 0, 0); std::vector<std::thread> watch;
   for(size_t w = 0; w < notes.size(); ++w) watch.emplace_back([&, w] { while(f.isLocked()) std::this_thread::yield(); notes[w] = note.empty() ? 0 : strtoull(note.c_str(), nullptr, 10); });
   std::vector<std::thread> th;
   for(int t = 0; t < T; ++t) th.emplace_back([&, t] {
      Rng rr(seeds[t]);
      for(int i = 0; i < n; ++i) {
         unsigned k = unsigned(rr.below(4));
         auto body = [&] {
            if(i == 0) got.fetch_add(1, std::memory_order_relaxed);
            // asking orders this thread after the last holder: that is for taking it to do
            if(asks && !f.isLocked()) vf::viol("F01:isLocked", "the futex reports itself free to its holder");
            p.use(rr, t, "F01");
            if(!f.isLocked()) vf::viol("F01:isLocked", "the futex reports itself free to its holder");
         };
         if(k == 0) { std::lock_guard<Futex<N>> g(f); body(); }
         else if(k == 1) { std::unique_lock<Futex<N>> g(f, std::defer_lock); g.lock(); body(); g.unlock(); }
         else { f.lock(); body(); f.unlock(); }
         vf::tick();
         if(rr.chance(1, 16)) std::this_thread::yield();
         if(rr.chance(1, 8)) { for(volatile int q = 0; q < int(rr.below(300)); q = q + 1) {} }
      }
   });
   if(hold) {
      // nobody passes while it is held, and all do afterwards
      for(int i = 0; i < 20; ++i) {
         usleep(20); vf::tick();
         if(!f.isLocked()) vf::viol("F01:isLocked", "the futex reports itself free while it is held");
         if(got.load(std::memory_order_relaxed)) vf::viol("F01:exclusion", "a waiter got the futex while it was held");
      }
      p.use(r, T, "F01"); note = std::to_string(expectNote) + " is what the holder wrote";
      f.unlock(); vf::stat("held_starts");
   }
   for(auto& w: watch) w.join();
   for(auto v: notes) { if(v != expectNote) vf::viol("F01:publish", "a thread that found the futex free again doesn't see what its holder wrote"); vf::stat("watchers"); }
   for(auto& t: th) t.join();
   if(f.isLocked()) vf::viol("F01:isLocked", "the futex reports itself locked after all the unlocks");
   uint64_t expect = uint64_t(T) * n + (hold ? 1 : 0);
   if(p.count != expect) vf::viol("F01:lost", fmt("%llu uses counted, %llu done", (unsigned long long)p.count, (unsigned long long)expect));
   vf::stat("evaluations"); vf::stat("critical_sections", (long long)p.count); vf::stat("handovers", p.changes);
   if(p.changes > T) { vf::distinct(vf::mix(p.order, N)); if(idx < 3) vf::sample(fmt("spin count %u, %d threads, %llu critical sections, %d changes of holder", N, T, (unsigned long long)p.count, p.changes)); }
}
static void runF01(long cases, uint64_t seed) {
   for(long i = 0; i < cases && !vf::violated(); ++i) {
      Rng r(seed * 1000003 + i);
      switch(r.below(7)) {
      case 0: futexCase<0>(r, i); break; case 1: futexCase<1>(r, i); break; case 2: futexCase<2>(r, i); break; case 3: futexCase<3>(r, i); break;
      case 4: futexCase<50>(r, i); break; case 5: futexCase<1000>(r, i); break; case 6: futexCase<4000000000u>(r, i); break;
      }
   }
   spuriousRate = 0;
   vf::stat("spurious_failures", spuriousCount.load());
}

// ---------------------------------------------------------------- F02
static void runF02(long cases, uint64_t seed) {
   for(long idx = 0; idx < cases && !vf::violated(); ++idx) {
      Rng r(seed * 1000003 + idx);
      vf::Delays::rate() = pickRate(r); vf::Delays::seed() = r.next() | 1;
      static const unsigned sp[] = {0, 100, 500}; spuriousRate = sp[r.below(3)];
      int T = int(r.range(2, 4)), F = int(r.range(1, 3)), n = int(r.range(20, 120));
      if(idx % 60 == 31) { T = int(r.range(5, 8)); n = int(r.range(3, 12)); F = int(r.range(1, 6)); vf::stat("crowds"); }
      vf::setContext(fmt("F02 case %ld threads=%d futexes=%d operations=%d", idx, T, F, n));
      std::vector<std::unique_ptr<RFutex>> f; for(int i = 0; i < F; ++i) f.emplace_back(new RFutex);
      std::unique_ptr<Protected[]> p(new Protected[F]);
      std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
      for(auto& x: f) { if(x->isLocked()) vf::viol("F02:isLocked", "a new futex reports itself locked"); if(x->isOwner()) vf::viol("F02:isOwner", "a new futex reports an owner"); }
      bool hold = r.chance(1, 3); int depth = hold ? int(r.range(1, 9)) : 0; std::atomic<int> got{0};
      for(int i = 0; i < depth; ++i) f[0]->lock();
      bool asks = r.chance(1, 4); std::atomic<bool> stop{false}; std::atomic<long> checks{0}, nested{0}, probes{0};
      std::string note; uint64_t expectNote = r.next(), seenNote = 0; std::thread watch;
      if(hold) watch = std::thread([&] { while(f[0]->isLocked()) std::this_thread::yield(); seenNote = note.empty() ? 0 : strtoull(note.c_str(), nullptr, 10); });
      std::vector<std::thread> th;
      for(int t = 0; t < T; ++t) th.emplace_back([&, t] {
         Rng rr(seeds[t]); std::vector<int> d(F, 0); long c = 0, ne = 0;
         auto check = [&] {
            for(int i = 0; i < F; ++i) {
               ++c;
               bool o = f[i]->isOwner();
               if(o != (d[i] > 0)) vf::viol("F02:isOwner", fmt("the futex reports %s to a thread that locked it %d times more than it unlocked it", o ? "ownership" : "no ownership", d[i]));
               if(d[i] > 0 && !f[i]->isLocked()) vf::viol("F02:isLocked", fmt("the futex reports itself free to the thread holding it %d times", d[i]));
            }
         };
         check();
         for(int i = 0; i < n; ++i) {
            int top = -1; for(int k = 0; k < F; ++k) if(d[k]) top = k;
            // in increasing order, or again one already held: no deadlock
            int k = int(rr.below(F));
            bool lock = rr.chance(1, 2);
            if(lock && (d[k] > 0 || k > top)) {
               if(d[k] > 0) ++ne;
               f[k]->lock(); d[k]++;
               if(k == 0) got.fetch_add(1, std::memory_order_relaxed);
               if(!asks) p[k].use(rr, t, "F02");      // before anything else orders the thread after the last holder
            }
            else if(d[k] > 0) { p[k].use(rr, t, "F02"); f[k]->unlock(); d[k]--; }
            check(); vf::tick();
            for(int q = 0; q < F; ++q) if(d[q]) p[q].use(rr, t, "F02");
            if(rr.chance(1, 32)) { std::lock_guard<RFutex> g(*f[F - 1]); d[F - 1]++; if(asks) check(); p[F - 1].use(rr, t, "F02"); d[F - 1]--; }
            if(rr.chance(1, 10)) { for(volatile int q = 0; q < int(rr.below(300)); q = q + 1) {} }
         }
         for(int k = F - 1; k >= 0; --k) while(d[k]) { p[k].use(rr, t, "F02"); f[k]->unlock(); d[k]--; check(); }
         checks.fetch_add(c, std::memory_order_relaxed); nested.fetch_add(ne, std::memory_order_relaxed);
      });
      // a thread that never locks one
      std::thread by([&] { long c = 0; while(!stop.load(std::memory_order_relaxed)) { for(auto& x: f) { ++c; if(x->isOwner()) vf::viol("F02:isOwner", "the futex reports ownership to a thread that never locked one"); (void)x->isLocked(); } if(c % 64 == 0) usleep(50); } probes.fetch_add(c, std::memory_order_relaxed); });
      if(hold) {
         for(int i = depth; i > 0; --i) {
            for(int q = 0; q < 4; ++q) {
               usleep(20); vf::tick();
               if(got.load(std::memory_order_relaxed)) vf::viol("F02:exclusion", fmt("a waiter got the futex locked %d times and unlocked %d", depth, depth - i));
               if(!f[0]->isLocked() || !f[0]->isOwner()) vf::viol("F02:isOwner", fmt("not owned after %d locks and %d unlocks", depth, depth - i));
            }
            p[0].use(r, T, "F02"); if(i == 1) note = std::to_string(expectNote) + " is what the holder wrote"; f[0]->unlock();
         }
         watch.join(); if(seenNote != expectNote) vf::viol("F02:publish", "a thread that found the futex free again doesn't see what its holder wrote"); vf::stat("watchers");
         if(f[0]->isOwner()) vf::viol("F02:isOwner", "still owned after as many unlocks as locks");
         vf::stat("held_starts");
      }
      for(auto& t: th) t.join();
      stop = true; by.join();
      uint64_t h = F; long uses = 0, changes = 0;
      for(int i = 0; i < F; ++i) {
         if(f[i]->isLocked()) vf::viol("F02:isLocked", "the futex reports itself locked after all the unlocks");
         if(f[i]->isOwner()) vf::viol("F02:isOwner", "the futex reports itself owned after all the unlocks");
         f[i]->lock(); f[i]->unlock();
         h = vf::mix(h, p[i].order); uses += long(p[i].count); changes += p[i].changes;
      }
      vf::stat("evaluations"); vf::stat("critical_sections", uses); vf::stat("handovers", changes); vf::stat("nested_locks", nested.load()); vf::stat("ownership_checks", checks.load()); vf::stat("bystander_checks", probes.load());
      if(changes > F) { vf::distinct(h); if(idx < 3) vf::sample(fmt("%d threads on %d recursive futexes: %ld uses, %ld nested locks, %ld changes of holder", T, F, uses, nested.load(), changes)); }
   }
   spuriousRate = 0;
}
// Very deep nesting, and very many threads.
static void runF02wide(long threads, uint64_t seed) {
   vf::Delays::rate() = 0;
   Rng r(seed);
   RFutex held, other;
   for(long depth: {255L, 256L, 257L, 65535L, 65536L, 65537L, 200000L}) {
      vf::setContext(fmt("F02 nesting %ld", depth));
      std::atomic<int> got{0}; std::atomic<bool> go{false};
      std::thread w([&] { while(!go.load()) std::this_thread::yield(); held.lock(); got = 1; held.unlock(); });
      for(long i = 0; i < depth; ++i) { held.lock(); if(i == 0) go = true; }
      for(long i = depth; i > 0; --i) {
         if(got.load() || !held.isOwner() || !held.isLocked()) { vf::viol("F02:nesting", fmt("released with %ld of %ld locks in force", i, depth)); break; }
         if(i < 3) usleep(200);
         held.unlock(); if(i % 1000 == 0) vf::tick();
      }
      if(held.isOwner()) { vf::viol("F02:nesting", fmt("still owned after %ld locks and unlocks", depth)); vf::finishNow(); }
      w.join(); vf::stat("deep_nestings");
      if(held.isLocked()) vf::viol("F02:nesting", fmt("still locked after %ld locks and unlocks", depth));
      vf::stat("evaluations"); vf::distinct(vf::mix(1, depth));
   }
   held.lock();
   long seen = 0;
   for(long i = 0; i < threads && !vf::violated(); ++i) {
      vf::setContext(fmt("F02 thread %ld", i));
      std::thread t([&] {
         if(held.isOwner()) vf::viol("F02:isOwner", "a new thread is reported as owner of a futex held by another");
         other.lock(); if(!other.isOwner()) vf::viol("F02:isOwner", "not reported to its owner");
         if(held.isOwner()) vf::viol("F02:isOwner", "a thread holding another futex is reported as owner of one held by another thread");
         other.unlock(); ++seen;
      });
      t.join(); vf::tick();
   }
   if(!held.isOwner()) vf::viol("F02:isOwner", "ownership lost while other threads used another futex");
   held.unlock();
   vf::stat("evaluations"); vf::stat("threads_seen", seen); vf::distinct(vf::mix(2, uint64_t(seen)));
}

// ---------------------------------------------------------------- F03
template<unsigned N> struct F03 {
   static Futex<N>* cur; static long toGo;
   static void rel(void* f) { static_cast<Futex<N>*>(f)->unlock(); }
   static void yielded() { if(--toGo == 0) cur->unlock(); }
   static void exact(Rng& r, long idx) {
      Futex<N> f; std::vector<long> at;
      for(int round = 0; round < 4; ++round) {
         long k;
         unsigned n = N ? N : 10;
         switch(r.below(6)) { case 0: k = 0; break; case 1: k = long(n) - 1; break; case 2: k = n; break; case 3: k = long(n) + 1; break; case 4: k = long(n) * long(r.range(2, 6)) + long(r.range(-1, 1)); break; default: k = long(r.below(n * 7)); }
         vf::setContext(fmt("F03 case %ld round %d spin=%u failed attempts=%ld", idx, round, N, k));
         // free: no waiting
         long y0 = yieldsHere;
         f.lock();
         if(yieldsHere != y0) vf::viol("F03:free", fmt("spin count %u: yielded while taking a free futex", N));
         // held: the hook releases it after k failed attempts
         Hooks& h = hooks; h = Hooks(); h.active = true; h.limit = k; h.release = rel; h.what = &f;
         at.clear(); yieldAt = &at; y0 = yieldsHere;
         f.lock();
         yieldAt = nullptr; long failed = h.failed, seen = h.seen, ops = h.ops; h = Hooks();
         long yields = yieldsHere - y0;
         long expect = N == 0 ? 0 : failed / long(N);
         if(ops == 0 || failed + seen < k) { vf::stat("unobserved_waits"); f.unlock(); continue; }
         // where the waiting also reads the lock without trying to take it, either way of counting the attempts will do
         if(seen && N) { if(yields < expect || yields > (failed + seen) / long(N)) vf::viol("F03:yields", fmt("spin count %u: %ld yields in %ld failed attempts and %ld reads", N, yields, failed, seen)); }
         else if(yields != expect) vf::viol("F03:yields", fmt("spin count %u: %ld yields in %ld failed attempts, %ld expected", N, yields, failed, expect));
         else for(size_t i = 0; i < at.size(); ++i) if(at[i] != long(i + 1) * long(N)) { vf::viol("F03:when", fmt("spin count %u: yield number %zu after %ld failed attempts", N, i + 1, at[i])); break; }
         f.unlock();
         vf::stat("evaluations"); vf::stat("failed_attempts", failed); vf::stat("yields_seen", yields); vf::tick();
         if(k) { vf::distinct(vf::mix(N, uint64_t(k))); if(idx < 2) vf::sample(fmt("spin count %u: %ld failed attempts, %ld yields", N, failed, yields)); }
      }
   }
   // the code as it is: how long the yielding goes on
   static void real(Rng& r, long idx) {
      vf::setContext(fmt("F03 real case %ld spin=%u", idx, N));
      Futex<N> f; long y0 = yieldsHere;
      f.lock();
      if(yieldsHere != y0) vf::viol("F03:free", fmt("spin count %u: yielded while taking a free futex", N));
      if(N == 0) {
         std::atomic<long> yields{-1}; std::atomic<bool> in{false};
         std::thread t([&] { long a = yieldsHere; in = true; f.lock(); yields = yieldsHere - a; f.unlock(); });
         while(!in) usleep(10);
         usleep(unsigned(500 + r.below(1500))); f.unlock(); t.join();
         if(yields != 0) vf::viol("F03:yields", fmt("spin count 0: %ld yields while waiting", yields.load()));
      }
      else {
         toGo = long(r.range(1, 200)); long want = toGo; cur = &f; onYield = yielded; y0 = yieldsHere;
         f.lock();            // released at the yield
         onYield = nullptr; long y = yieldsHere - y0;
         if(y < want || toGo > 0) vf::viol("F03:yields", fmt("spin count %u: taken after %ld of %ld yields", N, y, want));
         f.unlock(); vf::stat("yields_seen", y);
      }
      vf::stat("evaluations"); vf::stat("real_waits"); vf::distinct(vf::mix(vf::mix(77, N), r.next() % 200)); vf::tick();
   }
};
template<unsigned N> Futex<N>* F03<N>::cur = nullptr;
template<unsigned N> long F03<N>::toGo = 0;

template<template<unsigned> class F, bool EXACT> static void runF03(long cases, uint64_t seed) {
   vf::Delays::rate() = 0; spuriousRate = 0;
   for(long i = 0; i < cases && !vf::violated(); ++i) {
      Rng r(seed * 1000003 + i);
#define ONE(k, N) case k: if(EXACT) F<N>::exact(r, i); else F<N>::real(r, i); break;
      switch(r.below(11)) { ONE(0, 0) ONE(1, 1) ONE(2, 2) ONE(3, 3) ONE(4, 5) ONE(5, 7) ONE(6, 8) ONE(7, 50) ONE(8, 100) ONE(9, 1000) ONE(10, 70000) }
#undef ONE
   }
}
// whether the code under test goes through the instrumented atomic at all
static bool instrumented() {
#ifdef VF_INSTR
   hooks = Hooks(); Futex<1> f; f.lock(); bool r = hooks.ops > 0; f.unlock(); hooks = Hooks(); return r;
#else
   return false;
#endif
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   std::string mode = vf::options().str("mode"); long cases = vf::options().get("cases", 50); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog(mode.c_str(), 60);
   if(mode == "F01") runF01(cases, seed);
   else if(mode == "F02") runF02(cases, seed);
   else if(mode == "F02wide") runF02wide(vf::options().get("threads", 1000), seed);
   else if(mode == "F03") { if(instrumented()) runF03<F03, true>(cases, seed); else { vf::stat("uninstrumented"); runF03<F03, false>(cases, seed); } }
   else if(mode == "F03real") runF03<F03, false>(cases, seed);
   vf::stat("injected_delays", vf::Delays::count().load());
   return vf::finish();
}
