// Monitor of the time marks, lapses and waits of the test framework (T08), against the clocks read around each call.
#define VF_FAKE_CLOCK
#include "common.h"
#include <falcon/fut/timelapse.h>
#include <falcon/fut/marktime.h>
#include <csignal>
#include <ctime>
#include <sys/time.h>
#include <algorithm>

using namespace falcon;
using testing::TimeLapse;
using vf::Rng;
using vf::fmt;

static long long ns(clockid_t c) { timespec t; clock_gettime(c, &t); return (long long)t.tv_sec * 1000000000LL + t.tv_nsec; }
// the wall clock before and after something, with the steady one to notice that somebody set it meanwhile
struct Around {
   long long w0, m0, w1 = 0, m1 = 0;
   Around() { w0 = ns(CLOCK_REALTIME); m0 = ns(CLOCK_MONOTONIC); }
   void done() { w1 = ns(CLOCK_REALTIME); m1 = ns(CLOCK_MONOTONIC); }
   bool steady() const { long long d = (w1 - w0) - (m1 - m0); bool ok = w1 >= w0 && std::llabs(d) < 20000000LL + (m1 - m0) / 100; if(!ok) vf::stat("clock_set"); return ok; }
   long long lo() const { return w0 / 1000000; }
   long long hi() const { return w1 / 1000000; }
};
static void pass(Rng& r) {
   switch(r.below(4)) {
   case 0: break;
   case 1: { long long until = ns(CLOCK_MONOTONIC) + (long long)r.below(3000000); while(ns(CLOCK_MONOTONIC) < until) {} break; }
   default: usleep(useconds_t(r.below(r.chance(1, 20) ? 30000 : 3000)));
   }
}

static void lapses(Rng& r, long idx) {
   vf::setContext(fmt("T08 case %ld: lapses", idx));
   TimeLapse t;
   if(t.begin() != 0 || t.end() != 0 || t.elapsed() != 0) vf::viol("not-empty", "a new time lapse has marks");
   Around whole; Around b; b.done(); Around e = b; long long begin = 0, end = 0; bool hasB = false, hasE = false; uint64_t h = 1;
   for(int n = int(r.range(2, 12)); n > 0 && !vf::violated(); --n) {
      pass(r);
      int what = int(r.below(5)); h = vf::mix(h, uint64_t(what));
      Around a;
      switch(what) {
      case 0: {
         begin = t.markBegin(); a.done(); b = a; hasB = true; hasE = false;
         if(!a.steady()) return;
         if(begin != t.begin()) vf::viol("begin-differs", fmt("markBegin told %lld, begin() tells %lld", begin, (long long)t.begin()));
         if(begin < a.lo() || begin > a.hi()) vf::viol("mark-wrong", fmt("begin marked at %lld, between %lld and %lld", begin, a.lo(), a.hi()));
         vf::stat("marks"); break; }
      case 1: {
         if(!hasB) break;
         end = t.markEnd(); a.done(); e = a; hasE = true;
         if(!a.steady()) return;
         if(end != t.end()) vf::viol("end-differs", fmt("markEnd told %lld, end() tells %lld", end, (long long)t.end()));
         if(begin != t.begin()) vf::viol("begin-changed", fmt("from %lld to %lld by marking the end", begin, (long long)t.begin()));
         if(end < a.lo() || end > a.hi()) vf::viol("mark-wrong", fmt("end marked at %lld, between %lld and %lld", end, a.lo(), a.hi()));
         vf::stat("marks"); break; }
      case 2: {
         if(!hasB) break;
         long long now = t.elapsedNow(); a.done();
         Around all = whole; all.done(); if(!all.steady()) return;
         if(now < a.lo() - b.hi() || now > a.hi() - b.lo()) vf::viol("elapsed-now", fmt("%lld ms told, between %lld and %lld passed", now, a.lo() - b.hi(), a.hi() - b.lo()));
         if(begin != t.begin() || (hasE && end != t.end())) vf::viol("marks-changed", "by elapsedNow");
         vf::stat("lapses_now"); break; }
      case 3: {
         if(!hasB || !hasE) break;
         Around all = whole; all.done(); if(!all.steady()) return;
         long long el = t.elapsed();
         if(el != end - begin) vf::viol("elapsed", fmt("%lld ms told from %lld to %lld", el, begin, end));
         if(el < e.lo() - b.hi() || el > e.hi() - b.lo()) vf::viol("elapsed", fmt("%lld ms told, between %lld and %lld passed", el, e.lo() - b.hi(), e.hi() - b.lo()));
         vf::stat("lapses"); break; }
      default: {
         TimeLapse c(t), d; d = c;
         if(d.begin() != t.begin() || d.end() != t.end() || (hasB && hasE && d.elapsed() != t.elapsed())) vf::viol("copy", "of a lapse tells another time");
         int64 m; testing::markTime(m); a.done(); if(!a.steady()) return;
         if(m < a.lo() || m > a.hi()) vf::viol("mark-wrong", fmt("marked %lld, between %lld and %lld", (long long)m, a.lo(), a.hi()));
         vf::stat("marks"); } }
   }
   vf::distinct(vf::mix(h, uint64_t(idx)));
}

// Lapses of any length, at any time: the clock is moved forward between the marks.
static void ages(Rng& r, long idx) {
   vf::setContext(fmt("T08 case %ld: ages", idx));
   static const long long len[] = {1, 59, 60, 3599, 86399, 86400, 86401, 2147483, 2147484, 4294967, 4294968, 31536000, 3153600000LL};
   for(int n = int(r.range(2, 10)); n > 0 && !vf::violated(); --n) {
      long long at = r.chance(1, 3) ? (long long)r.below(4) * 1000000000LL + 1000000000LL : (long long)r.below(5000000000LL) + 100000;
      long long d = r.chance(1, 2) ? len[r.below(13)] : r.chance(1, 2) ? (long long)r.below(100) : (long long)r.below(4000000000LL);
      long long real0 = (long long)__real_time(nullptr);
      TimeLapse t; Around b, e, f; long long begin, end, now;
      { vf::Elsewhen x(at); b = Around(); begin = t.markBegin(); b.done(); }
      { vf::Elsewhen x(at + d); e = Around(); end = t.markEnd(); e.done(); f = Around(); now = t.elapsedNow(); f.done(); }
      Around rb; rb.done(); if(!b.steady() || !e.steady() || !f.steady() || rb.w0 / 1000000000LL < real0 || rb.w0 / 1000000000LL > real0 + 60) return;
      if(begin / 1000 >= real0 - 1 && begin / 1000 <= real0 + 61 && (begin < b.lo() || begin > b.hi())) { vf::stat("clock_not_wrapped"); return; }
      if(begin < b.lo() || begin > b.hi()) vf::viol("mark-wrong", fmt("begin marked at %lld, between %lld and %lld", begin, b.lo(), b.hi()));
      if(end < e.lo() || end > e.hi()) vf::viol("mark-wrong", fmt("end marked at %lld, between %lld and %lld", end, e.lo(), e.hi()));
      if(t.elapsed() != end - begin) vf::viol("elapsed", fmt("%lld ms told from %lld to %lld", (long long)t.elapsed(), begin, end));
      if(now < f.lo() - b.hi() || now > f.hi() - b.lo()) vf::viol("elapsed-now", fmt("%lld ms told, between %lld and %lld passed", now, f.lo() - b.hi(), f.hi() - b.lo()));
      vf::stat("long_lapses"); vf::distinct(vf::mix(uint64_t(at), uint64_t(d)));
   }
}

static std::atomic<long> s_signals{0};
static void onSignal(int) { s_signals.fetch_add(1, std::memory_order_relaxed); }

static void waits(Rng& r, long idx) {
   bool signals = r.chance(1, 2), restart = r.chance(1, 2);
   vf::setContext(fmt("T08 case %ld: waits%s", idx, signals ? ", with signals" : ""));
   struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = restart ? SA_RESTART : 0; sigaction(SIGALRM, &sa, nullptr);
   itimerval it{}; if(signals) { it.it_interval.tv_usec = it.it_value.tv_usec = suseconds_t(r.range(300, 5000)); setitimer(ITIMER_REAL, &it, nullptr); }
   for(int n = int(r.range(1, 5)); n > 0 && !vf::violated(); --n) {
      long long w = r.chance(1, 6) ? 0 : r.chance(1, 30) ? r.range(100, 1100) : r.range(1, 25);
      long s0 = s_signals.load(); long long m0 = ns(CLOCK_MONOTONIC);
      testing::waitTime(w);
      long long took = ns(CLOCK_MONOTONIC) - m0;
      vf::tick();
      if(s_signals.load() != s0) vf::stat("waits_with_signals");
      if(took < w * 1000000LL) vf::viol("returned-early", fmt("waiting for %lld ms took %.3f ms, %ld signals handled meanwhile", w, double(took) / 1e6, s_signals.load() - s0));
      vf::stat("waits"); vf::distinct(vf::mix(uint64_t(w), signals));
   }
   it = itimerval{}; setitimer(ITIMER_REAL, &it, nullptr);
}

// The shortest of many waits is not much longer than asked for.
static void shortest() {
   vf::setContext("T08: the shortest of some waits");
   long long best = -1;
   for(int i = 0; i < 12; ++i) { long long m0 = ns(CLOCK_MONOTONIC); testing::waitTime(2); long long t = ns(CLOCK_MONOTONIC) - m0; if(best < 0 || t < best) best = t; vf::tick(); if(t < 1000000000LL) break; }
   if(best > 1000000000LL) vf::viol("waits-too-long", fmt("waiting for 2 ms took %.1f ms at best", double(best) / 1e6));
}

static void concurrently(Rng& r, long idx) {
   vf::setContext(fmt("T08 case %ld: threads", idx));
   int n = int(r.chance(1, 10) ? r.range(10, 60) : r.range(2, 6)); std::vector<std::thread> th;
   for(int k = 0; k < n; ++k) { uint64_t s = r.next(); th.emplace_back([s, idx, k] { Rng q(s); lapses(q, idx * 100 + k); long long w = (long long)q.below(8), m0 = ns(CLOCK_MONOTONIC); testing::waitTime(w); if(ns(CLOCK_MONOTONIC) - m0 < w * 1000000LL) vf::viol("returned-early", fmt("waiting for %lld ms in a thread", w)); }); }
   for(auto& t: th) t.join();
   vf::stat("threads", n);
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog("T08", 60);
   // waits so long that none may be over while this program runs
   static const long long LONG[] = {600000, 2147484, 4294967, 4294968, 4295000, 8589935, 2147483648LL, 4294967296LL, 4294967297LL, 1LL << 40, 9223372036854775LL / 2};
   sigset_t block; sigemptyset(&block); sigaddset(&block, SIGALRM); pthread_sigmask(SIG_BLOCK, &block, nullptr);   // signals are for the waits of this thread
   static std::atomic<long long> over[sizeof LONG / sizeof *LONG];
   for(size_t i = 0; i < sizeof LONG / sizeof *LONG; ++i) std::thread([i] { testing::waitTime(LONG[i]); over[i] = 1; }).detach();
   long long start = ns(CLOCK_MONOTONIC);
   pthread_sigmask(SIG_UNBLOCK, &block, nullptr);
   for(long i = vf::options().get("from", 0); i < cases && !vf::violated(); ++i) {
      Rng r(vf::mix(seed, uint64_t(i)));
      switch(i % 4) { case 0: concurrently(r, i); break; case 1: waits(r, i); break; case 2: ages(r, i); break; default: lapses(r, i); }
      if(i % 50 == 1) shortest();
      vf::stat("evaluations"); vf::tick();
   }
   while(ns(CLOCK_MONOTONIC) - start < 500000000LL) { usleep(10000); vf::tick(); }
   long long ran = (ns(CLOCK_MONOTONIC) - start) / 1000000;
   for(size_t i = 0; i < sizeof LONG / sizeof *LONG; ++i) {
      if(LONG[i] < ran * 2) continue;
      vf::setContext("T08: long waits");
      if(over[i].load()) vf::viol("returned-early", fmt("a wait for %lld ms was over within %lld ms", LONG[i], ran));
      vf::stat("long_waits");
   }
   vf::stat("signals_handled", s_signals.load());
   fflush(stdout);
   vf::finish();
   _exit(0);
}
