// Common services of the monitors: reporting, random choices, counters, watchdog.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace vf {

// ---------------------------------------------------------------- random
struct Rng {
   uint64_t s;
   // the seed is scrambled: neighbouring seeds must not give the same sequence displaced
   explicit Rng(uint64_t seed = 1): s(seed ^ 0xD1B54A32D192ED03ull) { uint64_t a = next(), b = next(); s = a ^ (b << 1); next(); }
   uint64_t next() {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   uint64_t below(uint64_t n) { return n ? next() % n : 0; }
   int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a) + 1)); }
   bool chance(unsigned num, unsigned den) { return below(den) < num; }
   template<typename V> auto& pick(V& v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
inline uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for(unsigned char c: s) { h = (h ^ c) * 1099511628211ull; } return h; }

// ---------------------------------------------------------------- options
struct Options {
   std::map<std::string, std::string> kv;
   long get(const char* k, long d) const { auto i = kv.find(k); return i == kv.end() ? d : strtol(i->second.c_str(), nullptr, 10); }
   std::string str(const char* k, const std::string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
};
inline Options& options() { static Options o; return o; }

// ---------------------------------------------------------------- report
#ifdef VF_TSAN
extern "C" {
void AnnotateIgnoreSyncBegin(const char*, int); void AnnotateIgnoreSyncEnd(const char*, int);
void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int);
}
#endif
// The lock of the report. The race detector doesn't see it: threads that count things aren't ordered by that.
struct ReportLock {
   std::mutex m;
   void lock() {
#ifdef VF_TSAN
      AnnotateIgnoreSyncBegin(__FILE__, __LINE__); AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
#endif
      m.lock();
   }
   void unlock() {
      m.unlock();
#ifdef VF_TSAN
      AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); AnnotateIgnoreSyncEnd(__FILE__, __LINE__);
#endif
   }
};
struct Report {
   ReportLock mtx;
   int fd = 1;
   std::map<std::string, int> viols;
   std::map<std::string, long long> stats;
   std::unordered_set<uint64_t> distinct;
   std::map<std::string, std::unordered_set<uint64_t>> distinctBy;
   int samples = 0;
   void line(const std::string& l) {
      std::string s = l; for(char& c: s) { if(c == '\n') c = ' '; } s += '\n';
      size_t off = 0;
      while(off < s.size()) { ssize_t w = ::write(fd, s.data() + off, s.size() - off); if(w <= 0) return; off += size_t(w); }
   }
};
inline Report& report() { static Report* r = new Report; return *r; }

inline std::string esc(const std::string& s, size_t max = 300) {
   std::string o;
   for(unsigned char c: s) {
      if(o.size() > max) { o += "..."; break; }
      if(c >= 32 && c < 127 && c != '\\') o += char(c);
      else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
   }
   return o;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
   va_list a; va_start(a, f); char b[4000]; vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline std::string& context() { static std::string* s = new std::string; return *s; }
inline void setContext(const std::string& s) { std::lock_guard<ReportLock> g(report().mtx); context() = s; }

// a violation of the property: 'key' says which monitor fired, on what
inline void viol(const std::string& key, const std::string& detail) {
   std::lock_guard<ReportLock> g(report().mtx);
   if(report().viols[key]++ < 3) {
      report().line("@@VIOL " + key + "|" + detail + " {" + context() + "}");
   }
}
inline bool violated() { std::lock_guard<ReportLock> g(report().mtx); return !report().viols.empty(); }
inline void stat(const char* k, long long n = 1) { std::lock_guard<ReportLock> g(report().mtx); report().stats[k] += n; }
inline void statMax(const char* k, long long n) { std::lock_guard<ReportLock> g(report().mtx); auto& v = report().stats[k]; if(n > v) v = n; }
// counts a distinct, non trivial evaluation
inline bool distinct(uint64_t h) { std::lock_guard<ReportLock> g(report().mtx); return report().distinct.insert(h).second; }
inline void distinct(const char* k, uint64_t h) { std::lock_guard<ReportLock> g(report().mtx); report().distinctBy[k].insert(h); }
inline void sample(const std::string& s) {
   std::lock_guard<ReportLock> g(report().mtx);
   if(report().samples++ < 4) { report().line("@@SAMPLE " + esc(s, 600)); }
}

inline void dumpStats() {
   Report& r = report();
   std::ostringstream ss;
   ss << "@@STAT {";
   bool first = true;
   for(auto& k: r.stats) { ss << (first ? "" : ", ") << '"' << k.first << "\": " << k.second; first = false; }
   for(auto& k: r.distinctBy) { ss << (first ? "" : ", ") << "\"distinct_" << k.first << "\": " << k.second.size(); first = false; }
   ss << (first ? "" : ", ") << "\"distinct_nontrivial\": " << r.distinct.size() << "}";
   r.line(ss.str());
}

inline int finish() {
   std::lock_guard<ReportLock> g(report().mtx);
   dumpStats();
   report().line("@@DONE");
   return 0;
}
// used when the execution can't go on
[[noreturn]] inline void finishNow() { finish(); _exit(0); }

// ---------------------------------------------------------------- watchdog
// Logical progress marker: ticks are given by everything the workload does.
inline std::atomic<uint64_t>& ticks() { static std::atomic<uint64_t> t{0}; return t; }
inline void tick() { ticks().fetch_add(1, std::memory_order_relaxed); }
// Generous: nothing at all happened in the whole process for this long.
inline void startWatchdog(const char* what, int seconds) {
   std::thread([=] {
      uint64_t last = ~0ull; int idle = 0;
      while(true) {
         usleep(250000);
         uint64_t now = ticks().load(std::memory_order_relaxed);
         if(now != last) { last = now; idle = 0; continue; }
         if(++idle > seconds * 4) {
            report().line(std::string("@@HANG ") + what + "|no progress for " + std::to_string(seconds) + "s {" + context() + "}");
            dumpStats();
            report().line("@@DONE");
            _exit(0);
         }
      }
   }).detach();
}

inline void init(int argc, char* argv[]) {
   for(int i = 1; i < argc; ++i) {
      std::string a = argv[i]; auto p = a.find('=');
      if(p != std::string::npos) { options().kv[a.substr(0, p)] = a.substr(p + 1); }
      else { options().kv[a] = "1"; }
   }
   report().fd = fcntl(1, F_DUPFD_CLOEXEC, 100);
}

// ---------------------------------------------------------------- event stamps
// RELAXED on purpose in the race detector builds: the monitor must not order what the code doesn't.
#ifdef VF_TSAN
static constexpr auto VF_ORDER = std::memory_order_relaxed;
#else
static constexpr auto VF_ORDER = std::memory_order_seq_cst;
#endif
inline uint64_t stamp() { static std::atomic<uint64_t> s{1}; return s.fetch_add(1, VF_ORDER); }

// ---------------------------------------------------------------- delays
// Random yields and sleeps around the lock operations of the code under test (--wrap=pthread_mutex_*).
struct Delays {
   static std::atomic<unsigned>& rate() { static std::atomic<unsigned> r{0}; return r; }   // out of 1024
   static std::atomic<uint64_t>& seed() { static std::atomic<uint64_t> r{1}; return r; }
   static std::atomic<uint64_t>& count() { static std::atomic<uint64_t> r{0}; return r; }
};
inline void maybeDelay() {
   unsigned r = Delays::rate().load(std::memory_order_relaxed);
   if(r == 0) return;
   static std::atomic<uint64_t> tid{0};
   static thread_local uint64_t s = 0;
   if(s == 0) { s = (tid.fetch_add(1, std::memory_order_relaxed) + 1) * 0x9E3779B97F4A7C15ull ^ Delays::seed().load(std::memory_order_relaxed); }
   s ^= s << 13; s ^= s >> 7; s ^= s << 17;
   if((s >> 20) % 1024 < r) {
      Delays::count().fetch_add(1, std::memory_order_relaxed);
      unsigned k = (s >> 40) % 16;
      if(k < 9) { std::this_thread::yield(); }
      else if(k < 15) { for(volatile int i = 0; i < int((s >> 48) % 2000); i = i + 1) {} }
      else { usleep(1 + (s >> 50) % 200); }
   }
}

struct Barrier {
   std::atomic<int> n; int total;
   explicit Barrier(int t): n(0), total(t) {}
   void wait() { n.fetch_add(1); while(n.load() < total) { std::this_thread::yield(); } }
};

}

#ifdef VF_FAKE_CLOCK
#include <chrono>
#include <ctime>
#include <sys/time.h>
// The clock as the code under test sees it may be set to any moment; the functions that read it are wrapped.
static std::atomic<long long> g_clock{0};    // seconds to add
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
int __real_timespec_get(struct timespec*, int);
int __wrap_timespec_get(struct timespec* t, int b) { int x = __real_timespec_get(t, b); if(x && t) t->tv_sec += time_t(g_clock.load()); return x; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { int x = __real_clock_gettime(c, t); if(c == CLOCK_REALTIME && t) t->tv_sec += time_t(g_clock.load()); return x; }
int __wrap_gettimeofday(struct timeval* t, void* z) { int x = __real_gettimeofday(t, z); if(t) t->tv_sec += time_t(g_clock.load()); return x; }
time_t __wrap_time(time_t* t) { time_t x = __real_time(nullptr) + time_t(g_clock.load()); if(t) *t = x; return x; }
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return __real__ZNSt6chrono3_V212system_clock3nowEv() + std::chrono::seconds(g_clock.load()); }
}
namespace vf {
struct Elsewhen { explicit Elsewhen(long long at) { g_clock = at ? at - (long long)__real_time(nullptr) : 0; } ~Elsewhen() { g_clock = 0; } };
}
#endif

#ifdef VF_WRAP_MUTEX
#include <pthread.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { vf::maybeDelay(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); vf::maybeDelay(); return r; }
}
#endif

#ifdef VF_COUNT_ALLOC
// Accounting of everything that goes through operator new.
#include <malloc.h>
namespace vf {
inline std::atomic<long long> liveBytes{0}, liveBlocks{0};
// when not 0, the allocations of this thread of at least this size fail, but for the first 'failAfter'
inline thread_local size_t failSize = 0; inline thread_local long failAfter = 0;
}
void* operator new(size_t n) {
   if(vf::failSize && n >= vf::failSize && vf::failAfter-- <= 0) throw std::bad_alloc();
   void* p = malloc(n); if(!p) throw std::bad_alloc();
   vf::liveBytes.fetch_add((long long)malloc_usable_size(p), std::memory_order_relaxed); vf::liveBlocks.fetch_add(1, std::memory_order_relaxed);
   return p;
}
void operator delete(void* p) noexcept {
   if(!p) return;
   vf::liveBytes.fetch_sub((long long)malloc_usable_size(p), std::memory_order_relaxed); vf::liveBlocks.fetch_sub(1, std::memory_order_relaxed);
   free(p);
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

#endif
