// Monitor of L07: any mix of concurrent uses of the logging interfaces, under the race detector and the memory checkers.
// Nothing here orders the threads more than the code under test does: all that is shared among the workers is prepared
// before they start, and counted by relaxed atomics.
#define VF_WRAP_MUTEX
#include "common.h"
#include <falcon/logger.h>
#include <algorithm>

using falcon::LogSystem;
using falcon::LogStreamListener;
using LEVEL = LogSystem::LEVEL;
using vf::Rng;
using vf::fmt;

static std::atomic<long> delivered{0};
// Listener with plain state: the service calls it from one thread at a time.
struct Plain: public LogSystem::Listener {
   long n = 0; size_t bytes = 0; std::string last; LEVEL lv = LogSystem::TRACE;
   void onMessage(const LogSystem::Message& m) override { ++n; bytes += m.m_file.size() + m.m_category.size() + size_t(m.m_line & 1); last = m.m_message; lv = m.m_level; delivered.fetch_add(1, std::memory_order_relaxed); vf::tick(); }
};
// Listener used by more services
struct Shared: public LogSystem::Listener {
   std::atomic<long> n{0};
   void onMessage(const LogSystem::Message& m) override { n.fetch_add(long(m.m_message.size()), std::memory_order_relaxed); delivered.fetch_add(1, std::memory_order_relaxed); vf::tick(); }
};
// Listener that registers others and changes itself
struct Busy: public LogSystem::Listener {
   LogSystem* ls = nullptr; std::vector<LogSystem::PListener> more; long n = 0;
   void onMessage(const LogSystem::Message& m) override {
      ++n; delivered.fetch_add(1, std::memory_order_relaxed);
      if(n % 7 == 0 && !more.empty()) { ls->addListener(more.back()); more.pop_back(); }
      if(n % 5 == 0) { category(n % 2 ? "net.*" : ""); }
      if(n % 11 == 0) { ls->log("inner.cpp", 1, LogSystem::TRACE, "inner", "from within"); LogSystem::Diags d; ls->getDiags(d); }
      if(n == 40) detach();
      (void)m;
   }
};
enum OPK { O_LOG, O_RAW, O_LEVEL, O_GETLEVEL, O_ADD, O_OWNADD, O_LLEVEL, O_LCAT, O_LCATBAD, O_LCATGET, O_CHECK, O_ENABLE, O_DETACH, O_READS, O_OWN, O_SHARE, O_WRITEON, O_DIAGS, O_START, O_STOP, O_MLOG, O_MBLOCK, O_MCAT, O_MTEMP, O_FILTER, O_CLEAR, O_DFLT, O_DROP, O_KINDS };
static const char* NAMES[] = {"log", "rawlog", "setlevel", "getlevel", "add", "addown", "llevel", "lcategory", "lbadcategory", "lcategoryget", "checkcategory", "enable", "detach", "reads", "own", "share", "writeon", "diags", "start", "stop", "LOG", "LOGBLOCK", "LOGCATEGORY", "LOGCAT", "filter", "clear", "default", "drop"};

static void runCase(Rng& r, long idx) {
   static const unsigned rates[] = {0, 0, 20, 100, 300};
   vf::Delays::rate() = rates[r.below(5)]; vf::Delays::seed() = r.next() | 1;
   int T = int(r.range(2, 6)); int N = int(r.range(60, 250));
   vf::setContext(fmt("L07 case %ld threads=%d operations=%d", idx, T, N));
   std::vector<std::vector<long>> counts(T, std::vector<long>(O_KINDS, 0)); std::vector<uint64_t> hashes(T, 1);
   long before = delivered.load(); long plainSeen = 0;
   {
      std::unique_ptr<LogSystem> a(new LogSystem(r.chance(1, 2))), b(new LogSystem);
      std::vector<LogSystem*> svc = {a.get(), b.get(), &LOGGER};
      std::vector<std::shared_ptr<Plain>> plain[3]; std::vector<LogSystem::PListener> shared; std::vector<std::shared_ptr<LogStreamListener>> streams;
      std::vector<LogSystem::PListener> toAdd[3]; std::atomic<size_t> next[3]; for(auto& n: next) n = 0;
      std::vector<LogSystem::PListener> all;
      for(int s = 0; s < 3; ++s) {
         for(int i = 0; i < 5; ++i) { plain[s].push_back(std::make_shared<Plain>()); toAdd[s].push_back(plain[s].back()); all.push_back(plain[s].back()); }
         auto busy = std::make_shared<Busy>(); busy->ls = svc[s]; for(int i = 0; i < 3; ++i) busy->more.push_back(std::make_shared<Shared>()); toAdd[s].push_back(busy);
      }
      for(int i = 0; i < 3; ++i) { auto p = std::make_shared<Shared>(); shared.push_back(p); all.push_back(p); for(int s = 0; s < 3; ++s) toAdd[s].push_back(p); }
      for(int i = 0; i < 3; ++i) { auto p = std::make_shared<LogStreamListener>(); streams.push_back(p); all.push_back(p); for(int s = 0; s < 3; ++s) if(i != 0 || s == 0) toAdd[s].push_back(i == 1 ? LogSystem::PListener(std::make_shared<falcon::LogProxyListener>(p)) : LogSystem::PListener(p)); }
      streams.push_back(LOGGER.defaultListener()); all.push_back(LOGGER.defaultListener());
      for(auto& v: toAdd) for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
      for(int s = 0; s < 3; ++s) { size_t k = r.below(toAdd[s].size()); for(size_t i = 0; i < k; ++i) svc[s]->addListener(toAdd[s][i]); next[s] = k; }
      std::vector<std::vector<std::unique_ptr<std::ostringstream>>> raws(T);
      std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
      // the profile: all operations, or some more often
      std::vector<int> profile; for(int k = 0; k < O_KINDS; ++k) profile.push_back(r.chance(1, 3) ? int(r.below(8)) : 1); profile[O_LOG] += 4; profile[O_MLOG] += 3; profile[O_STOP] = r.chance(1, 3) ? 1 : 0; if(profile[O_DETACH] > 2) profile[O_DETACH] = 1;
      std::vector<int> deck; for(int k = 0; k < O_KINDS; ++k) for(int i = 0; i < profile[k]; ++i) deck.push_back(k);
      vf::Barrier bar(T); std::vector<std::thread> th;
      for(int t = 0; t < T; ++t) th.emplace_back([&, t] {
         Rng rr(seeds[t]); std::vector<std::shared_ptr<Plain>> mine; 
         static const std::vector<std::string> cats = {"", "net", "net.*", ".*::x", "a|b"};
         static const std::vector<std::string> bads = {"[", "(", "*"};
         bar.n.fetch_add(1, std::memory_order_relaxed); while(bar.n.load(std::memory_order_relaxed) < T) std::this_thread::yield();
         for(int i = 0; i < N; ++i) {
            int k = rr.pick(deck); counts[t][k]++; hashes[t] = vf::mix(hashes[t], k); vf::tick();
            size_t s = rr.below(3); LogSystem& ls = *svc[s]; auto& l = *rr.pick(all);
            switch(k) {
            case O_LOG: ls.log("f.cpp", i, LEVEL(rr.below(6)), rr.chance(1, 2) ? "net" : "", "message text that is longer than a small string buffer"); break;
            case O_RAW: ls.log(new LogSystem::Message("raw.cpp", i, LEVEL(rr.below(6)), "net", "raw")); break;
            case O_LEVEL: ls.level(LEVEL(rr.range(2, 5))); break;
            case O_GETLEVEL: (void)ls.level(); break;
            case O_ADD: { size_t n = next[s].fetch_add(1, std::memory_order_relaxed); if(n < toAdd[s].size()) ls.addListener(toAdd[s][n]); break; }
            case O_OWNADD: if(mine.size() < 6) { auto p = std::make_shared<Plain>(); ls.addListener(p); mine.push_back(p); } break;
            case O_LLEVEL: l.level(LEVEL(rr.below(6))); break;
            case O_LCAT: l.category(rr.pick(cats)); break;
            case O_LCATBAD: try { l.category(rr.pick(bads)); } catch(const LogSystem::InvalidCategory&) {} break;
            case O_LCATGET: { std::string c = l.category(); if(c.size() > 100) abort(); break; }
            case O_CHECK: (void)l.checkCategory("net"); break;
            case O_ENABLE: l.enable(rr.chance(3, 4)); break;
            case O_DETACH: if(!mine.empty()) { mine.back()->detach(); } else if(rr.chance(1, 3)) rr.pick(plain[s])->detach(); break;
            case O_DROP: if(!mine.empty()) { mine.back()->detach(); mine.pop_back(); } break;
            case O_READS: (void)l.level(); (void)l.isEnabled(); (void)l.isDetached(); break;
            case O_OWN: { std::unique_ptr<std::ostream> u(new std::ostringstream); rr.pick(streams)->own(u); break; }
            case O_SHARE: rr.pick(streams)->share(std::make_shared<std::ostringstream>()); break;
            case O_WRITEON: if(rr.chance(1, 4)) rr.pick(streams)->writeOn(nullptr); else { raws[t].emplace_back(new std::ostringstream); rr.pick(streams)->writeOn(raws[t].back().get()); } break;
            case O_DIAGS: { LogSystem::Diags d; ls.getDiags(d); if(d.m_poolSize > 64) abort(); break; }
            case O_START: ls.start(); break;
            case O_STOP: ls.stop(); if(rr.chance(2, 3)) ls.start(); break;
            case O_MLOG: LOG(LEVEL(rr.below(6))) << "macro " << i << std::hex << i; break;
            case O_MBLOCK: LOG_BLOCK(LEVEL(rr.below(6))) { LOGGER << "block"; for(int q = 0; q < 3; ++q) LOGGER << q; if(rr.chance(1, 6)) break; } break;
            case O_MCAT: LOG_CATEGORY(rr.chance(1, 2) ? "net" : "a category longer than the small buffer"); if(LOGGER.getCategory().empty()) abort(); break;
            case O_MTEMP: LOG_INFO << LOG_CAT("temp") << "with category"; break;
            case O_FILTER: if(t == 0) { try { LOGGER.categoryFilter(rr.chance(1, 6) ? "[" : "net.*", LEVEL(rr.below(6))); } catch(const LogSystem::InvalidCategory&) {} } break;
            case O_CLEAR: if(t == 0) LOGGER.clearFilter(); break;
            case O_DFLT: (void)LOGGER.defaultListener()->level(); break;
            }
         }
         for(auto& p: mine) p->detach();
      });
      for(auto& t: th) t.join();
      LOGGER.clearFilter();
      // everything registered with the logger goes
      for(auto& s: streams) { s->writeOn(nullptr); std::unique_ptr<std::ostream> none; s->own(none); s->share(nullptr); }
      for(int s = 0; s < 3; ++s) for(auto& p: plain[s]) p->detach();
      for(auto& p: toAdd[2]) if(p != LOGGER.defaultListener()) p->detach();
      LOGGER.defaultListener()->enable(true); LOGGER.defaultListener()->level(falcon::LLTRACE); LOGGER.defaultListener()->category("");
      LOGGER.level(falcon::LLTRACE); LOGGER.start();
      LOG_INFO << "last"; LOG_INFO << "very last";
      LOGGER.stop(); a->stop();
      if(r.chance(1, 2)) { b->start(); }
      b.reset(); a.reset();
      for(int s = 0; s < 3; ++s) for(auto& p: plain[s]) { plainSeen += p->n + long(p->last.size() > 100); }
      LOGGER.start();
   }
   uint64_t h = T; for(auto x: hashes) h = vf::mix(h, x);
   for(int k = 0; k < O_KINDS; ++k) { long n = 0; for(int t = 0; t < T; ++t) n += counts[t][k]; vf::stat((std::string("op_") + NAMES[k]).c_str(), n); }
   vf::stat("deliveries", delivered.load() - before); vf::stat("evaluations");
   vf::distinct(vf::mix(h, delivered.load() - before));
   if(idx < 3) vf::sample(fmt("case %ld: %d threads x %d operations on 3 services, %ld deliveries, %ld to listeners with plain state", idx, T, N, delivered.load() - before, plainSeen));
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog("L07", 60);
   // the standard library fills this table on demand, without synchronisation (std::regex uses it)
   { auto& f = std::use_facet<std::ctype<char>>(std::locale()); for(int c = 0; c < 256; ++c) { f.narrow(char(c), 0); f.widen(char(c)); } std::regex warm("[a-z]+(x|y)*.*"); std::regex_match(std::string("abc"), warm); }
   for(long i = vf::options().get("from", 0); i < cases; ++i) { Rng r(vf::mix(seed, uint64_t(i))); runCase(r, i); vf::tick(); if(vf::violated()) break; }
   LOGGER.stop();
   vf::stat("injected_delays", (long long)vf::Delays::count().load());
   return vf::finish();
}
