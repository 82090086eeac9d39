// Monitor of the proxy listeners (L12): what a proxy accepts reaches its target, whatever the target would accept itself.
#define VF_WRAP_MUTEX
#include "common.h"
#include <falcon/logsystem.h>
#include <falcon/logproxy.h>
#include <algorithm>
#include <regex>

using falcon::LogSystem;
using falcon::LogProxyListener;
using LEVEL = LogSystem::LEVEL;
using vf::Rng;
using vf::fmt;

struct Msg { std::string id, file, cat, text; int line = 0; LEVEL level = LogSystem::CRITICAL; int service = 0; };

// a listener called by any number of services at once
struct Target: public LogSystem::Listener {
   std::mutex m; std::vector<Msg> got; std::atomic<size_t> n{0}; std::atomic<int> inside{0}; int id = 0, slow = 0; std::atomic<int>* dead = nullptr;
   ~Target() override { if(inside.load()) vf::viol("target-destroyed-while-called", fmt("target %d", id)); if(dead) ++*dead; }
   void onMessage(const LogSystem::Message& x) override {
      ++inside;
      { std::lock_guard<std::mutex> g(m); Msg k; k.text = x.m_message; k.id = x.m_message.substr(0, x.m_message.find('|')); k.file = x.m_file; k.cat = x.m_category; k.line = x.m_line; k.level = x.m_level; got.push_back(k); }
      if(slow) usleep(useconds_t(slow));
      ++n; vf::tick();
      --inside;
   }
};

struct Filter {
   LEVEL level = LogSystem::TRACE; std::string expr; bool enabled = true, detached = false;
   bool accepts(const Msg& x) const { return !detached && enabled && level >= x.level && (x.cat.empty() || expr.empty() || std::regex_match(x.cat, std::regex(expr))); }
   void apply(LogSystem::Listener& l) const { l.level(level); l.category(expr); l.enable(enabled); }
   // on a listener just made, which accepts everything
   void applyNew(LogSystem::Listener& l, Rng& r) const {
      if(level != LogSystem::TRACE || r.chance(1, 2)) { l.level(level); }
      if(!expr.empty() || r.chance(1, 2)) { l.category(expr); }
      if(!enabled || r.chance(1, 2)) { l.enable(enabled); }
   }
};
static const std::vector<std::string> CATS = {"", "net", "net::tcp", "disk", "a b", "x\ny", "tent", "n", "Net"};
static const std::vector<std::string> EXPRS = {"", "", "net", "net.*", "disk|net", "[A-Z].*", ".*", "n", "[^:]*"};
static Filter randFilter(Rng& r) { Filter f; if(r.chance(1, 2)) f.level = LEVEL(r.below(6)); f.expr = r.pick(EXPRS); f.enabled = !r.chance(1, 8); return f; }

template<typename F> static bool waitFor(F cond, int seconds = 12) {
   uint64_t last = vf::ticks().load(); auto t = std::chrono::steady_clock::now(); int spin = 0;
   while(!cond()) {
      if(++spin < 2000) { std::this_thread::yield(); } else { usleep(200); }
      uint64_t now = vf::ticks().load();
      if(now != last) { last = now; t = std::chrono::steady_clock::now(); }
      else if(std::chrono::steady_clock::now() - t > std::chrono::seconds(seconds)) { return cond(); }
   }
   return true;
}

static void caseProxy(Rng& r, long idx) {
   static const unsigned rates[] = {0, 0, 30, 120};
   vf::Delays::rate() = rates[r.below(4)]; vf::Delays::seed() = r.next() | 1;
   int S = int(r.range(1, 2)), T = int(r.range(1, 3)), K = r.chance(1, 30) ? int(r.range(20, 90)) : int(r.range(1, 6)), phases = int(r.range(1, 5));
   bool big = idx % 80 == 21; if(idx % 60 == 8) { S = int(r.range(3, 10)); T = int(r.range(3, 20)); }
   vf::setContext(fmt("L12 case %ld services=%d targets=%d proxies=%d phases=%d", idx, S, T, K, phases));
   std::atomic<int> dead{0};
   std::vector<std::unique_ptr<LogSystem>> svc; for(int s = 0; s < S; ++s) svc.emplace_back(new LogSystem);
   std::vector<std::shared_ptr<Target>> ref; for(int s = 0; s < S; ++s) ref.push_back(std::make_shared<Target>());
   std::vector<std::shared_ptr<Target>> tg;
   std::vector<std::vector<std::string>> seen(S);
   for(int t = 0; t < T; ++t) { auto x = std::make_shared<Target>(); x->id = t; x->dead = &dead; x->slow = r.chance(1, 4) ? int(r.below(120)) : 0; randFilter(r).applyNew(*x, r); if(r.chance(1, 6)) x->detach(); tg.push_back(x); }
   struct P { std::shared_ptr<LogProxyListener> l; int service, target; Filter f; int nested; };
   std::vector<P> px;
   for(int k = 0; k < K; ++k) {
      P p; p.service = int(r.below(S)); p.target = int(r.below(T)); p.nested = 0;
      LogSystem::PListener to = tg[p.target];
      int chain = r.chance(1, 60) ? int(r.range(5, 60)) : 0;
      while(p.nested < chain || (r.chance(1, 5) && p.nested < 3)) { auto mid = std::make_shared<LogProxyListener>(to); randFilter(r).applyNew(*mid, r); to = mid; ++p.nested; vf::stat("nested_proxies"); }
      p.l = std::make_shared<LogProxyListener>(to); p.f = randFilter(r); p.f.applyNew(*p.l, r);
      px.push_back(p); svc[p.service]->addListener(p.l);
   }
   for(int s = 0; s < S; ++s) svc[s]->addListener(ref[s]);   // after all the proxies: it sees a message when they have
   std::map<std::string, Msg> sent; std::vector<std::map<std::string, int>> expected(T);
   std::vector<size_t> total(T, 0), perService(S, 0);
   for(int ph = 0; ph < phases && !vf::violated(); ++ph) {
      int N = int(big ? r.range(500, 5000) : r.range(1, 40)), threads = int(r.range(1, 3));
      std::vector<std::vector<Msg>> by(threads);
      for(int i = 0; i < N; ++i) {
         Msg x; int th = int(r.below(threads)); x.service = int(r.below(S)); x.id = fmt("%d.%d.%d", ph, th, i); x.level = LEVEL(r.below(6)); x.cat = r.pick(CATS); x.line = int(r.next()); x.file = fmt("dir/f%d.cpp", int(r.below(9)));
         x.text = x.id + "|"; for(size_t q = r.chance(1, 40) ? r.below(5000) : r.below(30); q > 0; --q) x.text += char(r.below(256));
         by[th].push_back(x); sent[x.id] = x; perService[x.service]++;
         for(auto& p: px) if(p.service == x.service && p.f.accepts(x)) { expected[p.target][x.id]++; total[p.target]++; vf::stat("accepted"); } else if(p.service == x.service) vf::stat("rejected");
      }
      std::vector<std::thread> th;
      for(int t = 0; t < threads; ++t) th.emplace_back([&, t] { for(auto& x: by[t]) svc[x.service]->log(x.file, x.line, x.level, x.cat, x.text); });
      for(auto& t: th) t.join();
      if(!waitFor([&] { for(int s = 0; s < S; ++s) if(ref[s]->n.load() < perService[s]) return false; return true; })) { vf::viol("delivery-stalled", "records are missing"); return; }
      for(auto& x: svc) x->stop();   // nothing is under way, whatever the order the listeners are called in
      for(auto& p: px) if(r.chance(1, 2)) { p.f.level = LEVEL(r.below(6)); p.f.expr = r.pick(EXPRS); p.f.enabled = !r.chance(1, 8); p.f.apply(*p.l); if(r.chance(1, 10)) { p.l->detach(); p.f.detached = true; vf::stat("detached"); } }
      for(auto& t: tg) if(r.chance(1, 2)) { randFilter(r).apply(*t); vf::stat("target_changes"); }
      for(auto& x: svc) x->start();
   }
   if(vf::violated()) return;
   // the targets live as long as the proxies
   for(int s = 0; s < S; ++s) svc[s]->stop();
   for(int t = 0; t < T; ++t) {
      std::map<std::string, int> times; std::vector<std::vector<std::string>> order(S);
      for(auto& g: tg[t]->got) {
         auto i = sent.find(g.id);
         if(i == sent.end() || i->second.text != g.text || i->second.file != g.file || i->second.cat != g.cat || i->second.line != g.line || i->second.level != g.level) { vf::viol("message-changed", fmt("target %d was given '%s'", t, vf::esc(g.text, 80).c_str())); return; }
         times[g.id]++;
         auto& o = order[i->second.service]; if(o.empty() || o.back() != g.id) o.push_back(g.id);
      }
      for(auto& x: sent) {
         int e = expected[t].count(x.first) ? expected[t][x.first] : 0, n = times.count(x.first) ? times[x.first] : 0;
         if(e != n) { vf::viol(n < e ? "message-lost" : "message-not-filtered", fmt("target %d was given message %s (level %d, category '%s') %d times, accepted by %d of its proxies", t, x.first.c_str(), int(x.second.level), vf::esc(x.second.cat).c_str(), n, e)); return; }
      }
      for(int s = 0; s < S; ++s) {
         size_t k = 0; for(auto& id: order[s]) { while(k < ref[s]->got.size() && ref[s]->got[k].id != id) ++k; if(k == ref[s]->got.size()) { vf::viol("order", fmt("target %d: message %s of service %d out of order", t, id.c_str(), s)); return; } ++k; }
      }
      vf::stat("deliveries_checked", (long long)tg[t]->got.size());
   }
   // who holds what
   std::vector<std::weak_ptr<Target>> weak; for(auto& t: tg) weak.push_back(t);
   std::vector<int> uses(T, 0); for(auto& p: px) if(!p.f.detached) uses[p.target]++;
   tg.clear();
   for(int t = 0; t < T; ++t) if(uses[t] && weak[t].expired()) vf::viol("target-released", fmt("target %d is gone while a proxy uses it", t));
   px.clear();
   for(int t = 0; t < T; ++t) if(uses[t] && weak[t].expired()) vf::viol("target-released", fmt("target %d is gone while a registered proxy uses it", t));
   svc.clear();
   if(dead.load() != T) vf::viol("target-held", fmt("%d of %d targets destroyed with the services and proxies", dead.load(), T));
   vf::stat("evaluations");
   uint64_t h = idx; for(auto& e: total) h = vf::mix(h, e);
   vf::distinct(h);
   if(idx < 3) vf::sample(fmt("case %ld: %zu messages, %d proxies for %d targets on %d services", idx, sent.size(), K, T, S));
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog("L12", 45);
   for(long i = vf::options().get("from", 0); i < cases; ++i) {
      Rng r(vf::mix(seed, uint64_t(i)));
      caseProxy(r, i);
      vf::tick();
      if(vf::violated()) break;
   }
   vf::stat("injected_delays", (long long)vf::Delays::count().load());
   return vf::finish();
}
