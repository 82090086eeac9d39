// Monitors of the logging service: L01 exactly once, L02 order, L03 filters, L04 registration,
// L05 message conservation, L06 stop/restart.
#define VF_WRAP_MUTEX
#include "common.h"
#include <falcon/logsystem.h>
#include <algorithm>
#include <condition_variable>
#include <iostream>
#include <sys/stat.h>

using falcon::LogSystem;
using LEVEL = LogSystem::LEVEL;
using vf::Rng;
using vf::fmt;

// ------------------------------------------------------------------ submitted messages
struct Sub {
   std::string file, cat, text;
   int line = 0;
   LEVEL level = LogSystem::CRITICAL;
   int producer = 0;
   uint64_t call = 0, ret = 0;
   bool raw = false;
};

// one received message, as given to a listener
struct Got { std::string file, cat, text; int line; LEVEL level; uint64_t at; };

static std::string idOf(const std::string& text) { auto p = text.find('|'); return p == std::string::npos ? text : text.substr(0, p); }

struct Recorder: public LogSystem::Listener {
   std::mutex mtx;
   std::vector<Got> got;
   std::atomic<size_t> count{0};
   std::atomic<int> inside{0};
   std::atomic<bool> forbidden{false};  // set while no call may happen
   std::atomic<int> speed{0};
   std::function<void(const LogSystem::Message&, size_t)> hook;
   Rng rng{1};
   int id = 0;
   std::atomic<long>* alive = nullptr;
   bool keep = true;
   ~Recorder() override { if(alive) --*alive; }
   void onMessage(const LogSystem::Message& m) override {
      if(inside.fetch_add(1) != 0) { vf::viol("listener-reentered", fmt("listener %d given a message while handling another", id)); }
      if(forbidden.load()) { vf::viol("called-when-stopped", fmt("listener %d called with '%s' while the service was stopped or destroyed", id, vf::esc(m.m_message, 60).c_str())); }
      size_t n;
      {
         std::lock_guard<std::mutex> g(mtx);
         if(keep) { got.push_back(Got{m.m_file, m.m_category, m.m_message, m.m_line, m.m_level, vf::stamp()}); }
         n = count.load() + 1;
      }
      int s = speed.load(std::memory_order_relaxed);
      if(s == 1) { std::this_thread::yield(); }
      else if(s == 2 && rng.chance(1, 20)) { usleep(useconds_t(rng.below(300))); }
      if(hook) { hook(m, n); }
      if(forbidden.load()) { vf::viol("called-when-stopped", fmt("listener %d still handling a message when the service was stopped", id)); }
      inside.fetch_sub(1);
      count.fetch_add(1);
      vf::tick();
   }
   size_t n() const { return count.load(); }
};
using PRec = std::shared_ptr<Recorder>;

// waits for a count; false if nothing at all happened for a long time
template<typename F> static bool waitFor(F cond, int seconds = 12) {
   uint64_t last = vf::ticks().load(); auto t = std::chrono::steady_clock::now();
   int spin = 0;
   while(!cond()) {
      if(++spin < 2000) { std::this_thread::yield(); } else { usleep(200); }
      uint64_t now = vf::ticks().load();
      if(now != last) { last = now; t = std::chrono::steady_clock::now(); }
      else if(std::chrono::steady_clock::now() - t > std::chrono::seconds(seconds)) { return cond(); }
   }
   return true;
}

static std::string randText(Rng& r, const std::string& id) {
   std::string t = id + "|";
   size_t n = r.chance(1, 30) ? r.below(6000) : r.below(40);
   if(r.chance(1, 3000)) { t.append(r.range(30000, 300000), char('a' + r.below(26))); }
   for(size_t i = 0; i < n; ++i) { t += char(r.chance(1, 4) ? r.below(256) : 'a' + r.below(26)); }
   return t;
}
static const std::vector<std::string> CATS = {"", "net", "net::tcp", "net::udp", "disk", "disk::cache", "a b", "UPPER", "x\ny", "app::INTERNAL", "n", "tent", "net ", " net", "Net", "netnet", ":", "é::x", "net-net", "net-disk", "aa", "nn", "net::nx", "net::x"};
static const std::vector<std::string> EXPRS = {"", "net", "net.*", ".*::tcp", "disk|net", "(a|b) .*", "[A-Z]+", ".*", "x.*", "n", "net(::udp)?", ".*::INTERNAL", "[^:]*", "e", "^net$", "(net)+", "net|net::tcp", "NET", "^$", "\\w+", "a|n|x\ny", ".*c{30,}", "(?!net).*", "[[:alpha:]]{3,4}", "(net|disk)-\\1", "(.)\\1", "(?:a|n)+", "(a)?(n)\\2", "((n)et)::\\2.*"};
static const std::vector<std::string> BADEX = {"[", "(", "a{2", "*a", "(a", "[z-a]", "a**(", "\\"};

// an expression, and a text that it matches
static std::pair<std::string, std::string> randExpr(Rng& r, int depth = 0) {
   auto lit = [&] { return std::string(1, "abnet:N"[r.below(7)]); };
   unsigned k = unsigned(r.below(depth > 2 ? 4 : 10));
   if(k < 3) { std::string l; for(size_t n = r.range(1, 3); n > 0; --n) l += lit(); return {l, l}; }
   if(k == 3) switch(r.below(5)) {
      case 0: return {".", lit()};
      case 1: return {"[a-e]", std::string(1, char('a' + r.below(5)))};
      case 2: return {"[^a-e]", "n"};
      case 3: return {"\\.", "."};
      default: return {"::", "::"};
   }
   auto a = randExpr(r, depth + 1);
   if(depth == 0 && r.chance(1, 8)) return {"(" + a.first + ")-\\1", a.second + "-" + a.second};
   if(k < 6) { auto b = randExpr(r, depth + 1); return {"(" + a.first + "|" + b.first + ")", r.chance(1, 2) ? a.second : b.second}; }
   if(k < 8) { auto b = randExpr(r, depth + 1); return {a.first + b.first, a.second + b.second}; }
   if(a.first.find_first_of("*+?{") != std::string::npos) return a;
   std::string t; size_t n = r.below(3);
   if(k == 8) { static const char* q[] = {"*", "+", "?"}; int w = int(r.below(3)); if(w == 1) n++; else if(w == 2) n = n & 1; for(size_t i = 0; i < n; ++i) t += a.second; return {"(" + a.first + ")" + q[w], t}; }
   t = a.second + a.second; return {"(" + a.first + "){2,3}", t};
}
// categories about an expression: matching, nearly so, or its own text
static std::string catNear(Rng& r, const std::pair<std::string, std::string>& e) {
   std::string c = r.chance(1, 4) ? e.first : e.second;
   switch(r.below(9)) {
   case 8: c.insert(r.chance(2, 3) ? c.size() : r.below(c.size() + 1), r.chance(1, 2) ? std::string(1, '\0') : std::string("\0net", 4)); vf::stat("categories_with_nul"); break;
   case 0: c += "abnet: N"[r.below(8)]; break;
   case 1: c.insert(c.begin(), "abnet: N"[r.below(8)]); break;
   case 2: if(!c.empty()) c.pop_back(); break;
   case 3: if(!c.empty()) c.erase(c.begin()); break;
   case 4: if(!c.empty()) { char& x = c[r.below(c.size())]; x = isupper((unsigned char)x) ? char(tolower(x)) : char(toupper(x)); } break;
   default: break;
   }
   return c;
}
static Sub randSub(Rng& r, int producer, size_t n) {
   Sub s; s.producer = producer;
   std::string id = fmt("p%d.%zu", producer, n);
   s.text = randText(r, id);
   s.file = r.chance(1, 5) ? std::string(r.chance(1, 50) ? r.below(5000) : r.below(200), 'f') + "/x.cpp" : fmt("src/dir%d/file%d.cpp", int(r.below(5)), int(r.below(9)));
   s.line = r.chance(1, 10) ? int(r.next()) : int(r.below(5000));
   s.level = LEVEL(r.below(6));
   s.cat = r.pick(CATS);
   if(r.chance(1, 20)) { s.cat += std::string(30 + (r.chance(1, 10) ? r.below(600) : r.below(30)), 'c'); }
   return s;
}

// a filter setting, and what it has to let through
struct Filter {
   LEVEL level = LogSystem::TRACE; std::string expr; bool enabled = true;
   bool accepts(LEVEL l, const std::string& cat) const {
      if(!enabled || level < l) return false;
      if(cat.empty() || expr.empty()) return true;
      return std::regex_match(cat, std::regex(expr));
   }
   // to a listener just made, which accepts everything
   void apply(LogSystem::Listener& l, Rng& r) const {
      if(level != LogSystem::TRACE || r.chance(1, 2)) { l.level(level); }
      if(!expr.empty() || r.chance(1, 2)) { l.category(expr); }
      if(!enabled || r.chance(1, 2)) { l.enable(enabled); }
   }
};
static Filter randFilter(Rng& r) {
   Filter f;
   if(r.chance(1, 2)) f.level = LEVEL(r.below(6));
   if(r.chance(1, 2)) f.expr = r.chance(1, 4) ? randExpr(r).first : r.pick(EXPRS);
   f.enabled = !r.chance(1, 8);
   return f;
}

static bool same(const Sub& s, const Got& g) { return s.file == g.file && s.cat == g.cat && s.text == g.text && s.line == g.line && s.level == g.level; }

static void submit(LogSystem& ls, Sub& s, bool raw) {
   s.raw = raw;
   s.call = vf::stamp();
   if(raw) {
      ls.log(new LogSystem::Message(s.file, s.line, s.level, s.cat, s.text));
   }
   else {
      ls.log(s.file, s.line, s.level, s.cat, s.text);
   }
   s.ret = vf::stamp();
   vf::tick();
}

static void setDelays(Rng& r) {
   static const unsigned rates[] = {0, 0, 30, 120, 400};
   vf::Delays::rate() = rates[r.below(5)];
   vf::Delays::seed() = r.next() | 1;
}

static uint64_t orderHash(const std::vector<Got>& g) {
   uint64_t h = 7;
   for(auto& x: g) { h = vf::mix(h, vf::hashStr(idOf(x.text).substr(0, 3))); }
   return h;
}

// checks the messages one listener received against those submitted (by id)
static void checkExactlyOnce(const Recorder& rec, const std::vector<std::vector<Sub>>& subs, const std::function<int(const Sub&)>& expected, const char* who) {
   std::map<std::string, std::pair<const Sub*, int>> byId;
   for(auto& v: subs) for(auto& s: v) { byId[idOf(s.text)] = std::make_pair(&s, 0); }
   for(auto& g: rec.got) {
      auto i = byId.find(idOf(g.text));
      if(i == byId.end()) { vf::viol("message-corrupted", fmt("%s listener %d received unknown message '%s'", who, rec.id, vf::esc(g.text, 80).c_str())); continue; }
      i->second.second++;
      if(!same(*i->second.first, g)) {
         vf::viol("message-corrupted", fmt("%s listener %d: message %s received as file '%s' line %d level %d cat '%s' text '%s'", who, rec.id, i->first.c_str(),
               vf::esc(g.file, 60).c_str(), g.line, int(g.level), vf::esc(g.cat, 60).c_str(), vf::esc(g.text, 60).c_str()));
      }
   }
   for(auto& b: byId) {
      int exp = expected(*b.second.first), n = b.second.second;
      if(exp == -2 && n <= 1) continue;   // once at most
      if(exp == -1) continue;   // not determined
      if(n < exp) vf::viol("message-lost", fmt("%s listener %d did not receive message %s (level %d cat '%s')", who, rec.id, b.first.c_str(), int(b.second.first->level), vf::esc(b.second.first->cat, 40).c_str()));
      else if(n > exp && exp == 0) vf::viol("message-not-filtered", fmt("%s listener %d received message %s (level %d cat '%s'), which it must not", who, rec.id, b.first.c_str(), int(b.second.first->level), vf::esc(b.second.first->cat, 40).c_str()));
      else if(n > exp) vf::viol("message-duplicated", fmt("%s listener %d received %d times message %s", who, rec.id, n, b.first.c_str()));
   }
   vf::stat("deliveries_checked", (long long)rec.got.size());
}

// ================================================================== L01
static void caseL01many(Rng& r, long idx);
static void caseL01again(Rng& r, long idx);
static void caseL01(Rng& r, long idx) {
   if(idx % 12 == 7) { caseL01many(r, idx); return; }
   if(idx % 12 == 3) { caseL01again(r, idx); return; }
   setDelays(r);
   int P = int(r.range(1, 6)), L = int(r.range(1, 5));
   size_t M = r.chance(1, 6) ? r.below(1500) / P + 1 : r.below(120) + 1;
   LEVEL svc = r.chance(1, 2) ? LogSystem::TRACE : LEVEL(r.below(6));
   bool lateStart = r.chance(1, 4);
   // now and then a backlog of tens of thousands of messages
   bool mass = idx % 120 == 5;
   bool crowd = idx % 40 == 9;   // many listeners
   if(crowd) { L = int(r.range(20, 150)); M = r.below(20) + 1; vf::stat("crowds_of_listeners"); }
   if(mass) { vf::Delays::rate() = 0; M = size_t(r.range(10000, 70000)) / P + 1; L = int(r.range(1, 2)); svc = LogSystem::TRACE; lateStart = true; vf::stat("huge_backlogs"); }
   vf::setContext(fmt("L01 case %ld producers=%d listeners=%d messages=%zu level=%d", idx, P, L, M, int(svc)));
   std::vector<PRec> recs, leavers, late; std::vector<Filter> filters, lateFilters; std::vector<uint64_t> since;
   std::vector<std::vector<Sub>> subs(P);
   size_t accepted = 0;
   {
      LogSystem ls(!lateStart);
      if(svc != LogSystem::TRACE || r.chance(1, 2)) { ls.level(svc); }
      if(ls.level() != svc) vf::viol("service-level", "level() does not return the level set");
      // others come and go among them: they are detached meanwhile, by us or from within a call
      bool leaving = r.chance(1, 2);
      auto leave = [&] {
         if(!leaving || !r.chance(1, 2)) return;
         auto rec = std::make_shared<Recorder>(); rec->id = 1000; rec->keep = false; leavers.push_back(rec); Recorder* self = rec.get();
         size_t at = r.below(1 + M);
         switch(r.below(4)) {
         case 0: rec->hook = [self, at](const LogSystem::Message&, size_t n) { if(n > at) self->detach(); }; break;
         case 1: rec->hook = [self, at](const LogSystem::Message&, size_t n) { if(n > at) { self->detach(); self->enable(false); } }; break;
         case 2: if(leavers.size() > 1) { Recorder* other = leavers[leavers.size() - 2].get(); rec->hook = [other, at](const LogSystem::Message&, size_t n) { if(n > at) other->detach(); }; } break;
         default: if(r.chance(1, 2)) rec->detach(); else rec->enable(false);
         }
         ls.addListener(rec); vf::stat("others_that_leave");
      };
      for(int i = 0; i < L; ++i) {
         auto rec = std::make_shared<Recorder>(); rec->id = i; rec->rng = Rng(r.next()); rec->speed = int(r.below(3));
         Filter f = i == 0 ? Filter() : randFilter(r);
         f.apply(*rec, r); filters.push_back(f); recs.push_back(rec);
         leave();
         ls.addListener(rec);
      }
      leave();
      for(int p = 0; p < P; ++p) for(size_t m = 0; m < M; ++m) {
         subs[p].push_back(randSub(r, p, m));
         if(mass && subs[p].back().text.size() > 100) subs[p].back().text.resize(100);
      }
      std::vector<size_t> want(L, 0);
      for(auto& v: subs) for(auto& s: v) {
         if(s.level > svc) continue;
         ++accepted;
         for(int i = 0; i < L; ++i) if(filters[i].accepts(s.level, s.cat)) ++want[i];
      }
      int pause = mass ? 0 : int(r.below(4));
      vf::Barrier bar(P); std::vector<std::thread> th; std::vector<uint64_t> seeds;
      for(int p = 0; p < P; ++p) seeds.push_back(r.next());
      for(int p = 0; p < P; ++p) th.emplace_back([&, p] {
         Rng rr(seeds[p]); bar.wait();
         for(auto& s: subs[p]) {
            submit(ls, s, s.level <= svc && rr.chance(1, 12));
            if(pause == 1 && rr.chance(1, 8)) usleep(useconds_t(rr.below(100)));
            if(pause == 2) std::this_thread::yield();
         }
      });
      if(lateStart && (mass || r.chance(1, 2))) { for(auto& t: th) t.join(); th.clear(); }
      if(lateStart) ls.start();
      // listeners registered meanwhile: what's submitted from then on is due to them
      if(!mass && r.chance(1, 2)) {
         size_t N = r.range(1, 12);
         for(size_t k = 0; k < N; ++k) {
            auto rec = std::make_shared<Recorder>(); rec->id = 2000 + int(k); rec->rng = Rng(r.next()); rec->speed = int(r.below(3));
            Filter f = r.chance(1, 2) ? Filter() : randFilter(r); f.apply(*rec, r);
            late.push_back(rec); lateFilters.push_back(f);
            ls.addListener(rec); since.push_back(vf::stamp());
            if(r.chance(1, 3)) usleep(useconds_t(r.below(60)));
            else if(r.chance(1, 2)) std::this_thread::yield();
         }
         vf::stat("listeners_added_meanwhile", (long long)N);
      }
      for(auto& l: leavers) { if(r.chance(1, 3)) { std::this_thread::yield(); l->detach(); } }
      for(auto& t: th) t.join();
      bool all = waitFor([&] { for(int i = 0; i < L; ++i) if(recs[i]->n() < want[i]) return false; return true; });
      if(!all) { vf::viol("message-lost", "messages still undelivered after a long inactivity of a running service"); }
      // the first of all comes before the others: two further messages, that the monitor leaves out, and they're done with the last
      if(!late.empty()) {
         size_t n0 = recs[0]->n();
         for(int k = 0; k < 2; ++k) ls.log("", 0, LogSystem::CRITICAL, "", "last");
         if(!waitFor([&] { return recs[0]->n() >= n0 + 2; })) { vf::viol("message-lost", "the last messages"); }
      }
      LogSystem::Diags d; ls.getDiags(d);
      vf::statMax("max_backlog", (long long)d.m_maxMsgQueueSize);
      if(d.m_maxMsgQueueSize > LogSystem::MESSAGE_POOL_THRESHOLD) vf::stat("cases_beyond_pool");
   }
   auto strip = [](Recorder& rec) { rec.got.erase(std::remove_if(rec.got.begin(), rec.got.end(), [](const Got& g) { return g.text == "last"; }), rec.got.end()); };
   for(int i = 0; i < L; ++i) {
      strip(*recs[i]);
      checkExactlyOnce(*recs[i], subs, [&](const Sub& s) { return s.level <= svc && filters[i].accepts(s.level, s.cat) ? 1 : 0; }, "");
   }
   for(size_t i = 0; i < late.size(); ++i) {
      strip(*late[i]);
      checkExactlyOnce(*late[i], subs, [&](const Sub& s) { return s.level > svc || !lateFilters[i].accepts(s.level, s.cat) ? 0 : s.call > since[i] ? 1 : -2; }, "late");
   }
   vf::stat("messages_submitted", (long long)(P * M)); vf::stat("messages_accepted", (long long)accepted);
   vf::stat("evaluations");
   if(accepted && L > 0) vf::distinct(orderHash(recs[0]->got) ^ vf::mix(idx, L));
   vf::distinct("delivery_orders", orderHash(recs[0]->got));
   if(idx < 2) vf::sample(fmt("case %ld: %d producers x %zu messages, %d listeners, service level %d: %zu accepted, first delivered %s", idx, P, M, L, int(svc), accepted,
      recs[0]->got.empty() ? "-" : vf::esc(recs[0]->got[0].text, 30).c_str()));
}

// The same few messages over and over, that differ just by something: as many have to come as were submitted,
// and from a single producer the same in the same order.
static void caseL01again(Rng& r, long idx) {
   setDelays(r);
   int P = r.chance(1, 2) ? 1 : int(r.range(2, 5)), L = int(r.range(1, 4)); size_t M = r.range(20, r.chance(1, 5) ? 6000 : 400);
   vf::setContext(fmt("L01 case %ld producers=%d listeners=%d messages=%zu, repeated", idx, P, L, M));
   std::vector<Sub> kinds; kinds.push_back(randSub(r, 0, 0));
   while(kinds.size() < size_t(r.range(1, 8))) {
      Sub s = r.pick(kinds);
      switch(r.below(6)) {
      case 0: s.text = r.chance(1, 2) ? s.text + "x" : s.text.substr(0, s.text.size() / 2); break;
      case 1: s.line += r.chance(1, 2) ? 1 : 65536; break;
      case 2: s.file = r.chance(1, 2) ? s.file + "x" : "other" + s.file; break;
      case 3: s.cat = r.pick(CATS); break;
      case 4: s.level = LEVEL(r.below(6)); break;
      default: s.text.clear(); }
      kinds.push_back(s);
   }
   std::vector<PRec> recs; std::vector<Filter> fl;
   std::vector<std::vector<int>> sent(P);
   for(auto& v: sent) while(v.size() < M) { int k = int(r.below(kinds.size())); for(size_t n = r.chance(1, 4) ? r.range(2, 300) : r.range(1, 4); n > 0 && v.size() < M; --n) v.push_back(k); }
   LEVEL svc = r.chance(2, 3) ? LogSystem::TRACE : LEVEL(r.below(6)); std::vector<size_t> want(L, 0);
   {
      LogSystem ls(r.chance(3, 4)); if(svc != LogSystem::TRACE || r.chance(1, 2)) { ls.level(svc); }
      for(int i = 0; i < L; ++i) {
         auto rec = std::make_shared<Recorder>(); rec->id = i; rec->rng = Rng(r.next()); rec->speed = int(r.below(3));
         Filter f = i == 0 ? Filter() : randFilter(r); f.apply(*rec, r); fl.push_back(f); recs.push_back(rec); ls.addListener(rec);
         for(auto& v: sent) for(int k: v) if(kinds[k].level <= svc && f.accepts(kinds[k].level, kinds[k].cat)) ++want[i];
      }
      vf::Barrier bar(P); std::vector<std::thread> th; int every = int(r.below(30)) + 1; bool slow = r.chance(1, 3);
      for(int p = 0; p < P; ++p) th.emplace_back([&, p] {
         bar.wait();
         for(size_t i = 0; i < sent[p].size(); ++i) { Sub s = kinds[sent[p][i]]; submit(ls, s, s.level <= svc && i % every == 0 && every < 10); if(slow && i % 7 == 0) usleep(30); }
      });
      for(auto& t: th) t.join();
      ls.start();
      bool all = waitFor([&] { for(int i = 0; i < L; ++i) if(recs[i]->n() < want[i]) return false; return true; });
      if(!all) vf::viol("message-lost", "messages, the same many times, still undelivered after a long inactivity of a running service");
   }
   using Key = std::tuple<std::string, std::string, std::string, int, int>;
   uint64_t h = P;
   for(int i = 0; i < L; ++i) {
      std::map<Key, long> n; std::vector<Key> order, expOrder;
      auto key = [](const auto& s) { return Key(s.file, s.cat, s.text, s.line, int(s.level)); };
      for(auto& v: sent) for(int k: v) { auto& s = kinds[k]; if(s.level <= svc && fl[i].accepts(s.level, s.cat)) { ++n[key(s)]; expOrder.push_back(key(s)); } }
      for(auto& g: recs[i]->got) { --n[key(g)]; order.push_back(key(g)); h = vf::mix(h, vf::hashStr(g.text) + uint64_t(g.line)); }
      for(auto& x: n) if(x.second) vf::viol(x.second > 0 ? "message-lost" : "message-duplicated", fmt("listener %d: '%s' (file '%s' line %d level %d cat '%s') came %ld times %s than submitted", i, vf::esc(std::get<2>(x.first), 50).c_str(),
         vf::esc(std::get<0>(x.first), 40).c_str(), std::get<3>(x.first), std::get<4>(x.first), vf::esc(std::get<1>(x.first), 40).c_str(), std::labs(x.second), x.second > 0 ? "less" : "more"));
      if(P == 1 && !vf::violated() && order != expOrder) vf::viol("message-order", fmt("listener %d: the messages of one thread came in another order", i));
      vf::stat("deliveries_checked", (long long)order.size());
   }
   vf::stat("messages_submitted", (long long)(P * M)); vf::stat("repeated_messages", (long long)(P * M)); vf::stat("evaluations"); vf::distinct(h);
}

// several services at once: what is given to one is no business of the others
static void caseL01many(Rng& r, long idx) {
   setDelays(r);
   int K = int(r.range(2, r.chance(1, 5) ? 24 : 6)), P = int(r.range(1, 6)); size_t M = r.range(5, 200);
   vf::setContext(fmt("L01 case %ld services=%d producers=%d messages=%zu", idx, K, P, M));
   std::vector<std::unique_ptr<LogSystem>> svc; std::vector<LEVEL> lv; std::vector<int> state(K, 0);   // 1: never started, 2: destroyed early
   std::vector<std::vector<PRec>> recs(K); std::vector<std::vector<Filter>> fl(K);
   std::vector<std::vector<std::vector<Sub>>> subs(K, std::vector<std::vector<Sub>>(P));
   size_t total = 0;
   for(int k = 0; k < K; ++k) {
      svc.emplace_back(new LogSystem(r.chance(1, 2)));
      lv.push_back(r.chance(1, 2) ? LogSystem::TRACE : LEVEL(r.below(6))); svc[k]->level(lv[k]);
      if(r.chance(1, 8)) state[k] = 1; else if(r.chance(1, 6)) state[k] = 2;
      if(state[k] == 1) svc[k]->stop();
      for(int i = int(r.range(1, 3)); i > 0; --i) {
         auto rec = std::make_shared<Recorder>(); rec->id = k * 100 + i; rec->rng = Rng(r.next()); rec->speed = int(r.below(3));
         Filter f = randFilter(r); f.apply(*rec, r); fl[k].push_back(f); recs[k].push_back(rec); svc[k]->addListener(rec);
         if(state[k] == 1) rec->forbidden = true;
      }
   }
   struct Job { int k; Sub* s; };
   std::vector<std::vector<Job>> jobs(P);
   for(int p = 0; p < P; ++p) {
      std::vector<int> to; for(size_t m = 0; m < M; ++m) to.push_back(int(r.below(K)));
      for(size_t m = 0; m < M; ++m) { Sub s = randSub(r, p, m); s.text = fmt("s%d%s", to[m], s.text.c_str()) + "."; s.level = LEVEL(r.below(6)); subs[to[m]][p].push_back(s); }
      std::vector<size_t> at(K, 0);
      for(int k: to) jobs[p].push_back(Job{k, &subs[k][p][at[k]++]});
      total += M;
   }
   std::vector<uint64_t> seeds; for(int p = 0; p < P; ++p) seeds.push_back(r.next());
   // those destroyed early get the first part only
   std::vector<size_t> half(P, 0); for(int p = 0; p < P; ++p) half[p] = r.below(jobs[p].size());
   auto run = [&](bool second) {
      vf::Barrier bar(P); std::vector<std::thread> th;
      for(int p = 0; p < P; ++p) th.emplace_back([&, p] {
         Rng rr(seeds[p]); bar.wait();
         for(size_t i = second ? half[p] : 0; i < (second ? jobs[p].size() : half[p]); ++i) {
            auto& j = jobs[p][i];
            if(second && state[j.k] == 2) continue;
            submit(*svc[j.k], *j.s, j.s->level <= lv[j.k] && rr.chance(1, 12));
         }
      });
      for(auto& t: th) t.join();
   };
   for(int k = 0; k < K; ++k) if(state[k] != 1 && r.chance(1, 2)) svc[k]->start();
   run(false);
   for(int k = 0; k < K; ++k) if(state[k] == 2) { svc[k].reset(); for(auto& x: recs[k]) x->forbidden = true; vf::stat("services_gone_early"); }
   run(true);
   for(int k = 0; k < K; ++k) if(state[k] == 0) svc[k]->start();
   auto want = [&](int k, size_t i) { size_t n = 0; for(auto& v: subs[k]) for(auto& s: v) n += s.call && s.level <= lv[k] && fl[k][i].accepts(s.level, s.cat); return n; };
   bool all = waitFor([&] { for(int k = 0; k < K; ++k) if(state[k] == 0) for(size_t i = 0; i < recs[k].size(); ++i) if(recs[k][i]->n() < want(k, i)) return false; return true; });
   if(!all) vf::viol("message-lost", "messages still undelivered after a long inactivity of running services");
   for(int k = K - 1; k >= 0; --k) { svc[k].reset(); for(auto& x: recs[k]) x->forbidden = true; }
   uint64_t h = K;
   for(int k = 0; k < K; ++k) for(size_t i = 0; i < recs[k].size(); ++i) {
      checkExactlyOnce(*recs[k][i], subs[k], [&](const Sub& s) { return !s.call || state[k] == 1 || s.level > lv[k] || !fl[k][i].accepts(s.level, s.cat) ? 0 : state[k] == 2 ? -1 : 1; }, "");
      if(state[k] == 2) { std::set<std::string> seen; for(auto& g: recs[k][i]->got) if(!seen.insert(idOf(g.text)).second) vf::viol("message-duplicated", fmt("service %d: %s", k, idOf(g.text).c_str())); }
      h = vf::mix(h, orderHash(recs[k][i]->got));
   }
   vf::stat("messages_submitted", (long long)total); vf::stat("several_services"); vf::stat("evaluations"); vf::distinct(h);
}

// ================================================================== L02
static void caseL02(Rng& r, long idx) {
   setDelays(r);
   int P = int(r.range(1, 6)), L = int(r.range(1, 3));
   size_t M = r.range(3, r.chance(1, 6) ? 300 : 60);
   bool restarts = r.chance(1, 3), late = r.chance(1, 2), echo = r.chance(1, 3), rawOk = r.chance(1, 3);
   if(idx % 50 == 13) { P = int(r.range(8, 24)); M = r.range(3, 60); vf::stat("crowds_of_producers"); }
   if(idx % 50 == 26) { L = int(r.range(10, 120)); M = r.range(3, 20); vf::stat("crowds_of_listeners"); }
   if(idx % 150 == 39) { M = size_t(r.range(4000, 30000)) / P; L = int(r.range(1, 2)); vf::Delays::rate() = 0; vf::stat("huge_histories"); }
   vf::setContext(fmt("L02 case %ld producers=%d messages=%zu restarts=%d late-listeners=%d echo=%d", idx, P, M, restarts, late, echo));
   std::vector<PRec> recs; std::vector<std::vector<Sub>> subs(P + 1);
   subs[P].reserve(P * M + 8);
   size_t echoes = 0;
   {
      LogSystem ls;
      auto add = [&](int i) {
         auto rec = std::make_shared<Recorder>(); rec->id = i; rec->rng = Rng(r.next()); rec->speed = int(r.below(3));
         if(i > 0 && r.chance(1, 2)) rec->level(LEVEL(r.range(1, 5)));
         recs.push_back(rec); return rec;
      };
      auto first = add(0);
      if(echo) {
         // a listener that submits messages of its own: the delivery thread is a producer too
         first->hook = [&](const LogSystem::Message& m, size_t n) {
            if(m.m_message[0] == 'p' && n % 5 == 0 && subs[P].size() + 1 < subs[P].capacity()) {
               Sub s; s.producer = P; s.text = fmt("p%d.%zu|echo", P, subs[P].size()); s.level = LogSystem::CRITICAL;
               subs[P].push_back(s); submit(ls, subs[P].back(), false);
            }
         };
      }
      ls.addListener(first);
      for(int i = 1; i < L; ++i) ls.addListener(add(i));
      for(int p = 0; p < P; ++p) for(size_t m = 0; m < M; ++m) subs[p].push_back(randSub(r, p, m));
      std::vector<uint64_t> seeds; for(int p = 0; p < P; ++p) seeds.push_back(r.next());
      vf::Barrier bar(P); std::vector<std::thread> th; std::atomic<int> live{P};
      for(int p = 0; p < P; ++p) th.emplace_back([&, p] {
         Rng rr(seeds[p]); bar.wait();
         for(auto& s: subs[p]) { submit(ls, s, rawOk && rr.chance(1, 6)); if(rr.chance(1, 10)) std::this_thread::yield(); }
         --live;
      });
      while(live.load() > 0) {
         if(restarts && r.chance(1, 3)) { ls.stop(); if(r.chance(1, 2)) usleep(useconds_t(r.below(200))); ls.start(); vf::stat("restarts"); }
         if(late && recs.size() < 6 && r.chance(1, 4)) { ls.addListener(add(int(recs.size()))); vf::stat("late_listeners"); }
         usleep(useconds_t(r.below(100)));
      }
      for(auto& t: th) t.join();
      if(!waitFor([&] { return recs[0]->n() >= P * M; })) vf::viol("delivery-stalled", "the service stopped delivering");
      usleep(100);
   }
   // per listener: order of the producer, and real time order
   std::map<std::string, const Sub*> byId; std::map<std::string, size_t> pos;
   for(auto& v: subs) for(auto& s: v) byId[idOf(s.text)] = &s;
   for(auto& rec: recs) {
      uint64_t maxCall = 0; const Sub* maxSub = nullptr; std::map<int, long> lastNum;
      for(auto& g: rec->got) {
         std::string id = idOf(g.text); auto i = byId.find(id);
         if(i == byId.end()) { vf::viol("unknown-message", vf::esc(g.text, 50)); continue; }
         const Sub* s = i->second;
         long num = strtol(id.c_str() + id.find('.') + 1, nullptr, 10);
         auto& ln = lastNum.emplace(s->producer, -1).first->second;
         if(num <= ln) vf::viol("producer-order", fmt("listener %d received %s after message %ld of the same producer", rec->id, id.c_str(), ln));
         ln = num;
         if(s->ret && s->ret < maxCall) vf::viol("real-time-order", fmt("listener %d received %s, submitted before %s began, after it", rec->id, id.c_str(), idOf(maxSub->text).c_str()));
         if(s->call > maxCall) { maxCall = s->call; maxSub = s; }
         vf::stat("ordered_deliveries");
      }
   }
   // all listeners agree: recorder 0 sees everything
   for(size_t i = 0; i < recs[0]->got.size(); ++i) pos[idOf(recs[0]->got[i].text)] = i;
   for(size_t k = 1; k < recs.size(); ++k) {
      long last = -1;
      for(auto& g: recs[k]->got) {
         auto i = pos.find(idOf(g.text));
         if(i == pos.end()) { continue; }   // loss is not a matter of order
         if(long(i->second) <= last) vf::viol("listeners-disagree", fmt("listener %zu received %s in another order than listener 0", k, i->first.c_str()));
         last = long(i->second);
      }
   }
   // the exact order of delivery between listeners: one message at a time
   echoes = subs[P].size();
   vf::stat("evaluations"); vf::stat("messages_submitted", (long long)(P * M + echoes));
   uint64_t h = orderHash(recs[0]->got);
   if(P > 1 || restarts || echo) vf::distinct(vf::mix(h, recs.size()));
   vf::distinct("delivery_orders", h);
   if(idx < 2) {
      std::string o; for(size_t i = 0; i < recs[0]->got.size() && i < 24; ++i) o += idOf(recs[0]->got[i].text) + " ";
      vf::sample(fmt("case %ld: %d producers, delivered: %s", idx, P, o.c_str()));
   }
}

// ================================================================== L03
struct Witness: public Recorder {};
static void caseL03(Rng& r, long idx) {
   setDelays(r);
   int L = int(r.range(1, idx % 40 == 11 ? 60 : 4));
   vf::setContext(fmt("L03 case %ld listeners=%d", idx, L));
   LogSystem ls;
   std::vector<PRec> recs; std::vector<Filter> fl(L); std::vector<std::pair<std::string, std::string>> near(L);
   std::vector<std::vector<std::string>> expect(L);
   auto wit = std::make_shared<Recorder>(); wit->id = 99; size_t sentAll = 0;
   int witPos = int(r.below(L + 1));
   for(int i = 0; i < L; ++i) {
      if(i == witPos) ls.addListener(wit);
      auto rec = std::make_shared<Recorder>(); rec->id = i; recs.push_back(rec);
      ls.addListener(rec);
   }
   if(witPos == L) ls.addListener(wit);
   int rounds = int(r.range(2, 8)); size_t n = 0; std::string hist, lastCat;
   for(int k = 0; k < rounds; ++k) {
      for(int c = int(r.below(4)); c >= 0; --c) {
         int i = int(r.below(L)); auto& l = *recs[i];
         switch(r.below(4)) {
         case 0: fl[i].level = LEVEL(r.below(6)); l.level(fl[i].level); hist += fmt("L%d:%d ", i, int(fl[i].level)); break;
         case 1: fl[i].enabled = r.chance(1, 2); l.enable(fl[i].enabled); hist += fmt("E%d:%d ", i, fl[i].enabled); break;
         case 2:
            if(r.chance(1, 4) && !fl[i].expr.empty()) {   // one letter of the expression in force
               std::string e = fl[i].expr; std::vector<size_t> at;
               for(size_t c = 0; c < e.size(); ++c) if(isalpha((unsigned char)e[c]) && (c == 0 || e[c - 1] != '\\')) at.push_back(c);
               if(!at.empty()) {
                  e[r.pick(at)] = char('a' + r.below(26));
                  try { std::regex probe(e); near[i].first = e; vf::stat("altered_expressions"); } catch(const std::regex_error&) {}
               }
            }
            else if(r.chance(1, 3)) { near[i] = {r.pick(EXPRS), r.pick(CATS)}; } else { near[i] = randExpr(r); vf::stat("generated_expressions"); }
            fl[i].expr = near[i].first; l.category(fl[i].expr); hist += fmt("C%d:%s ", i, fl[i].expr.c_str()); break;
         case 3: {
            std::string bad = r.pick(BADEX); bool thrown = false, other = false; hist += fmt("X%d:%s ", i, bad.c_str());
            try { l.category(bad); } catch(const LogSystem::InvalidCategory&) { thrown = true; } catch(...) { other = true; }
            if(other || !thrown) vf::viol("invalid-expression-accepted", fmt("category('%s') %s", bad.c_str(), other ? "threw another exception" : "did not throw InvalidCategory"));
            vf::stat("invalid_expressions");
            break;
         }
         }
         if(l.category() != fl[i].expr) vf::viol("filter-not-in-force", fmt("category() is '%s' instead of '%s' after %s", vf::esc(l.category()).c_str(), fl[i].expr.c_str(), hist.c_str()));
         if(l.level() != fl[i].level || l.isEnabled() != fl[i].enabled) vf::viol("filter-not-in-force", "level() or isEnabled() don't return what was set");
      }
      int B = int(r.range(1, 12));
      for(int b = 0; b < B; ++b) {
         Sub s = randSub(r, 0, n++);
         if(r.chance(1, 2)) { s.cat = catNear(r, near[r.below(L)]); vf::stat("near_categories"); }
         if(r.chance(1, 4) || (b == 0 && k > 0 && r.chance(1, 2))) { s.cat = lastCat; vf::stat("repeated_categories"); }   // as the last message, whatever changed in between
         lastCat = s.cat;
         for(int i = 0; i < L; ++i) {
            bool acc = fl[i].accepts(s.level, s.cat);
            Filter catOnly; catOnly.expr = fl[i].expr;
            if(recs[i]->checkCategory(s.cat) != catOnly.accepts(LogSystem::CRITICAL, s.cat)) {
               vf::viol("category-match", fmt("checkCategory('%s') with filter '%s' answers %d", vf::esc(s.cat).c_str(), fl[i].expr.c_str(), !catOnly.accepts(LogSystem::CRITICAL, s.cat)));
            }
            if(acc) expect[i].push_back(idOf(s.text));
            vf::stat(acc ? "accepted" : "rejected");
            vf::distinct(vf::mix(vf::mix(vf::hashStr(fl[i].expr), vf::hashStr(s.cat)), int(s.level) * 100 + int(fl[i].level) * 10 + fl[i].enabled));
         }
         submit(ls, s, false); ++sentAll;
      }
      // two further messages that only the witness gets: all the former have been through by then
      for(int b = 0; b < 2; ++b) {
         std::vector<bool> was; for(int i = 0; i < L; ++i) {
            if(fl[i].accepts(LogSystem::CRITICAL, "")) expect[i].push_back(fmt("w%zu", n));
         }
         Sub s; s.text = fmt("w%zu|", n++); s.level = LogSystem::CRITICAL; submit(ls, s, false); ++sentAll;
      }
      if(!waitFor([&] { return wit->n() >= sentAll; })) { vf::viol("delivery-stalled", "the service stopped delivering"); return; }
      vf::stat("evaluations", B * L);
   }
   ls.stop();
   for(int i = 0; i < L; ++i) {
      std::vector<std::string> got; for(auto& g: recs[i]->got) got.push_back(idOf(g.text));
      // the trailing witness messages of each round may be still on their way when the filter changes
      auto strip = [](std::vector<std::string>& v) { v.erase(std::remove_if(v.begin(), v.end(), [](const std::string& s) { return s[0] == 'w'; }), v.end()); };
      strip(got); strip(expect[i]);
      if(got != expect[i]) {
         size_t k = 0; while(k < got.size() && k < expect[i].size() && got[k] == expect[i][k]) ++k;
         vf::viol("filter-decision", fmt("listener %d: delivery %zu is %s instead of %s; history %s", i, k, k < got.size() ? got[k].c_str() : "nothing",
            k < expect[i].size() ? expect[i][k].c_str() : "nothing", hist.c_str()));
      }
   }
   if(idx < 2) vf::sample(fmt("case %ld: %s; %zu messages", idx, hist.c_str(), n));
}

// ================================================================== L04
struct Life { std::weak_ptr<Recorder> w; int id; };
// a crowd of listeners that detach themselves or others while being served
static void caseL04crowd(Rng& r, long idx) {
   setDelays(r);
   int N = int(r.range(2, r.chance(1, 8) ? 300 : 24)), rounds = int(r.range(1, 5));
   vf::setContext(fmt("L04 case %ld crowd of %d", idx, N));
   std::atomic<long> alive{0}; std::string hist;
   {
      LogSystem ls(r.chance(1, 2));
      struct L { PRec p; std::weak_ptr<Recorder> w; size_t det = ~size_t(0); };   // det: detached before this message, or while it is delivered if 'during'
      auto ctl = std::make_shared<std::map<size_t, std::map<int, std::vector<int>>>>();   // message -> who detaches whom
      std::vector<L> v; std::vector<int> order;
      auto wit = std::make_shared<Recorder>(); wit->id = 5000; size_t sent = 0;
      int witAt = int(r.below(N + 1));
      std::vector<bool> during(N, false);
      std::vector<LogSystem::Listener*> raw(N);
      for(int i = 0; i < N; ++i) {
         if(i == witAt) ls.addListener(wit);
         auto p = std::make_shared<Recorder>(); p->id = i; p->alive = &alive; ++alive; raw[i] = p.get();
         p->hook = [ctl, i, &raw](const LogSystem::Message& m, size_t) {
            size_t k = strtoul(m.m_message.c_str() + 1, nullptr, 10);
            auto a = ctl->find(k); if(a == ctl->end()) return;
            auto b = a->second.find(i); if(b == a->second.end()) return;
            for(int x: b->second) raw[x]->detach();
         };
         L l; l.p = p; l.w = p; v.push_back(l); ls.addListener(p);
      }
      if(witAt == N) ls.addListener(wit);
      ls.start();
      std::vector<int> live; for(int i = 0; i < N; ++i) live.push_back(i);
      auto send = [&] { Sub s; s.text = fmt("m%zu|", sent++); submit(ls, s, false); };
      auto settle = [&] { if(!waitFor([&] { return wit->n() >= sent; })) { vf::viol("delivery-stalled", "the service stopped delivering"); return false; } return true; };
      for(int q = 0; q < rounds && !live.empty(); ++q) {
         for(size_t k = r.below(4); k; --k) send();
         if(!settle()) return;
         // the message before may still be on its way to those after the witness
         send(); send(); if(!settle()) return;
         if(!waitFor([&] { for(int i: live) if(v[i].p->n() < sent) return false; return true; })) { vf::viol("registered-not-served", fmt("a listener of %d was not served; %s", N, hist.c_str())); return; }
         size_t cnt = r.chance(1, 4) ? live.size() : r.range(1, live.size());
         std::vector<int> gone; for(size_t k = 0; k < cnt; ++k) { size_t x = r.below(live.size()); gone.push_back(live[x]); live.erase(live.begin() + long(x)); }
         bool within = r.chance(1, 2);
         if(within) {
            for(int g: gone) {
               // by itself, or by another one that is served with the same message
               int who = r.chance(1, 2) ? g : r.chance(1, 2) || live.empty() ? gone[r.below(gone.size())] : live[r.below(live.size())];
               // one detached before its turn does not run; so a chain may be cut, and the rest is detached by the witness, too
               (*ctl)[sent][who].push_back(g); during[g] = true;
            }
            auto rest = gone; auto all = raw;
            wit->hook = [rest, all, k = sent](const LogSystem::Message& m, size_t) { if(strtoul(m.m_message.c_str() + 1, nullptr, 10) == k) for(int x: rest) all[x]->detach(); };
            for(int g: gone) v[g].det = sent + 1;
            send(); vf::stat("detached_from_within", (long long)gone.size());
            if(!settle()) return;
         }
         else for(int g: gone) { v[g].det = sent; v[g].p->detach(); }
         vf::stat("detachments", (long long)gone.size());
         hist += fmt("%zu%s@%zu ", gone.size(), within ? "in" : "", sent);
         send(); send(); send(); if(!settle()) return;
         for(int g: gone) {
            auto& l = v[g];
            std::vector<size_t> ids; for(auto& x: l.p->got) ids.push_back(strtoul(x.text.c_str() + 1, nullptr, 10));
            // all the messages up to the detachment, but for the one it came with
            size_t must = l.det - (during[g] ? 1 : 0);
            for(size_t k = 0; k < ids.size(); ++k) { if(ids[k] != k) vf::viol("others-disturbed", fmt("listener %d received m%zu in place of m%zu; %s", g, ids[k], k, hist.c_str())); }
            if(ids.size() < must) vf::viol("registered-not-served", fmt("listener %d received %zu messages of %zu; %s", g, ids.size(), must, hist.c_str()));
            if(ids.size() > l.det) vf::viol("detached-served", fmt("listener %d received %zu messages, detached before m%zu; %s", g, ids.size(), l.det, hist.c_str()));
            // those of the live ones that could be recorded only once it is over
            l.p.reset(); raw[g] = nullptr;
            if(!l.w.expired()) vf::viol("detached-not-released", fmt("listener %d is still held after further messages were processed; %s", g, hist.c_str()));
            vf::stat("releases_checked");
         }
      }
      if(!waitFor([&] { for(int i: live) if(v[i].p->n() < sent) return false; return true; })) { vf::viol("others-disturbed", fmt("a listener that was not detached lost messages; %s", hist.c_str())); return; }
      ls.stop();
      for(int i: live) {
         auto& l = v[i];
         if(l.p->n() != sent) vf::viol("others-disturbed", fmt("listener %d received %zu messages of %zu; %s", i, l.p->n(), sent, hist.c_str()));
         for(size_t k = 0; k < l.p->got.size(); ++k) if(strtoul(l.p->got[k].text.c_str() + 1, nullptr, 10) != k) { vf::viol("others-disturbed", fmt("listener %d received another message in place of m%zu; %s", i, k, hist.c_str())); break; }
      }
      LogSystem::Diags d; ls.getDiags(d);
      if(d.m_pendingListeners + d.m_activeListeners != live.size() + 1) vf::viol("listener-count", fmt("%zu+%zu listeners held instead of %zu; %s", d.m_pendingListeners, d.m_activeListeners, live.size() + 1, hist.c_str()));
      vf::distinct(vf::hashStr(hist));
   }
   if(alive != 0) vf::viol("destroyed-not-released", fmt("%ld listeners survive the service", alive.load()));
   vf::stat("crowds"); vf::stat("evaluations");
   if(idx < 6) vf::sample(fmt("case %ld: crowd of %d: %s", idx, N, hist.c_str()));
}
static void caseL04(Rng& r, long idx) {
   if(r.chance(1, 4)) { caseL04crowd(r, idx); return; }
   setDelays(r);
   bool conc = r.chance(1, 2);
   vf::setContext(fmt("L04 case %ld concurrent=%d", idx, conc));
   std::atomic<long> alive{0}; long made = 0;
   auto mk = [&](int id) { auto p = std::make_shared<Recorder>(); p->id = id; p->alive = &alive; ++alive; return p; };
   std::string hist;
   {
      std::unique_ptr<LogSystem> lsp(new LogSystem(r.chance(3, 4)));
      LogSystem& ls = *lsp;
      auto wit = mk(1000); size_t sent = 0;
      ls.addListener(wit); ls.start();
      if(!conc) {
         struct Ctl { std::atomic<size_t> next{0}, detachAt{~size_t(0)}; };
         struct L { PRec p; std::weak_ptr<Recorder> w; std::shared_ptr<Ctl> ctl; bool det = false; size_t from = 0, to = ~size_t(0); };
         std::vector<L> ls_; size_t n = 0;
         auto send = [&](int k) { for(int i = 0; i < k; ++i) { Sub s; s.text = fmt("m%zu|", n++); s.line = int(n); submit(ls, s, false); ++sent; } };
         auto settle = [&] { if(!waitFor([&] { return wit->n() >= sent; })) { vf::viol("delivery-stalled", "the service stopped delivering"); return false; } return true; };
         int ops = int(r.range(4, 25));
         for(int o = 0; o < ops; ++o) {
            switch(r.below(6)) {
            case 0: case 1: { L l; l.p = mk(int(ls_.size())); l.w = l.p; l.from = n; l.ctl = std::make_shared<Ctl>();
               { auto ctl = l.ctl; auto* raw = l.p.get(); raw->hook = [ctl, raw](const LogSystem::Message& m, size_t) {
                  size_t k = strtoul(m.m_message.c_str() + 1, nullptr, 10);
                  ctl->next = k + 1;
                  if(k == ctl->detachAt) raw->detach();
               }; }
               ls.addListener(l.p); ls_.push_back(l); hist += fmt("add%zu@%zu ", ls_.size() - 1, n); break; }
            case 2: {
               std::vector<size_t> c; for(size_t i = 0; i < ls_.size(); ++i) if(!ls_[i].det) c.push_back(i);
               if(c.empty()) break;
               size_t i = r.pick(c);
               // what is in the backlog at this moment may be delivered or not
               if(!settle()) return;
               if(n > ls_[i].from && !waitFor([&] { return ls_[i].ctl->next.load() >= n; })) { vf::viol("registered-not-served", fmt("listener %zu registered before m%zu did not receive it; %s", i, n - 1, hist.c_str())); return; }
               if(!r.chance(1, 3)) { if(!ls_[i].p->isDetached()) ls_[i].p->detach(); }
               else {
                  // detach from within: at the reception of the next message
                  ls_[i].ctl->detachAt = n;
                  send(1);
                  vf::stat("detached_from_within");
               }
               ls_[i].det = true; ls_[i].to = n; hist += fmt("det%zu@%zu ", i, n);
               vf::stat("detachments");
               break;
            }
            case 3: send(int(r.range(1, 5))); break;
            case 4: if(r.chance(1, 3)) { if(!settle()) return; ls.stop(); ls.start(); hist += "restart "; } break;
            case 5: {
               // release of the detached ones after a further message; the second is there to see the first completed
               std::vector<size_t> c; for(size_t i = 0; i < ls_.size(); ++i) if(ls_[i].det && ls_[i].p) c.push_back(i);
               if(c.empty()) break;
               if(!settle()) return;
               std::vector<std::pair<size_t, std::vector<Got>>> keep;
               send(1); send(1);
               if(!settle()) return;
               for(size_t i: c) {
                  auto& l = ls_[i];
                  if(!l.p->isDetached()) continue;   // a hook that never ran
                  for(auto& g: l.p->got) { size_t k = strtoul(g.text.c_str() + 1, nullptr, 10); if(k >= l.to) vf::viol("detached-served", fmt("listener %zu detached before m%zu received it; %s", i, k, hist.c_str())); }
                  // drop our reference, the service must have none
                  std::vector<Got> g = l.p->got;
                  l.p.reset();
                  if(!l.w.expired()) vf::viol("detached-not-released", fmt("listener %zu is still held after further messages were processed; %s", i, hist.c_str()));
                  vf::stat("releases_checked");
                  std::set<size_t> ids; for(auto& x: g) { ids.insert(strtoul(x.text.c_str() + 1, nullptr, 10)); }
                  // (messages submitted before the registration and still in the backlog may have reached it, too)
                  for(size_t k = l.from; k < l.to; ++k) if(!ids.count(k)) vf::viol("registered-not-served", fmt("listener %zu registered before m%zu did not receive it; %s", i, k, hist.c_str()));
               }
               break;
            }
            }
         }
         if(!settle()) return;
         send(1); send(1);
         if(!settle()) return;
         ls.stop();
         size_t held = 1;
         for(size_t i = 0; i < ls_.size(); ++i) {
            auto& l = ls_[i];
            if(!l.p) continue;
            std::set<size_t> ids; for(auto& g: l.p->got) { size_t k = strtoul(g.text.c_str() + 1, nullptr, 10); ids.insert(k); if(k >= l.to) vf::viol("detached-served", fmt("listener %zu detached before m%zu received it; %s", i, k, hist.c_str())); }
            for(size_t k = l.from; k < std::min(l.to, n); ++k) if(!ids.count(k)) vf::viol("registered-not-served", fmt("listener %zu registered before m%zu did not receive it; %s", i, k, hist.c_str()));
            if(!l.det) ++held;
         }
         LogSystem::Diags d; ls.getDiags(d);
         if(d.m_pendingListeners + d.m_activeListeners != held) vf::viol("listener-count", fmt("%zu+%zu listeners held instead of %zu; %s", d.m_pendingListeners, d.m_activeListeners, held, hist.c_str()));
         vf::distinct(vf::hashStr(hist));
         for(auto& l: ls_) l.p.reset();
      }
      else {
         // threads that add listeners, submit, detach and submit again; also from within a listener
         int T = int(r.range(2, 5)); std::vector<std::thread> th; vf::Barrier bar(T); std::mutex mm; std::vector<PRec> inner; std::vector<uint64_t> seeds;
         for(int t = 0; t < T; ++t) seeds.push_back(r.next());
         std::atomic<size_t> nsent{0}; std::atomic<long> madeInner{0};
         auto seeder = mk(2000);
         seeder->hook = [&](const LogSystem::Message&, size_t n) {
            if(n % 3 == 0 && madeInner.load() < 8) { auto p = mk(3000 + int(madeInner++)); { std::lock_guard<std::mutex> g(mm); inner.push_back(p); } ls.addListener(p); }
         };
         ls.addListener(seeder);
         for(int t = 0; t < T; ++t) th.emplace_back([&, t] {
            Rng rr(seeds[t]); bar.wait(); size_t k = 0;
            for(int round = 0; round < 6; ++round) {
               auto p = mk(100 * (t + 1) + round); std::weak_ptr<Recorder> w = p;
               ls.addListener(p);
               size_t a = k, b = k + rr.below(4);
               for(; k < b; ++k) { Sub s; s.text = fmt("t%d.%zu|", t, k); submit(ls, s, false); ++nsent; }
               bool wait = rr.chance(1, 2);
               if(wait) { std::string last = fmt("t%d.%zu", t, b - 1); if(!waitFor([&] { if(b == a) return true; std::lock_guard<std::mutex> g(p->mtx); for(auto i = p->got.rbegin(); i != p->got.rend(); ++i) if(idOf(i->text) == last) return true; return false; }))
                  vf::viol("registered-not-served", fmt("a listener registered before %s did not receive it", last.c_str())); }
               p->detach();
               for(int i = 0; i < 3; ++i, ++k) { Sub s; s.text = fmt("t%d.%zu|", t, k); submit(ls, s, false); ++nsent; }
               size_t lim = nsent.load();
               std::string last = fmt("t%d.%zu", t, k - 1);
               if(!waitFor([&] { std::lock_guard<std::mutex> g(wit->mtx); for(auto i = wit->got.rbegin(); i != wit->got.rend(); ++i) if(idOf(i->text) == last) return true; return false; })) { vf::viol("delivery-stalled", "the service stopped delivering"); return; }
               (void)lim;
               std::string pre = fmt("t%d.", t);
               { std::lock_guard<std::mutex> g(p->mtx);
               std::set<size_t> own;
               for(auto& g2: p->got) { std::string id = idOf(g2.text); if(id.compare(0, pre.size(), pre) == 0) { size_t x = strtoul(id.c_str() + pre.size(), nullptr, 10); own.insert(x); if(x >= b) vf::viol("detached-served", fmt("detached listener of thread %d received %s, submitted afterwards", t, id.c_str())); if(x < a) vf::viol("served-before-registration", fmt("listener received %s processed before its registration", id.c_str())); } }
               if(wait) for(size_t x = a; x < b; ++x) if(!own.count(x)) vf::viol("registered-not-served", fmt("listener of thread %d did not receive t%d.%zu submitted after its registration", t, t, x)); }
               if(rr.chance(1, 2)) {
                  p.reset();
                  // the message after which it is released is processed when a later one is being delivered
                  if(!w.expired()) {
                     for(int i = 0; i < 2; ++i, ++k) { Sub s; s.text = fmt("t%d.%zu|", t, k); submit(ls, s, false); ++nsent; }
                     last = fmt("t%d.%zu", t, k - 1);
                     waitFor([&] { std::lock_guard<std::mutex> g(wit->mtx); for(auto i = wit->got.rbegin(); i != wit->got.rend(); ++i) if(idOf(i->text) == last) return true; return false; });
                     if(!w.expired()) vf::viol("detached-not-released", fmt("listener of thread %d still held after further messages were processed", t));
                  }
                  vf::stat("releases_checked");
               }
               vf::stat("detachments");
            }
         });
         for(auto& t: th) t.join();
         // listeners registered from within one serve everything that comes later
         size_t base = 0; { std::lock_guard<std::mutex> g(mm); base = inner.size(); }
         std::vector<PRec> in; { std::lock_guard<std::mutex> g(mm); in = inner; }
         seeder->detach();
         for(int i = 0; i < 3; ++i) { Sub s; s.text = fmt("final.%d|", i); submit(ls, s, false); ++nsent; }
         if(!waitFor([&] { return wit->n() >= nsent.load(); })) { vf::viol("delivery-stalled", fmt("%zu messages of %zu", wit->n(), nsent.load())); }
         ls.stop();
         for(auto& p: in) { int c = 0; for(auto& g: p->got) if(g.text.compare(0, 6, "final.") == 0) ++c; if(c != 3) vf::viol("registered-not-served", fmt("a listener registered from within another received %d of 3 later messages", c)); }
         if(wit->n() != nsent.load()) vf::viol("others-disturbed", fmt("the permanent listener received %zu of %zu messages", wit->n(), nsent.load()));
         vf::stat("inner_listeners", (long long)base);
         vf::distinct(orderHash(wit->got));
         seeder->hook = nullptr;
      }
      made = alive.load();
      bool early = r.chance(1, 2);
      if(early) wit.reset();
      if(r.chance(1, 2)) ls.start();
      lsp.reset();
      if(early && alive.load() > (conc ? 2000 : 0)) {}
   }
   // everything the service held is gone: our own references went with the scope
   if(alive.load() != 0) vf::viol("listener-leaked", fmt("%ld listeners are alive after the service was destroyed; %s", alive.load(), hist.c_str()));
   vf::stat("evaluations"); (void)made;
   if(idx < 3 && !hist.empty()) vf::sample(fmt("case %ld: %s", idx, hist.c_str()));
}

// ================================================================== L05
static void caseL05(Rng& r, long idx) {
   setDelays(r);
   vf::setContext(fmt("L05 case %ld", idx));
   std::string hist; uint64_t h = idx;
   {
      LogSystem ls(false);
      auto rec = std::make_shared<Recorder>(); rec->keep = false; rec->speed = int(r.below(3));
      ls.addListener(rec);
      size_t submitted = 0, created = 0, discarded = 0, pool = 64, maxq = 0, backlog = 0;
      bool exact = true;   // the service never ran while messages were submitted
      LogSystem::Diags d;
      auto check = [&](const char* when) {
         ls.getDiags(d);
         size_t processed = rec->n();
         size_t left = submitted - processed;
         if(d.m_poolSize + left != 64 + d.m_msgsCreated - d.m_msgsDiscarded)
            vf::viol("messages-not-conserved", fmt("%s: pool %zu + backlog %zu != 64 + created %zu - discarded %zu; %s", when, d.m_poolSize, left, d.m_msgsCreated, d.m_msgsDiscarded, hist.c_str()));
         if(d.m_poolSize > 64) vf::viol("pool-exceeded", fmt("%s: pool %zu; %s", when, d.m_poolSize, hist.c_str()));
         if(d.m_msgReceived != processed) vf::viol("diags-received", fmt("%s: m_msgReceived %zu instead of %zu; %s", when, d.m_msgReceived, processed, hist.c_str()));
         if(d.m_maxMsgQueueSize < maxq || d.m_maxMsgQueueSize > submitted || (exact && d.m_maxMsgQueueSize != maxq))
            vf::viol("diags-max-queue", fmt("%s: m_maxMsgQueueSize %zu, longest seen %zu; %s", when, d.m_maxMsgQueueSize, maxq, hist.c_str()));
         maxq = std::max(maxq, d.m_maxMsgQueueSize);
         if(exact && (d.m_msgsCreated != created || d.m_msgsDiscarded != discarded || d.m_poolSize != pool))
            vf::viol("diags-counts", fmt("%s: created %zu discarded %zu pool %zu instead of %zu %zu %zu; %s", when, d.m_msgsCreated, d.m_msgsDiscarded, d.m_poolSize, created, discarded, pool, hist.c_str()));
         vf::stat("diags_checked"); vf::tick();
      };
      check("new");
      int phases = int(r.range(1, 5));
      for(int k = 0; k < phases; ++k) {
         bool conc = r.chance(1, 3);
         size_t burst = r.chance(1, 3) ? r.below(400) : r.below(90);
         if(r.chance(1, 80)) { burst = r.range(1000, 20000); vf::Delays::rate() = 0; vf::stat("huge_bursts"); }
         if(idx % 30 == 17 && k == 0) { burst = r.range(65600, 90000); conc = false; vf::Delays::rate() = 0; vf::stat("bursts_beyond_16_bits"); }
         if(!conc) {
            // service stopped: everything is determined
            for(size_t i = 0; i < burst; ++i) { Sub s; s.text = std::string(r.below(300), 'x'); s.level = r.chance(1, 10) ? LogSystem::TRACE : LogSystem::ERROR; submit(ls, s, false); }
            submitted += burst; backlog += burst;
            size_t fromPool = std::min(pool, burst); pool -= fromPool; created += burst - fromPool;
            maxq = std::max(maxq, backlog);
            hist += fmt("burst%zu ", burst);
            check("stopped with a backlog");
            if(r.chance(1, 5)) { ls.level(LogSystem::WARN); Sub s; s.level = LogSystem::INFO; submit(ls, s, false); check("above the level"); ls.level(LogSystem::TRACE); }
            ls.start();
            if(r.chance(1, 4)) {
               // interrupt with a backlog
               ls.stop(); hist += "interrupt ";
               size_t left = submitted - rec->n(), done = backlog - left;
               size_t back = std::min<size_t>(64 - pool, done); pool += back; discarded += done - back; backlog = left;
               check("interrupted");
               ls.start();
            }
            if(!waitFor([&] { return rec->n() >= submitted; })) { vf::viol("delivery-stalled", hist); return; }
            ls.stop();
            size_t back = std::min<size_t>(64 - pool, backlog); pool += back; discarded += backlog - back; backlog = 0;
            hist += "drained ";
            check("drained");
         }
         else {
            exact = false;
            int P = int(r.range(1, 5)); std::vector<std::thread> th; vf::Barrier bar(P);
            ls.start();
            for(int p = 0; p < P; ++p) th.emplace_back([&] { bar.wait(); for(size_t i = 0; i < burst; ++i) { Sub s; s.text = "concurrent"; submit(ls, s, false); } });
            for(int i = 0; i < 5; ++i) { ls.getDiags(d); if(d.m_poolSize > 64) vf::viol("pool-exceeded", fmt("pool %zu", d.m_poolSize)); }
            for(auto& t: th) t.join();
            submitted += P * burst; hist += fmt("conc%dx%zu ", P, burst);
            if(!waitFor([&] { return rec->n() >= submitted; })) { vf::viol("delivery-stalled", hist); return; }
            // quiescent also while running
            if(!waitFor([&] { ls.getDiags(d); vf::tick(); return d.m_poolSize == 64 + d.m_msgsCreated - d.m_msgsDiscarded; }, 12)) {}
            ls.stop();
            check("drained after concurrency");
            // the pool is reused: with idle messages nothing is created
            if(d.m_poolSize >= 4) {
               size_t before = d.m_msgsCreated;
               for(int i = 0; i < 3; ++i) { Sub s; submit(ls, s, false); } submitted += 3;
               ls.getDiags(d);
               if(d.m_msgsCreated != before) vf::viol("pool-not-reused", fmt("messages were created with %zu idle ones; %s", d.m_poolSize, hist.c_str()));
               ls.start(); if(!waitFor([&] { return rec->n() >= submitted; })) { vf::viol("delivery-stalled", hist); return; }
               ls.stop(); check("reuse");
            }
         }
         ls.getDiags(d);
         h = vf::mix(h, d.m_msgsCreated * 1000 + d.m_msgsDiscarded);
         vf::stat("evaluations");
      }
      // listener counts
      auto l2 = std::make_shared<Recorder>(); l2->keep = false; l2->enable(r.chance(1, 2)); ls.addListener(l2);
      ls.getDiags(d);
      size_t act = rec->n() ? 1 : 0;
      if(d.m_pendingListeners != 2 - act || d.m_activeListeners != act || d.m_enabledListeners != act) vf::viol("diags-listeners", fmt("pending %zu active %zu enabled %zu, one of 2 served: %zu", d.m_pendingListeners, d.m_activeListeners, d.m_enabledListeners, act));
      Sub s; submit(ls, s, false); ++submitted; ls.start(); if(!waitFor([&] { return rec->n() >= submitted; })) { vf::viol("delivery-stalled", hist); return; } ls.stop();
      ls.getDiags(d);
      if(d.m_pendingListeners != 0 || d.m_activeListeners != 2 || d.m_enabledListeners != 1u + l2->isEnabled()) vf::viol("diags-listeners", fmt("pending %zu active %zu enabled %zu instead of 0 2 %d", d.m_pendingListeners, d.m_activeListeners, d.m_enabledListeners, 1 + l2->isEnabled()));
      if(r.chance(1, 2)) { for(size_t i = 0, b = r.below(150); i < b; ++i) { Sub x; submit(ls, x, false); } hist += "destroyed-with-backlog"; }
      if(r.chance(1, 3)) ls.start();
   }
   vf::distinct(h);
   if(idx < 3) vf::sample(fmt("case %ld: %s", idx, hist.c_str()));
}

#ifdef VF_COUNT_ALLOC
// submissions that fail for lack of memory (only the large allocations do)
static void caseL05fail(Rng& r, long idx) {
   setDelays(r);
   vf::setContext(fmt("L05 failing submissions, case %ld", idx));
   long long before = 0, blocks = 0; size_t failed = 0, total = 0; bool stopped = r.chance(1, 2); size_t N = r.range(5, 200);
   for(int round = 0; round < 2; ++round) {    // the first one settles what the libraries keep
      before = vf::liveBytes.load(); blocks = vf::liveBlocks.load();
      std::vector<std::vector<Sub>> subs(1); auto rec = std::make_shared<Recorder>(); size_t sent = 0;
      {
         LogSystem ls; ls.addListener(rec);
         if(stopped) ls.stop();
         for(size_t i = 0; i < N; ++i) {
            Sub s = randSub(r, 0, i); s.text = s.text.substr(0, 900);
            bool fail = r.chance(1, 3); int where = int(r.below(3));
            if(fail) (where == 0 ? s.file : where == 1 ? s.cat : s.text).append(r.range(1500, 20000), 'z');
            if(fail && where == 1 && r.chance(1, 2)) s.text.append(2000, 'z');
            bool thrown = false;
            vf::failSize = fail ? 1000 : 0; vf::failAfter = 0;
            try { ls.log(s.file, s.line, s.level, s.cat, s.text); } catch(const std::bad_alloc&) { thrown = true; }
            vf::failSize = 0;
            // a message that is reused may have room enough
            if(!fail && thrown) vf::viol("submission-failed", "bad_alloc while nothing failed");
            if(thrown) ++failed; else { s.call = 1; subs[0].push_back(s); ++sent; }
            vf::tick();
            if(!stopped && r.chance(1, 10)) waitFor([&] { return rec->n() >= sent; });
         }
         ls.start();
         if(!waitFor([&] { return rec->n() >= sent; })) { vf::viol("delivery-stalled", fmt("%zu of %zu messages delivered after %zu submissions failed", rec->n(), sent, failed)); return; }
         ls.stop();
         LogSystem::Diags d; ls.getDiags(d);
         if(d.m_poolSize > 64) vf::viol("pool-exceeded", fmt("pool %zu", d.m_poolSize));
         if(d.m_msgReceived != sent) vf::viol("diags-received", fmt("m_msgReceived %zu instead of %zu, %zu submissions failed", d.m_msgReceived, sent, failed));
         total += sent;
      }
      checkExactlyOnce(*rec, subs, [](const Sub&) { return 1; }, "");
      rec.reset(); { std::vector<std::vector<Sub>>().swap(subs); }
      // (the counters of the monitor itself are settled by the first round, too)
      long long after = vf::liveBytes.load();
      if(round && after > before) vf::viol("memory-leaked", fmt("%lld bytes in %lld blocks not released with the service, after failed submissions", after - before, vf::liveBlocks.load() - blocks));
   }
   vf::stat("failed_submissions", (long long)failed); vf::stat("messages_after_failures", (long long)total); vf::stat("evaluations");
   vf::distinct(vf::mix(failed, total * 2 + stopped));
}

static void caseL05mem(Rng& r, long idx) {
   vf::setContext(fmt("L05 memory case %ld", idx));
   auto round = [&](size_t burst, size_t count, size_t size, bool backlog, bool check) {
      long long before = vf::liveBytes.load(), blocks = vf::liveBlocks.load(), held = 0;
      {
         LogSystem ls;
         auto rec = std::make_shared<Recorder>(); rec->keep = false; ls.addListener(rec);
         size_t sent = 0; long long mid = 0;
         std::string text(size, 'm'), file(40, 'f'), cat(30, 'c');
         for(size_t i = 0; i < count;) {
            for(size_t b = 0; b < burst && i < count; ++b, ++i) { ls.log(file, 1, LogSystem::INFO, cat, text); ++sent; vf::tick(); }
            if(!waitFor([&] { return rec->n() >= sent; })) { vf::viol("delivery-stalled", "memory"); return; }
         }
         mid = vf::liveBytes.load();
         // what is allowed: the pool, each message with its strings (and the slack of the allocator), the queues
         long long bound = before + 64LL * 3 * (long long)(size + 40 + 30 + 400) + 300000;
         if(check && mid > bound) vf::viol("memory-accumulated", fmt("%lld bytes held with an idle service after %zu messages of %zu bytes (bound %lld)", mid - before, count, size, bound - before));
         held = mid - before;
         if(backlog) { ls.stop(); for(int i = 0; i < 100; ++i) ls.log(file, 1, LogSystem::INFO, cat, text); }
      }
      // the reference held by the thread library and the like are settled by the warm up
      if(check) {
         long long after = vf::liveBytes.load();
         if(after > before) vf::viol("memory-leaked", fmt("%lld bytes in %lld blocks not released with the service (%zu messages of %zu bytes)", after - before, vf::liveBlocks.load() - blocks, count, size));
         vf::stat("memory_rounds"); vf::statMax("max_idle_bytes", held); vf::stat("memory_messages", (long long)count);
      }
   };
   if(idx == 0) { round(10, 30, 100, true, false); round(10, 30, 100, true, false); }
   size_t size = r.chance(1, 3) ? r.range(2000, 20000) : r.range(1, 300);
   size_t count = size > 1000 ? r.range(200, 600) : r.range(300, 3000);
   size_t burst = r.range(1, 200);
   bool bl = r.chance(1, 2);
   round(burst, count, size, bl, true);
   vf::stat("evaluations");
   vf::distinct(vf::mix(size, count));
}
#endif

// ================================================================== L06
// Listeners that answer every message with another one, and producers that don't wait for it: there's always something
// in the backlog, and stop and the destruction return all the same.
static void caseL06busy(Rng& r, long idx) {
   setDelays(r);
   bool answers = r.chance(2, 3); int P = answers ? int(r.below(2)) : 2; bool slow = P > 0;
   vf::setContext(fmt("L06 case %ld ever busy, answers=%d producers=%d", idx, answers, P));
   std::atomic<bool> busy{true}; std::atomic<size_t> sent{0};
   auto rec = std::make_shared<Recorder>(); rec->rng = Rng(r.next()); rec->keep = false;
   std::vector<std::thread> th;
   {
      std::unique_ptr<LogSystem> ls(new LogSystem(r.chance(1, 2)));
      LogSystem* sys = ls.get(); std::atomic<bool> gone{false};
      rec->hook = [&, sys](const LogSystem::Message&, size_t) { if(slow) usleep(20); if(answers && busy.load()) { sys->log("busy.cpp", 1, LogSystem::INFO, "", "again"); ++sent; } };
      ls->addListener(rec);
      for(size_t k = r.range(1, 5); k > 0; --k) { ls->log("busy.cpp", 2, LogSystem::INFO, "", "first"); ++sent; }
      for(int p = 0; p < P; ++p) th.emplace_back([&, sys] { while(!gone.load() && busy.load() && sent.load() < 300000) { sys->log("busy.cpp", 3, LogSystem::INFO, "", "more"); ++sent; std::this_thread::yield(); } });
      // what has to return, in another thread; the others are given up on if it does not
      auto returns = [&](const char* what, std::function<void()> f) {
         std::atomic<bool> done{false}; size_t n0 = rec->n(); auto t0 = std::chrono::steady_clock::now();
         std::thread t([&] { f(); done = true; });
         while(!done.load()) {
            usleep(100);
            if(rec->n() > n0 + 2000 && std::chrono::steady_clock::now() - t0 > std::chrono::seconds(8)) {
               vf::viol("stop-waits-for-the-backlog", fmt("%s didn't return in 8 seconds, while %zu messages were delivered", what, rec->n() - n0));
               busy = false;
               break;
            }
         }
         t.join();
         vf::tick();
      };
      for(int k = int(r.range(1, 4)); k > 0 && !vf::violated(); --k) {
         ls->start();
         size_t n = rec->n(); size_t want = r.below(300);
         waitFor([&] { return rec->n() >= n + want; });
         returns("stop", [&] { ls->stop(); });
         rec->forbidden = true; usleep(useconds_t(r.below(100))); rec->forbidden = false;
         vf::stat("stops_while_busy");
      }
      if(r.chance(1, 2)) ls->start();
      usleep(useconds_t(r.below(200)));
      gone = true; for(auto& t: th) t.join();
      returns("the destruction", [&] { ls.reset(); });
      rec->forbidden = true; usleep(30);
   }
   vf::stat("evaluations"); vf::stat("messages", (long long)sent.load()); vf::distinct(vf::mix(idx, sent.load()));
}

static void caseL06(Rng& r, long idx) {
   if(idx % 16 == 9) { caseL06busy(r, idx); return; }
   setDelays(r);
   bool multi = r.chance(1, 2);
   vf::setContext(fmt("L06 case %ld multi=%d", idx, multi));
   int P = int(r.range(1, 4)); size_t M = r.range(5, 120);
   std::vector<std::vector<Sub>> subs(P + 1); PRec rec = std::make_shared<Recorder>(); rec->rng = Rng(r.next()); rec->speed = int(r.below(3));
   for(int p = 0; p < P; ++p) for(size_t m = 0; m < M; ++m) subs[p].push_back(randSub(r, p, m));
   std::string hist; size_t total = P * M; bool drained = r.chance(2, 3);
   {
      std::unique_ptr<LogSystem> ls(new LogSystem(r.chance(1, 2)));
      ls->addListener(rec);
      std::atomic<int> live{P}; std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int i = 0; i < P + 20; ++i) seeds.push_back(r.next());
      for(int p = 0; p < P; ++p) th.emplace_back([&, p] { Rng rr(seeds[p]); for(auto& s: subs[p]) { submit(*ls, s, false); if(rr.chance(1, 8)) usleep(useconds_t(rr.below(60))); } --live; });
      if(!multi) {
         int ops = 0;
         while(live.load() > 0 || ops < 6) {
            ++ops;
            switch(r.below(5)) {
            case 0: ls->start(); hist += "s"; break;
            case 1: ls->stop(); rec->forbidden = true; hist += "P"; if(r.chance(1, 2)) usleep(useconds_t(r.below(300)));
               if(r.chance(1, 4)) { ls->stop(); hist += "P"; }
               rec->forbidden = false; ls->start(); hist += "s"; vf::stat("stop_start"); break;
            case 2: ls->stop(); rec->forbidden = true; hist += "P"; usleep(useconds_t(r.below(100))); rec->forbidden = false; break;
            case 3: ls->start(); ls->start(); hist += "ss"; break;
            default: usleep(useconds_t(r.below(150)));
            }
            vf::tick();
         }
      }
      else {
         int C = int(r.range(2, idx % 20 == 4 ? 16 : 4)); std::vector<std::thread> ct; vf::Barrier bar(C);
         for(int c = 0; c < C; ++c) ct.emplace_back([&, c] {
            Rng rr(seeds[P + c]); bar.wait();
            for(int k = 0; k < 25; ++k) { if(rr.chance(1, 2)) ls->start(); else ls->stop(); vf::tick(); if(rr.chance(1, 4)) usleep(useconds_t(rr.below(50))); }
         });
         for(auto& t: ct) t.join();
         hist += fmt("multi%d ", C); vf::stat("concurrent_start_stop", C * 25);
      }
      if(idx % 100 == 3) {
         // many cycles of one service
         int n = int(r.range(300, 1500)); vf::Delays::rate() = 0;
         for(int k = 0; k < n; ++k) { ls->start(); if(r.chance(1, 4)) std::this_thread::yield(); ls->stop(); rec->forbidden = true; std::this_thread::yield(); rec->forbidden = false; vf::tick(); }
         vf::stat("long_control_histories"); vf::stat("stop_start", n); hist += fmt("cycles%d ", n);
         ls->start();
      }
      for(auto& t: th) t.join();
      if(drained) {
         ls->stop(); rec->forbidden = true;
         bool mass = idx % 60 == 7;
         size_t extra = mass ? r.range(1000, 20000) : r.chance(1, 3) ? r.range(2, 600) : 1;
         if(mass) { vf::Delays::rate() = 0; vf::stat("huge_backlogs"); }
         subs[P].reserve(extra);
         for(size_t i = 0; i < extra; ++i) { Sub s; s.producer = P; s.text = fmt("p%d.%zu|queued while stopped", P, i); subs[P].push_back(s); submit(*ls, subs[P].back(), false); }
         total += extra;
         usleep(useconds_t(r.below(200))); rec->forbidden = false;
         // interrupt it with what is left of the backlog
         for(int k = int(r.below(4)); extra > 1 && k > 0; --k) {
            ls->start(); usleep(useconds_t(r.below(300))); ls->stop(); rec->forbidden = true;
            size_t now = rec->n(); if(now < total) { vf::stat("stops_with_backlog"); vf::statMax("max_backlog_at_stop", (long long)(total - now)); }
            usleep(useconds_t(r.below(100))); rec->forbidden = false;
         }
         size_t left = total - rec->n(); if(left > 1) vf::stat("restarts_with_backlog");
         ls->start();
         if(!waitFor([&] { return rec->n() >= total; })) vf::viol("backlog-not-delivered", fmt("%zu of %zu messages delivered after the restart; %s", rec->n(), total, hist.c_str()));
      }
      else { hist += fmt(" destroyed with %zu to go", total - rec->n()); vf::stat("destroyed_with_backlog", total - rec->n() > 0); }
      if(r.chance(1, 3)) { ls->stop(); rec->forbidden = true; }
      ls.reset();
      vf::tick();
      rec->forbidden = true;
      usleep(30);
   }
   checkExactlyOnce(*rec, subs, [&](const Sub&) { return drained ? 1 : -1; }, "");
   std::map<int, long> last; std::map<std::string, int> times;
   for(auto& g: rec->got) {
      std::string id = idOf(g.text); int p = atoi(id.c_str() + 1); long n = strtol(id.c_str() + id.find('.') + 1, nullptr, 10);
      if(++times[id] > 1) vf::viol("message-duplicated", fmt("%s delivered twice; %s", id.c_str(), hist.c_str()));
      auto& l = last.emplace(p, -1).first->second;
      if(n != l + 1) vf::viol("restart-order", fmt("%s delivered after message %ld of the same producer; %s", id.c_str(), l, hist.c_str()));
      l = n;
   }
   vf::stat("evaluations"); vf::stat("messages", (long long)total);
   vf::distinct(vf::mix(vf::hashStr(hist), orderHash(rec->got)));
   vf::distinct("delivery_orders", orderHash(rec->got));
   if(idx < 3) vf::sample(fmt("case %ld: %d producers x %zu, control '%s'", idx, P, M, hist.substr(0, 80).c_str()));
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   std::string mode = vf::options().str("mode"); long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog(mode.c_str(), 45);
   // everything the code writes on the standard streams goes there; no one else writes
   std::stringbuf sink; std::streambuf* ob = std::cout.rdbuf(&sink); std::streambuf* eb = std::cerr.rdbuf(&sink); std::streambuf* lb = std::clog.rdbuf(&sink);
   int tmp = open("stdout.captured", O_RDWR | O_CREAT | O_TRUNC, 0600);
   int keep1 = dup(1);
   if(tmp >= 0) { dup2(tmp, 1); }
   for(long i = vf::options().get("from", 0); i < cases; ++i) {
      Rng r(vf::mix(seed, uint64_t(i)));
      if(mode == "L01") caseL01(r, i);
      else if(mode == "L02") caseL02(r, i);
      else if(mode == "L03") caseL03(r, i);
      else if(mode == "L04") caseL04(r, i);
      else if(mode == "L05") caseL05(r, i);
#ifdef VF_COUNT_ALLOC
      else if(mode == "L05mem") caseL05mem(r, i);
      else if(mode == "L05fail") caseL05fail(r, i);
#endif
      else if(mode == "L06") caseL06(r, i);
      else { fprintf(stderr, "unknown mode\n"); return 3; }
      vf::tick();
      if(vf::violated()) break;
   }
   vf::stat("injected_delays", (long long)vf::Delays::count().load());
   std::cout.rdbuf(ob); std::cerr.rdbuf(eb); std::clog.rdbuf(lb);
   fflush(stdout);
   if(tmp >= 0) {
      struct stat st; fstat(tmp, &st); dup2(keep1, 1);
      if(mode == "L03" && (st.st_size > 0 || !sink.str().empty())) vf::viol("writes-to-standard-streams", fmt("%ld bytes on stdout, '%s' on the standard streams", long(st.st_size), vf::esc(sink.str(), 80).c_str()));
   }
   return vf::finish();
}
