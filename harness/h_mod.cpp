// Monitor of M01: a program made of an executable, a library linked to it, and modules loaded and unloaded while it runs.
#define VF_WRAP_MUTEX
#include "common.h"
#include "h_mod.h"
#include <dlfcn.h>
#include <unistd.h>
#include <mutex>
#include <thread>
using vf::Rng; using vf::fmt; using vf::esc;

struct Msg { int lv; std::string cat, text; };
static std::string show(const Msg& m) { return fmt("[%d '%s' '%s']", m.lv, esc(m.cat, 40).c_str(), esc(m.text, 120).c_str()); }
// what is heard of the messages, by thread; the text of a message is composed as <thread>:...
struct Heard { std::mutex m; std::vector<std::vector<Msg>> per; std::atomic<long> sentinels{0}; std::atomic<long> strange{0};
   void take(const falcon::LogSystem::Message& x) {
      if(x.m_message == "sentinel") { ++sentinels; vf::tick(); return; }
      if(x.m_message.compare(0, 7, "before:") == 0) return;
      std::lock_guard<std::mutex> g(m); int t = atoi(x.m_message.c_str()); if(t < 0 || t >= int(per.size()) || x.m_message.find(':') == std::string::npos) { ++strange; return; }
      per[t].push_back(Msg{int(x.m_level), x.m_category, x.m_message}); vf::tick(); }
};
static std::string dir;
struct Module { const char* name; void* handle; const ModApi* api; };
static std::vector<Module> mods;
static bool load(const char* name) {
   void* h = dlopen((dir + "/" + name).c_str(), RTLD_NOW | RTLD_LOCAL);
   if(!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(4); }
   auto f = reinterpret_cast<const ModApi* (*)()>(dlsym(h, "modPlug"));
   mods.push_back(Module{name, h, f()}); vf::stat("modules_loaded"); return true;
}
struct Thread {
   Rng r; int id; int level; std::string cat; std::vector<Msg> expected; long n = 0, crossings = 0; int depth = 0; uint64_t shape = 1;
   std::vector<Msg*> composing;
   Thread(uint64_t s, int i, int l): r(s), id(i), level(l) {}
   const ModApi& any() { size_t i = r.below(mods.size()); shape = vf::mix(shape, i); if(i) ++crossings; return *mods[i].api; }
   std::string word() { return fmt("%d.%ld", id, n++) + std::string(r.chance(1, 10) ? r.below(300) : r.below(4), 'w'); }
   std::string prefix() { return id < 0 ? std::string("before:") : fmt("%d:", id); }
   void statement() {
      auto& m = any(); int lv = int(r.below(6)); bool on = lv <= level; bool nest = depth < 4 && r.chance(1, 3); ++depth; shape = vf::mix(shape, lv * 2 + nest);
      if(r.chance(1, 2)) {
         std::string own = r.chance(1, 4) ? "temp" + word() : "", b = prefix() + word(), a = word();
         std::string mid; int inners = 0;
         m.log(lv, own, b, [&] { ++inners; if(nest) statement(); mid = word(); return mid; }, a);
         if(inners != int(on)) vf::viol("M01:operands", fmt("an operand of a statement of level %d serialised %d times, run-time level %d", lv, inners, level));
         if(on) expected.push_back(Msg{lv, own.empty() ? cat : own, b + mid + a});
      }
      else {
         std::string b = prefix() + word(), a = word(), mid; int runs = 0;
         m.block(lv, b, [&] { ++runs; for(int k = int(r.below(3)); k > 0; --k) { if(nest && r.chance(1, 2)) statement(); else { std::string w = word(); any().write(w); mid += w; } } }, a);
         if(runs != int(on)) vf::viol("M01:blocks", fmt("a block of level %d run %d times, run-time level %d", lv, runs, level));
         if(on) expected.push_back(Msg{lv, cat, b + mid + a});
      }
      --depth;
   }
};
// items and code objects that go from a part to another
struct Pool {
   struct It { falcon::Item* i; std::string shown; int kind; }; struct Co { falcon::Code* c; std::string s; };
   std::vector<It> items; std::vector<Co> codes;
   void op(Thread& t) {
      Rng& r = t.r; size_t n = items.size(); int k = n < 3 ? 0 : int(r.below(6)); vf::stat("objects_handed_over");
      switch(k) {
      case 0: { int kind = int(r.below(8)); long long v = r.chance(1, 3) ? (long long)r.next() : (long long)r.below(2000) - 1000; if(kind == 3) v = int(v); if(kind == 4) v %= 1000000;
         falcon::Item* i = t.any().item(kind, v); std::string s = mods[0].api->show(*i); static const char* types[] = {"nil", "bool", "int", "int", "float", "string", "string", "bignum"};
         if(s.size() < strlen(types[kind]) || s.substr(s.rfind('|') + 1) != types[kind]) vf::viol("M01:handlers", fmt("an item made by one part of the program is '%s' for another, %s expected", esc(s).c_str(), types[kind]));
         if((kind == 2 || kind == 3) && s != fmt("%lld|%lld|%d|int", v, v, int(v != 0))) vf::viol("M01:items", fmt("the integer %lld is '%s' for another part of the program", v, esc(s).c_str()));
         items.push_back(It{i, s, kind}); break; }
      case 1: { auto& a = items[r.below(n)]; falcon::Item* c = t.any().copy(*a.i); items.push_back(It{c, a.shown, a.kind}); break; }
      case 2: { auto& a = items[r.below(n)]; auto& b = items[r.below(n)]; t.any().assign(*a.i, *b.i); a.shown = b.shown; a.kind = b.kind; break; }
      case 3: { size_t a = r.below(n); t.any().destroy(items[a].i); items.erase(items.begin() + a); break; }
      case 4: { std::string s = t.word(); auto* c = t.any().code(s, int(r.below(3))); codes.push_back(Co{c, s}); break; }
      default: if(!codes.empty()) { size_t a = r.below(codes.size()); t.any().dropCode(codes[a].c); codes.erase(codes.begin() + a); } }
      if(!items.empty()) check(t, items[r.below(items.size())]);
      if(!codes.empty()) check(t, codes[r.below(codes.size())]);
   }
   void check(Thread& t, It& i) { std::string s = t.any().show(*i.i); if(s != i.shown) vf::viol("M01:items", fmt("an item is '%s' for one part of the program and '%s' for another", esc(s).c_str(), esc(i.shown).c_str())); vf::stat("objects_compared"); }
   void check(Thread& t, Co& c) { std::string s = t.any().render(*c.c); if(s != c.s) vf::viol("M01:code", fmt("code is '%s' for one part of the program and '%s' for another", esc(s).c_str(), esc(c.s).c_str())); vf::stat("objects_compared"); }
   void checkAll(Thread& t) { for(auto& i: items) check(t, i); for(auto& c: codes) check(t, c); }
   void clear(Thread& t) { for(auto& i: items) t.any().destroy(i.i); for(auto& c: codes) t.any().dropCode(c.c); items.clear(); codes.clear(); }
   void merge(Pool& o) { items.insert(items.end(), o.items.begin(), o.items.end()); codes.insert(codes.end(), o.codes.begin(), o.codes.end()); o.items.clear(); o.codes.clear(); }
};
template<typename F> static bool waitFor(F cond) {
   uint64_t last = vf::ticks().load(); auto t = std::chrono::steady_clock::now();
   while(!cond()) { usleep(100); uint64_t now = vf::ticks().load(); if(now != last) { last = now; t = std::chrono::steady_clock::now(); } else if(std::chrono::steady_clock::now() - t > std::chrono::seconds(12)) return cond(); }
   return true;
}
static Pool kept;                       // survives the modules that made its objects
static void sameEngine(const char* when) {
   for(size_t i = 1; i < mods.size(); ++i) {
      if(mods[i].api->logger() != mods[0].api->logger()) vf::viol("M01:loggers", fmt("%s has a logger of its own, %s", mods[i].name, when));
      if(mods[i].api->handlers() != mods[0].api->handlers()) vf::viol("M01:handlers", fmt("%s has item handlers of its own, %s", mods[i].name, when));
   }
   vf::stat("parts_compared", (long long)mods.size());
}
static void testCase(Rng& r, long idx) {
   static const unsigned rates[] = {0, 0, 30, 200}; vf::Delays::rate() = rates[r.below(4)]; vf::Delays::seed() = r.next() | 1;
   vf::setContext(fmt("M01 case %ld", idx));
   if(r.chance(1, 8)) { Thread t(r.next(), -1, 5); t.statement(); }    // by the executable and the library only, before the modules are loaded
   const size_t own0 = mods.size(); int plugs = int(r.range(own0 > 1 ? 0 : 1, 2)); if(plugs) load("plug1.so"); if(plugs > 1) load("plug2.so");
   sameEngine("at first");
   size_t P = mods.size(); auto part = [&] () -> const ModApi& { return *mods[r.below(P)].api; };
   int level = r.chance(1, 2) ? 5 : int(r.below(6)); part().level(level);
   if(part().getLevel() != level) { vf::viol("M01:levels", fmt("the level set by a part of the program, %d, is another for another", level)); return; }
   int T = r.chance(1, 3) ? 1 : int(r.range(2, 5)), N = int(r.range(4, 25));
   vf::setContext(fmt("M01 case %ld: %zu parts, %d threads, %d steps, level %d", idx, P, T, N, level));
   // a listener of every part
   std::vector<std::unique_ptr<Heard>> heard; std::vector<std::shared_ptr<falcon::LogSystem::Listener>> ls;
   for(size_t i = 0; i < P; ++i) { heard.emplace_back(new Heard); heard.back()->per.resize(T); Heard* h = heard.back().get(); ls.push_back(mods[i].api->listener([h] (const falcon::LogSystem::Message& m) { h->take(m); })); part().add(ls.back()); }
   std::vector<std::unique_ptr<Thread>> ts; std::vector<Pool> pools(T);
   std::unique_ptr<falcon::RFutex> lock(part().newLock()); long counter = 0, locked = 0; std::mutex cm;
   for(int t = 0; t < T; ++t) ts.emplace_back(new Thread(r.next(), t, level));
   auto body = [&] (int id) {
      Thread& t = *ts[id];
      if(t.r.chance(2, 3) || T == 1) { t.cat = fmt("cat%d", id); t.any().setCategory(t.cat); }
      for(int i = 0; i < N; ++i) {
         switch(t.r.below(7)) {
         case 0: case 1: case 2: t.statement(); break;
         case 3: { t.cat = fmt("c%d.%d", id, i); t.any().setCategory(t.cat); std::string g = t.any().getCategory(); if(g != t.cat) vf::viol("M01:category", fmt("the category set by a part of the program is '%s' for another", esc(g).c_str())); break; }
         case 4: { int d = int(t.r.range(1, 4)); for(int k = 0; k < d; ++k) t.any().lock(*lock); ++counter; long seen = counter; if(t.r.chance(1, 3)) std::this_thread::yield();
            for(int k = 0; k < d; ++k) { if(!t.any().isLocked(*lock)) vf::viol("M01:locks", "a lock taken by one part of the program is free for another"); if(counter != seen) vf::viol("M01:locks", "a lock taken by threads of several parts of the program was held by two"); t.any().unlock(*lock); if(k + 1 == d) break; }
            { std::lock_guard<std::mutex> g(cm); ++locked; } vf::stat("locks_across_parts"); break; }
         case 5: pools[id].op(t); break;
         default: {
            std::string how; int w = int(t.r.below(2));
            if(T > 1) { pools[id].op(t); break; }         // the filter is the logger's: one thread only
            if(w == 0) how = t.any().filter("[", 0); else { try { how = t.any().filter("(", 1); } catch(const falcon::LogSystem::InvalidCategory& x) { how = *x.what() ? "refused" : "silent"; } catch(...) { how = "something else"; } }
            if(how != "refused") vf::viol("M01:errors", fmt("an invalid expression given by a part of the program: %s", how.c_str()));
            if(t.any().getLevel() != level) vf::viol("M01:levels", "changed by an invalid filter");
            vf::stat("errors_across_parts"); } }
         vf::tick(); if(vf::violated()) return;
      }
   };
   if(T == 1 && r.chance(1, 2)) body(0); else { std::vector<std::thread> th; for(int t = 0; t < T; ++t) th.emplace_back(body, t); for(auto& x: th) x.join(); }
   if(vf::violated()) return;
   if(counter != locked) vf::viol("M01:locks", fmt("%ld increments under the lock, the counter is %ld", locked, counter));
   lock.reset();
   part().level(5);
   for(int i = 0; i < 2; ++i) LOGGER.log("f", 1, falcon::LLCRIT, "", "sentinel");
   if(!waitFor([&] { for(auto& h: heard) if(h->sentinels < 2) return false; return true; })) { vf::viol("M01:messages", "a listener added by a part of the program doesn't hear the messages of another"); return; }
   uint64_t shape = P;
   for(size_t i = 0; i < P; ++i) {
      std::lock_guard<std::mutex> g(heard[i]->m);
      if(heard[i]->strange) vf::viol("M01:messages", "heard of no thread");
      for(int t = 0; t < T; ++t) {
         auto& e = ts[t]->expected; auto& h = heard[i]->per[t];
         for(size_t k = 0; k < e.size() && k < h.size(); ++k) if(e[k].lv != h[k].lv || e[k].text != h[k].text || e[k].cat != h[k].cat) { vf::viol("M01:messages", fmt("thread %d, %zu: expected %s, heard by the listener of %s: %s", t, k, show(e[k]).c_str(), mods[i].name, show(h[k]).c_str())); break; }
         if(e.size() != h.size()) vf::viol("M01:messages", fmt("thread %d: %zu messages expected, %zu heard by the listener of %s", t, e.size(), h.size(), mods[i].name));
         vf::stat("messages_compared", (long long)e.size());
      }
   }
   long cross = 0; for(auto& t: ts) { cross += t->crossings; shape = vf::mix(shape, t->shape); } vf::stat("calls_into_other_parts", cross);
   for(auto& l: ls) { part().remove(l); }
   // what was made by the modules outlives them
   bool out = true; LOGGER.log("f", 1, falcon::LLCRIT, "", "sentinel");     // listeners are let go by the next delivery
   for(auto& l: ls) { std::weak_ptr<falcon::LogSystem::Listener> w = l; l.reset(); out = waitFor([&] { return w.expired(); }) && out; }
   for(auto& p: pools) kept.merge(p);
   // messages on their way while the modules are unloaded
   Heard last; last.per.resize(1); auto own = mods[0].api->listener([&] (const falcon::LogSystem::Message& m) { last.take(m); }); mods[0].api->add(own);
   std::vector<std::string> late; mods[0].api->setCategory("late");
   for(int k = int(r.below(40)); k > 0; --k) { late.push_back(fmt("0:late%d", k) + std::string(r.below(60), 'l')); part().log(0, "", late.back(), [] { return std::string(); }, ""); }
   if(out) while(mods.size() > own0) { bool still = r.chance(1, 4); if(!still) { dlclose(mods.back().handle); vf::stat("modules_unloaded"); } mods.pop_back(); }
   else { vf::stat("listeners_still_held"); mods.resize(own0); }
   LOGGER.log("f", 1, falcon::LLCRIT, "", "sentinel");
   if(!waitFor([&] { return last.sentinels >= 1; })) vf::viol("M01:messages", "of a module unloaded: the delivery stalled");
   { std::lock_guard<std::mutex> g(last.m); bool same = last.per[0].size() == late.size(); for(size_t k = 0; same && k < late.size(); ++k) same = last.per[0][k].text == late[k] && last.per[0][k].cat == "late"; if(!same) vf::viol("M01:messages", fmt("%zu logged by modules unloaded afterwards, %zu heard", late.size(), last.per[0].size())); }
   mods[0].api->remove(own); LOGGER.log("f", 1, falcon::LLCRIT, "", "sentinel"); { std::weak_ptr<falcon::LogSystem::Listener> w = own; own.reset(); waitFor([&] { return w.expired(); }); }
   mods[0].api->setCategory("");
   Thread t(r.next(), 0, 5);
   kept.checkAll(t); if(kept.items.size() > 120 || r.chance(1, 5)) { kept.clear(t); vf::stat("pools_destroyed"); }
   if(r.chance(1, 10)) sameEngine("in the end");
   vf::stat("evaluations"); vf::distinct(shape);
   if(idx < 3) vf::sample(fmt("case %ld: %zu parts, %d threads of %d steps, level %d, %ld calls into other parts, %zu late messages", idx, P, T, N, level, cross, late.size()));
}
int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if(n <= 0) return 3; exe[n] = 0; dir = std::string(exe, std::string(exe).rfind('/'));
   dir = std::string(exe).substr(0, std::string(exe).rfind('/'));
   long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog("M01", 45);
   mods.push_back(Module{"the executable", nullptr, modMain()}); 
#ifndef VF_NOLIB
   mods.push_back(Module{"the library", nullptr, modLib()});
#endif
   
   for(long i = vf::options().get("from", 0); i < cases && !vf::violated(); ++i) { Rng r(vf::mix(seed, uint64_t(i))); testCase(r, i); vf::tick(); }
   LOGGER.stop();
   return vf::finish();
}
