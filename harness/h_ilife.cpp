// Monitor of the life of items (I05): this program runs itself again and again; the children hold items in objects of every life - static
// ones built before and after everything, of threads, of functions - and use them until the process is gone; the parent judges what they told.
#include "h_ilife.h"
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <algorithm>

namespace ilife {
uint64_t seed() { static uint64_t s = [] { const char* e = getenv("VF_LIFE"); return e ? uint64_t(strtoull(e, nullptr, 10)) : 0; }(); return s; }
bool child() { return getenv("VF_LIFE") != nullptr; }
void tell(const std::string& s) { if(!child()) return; std::string l = s + "\n"; size_t o = 0; while(o < l.size()) { ssize_t w = ::write(3, l.data() + o, l.size() - o); if(w <= 0) _exit(99); o += size_t(w); } }

static void verify(const Item& it, const Val& v) { checkGet("I05", it, v); checkInt("I05", it, v); checkRest("I05", it, v, true); }
Holder::Holder(const std::string& name, int fill, int end): r(child() ? vf::mix(seed(), vf::hashStr(name)) : 1), atEnd(end) {
   if(!child()) return;
   tail.name = name; vf::report().fd = 3;
   if(name.empty()) return;   // named later
   tell("made " + name);
   for(int i = 0; i < fill; ++i) add();
   use(int(r.below(20)));
}
void Holder::add() {
   Val v = anyVal(r, true); items.push_back(build(v)); vals.push_back(v);
   if(r.chance(1, 4)) { std::string s(r.below(60), char('a' + r.below(20))); codes.emplace_back(s, Code(s, 1)); }
}
void Holder::check() {
   for(size_t i = 0; i < items.size(); ++i) verify(items[i], vals[i]);
   for(auto& c: codes) if(c.second.toString() != c.first) vf::viol("I05:code", "a code object renders something else");
}
void Holder::use(int ops) {
   Handler* hs[] = {&HandlerFactory::nilHandler, &HandlerFactory::boolHandler, &HandlerFactory::intHandler, &HandlerFactory::floatHandler, &HandlerFactory::stringHandler, &HandlerFactory::bigNumHandler};
   static const char* ns[] = {"Nil", "Bool", "Int", "Float", "String", "BigNum"};
   for(int o = 0; o < ops; ++o) {
      size_t n = items.size(); if(!n) add(); n = items.size();
      size_t a = r.below(n), b = r.below(n);
      switch(r.below(8)) {
      case 0: { Item c(items[a]); verify(c, vals[a]); break; }
      case 1: { items[a] = items[b]; vals[a] = vals[b]; break; }
      case 2: { Val v = anyVal(r, true); items[a] = build(v); vals[a] = v; break; }
      case 3: { int k = int(r.below(6)); ItemData d = hs[k]->allocate(), e = hs[k]->clone(d); std::string t = hs[k]->toString(e); int64_t i = hs[k]->toInt(d); bool q = hs[k]->toBool(d); hs[k]->destroy(d); hs[k]->destroy(e); if(i != 0 || q) vf::viol("I05:allocate", fmt("a default value of type %s is not that of its type", ns[k])); if(hs[k]->typeName() != ns[k]) vf::viol("I05:typeName", fmt("type %s has another name", ns[k])); (void)t; break; }
      case 4: { add(); break; }
      case 5: { auto f = [](Item x) { return x.toString(); }; if(f(items[a]) != items[a].toString()) vf::viol("I05:by-value", "an item passed by value is another one, " + vals[a].show()); break; }
      case 6: { std::string w(1 + r.below(40), 'w'); std::istringstream in(" " + w + " x"); Compiler cc; Code c(cc.compile(in)); Code d(c); c = Code(d); if(c.toString() != w) vf::viol("I05:compile", "compiled code renders something else"); break; }
      case 7: { Handler* h = items[a].handler; bool known = false; for(auto* x: hs) known = known || x == h; if(!known) vf::viol("I05:handler", "an item has a handler which is not one of the factory"); break; }
      }
   }
   check();
}
Holder::~Holder() {
   if(!child()) return;
   tell("done " + tail.name);
   use(atEnd);
   for(int i = 0; i < int(r.below(3)); ++i) add();
   while(r.chance(1, 2) && !items.empty()) { items.pop_back(); vals.pop_back(); }
   check();
}
void Raw::check(const char* where, const std::vector<const Item*>& v, const char* when) {
   static const char* want[] = {"nil", "true", "-1234567890123", "120", "4000000000", "2.5", "a text long enough to be allocated on the heap", "short", "42", "a text long enough to be allocated on the heap", "42"};
   for(size_t i = 0; i < v.size(); ++i) { std::string t = v[i]->toString(); if(t != want[i]) vf::viol("I05:raw", fmt("static item %zu of %s is '%s' %s, '%s' expected", i, where, esc(t).c_str(), when, want[i])); }
   tell(std::string("raw ") + where);
}
}
using namespace ilife;

namespace {
Item s_nil, s_bool(true), s_int(int64(-1234567890123)), s_char('x'), s_u32(uint32(4000000000u)), s_dbl(2.5);
Item s_str(std::string("a text long enough to be allocated on the heap")), s_cstr("short"), s_big(BigNum(42));
Item s_copy(s_str), s_copy2(s_big);
Holder s_one("first-source", 12, 20);
Holder s_early __attribute__((init_priority(200)))("early", 12, 20);
thread_local Holder t_holder("", 0, 20);   // made in the threads that use it
struct Last { ~Last() { if(!child()) return; Raw::check("h_ilife", {&s_nil, &s_bool, &s_int, &s_char, &s_u32, &s_dbl, &s_str, &s_cstr, &s_big, &s_copy, &s_copy2}, "at the end"); } };
Last s_last;
}
static void byThread(const std::string& name, int n) { Holder& h = t_holder; h.tail.name = name; tell("made " + name); for(int i = 0; i < n; ++i) h.add(); h.use(n); }
static void atExit() { tell("made atexit"); tell("done atexit"); { Holder h("within-atexit", 6, 10); h.use(10); } tell("end atexit"); }
struct Registers { Registers() { if(child()) atexit(atExit); } };
static Registers s_registers __attribute__((init_priority(150)));

static int childMain() {
   Rng r(seed() ^ 0x5555);
   vf::report().fd = 3;
   tell("main");
   Raw::check("main", {&s_nil, &s_bool, &s_int, &s_char, &s_u32, &s_dbl, &s_str, &s_cstr, &s_big, &s_copy, &s_copy2}, "in main");
   s_one.use(int(r.below(20)));
   if(r.chance(1, 2)) { static Holder h("of-a-function", int(r.below(20)), int(r.below(40))); if(r.chance(1, 2)) { static Holder g("of-another-function", int(r.below(20)), int(r.below(40))); g.items = h.items; g.vals = h.vals; } }
   int how = int(r.below(3)), n = int(r.below(4)), loose = r.chance(1, 3) ? int(r.range(1, 2)) : 0;
   std::vector<std::thread> th;
   for(int t = 0; t < n; ++t) th.emplace_back([t] { byThread(fmt("thread-%d", t), 3 + t * 4); });
   for(auto& t: th) t.join();
   if(r.chance(1, 2)) { byThread(how == 2 ? "main-thread-maybe" : "main-thread", int(r.below(15))); }
   if(r.chance(1, 3)) { auto* leaked = new Holder("leaked-maybe", 10, 1); leaked->use(10); static Holder* keep; keep = leaked; }
   // threads which go on until the process is no more
   for(int t = 0; t < loose; ++t) { auto* up = new std::atomic<bool>(false); std::thread([t, up] { auto* h = new Holder(fmt("loose-%d-maybe", t), 8, 1); up->store(true); while(true) { h->use(8); if(h->items.size() > 60) { h->items.resize(8); h->vals.resize(8); h->codes.clear(); } } }).detach(); while(!up->load()) usleep(50); }
   int code = int(r.below(60));
   tell(fmt("ends %d", code));
   switch(how) {
   case 0: return code;
   case 1: exit(code);
   default: { std::thread t([code, &r] { if(r.chance(1, 2)) byThread("ending-thread", 9); exit(code); }); t.join(); pause(); return 98; }
   }
}

// ---------------------------------------------------------------------------------------------- the parent
static void judge(const std::vector<std::string>& ev, int status, long idx) {
   std::map<std::string, int> made, done, end; int code = -1, raws = 0; bool mainSeen = false; uint64_t h = 7;
   for(auto& e: ev) {
      if(e.compare(0, 7, "@@VIOL ") == 0) { size_t p = e.find('|'); vf::viol(e.substr(7, p - 7), e.substr(p + 1)); return; }
      std::istringstream is(e); std::string c, a; is >> c >> a; h = vf::mix(h, vf::hashStr(e));
      if(c == "main") mainSeen = true; else if(c == "ends") code = atoi(a.c_str());
      else if(c == "made") { ++made[a]; if(!mainSeen) vf::stat("made_before_main"); }
      else if(c == "done") { ++done[a]; if(code >= 0) vf::stat("used_after_main"); }
      else if(c == "end") ++end[a];
      else if(c == "raw") { ++raws; vf::stat("static_items_checked", 11); }
   }
   if(WIFSIGNALED(status)) { vf::viol("I05:killed", fmt("the program ended by signal %d; last told: %s", WTERMSIG(status), ev.empty() ? "nothing" : ev.back().c_str())); return; }
   if(WEXITSTATUS(status) == 99) { vf::stat("pipe_broken"); return; }
   if(code < 0 || WEXITSTATUS(status) != code) { vf::viol("I05:exit-status", fmt("the program asked to end with %d and ended with %d; last told: %s", code, WEXITSTATUS(status), ev.empty() ? "nothing" : ev.back().c_str())); return; }
   bool loose = false;
   for(auto& m: made) {
      bool maybe = m.first.find("maybe") != m.first.npos; if(m.first.compare(0, 5, "loose") == 0) loose = true;
      if(m.second != 1 || done[m.first] > 1 || (!maybe && (done[m.first] != 1 || end[m.first] != 1))) { vf::viol("I05:unfinished", fmt("object '%s' was made %d times, its end was begun %d times and reached %d times", m.first.c_str(), m.second, done[m.first], end[m.first])); return; }
      vf::stat("holders");
   }
   if(raws != 3) { vf::viol("I05:unfinished", fmt("static items were looked at %d times, not 3", raws)); return; }
   if(loose) vf::stat("ended_with_threads_running");
   vf::stat("evaluations"); vf::distinct(vf::mix(h, uint64_t(code)));
   if(idx < 3) vf::sample(fmt("case %ld: %zu events, %zu holders, exit status %d", idx, ev.size(), made.size(), code));
}

static bool runCase(uint64_t seed, long idx, int& hangs) {
   int p[2]; if(pipe2(p, O_CLOEXEC)) { perror("pipe"); _exit(2); }
   pid_t pid = fork();
   if(pid == 0) {
      dup2(p[1], 3); fcntl(3, F_SETFD, 0);
      setenv("VF_LIFE", std::to_string(seed).c_str(), 1);
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
      char self[] = "/proc/self/exe"; char* av[] = {self, nullptr};
      execv(self, av); _exit(97);
   }
   close(p[1]);
   std::string buf; char b[65536]; int idle = 0; bool killed = false;
   while(true) {
      pollfd f{p[0], POLLIN, 0}; int n = poll(&f, 1, 250);
      if(n == 0) { vf::tick(); if(++idle > 45 * 4) { kill(pid, SIGKILL); killed = true; break; } continue; }
      ssize_t k = read(p[0], b, sizeof b); if(k <= 0) break;
      idle = 0; buf.append(b, size_t(k)); vf::tick();
   }
   close(p[0]);
   int status = 0;
   for(int i = 0; !killed; ++i) { pid_t w = waitpid(pid, &status, WNOHANG); if(w == pid) break; if(i > 90000) { kill(pid, SIGKILL); killed = true; } usleep(i < 200 ? 100 : 500); vf::tick(); }
   if(killed) waitpid(pid, &status, 0);
   std::vector<std::string> ev; std::istringstream is(buf); std::string l; while(std::getline(is, l)) ev.push_back(l);
   vf::setContext(fmt("I05 case %ld VF_LIFE=%llu", idx, (unsigned long long)seed));
   vf::stat("programs_run");
   if(killed) { if(++hangs == 1) { return false; } vf::viol("I05:never-ends", "the program did nothing for 45 s; last told: " + (ev.empty() ? std::string("nothing") : ev.back())); return true; }
   judge(ev, status, idx);
   return true;
}

int main(int argc, char* argv[]) {
   if(child()) return childMain();
   vf::init(argc, argv);
   long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog("I05", 120);
   for(long i = vf::options().get("from", 0); i < cases; ++i) {
      uint64_t s = vf::mix(seed, uint64_t(i)); int hangs = 0;
      while(!runCase(s, i, hangs)) {}
      if(vf::violated()) break;
   }
   return vf::finish();
}
