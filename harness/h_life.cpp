// Monitor of the life of the application's logger (L13): this program runs itself again and again; the children use the logger from
// static initialisers on and end in every way, telling what happens through a pipe; the parent judges what they told.
#define VF_WRAP_MUTEX
#include "common.h"
#include "h_life.h"
#include <falcon/logger.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <algorithm>

using vf::Rng;
using vf::fmt;
extern char** environ;

// ---------------------------------------------------------------------------------------------- the child
namespace life {
uint64_t seed() { static uint64_t s = [] { const char* e = getenv("VF_LIFE"); return e ? uint64_t(strtoull(e, nullptr, 10)) : 0; }(); return s; }
bool child() { return getenv("VF_LIFE") != nullptr; }
void tell(const std::string& s) { std::string l = s + "\n"; size_t o = 0; while(o < l.size()) { ssize_t w = ::write(3, l.data() + o, l.size() - o); if(w <= 0) _exit(99); o += size_t(w); } }
static std::atomic<int> s_returned{0}, s_listeners{0};
static std::atomic<int>& permanent() { static std::atomic<int> n{0}; return n; }

struct Told: public falcon::LogSystem::Listener {
   int id, slow; std::atomic<int> n{0};
   Told(int i, int s): id(i), slow(s) {}
   ~Told() override { tell(fmt("dead %d", id)); }
   void onMessage(const falcon::LogSystem::Message& m) override {
      tell(fmt("got %d %s", id, m.m_message.c_str()));
      if(slow) usleep(useconds_t(slow));
      if(id >= 0 || m.m_message == "<mflush>") ++n;
   }
};
static std::vector<std::weak_ptr<Told>>& all() { static auto* v = new std::vector<std::weak_ptr<Told>>; return *v; }
static std::mutex& mtx() { static auto* m = new std::mutex; return *m; }
void reg(int slow) {
   int id; auto l = std::shared_ptr<Told>();
   { std::lock_guard<std::mutex> g(mtx()); id = int(all().size()); l = std::make_shared<Told>(id, slow); all().push_back(l); }
   LOGGER.addListener(l);
   tell(fmt("reg %d", id));
}
// a stream which tells the texts of the records it is given
struct Buf: public std::stringbuf {
   int sync() override { std::string s = str(); str(""); size_t p = 0; while((p = s.find("<m", p)) != s.npos) { size_t e = s.find('>', p); tell("got d " + s.substr(p, e == s.npos ? e : e - p + 1)); ++p; } return 0; }
};
struct Stream: public std::ostream { Buf b; Stream(): std::ostream(nullptr) { rdbuf(&b); } ~Stream() override { tell("dead d"); } };
void send(const char* who, int i, int how) {
   std::string id = fmt("<m%s.%d>", who, i);
   tell("sub " + id);
   switch(how) {
   case 0: LOGGER.log("f.cpp", i, falcon::LogSystem::INFO, "cat", id); break;
   case 1: LOG_INFO << id; break;
   case 2: LOG_CATEGORY("c" + std::string(who)) LOG_WARN << LOG_CAT("tmp") << "<m" << who << "." << i << ">"; break;
   default: LOG_BLOCK_ERR { LOGGER << "<m" << who; LOGGER << "." << i << ">"; }
   }
   tell("ret " + id);
}
static void afterLogger() { tell("gone"); }
// registered before the logger is there: called after it is gone
void early() {
   static bool done = false;
   if(!done) { done = true; tell("atexit"); atexit(afterLogger); }
}
}
using namespace life;

// objects whose destructors use the logger, which was there before them
struct Late {
   int what;
   explicit Late(int w): what(w) {}
   ~Late() {
      tell("late");
      if(what & 1) { static int n = 0; for(int i = 0; i < 4; ++i) send("L", n, (seed() >> 5) % 3 ? n % 4 : 0), ++n; }
      if(what & 2) { reg(0); }
      if(what & 4) { falcon::LogSystem::Diags d; LOGGER.getDiags(d); LOGGER.defaultListener()->level(falcon::LLERR); }
      if(what & 8) { LOGGER.stop(); }
      if(what & 16) { LOGGER.stop(); LOGGER.start(); }
   }
};

// objects of a thread whose destructors log, before or after those of what the thread logged with
struct AtThreadEnd { std::string who; int n = 0; ~AtThreadEnd() { if(who.empty()) return; tell("thread-end"); for(int i = 0; i < n; ++i) send(who.c_str(), i, i % 4); } };
static thread_local AtThreadEnd t_before;
static void logsAtEnd(const std::string& who, int n) { static thread_local AtThreadEnd after; AtThreadEnd& a = n % 2 ? t_before : after; a.who = who; a.n = n; }

static int childMain() {
   Rng r(seed() ^ 0x5555);
   vf::Delays::rate() = r.chance(1, 2) ? 60 : 0; vf::Delays::seed() = seed() | 1;
   early();
   tell("main");
   int threads = int(r.below(5));
   if(r.chance(1, 25)) threads = int(r.range(10, 40));
   bool race = r.chance(1, 2);
   std::vector<std::thread> th; std::vector<falcon::Logger*> at(threads, nullptr); std::vector<falcon::LogStreamListener*> df(threads, nullptr);
   if(race && threads) {   // the first use, if it was not made by a static initialiser, is made by threads
      vf::Barrier b(threads);
      for(int t = 0; t < threads; ++t) th.emplace_back([&, t] { b.wait(); at[t] = &LOGGER; df[t] = LOGGER.defaultListener().get(); });
      for(auto& t: th) t.join();
      th.clear();
      for(int t = 0; t < threads; ++t) if(at[t] != &LOGGER || df[t] != LOGGER.defaultListener().get()) tell(fmt("differs %d", t));
      tell("raced");
   }
   if(r.chance(2, 3)) {
      if(r.chance(1, 2)) { LOGGER.defaultListener()->share(std::make_shared<Stream>()); } else { std::unique_ptr<std::ostream> o(new Stream); LOGGER.defaultListener()->own(o); }
      tell("reg d");
   }
   if(r.chance(1, 5)) { tell("filter"); LOGGER.categoryFilter("c.*", falcon::LLTRACE); }
   for(int n = int(r.range(0, 3)); n > 0; --n) reg(r.chance(1, 3) ? int(r.below(300)) : 0);
   int msgs = int(r.chance(1, 8) ? r.range(200, 1500) : r.below(40));
   static const char* names[] = {"a", "b", "c", "d", "e"};
   for(int t = 0; t < threads; ++t) th.emplace_back([&, t] {
      Rng q(seed() + 77 * uint64_t(t));
      std::string who = t < 5 ? names[t] : fmt("t%d", t);
      if(q.chance(1, 3)) { if(q.chance(1, 2)) logsAtEnd("Q" + who, int(q.range(1, 6))); else { send(who.c_str(), -1, 1); logsAtEnd("Q" + who, int(q.range(1, 6))); } }
      for(int i = 0; i < msgs; ++i) send(who.c_str(), i, int(q.below(4)));
   });
   if(r.chance(1, 2)) { int k = int(r.below(30)); for(int i = 0; i < k; ++i) send("M", i, int(r.below(4))); }
   for(auto& t: th) t.join();
   th.clear();
   if(r.chance(1, 4)) logsAtEnd("W", int(r.range(1, 6)));
   if(r.chance(1, 2)) {   // let everything arrive
      auto mark = std::make_shared<Told>(-1, 0);
      LOGGER.addListener(mark);
      LOGGER.log("f.cpp", 1, falcon::LogSystem::CRITICAL, "", "<mflush>");
      while(mark->n.load() == 0) usleep(100);
      mark->detach();
      tell("flushed");
   }
   if(r.chance(1, 2)) { int k = int(r.chance(1, 8) ? r.range(500, 4000) : r.below(100)); for(int i = 0; i < k; ++i) send("E", i, int(r.below(4))); }
   switch(r.below(6)) { case 0: LOGGER.stop(); tell("stop"); break; case 1: LOGGER.stop(); LOGGER.start(); tell("restart"); break; case 2: LOGGER.clearFilter(); break; default: break; }
   if(r.chance(1, 2)) { static Late l(int(r.below(32))); if(r.chance(1, 2)) { static Late l2(int(r.below(32))); } }
   int code = int(r.below(60));
   tell(fmt("ends %d", code));
   switch(r.below(3)) {
   case 0: return code;
   case 1: exit(code);
   default: { std::thread t([code] { exit(code); }); t.join(); pause(); return 98; }
   }
}

// ---------------------------------------------------------------------------------------------- the parent
static void judge(const std::vector<std::string>& ev, int status, long idx) {
   std::map<std::string, std::vector<std::string>> got; std::map<std::string, int> when, regAt; std::map<std::string, int> deadAt, subAt;
   std::map<std::string, std::map<std::string, int>> times;
   int gone = -1, flushed = -1, code = -1, filter = -1, k = 0; bool earlyUse = false, late = false, mainSeen = false;
   std::set<std::string> who; uint64_t h = 7;
   for(auto& e: ev) {
      ++k; std::istringstream is(e); std::string c, a, b; is >> c >> a >> b;
      if(c == "gone") { gone = k; }
      else if(c == "main") { mainSeen = true; }
      else if(c == "flushed") flushed = k;
      else if(c == "filter") filter = k;
      else if(c == "late") { late = true; vf::stat("static_destructors"); }
      else if(c == "thread-end") vf::stat("thread_ends_logging");
      else if(c == "raced") vf::stat("raced_first_uses");
      else if(c == "ends") code = atoi(a.c_str());
      else if(c == "reg") { regAt[a] = k; vf::stat("listeners"); }
      else if(c == "dead") { if(deadAt.count(a)) vf::viol("destroyed-twice", "listener " + a); deadAt[a] = k; }
      else if(c == "sub") { subAt[a] = k; vf::stat("submissions"); if(!mainSeen) { earlyUse = true; vf::stat("submitted_before_main"); } }
      else if(c == "ret") when[a] = k;
      else if(c == "differs") vf::viol("not-one-logger", "thread " + a + " reached another logger or default listener than the main one");
      else if(c == "got") {
         vf::stat("deliveries_told");
         h = vf::mix(h, vf::hashStr(e));
         if(gone >= 0) { vf::viol("called-after-the-end", "listener " + a + " given " + b + " after the logger was gone"); return; }
         if(deadAt.count(a)) { vf::viol("called-when-destroyed", "listener " + a + " given " + b); return; }
         if(b == "<mflush>") continue;
         if(!subAt.count(b)) { vf::viol("invented", "listener " + a + " given " + b + ", never submitted"); return; }
         if(++times[a][b] > 1 && !(a == "d" && filter >= 0)) { vf::viol("given-twice", "listener " + a + " given " + b + " twice"); return; }
         got[a].push_back(b);
      }
   }
   if(status != -1) {
      if(WIFSIGNALED(status)) { vf::viol("killed", fmt("the program ended by signal %d%s; last told: %s", WTERMSIG(status), gone >= 0 ? " after the logger was gone" : "", ev.empty() ? "nothing" : ev.back().c_str())); return; }
      if(WEXITSTATUS(status) == 99) { vf::stat("pipe_broken"); return; }
      if(code < 0 || WEXITSTATUS(status) != code) { vf::viol("exit-status", fmt("the program asked to end with %d and ended with %d; last told: %s", code, WEXITSTATUS(status), ev.empty() ? "nothing" : ev.back().c_str())); return; }
   }
   if(gone < 0) { vf::viol("no-end", "the functions registered with atexit were not called"); return; }
   for(auto& g: got) {   // the order of each source
      std::map<std::string, int> last;
      for(auto& m: g.second) { auto p = m.rfind('.'); std::string src = m.substr(0, p); int i = atoi(m.c_str() + p + 1); if(g.first == "d" && filter >= 0) continue; if(last.count(src) && last[src] >= i) { vf::viol("order", "listener " + g.first + " given " + m + " late"); return; } last[src] = i; }
   }
   if(flushed >= 0) {
      vf::stat("flushes");
      for(auto& l: regAt) {
         if(l.second > flushed) continue;
         for(auto& m: when) if(m.second < flushed && subAt[m.first] > l.second) { vf::stat("arrivals_checked"); if(!times[l.first].count(m.first)) { vf::viol("lost", "listener " + l.first + " was not given " + m.first + ", submitted before a message that arrived"); return; } }
      }
   }
   for(auto& l: regAt) if(!deadAt.count(l.first) || deadAt[l.first] > gone) { vf::viol("not-released", "listener " + l.first + " was not destroyed with the logger"); return; } else vf::stat("releases_checked");
   int afterEnd = 0; for(auto& m: subAt) if(!when.count(m.first)) ++afterEnd;
   vf::stat("evaluations");
   if(!subAt.empty()) vf::distinct(vf::mix(h, vf::mix(uint64_t(code), earlyUse * 2 + late)));
   size_t most = 0; for(auto& g: got) most = std::max(most, g.second.size());
   if(most < when.size() && !regAt.empty()) vf::stat("ended_with_backlog");
   if(idx < 3) vf::sample(fmt("case %ld: %zu events, %zu submissions, %zu listeners, exit status %d", idx, ev.size(), subAt.size(), regAt.size(), code));
}

static bool runCase(uint64_t seed, long idx, int& hangs) {
   int p[2]; if(pipe2(p, O_CLOEXEC)) { perror("pipe"); _exit(2); }
   pid_t pid = fork();
   if(pid == 0) {
      dup2(p[1], 3 == p[1] ? 3 : 3); fcntl(3, F_SETFD, 0);
      setenv("VF_LIFE", std::to_string(seed).c_str(), 1);
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
      char self[] = "/proc/self/exe"; char* av[] = {self, nullptr};
      execv(self, av); _exit(97);
   }
   close(p[1]);
   std::string buf; char b[65536]; int idle = 0; bool killed = false;
   while(true) {
      pollfd f{p[0], POLLIN, 0}; int n = poll(&f, 1, 250);
      if(n == 0) { vf::tick(); if(++idle > 45 * 4) { kill(pid, SIGKILL); killed = true; break; } continue; }
      ssize_t k = read(p[0], b, sizeof b); if(k <= 0) break;
      idle = 0; buf.append(b, size_t(k)); vf::tick();
   }
   close(p[0]);
   int status = 0;
   for(int i = 0; !killed; ++i) { pid_t w = waitpid(pid, &status, WNOHANG); if(w == pid) break; if(i > 90000) { kill(pid, SIGKILL); killed = true; } usleep(i < 200 ? 100 : 500); vf::tick(); }
   if(killed) waitpid(pid, &status, 0);
   std::vector<std::string> ev; std::istringstream is(buf); std::string l; while(std::getline(is, l)) ev.push_back(l);
   vf::setContext(fmt("L13 case %ld VF_LIFE=%llu", idx, (unsigned long long)seed));
   vf::stat("programs_run");
   if(killed) { if(++hangs == 1) { return false; } vf::viol("never-ends", "the program did nothing for 45 s; last told: " + (ev.empty() ? std::string("nothing") : ev.back())); return true; }
   judge(ev, status, idx);
   return true;
}

int main(int argc, char* argv[]) {
   if(child()) return childMain();
   vf::init(argc, argv);
   long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog("L13", 120);
   for(long i = vf::options().get("from", 0); i < cases; ++i) {
      uint64_t s = vf::mix(seed, uint64_t(i)); int hangs = 0;
      while(!runCase(s, i, hangs)) {}
      if(vf::violated()) break;
   }
   return vf::finish();
}
