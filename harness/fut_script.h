// Test cases that follow a script and record what they do in a log of their own.
#ifndef VF_FUT_SCRIPT_H
#define VF_FUT_SCRIPT_H
#include <falcon/fut/fut.h>
#include <falcon/fut/marktime.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <locale>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace vf {

inline std::string unhex(const std::string& h) {
   std::string s;
   for(size_t i = 1; i + 1 < h.size(); i += 2) { s += char(strtol(h.substr(i, 2).c_str(), nullptr, 16)); }   // after an 'x'
   return s;
}
inline std::string hex(const std::string& s) {
   std::string h = "x"; char b[4];
   for(unsigned char c: s) { snprintf(b, sizeof b, "%02x", c); h += b; }
   return h;
}

inline int& eventsFd() {
   static int fd = [] {
      const char* n = getenv("VF_EVENTS");
      int f = n ? open(n, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600) : -1;
      if(f < 0) { _exit(99); }
      return f;
   }();
   return fd;
}
inline void event(const std::string& what) {
   struct timeval tv; gettimeofday(&tv, nullptr);
   std::string l = std::to_string((long long)tv.tv_sec * 1000000 + tv.tv_usec) + " " + what + "\n";
   if(::write(eventsFd(), l.data(), l.size()) != ssize_t(l.size())) { _exit(98); }
}

struct Action { char phase; std::string op; std::vector<std::string> args; };
struct CaseScript { int id = -1; std::string comp, name; std::vector<Action> acts; };

struct Script {
   std::string api = "main";
   std::vector<std::string> apiArgs, pre;
   std::vector<CaseScript> cases;
   std::map<std::string, int> byName;
   Script() {
      const char* n = getenv("VF_SCRIPT");
      std::ifstream in(n ? n : "/dev/null");
      std::string l;
      while(std::getline(in, l)) {
         std::istringstream is(l); std::string w; is >> w;
         if(w == "api") { is >> api; std::string a; while(is >> a) { apiArgs.push_back(unhex(a)); } }
         else if(w == "pre") { is >> w; pre.push_back(w); }
         else if(w == "case") {
            CaseScript c; std::string a, b; is >> c.id >> a >> b; c.comp = unhex(a); c.name = unhex(b);
            byName[c.comp + "::" + c.name] = int(cases.size()); cases.push_back(c);
         }
         else if(w == "a") { Action a; is >> a.phase >> a.op; std::string x; while(is >> x) { a.args.push_back(x); } cases.back().acts.push_back(a); }
      }
   }
   const CaseScript* find(const std::string& full) const { auto i = byName.find(full); return i == byName.end() ? nullptr : &cases[size_t(i->second)]; }
};
inline Script& script() { static Script* s = new Script; return *s; }

struct MyError: std::runtime_error { using std::runtime_error::runtime_error; };

inline std::string expectFile(const char* f) { std::string s = f; auto p = s.rfind('/'); return p == std::string::npos ? s : s.substr(p + 1); }

// F <id> <desc must contain> <file> <line>: a failure is about to be caused
inline void failing(int id, const std::string& desc, const std::string& file, int line) {
   event("F " + std::to_string(id) + " " + hex(desc) + " " + hex(file) + " " + std::to_string(line));
}

// A case may leave the standard streams somewhere else, or unusable: what it writes then is not recorded.
struct Mute { bool out = false, err = false, silent = false; std::ostringstream own; std::streambuf *outer = std::cout.rdbuf(), *outerErr = std::cerr.rdbuf(); };
inline Mute& mute() { static Mute* m = new Mute; return *m; }

struct Punct: public std::numpunct<char> {
   char do_decimal_point() const override { return ','; }
   char do_thousands_sep() const override { return '.'; }
   std::string do_grouping() const override { return "\1"; }
};
inline std::locale punctuated() { return std::locale(std::locale::classic(), new Punct); }
inline void oddFormat() { std::cout << std::hex << std::showbase << std::showpos << std::uppercase << std::setprecision(1) << std::setfill('#') << std::scientific << std::left; }
// what the program sets before it runs anything
inline void prepare() {
   for(auto& w: script().pre) {
      if(w == "fmt") { oddFormat(); }
      else if(w == "imbue") { std::cout.imbue(punctuated()); }
      else if(w == "locale") { std::locale::global(punctuated()); }
      else if(w == "width") { std::cout << std::internal << std::setfill('0') << std::setprecision(0); }
   }
}

struct Actor {
   falcon::testing::TestCase* tc;
   explicit Actor(falcon::testing::TestCase* t): tc(t) {}
   void checkFail(const char* f, int l, const char* e, const char* a) { tc->checkFail(f, l, e, a); }
   void fail(const char* f, int l, const char* r) { tc->fail(f, l, r); }
   long long elapsedTimeNow() { return tc->elapsedTimeNow(); }
   const CaseScript* cs() {
      const CaseScript* c = script().find(tc->fullName());
      if(!c) { event(std::string("U ") + hex(tc->fullName())); }
      return c;
   }
   // true if the phase must end
   bool act(const CaseScript* c, const Action& a) {
      std::string id = std::to_string(c->id);
      const std::string& op = a.op;
      if((mute().out && op.compare(0, 3, "out") == 0) || (mute().err && op.compare(0, 3, "err") == 0)) {
         if(!mute().silent) (op[0] == 'o' ? std::cout : std::cerr) << unhex(a.args[0]) << std::flush;
         return false;
      }
      if(op == "mute") {
         const std::string& how = a.args[0];
         event("V " + id + " " + how);
         if(how == "out" || how == "both") { mute().out = true; std::cout.rdbuf(mute().own.rdbuf()); }
         if(how == "err" || how == "both") { mute().err = true; std::cerr.rdbuf(mute().own.rdbuf()); }
         if(how == "failout") { mute().out = true; std::cout.setstate(std::ios::failbit); }
         if(how == "baderr") { mute().err = true; std::cerr.setstate(std::ios::badbit); }
         // where the streams of the program are, and each other's
         if(how == "errtoout") { mute().err = mute().silent = true; std::cerr.rdbuf(mute().outer); }
         if(how == "outtoerr") { mute().out = mute().silent = true; std::cout.rdbuf(mute().outerErr); }
         if(how == "crossed") { mute().out = mute().err = mute().silent = true; std::cout.rdbuf(mute().outerErr); std::cerr.rdbuf(mute().outer); }
         if(how == "early") { mute().out = mute().err = mute().silent = true; std::cout.rdbuf(mute().outer); std::cerr.rdbuf(mute().outerErr); }
         if(how == "joined") { mute().err = mute().silent = true; std::cerr.rdbuf(std::cout.rdbuf()); }
         if(how == "swapped") { mute().out = mute().err = mute().silent = true; std::streambuf* b = std::cerr.rdbuf(); std::cerr.rdbuf(std::cout.rdbuf()); std::cout.rdbuf(b); }
         if(how == "nullout") { mute().out = true; std::cout.rdbuf(nullptr); }
      }
      else if(op == "locale") {
         std::locale::global(punctuated());
      }
      else if(op == "out") { std::string t = unhex(a.args[0]); event("O " + id + " " + a.args[0]); std::cout << t; }
      else if(op == "outw") { std::string t = unhex(a.args[0]); event("O " + id + " " + a.args[0]); std::cout.write(t.data(), long(t.size())); std::cout.flush(); }
      else if(op == "outc") { std::string t = unhex(a.args[0]); event("O " + id + " " + a.args[0]); for(char ch: t) { std::cout.put(ch); } }
      else if(op == "outt") {
         std::string t = unhex(a.args[0]); event("O " + id + " " + a.args[0]);
         std::thread th([&] { std::cout << t << std::flush; }); th.join();
      }
      else if(op == "err") { std::string t = unhex(a.args[0]); event("R " + id + " " + a.args[0]); std::cerr << t; }
      else if(op == "errc") { std::string t = unhex(a.args[0]); event("R " + id + " " + a.args[0]); for(char ch: t) { std::cerr.put(ch); } }
      else if(op == "flush") { std::cout << std::flush; std::cerr << std::flush; }
      else if(op == "fmt") { oddFormat(); std::cerr << std::oct << std::setfill('%'); std::cout.width(30); std::cout.width(0); }
      else if(op == "sleep") { usleep(useconds_t(atol(a.args[0].c_str()))); }
      else if(op == "now") { event("N " + id + " " + std::to_string(this->elapsedTimeNow())); }
      else if(op == "pass") { int two = 2; EXPECT_EQ_DONT_RETURN(two); }
      else if(op == "checkfail") {
         std::string f = unhex(a.args[0]), e = unhex(a.args[2]), ac = unhex(a.args[3]); int line = atoi(a.args[1].c_str());
         failing(c->id, e, expectFile(f.c_str()), line);
         this->checkFail(f.c_str(), line, e.c_str(), ac.c_str());
      }
      else if(op == "fail") {
         std::string f = unhex(a.args[0]), e = unhex(a.args[2]); int line = atoi(a.args[1].c_str());
         failing(c->id, e, f, line);
         this->fail(f.c_str(), line, e.c_str());
      }
      else if(op == "FAIL") { std::string m = unhex(a.args[0]); failing(c->id, m, expectFile(__FILE__), __LINE__); FAIL(m.c_str()) }
      else if(op == "throwstd") { std::string m = unhex(a.args[0]); event("E " + id + " " + a.args[0]); throw std::runtime_error(m); }
      else if(op == "throwmy") { std::string m = unhex(a.args[0]); event("E " + id + " " + a.args[0]); throw MyError(m); }
      else if(op == "throwint") { event("E " + id + " *"); throw 42; }
      else if(op == "throwstr") { event("E " + id + " *"); throw "a literal"; }
      else if(op == "ret") { return true; }
      return false;
   }
   static void EXPECT_EQ_DONT_RETURN(int two) { if(two != 2) { abort(); } }

   void phase(char ph, const char* name) {
      const CaseScript* c = cs();
      if(!c) { return; }
      event(std::string(name) + " " + std::to_string(c->id));
      if(ph == 'S') { mute().out = mute().err = mute().silent = false; }
      struct End { const char* n; int id; ~End() { event(std::string(n) + "e " + std::to_string(id)); } } end{name, c->id};
      for(auto& a: c->acts) { if(a.phase == ph) { if(special(c, a)) { return; } if(act(c, a)) { return; } } }
   }
   // the macros that return, used as in a test body
   bool special(const CaseScript* c, const Action& a) {
      if(a.op != "EQ" && a.op != "TRUE" && a.op != "THROW" && a.op != "NOTHROW") { return false; }
      stopped = true; special2(c, a); bool s = stopped; stopped = false; return s;
   }
   bool stopped = false;
   void special2(const CaseScript* c, const Action& a) {
      int good = atoi(a.args[0].c_str()); int two = 2;
      if(a.op == "EQ") { int other = good ? 2 : 3; if(!good) failing(c->id, "two == other", expectFile(__FILE__), __LINE__); EXPECT_EQ(two, other) }
      else if(a.op == "TRUE") { bool yes = good != 0; if(!good) failing(c->id, "yes should be true", expectFile(__FILE__), __LINE__); EXPECT_TRUE(yes) }
      else if(a.op == "THROW") { if(!good) failing(c->id, "std::runtime_error", expectFile(__FILE__), __LINE__); EXPECT_THROW(if(good) { throw std::runtime_error("x"); }, std::runtime_error) }
      else if(a.op == "NOTHROW") { if(!good) failing(c->id, "thrown", expectFile(__FILE__), __LINE__); EXPECT_NO_THROW(if(!good) { throw std::runtime_error("x"); }) }
      stopped = false;
   }
};
template<class Base> struct Scripted: public Base {
   void SetUp() override { Actor(this).phase('S', "S"); }
   void TearDown() override { Actor(this).phase('D', "D"); }
   void body() { Actor(this).phase('B', "B"); }
};

// what the accessors of a case tell after the run
inline void state(const char* tag, int id, falcon::testing::TestCase* t) {
   event(std::string(tag) + " " + std::to_string(id) + " " + std::to_string(int(t->status())) + " " + hex(t->capturedOut()) + " " + hex(t->capturedErr())
      + " " + hex(t->failDesc()) + " " + hex(t->failFile()) + " " + std::to_string(t->failLine()) + " " + std::to_string(t->elapsedTime()));
}

struct StreamCheck {
   std::streambuf *o, *e; std::ios of{nullptr}, ef{nullptr};
   StreamCheck(): o(std::cout.rdbuf()), e(std::cerr.rdbuf()) { mute(); of.copyfmt(std::cout); ef.copyfmt(std::cerr); }
   static bool same(std::ios& a, std::ios& b) { return a.flags() == b.flags() && a.precision() == b.precision() && a.fill() == b.fill() && a.width() == b.width(); }
   std::string result() {
      return std::string(std::cout.rdbuf() == o ? "1" : "0") + " " + (std::cerr.rdbuf() == e ? "1" : "0")
         + " " + (std::cout.good() ? "1" : "0") + " " + (std::cerr.good() ? "1" : "0") + " " + (same(ef, std::cerr) ? "1" : "0") + " " + (same(of, std::cout) && of.getloc() == std::cout.getloc() ? "1" : "0");
   }
};

}
#endif
