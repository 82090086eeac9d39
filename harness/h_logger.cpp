// Monitors of the application logger: L09 composition, L10 levels, L11 category filter.
// VF_PART: the statements of L10 once more, as one of several sources of the program, with a limit of its own
#ifndef VF_PART
#define VF_WRAP_MUTEX
#endif
#include "common.h"
#include <falcon/logger.h>
#include <algorithm>
#include <iomanip>
#include <iostream>
#include <locale>
#include <optional>

using falcon::LogSystem;
using falcon::LogStreamListener;
using LEVEL = LogSystem::LEVEL;
using vf::Rng;
using vf::fmt;

struct Rec { std::string file, cat, text; int line; LEVEL level; };

struct Recorder: public LogSystem::Listener {
   std::mutex mtx; std::vector<Rec> got; std::atomic<size_t> sentinels{0};
   void onMessage(const LogSystem::Message& m) override {
      if(m.m_file == "sentinel") { sentinels++; vf::tick(); return; }
      std::lock_guard<std::mutex> g(mtx);
      got.push_back(Rec{m.m_file, m.m_category, m.m_message, m.m_line, m.m_level});
      vf::tick();
   }
   std::vector<Rec> take() { std::lock_guard<std::mutex> g(mtx); std::vector<Rec> r; r.swap(got); return r; }
};
inline std::shared_ptr<Recorder> theRec;
inline size_t sentSentinels = 0;

template<typename F> static bool waitFor(F cond, int seconds = 12) {
   uint64_t last = vf::ticks().load(); auto t = std::chrono::steady_clock::now(); int spin = 0;
   while(!cond()) {
      if(++spin < 2000) { std::this_thread::yield(); } else { usleep(200); }
      uint64_t now = vf::ticks().load();
      if(now != last) { last = now; t = std::chrono::steady_clock::now(); }
      else if(std::chrono::steady_clock::now() - t > std::chrono::seconds(seconds)) { return cond(); }
   }
   return true;
}
// everything submitted before has been through all the listeners
static bool quiesce() {
   for(int i = 0; i < 2; ++i) { LOGGER.log("sentinel", 0, falcon::LLCRIT, "", "sentinel"); ++sentSentinels; }
   if(!waitFor([] { return theRec->sentinels.load() >= sentSentinels; })) { vf::viol("delivery-stalled", "the logger stopped delivering"); return false; }
   return true;
}
static std::string show(const Rec& r) { return fmt("[%s:%d level %d cat '%s' text '%s']", vf::esc(r.file, 40).c_str(), r.line, int(r.level), vf::esc(r.cat, 40).c_str(), vf::esc(r.text, 160).c_str()); }

static void setDelays(Rng& r) {
   static const unsigned rates[] = {0, 0, 30, 120, 400};
   vf::Delays::rate() = rates[r.below(5)];
   vf::Delays::seed() = r.next() | 1;
}

// ================================================================== L09
struct Exp { Rec m; bool optional = false; };
struct Boom {};
struct Stmt;
struct Ctx {
   explicit Ctx(uint64_t seed): rng(seed) {}
   Rng rng; int thread = 0; bool marked = false; std::string cat; std::vector<Exp> expected; int level = 5; long num = 0; long budget = 0; int maxDepth = 4; long deepest = 0;
   long places = 0, masks = 0, nested = 0, abandoned = 0, manips = 0, stmts = 0, thrown = 0, disabled = 0; uint64_t shape = 1;
};
static thread_local Ctx* C = nullptr;
static thread_local bool inRef = false;
static void anyStatement(int depth);

struct Grouping: std::numpunct<char> { char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; } };

struct Op {
   enum K { TEXT, INT, DBL, CHR, BOOL, HEX, OCT, WIDTH, FILL, PREC, FIXED, SCI, BASE, UPPER, ALPHA, LEFT, POS, OWN, OWNREAD, MASK, FAIL, LOCALE, EXCEPT, LONG, NEST, NESTTEXT, THROW, MARK, PARTTHROW, KINDS } kind = TEXT;
   long long n = 0; double d = 0; std::string s; int depth = 0;
};
static int ownWord() { static int i = std::ios_base::xalloc(); return i; }
static std::ostream& operator<<(std::ostream& os, const Op& o) {
   switch(o.kind) {
   case Op::TEXT: case Op::MARK: case Op::LONG: return os << o.s;
   case Op::INT: return os << o.n;
   case Op::DBL: return os << o.d;
   case Op::CHR: return os << char('A' + (o.n & 15));
   case Op::BOOL: return os << bool(o.n & 1);
   case Op::HEX: return os << std::hex;
   case Op::OCT: return os << std::oct;
   case Op::WIDTH: return os << std::setw(int(o.n & 15));
   case Op::FILL: return os << std::setfill(char('a' + (o.n & 15)));
   case Op::PREC: return os << std::setprecision(int(o.n & 15));
   case Op::FIXED: return os << std::fixed;
   case Op::SCI: return os << std::scientific;
   case Op::BASE: return os << std::showbase;
   case Op::UPPER: return os << std::uppercase;
   case Op::ALPHA: return os << std::boolalpha;
   case Op::LEFT: return os << std::left;
   case Op::POS: return os << std::showpos;
   case Op::OWN: os.iword(ownWord()) = 1 + (o.n & 1023); os.pword(ownWord()) = const_cast<Op*>(&o); return os;   // what manipulators of the user keep in the stream
   case Op::OWNREAD: return os << os.iword(ownWord()) << (os.pword(ownWord()) ? "p" : "-");
   case Op::MASK: os.exceptions(o.n & 1 ? std::ios::badbit : o.n & 2 ? std::ios::failbit | std::ios::badbit : std::ios::failbit); return os;
   case Op::FAIL: os.setstate(o.n & 1 ? std::ios::failbit : std::ios::badbit); return os;
   case Op::LOCALE: os.imbue(std::locale(std::locale::classic(), new Grouping)); return os;
   case Op::EXCEPT: os << std::unitbuf; return os;
   case Op::NEST: if(!inRef) { C->nested++; anyStatement(o.depth + 1); } return os;
   case Op::NESTTEXT: os << o.s; if(!inRef) { C->nested++; anyStatement(o.depth + 1); } os << o.n; return os;
   case Op::THROW: throw Boom();
   case Op::PARTTHROW: os << o.s; throw Boom();
   default: return os;
   }
}
static Op mark(Ctx& c) { Op o; o.kind = Op::MARK; if(c.marked) { o.s = fmt("\x01%d#%ld\x02", c.thread, c.num++); } return o; }
static Op randOp(Ctx& c, int depth) {
   Op o; o.depth = depth; Rng& r = c.rng;
   unsigned k = unsigned(r.below(100));
   if(k < 22) o.kind = Op::TEXT; else if(k < 34) o.kind = Op::INT; else if(k < 42) o.kind = Op::DBL; else if(k < 45) o.kind = Op::CHR; else if(k < 48) o.kind = Op::BOOL;
   else if(k < 78) { o.kind = Op::K(r.range(Op::HEX, Op::OWNREAD)); c.manips++; }
   else if(k < 80) o.kind = Op::FAIL; else if(k < 82) o.kind = Op::LOCALE; else if(k < 83) { o.kind = r.chance(1, 2) ? Op::EXCEPT : Op::MASK; if(o.kind == Op::MASK) c.masks++; } else if(k < 84) o.kind = Op::LONG;
   else if(k < 90) o.kind = Op::NEST; else if(k < 97) o.kind = Op::NESTTEXT; else if(k < 99) o.kind = Op::THROW; else o.kind = Op::PARTTHROW;
   if(c.maxDepth > 4 && r.chance(1, 3)) o.kind = r.chance(1, 2) ? Op::NEST : Op::NESTTEXT;
   if((o.kind == Op::NEST || o.kind == Op::NESTTEXT) && (depth > c.maxDepth || c.budget <= 0)) o.kind = Op::TEXT;
   o.n = (long long)r.next() >> r.below(60); o.d = double((long long)r.next() >> 20) / double(1 + r.below(100000));
   size_t len = o.kind == Op::LONG ? r.range(500, 9000) : r.below(9);
   for(size_t i = 0; i < len; ++i) o.s += char('a' + r.below(26));
   c.shape = vf::mix(c.shape, o.kind * 16 + depth);
   return o;
}

// the reference of one statement
struct Ref {
   Ctx& c; Exp e; bool enabled; std::ostringstream ref; bool keep = true;
   Ref(Ctx& c_, const char* file, int line, LEVEL lv): c(c_) {
      e.m.file = file; e.m.line = line; e.m.level = lv; enabled = int(lv) <= c.level; c.stmts++; c.budget--;
      if(!enabled) c.disabled++;
   }
   void done() { if(enabled) { e.m.text = ref.str(); if(e.m.cat.empty()) e.m.cat = c.cat; c.expected.push_back(e); } }
};
#define IN_REF(CODE) do { inRef = true; try { CODE; } catch(...) {} inRef = false; } while(0)
#define ST(MAC, LV, CHAIN) { Ref rf(c, __FILE__, __LINE__, LV); try { MAC CHAIN; } catch(...) { rf.e.optional = true; c.thrown++; } IN_REF(rf.ref CHAIN); rf.done(); }
#define STC(MAC, LV, CAT, CHAIN) { Ref rf(c, __FILE__, __LINE__, LV); rf.e.m.cat = CAT; try { MAC << LOG_CAT(CAT) CHAIN; } catch(...) { rf.e.optional = true; c.thrown++; } IN_REF(rf.ref CHAIN); rf.done(); }

struct Step { enum { OP, STMT, TEMP, LEAVE, RAISE } k; Op op; std::string s; };
// what a block does; returns whether to leave it
template<typename S> static int body(S& out, Ref& rf, const std::vector<Step>& steps, int depth) {
   for(auto& s: steps) {
      switch(s.k) {
      case Step::OP: out << s.op; break;
      case Step::STMT: if(!inRef) { rf.c.nested++; anyStatement(depth + 1); } break;
      case Step::TEMP: if(!inRef) { LOGGER.setTempCategory(s.s); rf.e.m.cat = s.s; } break;
      case Step::LEAVE: return 1;
      case Step::RAISE: throw Boom();
      }
   }
   return 0;
}
#define BL(MAC, LV) { Ref rf(c, __FILE__, __LINE__, LV); \
   try { MAC { int how = body(LOGGER, rf, steps, depth); if(how == 1) { rf.e.optional = true; c.abandoned++; break; } } } catch(...) { rf.e.optional = true; c.thrown++; c.abandoned++; } \
   IN_REF(body(rf.ref, rf, steps, depth)); rf.done(); }

static std::vector<Op> ops(Ctx& c, int depth, size_t n) { std::vector<Op> v; v.push_back(mark(c)); while(v.size() < n) v.push_back(randOp(c, depth)); return v; }
static std::string tempCat(Ctx& c) { return fmt("temp%d.%ld", c.thread, (long)c.rng.below(1000)); }

static std::string helperWithLog(int depth) { anyStatement(depth + 1); return "helper"; }

static void lineStatement(Ctx& c, int depth) {
   auto o = ops(c, depth, 8); auto lv = LEVEL(c.rng.below(6)); std::string cat = tempCat(c);
   size_t site = c.rng.below(16); c.shape = vf::mix(c.shape, site);
   switch(site) {
   case 0: ST(LOG_CRIT, falcon::LLCRIT, << o[0]) break;
   case 1: ST(LOG_ERR, falcon::LLERR, << o[0] << o[1]) break;
   case 2: ST(LOG_WARN, falcon::LLWARN, << o[0] << "literal" << o[1] << 42 << o[2]) break;
   case 3: ST(LOG_INFO, falcon::LLINFO, << o[0] << o[1] << o[2] << o[3] << std::string("end")) break;
#line 77 "elsewhere/one.cpp"
   case 4: ST(LOG_DBG, falcon::LLDEBUG, << o[0] << std::hex << 255 << o[1] << std::setw(6) << o[2]) break;
   case 5: ST(LOG_TRC, falcon::LLTRACE, << o[0] << std::setfill('*') << std::setw(9) << 3.14159 << o[1]) break;
   case 6: ST(LOG(lv), lv, << o[0] << o[1] << o[2] << o[3] << o[4] << o[5] << o[6] << o[7]) break;
   case 7: ST(LOG(falcon::LLINFO), falcon::LLINFO, << o[0] << std::boolalpha << true << o[1]) break;
#line 5 "two.cpp"
   case 8: STC(LOG_INFO, falcon::LLINFO, cat, << o[0] << o[1]) break;
   case 9: STC(LOG(lv), lv, cat, << o[0] << o[1] << "mid" << o[2] << o[3]) break;
   case 10: STC(LOG_TRC, falcon::LLTRACE, cat, << o[0] << std::showbase << std::hex << 77 << o[1]) break;
   case 11: ST(LOG_WARN, falcon::LLWARN, << o[0] << (inRef || depth > c.maxDepth || c.budget <= 0 || c.level < falcon::LLWARN ? std::string("helper") : helperWithLog(depth)) << o[1]) break;
#line 900000 "/abs/path with space/three.h"
   case 12: if(o[1].n & 1) ST(LOG_ERR, falcon::LLERR, << o[0] << o[2]) else ST(LOG_INFO, falcon::LLINFO, << o[0] << o[3]) break;
   case 13: ST(LOG(o[1].n & 1 ? falcon::LLDEBUG : falcon::LLERR), (o[1].n & 1 ? falcon::LLDEBUG : falcon::LLERR), << o[0] << o[2]) break;
   case 14: STC(LOG_CRIT, falcon::LLCRIT, cat, << o[0]) break;
   default: ST(LOG_CRIT, falcon::LLCRIT, << o[0] << std::setprecision(3) << std::fixed << 2.0 / 3 << ' ' << std::uppercase << std::hex << 0xabc << o[1]) break;
   }
}
#line 200 "harness/h_logger_blocks.cpp"
static void blockStatement(Ctx& c, int depth) {
   std::vector<Step> steps; Rng& r = c.rng;
   { Step s; s.k = Step::OP; s.op = mark(c); steps.push_back(s); }
   for(size_t n = r.below(6); n > 0; --n) {
      Step s; unsigned k = unsigned(r.below(20));
      if(k < 12) { s.k = Step::OP; s.op = randOp(c, depth); }
      else if(k < 16 && depth <= c.maxDepth && c.budget > 0) s.k = Step::STMT;
      else if(k < 18) { s.k = Step::TEMP; s.s = tempCat(c); }
      else if(k < 19) s.k = Step::LEAVE; else s.k = Step::RAISE;
      steps.push_back(s);
      c.shape = vf::mix(c.shape, 100 + s.k);
   }
   auto lv = LEVEL(r.below(6));
   switch(r.below(8)) {
   case 0: BL(LOG_BLOCK_CRIT, falcon::LLCRIT) break;
   case 1: BL(LOG_BLOCK_ERR, falcon::LLERR) break;
   case 2: BL(LOG_BLOCK_WARN, falcon::LLWARN) break;
   case 3: BL(LOG_BLOCK_INFO, falcon::LLINFO) break;
#line 3000 "blk/four.cc"
   case 4: BL(LOG_BLOCK_DBG, falcon::LLDEBUG) break;
   case 5: BL(LOG_BLOCK_TRC, falcon::LLTRACE) break;
   case 6: BL(LOG_BLOCK(lv), lv) break;
   default: BL(LOG_BLOCK(r.s & 1 ? falcon::LLINFO : falcon::LLWARN), (r.s & 1 ? falcon::LLINFO : falcon::LLWARN)) break;
   }
}
// the same line of several files, several lines of the same file, similar names
#line 300 "harness/h_logger_places.cpp"
static void placeStatement(Ctx& c, int depth) {
   auto o = ops(c, depth, 3); auto lv = LEVEL(c.rng.below(6)); std::string cat = tempCat(c);
   std::vector<Step> steps; { Step s; s.k = Step::OP; s.op = o[0]; steps.push_back(s); s.op = o[1]; steps.push_back(s); }
   size_t site = c.rng.below(16); c.shape = vf::mix(c.shape, 200 + site); c.places++;
   switch(site) {
#line 10 "places/a.cpp"
   case 0: ST(LOG_CRIT, falcon::LLCRIT, << o[0] << o[1]) break;
#line 10 "places/b.cpp"
   case 1: ST(LOG_CRIT, falcon::LLCRIT, << o[0] << o[1]) break;
#line 10 "places/a.h"
   case 2: ST(LOG_CRIT, falcon::LLCRIT, << o[0] << o[2]) break;
#line 10 "places/a.cppx"
   case 3: ST(LOG_INFO, falcon::LLINFO, << o[0]) break;
#line 10 "a.cpp"
   case 4: STC(LOG_CRIT, falcon::LLCRIT, cat, << o[0] << o[1]) break;
#line 10 "other/a.cpp"
   case 5: BL(LOG_BLOCK_CRIT, falcon::LLCRIT) break;
#line 11 "places/a.cpp"
   case 6: ST(LOG_CRIT, falcon::LLCRIT, << o[0] << o[1]) break;
#line 110 "places/a.cpp"
   case 7: ST(LOG(lv), lv, << o[0] << o[1]) break;
#line 11 "places/b.cpp"
   case 8: BL(LOG_BLOCK(lv), lv) break;
#line 1 "places/b.cpp"
   case 9: ST(LOG_CRIT, falcon::LLCRIT, << o[0] << o[1]) break;
#line 1 "a"
   case 10: ST(LOG_CRIT, falcon::LLCRIT, << o[0] << o[1]) break;
#line 1 "b"
   case 11: ST(LOG_CRIT, falcon::LLCRIT, << o[0]) break;
#line 2147483 "b"
   case 12: ST(LOG_WARN, falcon::LLWARN, << o[0]) break;
#line 0 "b"
   case 13: ST(LOG_CRIT, falcon::LLCRIT, << o[0]) break;
#line 0 "a"
   case 14: BL(LOG_BLOCK_ERR, falcon::LLERR) break;
#line 10 "places/A.cpp"
   default: ST(LOG_CRIT, falcon::LLCRIT, << o[0] << o[1]) break;
   }
}
#line 350 "harness/h_logger_blocks.cpp"
static void anyStatement(int depth) {
   Ctx& c = *C;
   if(depth > c.deepest) c.deepest = depth;
   int n = depth == 0 ? 1 : int(c.rng.range(1, c.maxDepth > 4 ? 1 : 2));
   for(int i = 0; i < n; ++i) { if(c.rng.chance(1, 3)) blockStatement(c, depth); else if(c.rng.chance(1, 3)) placeStatement(c, depth); else lineStatement(c, depth); }
}
static void program(Ctx& c, int statements) {
   C = &c;
   if(c.rng.chance(1, 2) || !c.marked) { c.cat = fmt("cat%d", c.thread); LOG_CATEGORY(c.cat); }
   for(int i = 0; i < statements; ++i) {
      c.budget = c.maxDepth > 4 ? 150 : 30;
      if(c.rng.chance(1, 6)) { c.cat = c.rng.chance(1, 6) ? "" : fmt("cat%d.%d", c.thread, i); LOG_CATEGORY(c.cat); if(LOGGER.getCategory() != c.cat) vf::viol("thread-category", "getCategory() is not what was set"); }
      anyStatement(0);
      vf::tick();
   }
   C = nullptr;
}

static void compare(const Ctx& c, const std::vector<Rec>& got) {
   // all the ways in which the messages received might match: some of the expected ones are undetermined
   std::set<size_t> at{0};
   for(size_t i = 0; i < c.expected.size(); ++i) {
      auto& e = c.expected[i].m;
      std::set<size_t> next;
      for(size_t j: at) {
         const Rec* g = j < got.size() ? &got[j] : nullptr;
         if(g && g->text == e.text && g->file == e.file && g->line == e.line && g->level == e.level && g->cat == e.cat) next.insert(j + 1);
         if(c.expected[i].optional) next.insert(j);
      }
      if(next.empty()) {
         size_t j = *at.rbegin(); const Rec* g = j < got.size() ? &got[j] : nullptr;
         std::string what = "message-missing";
         if(g && g->line == e.line && g->file == e.file) what = g->text != e.text ? "text-mixed" : g->cat != e.cat ? "category-mixed" : "level-mixed";
         else if(g && g->text == e.text) what = "source-position-mixed";
         vf::viol(what, fmt("thread %d statement %zu: expected %s, got %s", c.thread, i, show(e).c_str(), g ? show(*g).c_str() : "nothing"));
         return;
      }
      at.swap(next);
   }
   if(!at.count(got.size())) vf::viol("unexpected-message", fmt("thread %d: %s after all the expected ones", c.thread, show(got[*at.rbegin()]).c_str()));
   vf::stat("messages_compared", (long long)got.size());
}

static void caseL09(Rng& r, long idx) {
   setDelays(r);
   int T = r.chance(1, 3) ? 1 : int(r.range(2, 6)); int N = int(r.range(5, 30));
   int level = r.chance(1, 2) ? 5 : int(r.below(6));
   bool deep = idx % 20 == 6;
   if(idx % 50 == 17) { T = int(r.range(8, 40)); N = int(r.range(2, 6)); vf::stat("crowds_of_threads"); }
   if(idx % 100 == 33) { N = int(r.range(300, 1500)); T = int(r.range(1, 3)); vf::Delays::rate() = 0; vf::stat("long_programs"); }
   LOGGER.level(LEVEL(level));
   vf::setContext(fmt("L09 case %ld threads=%d statements=%d level=%d", idx, T, N, level));
   std::vector<std::unique_ptr<Ctx>> cs;
   for(int t = 0; t < T; ++t) { cs.emplace_back(new Ctx(r.next())); cs.back()->thread = t; cs.back()->marked = T > 1 || r.chance(1, 2); cs.back()->level = level; if(deep) { cs.back()->maxDepth = int(r.range(5, 60)); } }
   if(T == 1 && r.chance(1, 2)) { cs[0]->cat = ""; LOG_CATEGORY(""); program(*cs[0], N); }
   else {
      std::vector<std::thread> th; vf::Barrier bar(T);
      for(int t = 0; t < T; ++t) th.emplace_back([&, t] { bar.wait(); program(*cs[t], N); });
      for(auto& t: th) t.join();
   }
   LOGGER.level(falcon::LLTRACE);
   if(!quiesce()) return;
   auto got = theRec->take();
   if(T == 1) { compare(*cs[0], got); }
   else {
      std::vector<std::vector<Rec>> per(T);
      for(auto& g: got) {
         auto p = g.text.find('\x01'); int t = p == std::string::npos ? -1 : atoi(g.text.c_str() + p + 1);
         if(t < 0 || t >= T) { vf::viol("unexpected-message", "of no statement: " + show(g)); continue; }
         per[t].push_back(g);
      }
      for(int t = 0; t < T; ++t) compare(*cs[t], per[t]);
   }
   uint64_t h = T; long ex = 0, op = 0;
   for(auto& c: cs) { h = vf::mix(h, c->shape); vf::stat("nested_statements", c->nested); vf::stat("similar_places", c->places); vf::stat("exception_masks", c->masks); vf::stat("blocks_abandoned", c->abandoned); vf::stat("manipulators", c->manips); vf::stat("statements", c->stmts); vf::stat("disabled", c->disabled); vf::statMax("max_nesting", c->deepest);
      for(auto& e: c->expected) { ++ex; op += e.optional; } }
   vf::stat("undetermined_messages", op);
   vf::stat("evaluations");
   if(ex) vf::distinct(h);
   if(idx < 3 && !cs[0]->expected.empty()) vf::sample(fmt("case %ld: %d threads; first message %s", idx, T, show(cs[0]->expected[0].m).c_str()));
}

// ================================================================== L10
#line 400 "harness/h_logger.cpp"
static constexpr int LIMIT = FALCON_MIN_LOG_LEVEL;
struct Count { mutable int n = 0; };
static std::ostream& operator<<(std::ostream& os, const Count& c) { c.n++; return os << "<op>"; }

struct Probe { Count a, b, c; int blocks = 0; int inner = 0; int other = 0; };
static void checkSite(const char* what, int lv, int level, const Probe& p, bool block, int operands) {
   bool on = lv <= level && lv <= LIMIT;
   auto got = theRec->take();
   std::string ctx = fmt("%s level %d with run-time level %d, compile-time limit %d", what, lv, level, LIMIT);
   const int ser[] = {p.a.n, p.b.n, p.c.n};
   for(int i = 0; i < operands; ++i) {
      if(on && ser[i] != 1) vf::viol("operand-serialised", fmt("%s: an operand of an enabled statement serialised %d times", ctx.c_str(), ser[i]));
      if(!on && ser[i] != 0) vf::viol("disabled-operand-serialised", fmt("%s: an operand of a disabled statement serialised", ctx.c_str()));
   }
   if(block && p.blocks != (on ? 1 : 0)) vf::viol("block-executions", fmt("%s: block run %d times", ctx.c_str(), p.blocks));
   if(got.size() != (on ? 1u : 0u)) vf::viol("messages-submitted", fmt("%s: %zu messages submitted instead of %d", ctx.c_str(), got.size(), int(on)));
   else if(on && (int(got[0].level) != lv)) vf::viol("message-level", fmt("%s: submitted %s", ctx.c_str(), show(got[0]).c_str()));
   vf::stat("evaluations"); vf::stat(on ? "enabled_statements" : "disabled_statements");
   vf::distinct(vf::mix(vf::mix(vf::hashStr(what), lv), level * 100 + LIMIT));
}
#define LSITE(MAC, LV) { Probe p; MAC << p.a << "text" << p.b << 1 << p.c; if(!quiesce()) return; checkSite(#MAC, int(LV), level, p, false, 3); }
#define LCSITE(MAC, LV) { Probe p; MAC << LOG_CAT("special") << p.a << p.b; if(!quiesce()) return; checkSite(#MAC "<<LOG_CAT", int(LV), level, p, false, 2); }
#define BSITE(MAC, LV) { Probe p; MAC { p.blocks++; LOGGER << p.a << p.b; LOGGER << "x" << p.c; } if(!quiesce()) return; checkSite(#MAC, int(LV), level, p, true, 3); }
#define EBSITE(MAC, LV) { Probe p; MAC { p.blocks++; } if(!quiesce()) return; checkSite(#MAC " empty", int(LV), level, p, true, 0); }

static void caseL10(Rng& r, long idx) {
   int level = int(idx % 6);
   vf::setContext(fmt("L10 case %ld run-time level=%d compile-time limit=%d", idx, level, LIMIT));
   LOGGER.level(LEVEL(level));
   theRec->take();
   LSITE(LOG_CRIT, 0) LSITE(LOG_ERR, 1) LSITE(LOG_WARN, 2) LSITE(LOG_INFO, 3) LSITE(LOG_DBG, 4) LSITE(LOG_TRC, 5)
   LCSITE(LOG_CRIT, 0) LCSITE(LOG_ERR, 1) LCSITE(LOG_WARN, 2) LCSITE(LOG_INFO, 3) LCSITE(LOG_DBG, 4) LCSITE(LOG_TRC, 5)
   BSITE(LOG_BLOCK_CRIT, 0) BSITE(LOG_BLOCK_ERR, 1) BSITE(LOG_BLOCK_WARN, 2) BSITE(LOG_BLOCK_INFO, 3) BSITE(LOG_BLOCK_DBG, 4) BSITE(LOG_BLOCK_TRC, 5)
   for(int k = 0; k < 12; ++k) {
      auto lv = LEVEL(r.below(6)); auto lv2 = LEVEL(r.below(6)); bool w = r.chance(1, 2);
      LSITE(LOG(lv), lv) BSITE(LOG_BLOCK(lv), lv) EBSITE(LOG_BLOCK(lv), lv) LCSITE(LOG(lv), lv)
      LSITE(LOG(w ? lv : lv2), (w ? lv : lv2)) BSITE(LOG_BLOCK(w ? lv : lv2), (w ? lv : lv2))
      // within the control flow of the program
      { Probe p; if(w) LOG(lv) << p.a; else p.other++; if(p.other != (w ? 0 : 1)) vf::viol("control-flow", "the branches of an if around a log statement changed"); if(!quiesce()) return; if(w) checkSite("if(LOG)", lv, level, p, false, 1); else if(!theRec->take().empty()) vf::viol("messages-submitted", "by a statement not reached"); }
      { Probe p; for(int i = 0; i < 3; ++i) if(i == 1) LOG_BLOCK(lv) { p.blocks++; LOGGER << p.a; } else p.other++; if(p.other != 2) vf::viol("control-flow", "the branches of an if around a log block changed"); if(!quiesce()) return; checkSite("if(LOG_BLOCK)", lv, level, p, true, 1); }
      // a block in a block, a statement in a block
      { Probe p; Probe q;
        LOG_BLOCK(lv) { LOGGER << p.a; p.blocks++; LOG(lv2) << q.a; LOG_BLOCK(lv2) { q.blocks++; LOGGER << q.b; } LOGGER << p.b; }
        if(!quiesce()) return;
        bool on = int(lv) <= level && int(lv) <= LIMIT, on2 = on && int(lv2) <= level && int(lv2) <= LIMIT;
        auto got = theRec->take();
        if(got.size() != size_t(on) + 2 * size_t(on2) || p.blocks != on || q.blocks != on2 || p.a.n != on || p.b.n != on || q.a.n != on2 || q.b.n != on2)
           vf::viol("nested-block", fmt("block of level %d with statement and block of level %d (run-time %d, compile-time %d): %zu messages, runs %d/%d, serialised %d %d %d %d", int(lv), int(lv2), level, LIMIT, got.size(), p.blocks, q.blocks, p.a.n, p.b.n, q.a.n, q.b.n));
        vf::stat("evaluations"); vf::distinct(vf::mix(lv * 10 + lv2, level * 100 + LIMIT));
      }
      // the level changes at run time between statements
      { int nl = int(r.below(6)); LOGGER.level(LEVEL(nl)); Probe p; LOG(lv) << p.a; if(!quiesce()) return; checkSite("LOG after level change", lv, nl, p, false, 1); LOGGER.level(LEVEL(level)); }
      if(LIMIT >= 0) {
         std::string cat = fmt("category%d", int(r.below(1000)));
         LOG_CATEGORY(cat);
         if(LOGGER.getCategory() != cat) vf::viol("category-not-set", fmt("LOG_CATEGORY had no effect with compile-time limit %d", LIMIT));
         LOG_CRIT << "x"; if(!quiesce()) return;
         auto got = theRec->take();
         if(got.size() != 1 || got[0].cat != cat) vf::viol("category-not-set", fmt("a message logged after LOG_CATEGORY(%s) with compile-time limit %d: %s", cat.c_str(), LIMIT, got.empty() ? "none" : show(got[0]).c_str()));
         vf::stat("categories_set");
      }
   }
   if(idx < 1) vf::sample(fmt("compile-time limit %d, run-time level %d: every macro at every level, in branches, loops and blocks", LIMIT, level));
   LOGGER.level(falcon::LLTRACE);
}

// ================================================================== L11
struct SharedBuf: public std::streambuf {
   std::mutex m; std::string s;
   int overflow(int c) override { std::lock_guard<std::mutex> g(m); if(c != EOF) s += char(c); return c; }
   std::streamsize xsputn(const char* p, std::streamsize n) override { std::lock_guard<std::mutex> g(m); s.append(p, size_t(n)); return n; }
   std::string take() { std::lock_guard<std::mutex> g(m); std::string r; r.swap(s); return r; }
};
static void caseL11(Rng& r, long idx) {
   static const std::vector<std::string> cats = {"", "net", "net::tcp", "disk", "A::INTERNAL", "INTERNAL", "x", "net.*", "disk|x", ".*::INTERNAL", "Net", "net(work)?", "network", "netx", "disk ", "X"};
   static const std::vector<std::string> exprs = {".*::INTERNAL", "net.*", "disk|x", ".*", "[A-Z]+", "nothing", "", "net(work)?", "(?!net).*"};
   static const std::vector<std::string> bad = {"[", "(", "*a", "a{2"};
   setDelays(r);
   vf::setContext(fmt("L11 case %ld", idx));
   auto buf = std::make_shared<SharedBuf>(); std::ostream out(buf.get());
   auto dflt = LOGGER.defaultListener();
   dflt->writeOn(&out);
   int logLevel = 5, dfltLevel = 5; bool installed = false; std::string expr, dcat; int flevel = 5;
   auto setBase = [&] { logLevel = int(r.below(6)); dfltLevel = int(r.below(6)); LOGGER.level(LEVEL(logLevel)); dflt->level(LEVEL(dfltLevel)); };
   setBase();
   if(r.chance(1, 5)) { dcat = r.pick(exprs); dflt->category(dcat); }
   std::string hist = fmt("levels %d/%d%s", logLevel, dfltLevel, dcat.empty() ? "" : (" default category " + dcat).c_str());
   int ops = int(r.range(3, idx % 60 == 14 ? 150 : 14)); long n = 0;
   for(int o = 0; o < ops; ++o) {
      switch(r.below(6)) {
      case 0: case 1: if(!installed || r.chance(3, 4)) expr = r.pick(exprs); flevel = int(r.below(6)); hist += fmt(" filter('%s',%d)", expr.c_str(), flevel);
         LOGGER.categoryFilter(expr, LEVEL(flevel)); vf::stat("filters_installed");
         if(installed && r.chance(1, 2)) {
            // nothing is left of the filter replaced: it's as if only this one had ever been installed
            auto l1 = LOGGER.level(), l2 = dflt->level(); LOGGER.clearFilter(); LOGGER.categoryFilter(expr, LEVEL(flevel));
            if(LOGGER.level() != l1 || dflt->level() != l2) vf::viol("filter-not-replaced", fmt("logger level %d and default listener level %d, but %d and %d when the filter is the only one;%s", int(l1), int(l2), int(LOGGER.level()), int(dflt->level()), hist.c_str()));
            hist += " again"; vf::stat("filters_replaced");
         }
         installed = true; break;
      case 2: {
         std::string b = r.pick(bad); bool thrown = false, other = false; hist += fmt(" invalid('%s')", b.c_str());
         auto l1 = LOGGER.level(), l2 = dflt->level();
         try { LOGGER.categoryFilter(b, LEVEL(r.below(6))); } catch(LogSystem::InvalidCategory&) { thrown = true; } catch(...) { other = true; }
         if(!thrown || other) vf::viol("invalid-expression-accepted", hist);
         if(LOGGER.level() != l1 || dflt->level() != l2) vf::viol("invalid-expression-changed-levels", hist);
         vf::stat("invalid_expressions"); break;
      }
      case 3: case 4: hist += " clear"; LOGGER.clearFilter(); vf::stat(installed ? "filters_cleared" : "clears_without_filter"); installed = false;
         if(int(LOGGER.level()) != logLevel || int(dflt->level()) != dfltLevel)
            vf::viol("levels-not-restored", fmt("logger level %d instead of %d, default listener level %d instead of %d after:%s", int(LOGGER.level()), logLevel, int(dflt->level()), dfltLevel, hist.c_str()));
         break;
      case 5: if(!installed) { setBase(); hist += fmt(" levels %d/%d", logLevel, dfltLevel); } break;
      }
      // messages
      if(!quiesce()) return;
      buf->take();
      struct M { std::string id; int lv; std::string cat; }; std::vector<M> ms;
      for(int k = int(r.range(2, r.chance(1, 60) ? 2000 : 14)); k > 0; --k) {
         M m; m.id = fmt("<%ld>", n++); m.lv = int(r.below(6)); m.cat = r.pick(cats); if(r.chance(1, 25)) m.cat += std::string(r.below(400), 'c');
         if(r.chance(1, 2)) { LOG_CATEGORY(m.cat); LOG(LEVEL(m.lv)) << m.id; }
         else { LOGGER.log("direct.cpp", 1, LEVEL(m.lv), m.cat, m.id); }
         ms.push_back(m);
      }
      if(!quiesce()) return;
      std::string text = buf->take();
      for(auto& m: ms) {
         int got = 0; for(size_t p = text.find(m.id); p != std::string::npos; p = text.find(m.id, p + 1)) ++got;
         auto match = [&](const std::string& e) { return e.empty() || m.cat.empty() || std::regex_match(m.cat, std::regex(e)); };
         bool before = m.lv <= logLevel && m.lv <= dfltLevel && match(dcat);
         bool extra = installed && m.lv <= flevel && match(expr);
         std::string d = fmt("message of level %d category '%s' written %d times; base levels %d/%d;%s", m.lv, m.cat.c_str(), got, logLevel, dfltLevel, hist.c_str());
         if(extra ? got < 1 : got != (before ? 1 : 0)) vf::viol(extra ? "filtered-message-missing" : got ? "extra-output" : "message-missing", d);
         vf::stat("messages_checked"); vf::stat(extra ? "matched" : before ? "as_before" : "not_written");
         vf::distinct(vf::mix(vf::mix(vf::hashStr(expr + "|" + m.cat), m.lv * 10 + flevel), logLevel * 1000 + dfltLevel * 100 + installed));
      }
      if(vf::violated()) return;
      vf::stat("evaluations");
   }
   LOGGER.clearFilter(); LOGGER.level(falcon::LLTRACE); dflt->level(falcon::LLTRACE); dflt->category(""); LOG_CATEGORY("");
   if(!quiesce()) return;
   dflt->writeOn(nullptr);
   theRec->take();
   if(idx < 3) vf::sample(fmt("case %ld: %s", idx, hist.c_str()));
}

#ifdef VF_PART
void VF_PART(Rng& r, long idx) { caseL10(r, idx); }
#else
#ifdef VF_PARTS
void partDisable(Rng&, long); void partErr(Rng&, long); void partTrace(Rng&, long);
static void sourcesL10(Rng& r, long idx) {
   caseL10(r, idx);
   for(auto part: {partDisable, partErr, partTrace}) { if(!vf::violated()) part(r, idx); }
   vf::stat("sources_of_other_limits", 3);
}
#else
static void sourcesL10(Rng& r, long idx) { caseL10(r, idx); }
#endif
int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   std::string mode = vf::options().str("mode"); long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog(mode.c_str(), 45);
   theRec = std::make_shared<Recorder>();
   LOGGER.addListener(theRec);
   for(long i = vf::options().get("from", 0); i < cases; ++i) {
      Rng r(vf::mix(seed, uint64_t(i)));
      if(mode == "L09") caseL09(r, i);
      else if(mode == "L10") sourcesL10(r, i);
      else if(mode == "L11") caseL11(r, i);
      else { fprintf(stderr, "unknown mode\n"); return 3; }
      vf::tick();
      if(vf::violated()) break;
   }
   LOGGER.stop();
   vf::stat("injected_delays", (long long)vf::Delays::count().load());
   return vf::finish();
}
#endif
