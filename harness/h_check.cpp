// T06: the check macros, on random operands, each outcome compared to the relation computed apart.
#include "common.h"
#include <falcon/fut/fut.h>
#include <cmath>
#include <iostream>
#include <limits>
#include <stdexcept>
using namespace vf;
using falcon::testing::TestCase;
using falcon::testing::UnitTest;

// an operand that counts its evaluations, may be any type
template<class T> struct Op { T v; int n = 0; const T& operator()() { ++n; return v; } };

// what a body did
struct Probe: public TestCase {
   bool after = false;      // the statement after the check was reached
   int line = 0;
};

// A type with only the comparisons, counting; its text isn't its value.
struct Val {
   int v;
   bool operator==(const Val& o) const { return v == o.v; }
   bool operator!=(const Val& o) const { return v != o.v; }
   bool operator<(const Val& o) const { return v < o.v; }
   bool operator>(const Val& o) const { return v > o.v; }
   bool operator<=(const Val& o) const { return v <= o.v; }
   bool operator>=(const Val& o) const { return v >= o.v; }
   explicit operator bool() const { return v != 0; }
};
std::ostream& operator<<(std::ostream& o, const Val& v) { return o << "Val<" << v.v << ">"; }

template<class T> std::string shown(const T& t) { std::ostringstream ss; ss << t; return ss.str(); }

static UnitTest* unit() { auto u = new UnitTest; u->setVerbosity(UnitTest::SILENT); return u; }

static std::string g_what;
// Runs the body, gives the judgement.
static void judge(const char* what, bool mustPass, Probe& p, const std::vector<std::string>& texts, const std::string& actual, bool returns = true, bool exception = false) {
   UnitTest* u = unit();
   u->addTestCase("C", "n", &p);
   p.after = false; p.line = 0;
   int rc = u->performTest("C::n");
   tick();
   vf::stat("checks"); vf::stat("evaluations");
   vf::stat(mustPass ? "checks_passing" : "checks_failing");
   std::string ctx = std::string(what) + " " + g_what;
   bool passed = p.status() == TestCase::SUCCESS;
   if(passed != (rc == 0)) viol(std::string("result:") + what, fmt("status %d but result %d: %s", int(p.status()), rc, ctx.c_str()));
   if(passed != mustPass) { viol(std::string("verdict:") + what, fmt("%s instead of %s: %s (%s)", passed ? "passed" : "failed", mustPass ? "passing" : "failing", esc(ctx).c_str(), p.failDesc())); }
   else if(passed) {
      if(!p.after) viol(std::string("stopped:") + what, "a passing check ended the body: " + esc(ctx));
   }
   else if(!exception) {
      if(returns && p.after) viol(std::string("went-on:") + what, "a failing check did not end the body: " + esc(ctx));
      if(p.status() != TestCase::FAIL) viol(std::string("status:") + what, fmt("status %d: %s", int(p.status()), esc(ctx).c_str()));
      std::string d = p.failDesc();
      for(auto& t: texts) if(d.find(t) == std::string::npos) viol(std::string("text:") + what, fmt("'%s' does not tell '%s': %s", esc(d).c_str(), esc(t).c_str(), esc(ctx).c_str()));
      if(!actual.empty() && d.find(actual) == std::string::npos) viol(std::string("actual:") + what, fmt("'%s' does not tell the value '%s': %s", esc(d).c_str(), esc(actual).c_str(), esc(ctx).c_str()));
      if(p.failLine() != p.line) viol(std::string("line:") + what, fmt("line %d instead of %d: %s", p.failLine(), p.line, esc(ctx).c_str()));
      if(std::string(p.failFile()) != "h_check.cpp") viol(std::string("file:") + what, fmt("file %s", p.failFile()));
   }
   delete u;
}

template<class A> void counts(const char* what, bool passing, A& e, A& a, bool both = true) {
   if(passing && (a.n != 1 || (both && e.n != 1))) viol(std::string("evaluations:") + what, fmt("a passing check evaluated its operands %d and %d times", e.n, a.n));
   if(!passing && ((both && e.n < 1) || a.n < 1)) viol(std::string("evaluations:") + what, "an operand was not evaluated");
}

// the bodies need 'this' to be the test case: each is a class
#define CHECK2(MACRO, OPTXT, RELRES, T) \
   { struct Body: public Probe { Op<T> lhs, rhs; void test() override { line = __LINE__; MACRO(lhs(), rhs()) after = true; } } b; \
     b.lhs.v = x; b.rhs.v = y; bool m = (RELRES); \
     judge(#MACRO, m, b, {"lhs()", "rhs()", OPTXT}, shown(y)); counts(#MACRO, m, b.lhs, b.rhs); }

template<class T> void relations(const T& x, const T& y) {
   g_what = shown(x) + " , " + shown(y);
   CHECK2(EXPECT_EQ, "==", x == y, T)
   CHECK2(EXPECT_NE, "!=", x != y, T)
   CHECK2(EXPECT_GT, ">", x > y, T)
   CHECK2(EXPECT_GE, ">=", x >= y, T)
   CHECK2(EXPECT_LT, "<", x < y, T)
   CHECK2(EXPECT_LE, "<=", x <= y, T)
}

#define CHECK1(MACRO, TXT, RELRES, T) \
   { struct Body: public Probe { Op<T> op; void test() override { line = __LINE__; MACRO(op()) after = true; } } b; \
     b.op.v = x; bool m = (RELRES); judge(#MACRO, m, b, {"op()", TXT}, shown(x)); counts(#MACRO, m, b.op, b.op, false); }
template<class T> void truth(const T& x) {
   g_what = shown(x);
   CHECK1(EXPECT_TRUE, "true", bool(x), T)
   CHECK1(EXPECT_FALSE, "false", !bool(x), T)
}

static std::string rtext(Rng& r) {
   static const char* pool[] = {"", "a", "b", "A", "ab", "abc", "abd", "aB", "%s", "\"", "x\ny", "\xc3\xa9", " a", "a ", "0", "00"};
   if(r.chance(3, 4)) return pool[r.below(16)];
   std::string s; for(size_t n = r.below(40); n; --n) s += char('a' + r.below(3)); return s;
}
template<class T> T rint(Rng& r, const T& near) {
   switch(r.below(6)) {
   case 0: return near;
   case 1: return near == std::numeric_limits<T>::max() ? near : T(near + 1);
   case 2: return near == std::numeric_limits<T>::min() ? near : T(near - 1);
   case 3: { T e[] = {0, 1, T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), 100}; return e[r.below(6)]; }
   case 4: return T(r.range(-3, 3));
   default: return T(r.next());
   }
}
static double rdouble(Rng& r) {
   static const double e[] = {0.0, -0.0, 1.0, -1.0, 0.1, 0.3, 1e9, -1e9, 123456789.123, 1e-4, 1e-5, 1e-300, 2.5, 3.14159265358979, 999999999.9999};
   if(r.chance(1, 2)) return e[r.below(15)];
   double d = std::ldexp(double(int64_t(r.next() >> 11) - (1ll << 52)), -int(r.range(22, 70)));   // up to 2^30
   while(std::fabs(d) > 1e9) d /= 2;
   return d;
}

// expressions of every shape as operands; 'this' checks them
static void shapes(Rng& r) {
   int a = int(r.range(-4, 4)), b = int(r.range(-4, 4)), c = int(r.range(-4, 4));
   g_what = fmt("a=%d b=%d c=%d", a, b, c);
#define SHAPE(NAME, MACRO, RELRES, E, A, TXT1, TXT2) \
   { struct Body: public Probe { int a, b, c; void test() override { line = __LINE__; MACRO(E, A) after = true; } } t; t.a = a; t.b = b; t.c = c; \
     judge(NAME, (RELRES), t, {TXT1, TXT2}, ""); vf::stat("shapes"); }
   SHAPE("EQ-ternary", EXPECT_EQ, (a > b ? a : b) == (b < c ? b : c), a > b ? a : b, b < c ? b : c, "a > b ? a : b", "b < c ? b : c")
   SHAPE("EQ-or", EXPECT_EQ, (a | b) == (b | c), a | b, b | c, "a | b", "b | c")
   SHAPE("EQ-and", EXPECT_EQ, (a & b) == (b & c), a & b, b & c, "a & b", "b & c")
   SHAPE("EQ-compare", EXPECT_EQ, (a == b) == (b == c), a == b, b == c, "a == b", "b == c")
   SHAPE("NE-logic", EXPECT_NE, (a && b) != (b || c), a && b, b || c, "a && b", "b || c")
   SHAPE("LT-shift", EXPECT_LT, ((a & 3) << 1) < ((b & 3) << 1), (a & 3) << 1, (b & 3) << 1, "(a & 3) << 1", "(b & 3) << 1")
   SHAPE("GE-lambda", EXPECT_GE, a + b >= c, ([&] { return a + b; }()), ([&] { return c; }()), "return a + b", "return c")
   SHAPE("LE-less", EXPECT_LE, (a < b) <= (b < c), a < b, b < c, "a < b", "b < c")
   SHAPE("GT-sum", EXPECT_GT, a + b > b - c, a + b, b - c, "a + b", "b - c")
   SHAPE("EQ-comma", EXPECT_EQ, b == c, (a, b), (a, c), "(a, b)", "(a, c)")
#undef SHAPE
#define SHAPE1(NAME, MACRO, RELRES, E, TXT1) \
   { struct Body: public Probe { int a, b, c; void test() override { line = __LINE__; MACRO(E) after = true; } } t; t.a = a; t.b = b; t.c = c; \
     judge(NAME, (RELRES), t, {TXT1}, ""); vf::stat("shapes"); }
   SHAPE1("TRUE-or", EXPECT_TRUE, a || b, a || b, "a || b")
   SHAPE1("TRUE-compare", EXPECT_TRUE, a == b, a == b, "a == b")
   SHAPE1("TRUE-ternary", EXPECT_TRUE, a ? b : c, a ? b : c, "a ? b : c")
   SHAPE1("FALSE-or", EXPECT_FALSE, !(a || b), a || b, "a || b")
   SHAPE1("FALSE-and", EXPECT_FALSE, !(a & b), a & b, "a & b")
   SHAPE1("FALSE-ternary", EXPECT_FALSE, !(a ? b : c), a ? b : c, "a ? b : c")
   // a check within other statements
   { struct Body: public Probe { int a, b, c; void test() override {
        for(int i = 0; i < 3; ++i) { if(a > i) { line = __LINE__; EXPECT_EQ(b + i, c + i) } } after = true; } } t; t.a = a; t.b = b; t.c = c;
     judge("EQ-in-loop", a <= 0 || b == c, t, {"b + i", "c + i"}, ""); vf::stat("shapes"); }
   // several checks: the first failing is the one told
   { struct Body: public Probe { int a, b, c; int second = 0; void test() override {
        line = __LINE__; EXPECT_LE(a, b)
        line = __LINE__; EXPECT_LE(b, c)
        line = __LINE__; EXPECT_NE(a, c)
        after = true; } } t; t.a = a; t.b = b; t.c = c;
     bool ok = a <= b && b <= c && a != c;
     judge("sequence", ok, t, {a > b ? "a <= b" : b > c ? "b <= c" : "a != c"}, ""); vf::stat("shapes"); }
}

static void floats(Rng& r) {
   double x = rdouble(r), y; int kind = int(r.below(6)); bool eq, known = true;
   switch(kind) {
   case 0: y = x; eq = true; break;
   case 1: { y = x; for(int n = int(r.range(1, 4)); n; --n) y = std::nextafter(y, r.chance(1, 2) ? 1e300 : -1e300); eq = true; break; }
   case 2: { double d = (r.chance(1, 2) ? 1.0 : -1.0) * (r.chance(1, 2) ? 0.000101 + double(r.below(1000)) / 1e4 : std::ldexp(1.0, int(r.range(-13, 40)))); y = x + d; eq = false; break; }
   case 3: y = -x; eq = x == 0; known = x == 0 || std::fabs(x) > 0.00006; break;
   case 4: { // computed another way
      int n = int(r.range(1, 50)); double s = 0; for(int i = 0; i < n; ++i) s += 0.1; x = s; y = n * 0.1; eq = true; break; }
   default: {
      double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
      double e[] = {inf, -inf, nan, 0.0, 1.0, std::numeric_limits<double>::max()}; x = e[r.below(6)]; y = e[r.below(6)]; eq = x == y; vf::stat("special_floats"); break; }
   }
   // the distance decides, as it can be computed
   if(!known) return;
   if(kind == 2 && !(std::fabs(x - y) > 0.0001005)) return;
   distinct(mix(mix(hashStr(shown(x)), hashStr(fmt("%.17g", y))), uint64_t(kind)));
   g_what = fmt("%.17g , %.17g", x, y);
   using T = double;
   { struct Body: public Probe { Op<T> lhs, rhs; void test() override { line = __LINE__; EXPECT_FLOAT_EQ(lhs(), rhs()) after = true; } } b; b.lhs.v = x; b.rhs.v = y;
     judge("EXPECT_FLOAT_EQ", eq, b, {"lhs()", "rhs()"}, shown(y)); counts("EXPECT_FLOAT_EQ", eq, b.lhs, b.rhs); }
   { struct Body: public Probe { Op<T> lhs, rhs; void test() override { line = __LINE__; EXPECT_FLOAT_NE(lhs(), rhs()) after = true; } } b; b.lhs.v = x; b.rhs.v = y;
     judge("EXPECT_FLOAT_NE", !eq, b, {"lhs()", "rhs()"}, shown(y)); counts("EXPECT_FLOAT_NE", !eq, b.lhs, b.rhs); }
   { struct Body: public Probe { Op<T> lhs, rhs; void test() override { line = __LINE__; EXPECT_FLOAT_EQ(lhs() + 1 - 1, rhs() * 2 / 2) after = true; } } b; b.lhs.v = x; b.rhs.v = y;
     if(std::isfinite(x) && std::isfinite(y) && std::fabs(y) < 1e300) { judge("EXPECT_FLOAT_EQ-expr", eq, b, {"lhs() + 1 - 1"}, ""); } }
   // integers and single precision as operands
   if(kind < 4) {
      int i = int(r.range(-1000, 1000)), j = r.chance(1, 2) ? i : int(r.range(-1000, 1000)); float fj = float(j);
      struct Body: public Probe { int i; float f; void test() override { line = __LINE__; EXPECT_FLOAT_EQ(i, f) after = true; } } b; b.i = i; b.f = fj;
      g_what = fmt("%d , %f", i, double(fj)); judge("EXPECT_FLOAT_EQ-mixed", i == j, b, {"i", "f"}, ""); }
   vf::stat("float_checks");
}

struct Base: std::runtime_error { using std::runtime_error::runtime_error; };
struct Derived: Base { using Base::Base; };
struct NotStd { int x; };
static void thrower(int k) {
   switch(k) {
   case 1: throw Base("base!");
   case 2: throw Derived("derived!");
   case 3: throw std::logic_error("logic!");
   case 4: throw NotStd{3};
   case 5: throw 42;
   case 6: throw "literal";
   case 7: throw std::bad_alloc();
   }
}
static void throwing(Rng& r) {
   int k = int(r.below(8));
   g_what = fmt("throws %d", k);
   struct Body: public Probe { int k; int evals = 0; void t(int n) { ++evals; thrower(n); } };
#define THROWCHECK(NAME, PASSES, EXC, TXT, CODE) \
   { struct B: public Body { void test() override { line = __LINE__; CODE after = true; } } b; b.k = k; \
     judge(NAME, (PASSES), b, {TXT}, "", false, (EXC)); vf::stat("throw_checks"); \
     if(b.evals != 1) viol(std::string("evaluations:") + NAME, fmt("evaluated %d times", b.evals)); }
   // another exception escapes, and the case is in error
   THROWCHECK("EXPECT_THROW-base", k == 1 || k == 2, k > 2, "Base", EXPECT_THROW(t(k), Base))
   THROWCHECK("EXPECT_THROW-derived", k == 2, k == 1 || k > 2, "Derived", EXPECT_THROW(t(k), Derived))
   THROWCHECK("EXPECT_THROW-std", k == 1 || k == 2 || k == 3 || k == 7, k == 4 || k == 5 || k == 6, "std::exception", EXPECT_THROW(t(k), std::exception))
   THROWCHECK("EXPECT_THROW-int", k == 5, k != 0 && k != 5, "int", EXPECT_THROW(t(k), int))
   THROWCHECK("EXPECT_THROW-statements", k == 1 || k == 2, k > 2, "Base", EXPECT_THROW(int q = k; q += 0; t(q), Base))
   THROWCHECK("EXPECT_ANY_THROW", k != 0, false, "", EXPECT_ANY_THROW(t(k)))
   THROWCHECK("EXPECT_NO_THROW", k == 0, false, k == 1 ? "base!" : k == 2 ? "derived!" : k == 3 ? "logic!" : k == 7 ? std::bad_alloc().what() : "", EXPECT_NO_THROW(t(k)))
   // an explicit failure; the case fails whatever follows that doesn't fail
   std::string msg = "because " + std::to_string(r.below(1000)) + rtext(r);
   { struct B: public Probe { std::string m; void test() override { line = __LINE__; FAIL(m.c_str()) } } b; b.m = msg; judge("FAIL", false, b, {msg}, ""); vf::stat("explicit_failures"); }
}

static void strings(Rng& r) {
   std::string x = rtext(r), y = r.chance(1, 2) ? x : rtext(r);
   distinct(mix(hashStr(x), hashStr(y) * 3));
   g_what = "'" + x + "' , '" + y + "'";
   { struct Body: public Probe { Op<std::string> lhs, rhs; void test() override { line = __LINE__; EXPECT_STREQ(lhs(), rhs()) after = true; } } b; b.lhs.v = x; b.rhs.v = y;
     judge("EXPECT_STREQ", x == y, b, {"lhs()", "rhs()"}, y); counts("EXPECT_STREQ", x == y, b.lhs, b.rhs); }
   { struct Body: public Probe { Op<std::string> lhs, rhs; void test() override { line = __LINE__; EXPECT_STRNE(lhs(), rhs().c_str()) after = true; } } b; b.lhs.v = x; b.rhs.v = y;
     judge("EXPECT_STRNE", x != y, b, {"lhs()", "rhs()"}, y); counts("EXPECT_STRNE", x != y, b.lhs, b.rhs); }
   { struct Body: public Probe { std::string l, r2; void test() override { line = __LINE__; EXPECT_STREQ(l.c_str(), r2.c_str()) after = true; } } b; b.l = x; b.r2 = y;
     judge("EXPECT_STREQ-c", x == y, b, {"l.c_str()", "r2.c_str()"}, y); }
   relations(x, y);
   vf::stat("string_checks");
   // strings holding zero characters are compared whole
   std::string z[2]; int q = 0;
   for(auto& s: z) { if(q++ && r.chance(1, 3)) { s = z[0]; if(!s.empty() && r.chance(1, 2)) s.resize(s.find('\0') == s.npos ? s.size() : s.find('\0')); continue; } for(size_t n = r.below(6); n; --n) s += char(r.chance(1, 3) ? 0 : 'a' + r.below(2)); }
   x = z[0]; y = z[1]; g_what = fmt("%zu and %zu characters with zeroes, equal up to zero %d", x.size(), y.size(), int(std::string(x.c_str()) == y.c_str()));
   distinct(mix(hashStr(x), hashStr(y) * 5));
#define ZERO(NAME, MACRO, PASSES) \
   { struct Body: public Probe { Op<std::string> lhs, rhs; void test() override { line = __LINE__; MACRO(lhs(), rhs()) after = true; } } b; b.lhs.v = x; b.rhs.v = y; \
     judge(NAME, (PASSES), b, {"lhs()", "rhs()"}, ""); counts(NAME, (PASSES), b.lhs, b.rhs); }
   ZERO("EXPECT_STREQ-zero", EXPECT_STREQ, x == y)
   ZERO("EXPECT_STRNE-zero", EXPECT_STRNE, x != y)
   ZERO("EXPECT_EQ-zero", EXPECT_EQ, x == y)
   ZERO("EXPECT_LT-zero", EXPECT_LT, x < y)
   ZERO("EXPECT_GE-zero", EXPECT_GE, x >= y)
   vf::stat("zero_strings");
}

int main(int argc, char* argv[]) {
   init(argc, argv);
   Rng r(uint64_t(options().get("seed", 1)));
   long cases = options().get("cases", 1000);
   startWatchdog("checks", 60);
   for(long i = 0; i < cases && !violated(); ++i) {
      setContext(fmt("case %ld", i));
      switch(r.below(10)) {
      case 0: { int x = rint<int>(r, int(r.next())), y = rint<int>(r, x); distinct(mix(uint64_t(uint32_t(x)) << 32 | uint32_t(y), 1)); relations(x, y); truth(x); break; }
      case 1: { long long x = rint<long long>(r, (long long)r.next()), y = rint<long long>(r, x); distinct(mix(mix(uint64_t(x), uint64_t(y)), 2)); relations(x, y); truth(x); break; }
      case 2: { unsigned x = rint<unsigned>(r, unsigned(r.next())), y = rint<unsigned>(r, x); distinct(mix(uint64_t(x) << 32 | y, 3)); relations(x, y); truth(x); break; }
      case 3: { double x = rdouble(r), y = r.chance(1, 2) ? x : rdouble(r); distinct(mix(hashStr(fmt("%.17g %.17g", x, y)), 4)); relations(x, y); truth(x); break; }
      case 4: { Val x{int(r.range(-2, 2))}, y{int(r.range(-2, 2))}; relations(x, y); truth(x); break; }
      case 5: { bool x = r.chance(1, 2), y = r.chance(1, 2); relations(x, y); truth(x); static int arr[4]; const void* p = r.chance(1, 3) ? nullptr : arr + r.below(4); const void* q = arr + r.below(4); if(p) { relations(p, q); } truth(p); break; }
      case 6: shapes(r); break;
      case 7: case 8: if(r.chance(1, 4)) { strings(r); } else { for(int k = 0; k < 4; ++k) { floats(r); } } break;
      case 9: throwing(r); break;
      }
   }
   sample(fmt("last: %s", g_what.c_str()));
   return finish();
}
