// Monitors of C01 (code objects, compiler) and D01 (distribution of iterators on targets).
#include "common.h"
#include <falcon/engine/code.h>
#include <falcon/engine/compiler.h>
#include <utility>
#include <falcon/engine/distribute.h>
#include <falcon/engine/pagedstack.h>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <set>

using namespace falcon;
using vf::Rng; using vf::fmt; using vf::esc;

static long long live() {
#ifdef VF_COUNT_ALLOC
   return vf::liveBytes.load();
#else
   return 0;
#endif
}
static std::string anySource(Rng& r) {
   static const size_t sizes[] = {0, 1, 14, 15, 16, 17, 31, 32, 100, 998, 999, 1000, 1001, 1023, 1024, 4095, 4096, 4097, 65536, 200000};
   size_t n = r.chance(1, 2) ? r.below(60) : r.chance(7, 8) ? sizes[r.below(17)] : sizes[r.below(20)];
   std::string s; s.reserve(n); unsigned k = unsigned(r.below(3));
   for(size_t i = 0; i < n; ++i) s += k == 0 ? char(r.below(256)) : k == 1 ? char(32 + r.below(95)) : (r.chance(1, 20) ? '\0' : r.chance(1, 10) ? '\n' : 'a');
   return s;
}
// ---------------------------------------------------------------- C01
static std::string word(Rng& r) { size_t n = r.chance(1, 12) ? r.below(5000) + 1 : 1 + r.below(30); std::string s; while(s.size() < n) { char c = char(r.chance(1, 3) ? r.below(256) : 33 + r.below(94)); if(c == ' ' || (c >= 9 && c <= 13)) continue; s += c; } return s; }
struct Oops: public std::exception { const char* what() const noexcept override { return "the source broke"; } };
// a buffer which breaks after some characters
struct Broken: public std::streambuf { std::string s; size_t at = 0; int how; Broken(const std::string& t, int h): s(t), how(h) {} int underflow() override { if(at < s.size()) { char* c = &s[at++]; setg(c, c, c + 1); return (unsigned char)*c; } if(how == 0) throw Oops(); if(how == 1) throw 42; return traits_type::eof(); } };
// sources which are not a word: nothing to compile, or a stream that fails, silently or throwing
static bool oddSource(Rng& r, Compiler& cc, std::unique_ptr<Code>& out, std::string& expect) {
   static const char* ws[] = {"", " ", "\n", "\t \r\n", "   "}; int kind = int(r.below(7)); std::string w = word(r), before = ws[r.below(5)];
   Broken b(before, int(r.below(3))); std::istringstream in(kind == 1 || kind == 4 ? w : before); std::istream broken(&b), none(nullptr);
   std::istream& s = kind == 2 || kind == 5 ? broken : kind == 6 ? none : in;
   bool throwing = kind >= 3 && kind < 6;
   if(kind == 1 || kind == 4) { s.setstate(std::ios::failbit); }
   if(throwing) { try { s.exceptions(r.chance(1, 2) ? std::ios::failbit | std::ios::badbit : std::ios::failbit | std::ios::badbit | std::ios::eofbit); } catch(std::ios_base::failure&) {} }
   vf::setContext(vf::context() + fmt("odd source of kind %d, buffer %d ", kind, b.how));
   std::string got = "nothing";
   try { out.reset(new Code(cc.compile(s))); }
   catch(std::ios_base::failure&) { got = "failure"; } catch(Oops&) { got = "oops"; } catch(int) { got = "int"; } catch(...) { got = "another exception"; }
   if(throwing) {
      std::string want = kind == 5 && b.how == 0 ? "oops" : kind == 5 && b.how == 1 ? "int" : "failure";
      if(got != want) vf::viol("C01:throwing-source", fmt("a stream that throws: '%s' reached the caller, '%s' expected", got.c_str(), want.c_str()));
      vf::stat("streams_that_throw"); out.reset(); return false;
   }
   if(got != "nothing") { vf::viol("C01:silent-source", fmt("'%s' reached the caller from a stream that throws nothing", got.c_str())); return false; }
   expect = ""; vf::stat("empty_sources"); return true;
}
static void history(Rng& r, long idx, bool keep) {
   struct Obj { std::unique_ptr<Code> c; std::string s; bool moved = false; };
   std::vector<Obj> v; uint64_t h = 1; std::string log; int ops = idx % 200 == 77 ? int(r.range(200, 600)) : int(r.range(5, 35)); Compiler old;
   for(int o = 0; o < ops && !vf::violated(); ++o) {
      size_t n = v.size(); int k = n ? int(r.below(13)) : 0; size_t a = n ? r.below(n) : 0, b = n ? r.below(n) : 0;
      static const char* names[] = {"new", "copy", "assign", "self-assign", "move", "move-assign", "destroy", "compile", "assign-temporary", "by-value", "default", "self-move-less-copy", "odd-source"};
      log += fmt("%s(%zu,%zu) ", names[k], a, b); if(log.size() > 1500) log.erase(0, log.size() - 1500);
      vf::setContext(fmt("C01 case %ld: ", idx) + log);
      switch(k) {
      case 0: { std::string s = anySource(r); v.emplace_back(); if(r.chance(1, 2)) v.back().c.reset(new Code(s, int(r.below(100)))); else { std::string t(s); v.back().c.reset(new Code(t)); t.assign(t.size(), '#'); } v.back().s = s; break; }
      case 1: { Obj x; x.c.reset(new Code(*v[a].c)); x.s = v[a].s; x.moved = v[a].moved; v.push_back(std::move(x)); vf::stat("copies"); break; }
      case 2: { *v[a].c = *v[b].c; std::string t = v[b].s; bool m = v[b].moved; v[a].s = t; v[a].moved = m; vf::stat("assignments"); break; }
      case 3: { Code& c = *v[a].c; c = *v[a].c; vf::stat("self_assignments"); break; }
      case 4: { Obj x; x.c.reset(new Code(std::move(*v[a].c))); x.s = v[a].s; x.moved = v[a].moved; v[a].moved = true; v.push_back(std::move(x)); vf::stat("moves"); break; }
      case 5: { if(a == b) break; *v[a].c = std::move(*v[b].c); v[a].s = v[b].s; v[a].moved = v[b].moved; v[b].moved = true; vf::stat("moves"); break; }
      case 6: { v.erase(v.begin() + a); break; }
      case 7: { static const char* ws[] = {"", " ", "\n", "\t \r\n", "   "}; std::string w = word(r); std::istringstream in(std::string(ws[r.below(5)]) + w + ws[r.below(5)]); Compiler cc; v.emplace_back(); v.back().c.reset(new Code((w.size() & 1 ? cc : old).compile(in))); v.back().s = w; vf::stat("compiled"); break; }
      case 8: { std::string s = anySource(r); *v[a].c = Code(s, 3); v[a].s = s; v[a].moved = false; vf::stat("assignments"); break; }
      case 9: { auto f = [](Code c) { return c.toString(); }; std::string t = f(*v[a].c); if(!v[a].moved && t != v[a].s) vf::viol("C01:render", "a copy passed by value renders something else"); break; }
      case 10: { v.emplace_back(); v.back().c.reset(new Code()); break; }
      case 11: { Code tmp(*v[a].c); Code two(std::move(tmp)); tmp = two; if(!v[a].moved && (tmp.toString() != v[a].s || two.toString() != v[a].s)) vf::viol("C01:render", "an object assigned after being moved from renders something else"); break; }
      case 12: { Obj x; Compiler cc; if(oddSource(r, r.chance(1, 2) ? cc : old, x.c, x.s)) v.push_back(std::move(x)); break; }
      }
      h = vf::mix(h, uint64_t(k) << 32 | a << 16 | b);
      for(size_t i = 0; i < v.size(); ++i) {
         std::string t = v[i].c->toString();
         if(!v[i].moved && t != v[i].s) { vf::viol("C01:render", fmt("object %zu renders %zu characters '%s' of a source of %zu '%s'", i, t.size(), esc(t, 60).c_str(), v[i].s.size(), esc(v[i].s, 60).c_str())); break; }
         vf::stat(v[i].moved ? "moved_rendered" : "rendered");
      }
   }
   if(!keep) { vf::stat("evaluations"); vf::stat("operations", ops); if(v.size() > 1) { uint64_t x = h; for(auto& q: v) x = vf::mix(x, q.s.size()); vf::distinct(x); } if(idx < 2) vf::sample(log); }
}
static void runC01(long cases, uint64_t seed) {
   for(long i = 0; i < cases && !vf::violated(); ++i) {
      vf::tick();
      { Rng r(seed * 1000003 + i); history(r, i, false); }
#ifdef VF_COUNT_ALLOC
      vf::setContext(std::string(3000, ' ')); long long before = live();
      { Rng r(seed * 1000003 + i); history(r, i, true); }
      vf::setContext(std::string(3000, ' '));
      if(live() != before && !vf::violated()) vf::viol("C01:leak", fmt("case %ld: %lld bytes left by a history of code objects", i, live() - before));
      vf::stat("leak_checks");
#endif
   }
}

// ---------------------------------------------------------------- D01
// A source that records what is asked of it; the iterators on it are of every category.
struct Source {
   std::vector<int> v; std::vector<int> reads; long pos = 0, steps = 0; bool beyond = false;
   int read(long p) { reads.push_back(int(p)); if(p < 0 || p >= long(v.size())) { beyond = true; return -1; } return v[size_t(p)]; }
};
struct InputIt {
   using iterator_category = std::input_iterator_tag; using value_type = int; using difference_type = ptrdiff_t; using pointer = const int*; using reference = int;
   Source* s;
   int operator*() const { return s->read(s->pos); }
   InputIt& operator++() { ++s->steps; ++s->pos; return *this; }
   void operator++(int) { ++*this; }
   bool operator==(const InputIt& o) const { return s == o.s; } bool operator!=(const InputIt& o) const { return s != o.s; }
};
template<typename Tag> struct MultiIt {
   using iterator_category = Tag; using value_type = int; using difference_type = ptrdiff_t; using pointer = const int*; using reference = int;
   Source* s; long p = 0;
   int operator*() const { return s->read(p); }
   MultiIt& operator++() { ++s->steps; ++p; return *this; }
   MultiIt operator++(int) { MultiIt c(*this); ++*this; return c; }
   MultiIt& operator--() { --s->steps; --p; return *this; }
   MultiIt operator--(int) { MultiIt c(*this); --*this; return c; }
   MultiIt operator+(ptrdiff_t n) const { MultiIt c(*this); c.p += n; s->steps += n; return c; }
   MultiIt& operator+=(ptrdiff_t n) { p += n; s->steps += n; return *this; }
   MultiIt operator-(ptrdiff_t n) const { return *this + (-n); }
   ptrdiff_t operator-(const MultiIt& o) const { return p - o.p; }
   int operator[](ptrdiff_t n) const { return s->read(p + n); }
   bool operator==(const MultiIt& o) const { return p == o.p; } bool operator!=(const MultiIt& o) const { return p != o.p; } bool operator<(const MultiIt& o) const { return p < o.p; }
};
// A target that counts its assignments and knows when they came.
struct Target { static int clock; int value = -7; int assigned = 0; int at = -1; Target& operator=(int v) { value = v; ++assigned; at = clock++; return *this; } };
int Target::clock = 0;

template<typename It, size_t... K> static void spreadOn(It&& it, std::vector<Target>& t, std::index_sequence<K...>) { distribute(std::forward<It>(it), t[K]...); }
template<typename It> static void spread(It&& it, std::vector<Target>& t) {
   switch(t.size()) {
#define N(n) case n: spreadOn(std::forward<It>(it), t, std::make_index_sequence<n>()); break;
   N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8) N(9) N(12) N(16) N(17) N(33) N(70)
#undef N
   default: vf::viol("monitor", "no such arity");
   }
}
static size_t arity(Rng& r) { static const size_t n[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 70}; return n[r.below(14)]; }
static void verify(const char* what, const Source& s, long from, const std::vector<Target>& t) {
   size_t n = t.size();
   for(size_t i = 0; i < n; ++i) {
      if(t[i].assigned != 1) vf::viol(fmt("D01:%s:times", what), fmt("target %zu of %zu assigned %d times", i, n, t[i].assigned));
      else if(t[i].value != s.v[from + i]) vf::viol(fmt("D01:%s:value", what), fmt("target %zu of %zu got %d, %d expected", i, n, t[i].value, s.v[from + i]));
   }
   if(s.reads.size() != n) vf::viol(fmt("D01:%s:reads", what), fmt("%zu elements read for %zu targets", s.reads.size(), n));
   for(size_t i = 0; i < s.reads.size() && i < n; ++i) if(s.reads[i] != from + long(i)) { vf::viol(fmt("D01:%s:order", what), fmt("read number %zu was of element %d", i, s.reads[i] - int(from))); break; }
   if(s.steps > long(n) - 1) vf::viol(fmt("D01:%s:beyond", what), fmt("%ld steps for %zu targets", s.steps, n));
   if(s.beyond) vf::viol(fmt("D01:%s:beyond", what), "read beyond the elements");
}
template<typename C> static void container(const char* what, Rng& r) {
   size_t n = arity(r), extra = r.below(3), skip = r.below(3); C c; std::vector<int> v;
   for(size_t i = 0; i < skip + n + extra; ++i) { int x = int(r.next() & 0xffff) * 64 + int(i); c.insert(c.end(), x); }
   for(auto x: c) v.push_back(int(x));
   auto it = c.begin(); std::advance(it, long(skip)); std::vector<Target> t(n);
   if(r.chance(1, 2)) spread(it, t); else spread(std::move(it), t);
   for(size_t i = 0; i < n; ++i) if(t[i].assigned != 1 || t[i].value != v[skip + i]) { vf::viol(fmt("D01:%s", what), fmt("target %zu of %zu is %d", i, n, t[i].value)); break; }
   size_t k = 0; for(auto x: c) if(int(x) != v[k++]) vf::viol(fmt("D01:%s:changed", what), "the source was changed");
   vf::stat("container_distributions");
}
static void runD01(long cases, uint64_t seed) {
   for(long i = 0; i < cases && !vf::violated(); ++i) {
      Rng r(seed * 1000003 + i); vf::tick();
      size_t n = arity(r); Source s; long from = long(r.below(4)); size_t total = size_t(from) + n + (r.chance(1, 2) ? 0 : r.below(4)); for(size_t k = 0; k < total; ++k) s.v.push_back(int(r.next() & 0x7fffffff));
      std::vector<Target> t(n); int kind = int(r.below(11)); bool lvalue = r.chance(1, 2);
      vf::setContext(fmt("D01 case %ld kind=%d targets=%zu from=%ld lvalue=%d", i, kind, n, from, lvalue));
      switch(kind) {
      case 0: { s.pos = from; InputIt it{&s}; if(lvalue) { spread(it, t); } else spread(InputIt{&s}, t); verify("input", s, from, t); if(s.pos > from + long(n) - 1) vf::viol("D01:input:beyond", "stepped beyond the last element"); break; }
      case 1: { MultiIt<std::forward_iterator_tag> it{&s, from}; if(lvalue) spread(it, t); else spread(std::move(it), t); verify("forward", s, from, t); break; }
      case 2: { MultiIt<std::bidirectional_iterator_tag> it{&s, from}; if(lvalue) spread(it, t); else spread(std::move(it), t); verify("bidirectional", s, from, t); break; }
      case 3: { MultiIt<std::random_access_iterator_tag> it{&s, from}; if(lvalue) spread(it, t); else spread(std::move(it), t); verify("random", s, from, t); break; }
      case 4: { // exactly as many elements as targets, in storage of that size
         std::unique_ptr<int[]> a(new int[n]); for(size_t k = 0; k < n; ++k) a[k] = s.v[k]; const int* p = a.get(); if(lvalue) spread(p, t); else spread((const int*)a.get(), t);
         for(size_t k = 0; k < n; ++k) if(t[k].value != s.v[k] || t[k].assigned != 1) { vf::viol("D01:pointer", fmt("target %zu of %zu is %d", k, n, t[k].value)); break; } break; }
      case 5: container<std::list<int>>("list", r); break;
      case 6: container<std::set<int>>("set", r); break;
      case 7: container<std::deque<long>>("deque", r); break;
      case 8: { std::string text; for(size_t k = 0; k < n; ++k) text += std::to_string(s.v[k]) + " "; std::istringstream in(text + "rest"); std::istream_iterator<int> it(in); if(lvalue) spread(it, t); else spread(std::istream_iterator<int>(std::move(it)), t);
         for(size_t k = 0; k < n; ++k) if(t[k].value != s.v[k] || t[k].assigned != 1) { vf::viol("D01:stream", fmt("target %zu of %zu is %d", k, n, t[k].value)); break; }
         in.clear(); std::string rest; in >> rest; if(rest != "rest") vf::viol("D01:stream:beyond", "more was taken from the stream: '" + esc(rest) + "' left"); break; }
      case 9: { PagedStack<int> st(1 + r.below(4), 1); for(size_t k = 0; k < total; ++k) st.push(s.v[k]); auto it = st.rbegin(); for(long k = 0; k < from; ++k) ++it; if(lvalue) spread(it, t); else spread(std::move(it), t);
         for(size_t k = 0; k < n; ++k) if(t[k].value != s.v[from + k] || t[k].assigned != 1) { vf::viol("D01:stack", fmt("target %zu of %zu is %d", k, n, t[k].value)); break; } break; }
      case 10: { // targets of different types
         std::vector<int> v; for(int k = 0; k < 6; ++k) v.push_back(int(r.below(100))); long a = -1; double b = -1; unsigned char c = 1; long long d = 0; bool e = false; std::atomic<int> f{0};
         distribute(v.begin(), a, b, c, d, e, f); if(a != v[0] || b != v[1] || c != v[2] || d != v[3] || e != (v[4] != 0) || f != v[5]) vf::viol("D01:types", "a target of another type got another value");
         std::vector<const char*> w = {"one", "two and some more text to allocate", "three"}; std::string x, y, z; distribute(w.begin(), x, y, z); if(x != w[0] || y != w[1] || z != w[2]) vf::viol("D01:types", "a string target got another value");
         std::vector<std::string> src = {"a text long enough to be allocated", "another text long enough to be allocated"}; auto it = src.begin(); distribute(it, x, y); if(x != src[0] || y != src[1] || src[0].empty()) vf::viol("D01:types", "a string was not copied");
         std::map<int, std::string> m = {{1, "one"}, {2, "two"}}; std::pair<int, std::string> p1, p2; distribute(m.begin(), p1, p2); if(p1.second != "one" || p2.first != 2) vf::viol("D01:types", "a pair target got another value");
         break; }
      }
      vf::stat("evaluations"); vf::stat("targets_assigned", (long long)n); vf::stat("elements_read", (long long)s.reads.size()); vf::distinct(vf::mix(vf::mix(uint64_t(kind) * 64 + n, from * 2 + lvalue), total));
      if(i < 3) vf::sample(vf::context() + fmt(": %zu reads, %ld steps", s.reads.size(), s.steps));
   }
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   std::string mode = vf::options().str("mode"); long cases = vf::options().get("cases", 50); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog(mode.c_str(), 60);
   if(mode == "C01") runC01(cases, seed);
   else if(mode == "D01") runD01(cases, seed);
   return vf::finish();
}
