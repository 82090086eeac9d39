// Monitors of I01-I03: items and handlers.
#include "h_item_model.h"

// ---------------------------------------------------------------- I01
template<typename T> static void refuse(const char* name, T v) {
   bool refused = false;
   try { Item it(v); } catch(const std::invalid_argument&) { refused = true; } catch(...) { vf::viol(fmt("I01:refuse:%s", name), "refused with another error"); return; }
   if(!refused) vf::viol(fmt("I01:refuse:%s", name), "an item was built from a type that is not one of an item");
   vf::stat("refused");
}
struct Odd { std::string s = "a text long enough to be allocated on the heap"; };
enum Enum { ONE = 1 };
enum class Scoped { ONE = 1 };
static long long live() {
#ifdef VF_COUNT_ALLOC
   return vf::liveBytes.load();
#else
   return 0;
#endif
}
template<typename T> static void refuseGet(const char* name) {
   Item items[] = {Item(), Item(true), Item(int64(7)), Item(1.5), Item(std::string("a text long enough to be allocated on the heap")), Item(BigNum(7))};
   for(auto& it: items) {
      std::string was = it.toString(); bool refused = false;
      try { T got = it.get<T>(); (void)got; } catch(const std::invalid_argument&) { refused = true; } catch(...) { vf::viol(fmt("I01:get-refuse:%s", name), "refused with another error"); return; }
      if(!refused) vf::viol(fmt("I01:get-refuse:%s", name), "a value was returned of a type that is not one of an item");
      if(it.toString() != was) vf::viol(fmt("I01:get-refuse:%s", name), "the refused getter changed the item");
      vf::stat("getters_refused");
   }
}
static void refuseAll() {
   long long before = live();
   for(int i = 0; i < 20; ++i) {
      char buf[] = "abc"; int x = 3;
      refuse("short", short(1)); refuse("ushort", (unsigned short)1); refuse("long", 1L); refuse("ulong", 1UL); refuse("float", 1.0f); refuse("longdouble", 1.0L);
      refuse("schar", (signed char)1); refuse("wchar", L'a'); refuse("char*", &buf[0]); refuse("int*", &x); refuse("void*", (void*)&x); refuse("nullptr", nullptr);
      refuse("string_view", std::string_view("abc")); refuse("vector", std::vector<int>{1, 2, 3}); refuse("struct", Odd()); refuse("enum", ONE); refuse("scoped", Scoped::ONE);
      refuse("wstring", std::wstring(L"a wide text long enough to be allocated")); refuse("pair", std::make_pair(std::string("a text long enough to be allocated"), 1)); refuse("shared", std::make_shared<Odd>());
      refuseGet<Odd>("struct"); refuseGet<std::vector<int>>("vector"); refuseGet<std::wstring>("wstring"); refuseGet<void*>("void*"); refuseGet<Scoped>("scoped");
      if(i == 0) before = live();
   }
   if(live() != before) vf::viol("I01:refuse:leak", fmt("%lld bytes left by refused constructions", live() - before));
}
// the locale of a program that speaks to people
struct Punct: public std::numpunct<char> {
   char do_decimal_point() const override { return ','; }
   char do_thousands_sep() const override { return '.'; }
   std::string do_grouping() const override { return "\3"; }
   std::string do_truename() const override { return "wahr"; }
   std::string do_falsename() const override { return "falsch"; }
};
struct Abroad {
   std::locale was; bool on;
   explicit Abroad(bool o): on(o) { if(on) { was = std::locale::global(std::locale(std::locale::classic(), new Punct)); vf::stat("items_under_locale"); } }
   ~Abroad() { if(on) std::locale::global(was); }
};

static void runI01(long cases, uint64_t seed) {
   refuseAll(); vf::stat("evaluations");
   for(long i = 0; i < cases && !vf::violated(); ++i) {
      Rng r(seed * 1000003 + i); Val v = anyVal(r, true);
      if(v.k == K_DBL && std::isnan(v.d)) v.d = 2.5;
      vf::setContext(fmt("I01 case %ld ", i) + v.show());
      Abroad abroad(i % 3 == 1);
      Item it = build(v);
      for(int q = 0; q < 2; ++q) { checkGet("I01", it, v); checkInt("I01", it, v); checkRest("I01", it, v, true); }
      vf::tick(); vf::stat("evaluations"); vf::stat((std::string("items_") + KN[v.k]).c_str()); vf::distinct(hashVal(v));
      if(i < 3) vf::sample(v.show() + " -> '" + it.toString() + "', " + str(int64_t(it.toInt())));
   }
}

// ---------------------------------------------------------------- I02
static void checkAll(const std::vector<Item>& items, const std::vector<Val>& vals, size_t i) { checkGet("I02", items[i], vals[i]); checkRest("I02", items[i], vals[i], false); }
static void history(Rng& r, long idx) {
   std::vector<Item> items; std::vector<Val> vals; uint64_t h = 1; int ops = idx % 150 == 42 ? int(r.range(150, 400)) : int(r.range(5, 40)); std::string log;
   for(int o = 0; o < ops && !vf::violated(); ++o) {
      size_t n = items.size(); int k = n ? int(r.below(12)) : 0; size_t a = n ? r.below(n) : 0, b = n ? r.below(n) : 0;
      static const char* names[] = {"add", "copy", "assign", "self-assign", "assign-temporary", "move", "move-assign", "swap", "erase", "change", "chain", "allocated"};
      log += fmt("%s(%zu,%zu) ", names[k], a, b); if(log.size() > 1500) log.erase(0, log.size() - 1500);
      vf::setContext(fmt("I02 case %ld: ", idx) + log);
      switch(k) {
      case 0: { Val v = anyVal(r, false); items.push_back(build(v)); vals.push_back(v); break; }
      case 1: { Item c(items[a]); checkGet("I02", c, vals[a]); items.push_back(c); vals.push_back(Val(vals[a])); vf::stat("copies", 2); break; }
      case 2: { items[a] = items[b]; Val t = vals[b]; vals[a] = t; vf::stat("assignments"); break; }
      case 3: { Item& x = items[a]; items[a] = x; vf::stat("self_assignments"); break; }
      case 4: { Val v = anyVal(r, false); items[a] = build(v); vals[a] = v; vf::stat("assignments"); break; }
      case 5: { Item m(std::move(items[a])); checkGet("I02", m, vals[a]); items[a] = m; break; }
      case 6: { Val t = vals[b]; Item m(items[b]); items[a] = std::move(m); vals[a] = t; break; }
      case 7: { std::swap(items[a], items[b]); std::swap(vals[a], vals[b]); break; }
      case 8: { items.erase(items.begin() + a); vals.erase(vals.begin() + a); break; }
      case 9: {   // change the value in place, through the data
         Val& v = vals[a];
         if(v.k == K_STR || v.k == K_CSTR) { std::string more = anyString(r); static_cast<String*>(items[a].data.ptrValue)->append(more); v.s += more; v.k = K_STR; }
         else if(v.k == K_I64) { items[a].data.int64Value ^= 5; v.i ^= 5; }
         else if(v.k == K_BIG) { v.dec = anyDec(r, 30, 20); v.big = BigNum(v.dec.text()); *static_cast<BigNum*>(items[a].data.ptrValue) = v.big; }
         else if(v.k == K_DBL) { v.d = anyDouble(r); items[a].data.numericValue = v.d; }
         vf::stat("changes"); break;
      }
      case 10: { size_t c = r.below(n); Val t = vals[c]; items[a] = items[b] = items[c]; vals[a] = t; vals[b] = t; break; }
      case 11: {   // an item made of what a handler allocated
         Item it; Val v; Handler* hd = nullptr;
         switch(r.below(6)) { case 0: hd = &HandlerFactory::nilHandler; break; case 1: hd = &HandlerFactory::boolHandler; v.k = K_BOOL; break; case 2: hd = &HandlerFactory::intHandler; v.k = K_I64; break; case 3: hd = &HandlerFactory::floatHandler; v.k = K_DBL; break; case 4: hd = &HandlerFactory::stringHandler; v.k = K_STR; break; default: hd = &HandlerFactory::bigNumHandler; v.k = K_BIG; v.dec.digits = "0"; }
         it.data = hd->allocate(); it.handler = hd; items.push_back(it); vals.push_back(v); vf::stat("allocated_items"); break;
      }
      }
      h = vf::mix(h, uint64_t(k) << 32 | a << 16 | b);
      for(size_t i = 0; i < items.size(); ++i) checkAll(items, vals, i);
   }
   vf::stat("operations", ops); vf::stat("evaluations"); if(items.size() > 1) vf::distinct(vf::mix(h, vals.size() ? hashVal(vals[0]) : 0));
   if(idx < 2) vf::sample(log);
}
static void handlers(Rng& r) {
   struct { Handler* h; const char* type; const char* text; } all[] = {
      {&HandlerFactory::nilHandler, "Nil", "nil"}, {&HandlerFactory::boolHandler, "Bool", "false"}, {&HandlerFactory::intHandler, "Int", "0"},
      {&HandlerFactory::floatHandler, "Float", "0"}, {&HandlerFactory::stringHandler, "String", ""}, {&HandlerFactory::bigNumHandler, "BigNum", "0"}};
   struct Held { Handler* h; ItemData d; const char* type; std::string text; };
   std::vector<Held> held;
   auto same = [](const Held& x) { if(x.h->toString(x.d) != x.text) vf::viol(fmt("I02:allocated:%s", x.type), fmt("an allocated value became '%s', it was '%s'", esc(x.h->toString(x.d)).c_str(), esc(x.text).c_str())); };
   for(int i = 0; i < 30; ++i) {
      auto& x = all[r.below(6)]; ItemData d = x.h->allocate();
      if(x.h->typeName() != x.type) vf::viol(fmt("I02:handler:%s", x.type), "type name " + x.h->typeName());
      bool flat = strcmp(x.type, "String") && strcmp(x.type, "BigNum");
      if(x.h->isFlat() != flat) vf::viol(fmt("I02:flat:%s", x.type), x.h->isFlat() ? "values with storage of their own are told to be flat" : "values without storage are told not to be flat");
      if(x.h->toString(d) != x.text) vf::viol(fmt("I02:default:%s", x.type), "default value rendered '" + esc(x.h->toString(d)) + "'");
      if(x.h->toInt(d) != 0 || x.h->toBool(d)) vf::viol(fmt("I02:default:%s", x.type), "default value neither zero nor false");
      held.push_back({x.h, d, x.type, x.text}); vf::stat("allocations");
      if(!flat && r.chance(1, 2)) {   // what's allocated is the caller's, to be written
         Held& w = held[r.below(held.size())]; std::string digits = std::to_string(r.below(100000));
         if(w.h == &HandlerFactory::stringHandler) { *static_cast<String*>(w.d.ptrValue) = "a text long enough to be allocated, number " + digits; w.text = "a text long enough to be allocated, number " + digits; vf::stat("allocated_writes"); }
         else if(w.h == &HandlerFactory::bigNumHandler) { *static_cast<BigNum*>(w.d.ptrValue) = BigNum(digits); w.text = digits; vf::stat("allocated_writes"); }
         for(auto& y: held) same(y);
      }
      if(r.chance(1, 6)) {   // a clone is another value
         size_t k = r.below(held.size()); Held c = held[k]; c.d = c.h->clone(held[k].d);
         if(c.h == &HandlerFactory::stringHandler) { static_cast<String*>(c.d.ptrValue)->append("!"); c.text += "!"; }
         same(held[k]); same(c); held.push_back(c); vf::stat("clones");
      }
      if(r.chance(1, 2)) { size_t k = r.below(held.size()); same(held[k]); held[k].h->destroy(held[k].d); held.erase(held.begin() + k); }
   }
   for(auto& x: held) { same(x); x.h->destroy(x.d); }
}
static void runI02(long cases, uint64_t seed) {
   for(long i = 0; i < cases && !vf::violated(); ++i) {
      long long before = 0;
      for(int rep = 0; rep < 2; ++rep) {      // twice: what the monitor itself keeps is there after the first
         Rng r(seed * 1000003 + i);
         before = live();
         history(r, i); vf::setContext("I02 handlers"); handlers(r); vf::setContext(std::string(3000, ' '));
         vf::tick();
      }
#ifdef VF_COUNT_ALLOC
      // the second time the counters of the monitor have all their entries
      if(live() != before && !vf::violated()) {
         // a set of the monitor may have grown: repeat until stable
         Rng r(seed * 1000003 + i); long long b2 = live(); history(r, i); handlers(r); vf::setContext(std::string(3000, ' '));
         if(live() != b2) vf::viol("I02:leak", fmt("%lld bytes left by a history of items", live() - b2));
      }
      vf::stat("leak_checks");
#endif
   }
}

// ---------------------------------------------------------------- I03
static void runI03(long cases, uint64_t seed) {
   for(long i = 0; i < cases && !vf::violated(); ++i) {
      Rng r(seed * 1000003 + i); Val v = anyVal(r, false);
      if(v.k == K_NIL || v.k == K_BOOL) { v = Val(); v.k = K_STR; v.s = anyString(r); }
      if(v.k == K_DBL && r.chance(1, 2)) { static const double e[] = {NAN, -NAN, HUGE_VAL, -HUGE_VAL, 1e300, -1e300, 9223372036854775808.0, -9223372036854777856.0}; v.d = e[r.below(8)]; }
      if(v.k == K_STR && r.chance(1, 40)) { v.s.assign(1 << 20, char('0' + r.below(10))); if(r.chance(1, 2)) v.s[r.below(1000)] = 'x'; }
      if(v.k == K_BIG && r.chance(1, 4)) { v.dec = Dec(); v.dec.neg = r.chance(1, 2); v.dec.digits = std::to_string(uint64_t(INT64_MAX) - 2 + r.below(6)); v.dec.exp = int(v.dec.digits.size()) + int(r.range(0, 1) * r.below(3)); if(r.chance(1, 2)) v.dec.digits += std::to_string(r.below(1000000)); v.big = BigNum(v.dec.text()); }
      vf::setContext(fmt("I03 case %ld ", i) + v.show());
      { Item it = build(v); checkInt("I03", it, v); (void)it.toBool(); String t = it.toString(); vf::stat("conversions", 2); if((v.k == K_STR || v.k == K_CSTR) && t.size() != v.s.size()) vf::viol("I03:text", "the text of a string is another one");
        const Item c(it); if(c.toInt() != it.toInt()) vf::viol("I03:repeat", "two conversions of the same item differ"); }
      if(i % 64 == 0) {   // whatever isn't a finite number
         BigNum odd[] = {BigNum(std::numeric_limits<double>::quiet_NaN()), BigNum(std::numeric_limits<double>::infinity()), BigNum(-std::numeric_limits<double>::infinity()), BigNum("1e30000"), BigNum("-1e-30000")};
         int64_t want[] = {0, INT64_MAX, INT64_MIN, INT64_MAX, 0};
         for(int q = 0; q < 5; ++q) { Item it(odd[q]); int64_t g = it.toInt(); (void)it.toBool(); (void)it.toString(); if(q && g != want[q]) vf::viol("I03:toInt:bignum", fmt("special value %d converted to %lld", q, (long long)g)); vf::stat("special_values"); }
      }
      vf::tick(); vf::stat("evaluations"); vf::stat((std::string("items_") + KN[v.k]).c_str()); vf::distinct(hashVal(v));
      if(i < 3) vf::sample(v.show());
   }
}

// ---------------------------------------------------------------- I04
#ifdef VF_VALUES
#include <falcon/engine/code.h>
#include <falcon/engine/compiler.h>
static void runI04(long cases, uint64_t seed) {
   for(long i = 0; i < cases && !vf::violated(); ++i) {
      Rng r(seed * 1000003 + i); int T = int(r.range(2, 5)), n = int(r.range(20, 80));
      if(i % 40 == 19) { T = int(r.range(10, 30)); n = int(r.range(5, 20)); vf::stat("crowds"); }
      vf::setContext(fmt("I04 case %ld threads=%d", i, T));
      std::vector<Val> sv; std::vector<Item> si; std::vector<std::string> cs; std::vector<Code> cc;
      for(int q = 0; q < 8; ++q) { sv.push_back(anyVal(r, true)); si.push_back(build(sv.back())); cs.push_back(anyString(r)); cc.push_back(Code(cs.back())); }
      std::vector<std::vector<Val>> own(T); for(auto& v: own) for(int q = 0; q < n; ++q) v.push_back(anyVal(r, true));
      std::vector<uint64_t> seeds; for(int t = 0; t < T; ++t) seeds.push_back(r.next());
      std::atomic<int> start{0}; std::vector<std::thread> th; std::atomic<long> ops{0};
      for(int t = 0; t < T; ++t) th.emplace_back([&, t] {
         Rng rr(seeds[t]); std::vector<Item> kept; std::vector<Val> keptV; long done = 0;
         // what is checked here is compared without the counters of the monitor, not to order the threads
         auto check = [&](const Item& it, const Val& v, const char* what) {
            std::string text = it.toString(); int64_t num = it.toInt(); bool truth = it.toBool(); std::string tn = it.handler->typeName();
            Item again(build(v)); ++done;
            if(text != again.toString() || num != again.toInt() || truth != again.toBool() || tn != again.handler->typeName()) { vf::viol(fmt("I04:%s:%s", what, KN[v.k]), "converted to '" + esc(text, 80) + "' " + str(num) + " from " + v.show()); return; }
            bool ok = true;
            switch(v.k) { case K_CSTR: case K_STR: ok = text == v.s && num == leading(v.s); break; case K_BOOL: ok = text == (v.b ? "true" : "false"); break; case K_DBL: ok = text == str(v.d) && num == clampDouble(v.d); break; case K_NIL: ok = text == "nil"; break; case K_BIG: ok = num == v.dec.integer(); break; case K_U64: break; default: ok = num == v.i && text == str(v.i); }
            if(!ok) vf::viol(fmt("I04:%s:%s", what, KN[v.k]), "converted to '" + esc(text, 80) + "' " + str(num) + " from " + v.show());
         };
         start.fetch_add(1, std::memory_order_relaxed); while(start.load(std::memory_order_relaxed) < T) std::this_thread::yield();
         for(int q = 0; q < n; ++q) {
            switch(rr.below(7)) {
            case 0: case 1: { kept.push_back(build(own[t][q])); keptV.push_back(own[t][q]); check(kept.back(), keptV.back(), "own"); break; }
            case 2: { size_t k = rr.below(si.size()); check(si[k], sv[k], "shared"); break; }
            case 3: { size_t k = rr.below(si.size()); Item c(si[k]); check(c, sv[k], "copied"); if(!kept.empty()) { kept[0] = c; keptV[0] = sv[k]; } break; }
            case 4: { size_t k = rr.below(cc.size()); Code c(cc[k]); if(c.toString() != cs[k] || cc[k].toString() != cs[k]) vf::viol("I04:code", "a shared code object renders something else"); ++done; break; }
            case 5: { std::string w; for(int x = 0; x < 20; ++x) w += char('a' + rr.below(26)); std::istringstream in(w); Compiler comp; Code c(comp.compile(in)); if(c.toString() != w) vf::viol("I04:code", "compiled code renders '" + esc(c.toString()) + "' instead of '" + w + "'"); ++done; break; }
            case 6: { Handler* hs[] = {&HandlerFactory::nilHandler, &HandlerFactory::boolHandler, &HandlerFactory::intHandler, &HandlerFactory::floatHandler, &HandlerFactory::stringHandler, &HandlerFactory::bigNumHandler}; Handler* h = hs[rr.below(6)]; ItemData a = h->allocate(), b = h->allocate(); if(h->toBool(a) || h->toInt(b)) vf::viol("I04:handler", "a default value is not zero"); h->destroy(a); h->destroy(b); ++done; break; }
            }
            if(!kept.empty() && rr.chance(1, 4)) { size_t k = rr.below(kept.size()); check(kept[k], keptV[k], "own"); }
         }
         for(size_t k = 0; k < kept.size(); ++k) check(kept[k], keptV[k], "own");
         ops.fetch_add(done, std::memory_order_relaxed);
      });
      for(auto& t: th) t.join();
      vf::tick(); vf::stat("evaluations"); vf::stat("concurrent_operations", ops.load()); vf::distinct(vf::mix(seeds[0], T));
      if(i < 2) vf::sample(fmt("%d threads, %ld operations on own and shared objects", T, ops.load()));
   }
}
#else
static void runI04(long, uint64_t) {}
#endif

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   std::string mode = vf::options().str("mode"); long cases = vf::options().get("cases", 50); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog(mode.c_str(), 60);
   if(mode == "I01") runI01(cases, seed);
   else if(mode == "I02") runI02(cases, seed);
   else if(mode == "I03") runI03(cases, seed);
   else if(mode == "I04") runI04(cases, seed);
   return vf::finish();
}
