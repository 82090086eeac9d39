// The model of an item: values of every kind, and what an item built from one must tell of itself.
#ifndef VF_ITEM_MODEL_H
#define VF_ITEM_MODEL_H
#include "common.h"
#include <falcon/engine/item.h>
#include <cmath>
#include <climits>
#include <limits>
#include <stdexcept>
#include <string_view>
#include <type_traits>

using namespace falcon;
using vf::Rng; using vf::fmt; using vf::esc;

static std::string str(int64_t v) { char b[40]; snprintf(b, sizeof b, "%lld", (long long)v); return b; }
static std::string str(double v) { char b[400]; snprintf(b, sizeof b, "%g", v); return b; }
// the leading decimal number of a text, as the nearest 64 bit integer
static int64_t leading(const std::string& s) {
   size_t i = 0; while(i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i;
   bool neg = false; if(i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; }
   __int128 v = 0; for(; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { v = v * 10 + (s[i] - '0'); if(v > (__int128(1) << 100)) v = __int128(1) << 100; }
   if(neg) v = -v;
   if(v > INT64_MAX) return INT64_MAX; if(v < INT64_MIN) return INT64_MIN;
   return int64_t(v);
}
// a decimal number: digits and the place of the point
struct Dec {
   bool neg = false; std::string digits; int exp = 0;      // 0.DIGITS * 10^exp
   std::string text() const { return std::string(neg ? "-" : "") + "0." + (digits.empty() ? "0" : digits) + "e" + std::to_string(exp); }
   bool zero() const { return digits.find_first_not_of('0') == std::string::npos; }
   int64_t integer() const {
      __int128 v = 0; if(zero()) return 0;
      for(int i = 0; i < exp; ++i) { v = v * 10 + (size_t(i) < digits.size() ? digits[i] - '0' : 0); if(v > (__int128(1) << 100)) { v = __int128(1) << 100; } }
      if(neg) v = -v;
      if(v > INT64_MAX) return INT64_MAX; if(v < INT64_MIN) return INT64_MIN;
      return int64_t(v);
   }
   // rounding to six digits is not a matter of taste
   bool clearCut() const { std::string d = digits; size_t z = d.find_first_not_of('0'); if(z == std::string::npos) return true; d = d.substr(z); if(d.size() <= 6) return true; std::string rest = d.substr(6); return !(rest[0] == '5' && rest.find_first_not_of('0', 1) == std::string::npos); }
};
static Dec anyDec(Rng& r, int maxDigits, int maxExp) {
   Dec d; d.neg = r.chance(1, 2); int n = int(r.range(1, maxDigits)); for(int i = 0; i < n; ++i) d.digits += char('0' + r.below(10));
   if(r.chance(1, 12)) d.digits = "0"; else if(r.chance(1, 12)) d.digits = std::string(n, '9');
   d.exp = int(r.range(-maxExp, maxExp)); if(r.chance(1, 2)) d.exp = int(r.range(0, 19));
   if(d.zero()) d.neg = false;
   return d;
}
static int64_t anyInt(Rng& r) {
   static const int64_t e[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, INT32_MIN, int64_t(INT32_MAX) + 1, int64_t(INT32_MIN) - 1, UINT32_MAX, int64_t(UINT32_MAX) + 1, 127, 128, -128, -129, 255, 256, 32767, 65536, 1000000, 9007199254740993};
   if(r.chance(1, 2)) return e[r.below(sizeof e / sizeof *e)];
   int64_t v = int64_t(r.next()); return v >> r.below(64);
}
static double anyDouble(Rng& r) {
   static const double e[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.999999999, 1e6, 999999.5, 123456.5, 1e-5, 1e15, 1e16, 9.2e18, -9.2e18, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0, 9223372036854777856.0, 1e19, -1e19, 1.8446744073709552e19, 1e300, -1e300, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, NAN};
   switch(r.below(4)) {
   case 0: return e[r.below(sizeof e / sizeof *e)];
   case 1: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return std::isnan(d) ? 1.25 : d; }
   case 2: return double(anyInt(r)) + double(r.below(1000)) / 1000;
   default: return std::ldexp(double(int64_t(r.next()) >> 11), int(r.range(-70, 15)));
   }
}
static std::string anyString(Rng& r) {
   std::string s;
   switch(r.below(8)) {
   case 0: return s;
   case 1: { size_t n = r.below(2000); for(size_t i = 0; i < n; ++i) s += char(r.below(256)); return s; }
   case 2: { static const char* ws[] = {"", " ", "\t", "\n\r\v\f ", "  "}; static const char* sg[] = {"", "", "-", "+", "--", "+-", "- "}; s = ws[r.below(5)]; s += sg[r.below(7)]; size_t n = r.below(24); for(size_t i = 0; i < n; ++i) s += char('0' + r.below(10)); static const char* tl[] = {"", "", " ", "abc", ".5", "e5", "x10", ",3", "_1"}; s += tl[r.below(9)]; return s; }
   case 3: s = str(anyInt(r)); if(r.chance(1, 3)) s += " apples"; if(r.chance(1, 6)) s = " " + s; return s;
   case 4: { static const char* e[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-99999999999999999999999999", "0x10", "010", "-0", "+0", "1e3", "true", "nil", "inf", "nan", ".5", "-.5", "+", "-", " ", "00000000000000000000000000000012"}; return e[r.below(sizeof e / sizeof *e)]; }
   case 5: { s = r.chance(1, 2) ? "12" : ""; s += '\0'; s += "34"; return s; }
   case 6: { if(r.chance(1, 2)) s.assign(r.below(64), 'a'); else { static const size_t e[] = {15, 16, 22, 23, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000}; size_t n = e[r.below(r.chance(1, 8) ? 28 : 22)]; char c = r.chance(1, 3) ? char('0' + r.below(10)) : char(r.below(256)); s.assign(n, c); if(n > 2) { s[n - 1] = char(r.below(256)); s[n / 2] = char(r.below(256)); } } return s; }
   default: { size_t n = 1 + r.below(40); for(size_t i = 0; i < n; ++i) s += char(32 + r.below(95)); return s; }
   }
}

// ---------------------------------------------------------------- the model of an item
enum KIND { K_NIL, K_BOOL, K_CHAR, K_BYTE, K_I32, K_U32, K_I64, K_U64, K_DBL, K_CSTR, K_STR, K_BIG, KINDS };
static const char* KN[] = {"nil", "bool", "char", "byte", "int32", "uint32", "int64", "uint64", "double", "ccstring", "string", "bignum"};
struct Val {
   int k = K_NIL; bool b = false; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s; Dec dec; BigNum big = 0;
   std::string show() const { switch(k) { case K_NIL: return "nil"; case K_BOOL: return b ? "true" : "false"; case K_DBL: { char x[64]; snprintf(x, sizeof x, "double %.17g", d); return x; } case K_CSTR: case K_STR: return fmt("%s(%zu) '%s'", KN[k], s.size(), esc(s, 60).c_str()); case K_BIG: return "bignum " + dec.text(); case K_U64: case K_U32: return fmt("%s %llu", KN[k], (unsigned long long)u); default: return fmt("%s %lld", KN[k], (long long)i); } }
};
static Val anyVal(Rng& r, bool smallBig) {
   Val v; v.k = int(r.below(KINDS));
   switch(v.k) {
   case K_BOOL: v.b = r.chance(1, 2); break;
   case K_CHAR: v.i = char(r.below(256)); break;
   case K_BYTE: v.i = byte(r.below(256)); break;
   case K_I32: v.i = int32(anyInt(r)); break;
   case K_U32: v.u = uint32(anyInt(r)); v.i = int64_t(v.u); break;
   case K_I64: v.i = anyInt(r); break;
   case K_U64: v.u = uint64_t(anyInt(r)); v.i = int64_t(v.u); break;
   case K_DBL: v.d = anyDouble(r); break;
   case K_CSTR: v.s = anyString(r); v.s = v.s.c_str(); break;
   case K_STR: v.s = anyString(r); break;
   case K_BIG: v.dec = smallBig ? anyDec(r, 15, 25) : anyDec(r, 48, r.chance(1, 4) ? 2000 : 30); v.big = BigNum(v.dec.text()); break;
   }
   return v;
}
static Item build(const Val& v) {
   switch(v.k) {
   case K_BOOL: return Item(v.b);
   case K_CHAR: return Item(char(v.i));
   case K_BYTE: return Item(byte(v.i));
   case K_I32: return Item(int32(v.i));
   case K_U32: return Item(uint32(v.u));
   case K_I64: return Item(int64(v.i));
   case K_U64: return Item(uint64(v.u));
   case K_DBL: return Item(v.d);
   case K_CSTR: { std::vector<char> c(v.s.begin(), v.s.end()); c.push_back(0); ccstring p = c.data(); Item it(p); std::fill(c.begin(), c.end() - 1, '#'); return it; }
   case K_STR: return Item(v.s);
   case K_BIG: return Item(v.big);
   default: return Item();
   }
}
static bool sameDouble(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y || (std::isnan(a) && std::isnan(b)); }
static int64_t clampDouble(double d) { if(std::isnan(d)) return 0; if(d >= 9223372036854775808.0) return INT64_MAX; if(d <= -9223372036854775808.0) return INT64_MIN; return int64_t(d); }

static void checkGet(const char* p, const Item& it, const Val& v) {
   bool ok = true;
   switch(v.k) {
   case K_NIL: break;
   case K_BOOL: ok = it.get<bool>() == v.b; break;
   case K_CHAR: case K_BYTE: case K_I32: case K_I64: ok = it.get<int64>() == v.i; break;
   case K_U32: case K_U64: ok = it.get<uint64>() == v.u; break;
   case K_DBL: ok = sameDouble(it.get<numeric>(), v.d); break;
   case K_CSTR: case K_STR: ok = it.get<String>() == v.s; break;
   case K_BIG: ok = it.get<BigNum>() == v.big; break;
   }
   if(!ok) vf::viol(fmt("%s:get:%s", p, KN[v.k]), "the getter doesn't return the value of an item built from " + v.show());
   vf::stat("values_read");
}
static void checkInt(const char* p, const Item& it, const Val& v) {
   int64_t want = 0; bool check = true;
   switch(v.k) {
   case K_NIL: want = 0; break;
   case K_BOOL: want = v.b; break;
   case K_U64: check = v.u <= uint64_t(INT64_MAX); want = v.i; break;
   case K_DBL: want = clampDouble(v.d); break;
   case K_CSTR: case K_STR: want = leading(v.s); break;
   case K_BIG: want = v.dec.integer(); break;
   default: want = v.i;
   }
   int64_t got = it.toInt();
   if(check && got != want) vf::viol(fmt("%s:toInt:%s", p, KN[v.k]), fmt("%lld, %lld expected, from ", (long long)got, (long long)want) + v.show());
   vf::stat("conversions");
}
static void checkRest(const char* p, const Item& it, const Val& v, bool text) {
   bool wantB = false; std::string wantT; const char* name = "Int"; bool checkT = text;
   switch(v.k) {
   case K_NIL: wantT = "nil"; name = "Nil"; break;
   case K_BOOL: wantB = v.b; wantT = v.b ? "true" : "false"; name = "Bool"; break;
   case K_DBL: wantB = v.d != 0.0; wantT = str(v.d); name = "Float"; break;
   case K_CSTR: case K_STR: wantB = !v.s.empty(); wantT = v.s; name = "String"; break;
   case K_BIG: wantB = !v.dec.zero(); name = "BigNum"; checkT = text && v.dec.digits.size() <= 15 && v.dec.exp < 290 && v.dec.exp > -290 && v.dec.clearCut(); if(checkT) wantT = str(strtod(v.dec.text().c_str(), nullptr)); break;
   case K_U64: wantB = v.u != 0; checkT = text && v.u <= uint64_t(INT64_MAX); wantT = str(v.i); break;
   default: wantB = v.i != 0; wantT = str(v.i);
   }
   if(it.toBool() != wantB) vf::viol(fmt("%s:toBool:%s", p, KN[v.k]), "from " + v.show());
   std::string got = it.toString();
   if(checkT && got != wantT) vf::viol(fmt("%s:toString:%s", p, KN[v.k]), "'" + esc(got, 100) + "', '" + esc(wantT, 100) + "' expected, from " + v.show());
   std::string tn = it.handler->typeName();
   if(tn != name) vf::viol(fmt("%s:typeName:%s", p, KN[v.k]), "'" + esc(tn) + "', from " + v.show());
   vf::stat("conversions", 3);
}
static uint64_t hashVal(const Val& v) { return vf::mix(vf::hashStr(v.show()), uint64_t(v.k)); }

#endif
