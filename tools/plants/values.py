"""Planted bugs of futexes, atomics, singletons, items, code and distribution."""
TSAN = "-O1 -g -fsanitize=thread"
HEAD = r'''
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <iterator>
#include <limits>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>
#define EXPECT(c, ...) do { if(!(c)) { printf(__VA_ARGS__); printf("\n"); exit(1); } } while(0)
static void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
'''
FX = "src/include/falcon/futex.h"
AT = "src/include/falcon/atomic_gcc.h"
ITEM = ["src/engine/handlerfactory.cpp"]
ITEMH = HEAD + "#include <falcon/engine/item.h>\nusing namespace falcon;\n"

PLANTS = [
 dict(id="F01-relaxed-unlock", property="F01", flags=TSAN, run="TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo",
  edits=[(FX, "m_owned.store(false, std::memory_order_release);", "m_owned.store(false, std::memory_order_relaxed);")],
  needs="two threads that exchange data under the futex",
  what="unlocking does not publish what was written under the lock",
  demo=HEAD + "#include <falcon/futex.h>\n" + r'''
int main() {
	falcon::Futex<8> f; long n = 0;
	std::thread t([&]{ for(int i = 0; i < 20000; ++i) { f.lock(); ++n; f.unlock(); } });
	for(int i = 0; i < 20000; ++i) { f.lock(); ++n; f.unlock(); }
	t.join();
	EXPECT(n == 40000, "%ld", n);
}
'''),
 dict(id="F01-spurious-failure", property="F01",
  edits=[(FX, """      while(!m_owned.compare_exchange_weak(
            isOwned, true,
            std::memory_order_acq_rel,
            std::memory_order_relaxed) || isOwned ) {
         isOwned = false;
""", """      while(m_owned.compare_exchange_weak(
            isOwned, true,
            std::memory_order_acq_rel,
            std::memory_order_relaxed), isOwned ) {
         isOwned = false;
""")],
  needs="an exchange that fails spuriously, as the weak one may",
  what="the lock is taken as acquired when the exchange fails though the futex was found free",
  demo=HEAD + r'''
template<typename T> struct flaky {
	std::atomic<T> v; int n = 0; flaky(T t): v(t) {}
	bool compare_exchange_weak(T& e, T d, std::memory_order, std::memory_order) {
		if(++n % 3 == 1 && v.load() == e) return false;   // as on a load-linked, store-conditional machine
		return v.compare_exchange_strong(e, d); }
	bool compare_exchange_strong(T& e, T d, std::memory_order, std::memory_order) { return v.compare_exchange_strong(e, d); }
	bool compare_exchange_weak(T& e, T d, std::memory_order = std::memory_order_seq_cst) { return compare_exchange_weak(e, d, std::memory_order_seq_cst, std::memory_order_seq_cst); }
	bool compare_exchange_strong(T& e, T d, std::memory_order = std::memory_order_seq_cst) { return v.compare_exchange_strong(e, d); }
	T exchange(T t, std::memory_order = std::memory_order_seq_cst) { return v.exchange(t); }
	void store(T t, std::memory_order = std::memory_order_seq_cst) { v.store(t); }
	T load(std::memory_order = std::memory_order_seq_cst) const { return v.load(); }
	operator T() const { return v.load(); }
	T operator=(T t) { v.store(t); return t; }
	T operator++() { return ++v; }
};
namespace std { using ::flaky; }
#define atomic flaky
#include <falcon/futex.h>
#undef atomic
int main() {
	falcon::Futex<4> f;
	for(int i = 0; i < 10; ++i) { f.lock(); EXPECT(f.isLocked(), "returned from lock, but not locked"); f.unlock(); }
}
'''),
 dict(id="F02-late-count", property="F02", srcs=["src/engine/futex.cpp"], timeout=100,
  edits=[(FX, """      if(m_count > 0 && --m_count == 0) {
         m_owner.store(0, std::memory_order_seq_cst);
      }
""", """      if(m_count > 1) {
         --m_count;
      }
      else if(m_count == 1) {
         m_owner.store(0, std::memory_order_seq_cst);
         m_count = 0;
      }
""")],
  needs="another thread acquiring the futex between the two writes of the unlocking one",
  what="the count is reset after the futex is released: a thread that acquires it in between has its lock forgotten, and never releases it",
  demo=HEAD + "#include <falcon/futex.h>\n" + r'''
int main() {
	std::thread([]{ nap(40 * 1000 * 1000); printf("stuck: a lock was forgotten\n"); fflush(stdout); _Exit(1); }).detach();
	falcon::RFutex f; long n = 0;
	std::vector<std::thread> th;
	for(int t = 0; t < 4; ++t) th.emplace_back([&]{ for(int i = 0; i < 200000; ++i) { f.lock(); f.lock(); ++n; f.unlock(); f.unlock(); } });
	for(auto& t: th) t.join();
	EXPECT(n == 800000 && !f.isLocked(), "%ld", n);
	fflush(stdout); _Exit(0);
}
'''),
 dict(id="F03-one-never-yields", property="F03",
  edits=[(FX, "         if(spinCount && --sc == 0) {", "         if(spinCount > 1 && --sc == 0) {")],
  needs="a futex with spin count one and a thread that waits for it",
  what="with spin count one a waiting thread never yields",
  demo=HEAD + "static std::atomic<int> yields{0};\nextern \"C\" int sched_yield() noexcept { ++yields; return 0; }\n#include <falcon/futex.h>\n" + r'''
int main() {
	falcon::Futex<1> f;
	f.lock();
	std::thread t([&]{ f.lock(); f.unlock(); });
	nap(100000);
	f.unlock();
	t.join();
	EXPECT(yields > 0, "never yielded");
}
'''),
 dict(id="A01-or-shortcut", property="A01", flags="-O0 -g", timeout=100,
  edits=[(AT, "   return __sync_fetch_and_or(&target, value);", """   // don't write when there is nothing to set
   if((target & value) != value) {
      return __sync_fetch_and_or(&target, value);
   }
   return target;""")],
  needs="another thread clearing the bits between the two reads of the variable",
  what="when the bits are found set the value returned is read again: it can be one without the bits, that were neither set nor reported set",
  demo=HEAD + "#include <falcon/atomic.h>\nusing namespace falcon;\n" + r'''
int main() {
	// two threads take a lock by a bit: the one that sees it clear has taken it
	static atomic_int lock = 0; static long n = 0; std::atomic<bool> bad{false};
	std::vector<std::thread> th;
	for(int t = 0; t < 4; ++t) th.emplace_back([&]{
		for(int i = 0; i < 300000; ++i) {
			for(long k = 0; atomicOr(lock, 1) & 1; ++k) { if(bad) return; if(k > 100000000) bad = true; }
			long m = n; n = m + 1;
			if(!(atomicAnd(lock, ~1) & 1)) bad = true;
		}
	});
	for(auto& t: th) t.join();
	EXPECT(!bad && n == 1200000, "lock by atomicOr failed: %ld", n);
}
'''),
 dict(id="A01-cas-already", property="A01",
  edits=[(AT, "   return __sync_bool_compare_and_swap( &target, compareTo, newVal );",
          "   return __sync_bool_compare_and_swap( &target, compareTo, newVal ) || target == newVal;")],
  needs="a compare-and-swap that fails on a variable that already has the new value",
  what="compare-and-swap reports success when the variable held the new value already",
  demo=HEAD + "#include <falcon/atomic.h>\nusing namespace falcon;\n" + r'''
int main() {
	atomic_int a = 5;
	EXPECT(!atomicCAS(a, 3, 7) && a == 5, "succeeded on another value");
	EXPECT(atomicCAS(a, 5, 7) && a == 7, "failed");
	EXPECT(!atomicCAS(a, 5, 7), "succeeded twice");
}
'''),
 dict(id="G01-lazy-pointer", property="G01",
  edits=[("src/include/falcon/singleton.h", """		static T inst;
		return &inst;
""", """		// don't destroy it at exit, when others might still use it
		static T* inst = nullptr;
		if(inst == nullptr) {
			inst = new T;
		}
		return inst;
""")],
  needs="concurrent first uses",
  what="the instance can be built more than once when first used by several threads",
  demo=HEAD + "#include <falcon/singleton.h>\n" + r'''
struct S { static std::atomic<int> built; S() { nap(2000); ++built; } };
std::atomic<int> S::built{0};
int main() {
	std::vector<std::thread> th; std::atomic<int> go{0};
	for(int t = 0; t < 4; ++t) th.emplace_back([&]{ ++go; while(go < 4); falcon::Singleton<S> s; s.get(); });
	for(auto& t: th) t.join();
	EXPECT(S::built == 1, "built %d times", (int)S::built);
}
'''),
 dict(id="G01-per-thread", property="G01",
  edits=[("src/include/falcon/singleton.h", "		static T inst;\n", "		static thread_local T inst;\n")],
  needs="access from more than one thread",
  what="each thread has an instance of its own",
  demo=HEAD + "#include <falcon/singleton.h>\n" + r'''
struct S { int v = 1; };
int main() {
	falcon::Singleton<S> a;
	a.mtbl->v = 7;
	int seen = 0;
	std::thread t([&]{ falcon::Singleton<S> b; seen = b->v; });
	t.join();
	EXPECT(seen == 7, "another thread sees %d", seen);
}
'''),
 dict(id="I01-uint32-sign", property="I01", srcs=ITEM,
  edits=[("src/include/falcon/engine/itemdata.h", "            uint64Value = static_cast<uint64>(value);\n        } else if constexpr (std::is_same_v<T, uint64>) {",
          "            int64Value = static_cast<int32>(value);\n        } else if constexpr (std::is_same_v<T, uint64>) {")],
  needs="an unsigned 32-bit value of 2^31 or more",
  what="unsigned 32-bit integers from 2^31 on are taken as negative",
  demo=ITEMH + r'''
int main() {
	Item a(uint32(5)), b(uint32(4000000000u));
	EXPECT(a.get<uint64>() == 5 && a.toInt() == 5, "5");
	EXPECT(b.get<uint64>() == 4000000000u && b.toInt() == 4000000000LL && b.toString() == "4000000000", "%s", b.toString().c_str());
}
'''),
 dict(id="I01-get-moves", property="I01", srcs=ITEM,
  edits=[("src/include/falcon/engine/item.h", "           return *reinterpret_cast<String *>(data.ptrValue);",
          "           return std::move(*reinterpret_cast<String *>(data.ptrValue));")],
  needs="getting a string from an item, then using the item again",
  what="getting the string out of an item empties the item",
  demo=ITEMH + r'''
int main() {
	Item a(std::string("a rather long string that is not stored in place"));
	std::string one = a.get<String>();
	EXPECT(one == a.toString() && a.get<String>() == one && a.toBool(), "the item holds '%s'", a.toString().c_str());
}
'''),
 dict(id="I02-string-leak", property="I02", srcs=ITEM,
  edits=[("src/include/falcon/engine/item.h", "        handler->destroy(data);", "        if(! handler->isCopyFlat()) {\n            handler->destroy(data);\n        }")],
  needs="destroying items that hold strings or big numbers, and looking at the memory",
  what="strings and big numbers held by items are never released",
  demo=HEAD + r'''
#include <new>
static std::atomic<long> live{0};
void* operator new(size_t n) { ++live; return malloc(n); }
void operator delete(void* p) noexcept { if(p) { --live; free(p); } }
void operator delete(void* p, size_t) noexcept { if(p) { --live; free(p); } }
#include <falcon/engine/item.h>
using namespace falcon;
int main() {
	long before = live;
	for(int i = 0; i < 100; ++i) { Item a(std::string("some string")); Item b(a); Item c(BigNum(3)); b = c; }
	EXPECT(live == before, "%ld blocks leaked", live - before);
}
'''),
 dict(id="I03-bignum-double", property="I03", srcs=ITEM,
  edits=[("src/include/falcon/engine/bignumhandler.h", "{ return reinterpret_cast<BigNum *>(data.ptrValue)->convert_to<int64>(); }",
          "{ return static_cast<int64>(reinterpret_cast<BigNum *>(data.ptrValue)->convert_to<numeric>()); }")],
  needs="a big number that a double does not represent exactly, or beyond the 64-bit range",
  what="big numbers are converted to integer through a double: undefined beyond the range, inexact over 2^53",
  demo=ITEMH + r'''
int main() {
	Item a(BigNum("1e30")), b(BigNum("-1e30")), c(BigNum("42.9"));
	EXPECT(c.toInt() == 42, "42.9 is %lld", (long long)c.toInt());
	EXPECT(a.toInt() == std::numeric_limits<int64>::max(), "1e30 is %lld", (long long)a.toInt());
	EXPECT(b.toInt() == std::numeric_limits<int64>::min(), "-1e30 is %lld", (long long)b.toInt());
}
'''),
 dict(id="I04-shared-buffer", property="I04", srcs=ITEM, flags=TSAN, run="TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo",
  edits=[("src/include/falcon/engine/inthandler.h", "      std::ostringstream ss;\n", "      // building a stream is slow\n      static std::ostringstream ss;\n      ss.str(\"\");\n")],
  needs="two threads converting integer items of their own to text at the same time",
  what="all conversions of integers to text use one buffer",
  demo=ITEMH + r'''
int main() {
	std::atomic<long> bad{0};
	std::vector<std::thread> th;
	for(int t = 0; t < 2; ++t) th.emplace_back([&, t]{ Item it(int64(t * 111111)); std::string want = std::to_string(t * 111111);
		for(int i = 0; i < 3000; ++i) if(it.toString() != want) ++bad; });
	for(auto& t: th) t.join();
	EXPECT(bad == 0, "%ld wrong texts", (long)bad);
}
'''),
 dict(id="C01-embedded-nul", property="C01", srcs=["src/engine/code.cpp"],
  edits=[("src/engine/code.cpp", "	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);",
          "	std::copy(m_source.data(), std::find(m_source.data(), m_source.data() + m_source.size(), '\\0'), m_data);")],
  needs="a source with a zero character inside",
  what="the source is copied only up to its first zero character, the rest is rendered as garbage",
  demo=HEAD + "#include <falcon/engine/code.h>\n" + r'''
int main() {
	std::string src = std::string("first") + '\0' + "second part of the source";
	{ std::string junk(200, '?'); }
	falcon::Code c(src);
	EXPECT(c.toString() == src, "rendered otherwise");
	falcon::Code d(c);
	EXPECT(d.toString() == src, "copy rendered otherwise");
}
'''),
 dict(id="D01-postfix-step", property="D01",
  edits=[("src/include/falcon/engine/distribute.h", """	tgt = *iter;
	++iter;
	distribute(std::forward<_iterator>(iter), args...);
""", """	tgt = *iter++;
	distribute(iter, args...);
	// the caller finds the iterator past what it was given
	++iter;
""")],
  needs="an iterator kept by the caller or one whose steps can be observed, such as one reading a stream",
  what="every level of the distribution moves the caller's iterator once more on the way out: it steps beyond the last element assigned",
  demo=HEAD + "#include <falcon/engine/distribute.h>\n" + r'''
int main() {
	std::istringstream in("1 2 3 4 5");
	std::istream_iterator<int> it(in);
	int a = 0, b = 0;
	falcon::distribute(it, a, b);
	EXPECT(a == 1 && b == 2, "%d %d", a, b);
	std::string rest; in >> rest;
	EXPECT(rest == "3", "the next element of the stream is '%s'", rest.c_str());
}
'''),
]
