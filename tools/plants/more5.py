"""Bugs planted with the statements of the properties at hand, each with a condition of its own."""
import os, importlib.util
def _load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
log, fut, stack, values = (_load(n) for n in ("log", "fut", "stack", "values"))
PS = "src/include/falcon/engine/pagedstack.h"
FX, AT, SG = "src/include/falcon/futex.h", "src/include/falcon/atomic_gcc.h", "src/include/falcon/singleton.h"
LH, LSH, LC, LS, LST, LP = ("src/include/falcon/logger.h", "src/include/falcon/logsystem.h", "src/engine/logger.cpp", "src/engine/logsystem.cpp",
   "src/engine/logstream.cpp", "src/include/falcon/logproxy.h")
STACKH = values.HEAD + "#include <list>\n#include <vector>\n#include <cassert>\n#include <falcon/engine/pagedstack.h>\nusing namespace falcon;\n"
TS = dict(flags=log.TSAN, run="TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo")

PLANTS = [
 dict(id="F03-count-carried", property="F03",
  edits=[(FX, "      unsigned int sc = spinCount;\n", "      static thread_local unsigned int sc = spinCount;\n")],
  needs="a second wait in the same thread, after one that failed some times less than the spin count",
  what="the attempts failed in the former waits of a thread count for the next one",
  demo=values.HEAD + r"""
#include <sched.h>
static thread_local long yields = 0;
extern "C" int sched_yield() { ++yields; return 0; }
#include <falcon/futex.h>
// A waiter is held up at its attempts by a lock that is never released within the time of a few of them: count the yields by attempts.
int main() {
	static const unsigned N = 4000000000u;      // never reached by one wait, nor by all of them
	falcon::Futex<N> never; never.lock();
	std::atomic<bool> stop{false}; long first = -1;
	std::thread t([&] { never.lock(); first = yields; never.unlock(); });
	nap(50000); never.unlock(); t.join();
	EXPECT(first == 0, "%ld yields with a spin count never reached", first);
	// short waits, each far below the count, many times
	falcon::Futex<100000000u> f; std::atomic<int> turn{0}; long total = 0;
	std::thread w([&] { for(int i = 0; i < 400; ++i) { while(turn.load() != 1) {} f.lock(); f.unlock(); turn = 2; } total = yields; });
	for(int i = 0; i < 400; ++i) { f.lock(); turn = 1; auto t0 = std::chrono::steady_clock::now(); while(std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(15)) {} f.unlock(); while(turn.load() != 2) {} turn = 0; }
	w.join();
	EXPECT(total == 0, "%ld yields in short waits", total);
}
"""),
 dict(id="F01-relaxed-look", property="F01", flags="-O2 -g -fsanitize=thread", run=TS["run"],
  edits=[(FX, "      return m_owned.load(std::memory_order_acquire);\n", "      return m_owned.load(std::memory_order_relaxed);\n")],
  needs="a thread that reads what was written under the lock after finding it free",
  what="finding the lock free doesn't make what was written under it visible",
  demo=values.HEAD + "#include <falcon/futex.h>\n" + r"""
int main() {
	falcon::Futex<8> f; int* n = new int(0); f.lock();
	std::thread t([&]{ *n = 7; f.unlock(); });
	while(f.isLocked()) {}
	EXPECT(*n == 7, "%d", *n);
	t.join();
}
"""),
 dict(id="F02-id-race", property="F02", srcs=["src/engine/futex.cpp"],
  edits=[(FX, "         s_thread_id = ++s_count;\n", "         s_count = s_count + 1;\n         s_thread_id = s_count;\n")],
  needs="two threads whose first use of a recursive lock comes at the same moment",
  what="two threads can get the same number, so that both hold a lock at once",
  demo=values.HEAD + "#include <falcon/futex.h>\n" + r"""
int main() {
	for(int round = 0; round < 2000; ++round) {
		falcon::RFutex own[3]; std::atomic<int> ready{0}, done{0}, bad{0}; std::vector<std::thread> th;
		for(int i = 0; i < 3; ++i) th.emplace_back([&, i] {
			++ready; while(ready.load() < 3) {}
			own[i].lock(); ++done; while(done.load() < 3) {}
			for(int k = 0; k < 3; ++k) if(k != i && own[k].isOwner()) ++bad;
			++done; while(done.load() < 6) {}
			own[i].unlock();
		});
		for(auto& t: th) t.join();
		EXPECT(bad == 0, "a thread owns the lock of another");
	}
}
"""),
 dict(id="A01-xor-before", property="A01",
  edits=[(AT, "   return __sync_fetch_and_xor(&target, value);\n", "   int32 previous = target;\n   __sync_fetch_and_xor(&target, value);\n   return previous;\n")],
  needs="another operation on the variable between the two steps of an exclusive or",
  what="the exclusive or returns a value that another thread can have replaced already",
  demo=values.HEAD + "#include <falcon/atomic.h>\n" + r"""
int main() {
	// each thread flips a bit of its own: what it gets back must have that bit as it left it, and the flips of all seen once
	volatile falcon::int32 v = 0; std::atomic<long> odd{0}; std::atomic<int> ready{0};
	std::vector<std::thread> th; 
	for(int i = 0; i < 4; ++i) th.emplace_back([&, i] {
		++ready; while(ready.load() < 4) {}
		for(int k = 0; k < 3000000; ++k) if(falcon::atomicXor(v, 1) & 1) ++odd;
	});
	for(auto& t: th) t.join();
	EXPECT(odd == 6000000, "%ld flips found the bit set out of 6000000", odd.load());
}
"""),
 dict(id="G01-failed-once", property="G01",
  edits=[(SG, "		static T inst;\n		return &inst;\n", """		struct Instance {
			T* value = nullptr;
			bool failed = true;
			Instance() noexcept {
				// don't let the initialisation be repeated.
				try { value = new T; failed = false; } catch(...) {}
			}
			~Instance() { delete value; }
		};
		static Instance inst;
		if(inst.failed) { throw std::runtime_error("The instance could not be built"); }
		return inst.value;
"""), (SG, "namespace falcon {\n", "#include <stdexcept>\nnamespace falcon {\n")],
  needs="a singleton whose first construction throws",
  what="a construction that failed once is never tried again, and its exception is replaced by another one",
  demo=values.HEAD + "#include <falcon/singleton.h>\n" + r"""
static int tries = 0;
struct T { T() { if(++tries == 1) throw 7; } int v = 3; };
int main() {
	falcon::Singleton<T> s; int got = 0;
	try { s.get(); } catch(int i) { got = i; } catch(...) { got = -1; }
	EXPECT(got == 7, "another exception");
	try { EXPECT(s->v == 3, "wrong"); } catch(...) { EXPECT(false, "not tried again"); }
}
"""),
 dict(id="L12-inner-disabled", property="L12", srcs=log.SYS,
  edits=[(LP, "    	m_other->onMessage(msg);\n", "    	// nobody wants it if we have been turned off in the meanwhile.\n    	if(isEnabled()) {\n    		m_other->onMessage(msg);\n    	}\n")],
  needs="a proxy whose target is another proxy that is disabled",
  what="a proxy used as a target drops the messages when it's disabled, although a target's own enabling doesn't matter",
  demo=log.HEAD + r"""
int main() {
	LogSystem sys; auto l = std::make_shared<Rec>();
	auto inner = std::make_shared<LogProxyListener>(l); inner->enable(false);
	sys.addListener(std::make_shared<LogProxyListener>(inner));
	sys.log("f", 1, LogSystem::INFO, "", "one");
	EXPECT(l->wait(1, 5000), "dropped");
}
"""),
 dict(id="L03-nosubs", property="L03", srcs=log.SYS,
  edits=[(LSH, "			  m_catRegex = std::regex(regex_cat);\n", "			  // we never look at what the groups match.\n			  m_catRegex = std::regex(regex_cat, std::regex::ECMAScript | std::regex::nosubs | std::regex::optimize);\n")],
  needs="a filter expression with a back-reference",
  what="expressions that refer to a group are refused, or match otherwise",
  demo=log.HEAD + r"""
int main() {
	auto l = std::make_shared<Rec>();
	try { l->category("(ab|cd)-\\1"); } catch(const LogSystem::InvalidCategory&) { EXPECT(false, "refused"); }
	EXPECT(l->checkCategory("ab-ab") && ! l->checkCategory("ab-cd"), "wrong match");
}
"""),
 dict(id="L08-unpadded-month", property="L08", srcs=log.LOG,
  edits=[(LST, "		<< std::setfill('0') << std::setw(2)\n		<< local_tm.tm_mon + 1 << '-'\n		<< std::setfill('0') << std::setw(2)\n		<< local_tm.tm_mday", "		<< local_tm.tm_mon + 1 << '-'\n		<< std::setfill('0') << std::setw(2)\n		<< local_tm.tm_mday")],
  needs="a record written in one of the first nine months of the year",
  what="the month is written with one digit",
  flags="-O1 -g -static-libstdc++ -Wl,--wrap=clock_gettime",
  demo=log.HEAD + r"""
#include <time.h>
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec* t) { int r = __real_clock_gettime(c, t); if(c == CLOCK_REALTIME) t->tv_sec = 1520000000; return r; }
int main() {
	setenv("TZ", "UTC", 1);
	auto out = std::make_shared<std::ostringstream>(); LogStreamListener l; l.share(out);
	l.onMessage(LogSystem::Message("f", 1, LogSystem::INFO, "", "x"));
	EXPECT(out->str().compare(0, 11, "2018-03-02 ") == 0, "%s", out->str().c_str());
}
"""),
 dict(id="L11-same-expression", property="L11", srcs=log.LOG,
  edits=[(LC, "	if (m_proxy.get()) {\n		m_proxy->detach();\n	}\n", "	const auto former = m_proxy;\n	if (former && former->category() == category) {\n		// already there: just another level.\n		level(std::max(l, level()));\n		former->level(l);\n		return;\n	}\n	if (former) {\n		former->detach();\n	}\n")],
  needs="a filter installed twice with the same expression, the second time at a lower level",
  what="installing the filter again at a lower level leaves the logger at the former level",
  demo=log.HEAD + r"""
struct W: Rec {};
int main() {
	LOGGER.level(LLINFO); 
	LOGGER.defaultListener()->writeOn(nullptr);
	LOGGER.categoryFilter("a", LLTRACE); LOGGER.categoryFilter("a", LLDEBUG);
	auto w = std::make_shared<Rec>(); LOGGER.addListener(w);
	EXPECT(LOGGER.level() == LLDEBUG, "level %d", int(LOGGER.level()));
}
"""),
 dict(id="L10-default-disabled", property="L10", srcs=log.LOG,
  edits=[(LH, "	    bool doLog() const noexcept {return m_obj != nullptr;}\n", "	    bool doLog() const noexcept {return m_obj != nullptr && m_obj->defaultListener()->isEnabled();}\n")],
  needs="a statement logged while the default listener is disabled, and another listener",
  what="the operands of enabled statements are left out when the default listener is disabled",
  demo=log.HEAD + r"""
int main() {
	auto l = std::make_shared<Rec>(); LOGGER.addListener(l);
	LOGGER.defaultListener()->enable(false);
	LOG_INFO << "text";
	EXPECT(l->wait(1), "not delivered");
	EXPECT(l->got[0] == "text", "got '%s'", l->got[0].c_str());
}
"""),
 dict(id="S05-stats-unlocked", property="S05", **TS,
  edits=[(PS, "      std::lock_guard<_Mutex> guard(m_mutex);\n      blocks = m_base.size();\n", "      blocks = m_base.size();\n")],
  needs="the statistics read while another thread pushes or pops",
  what="the pages are counted without the lock",
  demo=STACKH + r"""
int main() {
	PagedStack<int, std::allocator, std::mutex> s(2, 1);
	std::thread t([&] { for(int k = 0; k < 200; ++k) { for(int i = 0; i < 50; ++i) s.push(i); s.clear(); s.shrink_to_fit(); } });
	size_t a, b, c, d; for(int i = 0; i < 2000; ++i) s.getStats(a, b, c, d);
	t.join();
}
"""),
 dict(id="S06-back-unsynced", property="S06", flags="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_DEBUG",
  edits=[(PS, """         if (synchronize()){
            ++m_iData;
            if(m_iData == m_iBase->end()) {
               ++m_iBase;""", """         {
            ++m_iData;
            if(m_iData == m_iBase->end()) {
               ++m_iBase;""")],
  needs="a synchronised iterator stepped back after its element was removed",
  what="stepping back doesn't look whether the position still exists",
  demo=STACKH + r"""
int main() {
	PagedStack<int> s(4, 1);
	for(int i = 0; i < 10; ++i) s.push(i);
	auto it = s.sync_begin(); ++it;
	s.discard(8);
	--it;
	int v = -1; it.get(v);
	EXPECT(v == 1, "%d", v);
}
"""),
 dict(id="C01-reused-buffer", property="C01", srcs=["src/engine/compiler.cpp", "src/engine/code.cpp"],
  edits=[("src/engine/compiler.cpp", "	std::string value;\n	input >> value;\n", "	// don't allocate at each source.\n	static thread_local std::string value;\n	input >> value;\n")],
  needs="an empty source compiled after another one by the same thread",
  what="compiling an empty or exhausted source gives the code of the former one",
  demo=values.HEAD + "#include <falcon/engine/compiler.h>\n" + r"""
int main() {
	falcon::Compiler c; std::istringstream a("first"), b(""), e("x");
	c.compile(a);
	std::string s; e >> s;          // exhausted, and told so
	EXPECT(c.compile(e).toString() == "", "an exhausted source gives '%s'", c.compile(e).toString().c_str());
	EXPECT(c.compile(b).toString() == "", "an empty source gives '%s'", c.compile(b).toString().c_str());
}
"""),
 dict(id="L05-narrow-backlog", property="L05", srcs=log.SYS,
  edits=[(LSH, "   size_t m_maxMsgQueueSize;\n   std", "   unsigned short m_maxMsgQueueSize;\n   std")],
  needs="a backlog of more than 65535 messages",
  what="the longest backlog is told modulo 65536",
  demo=log.HEAD + r"""
int main() {
	LogSystem s(false); s.level(LogSystem::TRACE);
	for(int i = 0; i < 70000; ++i) s.log("f", 1, LogSystem::INFO, "", "x");
	LogSystem::Diags d; s.getDiags(d);
	EXPECT(d.m_maxMsgQueueSize == 70000, "%zu", d.m_maxMsgQueueSize);
}
"""),
]
