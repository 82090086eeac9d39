"""Further planted bugs."""
import os, importlib.util
def _load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
log, fut, stack, values = (_load(n) for n in ("log", "fut", "stack", "values"))
SYS, LOG, TSAN = log.SYS, log.LOG, log.TSAN
FUT, U, C, RUN = fut.FUT, fut.U, fut.C, fut.RUN
PS = stack.F
LS, LH, LP = "src/engine/logsystem.cpp", "src/include/falcon/logger.h", "src/include/falcon/logproxy.h"
ST = "src/engine/logstream.cpp"

PLANTS = [
 dict(id="L01-repeats", property="L01", srcs=SYS,
  edits=[(LS, """	m_msgReceived++;
	for(auto listener: m_activeListeners) {
""", """	// don't flood the listeners with the same line over and over
	bool same = m_msgReceived++ > 0 && msg->m_line == m_last.m_line && msg->m_level == m_last.m_level
			&& msg->m_file == m_last.m_file && msg->m_category == m_last.m_category && msg->m_message == m_last.m_message;
	m_repeated = same ? m_repeated + 1 : 0;
	if(m_repeated > 3) {
		return;
	}
	m_last.m_line = msg->m_line;
	m_last.m_level = msg->m_level;
	m_last.m_file = msg->m_file;
	m_last.m_category = msg->m_category;
	m_last.m_message = msg->m_message;
	for(auto listener: m_activeListeners) {
"""), ("src/include/falcon/logsystem.h", "   MessageQueue m_messages;\n", "   MessageQueue m_messages;\n   // The last message delivered, and how many times in a row.\n   Message m_last;\n   size_t m_repeated{0};\n")],
  needs="the same message submitted more than four times in a row",
  what="the fifth and further copies of a message repeated in a row are not delivered",
  demo=log.HEAD + r'''
int main() {
	LogSystem sys;
	auto l = std::make_shared<Rec>(); sys.addListener(l);
	for(int i = 0; i < 10; ++i) sys.log("f", 1, LogSystem::INFO, "", "again");
	sys.log("f", 2, LogSystem::INFO, "", "end");
	EXPECT(l->wait(11, 3000), "only %zu of 11 delivered", l->count());
}
'''),
 dict(id="L06-delete-first", property="L06", srcs=SYS, flags="-O1 -g -fsanitize=address", run="ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo",
  edits=[(LS, """	stop();

	// delete the pending messages
	for(auto* message: m_messages){
		delete message;
	}

""", """	// delete the pending messages
	for(auto* message: m_messages){
		delete message;
	}

	stop();

""")],
  needs="a service destroyed while messages are still pending, with a thread that gets on delivering them",
  what="the pending messages are deleted before the thread is stopped, that goes on delivering them",
  demo=log.HEAD + r'''
int main() {
	for(int n = 0; n < 20; ++n) {
		auto l = std::make_shared<Rec>();
		LogSystem sys(false); sys.addListener(l);
		for(int i = 0; i < 20000; ++i) sys.log("f", 1, LogSystem::INFO, "", "a message long enough to be on the heap " + std::to_string(i));
		sys.start(); nap(2000);
	}
}
'''),
 dict(id="L09-position-cache", property="L09", srcs=LOG,
  edits=[(LH, "	void setLine(int line) {\n		threadData().m_msgLine = line;\n	}\n", """	void setLine(int line) {
		threadData().m_msgLine = line;
	}

	/** Sets file and line; copying the name is not needed in a loop. */
	void setPosition(const std::string& file, int line) {
		ThreadData& td = threadData();
		if(td.m_msgLine != line || td.m_msgFile.empty()) {
			td.m_msgFile = file;
			td.m_msgLine = line;
		}
	}
"""), (LH, """	    		obj.setFile(file);
	    		obj.setLine(line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }

	    ~AutoEnd""", """	    		obj.setPosition(file, line);
	    		obj.setLevel(lvl);
	    		m_obj = &obj;
	    	}
	    }

	    ~AutoEnd""")],
  needs="two messages in a row of one thread logged at the same line of different files",
  what="the second message is reported in the file of the first",
  demo=log.HEAD + r'''
struct Files: LogSystem::Listener { std::mutex m; std::vector<std::string> f; void onMessage(const LogSystem::Message& x) override { std::lock_guard<std::mutex> g(m); f.push_back(x.m_file); } };
int main() {
	auto l = std::make_shared<Files>(); LOGGER.addListener(l); LOGGER.defaultListener()->level(LogSystem::LEVEL(-1));
#line 100 "first.cpp"
	LOG_INFO << "one";
#line 100 "second.cpp"
	LOG_INFO << "two";
	for(int i = 0; i < 5000; ++i) { nap(1000); std::lock_guard<std::mutex> g(l->m); if(l->f.size() == 2) break; }
	std::lock_guard<std::mutex> g(l->m);
	EXPECT(l->f.size() == 2 && l->f[0] == "first.cpp" && l->f[1] == "second.cpp", "the second is in %s", l->f.size() == 2 ? l->f[1].c_str() : "none");
}
'''),
 dict(id="L12-weak-target", property="L12", srcs=SYS,
  edits=[(LP, "    	m_other->onMessage(msg);\n", "    	auto other = m_other.lock();\n    	if(other) {\n    		other->onMessage(msg);\n    	}\n"),
         (LP, "    LogSystem::PListener m_other;\n", "    // don't keep the other listener alive\n    std::weak_ptr<LogSystem::Listener> m_other;\n")],
  needs="a target that only the proxy refers to",
  what="a target not referred to elsewhere is destroyed, and the proxy delivers nothing",
  demo=log.HEAD + "#include <falcon/logproxy.h>\n" + r'''
static std::atomic<int> n{0};
struct T: LogSystem::Listener { void onMessage(const LogSystem::Message&) override { n++; } };
int main() {
	LogSystem sys;
	sys.addListener(std::make_shared<LogProxyListener>(std::make_shared<T>()));
	auto l = std::make_shared<Rec>(); sys.addListener(l);
	sys.log("f", 1, LogSystem::INFO, "", "m"); l->wait(1); nap(1000);
	EXPECT(n == 1, "the target got %d messages", n.load());
}
'''),
 dict(id="L03-literal-category", property="L03", srcs=SYS,
  edits=[(LS, "	  if(m_category == \"\") {\n		  return true;\n	  }\n", "	  // spare the regular expression, when possible\n	  if(m_category == \"\" || m_category == cat) {\n		  return true;\n	  }\n")],
  needs="a message whose category is the text of the filter, that as a regular expression doesn't match itself",
  what="a category equal to the text of the filter is accepted, though the expression doesn't match it",
  demo=log.HEAD + r'''
int main() {
	LogSystem sys;
	auto l = std::make_shared<Rec>(); l->category("net(work)?");
	auto all = std::make_shared<Rec>(); sys.addListener(l); sys.addListener(all);
	sys.log("f", 1, LogSystem::INFO, "network", "yes"); sys.log("f", 1, LogSystem::INFO, "net(work)?", "no");
	all->wait(2);
	EXPECT(l->count() == 1, "%zu delivered", l->count());
}
'''),
 dict(id="L07-pending-unlocked", property="L07", srcs=SYS, flags=TSAN, run="TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo",
  edits=[(LS, "		processNewListeners();\n", "		if(!m_pendingListeners.empty()) {\n			processNewListeners();\n		}\n")],
  needs="a listener added while a message is being delivered",
  what="the list of the listeners to add is looked at outside its lock",
  demo=log.HEAD + r'''
int main() {
	LogSystem sys;
	auto l = std::make_shared<Rec>(); sys.addListener(l);
	for(int i = 0; i < 200; ++i) { sys.log("f", 1, LogSystem::INFO, "", "m"); sys.addListener(std::make_shared<Rec>()); if(i % 10 == 0) nap(300); }
	EXPECT(l->wait(200), "%zu", l->count());
}
'''),
 dict(id="L08-cached-date", property="L08", srcs=LOG,
  edits=[(ST, """	auto now = std::chrono::system_clock::now();
	time_t tt = std::chrono::system_clock::to_time_t(now);
	tm local_tm;
""", """	const time_t tt = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
	tm local_tm;
	static thread_local time_t hour = -1;
	static thread_local tm hour_tm;
"""), (ST, "	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);\n", """	// the offset of the zone doesn't change within an hour.
	if(tt / 3600 == hour) {
		hour_tm.tm_min = local_tm.tm_min;
		hour_tm.tm_sec = local_tm.tm_sec;
		local_tm = hour_tm;
	}
	else {
		hour = tt / 3600;
		hour_tm = local_tm;
	}

	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);
""")],
  needs="a zone whose offset is not of whole hours, and records written before and after the local hour in the same UTC hour",
  what="the records carry the hour, and the date, of the first of the same UTC hour",
  flags="-O1", run="ok=1; timeout 60 ./demo || ok=0; exit $((1 - ok))",
  demo=log.HEAD + r'''
#include <ctime>
#include <dlfcn.h>
// the clock is moved by an interposed clock_gettime, that chrono uses
static std::atomic<long long> shift{0};
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
	static auto real = (int(*)(clockid_t, timespec*))dlsym(RTLD_NEXT, "clock_gettime");
	int r = real(c, t); if(c == CLOCK_REALTIME) t->tv_sec += shift.load(); return r;
}
int main() {
	setenv("TZ", "IST-5:30", 1); tzset();
	std::ostringstream out; auto l = std::make_shared<LogStreamListener>(); l->writeOn(&out);
	LogSystem::Message m("f", 1, LogSystem::INFO, "", "x");
	for(long long at: {1600000000LL / 3600 * 3600 + 1500, 1600000000LL / 3600 * 3600 + 2000}) {
		shift = 0; shift = at - time(nullptr);
		out.str(""); l->onMessage(m); time_t t = time(nullptr) ; timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t = ts.tv_sec; tm x; localtime_r(&t, &x);
		char b[32]; strftime(b, sizeof b, "%Y-%m-%d %H:%M", &x);
		EXPECT(out.str().substr(0, 16) == b, "%s instead of %s", out.str().substr(0, 16).c_str(), b);
	}
	l->writeOn(nullptr);
}
'''),
 dict(id="T08-short-lapse", property="T08", srcs=FUT,
  edits=[("src/include/falcon/fut/timelapse.h", """   int64 elapsedNow() const{
      int64 now;
      markTime(now);
      return m_begin > now
                  ? now - m_begin + MSECS_IN_A_DAY
                  : now - m_begin;
""", """   int64 elapsedNow() const{
      int64 now;
      markTime(now);
      int lapse = static_cast<int>(now - m_begin);
      return lapse < 0
                  ? lapse + MSECS_IN_A_DAY
                  : lapse;
""")],
  needs="a lapse of more than 24 days",
  what="the time elapsed up to now is told in 32 bits",
  demo=fut.HEAD + r'''
#include <falcon/fut/timelapse.h>
int main() {
	TimeLapse t; t.markBegin(); t.m_begin -= 40LL * 86400 * 1000;
	long long e = t.elapsedNow(); long long d = e - 40LL * 86400 * 1000;
	if(d < 0 || d > 60000) { printf("%lld ms elapsed after 40 days\n", e); return 1; }
}
'''),
 dict(id="G01-flag-first", property="G01",
  edits=[("src/include/falcon/singleton.h", """		static T inst;
		return &inst;
""", """		static std::atomic<int> state{0};
		static typename std::aligned_storage<sizeof(T), alignof(T)>::type space;
		static struct Release { ~Release() { if(state.load() == 2) {reinterpret_cast<T*>(&space)->~T();} } } release;
		int none = 0;
		if(state.load() != 2) {
			if(state.compare_exchange_strong(none, 1)) {
				new(&space) T;
				state = 2;
			}
			else {
				// somebody else is building it.
				for(int spin = 0; state.load() != 2 && spin < 100000; ++spin) {
					std::this_thread::yield();
				}
			}
		}
		return reinterpret_cast<T*>(&space);
"""), ("src/include/falcon/singleton.h", "\nnamespace falcon {\n\n/**\n * An utility class", "\n#include <atomic>\n#include <new>\n#include <thread>\n#include <type_traits>\n\nnamespace falcon {\n\n/**\n * An utility class")],
  needs="a construction that throws the first time, or takes long while another thread needs the instance",
  what="after a construction that threw, or while one takes long, the accessors return storage without an instance in it",
  demo=values.HEAD + "#include <falcon/singleton.h>\nusing namespace falcon;\n" + r'''
static int tries = 0;
struct Shy { int v; Shy() { if(++tries == 1) throw std::runtime_error("not yet"); v = 77; } };
int main() {
	Singleton<Shy> s; bool thrown = false;
	try { s.mtbl->v; } catch(const std::runtime_error&) { thrown = true; }
	EXPECT(thrown, "not told");
	EXPECT(s->v == 77, "not built: %d", s->v);
}
'''),
 dict(id="A01-add-readback", property="A01", flags="-O1 -g", timeout=100,
  edits=[(values.AT, "   return __sync_add_and_fetch( &atomic, value );\n", "   __sync_fetch_and_add( &atomic, value );\n   return atomic;\n")],
  needs="another thread changing the variable between the addition and the reading back",
  what="an addition returns what another thread has made of the variable",
  demo=values.HEAD + "#include <falcon/atomic.h>\nusing namespace falcon;\n" + r'''
int main() {
	atomic_int v = 0; std::atomic<bool> go{false}; const int N = 2000000; std::vector<unsigned char> seen(4 * N + 1);
	std::vector<std::thread> ts;
	for(int t = 0; t < 4; ++t) ts.emplace_back([&] { while(!go) {} for(int i = 0; i < N; ++i) { int r = atomicAdd(v, 1); __atomic_fetch_add(&seen[r], 1, __ATOMIC_RELAXED); } });
	go = true; for(auto& t: ts) t.join();
	for(int i = 1; i <= 4 * N; ++i) EXPECT(seen[i] == 1, "%d returned %d times", i, int(seen[i]));
}
'''),
 dict(id="F02-short-ids", property="F02", srcs=["src/engine/futex.cpp"], timeout=200,
  edits=[(values.FX, "         s_thread_id = ++s_count;\n", "         // the upper half is kept for the flags\n         s_thread_id = ++s_count & 0xffff;\n")],
  needs="more than 65535 threads that used recursive futexes during the program",
  what="the identifiers of the threads repeat, and one is that of a free futex",
  demo=values.HEAD + "#include <falcon/futex.h>\nusing namespace falcon;\n" + r'''
int main() {
	RFutex f;
	for(int i = 0; i < 70000; ++i) {
		bool own = true, locked = true;
		std::thread([&] { f.lock(); own = f.isOwner(); locked = f.isLocked(); f.unlock(); }).join();
		EXPECT(own && locked, "thread %d: owner %d locked %d", i, own, locked);
	}
}
'''),
 dict(id="S05-peek-unlocked", property="S05", flags=TSAN, run="TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo",
  edits=[(PS, """      assert(sizeof...(__args) <= size());
      std::lock_guard<_Mutex> guard(m_mutex);
      distribute(cbegin(), std::forward<_Args>(__args)...);
""", """      assert(sizeof...(__args) <= size());
      m_mutex.lock();
      const_iterator top = cbegin();
      m_mutex.unlock();
      distribute(top, std::forward<_Args>(__args)...);
""")],
  needs="a thread peeking while another changes the top elements",
  what="the elements are read after the lock was released",
  demo=stack.HEAD + r'''
int main() {
	PagedStack<long, Alloc, std::mutex> s(4, 1); for(int i = 0; i < 3; ++i) s.push(i);
	std::atomic<bool> over{false};
	std::thread t([&] { while(!over) { s.top(5); std::this_thread::yield(); } });
	long a, b, c; volatile long sum = 0; for(int i = 0; i < 200000; ++i) { s.peek(a, b, c); sum = sum + a + b + c; }
	over = true; t.join();
}
'''),
 dict(id="S06-clear-swaps", property="S06", flags="-O1 -g -fsanitize=address", run="ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo",
  edits=[(PS, """      //TODO: Swap base.
      std::lock_guard<_Mutex> guard(m_mutex);
      while(m_curBase != m_base.begin()) {
         m_curBase->clear();
         --m_curBase;
      }
""", """      // the pages are destroyed out of the lock.
      base_type old(m_base.get_allocator());
      std::lock_guard<_Mutex> guard(m_mutex);
      if(m_curBase != m_base.begin()) {
         old.splice(old.end(), m_base, std::next(m_base.begin()), m_base.end());
         m_curBase = m_base.begin();
      }
""")],
  needs="a synchronised iterator in an upper page of a stack that is cleared",
  what="clearing releases the pages the synchronised iterators are in",
  demo=stack.HEAD + r'''
int main() {
	PagedStack<int, Alloc, std::mutex> s(4, 1); for(int i = 0; i < 10; ++i) s.push(i);
	auto it = s.sync_begin(); s.clear(); s.push(5);
	int v = 0; it.get(v); EXPECT(v == 5, "%d instead of 5", v);
}
'''),
 dict(id="T05-prefix", property="T05", srcs=FUT,
  edits=[(U, """         auto iter = p->testsByName.find(testName);
         if(iter == p->testsByName.end()) {
            std::cout << "Unknown test case " << testName << "\\n";""", """         // the end of the name may be omitted
         auto iter = p->testsByName.lower_bound(testName);
         if(iter == p->testsByName.end() || iter->first.compare(0, testName.size(), testName) != 0) {
            std::cout << "Unknown test case " << testName << "\\n";""")],
  needs="a name that is not that of a case, but the beginning of one's",
  what="an unknown name is accepted, and another case is run instead",
  run=RUN + 'timeout 60 ./demo -t Comp::ca > out 2>&1 && fail "an unknown case was accepted"\ntimeout 60 ./demo -t Comp::case > /dev/null 2>&1 || fail "case"\nexit 0',
  demo=fut.HEAD + r'''
TEST(Comp, caseA) { EXPECT_EQ(1, 1); }
TEST(Comp, case) { EXPECT_EQ(1, 1); }
FALCON_TEST_MAIN
'''),
 dict(id="T04-failures-thrown", property="T04", srcs=FUT,
  edits=[(U, """         if(!hasPassed(tcasep)) {
""", """         if(tcasep->status() == TestCase::FAIL || tcasep->status() == TestCase::ERROR) {
""")],
  needs="a case that wrote on the error stream, with -e and an XML report",
  what="the cases failed for their error output have no failure in the report",
  run=RUN + 'timeout 60 ./demo -e -x r.xml > out 2>&1 && fail "status"\n[ "$(n r.xml "<failure")" = 1 ] || fail "$(n r.xml "<failure") failures in the report"\nexit 0',
  demo=fut.HEAD + r'''
TEST(Comp, loud) { std::cerr << "oops\n"; }
TEST(Comp, good) { EXPECT_EQ(1, 1); }
FALCON_TEST_MAIN
'''),
 dict(id="T01-component-of-first", property="T01", srcs=FUT,
  edits=[(U, """         if (!hasPassed(tcase))
         {
            p->status = -1;
            p->failedCount++;
            component.failures++;""", """         if (!hasPassed(tcase))
         {
            p->status = component.failures == 0 ? ~p->status : p->status;
            p->failedCount++;
            component.failures++;""")],
  needs="failing cases in an even number of components",
  what="the status goes back to success with the second failing component",
  run=RUN + 'timeout 60 ./demo > out 2>&1 && fail "exit status zero with failing cases"\nexit 0',
  demo=fut.HEAD + r'''
TEST(A, bad) { EXPECT_EQ(1, 2); }
TEST(B, bad) { EXPECT_EQ(1, 2); }
FALCON_TEST_MAIN
'''),
 dict(id="T03-shared-once", property="T03", srcs=FUT,
  edits=[(C, """      std::cout.rdbuf(p->outbuf);
      std::cerr.rdbuf(p->errbuf);
""", """      std::cout.rdbuf(p->outbuf);
      if(std::cerr.rdbuf() != p->outbuf) {
         std::cerr.rdbuf(p->errbuf);
      }
""")],
  needs="a case that joins its error stream to where the output went before it",
  what="the error stream of the later cases stays where the case has put it",
  pre="",
  run=RUN + 'timeout 60 ./demo -v 0 > out 2> err\n[ "$(n err "after all")" = 1 ] || fail "the error stream was not given back"\nexit 0',
  demo=fut.HEAD + r'''
static std::streambuf* out = std::cout.rdbuf();
TEST(Comp, joins) { std::cerr.rdbuf(out); }
int main(int argc, char* argv[]) {
	int s = ::falcon::testing::UnitTest::singleton()->main(argc, argv);
	std::cerr << "after all\n"; return s;
}
'''),
 dict(id="T02-done-already", property="T02", srcs=FUT,
  edits=[(U, """         beginTest(++count, tcase);
         tcase->run();
         endTest(count, tcase);

""", """         if(tcase->status() == TestCase::NONE) {
            beginTest(++count, tcase);
            tcase->run();
            endTest(count, tcase);
         }

""")],
  needs="a case named twice, apart, on the command line",
  what="the second run of a case is skipped, while it's counted in the report",
  run=RUN + 'timeout 60 ./demo -c -t C::a -t C::b -t C::a > out 2>&1 || fail "exit"\n[ "$(n out "run of a")" = 2 ] || fail "not run twice"',
  demo=fut.HEAD + r'''
TEST(C, a) { std::cout << "run of a\n"; }
TEST(C, b) { std::cout << "run of b\n"; }
FALCON_TEST_MAIN
'''),
]
