"""Still further planted bugs."""
import os, importlib.util
def _load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
log, fut, stack, values = (_load(n) for n in ("log", "fut", "stack", "values"))
SYS, LOG, TSAN = log.SYS, log.LOG, log.TSAN
FUT, U, C, RUN = fut.FUT, fut.U, fut.C, fut.RUN
PS = stack.F
LS, LSH, LH, LP = "src/engine/logsystem.cpp", "src/include/falcon/logsystem.h", "src/include/falcon/logger.h", "src/include/falcon/logproxy.h"
ST = "src/engine/logstream.cpp"
SH, IH = "src/include/falcon/engine/stringhandler.h", "src/include/falcon/engine/inthandler.h"
FX, AT, DI = values.FX, values.AT, "src/include/falcon/engine/distribute.h"
CP = "src/engine/compiler.cpp"

PLANTS = [
 dict(id="L05-max-restart", property="L05", srcs=SYS,
  edits=[(LS, """		m_mtxMessage.lock();
		m_isTerminated = false;
		m_mtxMessage.unlock();
		m_logThread = new""", """		m_mtxMessage.lock();
		m_isTerminated = false;
		m_maxMsgQueueSize = m_messages.size();
		m_mtxMessage.unlock();
		m_logThread = new"""), (LS, "	if(m_logThread == 0) {\n		// we might", "	if(m_logThread == nullptr) {\n		// we might")],
  needs="a service stopped and started again after a peak of its queue",
  what="the greatest size of the queue told by the diagnostics is forgotten when the service is started again",
  demo=log.HEAD + r'''
int main() {
	LogSystem sys(false);
	for(int i = 0; i < 50; ++i) sys.log("f", 1, LogSystem::INFO, "", "m");
	auto l = std::make_shared<Rec>(); sys.addListener(l);
	sys.start(); EXPECT(l->wait(50), "not delivered");
	sys.stop(); sys.start(); sys.stop();
	LogSystem::Diags d; sys.getDiags(d);
	EXPECT(d.m_maxMsgQueueSize >= 50, "peak of %zu after 50 messages were waiting", d.m_maxMsgQueueSize);
}
'''),
 dict(id="L08-trailing-newline", property="L08", srcs=LOG,
  edits=[(ST, """	out << " " << msg.m_message << "\\n";
""", """	out << " " << msg.m_message;
	// a record is ended by one end of line only
	if(msg.m_message.empty() || msg.m_message.back() != '\\n') {
		out << "\\n";
	}
""")],
  needs="a message whose text ends in a newline",
  what="the record of a message that ends in a newline is not ended by the newline of the record: the text read back lacks its last character",
  demo=log.HEAD + "#include <falcon/logstream.h>\n" + r'''
int main() {
	LogStreamListener l; std::ostringstream out; l.writeOn(&out);
	l.onMessage(LogSystem::Message("f", 7, LogSystem::INFO, "", "text\n"));
	std::string s = out.str();
	EXPECT(s.size() > 12 && s.substr(s.size() - 11) == "f:7 text\n\n\0" || s.substr(s.size() - 10) == "f:7 text\n\n", "record '%s'", s.c_str());
}
'''),
 dict(id="L12-depth", property="L12", srcs=SYS,
  edits=[(LP, """    	m_other->onMessage(msg);
""", """    	// proxies might be linked in a ring by mistake
    	static thread_local int depth = 0;
    	if(depth < 8) {
    		++depth;
    		m_other->onMessage(msg);
    		--depth;
    	}
""")],
  needs="more than eight proxies one over the other",
  what="messages do not reach a listener through a chain of more than eight proxies",
  demo=log.HEAD + "#include <falcon/logproxy.h>\n" + r'''
int main() {
	LogSystem sys; auto t = std::make_shared<Rec>(); LogSystem::PListener p = t;
	for(int i = 0; i < 20; ++i) p = std::make_shared<LogProxyListener>(p);
	sys.addListener(p);
	sys.log("f", 1, LogSystem::INFO, "", "m");
	EXPECT(t->wait(1, 3000), "not delivered through 20 proxies");
}
'''),
 dict(id="L12-exception", property="L12", srcs=SYS,
  edits=[(LP, """		m_other(other)
	{}
""", """		m_other(other)
	{
		level(other->level());
	}
""")],
  needs="a proxy made over a listener with a level of its own",
  what="a proxy takes the level its target has when it is made, and drops what is above it",
  demo=log.HEAD + "#include <falcon/logproxy.h>\n" + r'''
int main() {
	LogSystem sys; auto t = std::make_shared<Rec>(); t->level(LogSystem::ERROR);
	sys.addListener(std::make_shared<LogProxyListener>(t));
	sys.log("f", 1, LogSystem::INFO, "", "m");
	EXPECT(t->wait(1, 3000), "not delivered");
}
'''),
 dict(id="L04-lock-in-delivery", property="L04", srcs=SYS,
  edits=[(LS, """	m_msgReceived++;
	for(auto listener: m_activeListeners) {
""", """	m_msgReceived++;
	std::lock_guard<std::mutex> guard(m_mtxListeners);
	for(const auto& listener: m_activeListeners) {
""")],
  needs="a listener which registers another one from within its own call",
  what="the list of listeners is locked during deliveries: a listener that adds another one blocks the service for ever",
  run="timeout 20 ./demo",
  demo=log.HEAD + r'''
struct Adds: LogSystem::Listener { LogSystem& s; std::shared_ptr<Rec> r; Adds(LogSystem& x, std::shared_ptr<Rec> y): s(x), r(y) {} void onMessage(const LogSystem::Message& m) override { if(r) { auto x = r; r.reset(); s.addListener(x); } } };
int main() {
	LogSystem sys; auto r = std::make_shared<Rec>();
	sys.addListener(std::make_shared<Adds>(sys, r));
	sys.log("f", 1, LogSystem::INFO, "", "one");
	nap(20000);
	sys.log("f", 1, LogSystem::INFO, "", "two");
	if(!r->wait(1, 3000)) { printf("not delivered\n"); fflush(stdout); _Exit(1); }
}
'''),
 dict(id="L06-join-unlocked", property="L06", srcs=SYS,
  edits=[(LS, """	// we join in a lock, but this stop() should hardly be called more than once per program.
	m_logThread->join();
	delete m_logThread;
	m_logThread = 0;
""", """	// don't keep the others waiting while the thread ends.
	std::thread* logThread = m_logThread;
	m_logThread = 0;
	m_mtxThread.unlock();
	logThread->join();
	delete logThread;
	m_mtxThread.lock();
""")],
  needs="start called by a thread while another one, in stop, waits for the log thread to end",
  what="a service started while being stopped takes back the request to end: the one who stops it waits for ever, or the messages are delivered by two threads at once",
  run="timeout 60 ./demo",
  demo=log.HEAD + r'''
int main() {
	for(int i = 0; i < 40; ++i) {
		auto* sys = new LogSystem; auto l = std::make_shared<Rec>(); l->delay = 3000; sys->addListener(l);
		for(int k = 0; k < 20; ++k) sys->log("f", k, LogSystem::INFO, "", "m");
		while(l->count() == 0) nap(100);
		std::atomic<int> done{0};
		std::thread a([&]{ sys->stop(); done = 1; });
		for(int w = 0; w < 5000 && !done; ++w) { nap(w < 100 ? 100 : 1000); if(w < 100) sys->start(); }
		if(!done) { printf("stop does not return\n"); fflush(stdout); _Exit(1); }
		a.join(); sys->stop();
		std::vector<int> g = l->lines; for(size_t k = 1; k < g.size(); ++k) if(g[k] <= g[k-1]) { printf("out of order\n"); fflush(stdout); _Exit(1); }
		delete sys;
	}
}
'''),
 dict(id="S03-clear-releases", property="S03", flags="-O1 -g",
  edits=[(PS, """      while(m_curBase != m_base.begin()) {
         m_curBase->clear();
         --m_curBase;
      }
      m_curBase->clear();
   }

   /**
    * Resizes""", """      while(m_curBase != m_base.begin()) {
         page_type(m_dataAllocator).swap(*m_curBase);
         --m_curBase;
      }
      m_curBase->clear();
   }

   /**
    * Resizes""")],
  needs="a stack of several pages cleared and filled again, with elements that must not move",
  what="clearing gives the storage of the pages back without reserving it anew: the elements pushed later move when their page grows",
  demo=stack.HEAD + r'''
int main() {
	PagedStack<int> s(8, 2);
	for(int i = 0; i < 30; ++i) s.push(i);
	s.clear();
	std::vector<const int*> at;
	for(int i = 0; i < 30; ++i) { s.push(i); at.push_back(&s.top()); }
	size_t n = 30; for(auto it = s.begin(); it != s.end(); ++it) { --n; EXPECT(&*it == at[n], "element %zu moved", n); }
}
'''),
 dict(id="F03-narrow-count", property="F03",
  edits=[(FX, "      unsigned int sc = spinCount;\n", "      unsigned short sc = spinCount;\n")],
  needs="a futex of a spin count of 65536 or a multiple",
  what="the count of the attempts is narrower than the spin count: futexes of large spin counts yield at other attempts",
  demo=r'''
#include <sched.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <falcon/futex.h>
#include <thread>
#include <chrono>
static std::atomic<long> yields{0};
extern "C" int sched_yield(void) noexcept { ++yields; return 0; }
int main() {
	falcon::Futex<3000000000u> f; f.lock();
	std::atomic<bool> up{false};
	std::thread t([&]{ up = true; f.lock(); f.unlock(); });
	while(!up) {}
	std::this_thread::sleep_for(std::chrono::milliseconds(60));
	f.unlock(); t.join();
	if(yields > 0) { printf("%ld yields within 60 ms of a spin count of 3000000000\n", yields.load()); return 1; }
}
'''),
 dict(id="I01-whole-numbers", property="I01", srcs=values.ITEM,
  edits=[("src/include/falcon/engine/floathandler.h", """      ss << data.numericValue;
""", """      // whole numbers are written as such
      const bool whole = data.numericValue == static_cast<double>(toInt(data));
      if(whole) { ss << toInt(data); } else { ss << data.numericValue; }
""")],
  needs="a whole number with more than six digits, or minus zero",
  what="floats with an integer value of a million or more are not rendered as numbers of six digits",
  demo=values.ITEMH + r'''
int main() { Item a(12345678.0), b(-0.0); EXPECT(a.toString() == "1.23457e+07", "%s", a.toString().c_str()); EXPECT(b.toString() == "-0", "%s", b.toString().c_str()); }
'''),
 dict(id="I05-static-names", property="I05", srcs=values.ITEM, run="timeout 60 ./demo", flags="-O1 -g -fsanitize=address",
  edits=[("src/include/falcon/engine/boolhandler.h", "#include \"falcon/engine/flathandler.h\"", "#include <vector>\n#include \"falcon/engine/flathandler.h\""), ("src/include/falcon/engine/boolhandler.h", """    String toString(ItemData data) const noexcept override {return data.boolValue ? "true" : "false";}
""", """    String toString(ItemData data) const noexcept override {
      // made once
      static const std::vector<String> names{"false", "true"};
      return names[data.boolValue ? 1 : 0];
    }
""")],
  needs="a truth value turned into text by a static object destroyed after the first conversion was made",
  what="the names are static objects that are destroyed before the objects that use them: reading them then is an access to destroyed strings",
  demo=values.ITEMH + r'''
struct Early { Item* it = nullptr; ~Early() { if(!it) return; std::string t = it->toString(); if(t != "true") { printf("'%s'\n", t.c_str()); fflush(stdout); _Exit(1); } } };
static Early early;
int main() { static char filler[64]; (void)filler; early.it = new Item(true); EXPECT(early.it->toString() == "true", "in main"); }
'''),
 dict(id="I05-thread-buffer", property="I05", srcs=values.ITEM, run="timeout 60 ./demo", flags="-O1 -g -fsanitize=address",
  edits=[(IH, """      std::ostringstream ss;
      ss.imbue(std::locale::classic());
      ss << data.int64Value;
      return ss.str();
""", """      // making a stream each time is slow
      static thread_local std::ostringstream ss;
      static thread_local std::string text;
      ss.imbue(std::locale::classic());
      ss.str("");
      ss << data.int64Value;
      text = ss.str();
      return text;
""")],
  needs="an integer turned into text by the destructor of a static object, or of an object of a thread made before its first conversion",
  what="the stream of the thread is destroyed when the thread ends: the conversions made later by other objects use it after its end",
  demo=values.ITEMH + r'''
struct Early { Item* it = nullptr; ~Early() { if(!it) return; std::string t = it->toString(); if(t != "1234567890123456789") { printf("'%s'\n", t.c_str()); fflush(stdout); _Exit(1); } } };
static Early early;
int main() { early.it = new Item(int64(1234567890123456789)); EXPECT(early.it->toString() == "1234567890123456789", "in main"); }
'''),
 dict(id="C01-line", property="C01", srcs=["src/engine/code.cpp", "src/engine/compiler.cpp"],
  edits=[(CP, """	input >> value;
	return Code(value, 1);
""", """	// the stream might be set up to throw, look before reading
	if(input.peek() != std::istream::traits_type::eof()) { input >> value; }
	return Code(value, 1);
""")],
  needs="an empty source set up to throw on failure but not at its end",
  what="an empty stream that was asked to throw on failure is compiled silently",
  demo=values.HEAD + "#include <falcon/engine/compiler.h>\n" + r'''
int main() { std::istringstream in; in.exceptions(std::ios::failbit); falcon::Compiler c; bool thrown = false; try { c.compile(in); } catch(std::ios_base::failure&) { thrown = true; } EXPECT(thrown, "nothing reached the caller"); }
'''),
 dict(id="T04-failures-accumulate", property="T04", srcs=FUT,
  edits=[(U, """   p->status = 0;
   p->failedCount = 0;
   for(""", """   p->status = 0;
   for("""), (U, "      status(0),\n      screenWidth(50),\n", "      status(0),\n      screenWidth(50),\n      failedCount(0),\n")],
  needs="a program that runs its tests twice, with a report, and some case fails",
  what="the report of a second run counts the failures of the first one too",
  run=RUN + 'timeout 60 ./demo -x r.xml > out 2>&1\n[ "$(n r.xml "testsuites id.*failures=.1.")" = 1 ] || fail "$(grep -a testsuites r.xml)"\nexit 0',
  demo=fut.HEAD + r'''
TEST(C, bad) { EXPECT_EQ(1, 2); }
TEST(C, good) { EXPECT_EQ(1, 1); }
int main(int argc, char* argv[]) { UnitTest::singleton()->parseParams(argc - 1, argv + 1); UnitTest::singleton()->performUnitTests(); return UnitTest::singleton()->performUnitTests(); }
'''),
 dict(id="T05-name-sets-id", property="T05", srcs=FUT,
  edits=[(U, """         p->unitTestName = argv[i];
         continue;""", """         (p->unitTestId.find_first_of(" .") != std::string::npos ? p->unitTestId : p->unitTestName) = argv[i];
         continue;""")],
  needs="the name given after an identifier with a blank or a point",
  what="the name option replaces an identifier given before it when it has a blank or a point",
  run=RUN + 'timeout 60 ./demo -i "my id" -n name -x r.xml > out 2>&1\n[ "$(n r.xml "testsuites id=.my id.")" = 1 ] || fail "$(grep -a testsuites r.xml)"\nexit 0',
  demo=fut.HEAD + r'''
TEST(C, a) { EXPECT_EQ(1, 1); }
FALCON_TEST_MAIN
'''),
 dict(id="D01-late-assign", property="D01",
  edits=[(DI, """	tgt = *iter;
	++iter;
	distribute(std::forward<_iterator>(iter), args...);""", """	auto&& element = *iter;
	++iter;
	tgt = element;
	distribute(std::forward<_iterator>(iter), args...);""")],
  needs="an iterator whose element lives in itself, as those of streams",
  what="the element is assigned after stepping: from the iterators that keep their element in themselves it is the following one",
  demo=values.HEAD + "#include <utility>\n#include <falcon/engine/distribute.h>\n" + r'''
int main() { std::istringstream in("1 2 3 4"); std::istream_iterator<int> it(in); int a = 0, b = 0, c = 0; falcon::distribute(it, a, b, c); EXPECT(a == 1 && b == 2 && c == 3, "%d %d %d", a, b, c); }
'''),
]
