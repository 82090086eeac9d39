"""Planted bugs of the logging service, the stream listener and the logger."""
SYS = ["src/engine/logsystem.cpp"]
LOG = ["src/engine/logsystem.cpp", "src/engine/logger.cpp", "src/engine/logstream.cpp"]
TSAN = "-O1 -g -fsanitize=thread"

HEAD = r'''
#include <falcon/logger.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace falcon;
static void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
#define EXPECT(c, ...) do { if(!(c)) { printf(__VA_ARGS__); printf("\n"); exit(1); } } while(0)
struct Rec: LogSystem::Listener {
	std::mutex mtx; std::vector<std::string> got; std::vector<int> lines; int delay = 0;
	void onMessage(const LogSystem::Message& m) override {
		std::string first = m.m_message;
		if(delay) nap(delay);
		std::lock_guard<std::mutex> g(mtx);
		got.push_back(m.m_message == first ? first : "changed while delivered: " + m.m_message);
		lines.push_back(m.m_line);
	}
	size_t count() { std::lock_guard<std::mutex> g(mtx); return got.size(); }
	bool wait(size_t n, int ms = 20000) { while(count() < n && ms-- > 0) nap(1000); return count() >= n; }
};
'''

PLANTS = [
 dict(id="L01-recycled-early", property="L01", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", """		// Now send the message
		sendMessageToListeners(msg);

		// ... or remove the dead ones?
		cleanupTerminatedListeners();

		// give back to the pool
		disposeMsg(msg);
""", """		// give back to the pool
		Message* current = msg;
		disposeMsg(current);

		// Now send the message
		sendMessageToListeners(current);

		// ... or remove the dead ones?
		cleanupTerminatedListeners();
""")],
  needs="a submission from another thread while a listener is still reading the message delivered to it",
  what="the message storage is given back to the pool before the listeners read it, so that a concurrent submission replaces the text being delivered (or it is deleted, when the pool is full)",
  demo=HEAD + r'''
int main() {
	LogSystem sys;
	auto l = std::make_shared<Rec>(); l->delay = 2000;
	sys.addListener(l);
	for(int i = 0; i < 40; ++i) { sys.log("f", i, LogSystem::INFO, "", "message " + std::to_string(i)); nap(1500); }
	EXPECT(l->wait(40), "only %zu delivered", l->count());
	for(int i = 0; i < 40; ++i)
		EXPECT(l->got[i] == "message " + std::to_string(i), "message %d is '%s'", i, l->got[i].c_str());
}
'''),
 dict(id="L01-backlog-drop", property="L01", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", """	m_messages.push_back(msg);
	if(m_messages.size() > m_maxMsgQueueSize) {
		m_maxMsgQueueSize = m_messages.size();
	}
""", """	if(m_messages.size() > 64u * MESSAGE_POOL_THRESHOLD) {
		// the listeners can't keep up: make room for the new message
		disposeMsg(m_messages.front());
		m_messages.pop_front();
	}
	if(m_messages.size() >= m_maxMsgQueueSize) {
		m_maxMsgQueueSize = m_messages.size() + 1;
	}
	m_messages.push_back(msg);
""")],
  needs="a backlog of more than 4096 messages",
  what="the oldest message of a backlog longer than 4096 is dropped to make room for the new one",
  demo=HEAD + r'''
int main() {
	LogSystem sys(false);
	auto l = std::make_shared<Rec>();
	sys.addListener(l);
	for(int i = 0; i < 5000; ++i) sys.log("f", i, LogSystem::INFO, "", std::to_string(i));
	sys.start();
	EXPECT(l->wait(5000, 5000), "only %zu delivered", l->count());
	for(int i = 0; i < 5000; ++i) EXPECT(l->got[i] == std::to_string(i), "message %d is '%s'", i, l->got[i].c_str());
}
'''),
 dict(id="L02-critical-first", property="L02", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", """	m_messages.push_back(msg);
	if(m_messages.size() > m_maxMsgQueueSize) {""", """	if(msg->m_level == LEVEL::CRITICAL) {
		m_messages.push_front(msg);
	}
	else {
		m_messages.push_back(msg);
	}
	if(m_messages.size() > m_maxMsgQueueSize) {""")],
  needs="a critical message submitted while others are in the backlog",
  what="critical messages overtake those submitted before them, and are inverted among them",
  demo=HEAD + r'''
int main() {
	LogSystem sys(false);
	auto l = std::make_shared<Rec>();
	sys.addListener(l);
	for(int i = 0; i < 20; ++i) sys.log("f", i, i % 5 == 4 ? LogSystem::CRITICAL : LogSystem::INFO, "", std::to_string(i));
	sys.start();
	EXPECT(l->wait(20), "only %zu delivered", l->count());
	for(int i = 0; i < 20; ++i) EXPECT(l->got[i] == std::to_string(i), "message %d is '%s'", i, l->got[i].c_str());
}
'''),
 dict(id="L03-partial-match", property="L03", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", "return std::regex_match(cat, m_catRegex);",
          "return std::regex_search(cat, m_catRegex, std::regex_constants::match_continuous);")],
  needs="a category of which the filter matches just the beginning",
  what="a category is accepted when the filter expression matches a prefix of it, not the whole",
  demo=HEAD + r'''
int main() {
	Rec l;
	l.category("net(::[a-z]+)?");
	EXPECT(l.checkCategory("net") && l.checkCategory("net::tcp") && !l.checkCategory("a net"), "filter");
	EXPECT(!l.checkCategory("network"), "'network' accepted by a filter for 'net'");
	EXPECT(!l.checkCategory("net::tcp::v4"), "'net::tcp::v4' accepted");
}
'''),
 dict(id="L03-cached-match", property="L03", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", "	  return std::regex_match(cat, m_catRegex);", """	  // most messages in a row are of the same category
	  if(!m_lastValid || m_lastFilter.size() != m_category.size() || m_lastCategory != cat) {
		  m_lastMatched = std::regex_match(cat, m_catRegex);
		  m_lastValid = true;
		  m_lastFilter = m_category;
		  m_lastCategory = cat;
	  }
	  return m_lastMatched;"""),
   ("src/include/falcon/logsystem.h", "      std::regex m_catRegex;\n", "      std::regex m_catRegex;\n      mutable bool m_lastValid = false, m_lastMatched = false;\n      mutable std::string m_lastFilter, m_lastCategory;\n")],
  needs="two messages of the same category in a row, with the filter replaced by one as long in between",
  what="the outcome for the last category is kept when the filter is replaced by another of the same length",
  demo=HEAD + r'''
int main() {
	LogSystem sys;
	auto l = std::make_shared<Rec>(); auto all = std::make_shared<Rec>();
	sys.addListener(l); sys.addListener(all);
	l->category("net");
	sys.log("f", 1, LogSystem::INFO, "net", "1");
	EXPECT(all->wait(1) && l->count() == 1, "not delivered");
	l->category("dsk");
	sys.log("f", 2, LogSystem::INFO, "net", "2");
	EXPECT(all->wait(2), "not delivered");
	EXPECT(l->count() == 1, "delivered despite the new filter");
}
'''),
 dict(id="L03-failed-filter", property="L03", srcs=SYS,
  edits=[("src/include/falcon/logsystem.h", """			  m_catRegex = std::regex(regex_cat);
			  m_category = regex_cat;
""", """			  m_category = regex_cat;
			  m_catRegex.assign(m_category);
""")],
  needs="an invalid filter expression set on a listener, then a message with a category",
  what="a refused filter expression replaces the expression in use all the same: the listener keeps reporting it, and one without filter gets deaf to messages with a category",
  demo=HEAD + r'''
int main() {
	LogSystem sys;
	auto l = std::make_shared<Rec>();
	sys.addListener(l);
	try { l->category("([a-"); return 1; } catch(const LogSystem::InvalidCategory&) {}
	EXPECT(l->category() == "", "filter is now '%s'", l->category().c_str());
	sys.log("f", 1, LogSystem::INFO, "net", "one");
	EXPECT(l->wait(1, 3000), "not delivered");
}
'''),
 dict(id="L04-late-release", property="L04", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", """		cleanupTerminatedListeners();

""", """		if(m_msgReceived % MESSAGE_POOL_THRESHOLD == 0) {
			cleanupTerminatedListeners();
		}

""")],
  needs="a listener detached at any moment but right before the 64th, 128th... message",
  what="detached listeners are kept by the service until many more messages are processed",
  demo=HEAD + r'''
int main() {
	LogSystem sys;
	auto w = std::make_shared<Rec>();
	sys.addListener(w);
	std::weak_ptr<Rec> weak;
	{
		auto l = std::make_shared<Rec>(); weak = l;
		sys.addListener(l);
		sys.log("f", 1, LogSystem::INFO, "", "one");
		EXPECT(w->wait(1), "no delivery");
		l->detach();
	}
	sys.log("f", 1, LogSystem::INFO, "", "two");
	sys.log("f", 1, LogSystem::INFO, "", "three");
	EXPECT(w->wait(3), "no delivery");
	for(int i = 0; i < 2000 && !weak.expired(); ++i) nap(1000);
	EXPECT(weak.expired(), "the detached listener is still held");
}
'''),
 dict(id="L04-lost-registration", property="L04", srcs=SYS, timeout=200,
  edits=[("src/engine/logsystem.cpp", """	std::lock_guard<std::mutex> guard(m_mtxListeners);
	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
			std::back_inserter(m_activeListeners));
	m_pendingListeners.clear();
""", """	ListenerList incoming;
	{
		std::lock_guard<std::mutex> guard(m_mtxListeners);
		incoming = m_pendingListeners;
	}
	std::lock_guard<std::mutex> guard(m_mtxListeners);
	std::copy(incoming.begin(), incoming.end(),
			std::back_inserter(m_activeListeners));
	m_pendingListeners.clear();
""")],
  needs="a registration between the two critical sections of the log thread, while it takes in other listeners",
  what="a listener registered while the log thread takes in the pending ones can be forgotten",
  demo=HEAD + r'''
struct Null: LogSystem::Listener { void onMessage(const LogSystem::Message&) override {} };
int main() {
	for(int round = 0; round < 60; ++round) {
		LogSystem sys;
		std::atomic<bool> done(false);
		std::thread talk([&]{ int i = 0; while(!done) { sys.log("f", 1, LogSystem::INFO, "", "x"); if(++i % 64 == 0) nap(50); } });
		std::vector<std::thread> th;
		const int N = 300;
		for(int t = 0; t < 3; ++t) th.emplace_back([&]{ for(int i = 0; i < N; ++i) { auto p = std::make_shared<Null>(); p->level(LogSystem::CRITICAL); sys.addListener(p); } });
		for(auto& t: th) t.join();
		done = true; talk.join();
		sys.stop();
		LogSystem::Diags d; sys.getDiags(d);
		EXPECT(d.m_activeListeners + d.m_pendingListeners == 3 * N, "round %d: %zu active and %zu pending of %d listeners", round, d.m_activeListeners, d.m_pendingListeners, 3 * N);
	}
}
'''),
 dict(id="L05-pool-limit", property="L05", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", "		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {",
          "		if(m_pool.size() < MESSAGE_POOL_THRESHOLD || m_messages.empty()) {")],
  needs="a burst exceeding the pool, whose last messages are processed with no other in the backlog",
  what="the pool grows beyond its limit, once per burst, and the backlog is read without its lock",
  demo=HEAD + r'''
int main() {
	LogSystem sys(false);
	auto l = std::make_shared<Rec>();
	sys.addListener(l);
	for(int i = 0; i < 200; ++i) sys.log("f", i, LogSystem::INFO, "", "x");
	sys.start();
	EXPECT(l->wait(200), "only %zu delivered", l->count());
	nap(20000);
	LogSystem::Diags d; sys.getDiags(d);
	EXPECT(d.m_poolSize <= 64, "pool of %zu", d.m_poolSize);
	EXPECT(d.m_poolSize == 64 + d.m_msgsCreated - d.m_msgsDiscarded, "conservation");
}
'''),
 dict(id="L05-reserve", property="L05", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", "		if(!m_pool.empty()) {", "		// the last one is for emergencies\n		if(m_pool.size() > 1) {")],
  needs="a backlog of at least 64 messages",
  what="messages are created while one is left in the pool",
  demo=HEAD + r'''
int main() {
	LogSystem sys(false);
	for(int i = 0; i < 64; ++i) sys.log("f", i, LogSystem::INFO, "", "x");
	LogSystem::Diags d; sys.getDiags(d);
	EXPECT(d.m_msgsCreated == 0 && d.m_poolSize == 0, "%zu created with %zu in the pool", (size_t)d.m_msgsCreated, (size_t)d.m_poolSize);
}
'''),
 dict(id="L06-put-back", property="L06", srcs=SYS,
  edits=[("src/engine/logsystem.cpp", """		Message* msg = m_messages.front();
		m_messages.pop_front();
		msgl.unlock();

		// Do we need to add new listeners?
		processNewListeners();

		// Now send the message
		sendMessageToListeners(msg);

		// ... or remove the dead ones?
		cleanupTerminatedListeners();

		// give back to the pool
		disposeMsg(msg);
	}
""", """		// take some at once, not to contend the lock with the producers
		std::vector<Message*> batch;
		while(batch.size() < 16 && !m_messages.empty()) {
			batch.push_back(m_messages.front());
			m_messages.pop_front();
		}
		msgl.unlock();

		for(Message* msg: batch) {
			msgl.lock();
			if(m_isTerminated) {
				// for the next start
				m_messages.push_back(msg);
				msgl.unlock();
				continue;
			}
			msgl.unlock();

			// Do we need to add new listeners?
			processNewListeners();

			// Now send the message
			sendMessageToListeners(msg);

			// ... or remove the dead ones?
			cleanupTerminatedListeners();

			// give back to the pool
			disposeMsg(msg);
		}
	}
"""), ("src/engine/logsystem.cpp", "#include <falcon/logsystem.h>\n", "#include <falcon/logsystem.h>\n#include <vector>\n")],
  needs="a stop with more than one batch in the backlog, followed by a start",
  what="the messages of the batch under way when the service stops are put after those in the backlog: delivered out of order after the next start",
  demo=HEAD + r'''
int main() {
	LogSystem sys(false);
	auto l = std::make_shared<Rec>(); l->delay = 1000;
	sys.addListener(l);
	for(int i = 0; i < 100; ++i) sys.log("f", i, LogSystem::INFO, "", std::to_string(i));
	sys.start(); nap(4000); sys.stop();
	l->delay = 0; sys.start();
	EXPECT(l->wait(100), "only %zu delivered", l->count());
	for(int i = 0; i < 100; ++i) EXPECT(l->lines[i] == i, "message %d is %d", i, l->lines[i]);
}
'''),
 dict(id="L06-lost-wakeup", property="L06", srcs=SYS, timeout=200, flags="-O1 -g -Wl,--wrap=pthread_mutex_lock",
  edits=[("src/engine/logsystem.cpp", """	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
	m_cvLogs.notify_all();
""", """	// the log thread checks us when waken up
	m_cvLogs.notify_all();
	m_mtxMessage.lock();
	m_isTerminated = true;
	m_mtxMessage.unlock();
""")],
  needs="the log thread going to sleep, or reaching it after the notification, before the flag is set",
  what="stop notifies the log thread before asking it to terminate: when it is idle it sleeps on, and stop never returns",
  demo=HEAD + r'''
static thread_local bool slow = false;
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if(slow) nap(2000); return __real_pthread_mutex_lock(m); }
int main() {
	std::thread([]{ nap(30 * 1000 * 1000); printf("stop does not return\n"); fflush(stdout); _Exit(1); }).detach();
	for(int i = 0; i < 100; ++i) {
		LogSystem sys;
		nap(300);
		slow = true;
		sys.stop();
		slow = false;
		sys.start();
		sys.stop();
	}
	_Exit(0);
}
'''),
 dict(id="L07-diags-unlocked", property="L07", srcs=SYS, flags=TSAN,
  run="TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo",
  edits=[("src/engine/logsystem.cpp", """	{
		std::lock_guard<std::mutex> guard(m_mtxMessage);
		diags.m_maxMsgQueueSize = m_maxMsgQueueSize;
	}
	{
		std::lock_guard<std::mutex> guard(m_mtxPool);
		diags.m_poolSize = m_pool.size();
	}
""", """	diags.m_maxMsgQueueSize = m_maxMsgQueueSize;
	{
		std::lock_guard<std::mutex> guard(m_mtxPool);
		diags.m_poolSize = m_pool.size();
	}
""")],
  needs="reading the diagnostics while another thread submits messages",
  what="the diagnostics read the longest backlog without its lock: a data race with the submissions",
  demo=HEAD + r'''
int main() {
	LogSystem sys;
	auto l = std::make_shared<Rec>();
	sys.addListener(l);
	std::thread t([&]{ for(int i = 0; i < 3000; ++i) sys.log("f", i, LogSystem::INFO, "", "x"); });
	LogSystem::Diags d;
	for(int i = 0; i < 3000; ++i) sys.getDiags(d);
	t.join();
}
'''),
 dict(id="L07-filter-race", property="L07", srcs=SYS, flags=TSAN,
  run="TSAN_OPTIONS=halt_on_error=1 timeout 100 ./demo",
  edits=[("src/include/falcon/logsystem.h", """    	  std::lock_guard<std::mutex> guard(m_mtxCategory);
    	  // may throw in case of error
    	  try{
			  m_catRegex = std::regex(regex_cat);
			  m_category = regex_cat;
""", """    	  // may throw in case of error
    	  try{
			  m_catRegex = std::regex(regex_cat);
			  std::lock_guard<std::mutex> guard(m_mtxCategory);
			  m_category = regex_cat;
""")],
  needs="a filter changed while a message with a category is being delivered",
  what="the compiled filter expression is replaced without the lock under which the log thread uses it",
  demo=HEAD + r'''
int main() {
	LogSystem sys;
	auto l = std::make_shared<Rec>();
	l->category("[a-z]+");
	sys.addListener(l);
	std::thread t([&]{ for(int i = 0; i < 2000; ++i) sys.log("f", i, LogSystem::INFO, "abc", "x"); });
	for(int i = 0; i < 500; ++i) l->category(i % 2 ? "[a-z]+" : "(a|b|c)*");
	t.join();
}
'''),
 dict(id="L08-shared-too-early", property="L08", srcs=LOG,
  edits=[("src/include/falcon/logstream.h", """		std::lock_guard<std::mutex> guard(m_mtxStream);
		m_pstream = out;
""", """		m_pstream = out;
		std::lock_guard<std::mutex> guard(m_mtxStream);
""")],
  needs="a shared stream being replaced by another one while a record is being written on it",
  what="the previous shared stream is released before the record under way on it is complete",
  demo=HEAD + r'''
static std::atomic<bool> writing{false}, freed{false};
struct Buf: std::streambuf {
	std::streamsize xsputn(const char*, std::streamsize n) override { writing = true; nap(3000); writing = false; return n; }
	int overflow(int c) override { return c; }
};
struct Out: std::ostream { Buf b; Out(): std::ostream(nullptr) { rdbuf(&b); } ~Out() { if(writing) freed = true; nap(30000); } };
int main() {
	for(int i = 0; i < 20 && !freed; ++i) {
		LogStreamListener l;
		l.share(std::make_shared<Out>());
		std::thread t([&]{ l.onMessage(LogSystem::Message("a/b.cpp", 1, LogSystem::INFO, "", "text")); });
		while(!writing) nap(10);
		l.share(std::make_shared<Out>());
		t.join();
	}
	EXPECT(!freed, "a stream destroyed while written on");
}
'''),
 dict(id="L08-first-separator", property="L08", srcs=LOG,
  edits=[("src/engine/logstream.cpp", "	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);",
          "	size_t fpos = msg.m_file.find_last_of(\"/\", msg.m_file.find_last_of(\".\"));")],
  needs="a source file whose name has no dot, or whose directory has the only one",
  what="the directories of a source file are recognised only before the last dot: '/src/v1.2/Makefile' is shown as 'v1.2/Makefile'",
  demo=HEAD + r'''
int main() {
	LogStreamListener l;
	std::ostringstream s; l.writeOn(&s);
	l.onMessage(LogSystem::Message("/src/v1.2/module", 7, LogSystem::INFO, "", "text"));
	EXPECT(s.str().find("[INFO] module:7 text\n") != std::string::npos, "%s", s.str().c_str());
	s.str("");
	l.onMessage(LogSystem::Message("/src/v1.2/module.cpp", 7, LogSystem::INFO, "", "text"));
	EXPECT(s.str().find("[INFO] module.cpp:7 text\n") != std::string::npos, "%s", s.str().c_str());
}
'''),
 dict(id="L10-critical-only", property="L10", srcs=LOG,
  edits=[("src/include/falcon/logger.h", "	    bool doLog() const noexcept {return m_obj != nullptr;}\n	    Logger& obj",
          "	    bool doLog() const noexcept {return m_obj != nullptr && m_obj->level() > LLCRIT;}\n	    Logger& obj")],
  needs="a critical statement while the run-time level is LLCRIT",
  what="with the run-time level at LLCRIT the operands of the critical statements are not serialised: their messages are empty",
  demo=HEAD + r'''
int main() {
	auto l = std::make_shared<Rec>();
	LOGGER.addListener(l);
	LOGGER.level(LLCRIT);
	LOG_ERR << "excluded";
	LOG_CRIT << "included";
	EXPECT(l->wait(1), "not delivered");
	EXPECT(l->got[0].substr(0, 8) == "included", "'%s'", l->got[0].c_str());
}
'''),
 dict(id="L11-stacked-filters", property="L11", srcs=LOG,
  edits=[("src/engine/logger.cpp", """	if (m_proxy.get()) {
		m_proxy->detach();
	}
""", """	if (m_proxy.get()) {
		m_proxy->enable(m_proxy->level() < l);
	}
""")],
  needs="a second filter installed at a higher level than the first, without clearing in between",
  what="the former category filter stays active next to the one that replaces it",
  demo=HEAD + r'''
static size_t times(const std::string& s, const std::string& w) { size_t n = 0, p = 0; while((p = s.find(w, p)) != std::string::npos) { ++n; p += w.size(); } return n; }
int main() {
	std::ostringstream out;
	LOGGER.level(LLINFO);
	LOGGER.defaultListener()->writeOn(&out);
	LOGGER.defaultListener()->level(LLWARN);
	LOGGER.categoryFilter("first", LLINFO);
	LOGGER.categoryFilter("second", LLTRACE);
	LOG_INFO << LOG_CAT("first") << "alpha";
	LOG_TRC << LOG_CAT("second") << "beta";
	nap(200000);
	LOGGER.clearFilter();
	LOG_INFO << LOG_CAT("first") << "gamma";
	LOG_WARN << "end";
	nap(200000);
	LOGGER.stop();
	EXPECT(times(out.str(), "beta") >= 1 && times(out.str(), "end") == 1, "lost: %s", out.str().c_str());
	EXPECT(times(out.str(), "alpha") == 0 && times(out.str(), "gamma") == 0, "message of the replaced filter: %s", out.str().c_str());
}
'''),
 dict(id="L11-level-not-restored", property="L11", srcs=LOG,
  edits=[("src/engine/logger.cpp", "	m_proxy.reset();\n	level(m_proxyBaseLevel);\n", "	level(std::min(m_proxyBaseLevel, m_proxy->level()));\n	m_proxy.reset();\n")],
  needs="a filter at a level lower than the logger's, then cleared",
  what="clearing a filter installed with a level below the logger's leaves the logger at the level of the filter",
  demo=HEAD + r'''
int main() {
	LOGGER.level(LLDEBUG);
	LOGGER.defaultListener()->level(LLINFO);
	LOGGER.categoryFilter("net", LLWARN);
	LOGGER.clearFilter();
	EXPECT(LOGGER.level() == LLDEBUG, "level %d", (int)LOGGER.level());
	EXPECT(LOGGER.defaultListener()->level() == LLINFO, "default level %d", (int)LOGGER.defaultListener()->level());
}
'''),
 dict(id="L12-target-filter", property="L12", srcs=SYS,
  edits=[("src/include/falcon/logproxy.h", "    	m_other->onMessage(msg);", "    	if(m_other->checkCategory(msg.m_category)) {\n    		m_other->onMessage(msg);\n    	}")],
  needs="a target with a category filter of its own",
  what="the target's own category filter is applied on top of the proxy's",
  demo=HEAD + r'''
#include <falcon/logproxy.h>
int main() {
	LogSystem sys;
	auto t = std::make_shared<Rec>(); t->category("disk");
	auto all = std::make_shared<Rec>();
	auto p = std::make_shared<LogProxyListener>(t); p->category("net");
	sys.addListener(p); sys.addListener(all);
	sys.log("f", 1, LogSystem::INFO, "net", "1");
	EXPECT(all->wait(1), "not delivered");
	EXPECT(t->wait(1, 2000), "not passed to the target");
}
'''),
]
