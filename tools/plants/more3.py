"""Bugs planted later: programs of several parts and others."""
import os, importlib.util
def _load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
log, fut, stack, values = (_load(n) for n in ("log", "fut", "stack", "values"))
LH, LS = "src/include/falcon/logger.h", "src/engine/logsystem.cpp"

# A program with the engine as a library, and a module which it loads.
MODSH = r'''#!/bin/bash
# Run with the repository as working directory, after its build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
f="-std=gnu++17 -O1 -g -w -pthread -fPIC -I src/include -I _build/include/falcon"
g++ $f -shared src/engine/*.cpp -Wl,-soname,libengine.so -o "$tmp/libengine.so" || exit 2
g++ $f -shared "$here/module.cpp" "$tmp/libengine.so" -Wl,-rpath,"$tmp" -o "$tmp/module.so" || exit 2
g++ $f "$here/demo.cpp" "$tmp/libengine.so" -Wl,-rpath,"$tmp" -ldl -o "$tmp/demo" || exit 2
cd "$tmp"
timeout 60 ./demo ./module.so
'''
MODHEAD = r'''
#include <falcon/logger.h>
#include <falcon/futex.h>
#include <dlfcn.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
using namespace falcon;
static void* module; 
template<typename F> F* sym(const char* n) { void* p = dlsym(module, n); if(!p) { printf("%s\n", dlerror()); exit(2); } return reinterpret_cast<F*>(p); }
#define EXPECT(c, ...) do { if(!(c)) { printf(__VA_ARGS__); printf("\n"); exit(1); } } while(0)
'''
PLANTS = [
 dict(id="M01-thread-ids", property="M01", demo_sh=MODSH,
  edits=[("src/include/falcon/futex.h", "   static thread_local unsigned int s_thread_id;\n", "   inline static thread_local unsigned int s_thread_id{0};\n"),
         ("src/engine/futex.cpp", "thread_local unsigned int RFutex::s_thread_id{0};\n", "")],
  needs="a recursive lock taken by a thread in two parts of a program, one of which is loaded at run time",
  what="each part of a program has its own number for the running thread: a module waits forever for a lock that its own thread holds",
  demo=MODHEAD + r'''
int main(int, char** v) {
	module = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
	RFutex other, f; other.lock(); 
	alarm(20);
	std::thread([&] { f.lock(); sym<void(RFutex&)>("twice")(f); EXPECT(f.isLocked(), "unlocked by the module"); f.unlock(); EXPECT(!f.isLocked(), "still locked"); }).join();
	other.unlock();
}
''', files={"module.cpp": r'''
#include <falcon/futex.h>
extern "C" void twice(falcon::RFutex& f) { f.lock(); f.lock(); f.unlock(); f.unlock(); }
'''}),
 dict(id="M01-thread-count", property="M01", demo_sh=MODSH,
  edits=[("src/include/falcon/futex.h", "   static std::atomic<unsigned int> s_count;\n", "   inline static std::atomic<unsigned int> s_count{0};\n"),
         ("src/engine/futex.cpp", "std::atomic<unsigned int> RFutex::s_count{0};\n", "")],
  needs="two threads, that take their first recursive lock in different parts of a program, one of which is loaded at run time",
  what="each part of a program counts the threads on its own: two threads get the same number, and hold a lock both at once",
  demo=MODHEAD + r'''
int main(int, char** v) {
	module = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
	RFutex f; f.lock();
	bool got = false;
	std::thread t([&] { sym<void(RFutex&, bool&)>("take")(f, got); });
	usleep(300000);
	EXPECT(!got, "a lock held by two threads");
	f.unlock(); t.join();
	EXPECT(got, "never taken");
}
''', files={"module.cpp": r'''
#include <falcon/futex.h>
extern "C" void take(falcon::RFutex& f, bool& got) { f.lock(); got = true; f.unlock(); }
'''}),

 dict(id="T08-rounded", property="T08", srcs=fut.FUT,
  edits=[("src/fut/marktime-unix.c++", "   currentMillisecs += (tv.tv_usec / 1000);\n", "   currentMillisecs += (tv.tv_usec + 500) / 1000;\n")],
  needs="a mark taken in the second half of a millisecond, compared to a later reading of the clock",
  what="marks are rounded to the next millisecond: they can be later than the moment at which they're taken",
  demo=fut.HEAD + r"""
#include <falcon/fut/marktime.h>
#include <sys/time.h>
int main() {
	for(int i = 0; i < 200000; ++i) {
		long long m; markTime(m); struct timeval tv; gettimeofday(&tv, nullptr);
		long long now = tv.tv_sec * 1000LL + tv.tv_usec / 1000;
		if(m > now) { printf("marked %lld at %lld\n", m, now); return 1; }
	}
}
"""),
 dict(id="I01-bignum-truth", property="I01", srcs=values.ITEM,
  edits=[("src/include/falcon/engine/bignumhandler.h", "return ! static_cast<BigNum *>(data.ptrValue)->is_zero(); }", "return toInt(data) != 0; }")],
  needs="a big number between -1 and 1 other than zero",
  what="the truth of a big number is that of its integer part",
  demo=values.ITEMH + r"""
int main() {
	EXPECT(Item(BigNum("0.25")).toBool(), "0.25 is false");
	EXPECT(Item(BigNum("-1e-30")).toBool(), "-1e-30 is false");
	EXPECT(!Item(BigNum(0)).toBool(), "0 is true");
}
"""),
 dict(id="L02-listener-first", property="L02", srcs=log.SYS,
  edits=[(LS, "	m_messages.push_back(msg);\n", """	if(m_logThread != nullptr && m_logThread->get_id() == std::this_thread::get_id()) {
		// a listener tells about the message it's getting: next to that.
		m_messages.push_front(msg);
	}
	else {
		m_messages.push_back(msg);
	}
""")],
  needs="a listener that logs from its onMessage while other messages are pending",
  what="messages logged by the listeners overtake those submitted before",
  demo=log.HEAD + r"""
struct Talks: Rec { LogSystem* s; void onMessage(const LogSystem::Message& m) override { Rec::onMessage(m); if(m.m_message == "one") { s->log("f", 1, LogSystem::INFO, "", "A"); s->log("f", 1, LogSystem::INFO, "", "B"); } } };
int main() {
	LogSystem sys(false);
	auto l = std::make_shared<Talks>(); l->s = &sys; sys.addListener(l);
	sys.log("f", 1, LogSystem::INFO, "", "one"); sys.log("f", 1, LogSystem::INFO, "", "two");
	sys.start();
	EXPECT(l->wait(4), "not delivered");
	EXPECT(l->got[1] == "two" && l->got[2] == "A" && l->got[3] == "B", "%s, %s, %s", l->got[1].c_str(), l->got[2].c_str(), l->got[3].c_str());
}
"""),
 dict(id="L13-no-wait", property="L13", srcs=log.LOG,
  edits=[(LS, "	m_logThread->join();\n", """	if(m_messages.size() > MESSAGE_POOL_THRESHOLD) {
		// it would be long: let it complete on its own.
		m_logThread->detach();
	}
	else {
		m_logThread->join();
	}
""")],
  needs="a program that ends while a listener is at work, with more than 64 messages pending",
  what="the end of the program doesn't wait for the logging thread when there's a backlog: a listener is called while and after the logger is destroyed",
  demo=log.HEAD + r"""
static int state = 0;
struct Slow: LogSystem::Listener { void onMessage(const LogSystem::Message&) override { state = 1; nap(200000); state = 2; } };
struct Last { ~Last() { if(state == 1) { printf("a listener is still at work\n"); fflush(stdout); _Exit(1); } } };
static Last last;       // destroyed after the logger
int main() {
	LOGGER.defaultListener()->writeOn(nullptr);
	LOGGER.addListener(std::make_shared<Slow>());
	for(int i = 0; i < 200; ++i) LOG_INFO << i;
	while(state == 0) nap(1000);
	return 0;
}
"""),
]
