"""Bugs that need a multi-step history or an unusual input, planted from the statements."""
import os, importlib.util
def _load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
log, fut, stack, values = (_load(n) for n in ("log", "fut", "stack", "values"))
LS = "src/engine/logsystem.cpp"
PS = "src/include/falcon/engine/pagedstack.h"

PLANTS = [
 dict(id="L01-self-detach", property="L01", srcs=log.SYS,
  edits=[(LS, "			listener->onMessage(*msg);\n", "			listener->onMessage(*msg);\n			// (the list is about to change)\n			if(listener->isDetached()) { break; }\n"),
         (LS, "	for(auto listener: m_activeListeners) {\n", "	for(const auto& listener: m_activeListeners) {\n")],
  needs="a listener detached while it handles a message, followed by others",
  what="the message isn't given to the listeners after one detached meanwhile",
  demo=log.HEAD + r"""
struct Once: LogSystem::Listener { void onMessage(const LogSystem::Message&) override { detach(); } };
int main() {
	LogSystem s; auto a = std::make_shared<Once>(); auto b = std::make_shared<Rec>();
	s.addListener(a); s.addListener(b);
	s.log("f", 1, LogSystem::INFO, "", "one"); s.log("f", 2, LogSystem::INFO, "", "two");
	for(int i = 0; i < 2000 && (b->count() < 1 || b->got.back() != "two"); ++i) nap(1000);
	nap(10000);
	EXPECT(b->count() == 2, "%zu messages", b->count());
}
"""),
 dict(id="L03-nul-category", property="L03", srcs=log.SYS,
  edits=[(LS, "	  return std::regex_match(cat, m_catRegex);\n", "	  return std::regex_match(cat.c_str(), m_catRegex);\n")],
  needs="a category with a zero character inside",
  what="just the part of the category before the zero is matched",
  demo=log.HEAD + r"""
int main() {
	Rec a; a.category("net");
	EXPECT(a.checkCategory("net"), "net");
	EXPECT(!a.checkCategory(std::string("net\0x", 5)), "net and more");
}
"""),
 dict(id="L06-drain-first", property="L06", srcs=log.SYS,
  edits=[(LS, "		if (m_isTerminated) {\n", "		if (m_isTerminated && m_messages.empty()) {\n")],
  needs="a listener that logs a message for each one it's given",
  what="the backlog is delivered before stopping, so that stop never returns while messages come",
  demo=log.HEAD + r"""
struct Busy: LogSystem::Listener { LogSystem* s; std::atomic<bool> on{true}; void onMessage(const LogSystem::Message&) override { nap(20); if(on) s->log("f", 1, LogSystem::INFO, "", "again"); } };
int main() {
	LogSystem s; auto a = std::make_shared<Busy>(); a->s = &s; s.addListener(a);
	s.log("f", 1, LogSystem::INFO, "", "one"); nap(5000);
	std::atomic<bool> done{false};
	std::thread t([&]{ s.stop(); done = true; });
	for(int i = 0; i < 5000 && !done; ++i) nap(1000);
	bool was = done; a->on = false; t.join();
	EXPECT(was, "stop didn't return");
}
"""),

 dict(id="S04-stays-locked", property="S04",
  edits=[(PS, "   void push(const _T& data) {\n      std::lock_guard<_Mutex> guard(m_mutex);\n      internal_push(data);\n", "   void push(const _T& data) {\n      m_mutex.lock();\n      internal_push(data);\n      m_mutex.unlock();\n")],
  needs="an element that throws when copied into a stack with a real mutex",
  what="the stack stays locked after a failed push, and the next operation never returns",
  demo=stack.HEAD + r"""
#include <chrono>
struct E { int v = 0; static bool& bad() { static bool b = false; return b; } E(int x = 0): v(x) {} E(const E& o): v(o.v) { if(bad()) throw 1; } E& operator=(const E&) = default; };
int main() {
	falcon::PagedStack<E, std::allocator, std::mutex> s(8, 1);
	s.push(E(1)); E e(2);
	E::bad() = true; try { s.push(e); } catch(int) {} E::bad() = false;
	std::atomic<bool> done{false};
	std::thread t([&] { s.push(e); done = true; });
	for(int i = 0; i < 500 && !done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
	if(!done) { puts("locked"); fflush(stdout); _Exit(1); }
	t.join();
	EXPECT(s.size() == 2, "%zu elements", s.size());
}
"""),
]
