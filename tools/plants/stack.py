"""Planted bugs of the paged stack."""
F = "src/include/falcon/engine/pagedstack.h"
TSAN = "-O1 -g -fsanitize=thread"
HEAD = r'''
#include <atomic>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <falcon/engine/pagedstack.h>
using namespace falcon;
#define EXPECT(c, ...) do { if(!(c)) { printf(__VA_ARGS__); printf("\n"); exit(1); } } while(0)
template<typename T> using Alloc = std::allocator<T>;
'''

PLANTS = [
 dict(id="S01-stale-pages", property="S01",
  edits=[(F, """      while(m_curBase != iBase) {
         m_curBase->clear();
         --m_curBase;
      }
      if(iData == m_curBase->begin())""", """      if(m_curBase != iBase) {
         // the pages in between are emptied when used again
         m_curBase->clear();
         while(m_curBase != iBase) {
            --m_curBase;
         }
      }
      if(iData == m_curBase->begin())""")],
  needs="discarding or popping in reverse at least two whole pages below the top at once, then pushing over them again",
  what="only the topmost page is emptied when discarding several, so that the elements of the others come back when the stack grows again",
  demo=HEAD + r'''
int main() {
	PagedStack<int> s(4, 1);
	for(int i = 0; i < 18; ++i) s.push(i);
	auto it = s.begin();
	for(int i = 0; i < 14; ++i) ++it;   // at element 3
	s.discard(it);
	EXPECT(s.size() == 3 && s.top() == 2, "size %zu", s.size());
	for(int i = 3; i < 18; ++i) s.push(i);
	EXPECT(s.size() == 18, "size %zu instead of 18", s.size());
	for(int i = 17; i >= 0; --i) { int v; s.pop(v); EXPECT(v == i, "%d instead of %d", v, i); }
}
'''),
 dict(id="S01-clear-last-page", property="S01",
  edits=[(F, """      while(m_curBase != m_base.begin()) {
         m_curBase->clear();
         --m_curBase;
      }
""", """      // the pages below the current one are full
      for(size_t pages = size_locked() / (m_pageSize + 1); pages; --pages) {
         m_curBase->clear();
         --m_curBase;
      }
"""), (F, "   void internal_pop() {}\n", """   void internal_pop() {}

   size_t size_locked() const noexcept {
      return (std::distance<typename base_type::const_iterator>(m_base.begin(), m_curBase)) * m_pageSize + m_curBase->size();
   }
""")],
  needs="clearing a stack of more pages than the page size plus one",
  what="clearing leaves the first pages of a stack of many pages",
  demo=HEAD + r'''
int main() {
	for(int n = 0; n < 60; ++n) {
		PagedStack<int> s(4, 1);
		for(int i = 0; i < n; ++i) s.push(i);
		s.clear();
		EXPECT(s.empty() && s.size() == 0, "%zu elements left of %d", s.size(), n);
	}
}
'''),
 dict(id="S02-jump-to-page-end", property="S02",
  edits=[(F, """      const reverse_iterator_base& operator+=(size_t size) noexcept {
         for(size_t i=0; i < size; ++i) {++ *this;}
         return *this;
      }
""", """      const reverse_iterator_base& operator+=(size_t size) noexcept {
         // no need to step through a page
         while(size > static_cast<size_t>(m_iBase->end() - m_iData) && m_iBase != m_iBaseEnd) {
            size -= m_iBase->end() - m_iData;
            ++m_iBase;
            m_iData = m_iBase->begin();
         }
         m_iData += size;
         return *this;
      }
""")],
  needs="advancing a reverse iterator by more than one element to exactly the end of a page that is not the last",
  what="the iterator is left at the end of the page instead of the first element of the next one",
  demo=HEAD + r'''
int main() {
	PagedStack<int> s(4, 1);
	for(int i = 0; i < 15; ++i) s.push(i);
	for(int by = 1; by <= 14; ++by) {
		auto it = s.rbegin(); it += by;
		auto ref = s.rbegin(); for(int i = 0; i < by; ++i) ++ref;
		EXPECT(it == ref, "advanced by %d is not the same as %d steps", by, by);
		EXPECT(*it == by, "%d instead of %d", *it, by);
	}
}
'''),
 dict(id="S02-equal-by-offset", property="S02",
  edits=[(F, """      bool operator ==(const iterator_base& other) const noexcept {
         return m_iBase == other.m_iBase && m_iData == other.m_iData;
      }
""", """      bool operator ==(const iterator_base& other) const noexcept {
         // the position within the page first, it differs more often
         return m_iData - m_iBase->begin() == other.m_iData - other.m_iBase->begin()
            && (m_iBase == other.m_iBase || m_iBase->size() == other.m_iBase->size());
      }
""")],
  needs="comparing positions in two different full pages, at the same offset",
  what="iterators at the same offset of two full pages compare equal",
  demo=HEAD + r'''
int main() {
	PagedStack<int> s(4, 1);
	for(int i = 0; i < 8; ++i) s.push(i);
	auto a = s.begin(); auto b = s.begin(); b += 4;
	EXPECT(*a == 7 && *b == 3, "%d %d", *a, *b);
	EXPECT(!(a == b) && a != b, "7 and 3 are the same position");
}
'''),
 dict(id="S02-constant-from-top", property="S02",
  edits=[(F, """      return const_reverse_iterator(iBase, iBase->begin() + (iBase->size() - depth), m_curBase);
""", """      return const_reverse_iterator(iBase, iBase->begin() + (iBase->size() - depth), --m_base.end());
""")],
  needs="iterating a constant stack from a depth to the reverse end, with pages allocated beyond the top",
  what="the iterator does not know where the contents end: it runs into the spare pages instead of reaching the end",
  demo=HEAD + r'''
int main() {
	PagedStack<int> s(4, 3);
	for(int i = 0; i < 6; ++i) s.push(i);
	const PagedStack<int>& c = s;
	int n = 0;
	for(auto it = c.from_top(3); it != c.rend(); ++it) {
		if(++n > 3) break;
	}
	EXPECT(n == 3, "more than 3 elements from a depth of 3");
}
'''),
 dict(id="S03-spare-page", property="S03",
  edits=[(F, """        typename base_type::iterator iter = m_curBase;
        ++iter;
        // TODO""", """        typename base_type::iterator iter = m_curBase;
        if(++iter != m_base.end() && m_curBase->size() == m_pageSize) {
           // the next push will need it
           ++iter;
        }
        // TODO""")],
  needs="shrinking when the page in use is exactly full and another page is allocated",
  what="shrinking keeps a page beyond the one of the top when that is full",
  demo=HEAD + r'''
int main() {
	PagedStack<int> s(4, 3);
	for(int i = 0; i < 4; ++i) s.push(i);
	s.shrink_to_fit();
	size_t blocks, depth, cb, cd; s.getStats(blocks, depth, cb, cd);
	EXPECT(blocks == 1, "%zu pages", blocks);
	s.push(4);
	EXPECT(s.size() == 5 && s.top() == 4, "contents");
}
'''),
 dict(id="S04-pop-before-assign", property="S04",
  edits=[(F, """      value = m_curBase->back();
      internal_pop_one();
      internal_pop(std::forward""", """      const _T last(m_curBase->back());
      internal_pop_one();
      value = last;
      internal_pop(std::forward""")],
  needs="an assignment to the target of a pop that throws",
  what="an element is removed before it is delivered: when the assignment to the target throws it is lost",
  demo=HEAD + r'''
struct V { int v; static bool fail; V(int i = 0): v(i) {} V(const V&) = default;
	V& operator=(const V& o) { if(fail) throw std::runtime_error("no"); v = o.v; return *this; } };
bool V::fail = false;
int main() {
	PagedStack<V> s(4, 1);
	for(int i = 0; i < 6; ++i) s.push(V(i));
	V t; V::fail = true;
	try { s.pop(t); return 2; } catch(const std::runtime_error&) {}
	V::fail = false;
	EXPECT(s.size() == 6 && s.top().v == 5, "size %zu after the failed pop", s.size());
}
'''),
 dict(id="S05-size-unlocked", property="S05", flags=TSAN, run="TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo",
  edits=[(F, """      size_t count = 0;
      std::lock_guard<_Mutex> guard(m_mutex);
      auto iter = m_base.begin();
      while(iter != m_curBase) {
         count += iter->size();
         ++iter;
      }
""", """      size_t count = 0;
      auto iter = m_base.begin();
      while(iter != m_curBase) {
         count += iter->size();
         ++iter;
      }
      // only the current page changes
      std::lock_guard<_Mutex> guard(m_mutex);
""")],
  needs="the size being read while another thread moves to another page",
  what="the pages are counted without the lock",
  demo=HEAD + r'''
int main() {
	PagedStack<int, Alloc, std::mutex> s(2, 1);
	std::thread t([&]{ for(int i = 0; i < 5000; ++i) { s.push(1, 2, 3, 4, 5); s.discard(5); } });
	size_t top = 0; for(int i = 0; i < 5000; ++i) top = std::max(top, s.size());
	t.join();
	EXPECT(top <= 5, "%zu elements", top);
}
'''),
 dict(id="S05-push-in-parts", property="S05",
  edits=[(F, """   void push(const _T& data, _Args&&... __args) {
      std::lock_guard<_Mutex> guard(m_mutex);
      internal_push(data, std::forward<_Args>(__args)...);
   }
""", """   void push(const _T& data, _Args&&... __args) {
      push(data);
      push(std::forward<_Args>(__args)...);
   }
""")],
  needs="two threads pushing several values at once",
  what="the values of a multiple push are pushed one by one, so that those of other threads can come in between",
  demo=HEAD + r'''
int main() {
	for(int round = 0; round < 20; ++round) {
		PagedStack<int, std::allocator, std::mutex> s(8, 1);
		std::vector<std::thread> th;
		for(int t = 0; t < 4; ++t) th.emplace_back([&, t]{ for(int i = 0; i < 5000; ++i) { int b = (t * 5000 + i) * 3; s.push(b, b + 1, b + 2); } });
		for(auto& t: th) t.join();
		EXPECT(s.size() == 60000, "size");
		while(!s.empty()) { int a, b, c; s.pop(a, b, c); EXPECT(a == b + 1 && b == c + 1 && c % 3 == 0, "popped %d %d %d", a, b, c); }
	}
}
'''),
 dict(id="S06-popped-position", property="S06", flags="-O1 -g",
  edits=[(F, "            if (m_iBase->size() > m_iData - m_iBase->begin())",
          "            if (m_iBase->size() >= m_iData - m_iBase->begin())")],
  needs="a synchronised iterator at the top element when exactly that element is popped",
  what="a synchronised iterator one position above the top is taken for valid: it yields the removed element",
  demo=HEAD + r'''
int main() {
	PagedStack<int> s(4, 1);
	for(int i = 0; i < 7; ++i) s.push(i);
	auto it = s.sync_begin();
	s.pop();
	int v = -1; it.get(v);
	EXPECT(v == 5, "%d instead of the current top", v);
}
'''),
 dict(id="S06-shrink-request-kept", property="S06", flags="-O1 -g",
  edits=[(F, """      if(--m_syncIterCount == 0 && m_shrinkRequest) {
         m_shrinkRequest = false;
""", """      if(--m_syncIterCount <= 0 && m_shrinkRequest) {
         m_shrinkRequest = m_syncIterCount > 0;
"""), (F, """      if(m_syncIterCount > 0){
         m_shrinkRequest = true;
         return;
      }
      internal_shrink_to_fit();""", """      if(m_syncIterCount > 0){
         m_shrinkRequest = m_curBase->empty() || !m_shrinkRequest;
         return;
      }
      internal_shrink_to_fit();""")],
  needs="two requests to shrink while a synchronised iterator exists",
  what="a second request to shrink while a synchronised iterator exists cancels the first",
  demo=HEAD + r'''
int main() {
	PagedStack<int> s(4, 4);
	for(int i = 0; i < 7; ++i) s.push(i);
	{
		auto it = s.sync_begin();
		s.shrink_to_fit();
		s.shrink_to_fit();
	}
	size_t blocks, depth, cb, cd; s.getStats(blocks, depth, cb, cd);
	EXPECT(blocks == 2, "%zu pages after the requests to shrink", blocks);
}
'''),
]
