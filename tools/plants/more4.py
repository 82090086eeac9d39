"""Bugs planted later still: state shared by objects, cells used again, and others."""
import os, importlib.util
def _load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
log, fut, stack, values = (_load(n) for n in ("log", "fut", "stack", "values"))
PS = "src/include/falcon/engine/pagedstack.h"
DH = "src/include/falcon/engine/deephandler.h"
FH = "src/include/falcon/engine/floathandler.h"
STACKH = values.HEAD + "#include <list>\n#include <vector>\n#include <cassert>\n#include <falcon/engine/pagedstack.h>\nusing namespace falcon;\n"

PLANTS = [
 dict(id="S06-shared-count", property="S06",
  edits=[(PS, "   mutable int m_syncIterCount{0};\n", "   inline static int m_syncIterCount{0};\n")],
  needs="a stack shrunk while a synchronised iterator over another stack of its type exists",
  what="the synchronised iterators are counted together for all the stacks: shrinking a stack waits for an iterator over another one, and then is forgotten",
  demo=STACKH + r"""
int main() {
	PagedStack<int> a(2, 1), b(2, 1);
	for(int i = 0; i < 20; ++i) { a.push(i); b.push(i); }
	a.discard(18);
	size_t blocks, depth, cb, cd;
	{ auto it = b.sync_begin(); a.shrink_to_fit(); a.getStats(blocks, depth, cb, cd); }
	EXPECT(blocks == 1, "%zu pages after shrinking", blocks);
}
"""),
 dict(id="S07-shared-request", property="S07",
  edits=[(PS, "   mutable int m_syncIterCount{0};\n   mutable bool m_shrinkRequest{false};\n", "   mutable int m_syncIterCount{0};\n   inline static bool m_shrinkRequest{false};\n")],
  needs="a shrinking deferred by an iterator over a stack, and an iterator over its copy that goes first",
  what="a request to shrink a stack is taken by the copy whose last synchronised iterator goes first: the copy is shrunk, the stack is not",
  demo=STACKH + r"""
int main() {
	PagedStack<int> a(2, 1);
	for(int i = 0; i < 20; ++i) { a.push(i); }
	PagedStack<int> b(a);
	a.discard(18); b.discard(18);
	size_t pa, pb, depth, cb, cd;
	{
		auto ia = a.sync_begin();
		a.shrink_to_fit();
		{ auto ib = b.sync_begin(); }
	}
	a.getStats(pa, depth, cb, cd); b.getStats(pb, depth, cb, cd);
	EXPECT(pa == 1 && pb == 10, "%zu and %zu pages", pa, pb);
}
"""),
 dict(id="S04-reverse-guard", property="S04",
  edits=[(PS, "      distribute(pos, std::forward<_Args>(__args)...);\n      internal_discard(start.m_iBase, start.m_iData);\n",
   """      struct Discard {
         PagedStack* m_owner;
         decltype(start)& m_start;
         ~Discard() { m_owner->internal_discard(m_start.m_iBase, m_start.m_iData); }
      } discard{this, start};
      distribute(pos, std::forward<_Args>(__args)...);
""")],
  needs="a reversed pop where the assignment to one of the targets throws",
  what="the values are removed also when they could not be delivered",
  demo=STACKH + r"""
static bool fail = false;
struct V { int v; V(int x = 0): v(x) {} V(const V& o) = default; V& operator=(const V& o) { if(fail && o.v == 2) throw std::runtime_error("no"); v = o.v; return *this; } };
int main() {
	PagedStack<V> s(2, 1); s.push(V(0)); s.push(V(1)); s.push(V(2)); s.push(V(3));
	V a, b, c; fail = true;
	try { s.pop_reverse(a, b, c); } catch(std::runtime_error&) {}
	EXPECT(s.size() == 4, "%zu left", s.size());
}
"""),
 dict(id="S02-back-over-page", property="S02",
  edits=[(PS, "         ++m_iData;\n         if(m_iData == m_iBase->end()) {\n            ++m_iBase;\n            m_iData = m_iBase->begin();\n         }\n         return *this;\n      }\n   private:\n\n      iterator_base",
              "         ++m_iData;\n         if(m_iData == m_iBase->end() && m_iBase->size() < m_iBase->capacity()) {\n            ++m_iBase;\n            m_iData = m_iBase->begin();\n         }\n         return *this;\n      }\n   private:\n\n      iterator_base")],
  needs="an iterator stepped back over the border of two pages",
  what="stepping back from the last element of a full page gives the end of the page instead of the next element",
  demo=STACKH + r"""
int main() {
	PagedStack<int> s(4, 1);
	for(int i = 0; i < 10; ++i) s.push(i);
	auto it = s.begin(); for(int i = 0; i < 9; ++i) ++it;
	for(int i = 0; i < 10; ++i) { EXPECT(*it == i, "%d instead of %d", *it, i); if(i < 9) --it; }
}
"""),
 dict(id="I02-shared-default", property="I02", srcs=values.ITEM,
  edits=[(DH, "    ItemData allocate() const override {return new T;}\n    void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}\n",
   """    ItemData allocate() const override {return &initial();}
    void destroy(ItemData data) const noexcept override { if(data.ptrValue != &initial()) { delete reinterpret_cast<T *>(data.ptrValue);} }
    // most of the allocated values are replaced: don't build one for each.
    static T& initial() { static T* value = new T; return *value; }
""")],
  needs="an allocated string or big number that is written, and another one allocated",
  what="all the allocated values are the same object: writing to one changes those allocated before and after",
  demo=values.ITEMH + r"""
int main() {
	auto& h = HandlerFactory::stringHandler;
	ItemData a = h.allocate();
	*static_cast<String*>(a.ptrValue) = "changed";
	ItemData b = h.allocate();
	EXPECT(h.toString(b) == "", "allocated with %s", h.toString(b).c_str());
	h.destroy(a); h.destroy(b);
}
"""),
 dict(id="I04-spare-cell", property="I04", srcs=values.ITEM, flags=log.TSAN, run="TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo",
  edits=[(DH, "    ItemData allocate() const override {return new T;}\n    void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}\n",
   """    ItemData allocate() const override {
        T* cell = spare();
        if(cell == nullptr) { return new T; }
        spare() = nullptr;
        *cell = T();
        return cell;
    }
    void destroy(ItemData data) const noexcept override {
        T* cell = reinterpret_cast<T *>(data.ptrValue);
        if(spare() == nullptr) { spare() = cell; }
        else { delete cell; }
    }
    // the last value destroyed is allocated again.
    static T*& spare() { static T* cell = nullptr; return cell; }
""")],
  needs="two threads that destroy items or handler allocations at the same moment",
  what="a destroyed value is kept for the next allocation without synchronisation: two threads can be given the same one",
  demo=values.ITEMH + r"""
int main() {
	auto work = [] { for(int i = 0; i < 20000; ++i) { auto& h = HandlerFactory::stringHandler; ItemData d = h.allocate(); *static_cast<String*>(d.ptrValue) = "x"; h.destroy(d); } };
	std::thread a(work), b(work); a.join(); b.join();
}
"""),
 dict(id="I03-scaled-truth", property="I03", srcs=values.ITEM, flags="-O1 -g -fsanitize=undefined,float-cast-overflow -fno-sanitize-recover=all",
  edits=[(FH, "return data.numericValue != 0.0;", "return static_cast<int64>(data.numericValue * 4611686018427387904.0) != 0 || static_cast<int64>(data.numericValue) != 0;")],
  needs="a double beyond the range of a 64-bit integer, converted to a truth value",
  what="the truth of a double is computed through integers: undefined behaviour for large values, infinity and not-a-number",
  demo=values.ITEMH + r"""
int main() {
	for(double d: {1.0, -2.5, 1e30, -1e300, 1.0 / 0.0}) EXPECT(Item(d).toBool(), "%g is false", d);
}
"""),
]
