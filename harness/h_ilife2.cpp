// Another source of the children of h_ilife.cpp, with static items of its own.
#include "h_ilife.h"
using namespace ilife;
namespace {
Item s_nil, s_bool(true), s_int(int64(-1234567890123)), s_char('x'), s_u32(uint32(4000000000u)), s_dbl(2.5);
Item s_str(std::string("a text long enough to be allocated on the heap")), s_cstr("short"), s_big(BigNum(42));
Item s_copy(s_str), s_copy2(s_big);
std::vector<Item> s_vec{Item(1.5), Item("abc"), Item(BigNum(7)), Item()};
Holder s_two("second-source", 12, 20);
Holder s_first __attribute__((init_priority(101)))("first-of-all", 12, 20);
struct Last { ~Last() { if(!child()) return; Raw::check("h_ilife2", {&s_nil, &s_bool, &s_int, &s_char, &s_u32, &s_dbl, &s_str, &s_cstr, &s_big, &s_copy, &s_copy2}, "at the end"); s_str = s_big; s_big = s_int; s_nil = Item("again a text long enough to be allocated on the heap"); Item x(s_nil); x = s_copy; } };
Last s_last;
}
