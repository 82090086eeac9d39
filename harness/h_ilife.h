// What the sources of the children of h_ilife.cpp share: objects that hold items and use them from their construction to their end.
#ifndef VF_ILIFE_H
#define VF_ILIFE_H
#include "h_item_model.h"
#include <falcon/engine/code.h>
#include <falcon/engine/compiler.h>
#include <sstream>
namespace ilife {
bool child();
uint64_t seed();
void tell(const std::string& s);
struct Tail { std::string name; ~Tail() { if(!name.empty()) tell("end " + name); } };
struct Holder {
   Tail tail;                       // destroyed after the items
   std::vector<Val> vals; std::vector<Item> items; std::vector<std::pair<std::string, Code>> codes; Rng r; int atEnd = 0;
   Holder(const std::string& name, int fill, int end);
   void add();
   void check();
   void use(int ops);
   ~Holder();
};
// items on their own, of every kind
struct Raw { static void check(const char* where, const std::vector<const Item*>& v, const char* when); };
}
#endif
