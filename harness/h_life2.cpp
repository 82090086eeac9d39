// Another source of the children of h_life.cpp, whose static objects may use the logger before main.
#include "h_life.h"
#include <thread>
#include <vector>
#include <falcon/logger.h>

namespace {
struct Early {
   Early() {
      if(!life::child()) return;
      life::early();
      uint64_t s = life::seed() / 7;
      if(s % 3 == 0) return;
      if(s % 3 == 1 || (s / 3) % 2) { life::reg(0); }
      for(int i = 0; i < int((s / 9) % 8); ++i) life::send("S", i, int((s / 11 + uint64_t(i)) % 4));
      if((s / 13) % 4 == 0) { std::vector<std::thread> t; for(int k = 0; k < 3; ++k) t.emplace_back([k] { for(int i = 0; i < 5; ++i) life::send(k == 0 ? "X" : k == 1 ? "Y" : "Z", i, i % 4); }); for(auto& x: t) x.join(); }
   }
   ~Early() { if(life::child()) life::tell("late"); }
};
Early s_early;
}
