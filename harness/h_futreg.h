#ifndef VF_FUTREG_H
#define VF_FUTREG_H
#include "fut_script.h"
#define BODY vf::Actor(this).phase('B', "B")
// a fixture whose state belongs to the single case
struct FixBase: public vf::Scripted<falcon::testing::TestCase> {
   int runs = 0; std::vector<int>* data = nullptr;
   void SetUp() override {
      if(++runs != 1 || data) { vf::event(std::string("I ") + vf::hex(this->fullName()) + " " + std::to_string(runs)); }
      data = new std::vector<int>{1, 2};
      vf::Scripted<falcon::testing::TestCase>::SetUp();
   }
   void TearDown() override { vf::Scripted<falcon::testing::TestCase>::TearDown(); delete data; data = nullptr; runs = 0; }
};
struct Alpha: public FixBase {};
struct Zulu: public FixBase {};
// a fixture without set-up and tear-down of its own
struct Bare: public falcon::testing::TestCase { int value = 7; };
#endif
