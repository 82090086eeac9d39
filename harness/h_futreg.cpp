// Test programs made of cases registered by the macros, with and without fixtures, over two source files and the library's main().
#include "h_futreg.h"

struct Starter { vf::StreamCheck sc; Starter() { vf::event("M begin"); } ~Starter() { vf::event("M end - " + sc.result()); } };
static std::ios_base::Init ioinit;
static Starter starter;

TEST_F(Zulu, first) { body(); }
TEST(Mike, one) { BODY; }
TEST_F(Alpha, b) { body(); }
FALCON_TEST(Mike, 2nd) { BODY; }
TEST_F(Alpha, a) { body(); }
FALCON_TEST(Bravo, x) { BODY; }
FALCON_TEST_F(Zulu, second) { body(); }
TEST_F(Alpha, z) { body(); }
TEST_F(Bare, t1) { if(value != 7) { abort(); } value = 8; BODY; value = 7; }
TEST(Mike, a) { BODY; }
TEST(mike, one) { BODY; }
TEST(Mik, e_one) { BODY; }
