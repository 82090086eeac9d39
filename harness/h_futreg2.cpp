#define FALCON_TEST_DONT_DEFINE_TEST
#include "h_futreg.h"
#ifdef TEST
#error "TEST was not to be defined"
#endif
FALCON_TEST(Mike, zz) { BODY; }
FALCON_TEST_F(Alpha, second_file) { body(); }
FALCON_TEST(Oscar, _1) { BODY; }
FALCON_TEST(Mike, b) { BODY; }
