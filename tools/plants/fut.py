"""Planted bugs of the test framework."""
FUT = ["src/fut/testcase.cpp", "src/fut/unittest.cpp", "-x c++ src/fut/marktime-unix.c++"]
U = "src/fut/unittest.cpp"
C = "src/fut/testcase.cpp"
H = "src/include/falcon/fut/fut.h"
HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <chrono>
#include <falcon/fut/fut.h>
using namespace falcon::testing;
'''
# $1: the output, or report, $2 a text: how many lines have it
RUN = '''n() { grep -a -c -e "$2" "$1"; }
fail() { echo "$1"; exit 1; }
'''

PLANTS = [
 dict(id="T01-exit-by-count", property="T01", srcs=FUT,
  edits=[(U, """            p->status = -1;
            p->failedCount++;
            component.failures++;""", """            p->status = ++p->failedCount;
            component.failures++;""")],
  needs="a multiple of 256 failing cases in one run",
  what="the exit status is the number of failures, that the system reduces to its last eight bits: 256 failures exit with zero",
  run=RUN + 'timeout 60 ./demo -v 0 > out 2>&1 && fail "exit status zero with failing cases"\nexit 0',
  demo=HEAD + r'''
struct Bad: TestCase { void test() override { EXPECT_EQ(1, 2); } };
int main(int argc, char* argv[]) {
	for(int i = 0; i < 256; ++i) UnitTest::singleton()->addTestCase("Comp", ("case" + std::to_string(i)).c_str(), new Bad);
	return UnitTest::singleton()->main(argc, argv);
}
'''),
 dict(id="T02-named-twice", property="T02", srcs=FUT,
  edits=[(U, "      component->tests.push_back(tcase);\n", "      if(component->tests.empty() || component->tests.back() != tcase) {\n         component->tests.push_back(tcase);\n      }\n")],
  needs="the same case named twice in a row on the command line",
  what="a case named twice is run once",
  run=RUN + 'timeout 60 ./demo -c -t C::a -t C::a -t C::b > out 2>&1 || fail "exit"\n[ "$(n out "run of a")" = 2 ] || fail "not run twice"\n[ "$(n out "run of b")" = 1 ] || fail "b"',
  demo=HEAD + r'''
TEST(C, a) { std::cout << "run of a\n"; }
TEST(C, b) { std::cout << "run of b\n"; }
FALCON_TEST_MAIN
'''),
 dict(id="T02-no-teardown", property="T02", srcs=FUT,
  edits=[(C, """      if(p->status == NONE) {
         p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
      }
      TearDown();
""", """      if(p->status == NONE) {
         p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
         TearDown();
      }
""")],
  needs="a case with a fixture and a failed check",
  what="the tear-down is skipped for the cases with a failed check",
  run=RUN + 'timeout 60 ./demo -c -v 0 > out 2>&1\n[ "$(n out "torn down")" = 2 ] || fail "torn down $(n out "torn down") times of 2"\nexit 0',
  demo=HEAD + r'''
class Fix: public TestCase { public: void SetUp() override { std::cout << "set up\n"; } void TearDown() override { std::cout << "torn down\n"; } };
TEST_F(Fix, good) { EXPECT_EQ(1, 1); }
TEST_F(Fix, bad) { EXPECT_EQ(1, 2); }
FALCON_TEST_MAIN
'''),
 dict(id="T03-only-ours", property="T03", srcs=FUT,
  edits=[(C, """      std::cout.rdbuf(p->outbuf);
      std::cerr.rdbuf(p->errbuf);
""", """      if(std::cout.rdbuf() == p->outCapture.rdbuf()) {
         std::cout.rdbuf(p->outbuf);
      }
      if(std::cerr.rdbuf() == p->errCapture.rdbuf()) {
         std::cerr.rdbuf(p->errbuf);
      }
""")],
  needs="a case that redirects a standard stream and leaves it redirected, as when it fails in the meanwhile",
  what="a stream that a case left redirected is not given back: the following reports are lost",
  run=RUN + 'timeout 60 ./demo -v 2 > out 2>&1\n[ "$(n out "C::second.*OK")" = 1 ] || fail "the report of the second case is lost"\n[ "$(n out "Unit Test")" = 1 ] || fail "the report is lost"\nexit 0',
  demo=HEAD + r'''
static std::ostringstream mine;
TEST(C, first) { std::streambuf* was = std::cout.rdbuf(mine.rdbuf()); EXPECT_EQ(1, 2); std::cout.rdbuf(was); }
TEST(C, second) { EXPECT_EQ(1, 1); }
FALCON_TEST_MAIN
'''),
 dict(id="T03-truncated", property="T03", srcs=FUT,
  edits=[(C, "      p->outCaptureStr = p->outCapture.str();\n", "      p->outCaptureStr = p->outCapture.str().substr(0, 0xFFFF);\n")],
  needs="a case that writes more than 64 KB on the standard output, shown",
  what="only the first 64 KB of the captured output are kept",
  run=RUN + 'timeout 60 ./demo -v 5 > out 2>&1\n[ "$(n out "^line [0-9]* of the output$")" = 5000 ] || fail "$(n out "^line [0-9]* of the output$") lines shown of 5000"\nexit 0',
  demo=HEAD + r'''
TEST(C, first) { for(int i = 0; i < 5000; ++i) std::cout << "line " << i << " of the output\n"; }
FALCON_TEST_MAIN
'''),
 dict(id="T04-total-of-all", property="T04", srcs=FUT,
  edits=[(U, """            << "\\" tests=\\"" << p->testsToPerofm.size() << "\\" \"""", """            << "\\" tests=\\"" << p->tests.size() << "\\" \"""")],
  needs="a report of a run of selected cases",
  what="the report counts all the registered cases as executed when only some were selected",
  run=RUN + 'timeout 60 ./demo -q -x r.xml -t C::a || fail "exit"\n[ "$(n r.xml "<testsuites.* tests=\\"1\\"")" = 1 ] || fail "$(grep "<testsuites" r.xml)"',
  demo=HEAD + r'''
TEST(C, a) { EXPECT_EQ(1, 1); }
TEST(C, b) { EXPECT_EQ(1, 1); }
FALCON_TEST_MAIN
'''),
 dict(id="T05-last-dot", property="T05", srcs=FUT,
  edits=[(U, """   pos = filename.find(".");""", """   pos = filename.rfind(".");""")],
  needs="a program whose file name has more than one dot, run without naming the unit test",
  what="the default name of the unit test keeps all but the last of the suffixes of the program's name",
  run=RUN + 'cp demo stack.unit.fut\ntimeout 60 ./stack.unit.fut > out 2>&1 || fail "exit"\n[ "$(n out "^Unit Test stack (")" = 1 ] || fail "$(grep "^Unit Test" out)"',
  demo=HEAD + r'''
TEST(C, a) { EXPECT_EQ(1, 1); }
FALCON_TEST_MAIN
'''),
 dict(id="T05-last-selected", property="T05", srcs=FUT,
  edits=[(U, "         p->testsToPerofm.push_back(iter->second);", "         p->testsToPerofm.assign(1, iter->second);")],
  needs="more than one case selected on the command line",
  what="only the last of the selected cases is run",
  run=RUN + 'timeout 60 ./demo -c -t C::a -t C::b > out 2>&1 || fail "exit"\n[ "$(n out "run of a")" = 1 ] || fail "a not run"\n[ "$(n out "run of b")" = 1 ] || fail "b"',
  demo=HEAD + r'''
TEST(C, a) { std::cout << "run of a\n"; }
TEST(C, b) { std::cout << "run of b\n"; }
FALCON_TEST_MAIN
'''),
 dict(id="T06-precedence", property="T06", srcs=FUT,
  edits=[(H, "		if(!( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) { \\\n		   std::ostringstream ss; \\\n		   ss << (_ACTUAL_); \\\n			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ \" \" #_CHECK_ \" \" #_ACTUAL_, ss.str().c_str() ); \\\n			return; \\\n		}\n\n// Doubles",
          "		if(!( _EXPECTED_ _CHECK_ _ACTUAL_ )) { \\\n		   std::ostringstream ss; \\\n		   ss << (_ACTUAL_); \\\n			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ \" \" #_CHECK_ \" \" #_ACTUAL_, ss.str().c_str() ); \\\n			return; \\\n		}\n\n// Doubles")],
  needs="an operand whose outermost operator binds less than the comparison",
  what="the operands of the comparisons are not taken as a whole",
  run=RUN + 'timeout 60 ./demo > out 2>&1 && fail "passed"\n[ "$(n out "Failed cases: C::bad$")" = 1 ] || fail "$(grep -A1 "Failed cases" out)"\nexit 0',
  demo=HEAD + r'''
TEST(C, good) { int v = 6; EXPECT_EQ(2, v & 2); EXPECT_LT(v & 2, 3); }
TEST(C, bad) { int v = 5; EXPECT_EQ(1, v & 6 | 8); }
FALCON_TEST_MAIN
'''),
 dict(id="T06-text-to-nul", property="T06", srcs=FUT,
  edits=[(H, "#define EXPECT_STREQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_LOGIC(std::string(_EXPECTED_),==,std::string(_ACTUAL_))",
          "#define EXPECT_STREQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_LOGIC(std::string(_EXPECTED_).c_str(),==,std::string(_ACTUAL_))")],
  needs="an expected string with a zero character inside",
  what="the expected string is compared only up to its first zero character",
  run=RUN + 'timeout 60 ./demo > out 2>&1 && fail "passed"\n[ "$(n out "Failed cases: C::bad$")" = 1 ] || fail "$(grep -A1 "Failed cases" out)"\nexit 0',
  demo=HEAD + r'''
TEST(C, good) { std::string a("x\0y", 3), b(a); EXPECT_STREQ(a, b); EXPECT_STREQ("x", "x"); }
TEST(C, bad) { std::string a("x\0y", 3); EXPECT_STREQ(a, "x"); }
FALCON_TEST_MAIN
'''),
 dict(id="T06-any-std-throw", property="T06", srcs=FUT,
  edits=[(H, """         this->checkFail( __FILE__, __LINE__, "No throw when any throw was expected", "" ); \\
     } catch(...) {}
""", """         this->checkFail( __FILE__, __LINE__, "No throw when any throw was expected", "" ); \\
     } catch(const std::exception&) {}
""")],
  needs="a checked expression that throws something else than a standard exception",
  what="a thrown value that is not a standard exception is not taken for 'any throw'",
  run=RUN + 'timeout 60 ./demo > out 2>&1 || fail "$(grep -A1 "Failed cases" out)"\nexit 0',
  demo=HEAD + r'''
TEST(C, std) { EXPECT_ANY_THROW(throw std::runtime_error("x")); }
TEST(C, any) { EXPECT_ANY_THROW(throw 42); }
FALCON_TEST_MAIN
'''),
 dict(id="T07-time-of-throwing", property="T07", srcs=FUT,
  edits=[(C, """   catch(std::exception& e) {
      p->lapse.markEnd();
""", """   catch(std::exception& e) {
""")],
  needs="a case ended by a standard exception",
  what="the time of a case ended by an exception is not taken",
  run=RUN + 'timeout 60 ./demo > out 2>&1\nexit $?',
  demo=HEAD + r'''
struct Thrower: TestCase { void test() override { std::this_thread::sleep_for(std::chrono::milliseconds(30)); throw std::runtime_error("x"); } };
int main() {
	auto* t = new Thrower;
	auto* u = new UnitTest;
	u->addTestCase("C", "throws", t);
	u->setVerbosity(UnitTest::SILENT);
	u->performTest("C::throws");
	long e = t->elapsedTime();
	fprintf(stderr, "elapsed %ld\n", e);
	return e >= 28 && e < 5000 ? 0 : 1;
}
'''),
 dict(id="T07-binary-millis", property="T07", srcs=FUT, timeout=100,
  edits=[("src/fut/marktime-unix.c++", "   currentMillisecs += (tv.tv_usec / 1000);", "   currentMillisecs += (tv.tv_usec >> 10);")],
  needs="a case that lasts long enough, within one second of the clock",
  what="the milliseconds are of 1024 microseconds: times are short by 2% within a second, and too long by 24 ms across two",
  run=RUN + 'timeout 60 ./demo > out 2>&1\nr=$?\ncat out\nexit $r',
  demo=HEAD + r'''
struct Sleeper: TestCase { void test() override { std::this_thread::sleep_for(std::chrono::milliseconds(400)); } };
int main() {
	auto* t = new Sleeper;
	auto* u = new UnitTest;
	u->addTestCase("C", "sleeps", t);
	u->setVerbosity(UnitTest::SILENT);
	for(int i = 0; i < 4; ++i) {
		u->performTest("C::sleeps");
		long e = t->elapsedTime();
		fprintf(stderr, "elapsed %ld\n", e);
		if(e < 399) return 1;
	}
}
'''),
]
