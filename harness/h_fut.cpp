// Test programs made of scripted cases, registered at run time.
#include "fut_script.h"
using namespace vf;
using falcon::testing::UnitTest;
using falcon::testing::TestCase;

struct Case: public Scripted<TestCase> { void test() override { body(); } };

// X<unit>,<what><text>: a report, name or identifier asked for
static void option(UnitTest* ut, const std::string& a) {
   size_t c = a.find(',');
   std::string t = {'-', a[c + 1]}, v = a[c + 1] == 'x' ? "run.xml" : a.substr(c + 2);
   char* av[] = {&t[0], &v[0], nullptr};
   if(ut->parseParams(2, av) != 0) { event("U " + hex(a)); }
}
// the report just written becomes that of the run
static void keepReport() {
   static int run = 0;
   rename("run.xml", ("run" + std::to_string(run++) + ".xml").c_str());
}

int main(int argc, char* argv[]) {
   Script& s = script();
   std::vector<Case*> cases;
   UnitTest* ut = s.api == "singleton" ? UnitTest::singleton() : new UnitTest;
   if(s.api != "several") for(auto& c: s.cases) { Case* t = new Case; cases.push_back(t); ut->addTestCase(c.comp.c_str(), c.name.c_str(), t); }
   prepare();
   StreamCheck sc;
   event("M begin");
   int status = 0;
   auto dump = [&] { for(size_t i = 0; i < cases.size(); ++i) { state("Q", s.cases[i].id, cases[i]); } };
   if(s.api == "main" || s.api == "singleton") { status = ut->main(argc, argv); dump(); }
   else if(s.api == "perform") {
      // one argument per run: the verbosity
      for(auto& v: s.apiArgs) {
         if(v[0] == 'X') { option(ut, v); continue; }
         ut->setVerbosity(UnitTest::t_verbosity(atoi(v.c_str())));
         event("P begin");
         status = ut->performUnitTests();
         event("P end " + std::to_string(status) + " " + sc.result());
         dump(); keepReport();
      }
      delete ut;
   }
   else if(s.api == "single") {
      ut->setVerbosity(UnitTest::t_verbosity(atoi(s.apiArgs[0].c_str())));
      for(size_t i = 1; i < s.apiArgs.size(); ++i) {
         event("P begin");
         try { status = ut->performTest(s.apiArgs[i].c_str()); event("P end " + std::to_string(status) + " " + sc.result()); }
         catch(std::exception& e) { event(std::string("P refused ") + hex(e.what())); }
         dump();
      }
      delete ut;
   }
   else if(s.api == "several") {
      // unit tests that share cases, which come while they are used: <what><unit>,<case or verbosity>
      for(size_t i = 0; i < s.cases.size(); ++i) { cases.push_back(new Case); }
      std::vector<UnitTest*> units{ut, new UnitTest, new UnitTest};
      if(s.cases.size() % 2) { delete units[1]; units[1] = UnitTest::singleton(); }
      for(auto& a: s.apiArgs) {
         int u = atoi(a.c_str() + 1), x = atoi(a.c_str() + a.find(',') + 1);
         std::string full = a[0] == 'P' || a[0] == 'V' || a[0] == 'C' || a[0] == 'X' || x < 0 ? "No::such" : s.cases[size_t(x)].comp + "::" + s.cases[size_t(x)].name;
         switch(a[0]) {
         case 'R': units[u]->addTestCase(s.cases[size_t(x)].comp.c_str(), s.cases[size_t(x)].name.c_str(), cases[size_t(x)]); break;
         case 'C': { char t[] = "-c"; char* av[] = {t, nullptr}; if(units[u]->parseParams(1, av) != 0) { event("U " + hex("-c")); } break; }
         case 'X': option(units[u], a); break;
         case 'V': units[u]->setVerbosity(UnitTest::t_verbosity(x)); break;
         case 'A': { char t[] = "-t"; char* av[] = {t, &full[0], nullptr}; if(units[u]->parseParams(2, av) != 0) { event("U " + hex(full)); } break; }
         case 'P':
            event("P begin");
            status = units[u]->performUnitTests();
            event("P end " + std::to_string(status) + " " + sc.result());
            dump(); keepReport();
            break;
         case 'T':
            event("P begin");
            try { status = units[u]->performTest(full.c_str()); event("P end " + std::to_string(status) + " " + sc.result()); }
            catch(std::exception& e) { event(std::string("P refused ") + hex(e.what())); }
            dump(); keepReport();
         }
      }
      for(auto u: units) { if(u != UnitTest::singleton()) { delete u; } }
   }
   event("M end " + std::to_string(status) + " " + sc.result());
   for(auto c: cases) { delete c; }
   return status;
}
