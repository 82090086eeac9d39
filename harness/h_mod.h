// What one of the parts of a program (executable, library, module) does with the engine: M01.
// Included by the one source of each part, with VF_MODULE the name of its entry point.
#ifndef VF_MOD_H
#define VF_MOD_H
#include <falcon/logger.h>
#include <falcon/futex.h>
#include <falcon/engine/item.h>
#include <falcon/engine/code.h>
#include <falcon/engine/compiler.h>
#include <atomic>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
struct ModApi {
   void* (*logger)();
   void (*setCategory)(const std::string&);
   std::string (*getCategory)();
   void (*level)(int);
   int (*getLevel)();
   void (*log)(int lv, const std::string& cat, const std::string& before, const std::function<std::string()>& inner, const std::string& after);
   void (*block)(int lv, const std::string& before, const std::function<void()>& inner, const std::string& after);
   void (*write)(const std::string&);
   std::string (*filter)(const std::string& expr, int how);        // how 0: caught here, by its type; 1: lets it out; 2: clears
   std::shared_ptr<falcon::LogSystem::Listener> (*listener)(std::function<void(const falcon::LogSystem::Message&)>);
   void (*add)(std::shared_ptr<falcon::LogSystem::Listener>);
   void (*remove)(std::shared_ptr<falcon::LogSystem::Listener>);
   std::vector<const void*> (*handlers)();
   falcon::Item* (*item)(int kind, long long value);
   falcon::Item* (*copy)(const falcon::Item&);
   void (*assign)(falcon::Item&, const falcon::Item&);
   void (*destroy)(falcon::Item*);
   std::string (*show)(const falcon::Item&);
   void (*lock)(falcon::RFutex&);
   void (*unlock)(falcon::RFutex&);
   bool (*isLocked)(falcon::RFutex&);
   falcon::RFutex* (*newLock)();
   falcon::Code* (*code)(const std::string& source, int how);
   std::string (*render)(const falcon::Code&);
   void (*dropCode)(falcon::Code*);
};
extern "C" const ModApi* modMain();
extern "C" const ModApi* modLib();
#endif
#ifdef VF_MODULE
namespace {
struct Inner { const std::function<std::string()>& f; };
std::ostream& operator<<(std::ostream& os, const Inner& i) { return os << i.f(); }
struct Hears: public falcon::LogSystem::Listener {
   std::function<void(const falcon::LogSystem::Message&)> f;
   void onMessage(const falcon::LogSystem::Message& m) override { f(m); }
};
const ModApi theApi = {
   [] () -> void* { return &LOGGER; },
   [] (const std::string& c) { LOG_CATEGORY(c); },
   [] { return std::string(LOGGER.getCategory()); },
   [] (int l) { LOGGER.level(falcon::LOGLEVEL(l)); },
   [] { return int(LOGGER.level()); },
   [] (int lv, const std::string& cat, const std::string& b, const std::function<std::string()>& in, const std::string& a) {
      if(cat.empty()) { LOG(falcon::LOGLEVEL(lv)) << b << Inner{in} << a; } else { LOG(falcon::LOGLEVEL(lv)) << LOG_CAT(cat) << b << Inner{in} << a; } },
   [] (int lv, const std::string& b, const std::function<void()>& in, const std::string& a) { LOG_BLOCK(falcon::LOGLEVEL(lv)) { LOGGER << b; in(); LOGGER << a; } },
   [] (const std::string& s) { LOGGER << s; },
   [] (const std::string& e, int how) -> std::string {
      if(how == 2) { LOGGER.clearFilter(); return ""; }
      if(how == 1) { LOGGER.categoryFilter(e, falcon::LLINFO); return "accepted"; }
      try { LOGGER.categoryFilter(e, falcon::LLINFO); } catch(const falcon::LogSystem::InvalidCategory& x) { return *x.what() ? "refused" : "refused, in silence"; } catch(...) { return "something else"; }
      return "accepted"; },
   [] (std::function<void(const falcon::LogSystem::Message&)> f) -> std::shared_ptr<falcon::LogSystem::Listener> { auto h = std::make_shared<Hears>(); h->f = std::move(f); return h; },
   [] (std::shared_ptr<falcon::LogSystem::Listener> l) { LOGGER.addListener(l); },
   [] (std::shared_ptr<falcon::LogSystem::Listener> l) { l->detach(); },
   [] { using F = falcon::HandlerFactory; return std::vector<const void*>{&F::nilHandler, &F::boolHandler, &F::intHandler, &F::floatHandler, &F::stringHandler, &F::bigNumHandler}; },
   [] (int kind, long long v) -> falcon::Item* {
      switch(kind) {
      case 0: return new falcon::Item();
      case 1: return new falcon::Item(bool(v & 1));
      case 2: return new falcon::Item(falcon::int64(v));
      case 3: return new falcon::Item(falcon::int32(v));
      case 4: return new falcon::Item(falcon::numeric(v));
      case 5: return new falcon::Item(falcon::ccstring(std::to_string(v).c_str()));
      case 6: return new falcon::Item(std::string(size_t(v & 63), 'x') + std::to_string(v));
      default: return new falcon::Item(falcon::BigNum(v)); } },
   [] (const falcon::Item& i) { return new falcon::Item(i); },
   [] (falcon::Item& a, const falcon::Item& b) { a = b; },
   [] (falcon::Item* i) { delete i; },
   [] (const falcon::Item& i) { using F = falcon::HandlerFactory; std::ostringstream s; s << i.toString() << "|" << i.toInt() << "|" << i.toBool() << "|"
      << (i.handler == &F::nilHandler ? "nil" : i.handler == &F::boolHandler ? "bool" : i.handler == &F::intHandler ? "int" : i.handler == &F::floatHandler ? "float" : i.handler == &F::stringHandler ? "string" : i.handler == &F::bigNumHandler ? "bignum" : "none"); return s.str(); },
   [] (falcon::RFutex& f) { f.lock(); },
   [] (falcon::RFutex& f) { f.unlock(); },
   [] (falcon::RFutex& f) { return f.isLocked(); },
   [] { return new falcon::RFutex(); },
   [] (const std::string& s, int how) -> falcon::Code* { if(how == 0) return new falcon::Code(s, 1); std::istringstream in(" " + s + "\n"); falcon::Compiler c; if(how == 1) return new falcon::Code(c.compile(in)); falcon::Code t(s); auto* k = new falcon::Code(); *k = t; return k; },
   [] (const falcon::Code& c) { falcon::Code t(c); return t.toString(); },
   [] (falcon::Code* c) { delete c; },
};
}
extern "C" const ModApi* VF_MODULE() { return &theApi; }
#endif
