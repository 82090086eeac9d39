// Monitor of the stream listener (L08): format of the records, and replacement of the stream under way.
#define VF_WRAP_MUTEX
#define VF_FAKE_CLOCK
#include "common.h"
#include <falcon/logsystem.h>
#include <falcon/logstream.h>
#include <falcon/logproxy.h>
#include <algorithm>
#include <climits>
#include <ctime>
#include <iostream>

using falcon::LogSystem;
using falcon::LogStreamListener;
using LEVEL = LogSystem::LEVEL;
using vf::Rng;
using vf::fmt;

static const char* LV[] = {"CRIT", "ERR ", "WARN", "INFO", "DBG ", "TRC "};

template<typename F> static bool waitFor(F cond, int seconds = 12) {
   uint64_t last = vf::ticks().load(); auto t = std::chrono::steady_clock::now(); int spin = 0;
   while(!cond()) {
      if(++spin < 2000) { std::this_thread::yield(); } else { usleep(200); }
      uint64_t now = vf::ticks().load();
      if(now != last) { last = now; t = std::chrono::steady_clock::now(); }
      else if(std::chrono::steady_clock::now() - t > std::chrono::seconds(seconds)) { return cond(); }
   }
   return true;
}

static long long randMoment(Rng& r) {
   static const int leap[] = {1972, 1996, 2000, 2020, 2024, 2096, 2104};
   tm x{}; x.tm_isdst = -1;
   x.tm_year = (r.chance(1, 3) ? leap[r.below(7)] : int(r.range(1971, 2150))) - 1900;
   x.tm_mon = r.chance(1, 3) ? (r.chance(1, 2) ? 1 : r.chance(1, 2) ? 0 : 11) : int(r.below(12));
   x.tm_mday = r.chance(1, 3) ? 1 : int(r.range(1, 31));
   if(r.chance(1, 3)) { x.tm_hour = 23; x.tm_min = 59; x.tm_sec = int(r.range(57, 59)); }
   else if(r.chance(1, 2)) { x.tm_hour = int(r.below(24)); x.tm_min = int(r.below(60)); x.tm_sec = int(r.below(60)); }
   long long t = mktime(&x) + (long long)r.below(3);
   return t > 100000 ? t : 100000;
}

// where a stream ends up; outlives it
struct Sink {
   std::mutex m; std::string text; size_t synced = 0, syncs = 0; std::atomic<bool> closed{false}; std::atomic<int> deaths{0}; std::atomic<bool> mayDie{false}; int id = 0;
   std::atomic<int> slow{0}; Rng rng{1};
   void put(const char* p, size_t n) {
      if(closed) vf::viol("written-after-replacement", fmt("stream %d written '%s' after its replacement returned", id, vf::esc(std::string(p, n), 60).c_str()));
      std::lock_guard<std::mutex> g(m); text.append(p, n);
      if(slow && rng.chance(1, 8)) { if(rng.chance(1, 2)) std::this_thread::yield(); else usleep(useconds_t(rng.below(60))); }
   }
   size_t len() { std::lock_guard<std::mutex> g(m); return text.size(); }
   bool flushed() { std::lock_guard<std::mutex> g(m); return synced == text.size(); }
};
struct SinkBuf: public std::streambuf {
   std::shared_ptr<Sink> s;
   explicit SinkBuf(std::shared_ptr<Sink> s_): s(s_) {}
   ~SinkBuf() override {
      if(s->deaths.fetch_add(1) != 0) vf::viol("stream-destroyed-twice", fmt("stream %d", s->id));
      if(!s->mayDie) vf::viol("stream-destroyed-while-current", fmt("stream %d destroyed while it is the listener's current stream", s->id));
   }
   int overflow(int c) override { if(c != EOF) { char ch = char(c); s->put(&ch, 1); } return c; }
   std::streamsize xsputn(const char* p, std::streamsize n) override { s->put(p, size_t(n)); return n; }
   int sync() override { std::lock_guard<std::mutex> g(s->m); s->synced = s->text.size(); s->syncs++; return 0; }
};
struct SinkStream: public std::ostream { SinkBuf b; explicit SinkStream(std::shared_ptr<Sink> s): std::ostream(nullptr), b(s) { rdbuf(&b); } };

// leaves a stream in any formatting state a program might
struct Punct: public std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
static void unsettle(std::ostream& o, Rng& r) {
   if(r.chance(1, 2)) o.setf(r.chance(1, 2) ? std::ios::hex : std::ios::oct, std::ios::basefield);
   if(r.chance(1, 3)) o.setf(std::ios::showbase | std::ios::showpos | std::ios::uppercase);
   if(r.chance(1, 3)) o.setf(r.chance(1, 2) ? std::ios::left : std::ios::internal, std::ios::adjustfield);
   if(r.chance(1, 3)) o.fill('*');
   if(r.chance(1, 3)) o.imbue(std::locale(std::locale::classic(), new Punct));
   vf::stat("streams_with_formatting");
}

struct M { std::string file, cat, text; int line = 0; LEVEL level = LogSystem::CRITICAL; };
static std::string rest(const M& m) {
   auto p = m.file.rfind('/'); std::string f = p == std::string::npos ? m.file : m.file.substr(p + 1);
   return std::string("[") + LV[m.level] + "] " + (m.cat.empty() ? "" : "(" + m.cat + ") ") + f + ":" + std::to_string(m.line) + " " + m.text + "\n";
}
static std::string nowText(time_t t) { tm x; localtime_r(&t, &x); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S ", &x); return b; }

static std::string randStr(Rng& r, size_t max, bool any) { std::string s; for(size_t n = r.below(max + 1); n > 0; --n) s += any && r.chance(1, 3) ? char(r.below(256)) : char('!' + r.below(90)); return s; }
static M randM(Rng& r, bool any) {
   M m; m.level = LEVEL(r.below(6));
   static const std::vector<std::string> files = {"a.cpp", "/x/y/z.cpp", "dir/", "", "/", "rel/path/file.h", "a//b", "./x"};
   m.file = r.chance(1, 2) ? r.pick(files) : randStr(r, r.chance(1, 20) ? 3000 : 40, any);
   m.line = r.chance(1, 6) ? (r.chance(1, 2) ? INT_MIN : INT_MAX) : r.chance(1, 5) ? int(r.next()) : int(r.below(3000));
   if(r.chance(1, 2)) m.cat = randStr(r, r.chance(1, 30) ? 2000 : 20, any);
   m.text = r.chance(1, 300) ? randStr(r, 300000, any) : r.chance(1, 15) ? randStr(r, 5000, any) : randStr(r, 60, any);
   return m;
}

// ---------------------------------------------------------------- the format of the records
static void caseFormat(Rng& r, long idx) {
   vf::setContext(fmt("L08 format case %ld", idx));
   auto sink = std::make_shared<Sink>(); SinkStream out(sink); sink->mayDie = true;
   std::unique_ptr<LogStreamListener> l(new LogStreamListener);
   auto direct = [&](const M& m) { LogSystem::Message x(m.file, m.line, m.level, m.cat, m.text); l->onMessage(x); };
   direct(randM(r, true));    // no stream yet
   if(r.chance(1, 2)) unsettle(out, r);
   l->writeOn(&out);
   static const char* zones[] = {"UTC", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45", "XYZ-14", "ABC11:30"};
   if(r.chance(1, 4)) { setenv("TZ", zones[r.below(6)], 1); tzset(); }
   long long at = 0;
   for(int k = 0; k < 12; ++k) {
      M m = randM(r, true);
      // now, at another time, or shortly after
      at = r.chance(1, 4) ? 0 : at && r.chance(1, 3) ? at + (long long)r.below(3) : at && r.chance(1, 4) ? at + 86400 : randMoment(r);
      if(at) vf::stat("other_times");
      time_t ra = __real_time(nullptr), a, b;
      { vf::Elsewhen e(at); a = time(nullptr); direct(m); b = time(nullptr); }
      time_t rb = __real_time(nullptr);
      std::string got; { std::lock_guard<std::mutex> g(sink->m); got.swap(sink->text); if(sink->synced != got.size()) vf::viol("not-flushed", "the record was not flushed"); sink->synced = 0; }
      std::string exp = rest(m); bool okTime = false;
      for(time_t t = a - 1; t <= b + 1 && !okTime; ++t) okTime = got.compare(0, nowText(t).size(), nowText(t)) == 0;
      // (or the true time, if it was obtained in another way)
      for(time_t t = ra - 1; t <= rb + 1 && !okTime; ++t) okTime = got.compare(0, nowText(t).size(), nowText(t)) == 0;
      if(!okTime) vf::viol("record-format", fmt("the record begins with '%s' at %s", vf::esc(got.substr(0, 24)).c_str(), nowText(a).c_str()));
      else if(got.substr(20) != exp) vf::viol("record-format", fmt("the record is '%s' instead of '%s'", vf::esc(got.substr(20), 250).c_str(), vf::esc(exp, 250).c_str()));
      vf::stat("records_checked"); vf::distinct(vf::hashStr(exp));
      if(r.chance(1, 6)) { l->writeOn(nullptr); direct(randM(r, true)); if(sink->len()) vf::viol("not-discarded", "a record was written without any stream"); l->writeOn(&out); vf::stat("discarded_records"); }
   }
   vf::stat("evaluations");
   if(idx < 2) vf::sample("format: " + rest(randM(r, false)));
   l->writeOn(nullptr);
}

// ---------------------------------------------------------------- replacement
struct Rec: public LogSystem::Listener {
   std::mutex m; std::vector<std::string> order; std::atomic<size_t> n{0}; std::function<void()> hook;
   void onMessage(const LogSystem::Message& msg) override { if(hook) hook(); std::lock_guard<std::mutex> g(m); order.push_back(msg.m_message.substr(0, msg.m_message.find('|'))); n++; vf::tick(); }
};

// cuts a stream's content in records; returns their ids
static std::vector<std::string> records(const std::string& text, const std::map<std::string, M>& sent, int id) {
   std::vector<std::string> res; size_t pos = 0;
   while(pos < text.size()) {
      size_t end = text.find("\x03\n", pos);
      std::string r = text.substr(pos, end == std::string::npos ? std::string::npos : end + 2 - pos);
      auto a = r.find("\x02"), b = r.find('|', a == std::string::npos ? 0 : a);
      std::string key = a == std::string::npos || b == std::string::npos ? "" : r.substr(a, b - a);
      auto s = sent.find(key);
      bool okTime = r.size() > 20 && r[4] == '-' && r[7] == '-' && r[10] == ' ' && r[13] == ':' && r[16] == ':' && r[19] == ' ';
      if(end == std::string::npos || s == sent.end() || !okTime || r.substr(20) != rest(s->second)) {
         vf::viol("record-split", fmt("stream %d: '%s' is not a whole record%s", id, vf::esc(r, 200).c_str(), s == sent.end() ? "" : (" of '" + vf::esc(rest(s->second), 160) + "'").c_str()));
         return res;
      }
      res.push_back(key); pos = end + 2;
   }
   return res;
}

static void caseSwitch(Rng& r, long idx) {
   static const unsigned rates[] = {0, 0, 30, 120, 400};
   vf::Delays::rate() = rates[r.below(5)]; vf::Delays::seed() = r.next() | 1;
   bool single = r.chance(2, 3), two = !single && r.chance(1, 2), nulls = single && r.chance(1, 2);
   int P = int(r.range(1, 4)); size_t N = r.range(5, 120);
   if(idx % 90 == 22) { N = size_t(r.range(2000, 12000)); vf::Delays::rate() = 0; vf::stat("long_outputs"); }
   vf::setContext(fmt("L08 case %ld switchers=%s services=%d producers=%d messages=%zu nulls=%d", idx, single ? "1" : "many", two ? 2 : 1, P, N, nulls));
   std::map<std::string, M> sent; std::vector<std::vector<M>> by(P);
   for(int p = 0; p < P; ++p) for(size_t k = 0; k < N; ++k) { M m = randM(r, false); m.text = fmt("\x02%d.%zu|", p, k) + m.text + (r.chance(1, 5) ? "\nsecond line" : "") + "\x03"; by[p].push_back(m); sent[fmt("\x02%d.%zu", p, k)] = m; }
   std::vector<std::shared_ptr<Sink>> sinks; std::mutex sm;
   auto newSink = [&](Rng& rr) { auto s = std::make_shared<Sink>(); std::lock_guard<std::mutex> g(sm); s->id = int(sinks.size()); s->rng = Rng(rr.next()); s->slow = rr.chance(1, 2); sinks.push_back(s); return s; };
   std::vector<std::unique_ptr<SinkStream>> raws; std::mutex rm;
   struct Epoch { int sink; size_t from, to; };    // -1: no stream
   std::vector<Epoch> epochs; std::vector<std::weak_ptr<std::ostream>> shares;
   auto listener = std::make_shared<LogStreamListener>(); std::weak_ptr<LogStreamListener> wl = listener;
   auto rec = std::make_shared<Rec>(); auto rec2 = std::make_shared<Rec>();
   long switches = 0;
   {
      LogSystem ls; std::unique_ptr<LogSystem> ls2;
      ls.addListener(listener); ls.addListener(rec);
      if(two) { ls2.reset(new LogSystem); ls2->addListener(std::make_shared<falcon::LogProxyListener>(listener)); ls2->addListener(rec2); }
      else rec->hook = [&] { std::vector<std::shared_ptr<Sink>> c; { std::lock_guard<std::mutex> g(sm); c = sinks; } for(auto& s: c) if(!s->flushed()) vf::viol("not-flushed", fmt("stream %d has unflushed output when the next listener is called", s->id)); };
      // the initial setting: no stream at all, or one
      int cur = -1; std::vector<std::pair<int, SinkStream*>> reusable;
      auto replace = [&](Rng& rr) {
         // (only with one switcher: epochs and closing are meaningful)
         int how = int(rr.below(nulls ? 6 : 4)); int prev = cur; int next = -1;
         if(how == 0 || how == 1) { auto s = newSink(rr); next = s->id; if(how == 0) { std::unique_ptr<std::ostream> u(new SinkStream(s)); 
               // the previous streams may go now
               if(single && prev >= 0) { sinks[prev]->mayDie = true; } listener->own(u); if(u) { } vf::stat("by_own"); }
            else { std::shared_ptr<std::ostream> p = std::make_shared<SinkStream>(s); shares.push_back(p); if(single && prev >= 0) sinks[prev]->mayDie = true; listener->share(p); p.reset(); vf::stat("by_share"); } }
         else if(how == 2 || how == 3) {
            if(how == 3 && !reusable.empty() && rr.chance(1, 2)) { auto x = rr.pick(reusable); next = x.first; if(next == prev) return; sinks[next]->closed = false; if(single && prev >= 0) sinks[prev]->mayDie = true; listener->writeOn(x.second); vf::stat("stream_set_again"); }
            else { auto s = newSink(rr); next = s->id; SinkStream* st = new SinkStream(s); { std::lock_guard<std::mutex> g(rm); raws.emplace_back(st); } reusable.emplace_back(next, st); if(single && prev >= 0) sinks[prev]->mayDie = true; listener->writeOn(st); }
            vf::stat("by_writeOn");
         }
         else { if(prev >= 0) sinks[prev]->mayDie = true; if(how == 4) listener->writeOn(nullptr); else if(rr.chance(1, 2)) listener->share(nullptr); else { std::unique_ptr<std::ostream> u; listener->own(u); } vf::stat("no_stream"); }
         // it returned
         if(prev >= 0) { sinks[prev]->closed = true; epochs.back().to = sinks[prev]->len(); }
         cur = next; epochs.push_back(Epoch{next, next >= 0 && !epochs.empty() ? [&] { size_t f = 0; for(auto& e: epochs) if(e.sink == next) f = std::max(f, e.to); return f; }() : 0, ~size_t(0)});
         vf::stat("replacements"); ++switches;
      };
      auto multiReplace = [&](Rng& rr) {
         auto s = newSink(rr); s->mayDie = true;   // which one is current is not determined
         int how = int(rr.below(3));
         if(how == 0) { std::unique_ptr<std::ostream> u(new SinkStream(s)); listener->own(u); vf::stat("by_own"); }
         else if(how == 1) { listener->share(std::make_shared<SinkStream>(s)); vf::stat("by_share"); }
         else { SinkStream* st = new SinkStream(s); { std::lock_guard<std::mutex> g(rm); raws.emplace_back(st); } listener->writeOn(st); vf::stat("by_writeOn"); }
         vf::stat("replacements");
      };
      if(single) { if(nulls && r.chance(1, 2)) epochs.push_back(Epoch{-1, 0, ~size_t(0)}); else { auto s = newSink(r); SinkStream* st = new SinkStream(s); raws.emplace_back(st); listener->writeOn(st); cur = s->id; epochs.push_back(Epoch{cur, 0, ~size_t(0)}); } }
      else multiReplace(r);
      std::atomic<int> live{P}; std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int i = 0; i < P + 3; ++i) seeds.push_back(r.next());
      for(int p = 0; p < P; ++p) th.emplace_back([&, p] { Rng rr(seeds[p]); for(auto& m: by[p]) { (two && p % 2 ? *ls2 : ls).log(m.file, m.line, m.level, m.cat, m.text); if(rr.chance(1, 6)) usleep(useconds_t(rr.below(50))); } --live; });
      if(single) {
         int k = 0; while((live.load() > 0 && k < 400) || k < 4) { replace(r); ++k; if(r.chance(1, 2)) usleep(useconds_t(r.below(80))); vf::tick(); }
      }
      else {
         int S = int(r.range(2, 3)); std::vector<std::thread> st;
         for(int s = 0; s < S; ++s) st.emplace_back([&, s] { Rng rr(seeds[P + s]); int k = 0; while((live.load() > 0 && k < 150) || k < 4) { multiReplace(rr); ++k; if(rr.chance(1, 2)) usleep(useconds_t(rr.below(80))); vf::tick(); } });
         for(auto& t: st) t.join();
      }
      for(auto& t: th) t.join();
      if(!waitFor([&] { return rec->n.load() + rec2->n.load() >= P * N; })) { vf::viol("delivery-stalled", "records are missing"); return; }
      ls.stop(); if(ls2) ls2->stop();
      rec->hook = nullptr;
      // the current stream is alive
      for(auto& s: sinks) s->mayDie = true;
      if(single && cur >= 0 && sinks[cur]->deaths.load()) vf::viol("stream-destroyed-while-current", fmt("stream %d", cur));
      listener.reset();
   }
   if(!wl.expired()) vf::viol("listener-held", "the listener outlives the services");
   // owned and shared streams are gone, once
   size_t rawCount = raws.size(), dead = 0;
   for(auto& s: sinks) dead += s->deaths.load();
   if(dead + rawCount != sinks.size()) vf::viol("stream-not-released", fmt("%zu of %zu streams given to the listener were destroyed with it", dead, sinks.size() - rawCount));
   for(auto& w: shares) if(!w.expired()) vf::viol("stream-not-released", "a shared stream outlives the listener");
   // content
   std::map<std::string, int> times; std::vector<std::vector<std::string>> content;
   for(auto& s: sinks) { if(!s->flushed()) vf::viol("not-flushed", fmt("stream %d is left with unflushed output", s->id)); content.push_back(records(s->text, sent, s->id)); for(auto& x: content.back()) if(++times[x] > 1) vf::viol("record-duplicated", fmt("record %s written %d times", x.c_str() + 1, times[x])); }
   if(!nulls) for(auto& s: sent) if(!times.count(s.first)) vf::viol("record-lost", fmt("record %s was written to no stream", s.first.c_str() + 1));
   std::map<std::string, size_t> pos; for(size_t i = 0; i < rec->order.size(); ++i) pos[rec->order[i]] = i;
   for(size_t k = 0; k < content.size() && !two; ++k) { long last = -1; for(auto& x: content[k]) { if(long(pos[x]) < last) vf::viol("record-order", fmt("stream %zu: %s", k, x.c_str() + 1)); last = long(pos[x]); } }
   if(single && !vf::violated()) {
      size_t at = 0; bool gap = false;
      for(auto& e: epochs) {
         if(e.sink < 0) { gap = true; continue; }
         auto& t = sinks[e.sink]->text; size_t to = std::min(e.to, t.size());
         for(auto& x: records(t.substr(e.from, to - e.from), sent, e.sink)) {
            if(gap ? pos[x] < at : pos[x] != at) vf::viol("record-order", fmt("record %s (delivered %zu-th) written to stream %d when the %zu-th was due", x.c_str() + 1, pos[x], e.sink, at));
            at = pos[x] + 1; gap = false;
         }
      }
      if(!gap && at != rec->order.size() && !vf::violated()) vf::viol("record-lost", "the last records were not written to the current stream");
   }
   vf::stat("records_checked", (long long)times.size()); vf::stat("evaluations");
   uint64_t h = idx; size_t used = 0; for(auto& c: content) { h = vf::mix(h, c.size()); used += !c.empty(); }
   vf::stat("streams_written", (long long)used);
   if(used > 1) vf::distinct(h);
   if(idx < 3) vf::sample(fmt("case %ld: %zu records over %zu streams (%zu written), %d producers, %s", idx, times.size(), sinks.size(), used, P, single ? "one switcher" : "several switchers"));
}

int main(int argc, char* argv[]) {
   vf::init(argc, argv);
   std::string mode = vf::options().str("mode"); long cases = vf::options().get("cases", 100); uint64_t seed = uint64_t(vf::options().get("seed", 1));
   vf::startWatchdog("L08", 45);
   for(long i = vf::options().get("from", 0); i < cases; ++i) {
      Rng r(vf::mix(seed, uint64_t(i)));
      if(r.chance(1, 3)) caseFormat(r, i); else caseSwitch(r, i);
      vf::tick();
      if(vf::violated()) break;
   }
   vf::stat("injected_delays", (long long)vf::Delays::count().load());
   return vf::finish();
}
