From 27effcbdd8a4f25e5e42b80d2181f62ac2cdbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 01/60] fix: initialise the termination flag of LogSystem

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f3e3cc7..a98d7ea 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -24,7 +24,8 @@ LogSystem::LogSystem(bool startNow):
 		m_unpooled(0),
 		m_destroyed(0),
 		m_maxMsgQueueSize(0),
-		m_msgReceived(0)
+		m_msgReceived(0),
+		m_isTerminated(false)
 {
 	// prepare the pool
 	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
-- 
2.43.0


From 115307fa9c932df42ad2228ed2c5236daffc2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 02/60] fix: let LogSystem be started again after a stop

---
 src/engine/logsystem.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index a98d7ea..6848a1d 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -57,25 +57,27 @@ LogSystem::~LogSystem()
 void LogSystem::start() {
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
+		// we might have been stopped before
+		m_mtxMessage.lock();
+		m_isTerminated = false;
+		m_mtxMessage.unlock();
 		m_logThread = new std::thread(&LogSystem::loggingThread, this);
 	}
 }
 
 
 void LogSystem::stop() noexcept {
+	std::lock_guard<std::mutex> guard(m_mtxThread);
+	if(m_logThread == 0) {
+		return;
+	}
+
 	// send a killer message
 	m_mtxMessage.lock();
 	m_isTerminated = true;
 	m_mtxMessage.unlock();
 	m_cvLogs.notify_all();
 
-	// now
-	std::thread* the_thread = 0;
-	std::lock_guard<std::mutex> guard(m_mtxThread);
-	if(m_logThread == 0) {
-		return;
-	}
-
 	// we join in a lock, but this stop() should hardly be called more than once per program.
 	m_logThread->join();
 	delete m_logThread;
-- 
2.43.0


From 34fda60b2ce0e8715eee5e6979eb6f6893a06055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 03/60] fix: don't leak the strings of the pooled log messages

---
 src/engine/logsystem.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 6848a1d..dfae46e 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -92,8 +92,14 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 		return;
 	}
 
-	Message* msg = new(allocateMsg()) Message(file, line, level, cat, message);
-	log(msg);
+	// messages from the pool are alive: reuse them, don't construct another one in place.
+	std::unique_ptr<Message> msg(allocateMsg());
+	msg->m_file = file;
+	msg->m_line = line;
+	msg->m_level = level;
+	msg->m_category = cat;
+	msg->m_message = message;
+	log(msg.release());
 }
 
 
-- 
2.43.0


From 417981ecd0952dbc3ddbe171a0ef33ed53017bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 04/60] fix: remove the data race between LogSystem::getDiags
 and the log thread

---
 src/engine/logsystem.cpp       | 18 ++++++++++--------
 src/include/falcon/logsystem.h |  3 ++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index dfae46e..67105b2 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -251,11 +251,13 @@ void LogSystem::disposeMsg(Message* msg) noexcept
 
 void LogSystem::cleanupTerminatedListeners()
 {
-	m_activeListeners.erase(
-			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
-					[](auto& listener) { return listener->isDetached(); }),
-			m_activeListeners.end());
-
+	// Release the listeners when out of the lock; it might be the last reference.
+	ListenerList detached;
+	std::lock_guard<std::mutex> guard(m_mtxListeners);
+	auto pos = std::stable_partition(m_activeListeners.begin(), m_activeListeners.end(),
+					[](auto& listener) { return !listener->isDetached(); });
+	std::move(pos, m_activeListeners.end(), std::back_inserter(detached));
+	m_activeListeners.erase(pos, m_activeListeners.end());
 }
 
 
@@ -263,9 +265,6 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 {
 	diags.m_msgsCreated = m_unpooled;
 	diags.m_msgsDiscarded = m_destroyed;
-	diags.m_activeListeners = m_activeListeners.size();
-	diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
-				[](const auto& l){return l->isEnabled();});
 	diags.m_msgReceived = m_msgReceived;
 
 	{
@@ -279,6 +278,9 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 	{
 		std::lock_guard<std::mutex> guard(m_mtxListeners);
 		diags.m_pendingListeners = m_pendingListeners.size();
+		diags.m_activeListeners = m_activeListeners.size();
+		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
+				[](const auto& l){return l->isEnabled();});
 	}
 }
 
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 235bb9a..1986f39 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -267,7 +267,7 @@ private:
    std::atomic<size_t> m_unpooled;
    std::atomic<size_t> m_destroyed;
    size_t m_maxMsgQueueSize;
-   size_t m_msgReceived;
+   std::atomic<size_t> m_msgReceived;
 
 
    using MessageQueue = std::deque<Message*>;
@@ -282,6 +282,7 @@ private:
 
    using ListenerList = std::deque<std::shared_ptr<Listener>>;
    ListenerList m_pendingListeners;
+   // Changed only by the log thread, under m_mtxListeners.
    ListenerList m_activeListeners;
 
    std::thread* m_logThread;
-- 
2.43.0


From 0c269f250eeb73b258d389f7902cf235bf23a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 05/60] fix: return the listener category by value, as it can
 be changed concurrently

---
 src/include/falcon/logsystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 1986f39..1d5e0e5 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -135,7 +135,7 @@ public:
       /**
        * Returns the current category filter
        */
-      const std::string& category() const noexcept {
+      std::string category() const {
     	  std::lock_guard<std::mutex> guard(m_mtxCategory);
     	  return m_category;
       }
-- 
2.43.0


From 82afcd27f60bb6f553558c855ee229687ab4dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 06/60] fix: don't write debug output to stdout when filtering
 by category

---
 src/engine/logsystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 67105b2..33f35e7 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -214,7 +214,6 @@ bool LogSystem::Listener::checkCategory(const std::string& cat) const noexcept
 	  if(m_category == "") {
 		  return true;
 	  }
-	  std::cout << "Category filtering: " << cat <<" vs. "<< m_category << ": " << std::regex_match(cat, m_catRegex)<<  '\n';
 	  return std::regex_match(cat, m_catRegex);
   }
 
-- 
2.43.0


From ce38445602b602e4913a320533cc1b0f806f74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 07/60] fix: don't send further messages to detached listeners

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 33f35e7..66e7a74 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -198,7 +198,8 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 {
 	m_msgReceived++;
 	for(auto listener: m_activeListeners) {
-		if(listener->isEnabled()
+		if(! listener->isDetached()
+				&& listener->isEnabled()
 				&& listener->level() >= msg->m_level
 				&& listener->checkCategory(msg->m_category))
 		{
-- 
2.43.0


From e33ccdaa0bd7097ceb8646c28652214c97f688fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 08/60] fix: use a thread safe local time conversion in
 LogStreamListener

---
 src/engine/logstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 6db856a..8dde2c9 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -24,7 +24,13 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 {
 	auto now = std::chrono::system_clock::now();
 	time_t tt = std::chrono::system_clock::to_time_t(now);
-	tm local_tm = *localtime(&tt);
+	tm local_tm;
+	// localtime() is shared with all the other threads and log services.
+#ifdef FALCON_SYSTEM_WIN
+	localtime_s(&local_tm, &tt);
+#else
+	localtime_r(&tt, &local_tm);
+#endif
 
 	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);
 	std::string file;
-- 
2.43.0


From 4891a55deb042819dd2b8dfc8537ad9579cf5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 09/60] fix: make the Logger category filter restore the
 previous state as documented

---
 src/engine/logger.cpp       | 24 ++++++++++++++++++------
 src/include/falcon/logger.h |  1 +
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c8e365..5d2395f 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -14,6 +14,7 @@
 ******************************************************************************/
 
 #include <falcon/logger.h>
+#include <algorithm>
 
 namespace falcon {
 
@@ -32,23 +33,34 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
+	// this might throw; change our status only if it doesn't.
+	auto proxy = std::make_shared<LogProxyListener>(m_dflt);
+	proxy->category(category);
+	proxy->level(l);
+
 	if (m_proxy.get()) {
 		m_proxy->detach();
 	}
-	m_proxyBaseLevel = level();
-	if(l > m_proxyBaseLevel) {
-		level(l);
+	else {
+		// the status to get back to is the one before the first filter.
+		m_proxyBaseLevel = level();
+		m_dfltBaseLevel = m_dflt->level();
 	}
-	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
-	m_proxy->category(category);
-	m_proxy->level(l);
+	m_dflt->level(std::min(m_dfltBaseLevel, m_proxyBaseLevel));
+	level(std::max(l, m_proxyBaseLevel));
+	m_proxy = proxy;
 	addListener(m_proxy);
 }
 
 
 void Logger::clearFilter() {
+	if (! m_proxy.get()) {
+		return;
+	}
 	m_proxy->detach();
+	m_proxy.reset();
 	level(m_proxyBaseLevel);
+	m_dflt->level(m_dfltBaseLevel);
 }
 
 }
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f565360..28369df 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -375,6 +375,7 @@ private:
 	std::shared_ptr<LogStreamListener> m_dflt;
 	std::shared_ptr<LogProxyListener> m_proxy;
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
+	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
 	static thread_local std::ostringstream m_composer;
 	static thread_local std::string m_category;
-- 
2.43.0


From ba85f9381fbe13dc0d29fc28faef0849992f1e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 10/60] fix: let more than one source file of a program include
 logger.h

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 28369df..d545dd7 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -400,7 +400,7 @@ const Logger::AutoEnd& operator << (const Logger::AutoEnd& aes, T&& arg)
     return aes;
 }
 
-const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
+inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
 {
     if(aes.doLog()) {
     	aes.obj().setTempCategory(cat.m_cat);
-- 
2.43.0


From 76357db94849bbf2e49ce0a504eea0aa3b24b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 11/60] fix: don't apply the stream manipulators of a log
 message to the following ones

---
 src/include/falcon/logger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index d545dd7..1a9f727 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -384,7 +384,9 @@ private:
 	static thread_local int m_msgLine;
 	static thread_local LOGLEVEL m_msgLevel;
 
-	void readyStream() noexcept {
+	void readyStream() {
+		// manipulators (hex, setprecision etc) are bound to a single message.
+		m_composer.copyfmt(std::ostringstream());
 		m_composer.clear();
 		m_composer.str("");
 	}
-- 
2.43.0


From dcde430f4d00fdbca2a3b785f20b011e26d19a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 12/60] fix: keep nested log statements and abandoned log
 blocks out of other messages

---
 src/engine/logger.cpp       |  1 +
 src/include/falcon/logger.h | 53 +++++++++++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 5d2395f..a22403d 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -24,6 +24,7 @@ thread_local std::ostringstream Logger::m_composer;
 thread_local std::string Logger::m_msgFile{""};
 thread_local int Logger::m_msgLine{0};
 thread_local LOGLEVEL Logger::m_msgLevel{LLTRACE};
+thread_local bool Logger::m_composing{false};
 
 Logger::Logger()
 {
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 1a9f727..fa51208 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -301,17 +301,53 @@ public:
 	void categoryFilter(const std::string& line, LOGLEVEL l=LLTRACE);
 	void clearFilter();
 
+	/** A message under composition, set aside by a message logged in the meanwhile. */
+	struct Composition {
+		std::ostringstream m_composer;
+		std::string m_tempCategory;
+		std::string m_msgFile;
+		int m_msgLine{0};
+		LOGLEVEL m_msgLevel{LLTRACE};
+	};
+
+	/**
+	 * Starts composing a message in this thread.
+	 * @return The message under composition in this thread up to now, or empty if none.
+	 */
+	std::unique_ptr<Composition> beginMessage() {
+		std::unique_ptr<Composition> outer;
+		if(m_composing) {
+			outer = std::make_unique<Composition>();
+			swapMessage(*outer);
+		}
+		m_composing = true;
+		return outer;
+	}
+
+	/** Drops what's left of the current message, and gets back to composing the outer one. */
+	void endMessage(std::unique_ptr<Composition>& outer) {
+		readyStream();
+		m_tempCategory.clear();
+		m_composing = outer != nullptr;
+		if(outer) {
+			swapMessage(*outer);
+			outer.reset();
+		}
+	}
+
 	class AutoEnd
 	{
 	private:
 	    Logger* m_obj;
 	    std::string m_category;
+	    std::unique_ptr<Composition> m_outer;
 
 	public:
 	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_outer = obj.beginMessage();
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
@@ -319,7 +355,7 @@ public:
 	    	}
 	    }
 
-	    ~AutoEnd () {if(m_obj){m_obj->commit();}}
+	    ~AutoEnd () {if(m_obj){m_obj->commit(); m_obj->endMessage(m_outer);}}
 	    bool doLog() const noexcept {return m_obj != nullptr;}
 	    Logger& obj () const noexcept {return *m_obj;}
 	};
@@ -328,19 +364,23 @@ public:
 	{
 	private:
 	    Logger* m_obj;
+	    std::unique_ptr<Composition> m_outer;
 
 	public:
 	    explicit BlockEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_outer = obj.beginMessage();
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
 	    		m_obj = &obj;
 	    	}
 	    }
-	    void complete() {m_obj->commit(); m_obj = nullptr;}
+	    // The block might be left without being completed.
+	    ~BlockEnd() {if(m_obj){m_obj->endMessage(m_outer);}}
+	    void complete() {m_obj->commit(); m_obj->endMessage(m_outer); m_obj = nullptr;}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
 
@@ -383,6 +423,15 @@ private:
 	static thread_local std::string m_msgFile;
 	static thread_local int m_msgLine;
 	static thread_local LOGLEVEL m_msgLevel;
+	static thread_local bool m_composing;
+
+	void swapMessage(Composition& other) {
+		m_composer.swap(other.m_composer);
+		m_tempCategory.swap(other.m_tempCategory);
+		m_msgFile.swap(other.m_msgFile);
+		std::swap(m_msgLine, other.m_msgLine);
+		std::swap(m_msgLevel, other.m_msgLevel);
+	}
 
 	void readyStream() {
 		// manipulators (hex, setprecision etc) are bound to a single message.
-- 
2.43.0


From db81136b989d278c6eb4d80fbe33a2eb1257bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 13/60] fix: set the log category whenever a log statement is
 enabled at compile time

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index fa51208..dcf3387 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -460,7 +460,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 }
 
 #define LOGGER (::falcon::Logger::instance())
-#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= LOGGER.level()){LOGGER.setCategory(__CAT);}
+#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= ::falcon::LLCRIT){LOGGER.setCategory(__CAT);}
 
 #define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL))
 #define LOG_CRIT LOG(::falcon::LLCRIT)
-- 
2.43.0


From cb75269b9233fbc2812f9fdf6b6b1dd7028057e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 14/60] fix: accept any level expression in LOG_BLOCK

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index dcf3387..900d5c9 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -473,7 +473,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 
 #define LOG_BLOCK(lvl) \
 	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, lvl); \
-		FALCON_MIN_LOG_LEVEL >= lvl && LOGGER.level() >= lvl && __ender; \
+		FALCON_MIN_LOG_LEVEL >= (lvl) && LOGGER.level() >= (lvl) && __ender; \
 		__ender.complete() )
 
 #define LOG_BLOCK_CRIT LOG_BLOCK(::falcon::LLCRIT)
-- 
2.43.0


From a2143346f68f32b419d509c39dd09f06c29e6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 15/60] fix: discard the log records when a LogStreamListener
 is given no stream

---
 src/include/falcon/logstream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/falcon/logstream.h b/src/include/falcon/logstream.h
index 69156e5..0634bd1 100644
--- a/src/include/falcon/logstream.h
+++ b/src/include/falcon/logstream.h
@@ -44,20 +44,20 @@ public:
 	void own(std::unique_ptr<std::ostream>& out) noexcept {
 		std::lock_guard<std::mutex> guard(m_mtxStream);
 		m_uptrStream = std::move(out);
-		m_pout = m_uptrStream.get();
+		m_pout = m_uptrStream ? m_uptrStream.get() : &m_dummy;
 	}
 
 	/** Set the stream by sharing ownership. */
 	void share(std::shared_ptr<std::ostream> out) noexcept {
 		std::lock_guard<std::mutex> guard(m_mtxStream);
 		m_pstream = out;
-		m_pout = out.get();
+		m_pout = out ? out.get() : &m_dummy;
 	}
 
 	/** Sets a stream without holding the ownership. */
 	void writeOn(std::ostream* out) noexcept {
 		std::lock_guard<std::mutex> guard(m_mtxStream);
-		m_pout = out;
+		m_pout = out ? out : &m_dummy;
 	}
 
     virtual void onMessage( const falcon::LogSystem::Message& msg ) override;
-- 
2.43.0


From c4484e568555a7ef0c214a5e6adfbdb9348f28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 16/60] fix: clear also the first page of the PagedStack

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 168d5d1..4282a01 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -530,6 +530,7 @@ public:
          m_curBase->clear();
          --m_curBase;
       }
+      m_curBase->clear();
    }
 
    /**
-- 
2.43.0


From d742db846f8571dde6006e378617d9732c955d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 17/60] fix: remove the elements discarded from the PagedStack
 down to a page start

---
 src/include/falcon/engine/pagedstack.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 4282a01..3692b2a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -111,13 +111,11 @@ private:
       }
       if(iData == m_curBase->begin())
       {
+         m_curBase->clear();
          if (m_curBase != m_base.begin())
          {
             m_curBase--;
          }
-         else {
-            m_curBase->clear();
-         }
       }
       else {
          m_curBase->resize(iData - m_curBase->begin());
-- 
2.43.0


From 5341497055700040bbf996f2d22345821032fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 18/60] fix: stop PagedStack reverse iterators at the page in
 use, not at the last allocated

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 3692b2a..7955077 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -564,8 +564,8 @@ public:
    const_iterator end() const noexcept {return const_iterator(m_base.begin(), --m_base.front().begin(), m_base.cbegin()); }
    const_iterator cend() const noexcept {return end(); }
 
-   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}
-   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), --m_base.cend());}
+   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}
+   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}
    const_reverse_iterator crbegin() const noexcept {return rbegin();}
 
    reverse_iterator rend() noexcept{return reverse_iterator(m_curBase, m_curBase->end(), m_curBase);}
-- 
2.43.0


From 155041b3d634323176bd15dbd313de94d945642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 19/60] fix: keep the PagedStack usable when pushing the first
 element of a page throws

---
 src/include/falcon/engine/pagedstack.h | 28 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7955077..8a70c94 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -75,15 +75,18 @@ private:
       }
    }
 
-   void advance() {
-      if (m_curBase->size() == m_pageSize) {
-         ++m_curBase;
-         if(m_curBase == m_base.end()) {
-            m_curBase--;
+   // Finds the page for the next element; it becomes current when the element is in.
+   typename base_type::iterator advance() {
+      typename base_type::iterator base = m_curBase;
+      if (base->size() == m_pageSize) {
+         ++base;
+         if(base == m_base.end()) {
+            base--;
             growBase();
-            m_curBase++;
+            base++;
          }
       }
+      return base;
    }
 
    template<typename... _Args>
@@ -123,14 +126,14 @@ private:
    }
 
    void internal_push(const _T& data) {
-      advance();
-      m_curBase->push_back(data);
+      typename base_type::iterator base = advance();
+      base->push_back(data);
+      m_curBase = base;
    }
 
    template<typename... _Args>
    void internal_push(const _T& data, _Args&&... __args) {
-      advance();
-      m_curBase->push_back(data);
+      internal_push(data);
       internal_push(std::forward<_Args>(__args)...);
    }
 
@@ -454,9 +457,10 @@ public:
    template<typename... _Args>
    void push_emplace(_Args&&... __args)	{
       std::lock_guard<_Mutex> guard(m_mutex);
-      advance();
+      typename base_type::iterator base = advance();
       // vector::emplace writes at the previous iterator.
-      m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      base->emplace_back(std::forward<_Args>(__args)...);
+      m_curBase = base;
    }
 
    /**
-- 
2.43.0


From 69db81ce709f13c9c520eeb6439af7e9db85e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 20/60] fix: don't keep a page that could not be allocated in
 the PagedStack

---
 src/include/falcon/engine/pagedstack.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 8a70c94..1828feb 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -70,7 +70,14 @@ private:
       size_t count = m_allocSize;
       while(count) {
          m_base.emplace_back(m_dataAllocator);
-         m_base.back().reserve(m_pageSize);
+         try {
+            m_base.back().reserve(m_pageSize);
+         }
+         catch(...) {
+            // don't leave a page without space behind.
+            m_base.pop_back();
+            throw;
+         }
          --count;
       }
    }
-- 
2.43.0


From 11c82ad005f21dfabb1c2d8fbc714d46f386ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 21/60] fix: let the exceptions of the assignment to the
 PagedStack top reach the caller

---
 src/include/falcon/engine/pagedstack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 1828feb..07519fe 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -439,7 +439,7 @@ public:
       m_curBase = m_base.begin();
    }
 
-   void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
+   void top(const _T& value) { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
    void push(const _T& data) {
-- 
2.43.0


From 9fc211d3ec1bd3a853973e3da65724119d5969c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 22/60] fix: account for the copies of the PagedStack
 synchronised iterators

---
 src/include/falcon/engine/pagedstack.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 07519fe..b5bab99 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -153,6 +153,11 @@ private:
         }
    }
 
+   void addSyncIterator() const noexcept {
+      std::lock_guard<_Mutex> guard(m_mutex);
+      ++m_syncIterCount;
+   }
+
    void removeSyncIterator() const noexcept {
       std::lock_guard<_Mutex> guard(m_mutex);
       if(--m_syncIterCount == 0 && m_shrinkRequest) {
@@ -350,6 +355,26 @@ private:
          return *this;
       }
 
+      sync_iterator_base(const sync_iterator_base& other) noexcept:
+            m_iBase(other.m_iBase),
+            m_iData(other.m_iData),
+            m_iBaseBegin(other.m_iBaseBegin),
+            m_owner(other.m_owner)
+      {
+         m_owner->addSyncIterator();
+      }
+
+      sync_iterator_base& operator=(const sync_iterator_base& other) noexcept {
+         // add before removing, we might be the only iterator of the same owner.
+         other.m_owner->addSyncIterator();
+         m_owner->removeSyncIterator();
+         m_iBase = other.m_iBase;
+         m_iData = other.m_iData;
+         m_iBaseBegin = other.m_iBaseBegin;
+         m_owner = other.m_owner;
+         return *this;
+      }
+
       ~sync_iterator_base() {
          m_owner->removeSyncIterator();
       }
-- 
2.43.0


From 9d2eacc9916786be79d82a6b54e58628814d1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 23/60] fix: let the constant synchronised iterators of the
 PagedStack be read

---
 src/include/falcon/engine/pagedstack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index b5bab99..2e1b2e1 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <memory>
 #include <stdexcept>
+#include <type_traits>
 #include <falcon/engine/distribute.h>
 #include <mutex>
 
@@ -316,7 +317,7 @@ private:
    class sync_iterator_base {
    public:
 
-      void get(_TT& value) {
+      void get(std::remove_const_t<_TT>& value) {
          PagedStack::lock_guard guard(m_owner);
          synchronize();
          value = *m_iData;
-- 
2.43.0


From 01f26bf4092e9a02f51051c228eb6bc6b80ffa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 24/60] fix: give copied PagedStacks pages and a position of
 their own

---
 src/include/falcon/engine/pagedstack.h | 27 ++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 2e1b2e1..751bd5c 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -465,6 +465,33 @@ public:
       m_curBase = m_base.begin();
    }
 
+   PagedStack(const PagedStack& other):
+            m_pageSize(other.m_pageSize),
+            m_allocSize(other.m_allocSize),
+            m_base(other.m_base.get_allocator()),
+            m_dataAllocator(other.m_dataAllocator)
+   {
+      growBase();
+      m_curBase = m_base.begin();
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      for(const_reverse_iterator iter = other.rbegin(); iter != other.rend(); ++iter) {
+         internal_push(*iter);
+      }
+   }
+
+   PagedStack& operator=(const PagedStack& other) {
+      if(this != &other) {
+         // Use a copy not to lock both stacks at the same time.
+         PagedStack copy(other);
+         std::lock_guard<_Mutex> guard(m_mutex);
+         internal_discard(m_base.begin(), m_base.front().begin());
+         for(const_reverse_iterator iter = copy.rbegin(); iter != copy.rend(); ++iter) {
+            internal_push(*iter);
+         }
+      }
+      return *this;
+   }
+
    void top(const _T& value) { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
-- 
2.43.0


From 7d907e0140a1111b11c69b39fab01458b9fdeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 25/60] fix: let RFutex::lock return once the futex is acquired

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 23708c9..1faa5a3 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -94,7 +94,7 @@ public:
       while(!m_owner.compare_exchange_strong(
             free, thread_id,
             std::memory_order_seq_cst,
-            std::memory_order_seq_cst) || free != thread_id) {
+            std::memory_order_seq_cst) && free != thread_id) {
          free = 0;
       }
       ++m_count;
-- 
2.43.0


From 6dba39b561968d676eda1346d1e4f529759783bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 26/60] fix: don't report a free RFutex as owned by threads
 that never locked one

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 1faa5a3..fb96ab3 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -111,7 +111,7 @@ public:
    }
 
    bool isOwner() noexcept {
-      return m_owner.load(std::memory_order_seq_cst) == s_thread_id;
+      return s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id;
    }
 };
 
-- 
2.43.0


From 61adf8ed70bc0fe87345c362d759d2dafdf1887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 27/60] fix: keep yielding every spinCount attempts while
 waiting for a Futex

---
 src/include/falcon/futex.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index fb96ab3..94b3e27 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -56,6 +56,7 @@ public:
          isOwned = false;
 
          if(spinCount && --sc == 0) {
+            sc = spinCount;
             std::this_thread::yield();
          }
       }
-- 
2.43.0


From f7b7046333a0f8cfeb015172107da697c6ddabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 28/60] fix: make atomicFetch atomic, and let atomicSet and
 atomicExchange publish

---
 src/include/falcon/atomic_gcc.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/include/falcon/atomic_gcc.h b/src/include/falcon/atomic_gcc.h
index 57bb27a..8447588 100644
--- a/src/include/falcon/atomic_gcc.h
+++ b/src/include/falcon/atomic_gcc.h
@@ -44,19 +44,18 @@ inline int32 atomicAdd( atomic_int& atomic, atomic_int value )
 
 /** Perform a threadsafe fetch */
 inline int32 atomicFetch( const atomic_int& atomic ) {
-   __sync_synchronize ();
-   return atomic;
+   return __atomic_load_n( &atomic, __ATOMIC_SEQ_CST );
 }
 
 /** Perform a threadsafe set.*/
 inline void atomicSet( atomic_int& atomic, atomic_int value ) {
-   __sync_lock_test_and_set( &atomic, value );
+   __atomic_store_n( &atomic, value, __ATOMIC_SEQ_CST );
 }
 
 /** Sets the given value in atomic, and returns the previous value. */
 inline atomic_int_base atomicExchange( atomic_int& atomic, atomic_int value )
 {
-   return (int32) __sync_lock_test_and_set( &atomic, value );
+   return (int32) __atomic_exchange_n( &atomic, value, __ATOMIC_SEQ_CST );
 }
 
 inline bool atomicCAS( atomic_int& target, atomic_int compareTo, atomic_int newVal )
-- 
2.43.0


From 06e5ded3554ef2ce83291c04f69e2f9e23348198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 29/60] fix: let the typed getters of Item compile

---
 src/include/falcon/engine/item.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index ede1a6e..37406d5 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -91,8 +91,6 @@ public:
         } else {
             throw std::invalid_argument("Not a valid item type");
         }
-
-        return *static_cast<T*>(data);
     }
 
     String toString() const noexcept {return handler->toString(data);}
-- 
2.43.0


From 97353b6f813febbbf280b8a362e7f6db7e261915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 30/60] fix: store the pointers given to ItemData, not their
 address

---
 src/include/falcon/engine/itemdata.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/falcon/engine/itemdata.h b/src/include/falcon/engine/itemdata.h
index 4eee6de..0243fca 100644
--- a/src/include/falcon/engine/itemdata.h
+++ b/src/include/falcon/engine/itemdata.h
@@ -45,6 +45,10 @@ union ItemData {
             uint64Value = value;
         } else if constexpr (std::is_same_v<T, numeric>) {
             numericValue = value;
+        } else if constexpr (std::is_null_pointer_v<T>) {
+            ptrValue = nullptr;
+        } else if constexpr (std::is_pointer_v<T>) {
+            ptrValue = const_cast<void*>(static_cast<const void*>(value));
         } else {
             ptrValue = static_cast<void*>(const_cast<T*>(&value));
         }
-- 
2.43.0


From 3bb8191457f798298cc3779e94b5aec1441160f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 31/60] fix: give copied Items a value of their own

---
 src/include/falcon/engine/deephandler.h |  1 +
 src/include/falcon/engine/flathandler.h |  1 +
 src/include/falcon/engine/handler.h     |  2 ++
 src/include/falcon/engine/item.h        | 10 ++++++++++
 4 files changed, 14 insertions(+)

diff --git a/src/include/falcon/engine/deephandler.h b/src/include/falcon/engine/deephandler.h
index 0efe981..ce05a56 100644
--- a/src/include/falcon/engine/deephandler.h
+++ b/src/include/falcon/engine/deephandler.h
@@ -26,6 +26,7 @@ struct DeepHandler: public Handler {
 
     ItemData allocate() const override {return new T;}
     void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}
+    ItemData clone(ItemData data) const override { return new T(*reinterpret_cast<T *>(data.ptrValue)); }
 
     bool isFlat() const noexcept override { return false; }
     bool isCopyFlat() const noexcept override { return false; }
diff --git a/src/include/falcon/engine/flathandler.h b/src/include/falcon/engine/flathandler.h
index 8e379f0..1a9eb96 100644
--- a/src/include/falcon/engine/flathandler.h
+++ b/src/include/falcon/engine/flathandler.h
@@ -24,6 +24,7 @@ struct FlatHandler: public Handler {
 
     ItemData allocate() const override { return ItemData(false); }
     void destroy(ItemData) const noexcept override {}
+    ItemData clone(ItemData data) const override { return data; }
     
     bool isFlat() const noexcept override{ return true; }
     bool isCopyFlat() const noexcept override{ return true; }
diff --git a/src/include/falcon/engine/handler.h b/src/include/falcon/engine/handler.h
index df54df1..48d65e0 100644
--- a/src/include/falcon/engine/handler.h
+++ b/src/include/falcon/engine/handler.h
@@ -31,6 +31,8 @@ struct Handler {
 
     virtual ItemData allocate() const =0;
     virtual void destroy(ItemData data) const noexcept =0;
+    // Returns a copy of the data that can be destroyed independently.
+    virtual ItemData clone(ItemData data) const =0;
 
     virtual String typeName() const noexcept = 0;
     virtual String toString(ItemData data) const noexcept = 0;
diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index 37406d5..5e6c72d 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -16,6 +16,7 @@
 #ifndef _FALCON_ITEM_H_
 #define _FALCON_ITEM_H_
 
+#include <utility>
 #include "falcon/types.h"
 #include "falcon/engine/handlerfactory.h"
 
@@ -69,6 +70,15 @@ public:
         }
     }
 
+    Item(const Item& other) : data(other.handler->clone(other.data)), handler(other.handler) {}
+
+    Item& operator=(const Item& other) {
+        Item copy(other);
+        std::swap(data, copy.data);
+        std::swap(handler, copy.handler);
+        return *this;
+    }
+
     ~Item() {
         handler->destroy(data);
     }
-- 
2.43.0


From 8f4e1e14549e84bb5ce1b5249d2215dc686d51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 32/60] fix: don't terminate when converting any string Item to
 integer

---
 src/include/falcon/engine/stringhandler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/stringhandler.h b/src/include/falcon/engine/stringhandler.h
index 4116e84..ce14705 100644
--- a/src/include/falcon/engine/stringhandler.h
+++ b/src/include/falcon/engine/stringhandler.h
@@ -15,6 +15,7 @@
 #ifndef _FALCON_STRINGHANDLER_H_
 #define _FALCON_STRINGHANDLER_H_
 
+#include <cstdlib>
 #include "falcon/engine/deepflatcopyhandler.h"
 
 
@@ -27,7 +28,7 @@ struct StringHandler: public DeepFlatCopyHandler<String> {
     String toString(ItemData data) const noexcept override { return *reinterpret_cast<String *>(data.ptrValue); }
 
     bool toBool(ItemData data) const noexcept override { return !reinterpret_cast<String *>(data.ptrValue)->empty(); }
-    int64 toInt(ItemData data) const noexcept override { return std::stoll(*reinterpret_cast<String *>(data.ptrValue)); }
+    int64 toInt(ItemData data) const noexcept override { return std::strtoll(reinterpret_cast<String *>(data.ptrValue)->c_str(), nullptr, 10); }
 };
 
 }
-- 
2.43.0


From d845a7bdc6c30186953a03c4045836055565f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 33/60] fix: define the conversion to integer of the floats out
 of range

---
 src/include/falcon/engine/floathandler.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/floathandler.h b/src/include/falcon/engine/floathandler.h
index 4b20ed2..8ef1bea 100644
--- a/src/include/falcon/engine/floathandler.h
+++ b/src/include/falcon/engine/floathandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_FLOATHANDLER_H_
 
 #include "falcon/engine/flathandler.h"
+#include <limits>
 #include <sstream>
 
 namespace falcon {
@@ -33,7 +34,13 @@ struct FloatHandler: public FlatHandler {
     }
 
     bool toBool(ItemData data) const noexcept override {return data.numericValue != 0.0;}
-    int64 toInt(ItemData data) const noexcept override {return static_cast<int64>(data.numericValue);}
+    int64 toInt(ItemData data) const noexcept override {
+      // The limits are -2^63, representable by numeric, and 2^63-1, that is not.
+      if(data.numericValue != data.numericValue) {return 0;}
+      if(data.numericValue >= 9223372036854775808.0) {return std::numeric_limits<int64>::max();}
+      if(data.numericValue <= -9223372036854775808.0) {return std::numeric_limits<int64>::min();}
+      return static_cast<int64>(data.numericValue);
+    }
 };
 
 }
-- 
2.43.0


From aba4f0df9efc4565c3d2ec7d2925e88a29fc886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 34/60] fix: render and copy Code of any size and content

---
 src/engine/code.cpp              | 17 ++++++++++++++---
 src/include/falcon/engine/code.h |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 823a381..372df5a 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -19,14 +19,14 @@
 namespace falcon {
 
 Code::Code(const std::string& source, int line) noexcept :
-		m_source(source), m_line(line), m_data(new char[1000])
+		m_source(source), m_line(line), m_data(new char[source.size()+1])
 {
 	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
 	m_data[m_source.size()] = 0;
 }
 
 Code::Code(const Code& other) noexcept:
-		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)
+		Code(other.m_source, other.m_line)
 {}
 
 Code::Code(Code&& other) noexcept:
@@ -34,6 +34,16 @@ Code::Code(Code&& other) noexcept:
 		m_line(other.m_line), m_data(other.m_data)
 {
 	other.m_data = nullptr;
+	other.m_source.clear();
+}
+
+Code& Code::operator=(const Code& other)
+{
+	Code copy(other);
+	std::swap(m_source, copy.m_source);
+	std::swap(m_line, copy.m_line);
+	std::swap(m_data, copy.m_data);
+	return *this;
 }
 
 Code::~Code()
@@ -42,7 +52,8 @@ Code::~Code()
 }
 
 std::string Code::toString() const noexcept {
-	return std::string(m_data);
+	// no data if we have been moved
+	return m_data == nullptr ? std::string() : std::string(m_data, m_source.size());
 }
 
 }
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 11042cf..3eafc76 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -24,7 +24,7 @@ public:
 	Code(const std::string& source="", int m_line=0) noexcept;
 	Code(const Code& other) noexcept;
 	Code(Code&& other) noexcept;
-	Code& operator=(const Code& other) = default;
+	Code& operator=(const Code& other);
 	~Code();
 
 	std::string toString() const noexcept;
-- 
2.43.0


From 882c60fb37ed1703fe8ed7d7d7fed6b9805eb4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 35/60] fix: don't report as failed the unit test cases that
 were not selected

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c9424cd..1e8963b 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -223,7 +223,7 @@ void UnitTest::report()
    if(p->verbosity > SILENT) {
       if (p->status != 0) {
          bool first = true;
-         for(auto tcase: p->tests ) {
+         for(auto tcase: p->testsToPerofm ) {
             if (!hasPassed(tcase))
             {
                if(first) {
-- 
2.43.0


From 1ce2babf592a2ebc335ff528db12ed279f3b82be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 36/60] fix: escape the texts in the XML report of the unit
 tests

---
 src/fut/unittest.cpp | 51 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 1e8963b..fb60108 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -410,6 +410,41 @@ void UnitTest::usage() {
 }
 
 
+namespace {
+// Makes any (UTF-8) text fit in an XML element or attribute.
+std::string xmlEscape(const std::string& text)
+{
+   std::ostringstream ss;
+   for(size_t i = 0; i < text.size(); ++i) {
+      unsigned char c = static_cast<unsigned char>(text[i]);
+      switch(c) {
+      case '&': ss << "&amp;"; break;
+      case '<': ss << "&lt;"; break;
+      case '>': ss << "&gt;"; break;
+      case '"': ss << "&quot;"; break;
+      // These would be normalised when read back.
+      case '\t': ss << "&#9;"; break;
+      case '\n': ss << "&#10;"; break;
+      case '\r': ss << "&#13;"; break;
+      default:
+         if(c < ' ') {
+            // control characters don't exist in XML
+            ss << '?';
+         }
+         else if(text.compare(i, 3, "\xEF\xBF\xBE") == 0 || text.compare(i, 3, "\xEF\xBF\xBF") == 0) {
+            // ... nor do U+FFFE and U+FFFF
+            ss << '?';
+            i += 2;
+         }
+         else {
+            ss << text[i];
+         }
+      }
+   }
+   return ss.str();
+}
+}
+
 void UnitTest::saveToXML() const
 {
    std::ofstream fout(p->xmlReport);
@@ -420,29 +455,29 @@ void UnitTest::saveToXML() const
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-   fout << "<testsuites id=\""<< p->unitTestId << "\" name=\"" << p->unitTestName
+   fout << "<testsuites id=\""<< xmlEscape(p->unitTestId) << "\" name=\"" << xmlEscape(p->unitTestName)
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
             << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
 
-      fout << "<testsuite id=\"" << p->unitTestId << "." << component.name << "\" "
-           << "name=\"" << component.name << "\" "
+      fout << "<testsuite id=\"" << xmlEscape(p->unitTestId + "." + component.name) << "\" "
+           << "name=\"" << xmlEscape(component.name) << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
            << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
 
       for(auto tcasep: component.tests) {
-         fout << "<testcase id=\"" << p->unitTestId << "." << component.name << "." << tcasep->caseName() << "\" "
-              << "name=\"" << tcasep->caseName() << "\" "
+         fout << "<testcase id=\"" << xmlEscape(p->unitTestId + "." + component.name + "." + tcasep->caseName()) << "\" "
+              << "name=\"" << xmlEscape(tcasep->caseName()) << "\" "
               << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
 
          if(!hasPassed(tcasep)) {
-            fout << "<failure message=\"" << tcasep->failDesc() << "\" "
+            fout << "<failure message=\"" << xmlEscape(tcasep->failDesc()) << "\" "
                  << "type=\"" << tcasep->statusDesc() << "\">\n";
-            fout << tcasep->failDesc() << "\n"
-                 << "File: " << tcasep->failFile() << "\n"
+            fout << xmlEscape(tcasep->failDesc()) << "\n"
+                 << "File: " << xmlEscape(tcasep->failFile()) << "\n"
                  << "Line: " << tcasep->failLine() << "\n";
             fout << "</failure>\n";
          }
-- 
2.43.0


From 8c2723c5aa51e67b53082fb1f519b99bd5db02eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 37/60] fix: tear down the fixture of the unit test cases ended
 by an exception

---
 src/fut/testcase.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d76bb4c..0704cb1 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -213,7 +213,14 @@ void TestCase::run()
       SetUp();
 
       p->lapse.markBegin();
-      test();
+      try {
+         test();
+      }
+      catch(...) {
+         // The fixture must be cleared anyhow; the first error is the one reported.
+         try { TearDown(); } catch(...) {}
+         throw;
+      }
       p->lapse.markEnd();
 
       if(p->status == NONE) {
-- 
2.43.0


From 279684e230b653c4518f83a5f93561f9f464e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 38/60] fix: consider also the error output of the tear down of
 a test case

---
 src/fut/testcase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 0704cb1..dffd141 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -227,6 +227,9 @@ void TestCase::run()
          p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
       }
       TearDown();
+      if(p->status == SUCCESS && ! p->errCapture.str().empty()) {
+         p->status = OUT_ON_ERROR_STREAM;
+      }
    }
    catch(std::exception& e) {
       p->lapse.markEnd();
-- 
2.43.0


From 862524e31d8fa8d74bf292b82069983ca3667a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 39/60] fix: start each run of a unit test case with no output
 and failure data

---
 src/fut/testcase.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index dffd141..0c5aa3c 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -54,6 +54,7 @@ TestCase::TestCase():
 {
    p->name = "Undefined";
    p->status = NONE;
+   p->failLine = 0;
 }
 
 TestCase::~TestCase()
@@ -191,6 +192,13 @@ void TestCase::beginTest(bool capture)
       std::cerr.rdbuf(p->errCapture.rdbuf());
    }
 
+   // we might have been already run.
+   p->outCapture.str("");
+   p->errCapture.str("");
+   p->failDesc.clear();
+   p->failFile.clear();
+   p->failLine = 0;
+
    p->status = NONE;
 }
 
-- 
2.43.0


From 9cb8f9f8c0e6ed4661f832c939365d64a316623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 40/60] fix: don't format the unit test report with the
 manipulators used by the test cases

---
 src/fut/testcase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 0c5aa3c..413dfca 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -38,6 +38,8 @@ public:
    std::string outCaptureStr;
    std::string errCaptureStr;
 
+   std::ostringstream outFormat;
+   std::ostringstream errFormat;
    std::streambuf *outbuf;
    std::streambuf *errbuf;
 
@@ -188,6 +190,8 @@ void TestCase::beginTest(bool capture)
    if (capture) {
       p->outbuf = std::cout.rdbuf();
       p->errbuf = std::cerr.rdbuf();
+      p->outFormat.copyfmt(std::cout);
+      p->errFormat.copyfmt(std::cerr);
       std::cout.rdbuf(p->outCapture.rdbuf());
       std::cerr.rdbuf(p->errCapture.rdbuf());
    }
@@ -208,6 +212,8 @@ void TestCase::endTest(bool capture)
    if(capture){
       std::cout.rdbuf(p->outbuf);
       std::cerr.rdbuf(p->errbuf);
+      std::cout.copyfmt(p->outFormat);
+      std::cerr.copyfmt(p->errFormat);
 
       p->outCaptureStr = p->outCapture.str();
       p->errCaptureStr = p->errCapture.str();
-- 
2.43.0


From 4f250ac463aaa1dc41b4561000ad9618308cfc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 41/60] fix: refuse a verbosity that is not a number in the
 unit test command line

---
 src/fut/unittest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index fb60108..6ad87c4 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -350,8 +350,7 @@ int UnitTest::parseParams(int argc, char* argv[])
       else if(opt == "-v" && ++i < argc) {
          std::istringstream is(argv[i]);
          int level;
-         is >> level;
-         if(level >= SILENT && level <= REPORT_STDOUT) {
+         if(is >> level && is.eof() && level >= SILENT && level <= REPORT_STDOUT) {
             setVerbosity(static_cast<t_verbosity>(level));
             continue;
          }
-- 
2.43.0


From 550e9f3766cf3d48ab3501cc451aa04870ecf340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 42/60] fix: compare the floating point operands of the unit
 test checks as a whole and by distance

---
 src/include/falcon/fut/fut.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2cb11ef..defa7de 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -19,6 +19,7 @@
 #include <falcon/setup.h>
 #include <falcon/fut/testcase.h>
 #include <falcon/fut/unittest.h>
+#include <cmath>
 #include <sstream>
 #include <string>
 #include <stdexcept>
@@ -59,6 +60,25 @@
 			return; \
 		}
 
+// Doubles differing less than this are almost equal.
+#define FALCON_TEST_FLOAT_TOLERANCE 0.0001
+
+#define FALCON_TEST_CHECK_FLOAT(_EXPECTED_,_CHECK_,_ACTUAL_) \
+		if(!( ::falcon::testing::floatEquals((_EXPECTED_), (_ACTUAL_)) _CHECK_ true )) { \
+		   std::ostringstream ss; \
+		   ss << (_ACTUAL_); \
+			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \
+			return; \
+		}
+
+namespace falcon {
+namespace testing {
+inline bool floatEquals(double expected, double actual) {
+   return expected == actual || std::fabs(expected - actual) < FALCON_TEST_FLOAT_TOLERANCE;
+}
+}
+}
+
 #define EXPECT_EQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_LOGIC(_EXPECTED_,==,_ACTUAL_)
 #define EXPECT_NE( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_LOGIC(_EXPECTED_,!=,_ACTUAL_)
 #define EXPECT_GT( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_LOGIC(_EXPECTED_,>,_ACTUAL_)
@@ -86,11 +106,9 @@
 
 
 #define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               ==,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_FLOAT(_EXPECTED_,==,_ACTUAL_)
 #define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               !=,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_FLOAT(_EXPECTED_,!=,_ACTUAL_)
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0


From 6b767f995038f7b3c5f8c4e346170ca0bee2b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 43/60] fix: accept a string as first operand of a log
 statement

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 900d5c9..5c9b8fc 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -393,7 +393,7 @@ public:
 
 
 	struct category_manipulator {
-		category_manipulator(const std::string& cat):
+		explicit category_manipulator(const std::string& cat):
 			m_cat{cat}
 		{}
 		std::string m_cat;
-- 
2.43.0


From 689ce246debbcfaec401015b79ade6607947764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 44/60] fix: keep the position of the synchronised iterators
 when the PagedStack is found empty

---
 src/include/falcon/engine/pagedstack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 751bd5c..a5870d3 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -413,14 +413,14 @@ private:
 
          }
          // we need to resync.
-         m_iBase = m_owner->m_curBase;
-         if ( m_iBase->size() == 0)
+         if ( m_owner->m_curBase->size() == 0)
          {
             // the stack has been emptied in the meanwhile.
             // any resync operation implies a movement or a dereference
-            // hence, we're done.
+            // hence, we're done; but stay where we are, the stack might be filled again.
             throw std::runtime_error("Empty stack while resync");
          }
+         m_iBase = m_owner->m_curBase;
          m_iData = m_iBase->end()-1;
 
          return false;
-- 
2.43.0


From 21942b8cb0236cfb2c5bc522958431358cbe3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 45/60] fix: let the assignment of PagedStacks compile

---
 src/include/falcon/engine/pagedstack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index a5870d3..b722a99 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -482,7 +482,7 @@ public:
    PagedStack& operator=(const PagedStack& other) {
       if(this != &other) {
          // Use a copy not to lock both stacks at the same time.
-         PagedStack copy(other);
+         const PagedStack copy(other);
          std::lock_guard<_Mutex> guard(m_mutex);
          internal_discard(m_base.begin(), m_base.front().begin());
          for(const_reverse_iterator iter = copy.rbegin(); iter != copy.rend(); ++iter) {
-- 
2.43.0


From 8c481dd9c48cbae70a54c35ee1511c4d334ff9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 46/60] fix: run each unit test case once also when the unit
 test is performed again

---
 src/fut/unittest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 6ad87c4..cc10419 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -109,6 +109,7 @@ void UnitTest::init()
 void UnitTest::runAllTests()
 {
    // Reorder the tests in components
+   p->componentToPerform.clear();
    int count = 0;
    for(auto tcase: p->testsToPerofm ) {
 
-- 
2.43.0


From f9415a8310eeb1650eeffcb387932338a6e15ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 47/60] fix: give an elapsed time to the unit test cases whose
 set up throws

---
 src/fut/testcase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 413dfca..3128d75 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -222,6 +222,8 @@ void TestCase::endTest(bool capture)
 
 void TestCase::run()
 {
+   // The set up might throw; when it's done, the time is counted from the test.
+   p->lapse.markBegin();
    try {
       p->status = NONE;
       SetUp();
-- 
2.43.0


From 2b7bb091bd2fb0db3eddce02a469ea7481efaa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 48/60] fix: write the log records whole, whatever format and
 locale the stream has

---
 src/engine/logstream.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 8dde2c9..0cb1e29 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -17,6 +17,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <sstream>
 
 namespace falcon {
 
@@ -41,10 +42,9 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 		file =  msg.m_file;
 	}
 
-	// This method is not really meant to be used by multiple threads,
-	// but this lock prevents changing the underlying stream mid-output.
-	std::lock_guard<std::mutex> guard(m_mtxStream);
-	std::ostream& out = *m_pout;
+	// Don't use, nor change, the format and locale the user has set in the stream.
+	std::ostringstream out;
+	out.imbue(std::locale::classic());
 
 	// TODO: use a format to print
 	out
@@ -68,8 +68,15 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 	out << file << ':' << msg.m_line;
 	out << " " << msg.m_message << "\n";
 
+	const std::string record = out.str();
+
+	// This method is not really meant to be used by multiple threads,
+	// but this lock prevents changing the underlying stream mid-output.
+	std::lock_guard<std::mutex> guard(m_mtxStream);
+	m_pout->write(record.data(), record.size());
+
 	// TODO: add a flag to do this optionally
-	out.flush();
+	m_pout->flush();
 }
 
 }
-- 
2.43.0


From 63df468ecba95bbcb890c7f41b237774a02b5ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 49/60] fix: render the numbers in Items independently from the
 global locale

---
 src/include/falcon/engine/floathandler.h | 1 +
 src/include/falcon/engine/inthandler.h   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/include/falcon/engine/floathandler.h b/src/include/falcon/engine/floathandler.h
index 8ef1bea..7266a83 100644
--- a/src/include/falcon/engine/floathandler.h
+++ b/src/include/falcon/engine/floathandler.h
@@ -29,6 +29,7 @@ struct FloatHandler: public FlatHandler {
     String typeName() const noexcept override {return "Float";}
     String toString(ItemData data) const noexcept override {
       std::ostringstream ss;
+      ss.imbue(std::locale::classic());
       ss << data.numericValue;
       return ss.str();
     }
diff --git a/src/include/falcon/engine/inthandler.h b/src/include/falcon/engine/inthandler.h
index a6a70a0..34521d3 100644
--- a/src/include/falcon/engine/inthandler.h
+++ b/src/include/falcon/engine/inthandler.h
@@ -28,6 +28,7 @@ struct IntHandler: public FlatHandler {
     String typeName() const noexcept override {return "Int";}
     String toString(ItemData data) const noexcept override {
       std::ostringstream ss;
+      ss.imbue(std::locale::classic());
       ss << data.int64Value;
       return ss.str();
     }
-- 
2.43.0


From 99aa6b88a4e6afb6e6697562f4fab353fbb218ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 50/60] fix: write the XML report of the unit tests
 independently from the global locale

---
 src/fut/unittest.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index cc10419..7ef6cd8 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -452,6 +452,8 @@ void UnitTest::saveToXML() const
       std::cerr << "Cannot save XML report to " << p->xmlReport;
       return;
    }
+   // a test case might have changed the global locale.
+   fout.imbue(std::locale::classic());
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-- 
2.43.0


From 35e599fe24fa815265ce56866d7de8b3a8ce516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 51/60] fix: waitTime waits as long as asked for (usleep
 overflowed beyond 71 minutes and was cut short by signals)

---
 src/fut/marktime-unix.c++ | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fut/marktime-unix.c++ b/src/fut/marktime-unix.c++
index efac12f..4333106 100644
--- a/src/fut/marktime-unix.c++
+++ b/src/fut/marktime-unix.c++
@@ -14,9 +14,10 @@
 ******************************************************************************/
 
 #include <falcon/fut/marktime.h>
-#include <unistd.h>
 #include <sys/time.h>
+#include <chrono>
 #include <stdexcept>
+#include <thread>
 
 namespace falcon {
 namespace testing {
@@ -32,7 +33,8 @@ void markTime(int64& currentMillisecs)
 }
 
 void waitTime(int64 mseconds) {
-	usleep(mseconds * 1000);
+	// usleep() takes less than 72 minutes, and is cut short by signals
+	std::this_thread::sleep_for(std::chrono::milliseconds(mseconds));
 }
 
 }
-- 
2.43.0


From 1450b9a2c12fa2f2e192b19af8a49202c906c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 52/60] fix: log statements in destructors of static and thread
 objects used the thread's composer after its destruction

---
 src/engine/logger.cpp       | 22 +++++++++----
 src/include/falcon/logger.h | 64 ++++++++++++++++++++-----------------
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index a22403d..4d9ab8d 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -18,13 +18,21 @@
 
 namespace falcon {
 
-thread_local std::string Logger::m_category{""};
-thread_local std::string Logger::m_tempCategory{""};
-thread_local std::ostringstream Logger::m_composer;
-thread_local std::string Logger::m_msgFile{""};
-thread_local int Logger::m_msgLine{0};
-thread_local LOGLEVEL Logger::m_msgLevel{LLTRACE};
-thread_local bool Logger::m_composing{false};
+Logger::ThreadData& Logger::threadData()
+{
+	// The pointer outlives the object that releases the data: what's destroyed later gets new data.
+	static thread_local ThreadData* data{nullptr};
+	struct Release {
+		~Release() {delete data; data = nullptr;}
+	};
+
+	if(data == nullptr) {
+		data = new ThreadData;
+		static thread_local Release release;
+	}
+	return *data;
+}
+
 
 Logger::Logger()
 {
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 5c9b8fc..fd070e1 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -263,39 +263,40 @@ public:
 	}
 
 	void setCategory(const std::string& category) noexcept {
-		m_category = category;
+		threadData().m_category = category;
 	}
 
 	void setTempCategory(const std::string& category) noexcept {
-		m_tempCategory = category;
+		threadData().m_tempCategory = category;
 	}
 
 	const std::string& getCategory() const noexcept {
-		return m_category;
+		return threadData().m_category;
 	}
 
 	void commit()
 	{
-		if(m_tempCategory.empty()) {
-			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());
+		ThreadData& td = threadData();
+		if(td.m_tempCategory.empty()) {
+			log(td.m_msgFile, td.m_msgLine, td.m_msgLevel, td.m_category, td.m_composer.str());
 		}
 		else {
-			log(m_msgFile, m_msgLine, m_msgLevel, m_tempCategory, m_composer.str());
-			m_tempCategory.clear();
+			log(td.m_msgFile, td.m_msgLine, td.m_msgLevel, td.m_tempCategory, td.m_composer.str());
+			td.m_tempCategory.clear();
 		}
 		readyStream();
 	}
 
 	void setLevel(LOGLEVEL lvl) {
-		m_msgLevel = lvl;
+		threadData().m_msgLevel = lvl;
 	}
 
 	void setFile(const std::string& file) {
-		m_msgFile = file;
+		threadData().m_msgFile = file;
 	}
 
 	void setLine(int line) {
-		m_msgLine = line;
+		threadData().m_msgLine = line;
 	}
 
 	void categoryFilter(const std::string& line, LOGLEVEL l=LLTRACE);
@@ -316,19 +317,19 @@ public:
 	 */
 	std::unique_ptr<Composition> beginMessage() {
 		std::unique_ptr<Composition> outer;
-		if(m_composing) {
+		if(threadData().m_composing) {
 			outer = std::make_unique<Composition>();
 			swapMessage(*outer);
 		}
-		m_composing = true;
+		threadData().m_composing = true;
 		return outer;
 	}
 
 	/** Drops what's left of the current message, and gets back to composing the outer one. */
 	void endMessage(std::unique_ptr<Composition>& outer) {
 		readyStream();
-		m_tempCategory.clear();
-		m_composing = outer != nullptr;
+		threadData().m_tempCategory.clear();
+		threadData().m_composing = outer != nullptr;
 		if(outer) {
 			swapMessage(*outer);
 			outer.reset();
@@ -387,7 +388,7 @@ public:
 	// Hearth of the composition.
 	template<typename T>
 	const Logger& operator<<(const T& v) const {
-		m_composer << v;
+		threadData().m_composer << v;
 		return *this;
 	}
 
@@ -417,27 +418,30 @@ private:
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
 	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
-	static thread_local std::ostringstream m_composer;
-	static thread_local std::string m_category;
-	static thread_local std::string m_tempCategory;
-	static thread_local std::string m_msgFile;
-	static thread_local int m_msgLine;
-	static thread_local LOGLEVEL m_msgLevel;
-	static thread_local bool m_composing;
+	/** The message the thread is composing, and its category. */
+	struct ThreadData: public Composition {
+		std::string m_category;
+		bool m_composing{false};
+	};
+
+	/** It can be used at any moment, also by the destructors of static and thread objects. */
+	static ThreadData& threadData();
 
 	void swapMessage(Composition& other) {
-		m_composer.swap(other.m_composer);
-		m_tempCategory.swap(other.m_tempCategory);
-		m_msgFile.swap(other.m_msgFile);
-		std::swap(m_msgLine, other.m_msgLine);
-		std::swap(m_msgLevel, other.m_msgLevel);
+		ThreadData& td = threadData();
+		td.m_composer.swap(other.m_composer);
+		td.m_tempCategory.swap(other.m_tempCategory);
+		td.m_msgFile.swap(other.m_msgFile);
+		std::swap(td.m_msgLine, other.m_msgLine);
+		std::swap(td.m_msgLevel, other.m_msgLevel);
 	}
 
 	void readyStream() {
+		ThreadData& td = threadData();
 		// manipulators (hex, setprecision etc) are bound to a single message.
-		m_composer.copyfmt(std::ostringstream());
-		m_composer.clear();
-		m_composer.str("");
+		td.m_composer.copyfmt(std::ostringstream());
+		td.m_composer.clear();
+		td.m_composer.str("");
 	}
 };
 
-- 
2.43.0


From 007f6231cc85d0126d39956108dcff2394ee6968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 53/60] fix: performUnitTests() kept the test cases of its
 first run as if chosen, leaving out those added later

---
 src/fut/unittest.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 7ef6cd8..a8a7279 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -283,7 +283,8 @@ int UnitTest::performUnitTests()
    init();
    // fill the test to perform with all the tests, if none was explicitly given.
    auto& testsToPerform = p->testsToPerofm;
-   if(testsToPerform.empty()) {
+   bool allTests = testsToPerform.empty();
+   if(allTests) {
       testsToPerform = p->tests;
    }
 
@@ -292,6 +293,10 @@ int UnitTest::performUnitTests()
    if(!p->xmlReport.empty()) {
       saveToXML();
    }
+   if(allTests) {
+      // no test was chosen: others might be added before the next run.
+      testsToPerform.clear();
+   }
    return p->status;
 }
 
-- 
2.43.0


From 7841e81fafe69bcc2c4c8ad7fa427ce7581cf393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 54/60] fix: compiling from a stream that throws reaches the
 caller instead of terminating the program

---
 src/engine/compiler.cpp              | 2 +-
 src/include/falcon/engine/compiler.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/compiler.cpp b/src/engine/compiler.cpp
index 5a0ef17..354a84d 100644
--- a/src/engine/compiler.cpp
+++ b/src/engine/compiler.cpp
@@ -17,7 +17,7 @@
 #include <falcon/engine/compiler.h>
 
 namespace falcon {
-Code Compiler::compile(std::istream& input) noexcept
+Code Compiler::compile(std::istream& input)
 {
 	std::string value;
 	input >> value;
diff --git a/src/include/falcon/engine/compiler.h b/src/include/falcon/engine/compiler.h
index 4294266..ed10a8c 100644
--- a/src/include/falcon/engine/compiler.h
+++ b/src/include/falcon/engine/compiler.h
@@ -30,7 +30,7 @@ public:
 	 * @throw CompilationError on error.
 	 */
 
-	Code compile(std::istream& input) noexcept;
+	Code compile(std::istream& input);
 };
 }
 
-- 
2.43.0


From 702eaeb2e5719af9db87890c39997b1f36fa883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 55/60] fix: static items were used and destroyed after their
 handlers, aborting the program at its end

---
 src/engine/handlerfactory.cpp              | 29 +++++++++++++++++-----
 src/include/falcon/engine/handlerfactory.h | 13 +++++-----
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/engine/handlerfactory.cpp b/src/engine/handlerfactory.cpp
index 2aba631..be06d3f 100644
--- a/src/engine/handlerfactory.cpp
+++ b/src/engine/handlerfactory.cpp
@@ -17,12 +17,29 @@
 
 namespace falcon {
 
-NilHandler HandlerFactory::nilHandler;
-BoolHandler HandlerFactory::boolHandler;
-IntHandler HandlerFactory::intHandler;
-FloatHandler HandlerFactory::floatHandler;
-StringHandler HandlerFactory::stringHandler;
-BigNumHandler HandlerFactory::bigNumHandler;
+namespace {
+// Built at compile time, and not destroyed.
+template<typename T>
+union Immortal {
+	T handler;
+	constexpr Immortal(): handler() {}
+	~Immortal() {}
+};
+
+Immortal<NilHandler> nil;
+Immortal<BoolHandler> boolean;
+Immortal<IntHandler> integer;
+Immortal<FloatHandler> floating;
+Immortal<StringHandler> string;
+Immortal<BigNumHandler> bigNum;
+}
+
+NilHandler& HandlerFactory::nilHandler = nil.handler;
+BoolHandler& HandlerFactory::boolHandler = boolean.handler;
+IntHandler& HandlerFactory::intHandler = integer.handler;
+FloatHandler& HandlerFactory::floatHandler = floating.handler;
+StringHandler& HandlerFactory::stringHandler = string.handler;
+BigNumHandler& HandlerFactory::bigNumHandler = bigNum.handler;
 
 }
 
diff --git a/src/include/falcon/engine/handlerfactory.h b/src/include/falcon/engine/handlerfactory.h
index 0bb1d4f..930cd72 100644
--- a/src/include/falcon/engine/handlerfactory.h
+++ b/src/include/falcon/engine/handlerfactory.h
@@ -27,12 +27,13 @@ namespace falcon {
 
 class HandlerFactory {
 public:
-    static NilHandler nilHandler;
-    static BoolHandler boolHandler;
-    static IntHandler intHandler;
-    static FloatHandler floatHandler;
-    static StringHandler stringHandler;
-    static BigNumHandler bigNumHandler;
+    // The handlers are never destroyed: static items might be used and destroyed at any later moment.
+    static NilHandler& nilHandler;
+    static BoolHandler& boolHandler;
+    static IntHandler& intHandler;
+    static FloatHandler& floatHandler;
+    static StringHandler& stringHandler;
+    static BigNumHandler& bigNumHandler;
 };
 
 }
-- 
2.43.0


From 818ba73e15bbe526bb0fe3aa2f54c6a17a74130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:27 +0000
Subject: [PATCH 56/60] fix: a run with capture disabled told the output
 captured by an earlier run of the case

---
 src/fut/testcase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 3128d75..d42ef6e 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -199,6 +199,8 @@ void TestCase::beginTest(bool capture)
    // we might have been already run.
    p->outCapture.str("");
    p->errCapture.str("");
+   p->outCaptureStr.clear();
+   p->errCaptureStr.clear();
    p->failDesc.clear();
    p->failFile.clear();
    p->failLine = 0;
-- 
2.43.0


From 263c4574b6d02ec55b014999b97cdfcab7d3a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:27 +0000
Subject: [PATCH 57/60] fix: what the unit tests tell no longer depends on the
 format the program or a case set on std::cout, nor changes it

---
 src/fut/unittest.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index a8a7279..8946acd 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -25,6 +25,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
 #include <fstream>
 #include <sstream>
 
@@ -44,6 +45,34 @@ public:
    std::vector<TestCase*> tests;
    TimeLapse lapse;
 };
+
+// While alive, the standard output has the default format: what is told about the tests
+// neither depends on the format set by the program or by a test, nor changes it.
+class PlainOutput {
+public:
+   PlainOutput():
+      m_flags(std::cout.flags(std::ios::dec | std::ios::skipws)),
+      m_precision(std::cout.precision(6)),
+      m_width(std::cout.width(0)),
+      m_fill(std::cout.fill(' ')),
+      m_locale(std::cout.imbue(std::locale::classic()))
+   {}
+
+   ~PlainOutput() {
+      std::cout.flags(m_flags);
+      std::cout.precision(m_precision);
+      std::cout.width(m_width);
+      std::cout.fill(m_fill);
+      std::cout.imbue(m_locale);
+   }
+
+private:
+   std::ios::fmtflags m_flags;
+   std::streamsize m_precision;
+   std::streamsize m_width;
+   char m_fill;
+   std::locale m_locale;
+};
 }
 
 class UnitTest::Private {
@@ -160,6 +189,7 @@ void UnitTest::beginTest(int count, TestCase* tc)
 void UnitTest::endTest(int count, TestCase* tc)
 {
    tc->endTest(p->m_capture);
+   PlainOutput plainOutput;
 
    if(tc->capturedOut()[0]
       && (p->verbosity >= REPORT_STDOUT || (p->verbosity > SILENT && !hasPassed(tc)))) {
@@ -196,12 +226,15 @@ void UnitTest::endTest(int count, TestCase* tc)
 
 void UnitTest::writeTestName(int count, const char* tname, const char* result, double elapsed)
 {
+   PlainOutput plainOutput;
    std::ostringstream sname;
+   sname.imbue(std::locale::classic());
    sname << "[" << std::setw(3) << count << ": "
          << std::left << std::setw(p->screenWidth) << std::string(tname).substr(0, p->screenWidth);
 
    if( elapsed >= 0.0 ) {
       std::ostringstream secs;
+      secs.imbue(std::locale::classic());
       secs << std::fixed << std::setprecision(3)  << elapsed << "s";
       sname << std::setw(10) << secs.str();
    }
@@ -221,6 +254,7 @@ bool UnitTest::hasPassed(TestCase* tcase) const
 
 void UnitTest::report()
 {
+   PlainOutput plainOutput;
    if(p->verbosity > SILENT) {
       if (p->status != 0) {
          bool first = true;
-- 
2.43.0


From 649bf568494a4472bb9d56986abc26fc1931240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 58/60] fix: the compile-time log limit of one source applied
 to the statements of others

---
 src/include/falcon/logger.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index fd070e1..90c6380 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -336,6 +336,7 @@ public:
 		}
 	}
 
+	// The compile-time limit is that of the statement's source: it's not the same in all the program.
 	class AutoEnd
 	{
 	private:
@@ -344,10 +345,10 @@ public:
 	    std::unique_ptr<Composition> m_outer;
 
 	public:
-	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
+	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl, int limit=LLTRACE):
 			m_obj(nullptr)
 	    {
-	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    	if(limit >= lvl && obj.level() >= lvl) {
 	    		m_outer = obj.beginMessage();
 	    		obj.setFile(file);
 	    		obj.setLine(line);
@@ -368,10 +369,10 @@ public:
 	    std::unique_ptr<Composition> m_outer;
 
 	public:
-	    explicit BlockEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
+	    explicit BlockEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl, int limit=LLTRACE):
 			m_obj(nullptr)
 	    {
-	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    	if(limit >= lvl && obj.level() >= lvl) {
 	    		m_outer = obj.beginMessage();
 	    		obj.setFile(file);
 	    		obj.setLine(line);
@@ -466,7 +467,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 #define LOGGER (::falcon::Logger::instance())
 #define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= ::falcon::LLCRIT){LOGGER.setCategory(__CAT);}
 
-#define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL))
+#define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL, FALCON_MIN_LOG_LEVEL))
 #define LOG_CRIT LOG(::falcon::LLCRIT)
 #define LOG_ERR  LOG(::falcon::LLERR)
 #define LOG_WARN LOG(::falcon::LLWARN)
@@ -476,7 +477,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 #define LOG_CAT  ::falcon::Logger::msg_cat
 
 #define LOG_BLOCK(lvl) \
-	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, lvl); \
+	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, lvl, FALCON_MIN_LOG_LEVEL); \
 		FALCON_MIN_LOG_LEVEL >= (lvl) && LOGGER.level() >= (lvl) && __ender; \
 		__ender.complete() )
 
-- 
2.43.0


From 468a0109fb8d4c3721c4c60be2c4ff7abe6e07e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 59/60] fix: a module loaded at run time could get a logger of
 its own

---
 src/engine/logger.cpp       | 7 +++++++
 src/include/falcon/logger.h | 6 ++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 4d9ab8d..a783ec9 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -34,6 +34,13 @@ Logger::ThreadData& Logger::threadData()
 }
 
 
+Logger& Logger::instance()
+{
+	static Logger theLogger;
+	return theLogger;
+}
+
+
 Logger::Logger()
 {
 	m_dflt = std::make_shared<LogStreamListener>();
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 90c6380..3d1141d 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -253,10 +253,8 @@ public:
 
 	Logger();
 
-	static Logger& instance() {
-		static Logger theLogger;
-		return theLogger;
-	}
+	/** The same in all the parts of the program, also in modules loaded at run time. */
+	static Logger& instance();
 
 	std::shared_ptr<LogStreamListener> defaultListener() const {
 		return m_dflt;
-- 
2.43.0


From 3a474d6e2a428a718a70bf41cab2b5c3281da4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:19 +0000
Subject: [PATCH 60/60] fix: show the captured output of the unit test cases
 also beyond a zero character

---
 src/fut/testcase.cpp              | 10 ++++++++++
 src/fut/unittest.cpp              |  8 ++++----
 src/include/falcon/fut/testcase.h |  3 +++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d42ef6e..0bcf378 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -126,6 +126,16 @@ const char* TestCase::capturedErr() const
    return p->errCaptureStr.c_str();
 }
 
+size_t TestCase::capturedOutSize() const
+{
+   return p->outCaptureStr.size();
+}
+
+size_t TestCase::capturedErrSize() const
+{
+   return p->errCaptureStr.size();
+}
+
 const char* TestCase::failDesc() const
 {
    return p->failDesc.c_str();
diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 8946acd..bc71aaa 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -191,20 +191,20 @@ void UnitTest::endTest(int count, TestCase* tc)
    tc->endTest(p->m_capture);
    PlainOutput plainOutput;
 
-   if(tc->capturedOut()[0]
+   if(tc->capturedOutSize() > 0
       && (p->verbosity >= REPORT_STDOUT || (p->verbosity > SILENT && !hasPassed(tc)))) {
       std::cout << "\n======================================================================\n";
       std::cout << "STDOUT " << tc->fullName() << "\n";
       std::cout << "======================================================================\n";
-      std::cout << tc->capturedOut() << "\n";
+      std::cout.write(tc->capturedOut(), tc->capturedOutSize()) << "\n";
    }
 
-   if(tc->capturedErr()[0]
+   if(tc->capturedErrSize() > 0
       && (p->verbosity >= REPORT_STDERR || (p->verbosity > SILENT && !hasPassed(tc)))) {
       std::cout << "\n======================================================================\n";
       std::cout << "STDERR " << tc->fullName() << "\n";
       std::cout << "======================================================================\n";
-      std::cout << tc->capturedErr() << "\n";
+      std::cout.write(tc->capturedErr(), tc->capturedErrSize()) << "\n";
    }
 
    if(p->verbosity > SILENT && tc->status() == TestCase::ERROR) {
diff --git a/src/include/falcon/fut/testcase.h b/src/include/falcon/fut/testcase.h
index 6ba26b6..d675f15 100644
--- a/src/include/falcon/fut/testcase.h
+++ b/src/include/falcon/fut/testcase.h
@@ -48,6 +48,9 @@ public:
    const char* statusDesc() const;
    const char* capturedOut() const;
    const char* capturedErr() const;
+   /* What's captured might contain zero characters. */
+   size_t capturedOutSize() const;
+   size_t capturedErrSize() const;
    const char* failDesc() const;
    const char* failFile() const;
    int failLine() const;
-- 
2.43.0

