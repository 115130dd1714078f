From 593418f26878d81c2f605b0f9322386ca68b77be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 01/17] fix: a fatal event before initializeLogging called an
 empty std::function

The pre fatal hook was only given its do-nothing default in initializeLogging,
so LOG(FATAL)/CHECK before that threw std::bad_function_call and the fatal
message was never shown.
---
 src/g3log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a5bfa52..3db2a18 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -41,7 +41,7 @@ namespace {
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
-   std::function<void(void)> g_fatal_pre_logging_hook;
+   std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
-- 
2.43.0


From 3170a3508bd2b5674881f274103c52400c1bb90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 02/17] fix: installing the crash handler twice lost the
 original signal actions

The second installation saved g3log's own handler as the action to restore,
so that a fatal signal was re-raised into g3log's handler: the process hung
instead of dying, or exited with the wrong status.
---
 src/crashhandler_unix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9c40449..84ac614 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -102,7 +102,8 @@ namespace {
          if (sigaction(sig_pair.first, &action, &old_action) < 0) {
             std::string signalerror = "sigaction - " + sig_pair.second;
             perror(signalerror.c_str());
-         } else {
+         } else if ((old_action.sa_flags & SA_SIGINFO) == 0 || old_action.sa_sigaction != &signalHandler) {
+            // never save our own handler as the one to go back to
             gSavedSigActions[sig_pair.first] = old_action;
          }
       }
-- 
2.43.0


From c9699af3889ac8dc5260d5ccce12fa6f0df45dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 03/17] fix: a printf-style message of exactly the maximum size
 lost its last character

vsnprintf returns the length without the terminating null, so a message of
exactly the buffer size was truncated by one character without the marker.
---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index ad448c9..d4f138b 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -105,7 +105,7 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
    if (nbrcharacters < 0) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
-   } else if (nbrcharacters > finished_message_len) {
+   } else if (nbrcharacters >= finished_message_len) {
       stream() << finished_message << kTruncatedWarningText;
    } else {
       stream() << finished_message;
-- 
2.43.0


From 4afe7c8a793ff4c7a36d05eacd574d64db5d43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 04/17] fix: querying an unregistered logging level registered
 it

operator[] inserted a disabled phantom entry (named INFO), also from concurrent
logging threads, which later bulk operations could enable.
---
 src/loglevels.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index a148e8f..3a7b967 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -118,9 +118,8 @@ namespace g3 {
 
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
-      int level = log_level.value;
-      bool status = internal::g_log_levels[level].status.value();
-      return status;
+      const auto it = internal::g_log_levels.find(log_level.value);
+      return internal::g_log_levels.end() != it && it->second.status.value();
 #else
       return true;
 #endif
-- 
2.43.0


From d8d2c824ec6890b66ecb2a3defdf12f80aa7a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 05/17] fix: swap and assignment of LogMessage left out the
 file path and the details function

---
 src/g3log/logmessage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/g3log/logmessage.hpp b/src/g3log/logmessage.hpp
index 9fc2d23..6898d56 100644
--- a/src/g3log/logmessage.hpp
+++ b/src/g3log/logmessage.hpp
@@ -116,9 +116,11 @@ namespace g3 {
 
       friend void swap(LogMessage& first, LogMessage& second) {
          using std::swap;
+         swap(first._logDetailsToStringFunc, second._logDetailsToStringFunc);
          swap(first._timestamp, second._timestamp);
          swap(first._call_thread_id, second._call_thread_id);
          swap(first._file, second._file);
+         swap(first._file_path, second._file_path);
          swap(first._line, second._line);
          swap(first._function, second._function);
          swap(first._level, second._level);
-- 
2.43.0


From 1ac9ed14c6f413a0c0a2ecb3998411c02b4aabb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 06/17] fix: changing to a log file of the same name destroyed
 the entries in it

The file name has a resolution of one second, so a change within the second the
file was created in re-opened the current log file with truncation.
---
 src/filesinkhelper.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 1e42999..fef294d 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -99,7 +99,7 @@ namespace g3 {
 
       bool openLogFile(const std::string &complete_file_with_path, std::ofstream &outstream) {
          std::ios_base::openmode mode = std::ios_base::out; // for clarity: it's really overkill since it's an ofstream
-         mode |= std::ios_base::trunc;
+         mode |= std::ios_base::app; // never destroy what another (or the same) sink already wrote
          outstream.open(complete_file_with_path, mode);
          if (!outstream.is_open()) {
             std::ostringstream ss_error;
-- 
2.43.0


From 9751f2c9a9bf944c9b656b6a3304452a493301ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 07/17] fix: simultaneous fatal events raced on the pre fatal
 hook

The hook was copied without the lock that guards its replacement: two threads
could both run it, or copy a half-assigned std::function.
---
 src/g3log.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 3db2a18..ad07f21 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -41,6 +41,7 @@ namespace {
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
+   std::mutex g_fatal_pre_logging_hook_mutex;
    std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
@@ -89,8 +90,7 @@ namespace g3 {
    *     so please call this function, if you ever need to, after initializeLogging(...)
    */
    void setFatalPreLoggingHook(std::function<void(void)> pre_fatal_hook) {
-      static std::mutex m;
-      std::lock_guard<std::mutex> lock(m);
+      std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
       g_fatal_pre_logging_hook = pre_fatal_hook;
    }
 
@@ -155,10 +155,13 @@ namespace g3 {
       }
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal) {
-         auto fatalhook = g_fatal_pre_logging_hook;
+         auto fatalhook = g_pre_fatal_hook_that_does_nothing;
          // In case the fatal_pre logging actually will cause a crash in its turn
          // let's not do recursive crashing!
-         setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
+         {
+            std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
+            fatalhook.swap(g_fatal_pre_logging_hook);
+         }
          ++g_fatal_hook_recursive_counter;  // thread safe counter
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
-- 
2.43.0


From 4a8f07ea7f078c63aefae01aa77dd95f524edc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 08/17] fix: a fatal signal raised while handling a fatal
 signal hung the process

E.g. a pre fatal hook that aborts: the nested signal handler waited forever for
the outer one on the same thread.
---
 src/crashhandler_unix.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 84ac614..6b05f5d 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -63,8 +63,12 @@ namespace {
 
       using namespace g3::internal;
 
-      // Only one signal will be allowed past this point
-      if (false == shouldDoExit()) {
+      // Only one signal will be allowed past this point, unless the handling of it
+      // (i.e. the pre fatal hook) crashes in its turn: that thread must not wait for itself
+      static thread_local bool handlingSignal = false;
+      const bool recursiveSignal = handlingSignal;
+      handlingSignal = true;
+      if (false == shouldDoExit() && false == recursiveSignal) {
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From c761954072fdb0d75b2b6c8a1fa20cf54790b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 09/17] fix: logging while another thread's fatal event is
 handled could crash

The worker clears the (non-atomic) logger pointer when it handles a fatal
message. A thread that had just seen it set then called through a null pointer,
and its crash killed the process before the log was flushed.
---
 src/g3log.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index ad07f21..0960a31 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -34,7 +34,7 @@
 
 namespace {
    std::once_flag g_initialize_flag;
-   g3::LogWorker* g_logger_instance = nullptr;  // instantiated and OWNED somewhere else (main)
+   std::atomic<g3::LogWorker*> g_logger_instance{nullptr};  // instantiated and OWNED somewhere else (main)
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
@@ -195,7 +195,8 @@ namespace g3 {
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         if (!internal::isLoggingInitialized()) {
+         auto* const logger = g_logger_instance.load();
+         if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -208,7 +209,7 @@ namespace g3 {
          }
 
          // logger is initialized
-         g_logger_instance->save(incoming);
+         logger->save(incoming);
       }
 
       /** Fatal call saved to logger. This will trigger SIGABRT or other fatal signal
@@ -217,7 +218,8 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         if (!isLoggingInitialized()) {
+         auto* const logger = g_logger_instance.load();
+         if (nullptr == logger) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -226,7 +228,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         g_logger_instance->fatal(message);
+         logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From b7e50e52377d403abc21cf49ae51529e4d34eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 10/17] fix: a second fatal event killed the process before the
 first one was flushed

While the worker flushes the log for a fatal event no logger is active, so a fatal
event of another thread took the 'logger is NOT initialized' exit at once and the
queued messages, the first fatal message included, were lost.
---
 src/g3log.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 0960a31..5c05696 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -218,8 +218,14 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
+         static std::atomic<bool> fatalHandedOver{false};
          auto* const logger = g_logger_instance.load();
          if (nullptr == logger) {
+            // The logger might be gone because it is busy with an earlier fatal event of another thread.
+            // Give it the time to flush the log, it will end the process.
+            for (int seconds = 0; fatalHandedOver && shouldBlockForFatalHandling() && seconds < 60; ++seconds) {
+               std::this_thread::sleep_for(std::chrono::seconds(1));
+            }
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -228,6 +234,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
+         fatalHandedOver = true;
          logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
-- 
2.43.0


From cfa5c66b0f117a2f2019f59f6ca6be428c4fba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 11/17] fix: a fatal signal without an active logger ended in
 exit(signal) instead of the signal

exitWithDefaultSignalHandler is then called in the signal handler where the signal
is blocked: raise() had no effect and the process exited normally, running static
destructors, with the signal number as exit code.
---
 src/crashhandler_unix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 6b05f5d..bbfd70e 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -237,6 +237,11 @@ namespace g3 {
                    << __FUNCTION__ << ":" << __LINE__ << ". Exiting due to " << level.text << ", " << signal_number << "   \n\n"
                    << std::flush;
 
+         // In the signal handler itself the signal is blocked, it would only become pending
+         sigset_t unblock;
+         sigemptyset(&unblock);
+         sigaddset(&unblock, signal_number);
+         pthread_sigmask(SIG_UNBLOCK, &unblock, nullptr);
          raise(signal_number);
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-- 
2.43.0


From 5eebe58a340e5606c867dbdb4a6f69f95a98e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 12/17] fix: first message before initialization raced with
 initializeLogging

initializeLogging could take the message away while it was still being prepared
by the logging thread: null pointer access or use after free.
---
 src/g3log.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 5c05696..b775514 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -198,13 +198,16 @@ namespace g3 {
          auto* const logger = g_logger_instance.load();
          if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
-               g_first_uninitialized_msg = incoming.release();
+               std::unique_ptr<LogMessage> first = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
-               err.append(g_first_uninitialized_msg->message());
-               std::string& str = g_first_uninitialized_msg->write();
+               err.append(first->message());
+               std::string& str = first->write();
                str.clear();
                str.append(err); // replace content
-               std::cerr << str << std::endl; });
+               std::cerr << str << std::endl;
+               // complete before it can be seen by initializeLogging
+               std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+               g_first_uninitialized_msg = std::move(first); });
             return;
          }
 
-- 
2.43.0


From bb98d7618f6262003a3f66128c2bc91422bc12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 13/17] fix: recursive crash message showed the first stack
 trace of the process, not the first since initialization

---
 src/g3log.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index b775514..9613e03 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -45,6 +45,7 @@ namespace {
    std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
+   std::string g_first_stack_trace;  // of the first fatal event since initialization, guarded by the hook mutex
 }  // namespace
 
 namespace g3 {
@@ -161,21 +162,23 @@ namespace g3 {
          {
             std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
             fatalhook.swap(g_fatal_pre_logging_hook);
+            // "benign" race here. If two threads crashes, with recursive crashes
+            // then it's possible that the "other" fatal stack trace will be shown
+            // that's OK since it was anyhow the first crash detected
+            if (0 == g_fatal_hook_recursive_counter++) {  // thread safe counter
+               g_first_stack_trace = stack_trace;
+            }
          }
-         ++g_fatal_hook_recursive_counter;  // thread safe counter
-         // "benign" race here. If two threads crashes, with recursive crashes
-         // then it's possible that the "other" fatal stack trace will be shown
-         // that's OK since it was anyhow the first crash detected
-         static const std::string first_stack_trace = stack_trace;
          fatalhook();
          message.get()->write().append(stack_trace);
 
          if (g_fatal_hook_recursive_counter.load() > 1) {
+            std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
             message.get()->write().append(
                                      "\n\n\nWARNING\n"
                                      "A recursive crash detected. It is likely the hook set with 'setFatalPreLoggingHook(...)' is responsible\n\n")
                .append("---First crash stacktrace: ")
-               .append(first_stack_trace)
+               .append(g_first_stack_trace)
                .append("\n---End of first stacktrace\n");
          }
          FatalMessagePtr fatal_message{std::make_unique<FatalMessage>(*(message._move_only.get()), fatal_signal)};
-- 
2.43.0


From ed10972f2e7fed96ee07aa6b037112a9b910331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 14/17] fix: a contract on a true integer expression other than
 1 failed

CHECK(flags & mask) compared the expression with true, so that 2 == true
counted as a broken contract.
---
 src/g3log/g3log.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index af5363d..1a936c8 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -154,7 +154,7 @@ namespace g3 {
 // 'Design By Contract' stream API. Broken Contracts will exit the application by using fatal signal SIGABRT
 //  For unit testing, you can override the fatal handling using setFatalExitHandler(...). See tes_io.cpp for examples
 #define CHECK(boolean_expression)        \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
 
 
 /** For details please see this
@@ -216,12 +216,12 @@ And here is possible output
 // Calls the signal handler if the contract failed with the default exit for a failed contract. This is typically SIGABRT
 // See g3log, setFatalExitHandler(...) which can be overriden for unit tests (ref test_io.cpp)
 #define CHECKF(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
 
 // Backwards compatible. The same as CHECKF.
 // Design By Contract, printf-like API syntax with variadic input parameters.
 // Calls the signal handler if the contract failed. See g3log, setFatalExitHandler(...) which can be overriden for unit tests
 // (ref test_io.cpp)
 #define CHECK_F(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
    // clang-format on
\ No newline at end of file
-- 
2.43.0


From ef9670d18ee37c6cc597e673ecbb4e48b4151485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 15/17] fix: a maximum message size of 0 produced silently
 empty messages

The buffer had no room, so a null pointer was streamed and the truncation
marker after it was lost.
---
 src/logcapture.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index d4f138b..82ec306 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -31,7 +31,8 @@
 static int MaxMessageSize = 2048;
 
 void g3::only_change_at_initialization::setMaxMessageSize(size_t max_size) {
-   MaxMessageSize = max_size;
+   // room for the terminating null, without it nothing at all could be written
+   MaxMessageSize = max_size > 0 ? max_size : 1;
 }
 #endif /* G3_DYNAMIC_MAX_MESSAGE_SIZE */
 
-- 
2.43.0


From da7488cdbb524515648680e9dd862ae1b0f69598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 16/17] fix: a file name containing '(' lost everything up to
 the parenthesis

---
 src/logmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logmessage.cpp b/src/logmessage.cpp
index 5e6faa9..16f80cc 100644
--- a/src/logmessage.cpp
+++ b/src/logmessage.cpp
@@ -15,7 +15,7 @@ namespace g3 {
 
    std::string LogMessage::splitFileName(const std::string& str) {
       size_t found;
-      found = str.find_last_of("(/\\");
+      found = str.find_last_of("/\\");
       return str.substr(found + 1);
    }
 
-- 
2.43.0


From ccd6a3e4a0732af2dc9458d725cf211a5d2b72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 17/17] fix: an escaped percent sign followed by f was taken
 for a fraction directive

---
 src/time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/time.cpp b/src/time.cpp
index a94d394..2d08077 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -83,8 +83,12 @@ namespace g3 {
          // iterating through every "%f" instance in the format string
          auto identifierExtraSize = 0;
          for (size_t pos = 0;
-              (pos = format_buffer.find(g3::internal::kFractionalIdentier, pos)) != std::string::npos;
+              (pos = format_buffer.find('%', pos)) != std::string::npos;
               pos += g3::internal::kFractionalIdentierSize + identifierExtraSize) {
+            // another directive: skipped with the character after its '%', "%%f" is not a fraction
+            if (0 != format_buffer.compare(pos, g3::internal::kFractionalIdentierSize, g3::internal::kFractionalIdentier)) {
+               continue;
+            }
             // figuring out whether this is nano, micro or milli identifier
             auto type = g3::internal::getFractional(format_buffer, pos);
             auto value = g3::internal::to_string(ts, type);
-- 
2.43.0

