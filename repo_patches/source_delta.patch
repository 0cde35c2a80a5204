From c44f0edacc0a6209cd3bfcab61d4b329f74453fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 01/27] fix: no signed overflow converting the minimum value of
 a signed type

---
 include/cli/detail/fromstring.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/fromstring.h b/include/cli/detail/fromstring.h
index 606b3e2..3a58532 100644
--- a/include/cli/detail/fromstring.h
+++ b/include/cli/detail/fromstring.h
@@ -131,10 +131,14 @@ inline T signed_from_string(std::string s)
     {
         s = s.substr(1);
         const U val = unsigned_digits_from_string<U>(s);
-        auto min = std::numeric_limits<T>::min(); // this to avoid overflow warnings. Please NOTE: const auto produces warning!
-        if ( val > static_cast<U>( - min ) )
+        // NOTE: neither the negation of the minimum nor the one of static_cast<T>(val) is representable
+        // when val is the absolute value of the minimum, so work on (val - 1)
+        const U maxAbs = static_cast<U>( static_cast<U>( std::numeric_limits<T>::max() ) + 1 );
+        if ( val > maxAbs )
             throw bad_conversion();
-        return (- static_cast<T>(val));
+        if ( val == 0 )
+            return 0;
+        return static_cast<T>( - static_cast<T>(val - 1) - 1 );
     }
     else if (s[0] == '+')
     {
-- 
2.43.0


From 7e89141fbf80081abec62cc4732d99b0c9977cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 02/27] fix: history lookup by id in an empty history is out of
 range

---
 include/cli/detail/history.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index e8eb401..4f80b0e 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -165,14 +165,14 @@ private:
     // newest has index = 0      and id = idOfOldest + size-1 
     std::size_t IndexToId(std::size_t index) const
     {
-        if (index > idOfOldest+buffer.size()-1)
+        if (index >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - index;
     }
 
     std::size_t IdToIndex(std::size_t id) const
     {
-        if (id < idOfOldest || id > idOfOldest+buffer.size()-1)
+        if (id < idOfOldest || id - idOfOldest >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - id;
     }
-- 
2.43.0


From 9e24f1f79d0990317bd1be16bfde46ad90611614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 03/27] fix: history of capacity zero

---
 include/cli/detail/history.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 4f80b0e..f2dbfcb 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -81,6 +81,8 @@ public:
     {
         if (mode == Mode::inserting)
         {
+            if (maxSize == 0) // nothing is kept, there is nothing to browse
+                return line;
             Insert(line);
             mode = Mode::browsing;
             current = (buffer.size() > 1) ? 1 : 0;
@@ -155,7 +157,8 @@ public:
 
     void ForgetLatest()
     {
-        assert(!buffer.empty());
+        if (buffer.empty()) // nothing was kept
+            return;
         buffer.pop_front();
     }
 
-- 
2.43.0


From c2fd4938dd38669c6d4ee187445d472bd18f6e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 04/27] fix: entries loaded from the storage are not returned
 as commands of the session

---
 include/cli/detail/history.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index f2dbfcb..72eeffe 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -54,7 +54,6 @@ public:
     // Otherwise, the item is added to the front of the container
     void NewCommand(const std::string& item)
     {
-        ++commands;
         current = 0;
         if (mode == Mode::browsing)
         {
@@ -62,12 +61,18 @@ public:
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
                 buffer.pop_front();
             else // the item was not identical
+            {
                 buffer[current] = item;
+                ++commands;
+            }
         }
         else // Mode::inserting
         {
             if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
+            {
                 Insert(item);
+                ++commands;
+            }
         }
         mode = Mode::inserting;
     }
@@ -160,6 +165,8 @@ public:
         if (buffer.empty()) // nothing was kept
             return;
         buffer.pop_front();
+        if (commands > 0)
+            --commands;
     }
 
 private:
@@ -193,7 +200,7 @@ private:
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
-    std::size_t commands = 0; // number of commands issued
+    std::size_t commands = 0; // number of commands issued and recorded: they are the newest ones of the buffer
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
-- 
2.43.0


From be1057d7b580a0b093a5d1ccc9477998fe629365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 05/27] fix: re-executing a history entry leaves the rest of
 the history as it was

ForgetLatest removed an older entry when the last command had not been recorded (same text as
the latest entry), and the oldest entry was lost when the history was full: "!n" could not
execute the oldest entry shown.
---
 include/cli/detail/history.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 72eeffe..ce75897 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -55,15 +55,20 @@ public:
     void NewCommand(const std::string& item)
     {
         current = 0;
+        latestRecorded = false;
         if (mode == Mode::browsing)
         {
             assert(!buffer.empty());
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
+            {
                 buffer.pop_front();
+                UndoEviction();
+            }
             else // the item was not identical
             {
                 buffer[current] = item;
                 ++commands;
+                latestRecorded = true;
             }
         }
         else // Mode::inserting
@@ -72,6 +77,7 @@ public:
             {
                 Insert(item);
                 ++commands;
+                latestRecorded = !buffer.empty();
             }
         }
         mode = Mode::inserting;
@@ -160,13 +166,15 @@ public:
         return buffer[index];
     }
 
+    // Forget the item of the last NewCommand, as if it had never been issued
     void ForgetLatest()
     {
-        if (buffer.empty()) // nothing was kept
+        if (!latestRecorded) // nothing was kept
             return;
+        latestRecorded = false;
         buffer.pop_front();
-        if (commands > 0)
-            --commands;
+        --commands;
+        UndoEviction();
     }
 
 private:
@@ -190,13 +198,25 @@ private:
     void Insert(const std::string& item)
     {
         buffer.emplace_front(item);
-        if (buffer.size() > maxSize)
+        evicted = buffer.size() > maxSize;
+        if (evicted)
         {
+            lastEvicted = buffer.back();
             buffer.pop_back();
             ++idOfOldest;
         }
     }
 
+    // put back the element evicted by the last Insert, if any
+    void UndoEviction()
+    {
+        if (!evicted)
+            return;
+        evicted = false;
+        buffer.push_back(lastEvicted);
+        --idOfOldest;
+    }
+
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
@@ -204,6 +224,9 @@ private:
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
+    bool latestRecorded = false; // the last NewCommand recorded its item
+    bool evicted = false; // the last Insert evicted the oldest element
+    std::string lastEvicted;
 };
 
 } // namespace detail
-- 
2.43.0


From 1211ca4cc024875005cbe4de72e6963049e56c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 06/27] fix: the edit line of the history is never forgotten as
 if it were a command

---
 include/cli/detail/history.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index ce75897..634caa2 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -95,6 +95,7 @@ public:
             if (maxSize == 0) // nothing is kept, there is nothing to browse
                 return line;
             Insert(line);
+            latestRecorded = false; // the front of the buffer is now the edit line
             mode = Mode::browsing;
             current = (buffer.size() > 1) ? 1 : 0;
         }
-- 
2.43.0


From 90889a22e5a5dd553ddc3323cebfee8fc2b51d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 07/27] fix: a bad_cast thrown by a command handler is reported
 as an exception, not as a wrong command

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 437e838..cd535d3 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -781,13 +781,16 @@ namespace cli
             if (cmdLine.size() != paramSize+1) return false;
             if (Name() == cmdLine[0])
             {
+                bool invoked = false;
                 try
                 {
-                    auto g = [&](auto ... pars){ func( session.OutStream(), pars... ); };
+                    auto g = [&](auto ... pars){ invoked = true; func( session.OutStream(), pars... ); };
                     Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                 }
                 catch (std::bad_cast&)
                 {
+                    if (invoked) // the exception comes from the handler, not from a parameter conversion
+                        throw;
                     return false;
                 }
                 return true;
-- 
2.43.0


From db66fbf85d7722e8e247208021d9e00c58abb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 08/27] fix: no completions from inside a disabled menu

---
 include/cli/cli.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index cd535d3..b3dbb0e 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -543,6 +543,7 @@ namespace cli
         // - the recursive completions of parent menu
         std::vector<std::string> GetCompletions(const std::string& currentLine) const
         {
+            if (!IsEnabled()) return {};
             auto result = cli::GetCompletions(cmds, currentLine);
             if (parent != nullptr)
             {
@@ -569,6 +570,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionRecursive(const std::string& line) const override
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
@@ -593,6 +595,7 @@ namespace cli
          */
         std::vector<std::string> GetCompletionWithParent(const std::string& line) const
         {
+            if (!IsEnabled()) return {};
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
-- 
2.43.0


From 327a404b7ea33ab5a4962b04bef315df899a437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 09/27] fix: a command can be removed by its own handler

---
 include/cli/cli.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index b3dbb0e..3899654 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -510,7 +510,8 @@ namespace cli
         {
             if (!IsEnabled())
                 return false;
-            for (auto& cmd: *cmds)
+            const Cmds entries = *cmds; // the handlers can add and remove commands
+            for (auto& cmd: entries)
                 if (cmd->Exec(cmdLine, session))
                     return true;
             assert(!cmdLine.empty());
@@ -672,7 +673,8 @@ namespace cli
                 {
                     // check also for subcommands
                     std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
-                    for (auto& cmd: *cmds)
+                    const Cmds entries = *cmds; // the handlers can add and remove commands
+                    for (auto& cmd: entries)
                         if (cmd->Exec( subCmdLine, session )) return true;
                     return (parent && parent->ExecParent(subCmdLine, session));
                 }
-- 
2.43.0


From 89c9f454a85eafd98fe655fc49d99dac87cbba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 10/27] fix: unregistering a stream from the global output
 removes one registration only

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 3899654..1fcd397 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -100,7 +100,10 @@ namespace cli
         }
         void UnRegister(std::ostream& o)
         {
-            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());
+            // more than one session can use the same stream
+            auto i = std::find(ostreams.begin(), ostreams.end(), &o);
+            if (i != ostreams.end())
+                ostreams.erase(i);
         }
 
     private:
-- 
2.43.0


From ccf288c8b144ecfb0e7d28d2f71fa568f3b853d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 11/27] fix: a session ends only once and without requiring an
 exit action

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 1fcd397..3e9306d 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -340,7 +340,10 @@ namespace cli
 
         void Exit()
         {
-            exitAction(out);
+            if (exit) return; // already ended
+
+            if (exitAction)
+                exitAction(out);
             cli.ExitAction(out);
 
             auto cmds = history.GetCommands();
-- 
2.43.0


From fe4179d18be4d0931f9775f22cb3b54f6710ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 12/27] fix: a history entry referring to itself is an error
 instead of an endless recursion

---
 include/cli/cli.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 3e9306d..60ccc52 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -368,7 +368,19 @@ namespace cli
         {
             history.ForgetLatest();
             const auto cmd = history.At(index);
-            Feed(cmd);
+            if (std::find(fromHistory.begin(), fromHistory.end(), index) != fromHistory.end())
+                throw std::runtime_error("History entry referring to itself");
+            fromHistory.push_back(index);
+            try
+            {
+                Feed(cmd);
+            }
+            catch (...)
+            {
+                fromHistory.pop_back();
+                throw;
+            }
+            fromHistory.pop_back();
         }
 
         std::string PreviousCmd(const std::string& line)
@@ -393,6 +405,7 @@ namespace cli
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
         std::function< void(std::ostream&)> exitAction = []( std::ostream& ) noexcept {};
         detail::History history;
+        std::vector<unsigned> fromHistory; // ids of the history entries being executed
         bool exit{ false }; // to prevent the prompt after exit command
     };
 
-- 
2.43.0


From 9a837c10ad73d11b3931cf7008c75318b39c1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 13/27] fix: a telnet session ends without requiring an exit
 action of the server

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index f8f7760..220297c 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,7 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ _exitAction(_out), Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
     }
 protected:
 
-- 
2.43.0


From 97e7a00c2b4c3b50d01cb377ffd636648e726d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 14/27] fix: the enter action of a telnet server is called when
 a session starts

---
 include/cli/detail/genericasioremotecli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 220297c..26e851e 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -575,7 +575,9 @@ public:
     }
     std::shared_ptr<Session> CreateSession(asiolib::ip::tcp::socket _socket) override
     {
-        return std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        session->CliSession::EnterAction(enterAction);
+        return session;
     }
 private:
     Scheduler& scheduler;
-- 
2.43.0


From 3189827822f816ba3e333982f96f3a73cf042dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 15/27] fix: closing a connection already closed by the peer
 does not throw

---
 include/cli/detail/server.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8013057..263939f 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -54,8 +54,9 @@ protected:
 
     virtual void Disconnect()
     {
-        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both);
-        socket.close();
+        asiolibec::error_code ec; // the peer may have already closed the connection
+        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both, ec);
+        socket.close(ec);
     }
 
     virtual void Read()
-- 
2.43.0


From 6a6d5de0b6615c6d821c213faff5d91611084241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 16/27] fix: telnet negotiation answers are not subject to
 newline translation

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 26e851e..4e81f1d 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -405,7 +405,7 @@ private:
         std::string answer("\x0FF\x000\x000", 3);
         answer[1] = action;
         answer[2] = op;
-        this -> OutStream() << answer << std::flush;
+        Send(answer); // protocol bytes: no encoding of newlines
     }
 protected:
     virtual void Output(char c)
-- 
2.43.0


From b45d511c093f8ae64d546f7de0663b2222f3c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 17/27] fix: unrecognized escape sequences are ignored as a
 whole by the telnet session

---
 include/cli/detail/genericasioremotecli.h | 33 ++++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 4e81f1d..39a7510 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -517,16 +517,23 @@ protected:
                     case 67: step = Step::_1; Notify(std::make_pair(KeyType::right,' ')); break;
                     case 70: step = Step::_1; Notify(std::make_pair(KeyType::end,' ')); break;
                     case 72: step = Step::_1; Notify(std::make_pair(KeyType::home,' ')); break;
-                    default: step = Step::_4; break;  // not arrow keys
+                    case 51: step = Step::_4; break;
+                    default: Unknown(c); break;  // not arrow keys
                 }
                 break;
 
-            case Step::_4:
-                if ( c == 126 ) Notify(std::make_pair(KeyType::canc,' '));
-                else Notify(std::make_pair(KeyType::ignored,' '));
-
-                step = Step::_1;
+            case Step::_4: // got 27, 91 and 51
+                if ( c == 126 )
+                {
+                    step = Step::_1;
+                    Notify(std::make_pair(KeyType::canc,' '));
+                }
+                else
+                    Unknown(c);
+                break;
 
+            case Step::_5: // in the middle of an unknown sequence
+                Unknown(c);
                 break;
 
             case Step::wait_0:
@@ -542,7 +549,19 @@ protected:
 
 private:
 
-    enum class Step { _1, _2, _3, _4, wait_0 };
+    // skip an unknown sequence up to its final char
+    void Unknown(char c)
+    {
+        if ( c >= 32 && c <= 63 ) // parameters of the sequence
+            step = Step::_5;
+        else
+        {
+            step = Step::_1;
+            Notify(std::make_pair(KeyType::ignored,' '));
+        }
+    }
+
+    enum class Step { _1, _2, _3, _4, _5, wait_0 };
     Step step = Step::_1;
     CommandProcessor<TelnetScreen> poll;
 };
-- 
2.43.0


From dfcff14ceb6d42dc3f78b62673b4e37337b01d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 18/27] fix: unrecognized escape sequences are ignored as a
 whole by the local keyboard

---
 include/cli/detail/linuxkeyboard.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b40e1..081af91 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -193,7 +193,6 @@ public:
                         case 51:
                             ch = GetChar();
                             if ( ch == 126 ) return std::make_pair(KeyType::canc,' ');
-                            else return std::make_pair(KeyType::ignored,' ');
                             break;
                         case 65: return std::make_pair(KeyType::up,' ');
                         case 66: return std::make_pair(KeyType::down,' ');
@@ -201,8 +200,10 @@ public:
                         case 67: return std::make_pair(KeyType::right,' ');
                         case 70: return std::make_pair(KeyType::end,' ');
                         case 72: return std::make_pair(KeyType::home,' ');
-                        default: return std::make_pair(KeyType::ignored,' ');
+                        default: break;
                     }
+                    // skip an unknown sequence up to its final char
+                    while ( ch >= 32 && ch <= 63 ) ch = GetChar();
                 }
                 break;
             default: // ascii
-- 
2.43.0


From 479290ad7a0f441ad6e43b70c558ea2ffd9a88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 19/27] fix: end of the standard input is reported as end of
 input by the local keyboard

---
 include/cli/detail/linuxkeyboard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 081af91..986db06 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -162,8 +162,8 @@ public:
     char GetChar()
     {
         char buffer = 0;
-        auto unused = read(0, &buffer, 1);
-        static_cast<void>(unused); // silence unused warn
+        if (read(0, &buffer, 1) != 1)
+            return static_cast<char>(EOF);
         return buffer;
     }
 
-- 
2.43.0


From 46502ef353a131dd2fa79ae7506a4abf0bf90274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 20/27] fix: the local keyboard is not stopped by a signal

---
 include/cli/detail/linuxkeyboard.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 986db06..e171a99 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -34,6 +34,7 @@
 #include <memory>
 #include <stdexcept>
 
+#include <cerrno>
 #include <cstdio>
 #include <termios.h>
 #include <unistd.h>
@@ -65,11 +66,15 @@ public:
     void WaitKbHit()
     {
         fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(STDIN_FILENO, &rfds);
-        FD_SET(readPipe, &rfds);
-
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) == 0);
+        int ready = 0;
+        do
+        {
+            FD_ZERO(&rfds);
+            FD_SET(STDIN_FILENO, &rfds);
+            FD_SET(readPipe, &rfds);
+            ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
+        }
+        while (ready == 0 || (ready == -1 && errno == EINTR));
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
@@ -162,7 +167,11 @@ public:
     char GetChar()
     {
         char buffer = 0;
-        if (read(0, &buffer, 1) != 1)
+        ssize_t count = 0;
+        do
+            count = read(0, &buffer, 1);
+        while (count == -1 && errno == EINTR);
+        if (count != 1)
             return static_cast<char>(EOF);
         return buffer;
     }
-- 
2.43.0


From baeab9a65d505e23c7e499e06acb0aef997969e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 21/27] fix: a file session ends also when its exit action has
 been replaced

---
 include/cli/cli.h            |  7 +++++--
 include/cli/clifilesession.h | 10 +---------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 60ccc52..86cc209 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -341,6 +341,7 @@ namespace cli
         void Exit()
         {
             if (exit) return; // already ended
+            exit = true; // prevent the prompt to be shown
 
             if (exitAction)
                 exitAction(out);
@@ -348,8 +349,6 @@ namespace cli
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
-
-            exit = true; // prevent the prompt to be shown
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
@@ -395,6 +394,10 @@ namespace cli
 
         std::vector<std::string> GetCompletions(std::string currentLine) const;
 
+    protected:
+
+        bool Exited() const noexcept { return exit; }
+
     private:
 
         Cli& cli;
diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 68177e5..2590cb2 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -44,23 +44,16 @@ public:
     /// @throw std::invalid_argument if @c _in or @c out are invalid streams
     explicit CliFileSession(Cli& _cli, std::istream& _in=std::cin, std::ostream& _out=std::cout) :
         CliSession(_cli, _out, 1),
-        exit(false),
         in(_in)
     {
         if (!_in.good()) throw std::invalid_argument("istream invalid");
         if (!_out.good()) throw std::invalid_argument("ostream invalid");
-        ExitAction(
-            [this](std::ostream&) noexcept
-            {
-                exit = true;
-            }
-        );
     }
     void Start()
     {
         Enter();
 
-        while(!exit)
+        while(!Exited())
         {
             Prompt();
             std::string line;
@@ -75,7 +68,6 @@ public:
     }
 
 private:
-    bool exit;
     std::istream& in;
 };
 
-- 
2.43.0


From 0388468edf2367765d60122bada99fa4f17808e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 22/27] fix: an async session runs the enter actions, and the
 exit actions at the end of its input

---
 include/cli/detail/genericcliasyncsession.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2712276..c136f1f 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -47,6 +47,7 @@ public:
         CliSession(_cli, std::cout, 1),
         input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
     {
+        Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
@@ -81,11 +82,12 @@ private:
             inputBuffer.consume( length );
 
             Feed( s );
-            Read();
+            if (!Exited()) Read();
         }
         else
         {
             input.close();
+            Exit();
         }
     }
 
-- 
2.43.0


From cd47d6df8a42cd5d51106078a6c0efba2e95282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 23/27] fix: failing to close the input does not keep an async
 session from running its exit actions

---
 include/cli/detail/genericcliasyncsession.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index c136f1f..c9b4205 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -86,7 +86,8 @@ private:
         }
         else
         {
-            input.close();
+            asiolibec::error_code ec; // a failure to close must not prevent the exit actions
+            input.close(ec);
             Exit();
         }
     }
-- 
2.43.0


From b50874438f0439770670883f11ace5729409ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 24/27] fix: the local keyboard does not take a key while input
 is suspended

---
 include/cli/detail/linuxkeyboard.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index e171a99..737f659 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -154,6 +154,12 @@ public:
                     std::unique_lock<std::mutex> lock(mtx);
                     cv.wait(lock, [this]{ return enabled; }); // release mtx, suspend thread execution until enabled becomes true
                 }
+                is.WaitKbHit();
+                {
+                    // input can have been deactivated while waiting: the char is not for us
+                    std::lock_guard<std::mutex> lock(mtx);
+                    if (!enabled) continue;
+                }
                 auto k = Get();
                 Notify(k);
             }
@@ -178,8 +184,6 @@ public:
 
     std::pair<KeyType,char> Get()
     {
-        is.WaitKbHit();
-
         auto ch = GetChar();
         switch(ch)
         {
-- 
2.43.0


From 42fbfeeb8805eb901dd8b068a45e2af6d3b2b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 25/27] fix: destroying the local keyboard while input is
 suspended ends its thread

---
 include/cli/detail/linuxkeyboard.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 737f659..52f012d 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -112,6 +112,7 @@ public:
     explicit LinuxKeyboard(Scheduler& _scheduler) :
         InputDevice(_scheduler),
         enabled(false),
+        stopping(false),
         servant( [this]() noexcept { Read(); } )
     {
         ActivateInputImpl();
@@ -120,6 +121,12 @@ public:
     {
         ToStandardMode();
         is.Stop();
+        {
+            // the servant can be waiting for the input to be activated
+            std::lock_guard<std::mutex> lock(mtx);
+            stopping = true;
+            cv.notify_one();
+        }
         servant.join();
     }
     void ActivateInput() override
@@ -152,7 +159,7 @@ public:
             {
                 {
                     std::unique_lock<std::mutex> lock(mtx);
-                    cv.wait(lock, [this]{ return enabled; }); // release mtx, suspend thread execution until enabled becomes true
+                    cv.wait(lock, [this]{ return enabled || stopping; }); // release mtx, suspend thread execution until enabled (or stopping) becomes true
                 }
                 is.WaitKbHit();
                 {
@@ -245,6 +252,7 @@ public:
     }
 
     bool enabled;
+    bool stopping;
     termios oldt;
     termios newt;
     InputSource is;
-- 
2.43.0


From 48769bfb94d15ef5e13ef1f0d2fe945b1ca0f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 26/27] fix: a telnet server destroyed while its io context
 runs is not used any more

---
 include/cli/detail/server.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 263939f..f334cde 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -141,12 +141,15 @@ public:
 private:
     void Accept()
     {
-        acceptor.async_accept([this](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
+        std::weak_ptr<void> alive{ token };
+        acceptor.async_accept([this, alive](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
+                if (alive.expired()) return; // the server has been destroyed in the meantime
                 if (!ec) CreateSession(std::move(socket))->Start();
                 Accept();
             });
     }
+    std::shared_ptr<void> token{ std::make_shared<char>() };
     asiolib::ip::tcp::acceptor acceptor;
 };
 
-- 
2.43.0


From 246742915785b8a4c8a61f57c47cb84918893436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 27/27] fix: a telnet server goes on accepting when an enter
 action throws

---
 include/cli/detail/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index f334cde..e895005 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -145,8 +145,8 @@ private:
         acceptor.async_accept([this, alive](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
                 if (alive.expired()) return; // the server has been destroyed in the meantime
+                Accept(); // go on accepting, whatever the session does
                 if (!ec) CreateSession(std::move(socket))->Start();
-                Accept();
             });
     }
     std::shared_ptr<void> token{ std::make_shared<char>() };
-- 
2.43.0

