From 5e517ed99c4a2610e4d13569be8593cf7e9cad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 01/32] fix: '!' on an empty history must report an error
 instead of crashing

IdToIndex computed idOfOldest+size-1, which wraps around when the history is
empty, so that every id was accepted ('!0' as very first command).
---
 include/cli/detail/history.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index e8eb401..6479720 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -172,7 +172,7 @@ private:
 
     std::size_t IdToIndex(std::size_t id) const
     {
-        if (id < idOfOldest || id > idOfOldest+buffer.size()-1)
+        if (id < idOfOldest || id - idOfOldest >= buffer.size())
             throw std::out_of_range("Index not found in history");
         return idOfOldest + buffer.size() - 1 - id;
     }
-- 
2.43.0


From e02984ee8a0fdf3eb745542117b3c21fb65e7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 02/32] fix: repeated and '!' commands must not store old
 history entries again

The count of commands issued by the session included those not inserted in the
buffer (consecutive repetitions, '!' lines), so that GetCommands() returned also
entries loaded from the storage, which were appended to it again on exit.
---
 include/cli/detail/history.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 6479720..2489e0a 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -54,7 +54,6 @@ public:
     // Otherwise, the item is added to the front of the container
     void NewCommand(const std::string& item)
     {
-        ++commands;
         current = 0;
         if (mode == Mode::browsing)
         {
@@ -62,12 +61,18 @@ public:
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
                 buffer.pop_front();
             else // the item was not identical
+            {
                 buffer[current] = item;
+                ++commands;
+            }
         }
         else // Mode::inserting
         {
             if (buffer.empty() || buffer[0] != item) // insert an element not equal to last one
+            {
                 Insert(item);
+                ++commands;
+            }
         }
         mode = Mode::inserting;
     }
@@ -157,6 +162,8 @@ public:
     {
         assert(!buffer.empty());
         buffer.pop_front();
+        if (commands > 0)
+            --commands;
     }
 
 private:
@@ -190,7 +197,7 @@ private:
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
     std::size_t current = 0;
-    std::size_t commands = 0; // number of commands issued
+    std::size_t commands = 0; // number of commands issued and inserted in the buffer
     enum class Mode { inserting, browsing };
     Mode mode = Mode::inserting;
     std::size_t idOfOldest = 0; // the id of the oldest element kept in the history
-- 
2.43.0


From 36976c5488acaf7f9054ce42b87a0c43ed1fc0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 03/32] fix: a history of size 0 must not crash on arrow up or
 '!'

---
 include/cli/detail/history.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 2489e0a..ab91192 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -86,6 +86,8 @@ public:
     {
         if (mode == Mode::inserting)
         {
+            if (maxSize == 0) // there is no history to browse
+                return line;
             Insert(line);
             mode = Mode::browsing;
             current = (buffer.size() > 1) ? 1 : 0;
@@ -160,7 +162,8 @@ public:
 
     void ForgetLatest()
     {
-        assert(!buffer.empty());
+        if (buffer.empty()) // history of size 0
+            return;
         buffer.pop_front();
         if (commands > 0)
             --commands;
-- 
2.43.0


From 2ab734e8ecc0ceec4730cedfb5ccf92215b9d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 04/32] fix: entering a blank line while browsing must not
 damage the history

A blank line left the history in browsing state, so that the next arrow up
overwrote the entry browsed last with the (new) edit line.
---
 include/cli/cli.h            |  6 +++++-
 include/cli/detail/history.h | 12 ++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 437e838..f0d5604 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -913,7 +913,11 @@ namespace cli
     {
         std::vector<std::string> strs;
         detail::split(strs, cmd);
-        if (strs.empty()) return; // just hit enter
+        if (strs.empty()) // just hit enter
+        {
+            history.StopBrowsing();
+            return;
+        }
 
         history.NewCommand(cmd); // add anyway to history
 
diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index ab91192..ab26deb 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -104,6 +104,18 @@ public:
         return buffer[current];
     }
 
+    // Leave the "browsing" state (if needed) without inserting any command
+    void StopBrowsing()
+    {
+        if (mode == Mode::browsing)
+        {
+            assert(!buffer.empty());
+            buffer.pop_front(); // discard the edit line
+            current = 0;
+            mode = Mode::inserting;
+        }
+    }
+
     // Return the next item of the history, updating the current item.
     std::string Next()
     {
-- 
2.43.0


From f0c03293878064f6832c592931d2ffc945b3059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 05/32] fix: '!' entries referring to themselves must not
 recurse forever

A history entry such as '! 0' with id 0 (loaded from a history file, or edited
with the arrow keys) overflowed the stack when executed.
---
 include/cli/cli.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index f0d5604..8999b48 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -34,6 +34,7 @@
 #include <vector>
 #include <memory>
 #include <functional>
+#include <stdexcept>
 #include <algorithm>
 #include <cctype> // std::isspace
 #include <type_traits>
@@ -362,7 +363,19 @@ namespace cli
         {
             history.ForgetLatest();
             const auto cmd = history.At(index);
-            Feed(cmd);
+            if (std::find(historyRefs.begin(), historyRefs.end(), index) != historyRefs.end())
+                throw std::runtime_error("Recursive reference in history");
+            historyRefs.push_back(index);
+            try
+            {
+                Feed(cmd);
+            }
+            catch (...) // e.g., from a custom exception handler
+            {
+                historyRefs.pop_back();
+                throw;
+            }
+            historyRefs.pop_back();
         }
 
         std::string PreviousCmd(const std::string& line)
@@ -387,6 +400,7 @@ namespace cli
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
         std::function< void(std::ostream&)> exitAction = []( std::ostream& ) noexcept {};
         detail::History history;
+        std::vector<unsigned> historyRefs; // history entries being executed by the command "!"
         bool exit{ false }; // to prevent the prompt after exit command
     };
 
-- 
2.43.0


From 5cb90a2aa804903b80ab88cb0927578e4b4cafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 06/32] fix: avoid signed overflow when converting negative
 arguments

The conversion negated the minimum value of the type (undefined behaviour) for
every negative int, long or long long argument.
---
 include/cli/detail/fromstring.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/fromstring.h b/include/cli/detail/fromstring.h
index 606b3e2..6af7654 100644
--- a/include/cli/detail/fromstring.h
+++ b/include/cli/detail/fromstring.h
@@ -131,10 +131,10 @@ inline T signed_from_string(std::string s)
     {
         s = s.substr(1);
         const U val = unsigned_digits_from_string<U>(s);
-        auto min = std::numeric_limits<T>::min(); // this to avoid overflow warnings. Please NOTE: const auto produces warning!
-        if ( val > static_cast<U>( - min ) )
+        // NB: the absolute value of min is not representable in T
+        if ( val > static_cast<U>( std::numeric_limits<T>::min() ) )
             throw bad_conversion();
-        return (- static_cast<T>(val));
+        return static_cast<T>( static_cast<U>(0) - val );
     }
     else if (s[0] == '+')
     {
-- 
2.43.0


From f875495e899b5e6b5f4b98601f1f68b9a204fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 07/32] fix: std::bad_cast thrown by a command handler must
 reach the exception handler

It was taken for a failed conversion of the parameters, so that the command was
reported as wrong (or another overload was executed).
---
 include/cli/cli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 8999b48..1d174ec 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -795,13 +795,15 @@ namespace cli
             if (cmdLine.size() != paramSize+1) return false;
             if (Name() == cmdLine[0])
             {
+                bool converted = false; // true when all the parameters have been converted
                 try
                 {
-                    auto g = [&](auto ... pars){ func( session.OutStream(), pars... ); };
+                    auto g = [&](auto ... pars){ converted = true; func( session.OutStream(), pars... ); };
                     Select<Args...>::Exec(g, std::next(cmdLine.begin()), cmdLine.end());
                 }
                 catch (std::bad_cast&)
                 {
+                    if (converted) throw; // thrown by the handler
                     return false;
                 }
                 return true;
-- 
2.43.0


From d32433cf7558f51eca98482752a9ca3a84cd8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 08/32] fix: do not offer completions inside disabled menus

---
 include/cli/cli.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 1d174ec..509615f 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -557,6 +557,8 @@ namespace cli
         // - the recursive completions of parent menu
         std::vector<std::string> GetCompletions(const std::string& currentLine) const
         {
+            if (!IsEnabled()) return {};
+
             auto result = cli::GetCompletions(cmds, currentLine);
             if (parent != nullptr)
             {
@@ -583,6 +585,8 @@ namespace cli
          */
         std::vector<std::string> GetCompletionRecursive(const std::string& line) const override
         {
+            if (!IsEnabled()) return {};
+
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
@@ -607,6 +611,8 @@ namespace cli
          */
         std::vector<std::string> GetCompletionWithParent(const std::string& line) const
         {
+            if (!IsEnabled()) return {};
+
             if (line.rfind(Name(), 0) == 0) // line starts_with Name()
             {
                 return GetCompletionRecursiveHelper(line, Name());
-- 
2.43.0


From 39dd63f6ed9df667dfbb02dde1aa1d609530e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 09/32] fix: a command removed by its own handler must live
 until the handler returns

---
 include/cli/cli.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 509615f..59a7c06 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -524,7 +524,7 @@ namespace cli
         {
             if (!IsEnabled())
                 return false;
-            for (auto& cmd: *cmds)
+            for (auto cmd: *cmds) // by value: a command can remove itself while running
                 if (cmd->Exec(cmdLine, session))
                     return true;
             assert(!cmdLine.empty());
@@ -689,7 +689,7 @@ namespace cli
                 {
                     // check also for subcommands
                     std::vector<std::string > subCmdLine(cmdLine.begin()+1, cmdLine.end());
-                    for (auto& cmd: *cmds)
+                    for (auto cmd: *cmds) // by value: a command can remove itself while running
                         if (cmd->Exec( subCmdLine, session )) return true;
                     return (parent && parent->ExecParent(subCmdLine, session));
                 }
-- 
2.43.0


From 05a0214b1bd76cf1c8bc31790c78200b70aad2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 10/32] fix: a session whose current menu is removed must go on
 in the root menu

---
 include/cli/cli.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 59a7c06..713886c 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -322,7 +322,7 @@ namespace cli
 
         void Prompt();
 
-        void Current(Menu* menu) { current = menu; }
+        void Current(Menu* menu);
 
         std::ostream& OutStream() { return out; }
 
@@ -392,9 +392,13 @@ namespace cli
 
     private:
 
+        // the current menu, or the root menu if the current menu has been removed
+        Menu* CurrentMenu() const { return currentAlive.expired() ? cli.RootMenu() : current; }
+
         Cli& cli;
         std::shared_ptr<cli::OutStream> coutPtr;
         Menu* current;
+        std::weak_ptr<void> currentAlive; // expired when the current menu has been destroyed
         std::unique_ptr<Menu> globalScopeMenu;
         std::ostream& out;
         std::function< void(std::ostream&)> enterAction = []( std::ostream& ) noexcept {};
@@ -536,6 +540,9 @@ namespace cli
             return prompt;
         }
 
+        // returns a pointer that expires when this menu is destroyed
+        std::weak_ptr<void> Lifetime() const { return cmds; }
+
         void MainHelp(std::ostream& out)
         {
             if (!IsEnabled()) return;
@@ -902,6 +909,7 @@ namespace cli
             cli(_cli),
             coutPtr(Cli::CoutPtr()),
             current(cli.RootMenu()),
+            currentAlive(current->Lifetime()),
             globalScopeMenu(std::make_unique< Menu >()),
             out(_out),
             history(historySize)
@@ -931,6 +939,12 @@ namespace cli
             );
         }
 
+    inline void CliSession::Current(Menu* menu)
+    {
+        current = menu;
+        currentAlive = menu->Lifetime();
+    }
+
     inline void CliSession::Feed(const std::string& cmd)
     {
         std::vector<std::string> strs;
@@ -949,7 +963,7 @@ namespace cli
             bool found = globalScopeMenu->ScanCmds(strs, *this);
 
             // root menu recursive cmds check
-            if (!found) found = current->ScanCmds(strs, *this);
+            if (!found) found = CurrentMenu()->ScanCmds(strs, *this);
 
             if (!found) // wrong command handler if not found
                 cli.WrongCommandHandler(out, cmd);
@@ -970,7 +984,7 @@ namespace cli
     {
         if (exit) return;
         out << beforePrompt
-            << current->Prompt()
+            << CurrentMenu()->Prompt()
             << afterPrompt
             << "> "
             << std::flush;
@@ -980,7 +994,7 @@ namespace cli
     {
         out << "Commands available:\n";
         globalScopeMenu->MainHelp(out);
-        current -> MainHelp( out );
+        CurrentMenu() -> MainHelp( out );
     }
 
     inline std::vector<std::string> CliSession::GetCompletions(std::string currentLine) const
@@ -988,7 +1002,7 @@ namespace cli
         // trim_left(currentLine);
         currentLine.erase(currentLine.begin(), std::find_if(currentLine.begin(), currentLine.end(), [](int ch) { return !std::isspace(ch); }));
         auto v1 = globalScopeMenu->GetCompletions(currentLine);
-        auto v3 = current->GetCompletions(currentLine);
+        auto v3 = CurrentMenu()->GetCompletions(currentLine);
         v1.insert(v1.end(), std::make_move_iterator(v3.begin()), std::make_move_iterator(v3.end()));
 
         // removes duplicates (std::unique requires a sorted container)
-- 
2.43.0


From e1e25faef2daf98e71743cf5fdeb3d00f0f543d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 11/32] fix: a session must exit only once, and a file session
 also with its own exit action

---
 include/cli/cli.h            | 11 +++++++++--
 include/cli/clifilesession.h | 10 +---------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 713886c..cc8247d 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -338,13 +338,15 @@ namespace cli
 
         void Exit()
         {
+            if (exit) return; // already exited
+
+            exit = true; // prevent the prompt to be shown
+
             exitAction(out);
             cli.ExitAction(out);
 
             auto cmds = history.GetCommands();
             cli.StoreCommands(cmds);
-
-            exit = true; // prevent the prompt to be shown
         }
 
         void EnterAction(const std::function<void(std::ostream&)>& action)
@@ -390,6 +392,11 @@ namespace cli
 
         std::vector<std::string> GetCompletions(std::string currentLine) const;
 
+    protected:
+
+        // true when the session has exited
+        bool Exited() const { return exit; }
+
     private:
 
         // the current menu, or the root menu if the current menu has been removed
diff --git a/include/cli/clifilesession.h b/include/cli/clifilesession.h
index 68177e5..2590cb2 100644
--- a/include/cli/clifilesession.h
+++ b/include/cli/clifilesession.h
@@ -44,23 +44,16 @@ public:
     /// @throw std::invalid_argument if @c _in or @c out are invalid streams
     explicit CliFileSession(Cli& _cli, std::istream& _in=std::cin, std::ostream& _out=std::cout) :
         CliSession(_cli, _out, 1),
-        exit(false),
         in(_in)
     {
         if (!_in.good()) throw std::invalid_argument("istream invalid");
         if (!_out.good()) throw std::invalid_argument("ostream invalid");
-        ExitAction(
-            [this](std::ostream&) noexcept
-            {
-                exit = true;
-            }
-        );
     }
     void Start()
     {
         Enter();
 
-        while(!exit)
+        while(!Exited())
         {
             Prompt();
             std::string line;
@@ -75,7 +68,6 @@ public:
     }
 
 private:
-    bool exit;
     std::istream& in;
 };
 
-- 
2.43.0


From d36ca73cf481252af91b69a436cbbfa880f0a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 12/32] fix: exiting a telnet session without a server exit
 action must not throw

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index f8f7760..220297c 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,7 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ _exitAction(_out), Disconnect(); } );
+        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
     }
 protected:
 
-- 
2.43.0


From e740f5e644c7bf769cc37df4333f4dea233330b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 13/32] fix: disconnecting a client already gone must not throw

---
 include/cli/detail/server.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 8013057..5e5ee20 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -54,8 +54,9 @@ protected:
 
     virtual void Disconnect()
     {
-        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both);
-        socket.close();
+        asiolibec::error_code ec; // the client can be already gone
+        socket.shutdown(asiolib::ip::tcp::socket::shutdown_both, ec);
+        socket.close(ec);
     }
 
     virtual void Read()
-- 
2.43.0


From e66190bbc5820bad919849eaa4aba500b6e2b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 14/32] fix: the enter action of a telnet server was never
 called

---
 include/cli/detail/genericasioremotecli.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 220297c..26e851e 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -575,7 +575,9 @@ public:
     }
     std::shared_ptr<Session> CreateSession(asiolib::ip::tcp::socket _socket) override
     {
-        return std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        auto session = std::make_shared<CliTelnetSession>(scheduler, std::move(_socket), cli, exitAction, historySize);
+        session->CliSession::EnterAction(enterAction);
+        return session;
     }
 private:
     Scheduler& scheduler;
-- 
2.43.0


From 8526ea39dbeb1a35287705bc5343b28c823006a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 15/32] fix: a telnet client must receive the output of the
 global exit action

---
 include/cli/detail/genericasioremotecli.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 26e851e..3e91ed5 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -457,7 +457,13 @@ public:
         CliSession(_cli, TelnetSession::OutStream(), historySize),
         poll(*this, *this)
     {
-        ExitAction([this, _exitAction](std::ostream& _out){ if (_exitAction) _exitAction(_out); Disconnect(); } );
+        ExitAction([this, &_scheduler, _exitAction](std::ostream& _out)
+            {
+                if (_exitAction) _exitAction(_out);
+                // disconnect later, so that the output of the global exit action can reach the client
+                _scheduler.Post([this, self = shared_from_this()](){ Disconnect(); });
+            }
+        );
     }
 protected:
 
-- 
2.43.0


From 1b6021831959d1fa8dfd67a4674bb47bbfcc1c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 16/32] fix: the refusal of the telnet option 10 must not be
 encoded as a line feed

---
 include/cli/detail/genericasioremotecli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/genericasioremotecli.h b/include/cli/detail/genericasioremotecli.h
index 3e91ed5..c3f1229 100644
--- a/include/cli/detail/genericasioremotecli.h
+++ b/include/cli/detail/genericasioremotecli.h
@@ -405,7 +405,7 @@ private:
         std::string answer("\x0FF\x000\x000", 3);
         answer[1] = action;
         answer[2] = op;
-        this -> OutStream() << answer << std::flush;
+        Send(answer); // not through OutStream(), because the option code must not be encoded
     }
 protected:
     virtual void Output(char c)
-- 
2.43.0


From dd7a31e35d005065de04edd552b7d316dba7fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 17/32] fix: destroying a server must not harm a running
 context

---
 include/cli/detail/server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/server.h b/include/cli/detail/server.h
index 5e5ee20..b75c136 100644
--- a/include/cli/detail/server.h
+++ b/include/cli/detail/server.h
@@ -141,13 +141,15 @@ public:
 private:
     void Accept()
     {
-        acceptor.async_accept([this](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
+        acceptor.async_accept([this, guard = std::weak_ptr<void>(alive)](asiolibec::error_code ec, asiolib::ip::tcp::socket socket)
             {
+                if (guard.expired()) return; // the server has been destroyed
                 if (!ec) CreateSession(std::move(socket))->Start();
                 Accept();
             });
     }
     asiolib::ip::tcp::acceptor acceptor;
+    std::shared_ptr<void> alive = std::make_shared<char>();
 };
 
 
-- 
2.43.0


From 5b042ceae3f22ffa30cd86274aae2446746dca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 18/32] fix: an async session can be destroyed while it is
 waiting for input

---
 include/cli/detail/genericcliasyncsession.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2712276..8ed68fc 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -30,6 +30,7 @@
 #ifndef CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 #define CLI_DETAIL_GENERICCLIASYNCSESSION_H_
 
+#include <memory>
 #include <string>
 #include "../cli.h" // CliSession
 #include "genericasioscheduler.h"
@@ -62,11 +63,14 @@ private:
         // Read a line of input entered by the user.
         asiolib::async_read_until(
             input,
-            inputBuffer,
+            *inputBuffer,
             '\n',
-            std::bind( &GenericCliAsyncSession::NewLine, this,
-                       std::placeholders::_1,
-                       std::placeholders::_2 )
+            // the pending operation keeps the buffer alive, but not the session
+            [this, buffer = inputBuffer, guard = std::weak_ptr<void>(alive)](const asiolibec::error_code& error, std::size_t length)
+            {
+                if (guard.expired()) return; // the session has been destroyed
+                NewLine(error, length);
+            }
         );
     }
 
@@ -74,11 +78,11 @@ private:
     {
         if ( !error || error == asiolib::error::not_found )
         {
-            auto bufs = inputBuffer.data();
+            auto bufs = inputBuffer->data();
             auto size = static_cast<long>(length);
             if ( !error ) --size; // remove \n
             std::string s(asiolib::buffers_begin( bufs ), asiolib::buffers_begin( bufs ) + size);
-            inputBuffer.consume( length );
+            inputBuffer->consume( length );
 
             Feed( s );
             Read();
@@ -89,8 +93,9 @@ private:
         }
     }
 
-    asiolib::streambuf inputBuffer;
+    std::shared_ptr<asiolib::streambuf> inputBuffer = std::make_shared<asiolib::streambuf>();
     asiolib::posix::stream_descriptor input;
+    std::shared_ptr<void> alive = std::make_shared<char>();
 };
 
 } // namespace detail
-- 
2.43.0


From 16565a7ea34f9a258b389c97360ce7de7e999cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 19/32] fix: a signal must not stop the keyboard input

---
 include/cli/detail/linuxkeyboard.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b40e1..cbc6b10 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -65,11 +65,13 @@ public:
     void WaitKbHit()
     {
         fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(STDIN_FILENO, &rfds);
-        FD_SET(readPipe, &rfds);
-
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) == 0);
+        do
+        {
+            FD_ZERO(&rfds);
+            FD_SET(STDIN_FILENO, &rfds);
+            FD_SET(readPipe, &rfds);
+        }
+        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) <= 0); // e.g., interrupted by a signal
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-- 
2.43.0


From 22ead7b362a5693a18d88bd0e07f88bf1a2a57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 20/32] fix: the keyboard thread must not steal the input of a
 command or block the destructor

---
 include/cli/detail/linuxkeyboard.h | 43 +++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index cbc6b10..17b5d97 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -88,6 +88,16 @@ public:
         assert(false);
     }
 
+    // true if there is a char available from stdinput
+    bool KbHit() const
+    {
+        fd_set rfds;
+        FD_ZERO(&rfds);
+        FD_SET(STDIN_FILENO, &rfds);
+        timeval timeout{};
+        return select(STDIN_FILENO + 1, &rfds, nullptr, nullptr, &timeout) > 0;
+    }
+
     void Stop()
     {
         auto unused = write(shutdownPipe, " ", 1);
@@ -117,6 +127,12 @@ public:
     {
         ToStandardMode();
         is.Stop();
+        {
+            // wakes up the servant, if the input is not active
+            std::lock_guard<std::mutex> lock(mtx);
+            enabled = true;
+        }
+        cv.notify_one();
         servant.join();
     }
     void ActivateInput() override
@@ -147,10 +163,6 @@ public:
         {
             while (true)
             {
-                {
-                    std::unique_lock<std::mutex> lock(mtx);
-                    cv.wait(lock, [this]{ return enabled; }); // release mtx, suspend thread execution until enabled becomes true
-                }
                 auto k = Get();
                 Notify(k);
             }
@@ -163,16 +175,27 @@ public:
 
     char GetChar()
     {
-        char buffer = 0;
-        auto unused = read(0, &buffer, 1);
-        static_cast<void>(unused); // silence unused warn
-        return buffer;
+        while (true)
+        {
+            {
+                std::unique_lock<std::mutex> lock(mtx);
+                cv.wait(lock, [this]{ return enabled; }); // release mtx, suspend thread execution until enabled becomes true
+            }
+
+            is.WaitKbHit();
+
+            std::lock_guard<std::mutex> lock(mtx);
+            if (!enabled || !is.KbHit()) // the input was for a running command
+                continue;
+            char buffer = 0;
+            auto unused = read(0, &buffer, 1);
+            static_cast<void>(unused); // silence unused warn
+            return buffer;
+        }
     }
 
     std::pair<KeyType,char> Get()
     {
-        is.WaitKbHit();
-
         auto ch = GetChar();
         switch(ch)
         {
-- 
2.43.0


From ada04d5c68ee8bc389d8823254f4af84fe0706b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 21/32] fix: end of terminal input must be delivered once, not
 as endless NUL keys

---
 include/cli/detail/linuxkeyboard.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 17b5d97..8483e2a 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -34,6 +34,7 @@
 #include <memory>
 #include <stdexcept>
 
+#include <cerrno>
 #include <cstdio>
 #include <termios.h>
 #include <unistd.h>
@@ -62,6 +63,11 @@ public:
         }
     }
 
+    ~InputSource()
+    {
+        close(readPipe);
+    }
+
     void WaitKbHit()
     {
         fd_set rfds;
@@ -75,7 +81,6 @@ public:
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
-            close(readPipe);
             throw std::runtime_error("InputSource stop");
         }
 
@@ -164,7 +169,11 @@ public:
             while (true)
             {
                 auto k = Get();
+                if (endOfInput)
+                    k = std::make_pair(KeyType::eof,' ');
                 Notify(k);
+                if (endOfInput)
+                    return;
             }
         }
         catch(const std::exception&)
@@ -188,8 +197,11 @@ public:
             if (!enabled || !is.KbHit()) // the input was for a running command
                 continue;
             char buffer = 0;
-            auto unused = read(0, &buffer, 1);
-            static_cast<void>(unused); // silence unused warn
+            const auto n = read(STDIN_FILENO, &buffer, 1);
+            if (n < 0 && (errno == EINTR || errno == EAGAIN))
+                continue;
+            if (n != 1) // the input is closed or not usable any more
+                endOfInput = true;
             return buffer;
         }
     }
@@ -256,6 +268,7 @@ public:
     }
 
     bool enabled;
+    bool endOfInput = false; // used only by the servant thread
     termios oldt;
     termios newt;
     InputSource is;
-- 
2.43.0


From c6688b08aced7081f7f1dc1da5f7c290e5c4a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 22/32] fix: destroying a session must not mute another one
 using the same stream

---
 include/cli/cli.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index cc8247d..c1f4d50 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -101,7 +101,10 @@ namespace cli
         }
         void UnRegister(std::ostream& o)
         {
-            ostreams.erase(std::remove(ostreams.begin(), ostreams.end(), &o), ostreams.end());
+            // the same stream can be registered also by another session
+            auto i = std::find(ostreams.begin(), ostreams.end(), &o);
+            if (i != ostreams.end())
+                ostreams.erase(i);
         }
 
     private:
-- 
2.43.0


From 5ebe312fa26f6e8e65bda770f5514841fd9b9d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 23/32] fix: single characters on the global stream must not be
 altered by the format state of a session stream

---
 include/cli/cli.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index c1f4d50..5dbfbcb 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -91,7 +91,7 @@ namespace cli
         int overflow(int c) override
         {
             for (auto os: ostreams)
-                *os << static_cast<char>(c);
+                os->rdbuf()->sputc(static_cast<char>(c));
             return c;
         }            
 
-- 
2.43.0


From 64dc59076529801202e816b7b0e7b5a2daa1e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 24/32] fix: keys still pending when an input device is
 destroyed must be dropped

---
 include/cli/detail/inputdevice.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cli/detail/inputdevice.h b/include/cli/detail/inputdevice.h
index 62a369f..d4c70dd 100644
--- a/include/cli/detail/inputdevice.h
+++ b/include/cli/detail/inputdevice.h
@@ -31,6 +31,7 @@
 #define CLI_DETAIL_INPUTDEVICE_H_
 
 #include <functional>
+#include <memory>
 #include <string>
 #include "../scheduler.h"
 
@@ -58,13 +59,15 @@ protected:
 
     void Notify(std::pair<KeyType,char> k)
     {
-        scheduler.Post([this,k](){ if (handler) handler(k); });
+        // the device can be destroyed before the scheduler runs the task
+        scheduler.Post([this,k,guard = std::weak_ptr<void>(alive)](){ if (!guard.expired() && handler) handler(k); });
     }
 
 private:
 
     Scheduler& scheduler;
     Handler handler;
+    std::shared_ptr<void> alive = std::make_shared<char>();
 };
 
 } // namespace detail
-- 
2.43.0


From c73566bf92d82204471503ff04d8d2560fe6c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 25/32] fix: '!' and abandoned browsing must not remove other
 entries from the history

---
 include/cli/detail/history.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index ab26deb..4137911 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -55,15 +55,17 @@ public:
     void NewCommand(const std::string& item)
     {
         current = 0;
+        latestInserted = false;
         if (mode == Mode::browsing)
         {
             assert(!buffer.empty());
             if (buffer.size() > 1 && buffer[1] == item) // try to insert an element identical to last one
-                buffer.pop_front();
+                RemoveNewest();
             else // the item was not identical
             {
                 buffer[current] = item;
                 ++commands;
+                latestInserted = true;
             }
         }
         else // Mode::inserting
@@ -72,6 +74,7 @@ public:
             {
                 Insert(item);
                 ++commands;
+                latestInserted = true;
             }
         }
         mode = Mode::inserting;
@@ -110,7 +113,7 @@ public:
         if (mode == Mode::browsing)
         {
             assert(!buffer.empty());
-            buffer.pop_front(); // discard the edit line
+            RemoveNewest(); // discard the edit line
             current = 0;
             mode = Mode::inserting;
         }
@@ -172,13 +175,14 @@ public:
         return buffer[index];
     }
 
+    // Undo the latest NewCommand
     void ForgetLatest()
     {
-        if (buffer.empty()) // history of size 0
+        if (!latestInserted)
             return;
-        buffer.pop_front();
-        if (commands > 0)
-            --commands;
+        latestInserted = false;
+        RemoveNewest();
+        --commands;
     }
 
 private:
@@ -202,15 +206,31 @@ private:
     void Insert(const std::string& item)
     {
         buffer.emplace_front(item);
+        dropped.clear();
         if (buffer.size() > maxSize)
         {
+            dropped.push_back(buffer.back());
             buffer.pop_back();
             ++idOfOldest;
         }
     }
 
+    // Undo the latest Insert
+    void RemoveNewest()
+    {
+        if (!dropped.empty())
+        {
+            buffer.push_back(dropped.back());
+            dropped.clear();
+            --idOfOldest;
+        }
+        buffer.pop_front();
+    }
+
     const std::size_t maxSize;
     std::deque<std::string> buffer; // buffer[0] is the newest element
+    std::vector<std::string> dropped; // the element dropped by the latest insertion, if any
+    bool latestInserted = false; // the latest command has been inserted in the buffer
     std::size_t current = 0;
     std::size_t commands = 0; // number of commands issued and inserted in the buffer
     enum class Mode { inserting, browsing };
-- 
2.43.0


From e03c5157b035c0f27b56914566c3886589eb15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 26/32] fix: data race when several threads stop an asio
 scheduler

---
 include/cli/detail/genericasioscheduler.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cli/detail/genericasioscheduler.h b/include/cli/detail/genericasioscheduler.h
index 7fb2979..bc108f8 100644
--- a/include/cli/detail/genericasioscheduler.h
+++ b/include/cli/detail/genericasioscheduler.h
@@ -32,6 +32,7 @@
 
 #include "../scheduler.h"
 #include <memory> // unique_ptr
+#include <mutex>
 
 namespace cli
 {
@@ -71,7 +72,11 @@ public:
     void Stop()
     {
         if (work)
+        {
+            // the work guard is not thread safe
+            std::lock_guard<std::mutex> lck(mtx);
             ASIOLIB::Reset(*work);
+        }
         context->stop();
     }
 
@@ -104,6 +109,7 @@ private:
     ContextType* context;
     ExecutorType executor;
     std::unique_ptr<WorkGuard> work;
+    std::mutex mtx;
 };
 
 
-- 
2.43.0


From 8bb3f4ab1025d11f5162e42c18b9cf74cbc277dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 27/32] fix: colour sequences depended on the format state of
 the stream

---
 include/cli/detail/rang.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cli/detail/rang.h b/include/cli/detail/rang.h
index 79b5ae6..7d73dfc 100644
--- a/include/cli/detail/rang.h
+++ b/include/cli/detail/rang.h
@@ -28,6 +28,7 @@
 #include <ios>
 #include <iostream>
 #include <iterator>
+#include <string>
 #include <type_traits>
 
 namespace cli {
@@ -179,6 +180,14 @@ namespace rang_implementation {
         std::ostream &>::type;
 
 
+    // unformatted, because it must not depend on the format state of the stream
+    inline std::ostream& writeSequence(std::ostream &os, int value)
+    {
+        const std::string sequence = "\033[" + std::to_string(value) + "m";
+        return os.write(sequence.data(), static_cast<std::streamsize>(sequence.size()));
+    }
+
+
 #ifdef OS_WIN
     inline HANDLE getVersionDependentHandle()
     {
@@ -245,13 +254,13 @@ namespace rang_implementation {
             SetConsoleTextAttribute(h, current_state());
             return os;
         }
-        return os << "\033[" << static_cast<int>(value) << "m";
+        return writeSequence(os, static_cast<int>(value));
     }
 #else
     template <typename T>
     inline enableStd<T> setColor(std::ostream &os, T const value)
     {
-        return os << "\033[" << static_cast<int>(value) << "m";
+        return writeSequence(os, static_cast<int>(value));
     }
 #endif
 
-- 
2.43.0


From cd97a5cd0de0f320441aa943afdbd4115c4a00ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 28/32] fix: enter action not called by the asynchronous
 session

---
 include/cli/detail/genericcliasyncsession.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 8ed68fc..2a089a3 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -48,6 +48,7 @@ public:
         CliSession(_cli, std::cout, 1),
         input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
     {
+        Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
-- 
2.43.0


From 4c388cae7f70b1bf9e311716b0641e6729511807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 29/32] fix: asynchronous session destroyed in the middle of a
 long line

---
 include/cli/detail/genericcliasyncsession.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cli/detail/genericcliasyncsession.h b/include/cli/detail/genericcliasyncsession.h
index 2a089a3..3b2792d 100644
--- a/include/cli/detail/genericcliasyncsession.h
+++ b/include/cli/detail/genericcliasyncsession.h
@@ -46,14 +46,14 @@ class GenericCliAsyncSession : public CliSession
 public:
     GenericCliAsyncSession(GenericAsioScheduler<ASIOLIB>& _scheduler, Cli& _cli) :
         CliSession(_cli, std::cout, 1),
-        input(_scheduler.AsioContext(), ::dup(STDIN_FILENO))
+        input(std::make_shared<asiolib::posix::stream_descriptor>(_scheduler.AsioContext(), ::dup(STDIN_FILENO)))
     {
         Enter();
         Read();
     }
     ~GenericCliAsyncSession() noexcept override
     {
-        try { input.close(); } catch (const std::exception&) { /* do nothing */ }
+        try { input->close(); } catch (const std::exception&) { /* do nothing */ }
     }
 
 private:
@@ -63,11 +63,11 @@ private:
         Prompt();
         // Read a line of input entered by the user.
         asiolib::async_read_until(
-            input,
+            *input,
             *inputBuffer,
             '\n',
-            // the pending operation keeps the buffer alive, but not the session
-            [this, buffer = inputBuffer, guard = std::weak_ptr<void>(alive)](const asiolibec::error_code& error, std::size_t length)
+            // the pending operation keeps the descriptor and the buffer alive, but not the session
+            [this, source = input, buffer = inputBuffer, guard = std::weak_ptr<void>(alive)](const asiolibec::error_code& error, std::size_t length)
             {
                 if (guard.expired()) return; // the session has been destroyed
                 NewLine(error, length);
@@ -90,12 +90,12 @@ private:
         }
         else
         {
-            input.close();
+            input->close();
         }
     }
 
     std::shared_ptr<asiolib::streambuf> inputBuffer = std::make_shared<asiolib::streambuf>();
-    asiolib::posix::stream_descriptor input;
+    std::shared_ptr<asiolib::posix::stream_descriptor> input;
     std::shared_ptr<void> alive = std::make_shared<char>();
 };
 
-- 
2.43.0


From e8a453918c06c162945418eca8ba93d19d097123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 30/32] fix: history numbers depended on the format state of
 the stream

---
 include/cli/detail/history.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cli/detail/history.h b/include/cli/detail/history.h
index 4137911..94b3c79 100644
--- a/include/cli/detail/history.h
+++ b/include/cli/detail/history.h
@@ -138,7 +138,7 @@ public:
         for (std::size_t i = 0; i < size; ++i)
         {
             const auto j = size-1-i;
-            out << IndexToId(j) << '\t' << buffer[j] << '\n';
+            out << std::to_string(IndexToId(j)) << '\t' << buffer[j] << '\n';
         }
         out << '\n' << std::flush;
     }
-- 
2.43.0


From 129fb1fd0fa942d61033c66474881411eb7cb88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 31/32] fix: keyboard thread must not spin when the standard
 input is closed

---
 include/cli/detail/linuxkeyboard.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cli/detail/linuxkeyboard.h b/include/cli/detail/linuxkeyboard.h
index 8483e2a..8ef63d2 100644
--- a/include/cli/detail/linuxkeyboard.h
+++ b/include/cli/detail/linuxkeyboard.h
@@ -71,13 +71,18 @@ public:
     void WaitKbHit()
     {
         fd_set rfds;
+        int ready = 0;
         do
         {
             FD_ZERO(&rfds);
             FD_SET(STDIN_FILENO, &rfds);
             FD_SET(readPipe, &rfds);
+            ready = select(readPipe + 1, &rfds, nullptr, nullptr, nullptr);
         }
-        while (select(readPipe + 1, &rfds, nullptr, nullptr, nullptr) <= 0); // e.g., interrupted by a signal
+        while (ready == 0 || (ready < 0 && errno == EINTR)); // interrupted by a signal
+
+        if (ready < 0) // e.g., stdinput has been closed: reading from it will tell
+            return;
 
         if (FD_ISSET(readPipe, &rfds)) // stop called
         {
@@ -93,14 +98,14 @@ public:
         assert(false);
     }
 
-    // true if there is a char available from stdinput
+    // true if there is a char available from stdinput (or if reading from it fails)
     bool KbHit() const
     {
         fd_set rfds;
         FD_ZERO(&rfds);
         FD_SET(STDIN_FILENO, &rfds);
         timeval timeout{};
-        return select(STDIN_FILENO + 1, &rfds, nullptr, nullptr, &timeout) > 0;
+        return select(STDIN_FILENO + 1, &rfds, nullptr, nullptr, &timeout) != 0;
     }
 
     void Stop()
-- 
2.43.0


From fb0722ff8c994f97902be7fe7ba0692dabfe8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:29 +0000
Subject: [PATCH 32/32] fix: global output to a session whose stream has no
 buffer

---
 include/cli/cli.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cli/cli.h b/include/cli/cli.h
index 5dbfbcb..723fe92 100644
--- a/include/cli/cli.h
+++ b/include/cli/cli.h
@@ -85,13 +85,15 @@ namespace cli
         std::streamsize xsputn(const char* s, std::streamsize n) override
         {
             for (auto os: ostreams)
-                os->rdbuf()->sputn(s, n);
+                if (auto buf = os->rdbuf()) // a stream can have no buffer
+                    buf->sputn(s, n);
             return n;
         }
         int overflow(int c) override
         {
             for (auto os: ostreams)
-                os->rdbuf()->sputc(static_cast<char>(c));
+                if (auto buf = os->rdbuf())
+                    buf->sputc(static_cast<char>(c));
             return c;
         }            
 
-- 
2.43.0

