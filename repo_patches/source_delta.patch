From ec6f085517de7e14727fcc444e463b27ec98928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:21 +0000
Subject: [PATCH 01/56] fix: keep the first metadata field added to a log
 record

---
 src/hstd/ext/logger.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hstd/ext/logger.cpp b/src/hstd/ext/logger.cpp
index f3d2bf1..10b3df8 100644
--- a/src/hstd/ext/logger.cpp
+++ b/src/hstd/ext/logger.cpp
@@ -413,10 +413,9 @@ log_record& log_record::metadata(Str const& field, json const& value) {
     } else if (!data.metadata->is_object()) {
         throw std::domain_error(
             "Log record medata is already set, but it is not an object");
-    } else {
-        (*data.metadata)[field.toBase()] = value;
     }
 
+    (*data.metadata)[field.toBase()] = value;
     return *this;
 }
 
-- 
2.43.0


From 0dbbe107acbfdd44638a1d3f52c942987bb62da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:21 +0000
Subject: [PATCH 02/56] fix: do not mix up log records submitted from different
 threads

---
 src/hstd/ext/logger.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hstd/ext/logger.cpp b/src/hstd/ext/logger.cpp
index 10b3df8..c02907d 100644
--- a/src/hstd/ext/logger.cpp
+++ b/src/hstd/ext/logger.cpp
@@ -69,6 +69,10 @@ using namespace hstd::log;
 
 namespace {
 log_record_mutable_constant current_record{log_record{}};
+/// Guards the 'set current record, evaluate attributes' sequence. Recursive
+/// because sink filters are called when the record is opened, and they can
+/// log as well.
+std::recursive_mutex        current_record_mutex;
 }
 
 BOOST_LOG_GLOBAL_LOGGER_INIT(
@@ -535,9 +539,13 @@ record_type start_log_record(boost::log::trivial::severity_level level) {
 void hstd::log::log_record::end() {
     // current record is global, but synced, and all record attributes are
     // evaluated when record is opened.
-    current_record.set(*this);
-    ::boost::log::record rec_var = start_log_record(
-        static_cast<boost::log::trivial::severity_level>(data.severity));
+    ::boost::log::record rec_var;
+    {
+        std::lock_guard<std::recursive_mutex> lock(current_record_mutex);
+        current_record.set(*this);
+        rec_var = start_log_record(
+            static_cast<boost::log::trivial::severity_level>(data.severity));
+    }
     // if the record did not pass filtering, it will return empty, and
     // should not be submitted.
     if (!!rec_var) { logging::core::get()->push_record(std::move(rec_var)); }
-- 
2.43.0


From d53f043134317fb1711db0cc53db9a5bf6414582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:21 +0000
Subject: [PATCH 03/56] fix: track the log depth separately for each thread

---
 src/hstd/ext/logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/logger.hpp b/src/hstd/ext/logger.hpp
index 5ac0108..5354e4f 100644
--- a/src/hstd/ext/logger.hpp
+++ b/src/hstd/ext/logger.hpp
@@ -466,9 +466,9 @@ struct log_builder {
 };
 
 struct log_scoped_depth_attr {
-    int                           depth;
+    int                           depth = 0;
     static log_scoped_depth_attr& instance() {
-        static log_scoped_depth_attr st;
+        static thread_local log_scoped_depth_attr st;
         return st;
     }
 
-- 
2.43.0


From 0cd266747767695c3fbd94e848fc1f35a194a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:21 +0000
Subject: [PATCH 04/56] fix: keep sinks registered while other sinks are added
 or removed

---
 src/hstd/ext/logger.cpp | 43 +++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/hstd/ext/logger.cpp b/src/hstd/ext/logger.cpp
index c02907d..4e48970 100644
--- a/src/hstd/ext/logger.cpp
+++ b/src/hstd/ext/logger.cpp
@@ -31,8 +31,10 @@
 #    include <fstream>
 #    include <hstd/stdlib/JsonUse.hpp>
 #    include <hstd/stdlib/Opt.hpp>
+#    include <algorithm>
 #    include <mutex>
 #    include <stack>
+#    include <vector>
 
 
 using namespace hstd;
@@ -118,6 +120,7 @@ class log_sink_manager {
     void pop_sink() {
         std::lock_guard<std::mutex> lock(m_);
         if (!sinks_.empty()) {
+            std::stack<sink_ptr> old_sinks = sinks_;
             if (OLOG_INNER_DEBUG) {
                 OLOG_MSG() << hstd::fmt(
                     "Pop sink {:p}, current sink stack is {}",
@@ -125,7 +128,7 @@ class log_sink_manager {
                     sinks_.size());
             }
             sinks_.pop();
-            sync_sinks();
+            sync_sinks(old_sinks);
         }
     }
 
@@ -136,28 +139,40 @@ class log_sink_manager {
 
     void set_sinks(std::stack<sink_ptr> const& new_sinks) {
         std::lock_guard<std::mutex> lock(m_);
-        sinks_ = new_sinks;
-        sync_sinks();
+        std::stack<sink_ptr> old_sinks = sinks_;
+        sinks_                         = new_sinks;
+        sync_sinks(old_sinks);
     }
 
   private:
     log_sink_manager() = default;
 
-    void sync_sinks() {
+    static std::vector<sink_ptr> bottom_to_top(std::stack<sink_ptr> stack) {
+        std::vector<sink_ptr> result;
+        while (!stack.empty()) {
+            result.push_back(stack.top());
+            stack.pop();
+        }
+        std::reverse(result.begin(), result.end());
+        return result;
+    }
+
+    /// Register the current sinks in place of the old ones. Sinks that are
+    /// in both lists are not touched, so they don't miss records logged by
+    /// other threads.
+    void sync_sinks(std::stack<sink_ptr> const& old_sinks) {
         if (OLOG_INNER_DEBUG) { OLOG_MSG() << "Sync sinks"; }
-        boost::log::core::get()->remove_all_sinks();
-        std::stack<sink_ptr> temp = sinks_;
-        std::stack<sink_ptr> reversed;
+        auto core = boost::log::core::get();
+        auto prev = bottom_to_top(old_sinks);
+        auto next = bottom_to_top(sinks_);
 
-        while (!temp.empty()) {
-            reversed.push(temp.top());
-            temp.pop();
+        for (auto const& sink : prev) {
+            if (std::find(next.begin(), next.end(), sink) == next.end()) {
+                core->remove_sink(sink);
+            }
         }
 
-        while (!reversed.empty()) {
-            boost::log::core::get()->add_sink(reversed.top());
-            reversed.pop();
-        }
+        for (auto const& sink : next) { core->add_sink(sink); }
     }
 
     std::stack<sink_ptr> sinks_;
-- 
2.43.0


From 0caeac56eef62c2cddc0855b85af142fe3ff5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:21 +0000
Subject: [PATCH 05/56] fix: guard the shared state of log record filters

---
 src/hstd/ext/logger.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hstd/ext/logger.hpp b/src/hstd/ext/logger.hpp
index 5354e4f..8c89761 100644
--- a/src/hstd/ext/logger.hpp
+++ b/src/hstd/ext/logger.hpp
@@ -29,6 +29,7 @@
 #    include <hstd/stdlib/Str.hpp>
 #    include <hstd/system/macros.hpp>
 #    include <hstd/system/reflection.hpp>
+#    include <mutex>
 #    include <stack>
 
 #    include <boost/log/core.hpp>
@@ -523,10 +524,13 @@ log_builder::Finalizer log_builder_get_mutable_finalizer_filter(
     // type will create a new thread-local static instance of the
     // generator.
     static Generator mutable_state{std::forward<Generator>(gen)};
+    // The state is shared between all threads that log through the finalizer
+    static std::mutex mutable_state_mutex;
 
     // It should be possible to reset the finalizer state and create a new
     // one.
     if (reset) {
+        std::lock_guard<std::mutex> lock(mutable_state_mutex);
         mutable_state.~Generator();
         new (&mutable_state) Generator(std::forward<Generator>(gen));
     }
@@ -537,7 +541,12 @@ log_builder::Finalizer log_builder_get_mutable_finalizer_filter(
         // Mutable state acts as a filter, if it returns 'true', then the
         // record is accepted, otherwise the finalizer discards the record
         // data in the destructor, without submitting it.
-        if (mutable_state(rec)) { rec.rec.end(); }
+        bool accepted = false;
+        {
+            std::lock_guard<std::mutex> lock(mutable_state_mutex);
+            accepted = mutable_state(rec);
+        }
+        if (accepted) { rec.rec.end(); }
     };
 }
 
-- 
2.43.0


From 0a28602155c3063112900d3f853a3c50a618558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:11 +0000
Subject: [PATCH 06/56] fix: report failed and incomplete file writes

---
 src/hstd/stdlib/Filesystem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Filesystem.cpp b/src/hstd/stdlib/Filesystem.cpp
index 30b317e..79d6880 100644
--- a/src/hstd/stdlib/Filesystem.cpp
+++ b/src/hstd/stdlib/Filesystem.cpp
@@ -8,9 +8,14 @@ using namespace hstd;
 void hstd::writeFile(fs::path const& target, std::string const& content) {
     std::ofstream file{target.native()};
     // REFACTOR truncate file on write
-    // REFACTOR add error message on write failure
     if (file.is_open()) {
         file << content;
+        // buffered data might be written only when the file is closed
+        file.close();
+        if (!file) {
+            throw FilesystemError::init(
+                "Could not write content to file '" + target.native() + "'");
+        }
     } else {
         throw FilesystemError::init("Could not write to file '" + target.native() + "'");
     }
-- 
2.43.0


From aefb7e09f37faf4d4326f1468e78452127f768dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:11 +0000
Subject: [PATCH 07/56] fix: report read errors instead of returning partial
 file content

---
 src/hstd/stdlib/Filesystem.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/Filesystem.cpp b/src/hstd/stdlib/Filesystem.cpp
index 79d6880..1d04bf1 100644
--- a/src/hstd/stdlib/Filesystem.cpp
+++ b/src/hstd/stdlib/Filesystem.cpp
@@ -24,9 +24,15 @@ void hstd::writeFile(fs::path const& target, std::string const& content) {
 std::string hstd::readFile(fs::path const& target) {
     std::ifstream in{target.native()};
     if (in.is_open()) {
-        std::stringstream result;
-        result << in.rdbuf();
-        return result.str();
+        std::string result;
+        char        buffer[4096];
+        while (in.read(buffer, sizeof(buffer)) || in.gcount() != 0) {
+            result.append(buffer, in.gcount());
+        }
+        if (in.bad()) {
+            throw FilesystemError::init("Could not read file '" + target.native() + "'");
+        }
+        return result;
     } else {
         throw FilesystemError::init("Could not open file '" + target.native() + "'");
     }
-- 
2.43.0


From 80a79f0eaf2e88c84b5d4d58520a414237e78b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:11 +0000
Subject: [PATCH 08/56] fix: create relative directories and report the ones
 that cannot be created

---
 src/hstd/stdlib/Filesystem.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/hstd/stdlib/Filesystem.cpp b/src/hstd/stdlib/Filesystem.cpp
index 1d04bf1..7dae4fd 100644
--- a/src/hstd/stdlib/Filesystem.cpp
+++ b/src/hstd/stdlib/Filesystem.cpp
@@ -66,11 +66,19 @@ void hstd::writeDebugFile(
     writeFile(full_path, content);
 }
 
-void hstd::createDirectory(fs::path const& target, bool parents, bool existsOk) {
-    if (target.native().empty()) {
+void hstd::createDirectory(fs::path const& path, bool parents, bool existsOk) {
+    if (path.native().empty()) {
         throw FilesystemError::init(fmt("Cannot create directory, target is empty"));
     }
 
+    // `dir/` is the same directory as `dir`
+    fs::path const target = path.has_filename() || !path.has_relative_path()
+                              ? path
+                              : path.parent_path();
+    // directory in the current one has no parent path
+    fs::path const parent = target.has_parent_path() ? target.parent_path()
+                                                     : fs::path{"."};
+
     if (fs::is_regular_file(target)) {
         throw FilesystemError::init(
             fmt("Cannot create directory {} -- the file with this name "
@@ -83,18 +91,14 @@ void hstd::createDirectory(fs::path const& target, bool parents, bool existsOk)
             fmt("Cannot create directory {} -- the path already exists", target));
     }
 
-    if (!fs::is_directory(target.parent_path()) && !parents) {
+    if (!fs::is_directory(parent) && !parents) {
         throw FilesystemError::init(
             fmt("Cannot create directory {} -- parent path does not exist", target));
     }
 
-    auto aux = [&](this auto&& self, fs::path const& target) -> void {
-        // apparently `/` root directory has parent path according to this
-        // code, so the `!=` thing is the only one that worked.
-        if (target.parent_path() != target) {
-            self(target.parent_path());
-            if (fs::is_directory(target.parent_path())) { fs::create_directory(target); }
-        }
-    };
-    aux(target);
+    if (parents) { fs::create_directories(parent); }
+    if (!fs::create_directory(target) && !existsOk) {
+        throw FilesystemError::init(
+            fmt("Cannot create directory {} -- the path already exists", target));
+    }
 }
-- 
2.43.0


From c86ff7e0d725a0e403a6565fedae8e76fabe6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:49 +0000
Subject: [PATCH 09/56] fix: report a trace file that cannot be opened

---
 src/hstd/stdlib/TraceBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hstd/stdlib/TraceBase.cpp b/src/hstd/stdlib/TraceBase.cpp
index 89c5062..68a1464 100644
--- a/src/hstd/stdlib/TraceBase.cpp
+++ b/src/hstd/stdlib/TraceBase.cpp
@@ -77,6 +77,10 @@ void OperationsTracer::setTraceFile(fs::path const& outfile, bool overwrite) {
         stream = std::make_shared<std::ofstream>(
             std::ofstream{outfile.native(), std::ios_base::out | std::ios_base::app});
     }
+    if (!*stream) {
+        throw FilesystemError::init(
+            "Could not open trace file '" + outfile.native() + "'");
+    }
     traceColored = false;
 }
 
-- 
2.43.0


From 86856040334b4213d7ae2f76eabfe58a71016bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:46 +0000
Subject: [PATCH 10/56] fix: restore sinks when a sink scope is moved into a
 moved-out one

---
 src/hstd/ext/logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/ext/logger.hpp b/src/hstd/ext/logger.hpp
index 8c89761..dec4bf6 100644
--- a/src/hstd/ext/logger.hpp
+++ b/src/hstd/ext/logger.hpp
@@ -145,6 +145,7 @@ class log_sink_scope {
     };
 
     log_sink_scope& operator=(log_sink_scope&& other) noexcept {
+        this->moved           = other.moved;
         other.moved           = true;
         this->previous_sinks_ = std::move(other.previous_sinks_);
         return *this;
-- 
2.43.0


From 512fd930d30a8b9f9efe3c2316704bb924c1fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:41 +0000
Subject: [PATCH 11/56] fix: attribute commands to the running task after a
 nested task run

---
 .../py_repository/repo_tasks/workflow_utils.py   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
index b2bc7c7..13d1394 100644
--- a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
+++ b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
@@ -95,15 +95,17 @@ def haxorg_task(
 
                 kwargs[param_name] = value
 
-            if context_obj:
-                context_obj.current_task = wrapper
+            if context_obj is None:
+                return func(**kwargs)
 
-            result = func(**kwargs)
+            # Nested runs share the context, get back to the outer task when done
+            outer_task = context_obj.current_task
+            context_obj.current_task = wrapper
+            try:
+                return func(**kwargs)
 
-            if context_obj:
-                context_obj.current_task = None
-
-            return result
+            finally:
+                context_obj.current_task = outer_task
 
         wrapper._haxorg_metadata = TaskMetadata(  # type: ignore[attr-defined]
             dependencies=[dep for dep in (dependencies or [])],
-- 
2.43.0


From d0442c19ae0d76b3735227493d2ca59dfcad2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:48 +0000
Subject: [PATCH 12/56] fix: run tasks passed as functions by their task id

---
 .../py_repository/py_repository/repo_tasks/workflow_utils.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
index 13d1394..ded8157 100644
--- a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
+++ b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
@@ -262,8 +262,8 @@ args: {args}
         return result
 
     def run(self, target_name: str | Callable, *args: Any, **kwargs: Any) -> None:
-        target_name = target_name if isinstance(target_name,
-                                                str) else target_name.__name__
+        target_name = target_name if isinstance(
+            target_name, str) else get_task_metadata(target_name).task_id
 
         log(CAT).info(f"Starting with target {target_name}")
         target_id = self.graph.graph.vs.find(name=target_name).index
-- 
2.43.0


From 5b2969e201c1428169f8ee913fc9f59ab53b1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:43 +0000
Subject: [PATCH 13/56] fix: pass the task arguments when listing outputs of a
 file operation

---
 scripts/py_scriptutils/py_scriptutils/files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/files.py b/scripts/py_scriptutils/py_scriptutils/files.py
index 1579dd9..cecf540 100644
--- a/scripts/py_scriptutils/py_scriptutils/files.py
+++ b/scripts/py_scriptutils/py_scriptutils/files.py
@@ -204,7 +204,7 @@ class FileOperation:
         stamp_path = self.get_stamp_path(root)
         return (self.input and IsNewInput(
             self.input,
-            self.get_output_files(root) or
+            self.get_output_files(root, **kwargs) or
             ([stamp_path] if stamp_path is not None else []), **kwargs)) or bool(
                 stamp_path and self.stamp_content_is_new(root, **kwargs))
 
@@ -229,7 +229,7 @@ class FileOperation:
                 ):
                     why += f"\n{line}"
 
-            min_time = min_mtime(self.get_output_files(root))
+            min_time = min_mtime(self.get_output_files(root, **kwargs))
             newer = [
                 p for p in self.get_input(**kwargs)
                 if p.exists() and min_time < p.stat().st_mtime
@@ -244,7 +244,7 @@ class FileOperation:
             if newer:
                 why += " {} files were changed since last creation of {}: {}".format(
                     len(newer),
-                    format_files(self.get_output_files(root)),
+                    format_files(self.get_output_files(root, **kwargs)),
                     format_files(newer),
                 )
 
-- 
2.43.0


From 4a7ce1c51a590107218f29e556947ff9dd4e7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:46 +0000
Subject: [PATCH 14/56] fix: never skip a task after a failed run or after an
 edit made while it ran

---
 .../repo_tasks/workflow_utils.py              | 14 ++++++------
 .../py_scriptutils/py_scriptutils/files.py    | 22 ++++++++++++++-----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
index ded8157..322ff99 100644
--- a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
+++ b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
@@ -298,15 +298,15 @@ args: {args}
                         raise e from None
 
             if operation and not self.config.use_unchanged_tasks:
-                with operation.scoped_operation(self.stamp_root, *args, **kwargs):
-                    if operation.should_run(self.stamp_root, *args, **kwargs):
-                        log(CAT).info(f"Running [green]{task_id}[/green], should run")
+                if operation.should_run(self.stamp_root, *args, **kwargs):
+                    log(CAT).info(f"Running [green]{task_id}[/green], should run")
+                    with operation.scoped_operation(self.stamp_root, *args, **kwargs):
                         run_op()
 
-                    else:
-                        log(CAT).info(f"Skipping [red]{task_id}[/red], no run needed")
-                        log(CAT).info(
-                            operation.explain(task_id, self.stamp_root, *args, **kwargs))
+                else:
+                    log(CAT).info(f"Skipping [red]{task_id}[/red], no run needed")
+                    log(CAT).info(
+                        operation.explain(task_id, self.stamp_root, *args, **kwargs))
 
             else:
                 log(CAT).info(f"Running [yellow]{task_id}[/yellow]")
diff --git a/scripts/py_scriptutils/py_scriptutils/files.py b/scripts/py_scriptutils/py_scriptutils/files.py
index cecf540..af75eca 100644
--- a/scripts/py_scriptutils/py_scriptutils/files.py
+++ b/scripts/py_scriptutils/py_scriptutils/files.py
@@ -260,14 +260,26 @@ class FileOperation:
 
     @contextmanager
     def scoped_operation(self, root: Path, **kwargs: Any) -> Generator[Any, Any, Any]:
-        yield
+        """
+        Run the operation and record its completion in the stamp file.
 
+        There is no stamp while the operation runs, so a failed or killed run is
+        repeated. The stamp carries the time at which the operation started:
+        inputs edited during the run are newer than the stamp.
+        """
         stamp = self.get_stamp_path(root)
-        if stamp is not None and not stamp.parent.exists():
-            stamp.parent.mkdir(parents=True)
+        if stamp is None:
+            yield
+            return
+
+        stamp.parent.mkdir(parents=True, exist_ok=True)
+        stamp.unlink(missing_ok=True)
+        pending = stamp.with_name(stamp.name + ".pending")
+        pending.write_text(self.get_stamp_content(**kwargs))
+
+        yield
 
-        with open(str(stamp), "w") as file:
-            file.write(self.get_stamp_content(**kwargs))
+        os.replace(pending, stamp)
 
 
 def cache_file_processing_result(input_arg_names: List[str]) -> Callable:
-- 
2.43.0


From b4ab919eacf09d137d855dac100fd7f1d0542485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:03 +0000
Subject: [PATCH 15/56] fix: never read back an incomplete or outdated pickle
 cache

---
 scripts/py_scriptutils/py_scriptutils/files.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/files.py b/scripts/py_scriptutils/py_scriptutils/files.py
index af75eca..852cabf 100644
--- a/scripts/py_scriptutils/py_scriptutils/files.py
+++ b/scripts/py_scriptutils/py_scriptutils/files.py
@@ -318,10 +318,17 @@ def cache_file_processing_result(input_arg_names: List[str]) -> Callable:
 
 def pickle_or_new(input_path: str, output_path: str, builder_cb: Callable[[str], T]) -> T:
     if IsNewInput(input_path, output_path):
-        value: T = builder_cb(input_path)
-        with open(output_path, "wb") as file:
+        # Cache file is written on the side and then put in place at once, so an
+        # interrupted write is never read back. It carries the time at which the
+        # processing started: input edited while it is processed is newer.
+        pending_path = f"{output_path}.pending"
+        with open(pending_path, "wb") as file:
+            started = os.stat(pending_path).st_mtime_ns
+            value: T = builder_cb(input_path)
             pickle.dump(value, file)
 
+        os.utime(pending_path, ns=(started, started))
+        os.replace(pending_path, output_path)
         return value
 
     else:
-- 
2.43.0


From 71908a477b127911cb5b1e2e161584c40933198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:03 +0000
Subject: [PATCH 16/56] fix: do not serve cached file processing results to
 calls with other arguments

---
 scripts/py_scriptutils/py_scriptutils/files.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/files.py b/scripts/py_scriptutils/py_scriptutils/files.py
index 852cabf..d8ab509 100644
--- a/scripts/py_scriptutils/py_scriptutils/files.py
+++ b/scripts/py_scriptutils/py_scriptutils/files.py
@@ -301,14 +301,16 @@ def cache_file_processing_result(input_arg_names: List[str]) -> Callable:
                     mod_times.append((file_path, file_path.stat().st_mtime))
 
             if cache_key in cache:
-                cached_mod_times, cached_result = cache[cache_key]["mod_times"], cache[
-                    cache_key]["result"]
-                if all(mod_time == cached_mod_times[i][1]
-                       for i, (file_path, mod_time) in enumerate(mod_times)):
-                    return cached_result
+                cached = cache[cache_key]
+                if cached["mod_times"] == mod_times and cached["call"] == (args, kwargs):
+                    return cached["result"]
 
             result = func(*args, **kwargs)
-            cache[cache_key] = {"mod_times": mod_times, "result": result}
+            cache[cache_key] = {
+                "mod_times": mod_times,
+                "call": (args, kwargs),
+                "result": result,
+            }
             return result
 
         return wrapper
-- 
2.43.0


From a6ca678593cf290ba354305525924e7980c38b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:12 +0000
Subject: [PATCH 17/56] fix: do not share trace event arguments between events

---
 scripts/py_scriptutils/py_scriptutils/tracer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/tracer.py b/scripts/py_scriptutils/py_scriptutils/tracer.py
index ee93107..de097f2 100644
--- a/scripts/py_scriptutils/py_scriptutils/tracer.py
+++ b/scripts/py_scriptutils/py_scriptutils/tracer.py
@@ -103,7 +103,7 @@ class TraceCollector:
             dur=0,
             pid=pid,
             tid=tid,
-            args=args or {},
+            args=dict(args or {}),
         )
 
         with self.lock:
@@ -137,7 +137,7 @@ class TraceCollector:
     ) -> Iterator[TraceEvent]:
 
         if file or line or function:
-            args = args or dict()
+            args = dict(args or {})
             args["call_file"] = file
             args["call_line"] = line
             args["call_function"] = function
-- 
2.43.0


From c68223d89b42a31dfdaad4a8d00bd473fd31cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:49 +0000
Subject: [PATCH 18/56] fix: measure traced durations with the monotonic clock

---
 scripts/py_scriptutils/py_scriptutils/tracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/tracer.py b/scripts/py_scriptutils/py_scriptutils/tracer.py
index de097f2..5784eca 100644
--- a/scripts/py_scriptutils/py_scriptutils/tracer.py
+++ b/scripts/py_scriptutils/py_scriptutils/tracer.py
@@ -42,6 +42,9 @@ class TraceCollector:
         self.metadata: Dict[str, Any] = {}
         self.eventStacks: Dict[int, List[TraceEvent]] = {}
         self.lock = threading.Lock()
+        # System clock can be stepped while the events are collected, only its
+        # value at the start is used, to make traces of processes comparable.
+        self.time_offset_ns = time.time_ns() - time.monotonic_ns()
 
     def get_last_event(self) -> Optional[TraceEvent]:
         if self.traceEvents:
@@ -86,7 +89,7 @@ class TraceCollector:
         return self.add_metadata_event("thread_sort_index", dict(sort_index=index))
 
     def get_time(self) -> int:
-        return int(time.time() * 1e6)
+        return (time.monotonic_ns() + self.time_offset_ns) // 1000
 
     def push_complete_event(self,
                             name: str,
@@ -118,7 +121,7 @@ class TraceCollector:
 
         with self.lock:
             new_event = self.eventStacks[tid].pop()
-            end_time = int(time.time() * 1e6)
+            end_time = self.get_time()
             assert new_event.ts
             new_event.dur = end_time - new_event.ts
             self.traceEvents.append(new_event)
-- 
2.43.0


From b26981696247dc7028a826535056ccbdd401a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:01 +0000
Subject: [PATCH 19/56] fix: create a single global trace collector when
 threads start tracing at once

---
 scripts/py_scriptutils/py_scriptutils/tracer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/tracer.py b/scripts/py_scriptutils/py_scriptutils/tracer.py
index 5784eca..50ac36b 100644
--- a/scripts/py_scriptutils/py_scriptutils/tracer.py
+++ b/scripts/py_scriptutils/py_scriptutils/tracer.py
@@ -169,13 +169,15 @@ class TraceCollector:
 
 
 __global_trace_collector: Optional[TraceCollector] = None
+__global_trace_collector_lock = threading.Lock()
 
 
 @beartype
 def getGlobalTraceCollector() -> TraceCollector:
     global __global_trace_collector
-    if not __global_trace_collector:
-        __global_trace_collector = TraceCollector()
+    with __global_trace_collector_lock:
+        if not __global_trace_collector:
+            __global_trace_collector = TraceCollector()
 
     return __global_trace_collector
 
-- 
2.43.0


From 27acbfff652d41e2e200aa49217adecf303446dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:58 +0000
Subject: [PATCH 20/56] fix: export a consistent copy of the collected trace

---
 scripts/py_scriptutils/py_scriptutils/tracer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/tracer.py b/scripts/py_scriptutils/py_scriptutils/tracer.py
index 50ac36b..451063a 100644
--- a/scripts/py_scriptutils/py_scriptutils/tracer.py
+++ b/scripts/py_scriptutils/py_scriptutils/tracer.py
@@ -153,13 +153,15 @@ class TraceCollector:
             self.pop_complete_event()
 
     def set_metadata(self, key: str, value: Any) -> None:
-        self.metadata[key] = value
+        with self.lock:
+            self.metadata[key] = value
 
     def export_to_json(self, filename: Path) -> None:
-        data = {
-            "traceEvents": [event.__dict__ for event in self.traceEvents],
-            "otherData": self.metadata
-        }
+        with self.lock:
+            data = {
+                "traceEvents": [event.__dict__ for event in self.traceEvents],
+                "otherData": dict(self.metadata),
+            }
 
         if not filename.parent.exists():
             filename.parent.mkdir(parents=True)
-- 
2.43.0


From 74abf5bdb52daed874b99e8c209a288e7959da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:03 +0000
Subject: [PATCH 21/56] fix: never leave partially formatted sources behind the
 format hook

---
 .../repo_hooks/safe_yapf_format.py            | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py b/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
index 8680bfc..af4dc6c 100755
--- a/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
+++ b/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
@@ -5,10 +5,13 @@ import ast
 import base64
 from dataclasses import dataclass
 import io
+import os
 from pathlib import Path
 import re
+import shutil
 import subprocess
 import sys
+import tempfile
 import tokenize
 
 _PLACEHOLDER_PREFIX = "__safe_yapf_type_alias__"
@@ -157,31 +160,50 @@ def _restore_type_aliases_from_placeholders(src: str) -> str:
     return "".join(lines)
 
 
+def _read_source(path: Path) -> str:
+    with path.open(encoding="utf-8", newline="") as file:
+        return file.read()
+
+
+def _write_source(path: Path, src: str) -> None:
+    with path.open("w", encoding="utf-8", newline="") as file:
+        file.write(src)
+
+
 def main(argv: list[str]) -> int:
     files = [Path(a) for a in argv[1:]]
     if not files:
         return 0
 
     for path in files:
-        original_src = path.read_text(encoding="utf-8")
+        # Format a copy next to the file, for yapf to find the same style, and put
+        # it in place when complete. The file itself never has intermediate content.
+        path = path.resolve()
+        original_src = _read_source(path)
         rewritten_src, changed = _rewrite_type_aliases_to_placeholders(original_src)
 
+        fd, copy_name = tempfile.mkstemp(prefix=f".{path.stem}.",
+                                         suffix=path.suffix,
+                                         dir=path.parent)
+        os.close(fd)
+        copy = Path(copy_name)
         try:
-            if changed:
-                path.write_text(rewritten_src, encoding="utf-8")
+            _write_source(copy, rewritten_src)
 
             print(f"safe_yapf_format: formatting {path}", file=sys.stderr, flush=True)
-            subprocess.run(["yapf", "-i", str(path)], check=True)
+            subprocess.run(["yapf", "-i", str(copy)], check=True)
 
+            formatted = _read_source(copy)
             if changed:
-                formatted = path.read_text(encoding="utf-8")
-                restored = _restore_type_aliases_from_placeholders(formatted)
-                path.write_text(restored, encoding="utf-8")
+                formatted = _restore_type_aliases_from_placeholders(formatted)
+                _write_source(copy, formatted)
 
-        except Exception:
-            if changed:
-                path.write_text(original_src, encoding="utf-8")
-            raise
+            if formatted != original_src:
+                shutil.copymode(path, copy)
+                os.replace(copy, path)
+
+        finally:
+            copy.unlink(missing_ok=True)
 
     return 0
 
-- 
2.43.0


From 7735b609040aa7795eb79bf50ab70ccf3b484c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:35 +0000
Subject: [PATCH 22/56] fix: keep statements sharing a line with a type alias
 together in the format hook

---
 .../repo_hooks/safe_yapf_format.py            | 49 ++++++++-----------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py b/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
index af4dc6c..3676c8e 100755
--- a/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
+++ b/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
@@ -24,9 +24,13 @@ class _LineRange:
 
 
 def _find_type_alias_statement_ranges(src: str) -> list[_LineRange]:
-    paren_level = 0
-    at_logical_line_start = True
-    type_stmt_start_line: int | None = None
+    """
+    Find logical lines with type alias statements. Statements on the same logical
+    line are kept together: lines can only be replaced as a whole.
+    """
+    at_statement_start = True
+    logical_line_start: int | None = None
+    has_type_stmt = False
     ranges: list[_LineRange] = []
 
     tokens = tokenize.generate_tokens(io.StringIO(src).readline)
@@ -34,38 +38,25 @@ def _find_type_alias_statement_ranges(src: str) -> list[_LineRange]:
         ttype = tok.type
         tstring = tok.string
 
-        if ttype == tokenize.OP:
-            if tstring in "([{":
-                paren_level += 1
-            elif tstring in ")]}":
-                paren_level -= 1
-            elif tstring == ";" and paren_level == 0:
-                if type_stmt_start_line is not None:
-                    ranges.append(_LineRange(type_stmt_start_line, tok.start[0]))
-                    type_stmt_start_line = None
-                at_logical_line_start = True
-                continue
-
-        if ttype == tokenize.NL:
+        if ttype in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT, tokenize.DEDENT):
             continue
 
-        if ttype == tokenize.NEWLINE and paren_level == 0:
-            if type_stmt_start_line is not None:
-                ranges.append(_LineRange(type_stmt_start_line, tok.start[0]))
-                type_stmt_start_line = None
-            at_logical_line_start = True
-            continue
+        if ttype == tokenize.NEWLINE:
+            if has_type_stmt and logical_line_start is not None:
+                ranges.append(_LineRange(logical_line_start, tok.start[0]))
 
-        if ttype in (tokenize.INDENT, tokenize.DEDENT):
-            at_logical_line_start = True
+            at_statement_start = True
+            logical_line_start = None
+            has_type_stmt = False
             continue
 
-        if at_logical_line_start and paren_level == 0 and ttype == tokenize.NAME and tstring == "type":
-            type_stmt_start_line = tok.start[0]
-            at_logical_line_start = False
-            continue
+        if logical_line_start is None:
+            logical_line_start = tok.start[0]
+
+        if at_statement_start and ttype == tokenize.NAME and tstring == "type":
+            has_type_stmt = True
 
-        at_logical_line_start = False
+        at_statement_start = ttype == tokenize.OP and tstring == ";"
 
     return ranges
 
-- 
2.43.0


From 6012f5f8c309f388237a036c17bc281222cc4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:27 +0000
Subject: [PATCH 23/56] fix: keep line ends and string contents of type aliases
 in the format hook

---
 .../repo_hooks/safe_yapf_format.py            | 61 +++++++++++--------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py b/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
index 3676c8e..a7e673a 100755
--- a/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
+++ b/scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py
@@ -61,28 +61,40 @@ def _find_type_alias_statement_ranges(src: str) -> list[_LineRange]:
     return ranges
 
 
-_ws_re = re.compile(r"^(\s*)(.*)$")
-_restore_re = re.compile(r"^(\s*)#\s*" + re.escape(_PLACEHOLDER_PREFIX) +
-                         r"(?:\s(.*)|\s*)$")
+def _split_lines(src: str) -> list[str]:
+    """
+    Split the source the way it is tokenized: unlike `str.splitlines`, form feeds
+    and unicode separators do not end a line.
+    """
+    return re.findall(r"[^\n]*\n|[^\n]+", src)
 
 
-def _dedent_by_prefix(block: str, prefix: str) -> str:
+def _change_indent(block: str, old: str, new: str) -> str:
+    """
+    Change indentation of the statement, except for the content of its string literals.
+    """
+    if old == new:
+        return block
+
+    verbatim: set[int] = set()
+    string_start: list[int] = []
+    dedented = block[len(old):]
+    for tok in tokenize.generate_tokens(io.StringIO(dedented).readline):
+        match tokenize.tok_name[tok.type]:
+            case "STRING":
+                verbatim.update(range(tok.start[0] + 1, tok.end[0] + 1))
+            case "FSTRING_START":
+                string_start.append(tok.start[0])
+            case "FSTRING_END":
+                verbatim.update(range(string_start.pop() + 1, tok.end[0] + 1))
+
     out: list[str] = []
-    for line in block.splitlines(keepends=True):
-        if line.startswith(prefix):
-            out.append(line[len(prefix):])
-        else:
-            out.append(line)
-    return "".join(out)
+    for number, line in enumerate(_split_lines(block), start=1):
+        if number not in verbatim and line.startswith(old):
+            line = new + line[len(old):]
 
+        out.append(line)
 
-def _indent_block(block: str, indent: str) -> str:
-    out: list[str] = []
-    for line in block.splitlines(keepends=True):
-        if line in ("\n", "\r\n"):
-            out.append(line)
-        else:
-            out.append(indent + line)
     return "".join(out)
 
 
@@ -91,7 +103,7 @@ def _rewrite_type_aliases_to_placeholders(src: str) -> tuple[str, bool]:
     if not ranges:
         return src, False
 
-    lines = src.splitlines(keepends=True)
+    lines = _split_lines(src)
 
     # Apply from bottom to top so line indices remain valid while editing
     for idx, r in reversed(list(enumerate(ranges))):
@@ -100,10 +112,10 @@ def _rewrite_type_aliases_to_placeholders(src: str) -> tuple[str, bool]:
         first_line = lines[r.start_line - 1]
         indent = first_line[:len(first_line) - len(first_line.lstrip())]
 
-        payload_block = _dedent_by_prefix(original_block, indent)
-        payload_b64 = base64.b64encode(payload_block.encode("utf-8")).decode("ascii")
+        payload_b64 = base64.b64encode(original_block.encode("utf-8")).decode("ascii")
 
-        placeholder_line = f"{indent}{_PLACEHOLDER_PREFIX}{idx} = {payload_b64!r}\n"
+        newline = "\r\n" if original_block.endswith("\r\n") else "\n"
+        placeholder_line = f"{indent}{_PLACEHOLDER_PREFIX}{idx} = {payload_b64!r}{newline}"
         lines[r.start_line - 1:r.end_line] = [placeholder_line]
 
     return "".join(lines), True
@@ -111,7 +123,7 @@ def _rewrite_type_aliases_to_placeholders(src: str) -> tuple[str, bool]:
 
 def _restore_type_aliases_from_placeholders(src: str) -> str:
     tree = ast.parse(src)
-    lines = src.splitlines(keepends=True)
+    lines = _split_lines(src)
 
     replacements: list[tuple[int, int, str]] = []
     for node in ast.walk(tree):
@@ -139,14 +151,15 @@ def _restore_type_aliases_from_placeholders(src: str) -> str:
 
         payload_b64 = node.value.value
         payload_block = base64.b64decode(payload_b64.encode("ascii")).decode("utf-8")
-        restored_block = _indent_block(payload_block, indent)
+        payload_indent = payload_block[:len(payload_block) - len(payload_block.lstrip())]
+        restored_block = _change_indent(payload_block, payload_indent, indent)
 
         replacements.append((start_line, end_line, restored_block))
 
     # Replace bottom-up so earlier indices are unaffected
     replacements.sort(key=lambda x: x[0], reverse=True)
     for start_line, end_line, restored_block in replacements:
-        lines[start_line - 1:end_line] = restored_block.splitlines(keepends=True)
+        lines[start_line - 1:end_line] = _split_lines(restored_block)
 
     return "".join(lines)
 
-- 
2.43.0


From 1f0577d430d4584e53785b2a36ff6a5a7370d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:26 +0000
Subject: [PATCH 24/56] fix: keep earlier command output in logs opened for
 appending

---
 .../py_repository/repo_tasks/command_execution.py   | 12 ++++++++++--
 .../py_repository/repo_tasks/workflow_utils.py      | 13 ++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_tasks/command_execution.py b/scripts/py_repository/py_repository/repo_tasks/command_execution.py
index fd19d2b..cab56e2 100644
--- a/scripts/py_repository/py_repository/repo_tasks/command_execution.py
+++ b/scripts/py_repository/py_repository/repo_tasks/command_execution.py
@@ -154,6 +154,8 @@ def run_command_on_host(
     log_level: HaxorgLogLevel,
     stdout_debug: Optional[Path],
     stderr_debug: Optional[Path],
+    append_stdout_debug: bool = False,
+    append_stderr_debug: bool = False,
 ) -> CommandResult:
     try:
         run = plumbum.local[cmd]
@@ -182,8 +184,10 @@ def run_command_on_host(
         run = run.with_cwd(cwd)
 
     if run_mode == "nohup" or run_mode == "bg":
-        stderr_stream = open(stderr_debug, "w") if stderr_debug else None
-        stdout_stream = open(stdout_debug, "w") if stdout_debug else None
+        stderr_mode = "a" if append_stderr_debug else "w"
+        stdout_mode = "a" if append_stdout_debug else "w"
+        stderr_stream = open(stderr_debug, stderr_mode) if stderr_debug else None
+        stdout_stream = open(stdout_debug, stdout_mode) if stdout_debug else None
 
         try:
             subprocess.Popen(
@@ -235,6 +239,8 @@ def run_command(
     debug_override = ctx.get_task_debug_streams(
         str(str(cmd).split("/")[-1] if "/" in str(cmd) else cmd),
         args,
+        append_stderr=append_stderr_debug,
+        append_stdout=append_stdout_debug,
     )
 
     from py_repository.repo_tasks.common import check_path_exists
@@ -298,6 +304,8 @@ cmd:  {cmd}
         log_level=ctx.config.log_level,
         stdout_debug=stdout_debug,
         stderr_debug=stderr_debug,
+        append_stdout_debug=append_stdout_debug,
+        append_stderr_debug=append_stderr_debug,
     )
 
     _write_debug_outputs(
diff --git a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
index 322ff99..accbfb3 100644
--- a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
+++ b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
@@ -235,7 +235,13 @@ class TaskContext():
 
         return result
 
-    def get_task_debug_streams(self, cmd: str, args: Any) -> tuple[Path, Path]:
+    def get_task_debug_streams(
+        self,
+        cmd: str,
+        args: Any,
+        append_stderr: bool = False,
+        append_stdout: bool = False,
+    ) -> tuple[Path, Path]:
         """
         Get unique stderr, stdout pair of files for the command to write output to.
         """
@@ -256,8 +262,9 @@ cmd:  {cmd}
 args: {args}
         """
 
-        result[0].write_text(header)
-        result[1].write_text(header)
+        for path, append in zip(result, (append_stderr, append_stdout)):
+            with path.open("a" if append else "w") as file:
+                file.write(header)
 
         return result
 
-- 
2.43.0


From 060704e901a9df20fdd8dcd2e6e5760136e5ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:42 +0000
Subject: [PATCH 25/56] fix: log commands with the same file name from
 different directories separately

---
 .../py_repository/repo_tasks/command_execution.py          | 2 +-
 .../py_repository/repo_tasks/workflow_utils.py             | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_tasks/command_execution.py b/scripts/py_repository/py_repository/repo_tasks/command_execution.py
index cab56e2..4461640 100644
--- a/scripts/py_repository/py_repository/repo_tasks/command_execution.py
+++ b/scripts/py_repository/py_repository/repo_tasks/command_execution.py
@@ -237,7 +237,7 @@ def run_command(
     Return tuple: (code, stdout, stderr)
     """
     debug_override = ctx.get_task_debug_streams(
-        str(str(cmd).split("/")[-1] if "/" in str(cmd) else cmd),
+        str(cmd),
         args,
         append_stderr=append_stderr_debug,
         append_stdout=append_stdout_debug,
diff --git a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
index accbfb3..06e567e 100644
--- a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
+++ b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
@@ -247,11 +247,10 @@ class TaskContext():
         """
         import hashlib
         digest = hashlib.md5(f"{cmd} {args}".encode()).hexdigest()[:8]
+        suffix = self.get_task_debug_suffix(cmd.split("/")[-1])
         result = (
-            get_tmpdir("run_command").joinpath(
-                f"{self.get_task_debug_suffix(cmd)}_{digest}_stderr.log"),
-            get_tmpdir("run_command").joinpath(
-                f"{self.get_task_debug_suffix(cmd)}_{digest}_stdout.log"),
+            get_tmpdir("run_command").joinpath(f"{suffix}_{digest}_stderr.log"),
+            get_tmpdir("run_command").joinpath(f"{suffix}_{digest}_stdout.log"),
         )
 
         result[0].parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 577b855180cf2b315668872782e80949d24510eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:32 +0000
Subject: [PATCH 26/56] fix: record processes whose command line is not valid
 UTF-8

The process tracker terminated with an exception when it had to write
such a command line or working directory to its JSON output. Replace the
invalid bytes instead.
---
 scripts/cxx_executor/execution_flow_tracker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/cxx_executor/execution_flow_tracker.cpp b/scripts/cxx_executor/execution_flow_tracker.cpp
index e0af930..87a60ad 100644
--- a/scripts/cxx_executor/execution_flow_tracker.cpp
+++ b/scripts/cxx_executor/execution_flow_tracker.cpp
@@ -167,7 +167,8 @@ class ProcTracker {
     template <typename T>
     void emit_event(T const& event) {
         nlohmann::json j = hstd::to_json_eval(event);
-        file << j.dump() << '\n';
+        // Command line and directory of a process can be arbitrary bytes
+        file << j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) << '\n';
     }
 
     std::ofstream file;
-- 
2.43.0


From 7590186f5774a88f4e101f04ba57034378e35b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:32 +0000
Subject: [PATCH 27/56] fix: process exiting while its command line is read

Reading the file of a process that is gone fails with an exception from
the stream buffer, which ended the process tracker. Formatted output of
the buffer handles the error.
---
 scripts/cxx_executor/execution_flow_tracker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/cxx_executor/execution_flow_tracker.cpp b/scripts/cxx_executor/execution_flow_tracker.cpp
index 87a60ad..b8552e4 100644
--- a/scripts/cxx_executor/execution_flow_tracker.cpp
+++ b/scripts/cxx_executor/execution_flow_tracker.cpp
@@ -104,8 +104,10 @@ static std::optional<Str> try_read_cmdline(int pid) {
     std::ifstream in(path, std::ios::binary);
     if (!in) { return std::nullopt; }
 
-    std::string data(
-        (std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
+    // Reading fails if the process is gone after its file was opened
+    std::ostringstream content;
+    content << in.rdbuf();
+    std::string data = content.str();
 
     for (char& c : data) {
         if (c == '\0') { c = ' '; }
-- 
2.43.0


From 24027f7ebe3f7fa7708821b8b849aae984e664f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:32 +0000
Subject: [PATCH 28/56] fix: keep tracking when the wait is interrupted

The process tracker failed when epoll_wait returned EINTR, for example
after it was stopped and continued.
---
 scripts/cxx_executor/execution_flow_tracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/cxx_executor/execution_flow_tracker.cpp b/scripts/cxx_executor/execution_flow_tracker.cpp
index b8552e4..e8a23ca 100644
--- a/scripts/cxx_executor/execution_flow_tracker.cpp
+++ b/scripts/cxx_executor/execution_flow_tracker.cpp
@@ -360,6 +360,7 @@ class ProcTracker {
         epoll_event events[8];
         while (true) {
             int n = epoll_wait(epollFd, events, 8, -1);
+            if (n == -1 && errno == EINTR) { continue; }
             check_syscall(n, "epoll_wait");
             for (int i = 0; i < n; ++i) {
                 int fd = events[i].data.fd;
-- 
2.43.0


From 7201d3a1689d7c8c68b00cacc1cc69baa5ad7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:32 +0000
Subject: [PATCH 29/56] fix: report errors of the process tracker output

The output file was never checked: the tracker ended with success when
the file could not be opened or the records could not be written.
---
 scripts/cxx_executor/execution_flow_tracker.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scripts/cxx_executor/execution_flow_tracker.cpp b/scripts/cxx_executor/execution_flow_tracker.cpp
index e8a23ca..0072608 100644
--- a/scripts/cxx_executor/execution_flow_tracker.cpp
+++ b/scripts/cxx_executor/execution_flow_tracker.cpp
@@ -157,20 +157,28 @@ class ProcTracker {
         : conf(conf), roots(conf.pids.begin(), conf.pids.end()) {
         LOGIC_ASSERTION_CHECK(!conf.path.empty(), "");
         file = std::ofstream{conf.path, std::ios::out | std::ios::trunc};
+        check_output();
     }
 
     void run() {
         setup_fds();
         prime_existing();
         event_loop();
+        file.close();
+        check_output();
     }
 
   private:
+    void check_output() {
+        if (!file) { throw std::runtime_error("Cannot write output file " + conf.path); }
+    }
+
     template <typename T>
     void emit_event(T const& event) {
         nlohmann::json j = hstd::to_json_eval(event);
         // Command line and directory of a process can be arbitrary bytes
         file << j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) << '\n';
+        check_output();
     }
 
     std::ofstream file;
-- 
2.43.0


From 73e7a5bc7adbe031fccc03600fd2a4fb3d632192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:32 +0000
Subject: [PATCH 30/56] fix: tell processes with a reused identifier apart

The process tracker compared process identifiers only. When a tracked
process exited and its identifier was taken before the next poll, the
first process got no end record, and the second one no start record or
was tracked although it was not related. Compare the start time as well.
---
 .../cxx_executor/execution_flow_tracker.cpp   | 40 ++++++++++++++-----
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/scripts/cxx_executor/execution_flow_tracker.cpp b/scripts/cxx_executor/execution_flow_tracker.cpp
index 0072608..fbd6035 100644
--- a/scripts/cxx_executor/execution_flow_tracker.cpp
+++ b/scripts/cxx_executor/execution_flow_tracker.cpp
@@ -51,6 +51,8 @@ struct ProcInfo {
 
 struct ProcSnapshot {
     int ppid = 0;
+    /// Identifiers are reused, start time tells the processes apart
+    unsigned long long startTime = 0;
 };
 
 static double now_us() {
@@ -96,7 +98,13 @@ static std::optional<ProcSnapshot> try_read_proc_snapshot(int pid) {
     int                ppid  = 0;
     if (!(tail >> state >> ppid)) { return std::nullopt; }
 
-    return ProcSnapshot{.ppid = ppid};
+    // Start time is field 22 of the line, parent is field 4
+    Str                skipped;
+    unsigned long long startTime = 0;
+    for (int field = 5; field < 22; ++field) { tail >> skipped; }
+    if (!(tail >> startTime)) { return std::nullopt; }
+
+    return ProcSnapshot{.ppid = ppid, .startTime = startTime};
 }
 
 static std::optional<Str> try_read_cmdline(int pid) {
@@ -292,12 +300,29 @@ class ProcTracker {
         seen = std::move(snap);
     }
 
+    void end_tracking(int pid) {
+        auto it = infoByPid.find(pid);
+        if (it != infoByPid.end()) {
+            emit_end(it->second);
+            infoByPid.erase(it);
+        }
+        tracked.erase(pid);
+    }
+
     void poll_proc_snapshot() {
         auto current = list_all_proc_snapshots();
 
         std::unordered_set<int> newPids;
-        for (auto const& [pid, _] : current) {
-            if (seen.find(pid) == seen.end()) { newPids.insert(pid); }
+        for (auto const& [pid, s] : current) {
+            auto before = seen.find(pid);
+            if (before == seen.end() || before->second.startTime != s.startTime) {
+                newPids.insert(pid);
+            }
+        }
+
+        // Identifier of a tracked process belongs to another one now
+        for (int pid : newPids) {
+            if (tracked.find(pid) != tracked.end()) { end_tracking(pid); }
         }
 
         std::unordered_set<int> toTrack;
@@ -344,14 +369,7 @@ class ProcTracker {
             if (current.find(pid) == current.end()) { ended.push_back(pid); }
         }
 
-        for (int pid : ended) {
-            auto it = infoByPid.find(pid);
-            if (it != infoByPid.end()) {
-                emit_end(it->second);
-                infoByPid.erase(it);
-            }
-            tracked.erase(pid);
-        }
+        for (int pid : ended) { end_tracking(pid); }
 
         seen = std::move(current);
     }
-- 
2.43.0


From c742d3143b9846faa923e19c8faa1db7ed92744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:07 +0000
Subject: [PATCH 31/56] fix: keep the pair of a two-way map when reassigning it
 fails

modify_data erases the element if the assignment or the hash of the new value
throws. replace_data leaves the old pair in place.
---
 src/hstd/ext/bimap_wrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/bimap_wrap.hpp b/src/hstd/ext/bimap_wrap.hpp
index 89aaf29..1a448f3 100644
--- a/src/hstd/ext/bimap_wrap.hpp
+++ b/src/hstd/ext/bimap_wrap.hpp
@@ -163,8 +163,8 @@ class UnorderedNto1Bimap
     bool reassign(L const& left, R const& new_right) {
         auto it = this->bimap.left.find(left);
         if (it == this->bimap.left.end()) { return false; }
-        this->bimap.left.modify_data(it, [new_right](R& val) { val = new_right; });
-        return true;
+        // `modify_data` erases the element if the modification throws
+        return this->bimap.left.replace_data(it, new_right);
     }
 };
 
-- 
2.43.0


From 78ceda0a7b1cf3cc5f0175596c7011b7a4007203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:07 +0000
Subject: [PATCH 32/56] fix: undo a half-finished addition to the intern store

If the second of the two inner containers failed to take the value, the other
kept it: the value was stored without an id and added again the next time.
---
 src/hstd/stdlib/dod_base_intern.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/dod_base_intern.hpp b/src/hstd/stdlib/dod_base_intern.hpp
index 39625af..8bd2364 100644
--- a/src/hstd/stdlib/dod_base_intern.hpp
+++ b/src/hstd/stdlib/dod_base_intern.hpp
@@ -34,7 +34,12 @@ struct InternStore {
         } else {
             auto result = mask.has_value() ? content.add(in, mask.value())
                                            : content.add(in);
-            id_map.insert({in, result});
+            try {
+                id_map.insert({in, result});
+            } catch (...) {
+                content.content.pop_back();
+                throw;
+            }
             LOGIC_ASSERTION_CHECK(
                 !result.isNil(), "Implementation error, added ID cannot be nil");
             return result;
@@ -61,8 +66,13 @@ struct InternStore {
         if (!contains(value)) {
             LOGIC_ASSERTION_CHECK(
                 !id.isNil(), "cannot use nil ID for interned store key");
-            content.insert(id, value);
-            id_map.insert({value, id});
+            auto mapped = id_map.insert({value, id}).first;
+            try {
+                content.insert(id, value);
+            } catch (...) {
+                id_map.erase(mapped);
+                throw;
+            }
         }
     }
 
-- 
2.43.0


From 830e6395ac44390bd949336f5799e70442de30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:07 +0000
Subject: [PATCH 33/56] fix: order equal ranges consistently in the range tree

The comparison said that each of two equal ranges comes before the other, so
sorting more than a few of them read outside of the list.
---
 src/hstd/stdlib/RangeTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/RangeTree.hpp b/src/hstd/stdlib/RangeTree.hpp
index 95bae8a..3511358 100644
--- a/src/hstd/stdlib/RangeTree.hpp
+++ b/src/hstd/stdlib/RangeTree.hpp
@@ -117,7 +117,7 @@ class RangeTree {
                 // When lhs completely contains rhs, sort lhs first.
                 return rhs.range.last < lhs.range.last;
             } else {
-                return true;
+                return lhs.index < rhs.index;
             }
         });
 
-- 
2.43.0


From a94cffba1e6d0e830f27b0f090cd3f4b9a3e7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:55 +0000
Subject: [PATCH 34/56] fix: do not close parser nodes while an exception
 unwinds the stack

The guard checked the tree depth in its destructor and terminated the program
when an exception left nested nodes open.
---
 src/haxorg/parse/OrgParser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.hpp b/src/haxorg/parse/OrgParser.hpp
index 44615bf..80323c9 100644
--- a/src/haxorg/parse/OrgParser.hpp
+++ b/src/haxorg/parse/OrgParser.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <haxorg/parse/OrgTokenizer.hpp>
 #include <haxorg/parse/OrgTypes.hpp>
 #include <hstd/stdlib/Exception.hpp>
@@ -163,6 +164,7 @@ struct OrgParser : public hstd::OperationsTracer {
         OrgParser*  parser;
         OrgId       startId = OrgId::Nil();
         bool        closed  = false;
+        int         active  = std::uncaught_exceptions();
         std::string debug;
 
         NodeGuard(int startingDepth, OrgParser* parser, OrgId startId)
@@ -173,7 +175,12 @@ struct OrgParser : public hstd::OperationsTracer {
         NodeGuard(NodeGuard const& other) = delete;
 
         ~NodeGuard() {
-            if (!closed && parser != nullptr && !startId.isNil()) { end(); }
+            // Tree that is abandoned because of an exception might have subtrees
+            // that are still pending, it is not possible to close it properly.
+            if (!closed && parser != nullptr && !startId.isNil()
+                && std::uncaught_exceptions() <= active) {
+                end();
+            }
         }
 
         OrgParser::ParseOk end(
-- 
2.43.0


From be37f287cc85551e1b7e876bba65311c2df47d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:55 +0000
Subject: [PATCH 35/56] fix: build parser node descriptions only when tracing

The guard destructor allocated a string nobody used, failing to do so
terminated the program.
---
 src/haxorg/parse/OrgParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index fab44ee..0094ad4 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -2765,8 +2765,12 @@ OrgParser::ParseOk OrgParser::NodeGuard::end(
     int                line,
     char const*        function) {
     LOGIC_ASSERTION_CHECK_FMT(!startId.isNil(), "Trying to close nil tree");
+    // Full description is only needed for tracing, and this function is also called
+    // from the destructor, where failing to create a string is fatal.
     auto result = parser->end_impl(
-        desc + (debug.empty() ? "" : " for guard '" + debug + "'"), line, function);
+        parser->TraceState && !debug.empty() ? desc + " for guard '" + debug + "'" : desc,
+        line,
+        function);
     LOGIC_ASSERTION_CHECK_FMT(
         parser->treeDepth() == startingDepth,
         "{} != {} at {}:{}",
-- 
2.43.0


From 2d68afd91ac7a1b88de181e73619756db17fe0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:16 +0000
Subject: [PATCH 36/56] fix: report failures of the tree export to a file

---
 src/haxorg/api/SemBaseApi.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/haxorg/api/SemBaseApi.cpp b/src/haxorg/api/SemBaseApi.cpp
index f571f07..a73d67c 100644
--- a/src/haxorg/api/SemBaseApi.cpp
+++ b/src/haxorg/api/SemBaseApi.cpp
@@ -95,8 +95,7 @@ void org::exportToTreeFile(
     org::OrgTreeExportOpts const& opts) {
     ColStream os{};
     treeExportImpl(os, node, opts);
-    std::ofstream file{path};
-    file << os.toString(opts.withColor);
+    writeFile(fs::path{path}, os.toString(opts.withColor));
 }
 
 
-- 
2.43.0


From bf0e60fc7aae60c275d6863c2d07e5f56fb30e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:16 +0000
Subject: [PATCH 37/56] fix: report failures of writing the tree representation

---
 src/haxorg/exporters/exportertree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/haxorg/exporters/exportertree.cpp b/src/haxorg/exporters/exportertree.cpp
index 7d20188..e557b83 100644
--- a/src/haxorg/exporters/exportertree.cpp
+++ b/src/haxorg/exporters/exportertree.cpp
@@ -52,6 +52,11 @@ void ExporterTree::treeRepr(sem::SemId<sem::Org> org, std::filesystem::path cons
         ColStream os{file};
         os.colored = false;
         ExporterTree(os).evalTop(org);
+        file.close();
+        if (!file) {
+            throw FilesystemError::init(
+                fmt::format("Could not write tree repr to file {}", path));
+        }
     } else {
         throw FilesystemError::init(
             fmt::format("Could not open file {} for writing tree repr", path));
-- 
2.43.0


From 7c5e93c311f138169bf923ed3aabf09fac20df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:16 +0000
Subject: [PATCH 38/56] fix: recognize visited files under different spellings
 of the path

Files that include each other through '..' were parsed over and over again.
---
 src/haxorg/api/ParseContext.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 647cde2..3dc31a2 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -295,6 +295,23 @@ namespace {
 
 struct DirectoryParseState {
     UnorderedSet<std::string> visited;
+
+    /// \brief Mark directory entry as visited, return false if it already was. Different
+    /// spellings of the path (`d/../a.org` and `a.org`) refer to the same entry.
+    bool visit(fs::path const& path) {
+        fs::path const full = fs::absolute(path);
+        // Trailing slash in the directory path
+        fs::path const entry = full.has_filename() ? full : full.parent_path();
+        // The entry itself can be a symbolic link, only its parent is resolved
+        auto const key = (fs::weakly_canonical(entry.parent_path()) / entry.filename())
+                             .lexically_normal();
+        if (visited.contains(key.native())) {
+            return false;
+        } else {
+            visited.incl(key.native());
+            return true;
+        }
+    }
 };
 
 void postProcessFileReferences(
@@ -337,11 +354,10 @@ Opt<sem::SemId<Org>> parsePathAux(
     std::shared_ptr<OrgDirectoryParseParameters> const& opts,
     DirectoryParseState&                                state) {
     // _dfmt(path, activeRoot);
-    if (state.visited.contains(path.native())) {
+    if (!state.visit(path)) {
         // _dbg("Already visited");
         return std::nullopt;
     }
-    state.visited.incl(path.native());
 
     if (opts->shouldProcessPath && !opts->shouldProcessPath(path)) {
         // _dbg("Should not process path");
-- 
2.43.0


From 78fb6f9a41a8e6364f73df65ca32dbb138ccd0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:16 +0000
Subject: [PATCH 39/56] fix: resolve relative symlinks from the directory they
 are in

They were looked up in the current directory and silently left out.
---
 src/haxorg/api/ParseContext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 3dc31a2..8f7cdea 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -599,7 +599,8 @@ std::string OrgDirectoryParseParameters::resolveSymlink(std::string const& path)
     if (resolveSymlinkImpl) {
         return resolveSymlinkImpl(path);
     } else {
-        return fs::read_symlink(path);
+        // Relative target is counted from the directory of the link
+        return fs::path{path}.parent_path() / fs::read_symlink(path);
     }
 }
 
-- 
2.43.0


From 5c6a1a0948409cafec1bc0615af984f5beebfa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:16 +0000
Subject: [PATCH 40/56] fix: store included text in the block of the include

The include node itself was treated as the block, parsing of the whole
directory failed.
---
 src/haxorg/api/ParseContext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 8f7cdea..38b53b8 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -450,7 +450,7 @@ void postProcessInclude(
             case sem::CmdInclude::Kind::Src: {
                 LOGIC_ASSERTION_CHECK_FMT(incl.at(0)->is(OrgSemKind::BlockCode), "");
 
-                auto code   = incl.as<sem::BlockCode>();
+                auto code   = incl.at(0).as<sem::BlockCode>();
                 auto source = readFile(full.value());
                 for (auto const& line : split(source, '\n')) {
                     sem::BlockCodeLine lineNode;
@@ -464,10 +464,10 @@ void postProcessInclude(
             case sem::CmdInclude::Kind::Example: {
                 LOGIC_ASSERTION_CHECK_FMT(incl.at(0)->is(OrgSemKind::BlockExample), "");
 
-                auto code   = incl.as<sem::BlockExample>();
+                auto code   = incl.at(0).as<sem::BlockExample>();
                 auto source = readFile(full.value());
                 for (auto const& line : split(source, '\n')) {
-                    auto raw  = sem::SemId<sem::RawText>();
+                    auto raw  = sem::SemId<sem::RawText>::New();
                     raw->text = line;
                     code->push_back(raw);
                 }
@@ -476,7 +476,7 @@ void postProcessInclude(
             case sem::CmdInclude::Kind::Export: {
                 LOGIC_ASSERTION_CHECK_FMT(incl.at(0)->is(OrgSemKind::BlockExport), "");
 
-                auto code     = incl.as<sem::BlockExport>();
+                auto code     = incl.at(0).as<sem::BlockExport>();
                 code->content = readFile(full.value());
                 break;
             }
-- 
2.43.0


From c792d190de7a606fafc648219a1a8cb8e2d7ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:16 +0000
Subject: [PATCH 41/56] fix: resolve references of included files once

References in an included file were resolved again relative to the file that
includes it.
---
 src/haxorg/api/ParseContext.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 38b53b8..4bcae61 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -536,13 +536,22 @@ void postProcessFileReferences(
     sem::OrgArg                                         parsed,
     std::shared_ptr<OrgDirectoryParseParameters> const& opts,
     DirectoryParseState&                                state) {
+    // Resolving a reference adds new subnodes, references in the included files have
+    // already been processed with the path of these files.
+    Vec<sem::SemId<sem::Org>> references;
     org::eachSubnodeRec(parsed, [&](sem::SemId<sem::Org> arg) {
-        if (auto incl = arg.asOpt<sem::CmdInclude>()) {
+        if (arg->is(OrgSemKind::CmdInclude) || arg->is(OrgSemKind::Link)) {
+            references.push_back(arg);
+        }
+    });
+
+    for (auto const& arg : references) {
+        if (arg->is(OrgSemKind::CmdInclude)) {
             postProcessInclude(ctx, arg, path, activeRoot, parsed, opts, state);
-        } else if (auto link = arg.asOpt<sem::Link>()) {
+        } else {
             postProcessFileLink(arg, path, activeRoot, parsed, opts, state);
         }
-    });
+    }
 }
 } // namespace
 
-- 
2.43.0


From 0ce999d6907aba26828eee236feec85d04171879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:16 +0000
Subject: [PATCH 42/56] fix: do not parse the starting file again when it is
 included

---
 src/haxorg/api/ParseContext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 4bcae61..d74fe7e 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -572,6 +572,7 @@ sem::SemId<File> ParseContext::parseFileWithIncludes(
     std::string const&                                  file,
     std::shared_ptr<OrgDirectoryParseParameters> const& opts) {
     DirectoryParseState state;
+    state.visit(file);
     auto parsed = parseFileAux(this, file, fs::path{file}.parent_path(), opts, state);
     if (parsed) {
         return parsed.value();
-- 
2.43.0


From 74384fdf33c39a76ee24938bd23e6e7ac812cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:16 +0000
Subject: [PATCH 43/56] fix: initialize the directory flag of links to files

---
 src/haxorg/api/ParseContext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index d74fe7e..aa6f036 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -374,6 +374,7 @@ Opt<sem::SemId<Org>> parsePathAux(
 
         } else if (opts->isRegularFile(target)) {
             sem::SemId<sem::Symlink> sym = sem::SemId<sem::Symlink>::New();
+            sym->isDirectory             = false;
             sym->absPath                 = target.parent_path().native();
             auto file = parsePathAux(ctx, target, sym->absPath.toBase(), opts, state);
             if (file) { sym->push_back(file.value()); }
-- 
2.43.0


From c1ca16027387d225cf4f8367ab9135a0587c82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:04 +0000
Subject: [PATCH 44/56] fix: report memory failures while splitting comment
 blocks

std::getline turns an exception into the badbit of the stream, so a failing
allocation ended the loop and the rest of the text was dropped silently.
---
 src/haxorg/api/ParseContext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index aa6f036..a80415b 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -23,6 +23,7 @@ hstd::Vec<org::parse::OrgParseFragment> org::parse::extractCommentBlocks(
     Vec<std::string>      lines;
     std::istringstream    stream(text);
     std::string           line;
+    stream.exceptions(std::ios::badbit);
 
     while (std::getline(stream, line)) { lines.push_back(line); }
 
@@ -75,6 +76,7 @@ hstd::Vec<org::parse::OrgParseFragment> org::parse::extractCommentBlocks(
         std::string        processedText;
         std::string        fragmentLine;
         bool               isFirstLine = true;
+        fragmentStream.exceptions(std::ios::badbit);
 
         while (std::getline(fragmentStream, fragmentLine)) {
             if (!isFirstLine) { processedText += "\n"; }
-- 
2.43.0


From 3e9e245c8fddbbbb7a1410bd28c95983f18a4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:04 +0000
Subject: [PATCH 45/56] fix: report memory failures of the YAML text export

A stream catches exceptions of its output functions and only sets its badbit.
A failing allocation cut the text off without an error.
---
 src/haxorg/api/SemBaseApi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/haxorg/api/SemBaseApi.cpp b/src/haxorg/api/SemBaseApi.cpp
index a73d67c..6b329fe 100644
--- a/src/haxorg/api/SemBaseApi.cpp
+++ b/src/haxorg/api/SemBaseApi.cpp
@@ -42,6 +42,7 @@ std::string org::exportToYamlString(
     sem::SemId<sem::Org> const& node,
     OrgYamlExportOpts const&    opts) {
     std::stringstream os;
+    os.exceptions(std::ios::badbit | std::ios::failbit);
 
     org::algo::ExporterYaml exp{
         .skipNullFields  = opts.skipNullFields,
-- 
2.43.0


From 284da65e4ed5719850972ba12dcd4b56a294e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:05 +0000
Subject: [PATCH 46/56] fix: keep the order of subnodes when an edit is
 propagated to the parents

Updated subnodes were sorted by field with an unstable sort, so editing one
word of a paragraph with more than 16 subnodes shuffled the others.
---
 src/haxorg/imm/ImmOrgStore.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/imm/ImmOrgStore.cpp b/src/haxorg/imm/ImmOrgStore.cpp
index 83464fa..02e4533 100644
--- a/src/haxorg/imm/ImmOrgStore.cpp
+++ b/src/haxorg/imm/ImmOrgStore.cpp
@@ -135,8 +135,11 @@ using SubnodeAssignGroup   = hstd::Vec<SubnodeVecAssignPair>;
 /// in one go, since inserting subnode one by one might've overrode the
 /// indexing or other elements.
 SubnodeAssignGroup groupUpdatedSubnodes(Vec<SubnodeAssignTarget> const& updatedSubnodes) {
-    Vec<SubnodeAssignTarget> sortedUpdatedSubnodes = sorted(
-        updatedSubnodes, [](SubnodeAssignTarget const& a, SubnodeAssignTarget const& b) {
+    // Subnodes of the same field must stay in their original order.
+    Vec<SubnodeAssignTarget> sortedUpdatedSubnodes = updatedSubnodes;
+    rs::stable_sort(
+        sortedUpdatedSubnodes,
+        [](SubnodeAssignTarget const& a, SubnodeAssignTarget const& b) {
             return a.first.first().getFieldName().name
                  < b.first.first().getFieldName().name;
         });
-- 
2.43.0


From 60e80e77336901997542e5253ed8867aad1aba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:30 +0000
Subject: [PATCH 47/56] fix: write the evaluation dump only when tracing

Code block evaluation always wrote a debug file to a fixed path in /tmp. When
the file could not be written, all results were lost.
---
 src/haxorg/api/EvalContext.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/haxorg/api/EvalContext.cpp b/src/haxorg/api/EvalContext.cpp
index 784a91a..1a6312a 100644
--- a/src/haxorg/api/EvalContext.cpp
+++ b/src/haxorg/api/EvalContext.cpp
@@ -529,12 +529,14 @@ struct EvalContext {
 #endif
         }
 
-        imm::ImmAdapter::TreeReprConf repr_conf;
-        repr_conf.withAuxFields  = true;
-        repr_conf.withReflFields = true;
-        writeFile(
-            "/tmp/codeblock_eval_final.txt",
-            version.getRootAdapter().treeRepr(repr_conf).toString(false));
+        if (isTraceEnabled()) {
+            imm::ImmAdapter::TreeReprConf repr_conf;
+            repr_conf.withAuxFields  = true;
+            repr_conf.withReflFields = true;
+            writeFile(
+                "/tmp/codeblock_eval_final.txt",
+                version.getRootAdapter().treeRepr(repr_conf).toString(false));
+        }
 
         EVAL_TRACE(
             hstd::fmt("Converting final root result {} back to sem", version.getRoot()));
-- 
2.43.0


From da78276a19a39548b3a24e3607013dfa1c6659a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:04:55 +0000
Subject: [PATCH 48/56] fix: store results of every evaluated code block

The target of a result was looked up with the root of the unevaluated
document. After the first result was stored the root is another one, so
the results of all following blocks were silently dropped.
---
 src/haxorg/api/EvalContext.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/api/EvalContext.cpp b/src/haxorg/api/EvalContext.cpp
index 1a6312a..d4dd089 100644
--- a/src/haxorg/api/EvalContext.cpp
+++ b/src/haxorg/api/EvalContext.cpp
@@ -395,7 +395,10 @@ struct EvalContext {
         imm::ImmUniqId const&              block,
         sem::SemId<sem::Org>               node) {
         EVAL_SCOPE();
-        auto target_id = block.update(version.context->at(block.path));
+        // Results of the previous blocks have changed the root, the path
+        // from the root down to the block is still the same.
+        imm::ImmPath   target_path{version.getRoot(), block.path.path};
+        imm::ImmUniqId target_id{version.context->at(target_path), target_path};
         auto target    = version.context->adapt(target_id);
         auto result    = sem::SemId<sem::BlockCodeEvalResult>::New();
 
-- 
2.43.0


From dc83008a64cfe36e5daf3c7b5f6f12a2290bd4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:56 +0000
Subject: [PATCH 49/56] fix: evaluate several documents with one parse context

Parsed outputs were registered in the parse context with names numbered
from zero in every evaluation, so the second evaluation with a different
output failed with 'Cannot add source with name'.
---
 src/haxorg/api/EvalContext.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/haxorg/api/EvalContext.cpp b/src/haxorg/api/EvalContext.cpp
index d4dd089..7571ad8 100644
--- a/src/haxorg/api/EvalContext.cpp
+++ b/src/haxorg/api/EvalContext.cpp
@@ -253,14 +253,20 @@ struct EvalContext {
         OrgCodeEvalParameters const&  conf) {
         EVAL_SCOPE();
         EVAL_TRACE(hstd::fmt("Parsing stdout"));
-        std::string activeName = hstd::fmt("<{}-output-{}>", currentFile, evalCounter);
-        auto        doc  = conf.parseContext->parseString(out.stdoutText, activeName);
-        auto        stmt = sem::SemId<sem::StmtList>::New();
+        // The parse context can be used for several evaluations, names of
+        // the outputs parsed earlier are already taken.
+        std::string activeName;
+        do {
+            activeName = hstd::fmt("<{}-output-{}>", conf.currentFile, evalCounter);
+            ++evalCounter;
+        } while (
+            conf.parseContext->source->path_ids.get_right(activeName).has_value());
+        auto doc  = conf.parseContext->parseString(out.stdoutText, activeName);
+        auto stmt = sem::SemId<sem::StmtList>::New();
         for (auto const& node : doc) {
             EVAL_TRACE(hstd::fmt("Result node {}", node->getKind()));
             stmt->subnodes.push_back(node);
         }
-        ++evalCounter;
         return stmt;
     }
 
-- 
2.43.0


From 1a54f53cc8a90d4e3b6dcda009b916876d7fa08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:43 +0000
Subject: [PATCH 50/56] fix: hash maps without allocating memory

Hash functions of maps are noexcept but collected the pair hashes in a
vector, so running out of memory while adding a node with attributes to
the immutable store terminated the process.
---
 src/haxorg/imm/ImmOrgHash.hpp | 15 ++++++++-------
 src/hstd/stdlib/Map.hpp       | 15 +++++++--------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/haxorg/imm/ImmOrgHash.hpp b/src/haxorg/imm/ImmOrgHash.hpp
index 1d5b072..4330e4e 100644
--- a/src/haxorg/imm/ImmOrgHash.hpp
+++ b/src/haxorg/imm/ImmOrgHash.hpp
@@ -17,13 +17,14 @@ struct std::hash<hstd::ext::ImmBox<T>> {
 template <typename K, typename V>
 struct std::hash<hstd::ext::ImmMap<K, V>> {
     std::size_t operator()(hstd::ext::ImmMap<K, V> const& it) const noexcept {
-        std::size_t  result = 0;
-        hstd::Vec<K> keys;
-        for (auto const& [key, _] : it) { keys.push_back(key); }
-        hstd::rs::sort(keys);
-        for (auto const& key : keys) {
-            hstd::hax_hash_combine(result, get_std_hash<K>(key));
-            hstd::hax_hash_combine(result, get_std_hash<V>(it[key]));
+        // Sum does not depend on the order of iteration, and hashing must
+        // not allocate: it cannot fail.
+        std::size_t result = 0;
+        for (auto const& [key, value] : it) {
+            std::size_t pair = 0;
+            hstd::hax_hash_combine(pair, get_std_hash<K>(key));
+            hstd::hax_hash_combine(pair, get_std_hash<V>(value));
+            result += pair;
         }
         return result;
     }
diff --git a/src/hstd/stdlib/Map.hpp b/src/hstd/stdlib/Map.hpp
index e9afba3..c94b19f 100644
--- a/src/hstd/stdlib/Map.hpp
+++ b/src/hstd/stdlib/Map.hpp
@@ -261,19 +261,18 @@ struct std_kv_tuple_iterator_hash {
     std::size_t operator()(Type const& it) const noexcept {
         std::size_t result = 0;
 
-        // sort key-value pairs to stabilize the hashing outcome -- if the
-        // unordered map has a different order of iteration it still should
-        // have the same final hash as long as the values in the map are
-        // the same.
-        std::vector<std::size_t> hash_pairs;
+        // The sum of the pair hashes does not depend on the order of
+        // iteration -- if the unordered map has a different order it still
+        // should have the same final hash as long as the values in the map
+        // are the same. Hashing must not allocate: it cannot fail.
+        std::size_t sum = 0;
         for (auto const& [key, value] : it) {
             std::size_t pair = 0;
             hstd::hax_hash_combine(pair, key);
             hstd::hax_hash_combine(pair, value);
-            hash_pairs.push_back(pair);
+            sum += pair;
         }
-        std::sort(hash_pairs.begin(), hash_pairs.end());
-        for (auto const& it : hash_pairs) { hstd::hax_hash_combine(result, it); }
+        hstd::hax_hash_combine(result, sum);
         return result;
     }
 };
-- 
2.43.0


From 6beaefb1b6da5dd77333a7420627040378a133fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:30:27 +0000
Subject: [PATCH 51/56] fix: load the files of the viewer by their path

The text of a file was passed where its path is expected, so loading any
document failed.
---
 src/app/org_viewer/shared_org_logic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/org_viewer/shared_org_logic.cpp b/src/app/org_viewer/shared_org_logic.cpp
index 20dce91..4ecd193 100644
--- a/src/app/org_viewer/shared_org_logic.cpp
+++ b/src/app/org_viewer/shared_org_logic.cpp
@@ -27,7 +27,7 @@ org::sem::SemId<org::sem::Org> loadCachedImmNode(
 
     dir_opts->getParsedNode =
         [&](std::string const& path) -> org::sem::SemId<org::sem::Org> {
-        return parse_context->parseFileOpts(hstd::readFile(path), parse_opts);
+        return parse_context->parseFileOpts(path, parse_opts);
     };
 
     return parse_context->parseDirectoryOpts(infile.string(), dir_opts).value();
-- 
2.43.0


From dd3448a3514b52f659a7af28446074bf0ab730e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:59 +0000
Subject: [PATCH 52/56] fix: compare viewer file times independent of the clock

The time of a file was computed from two readings of the current time and
cut to whole seconds. Unchanged files looked changed when the readings
fell into different seconds, and edits within one second went unnoticed.
---
 src/app/org_viewer/shared_org_logic.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/app/org_viewer/shared_org_logic.cpp b/src/app/org_viewer/shared_org_logic.cpp
index 4ecd193..b1885dc 100644
--- a/src/app/org_viewer/shared_org_logic.cpp
+++ b/src/app/org_viewer/shared_org_logic.cpp
@@ -157,10 +157,11 @@ std::unordered_map<std::string, double> getOrgFileTimes(fs::path const& infile)
 
     auto insert_time = [&](fs::path const& path) {
         auto ftime = fs::last_write_time(path);
-        auto sctp  = std::chrono::time_point_cast<std::chrono::system_clock::duration>(
-            ftime - fs::file_time_type::clock::now() + std::chrono::system_clock::now());
-        auto time_t                  = std::chrono::system_clock::to_time_t(sctp);
-        current_times[path.string()] = static_cast<double>(time_t);
+        // The file time is converted as is, without asking any clock, and
+        // keeps its fraction of a second.
+        std::chrono::duration<double> seconds = std::chrono::file_clock::to_sys(ftime)
+                                                    .time_since_epoch();
+        current_times[path.string()]          = seconds.count();
     };
 
     if (fs::is_directory(infile)) {
-- 
2.43.0


From 2a8be756b02aa4bebbe037432551a79a9aa8d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:33 +0000
Subject: [PATCH 53/56] fix: ignore links to nowhere when collecting viewer
 file times

An editor's lock file next to the documents made the check for changes
and the writing of the cache fail.
---
 src/app/org_viewer/shared_org_logic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/org_viewer/shared_org_logic.cpp b/src/app/org_viewer/shared_org_logic.cpp
index b1885dc..d638a21 100644
--- a/src/app/org_viewer/shared_org_logic.cpp
+++ b/src/app/org_viewer/shared_org_logic.cpp
@@ -166,7 +166,10 @@ std::unordered_map<std::string, double> getOrgFileTimes(fs::path const& infile)
 
     if (fs::is_directory(infile)) {
         for (const auto& entry : fs::directory_iterator(infile)) {
-            if (entry.path().extension() == ".org") { insert_time(entry.path()); }
+            // Lock files of editors are links to nowhere
+            if (entry.path().extension() == ".org" && fs::exists(entry.path())) {
+                insert_time(entry.path());
+            }
         }
     } else if (fs::is_regular_file(infile)) {
         insert_time(infile);
-- 
2.43.0


From c703fc8c80d095f188c4e2dbcc62dcc18b276bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:46:27 +0000
Subject: [PATCH 54/56] fix: let a failing log sink throw out of the log
 builder

The record is sent from the destructor. When a log file could not be
opened, the exception ended the program; a plain log record reports it to
the caller.
---
 src/hstd/ext/logger.cpp | 2 +-
 src/hstd/ext/logger.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/logger.cpp b/src/hstd/ext/logger.cpp
index 4e48970..4a24c1d 100644
--- a/src/hstd/ext/logger.cpp
+++ b/src/hstd/ext/logger.cpp
@@ -606,7 +606,7 @@ sink_ptr hstd::log::set_sink_filter(sink_ptr sink, Func<bool(log_record const&)>
 
 bool ::hstd::log::is_log_accepted(severity_level level) { return true; }
 
-::hstd::log::log_builder::~log_builder() {
+::hstd::log::log_builder::~log_builder() noexcept(false) {
     if (!is_released) {
         if (finalizer) {
             finalizer(*this);
diff --git a/src/hstd/ext/logger.hpp b/src/hstd/ext/logger.hpp
index dec4bf6..d25e12e 100644
--- a/src/hstd/ext/logger.hpp
+++ b/src/hstd/ext/logger.hpp
@@ -464,7 +464,7 @@ struct log_builder {
         return self.line(line).file(file).function(function);
     }
 
-    ~log_builder();
+    ~log_builder() noexcept(false);
 };
 
 struct log_scoped_depth_attr {
-- 
2.43.0


From f32e36b997577646a9152abe0fd338de95f297bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:49 +0000
Subject: [PATCH 55/56] fix: keep the finalizer and the state of a moved log
 builder

A builder that was handed on sent its record past its own filter, and
sent a record again that had been taken out of it before.
---
 src/hstd/ext/logger.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hstd/ext/logger.hpp b/src/hstd/ext/logger.hpp
index d25e12e..ef7c829 100644
--- a/src/hstd/ext/logger.hpp
+++ b/src/hstd/ext/logger.hpp
@@ -429,11 +429,15 @@ struct log_builder {
     log_builder& operator=(log_builder const&) = delete;
 
     log_builder(log_builder&& other) {
+        this->is_released = other.is_released;
+        this->finalizer   = std::move(other.finalizer);
         this->rec         = std::move(other.rec);
         other.is_released = true;
     }
 
     log_builder& operator=(log_builder&& other) {
+        this->is_released = other.is_released;
+        this->finalizer   = std::move(other.finalizer);
         this->rec         = std::move(other.rec);
         other.is_released = true;
         return *this;
-- 
2.43.0


From 632ec3c7dd5c64f11b63a90a3801258cbf122859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:23 +0000
Subject: [PATCH 56/56] fix: end a traced scope once when its handle is moved

A moved handle was copied, and both copies ended the scope.
---
 src/hstd/stdlib/TraceBase.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/TraceBase.hpp b/src/hstd/stdlib/TraceBase.hpp
index 833abf1..7842350 100644
--- a/src/hstd/stdlib/TraceBase.hpp
+++ b/src/hstd/stdlib/TraceBase.hpp
@@ -74,7 +74,14 @@ struct [[refl]] OperationsTracer {
 
     struct ScopeHandle {
         OperationsTracer* tracer;
-        void              start(
+
+        explicit ScopeHandle(OperationsTracer* tracer) : tracer{tracer} {}
+        /// Only one of the handles ends the scope
+        ScopeHandle(ScopeHandle&& other) : tracer{other.tracer} {
+            other.tracer = nullptr;
+        }
+
+        void start(
             Opt<std::string> const& value    = std::nullopt,
             char const*             function = __builtin_FUNCTION(),
             int                     line     = __builtin_LINE(),
-- 
2.43.0

