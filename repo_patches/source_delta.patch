From 3c24a6dc7d0cf74fe14536d3a28b7e9f1d6222e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 01/68] fix: tokenizer must not loop forever on a NUL character

---
 booktest/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index 8e7fa25..b399d19 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -52,7 +52,7 @@ class TestTokenizer:
         if c.isalnum():
             while self.peek().isalnum():
                 self.at = self.at + 1
-        elif c != '\0':
+        else:
             self.at = self.at + 1
         return self.buf[begin:self.at]
 
-- 
2.43.0


From 90ee5d73f1bc3b8b412d018a0ae7b85962e6e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/68] fix: the last, unterminated line of a test must be
 compared and its failures counted

---
 booktest/testcaserun.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 944969e..4cc0015 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -229,6 +229,7 @@ s
         self.ended = time.time()
         self.took_ms = 1000*(self.ended - self.started)
 
+        self.flush_line()
         self.close()
 
         if self.errors != 0:
@@ -462,6 +463,23 @@ s
             self.report(f"  {self.out_line}")
             self.write_line()
 
+    def flush_line(self):
+        """
+        Internal method. Commits the last line, if the test did not end it
+        with a new line, so that its content, differences and failures
+        are not lost.
+        """
+        if len(self.out_line) > 0:
+            self.feed_token("\n", check=self.last_checked)
+        else:
+            # these were marked after the last line
+            if self.line_diff is not None:
+                self.diffs += 1
+                self.line_diff = None
+            if self.line_error is not None:
+                self.errors += 1
+                self.line_error = None
+
     def head_exp_token(self):
         """
         Returns the next token in the snapshot file without moving snapshot file cursor
-- 
2.43.0


From 34c57ff1e38b4a0de1683f713c79cabd88cb9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 03/68] fix: a snapshot without a trailing new line must not
 lose its last character

---
 booktest/testcaserun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 4cc0015..468022b 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -330,7 +330,8 @@ s
                     self.exp_line_number += 1
                 else:
                     self.exp_line_number += 1
-                    self.exp_line = line[0:len(line)-1]
+                    # the last line may lack the new line
+                    self.exp_line = line[:-1] if line.endswith("\n") else line
                     self.exp_tokens =\
                         BufferIterator(TestTokenizer(self.exp_line))
             elif self.last_checked:
-- 
2.43.0


From 96e66142662dda29b0f15bf127726c05d3afcc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 04/68] fix: tset must report a difference for items beyond the
 end of the snapshot

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 468022b..a9637e8 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -791,7 +791,7 @@ s
         """
         compare = None
 
-        if self.exp_line is not None:
+        if self.exp_file_exists:
             begin = self.exp_line_number
             compare = set()
             while (self.exp_line is not None
-- 
2.43.0


From 6f8906bbafac1f4792894fa2f52f535d1fc94c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 05/68] fix: restore the original sys.stderr after a test

---
 booktest/testcaserun.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index a9637e8..d533c7a 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -76,10 +76,6 @@ class TestCaseRun:
         self.log = None
         self.orig_handlers = None
 
-        # swap error
-        self.orig_err = sys.stderr
-        sys.stderr = self.err
-
         # error management
         #
         # let's separate diff from proper failure
-- 
2.43.0


From add8e2209556df18ec761fa46ae542d816c8c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 06/68] fix: a header after an unterminated first line must
 start on a line of its own

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index d533c7a..c7019e7 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -604,7 +604,7 @@ s
         the only difference between this method and anchorln() method is that the
         header is preceded and followed by an empty line.
         """
-        if self.line_number > 0:
+        if self.line_number > 0 or len(self.out_line) > 0:
             check = self.last_checked and self.exp_line is not None
             self.feed_token("\n", check=check)
         self.anchorln(header)
-- 
2.43.0


From dd0627f800459e9217c76f5cac84ddda2a7a30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 07/68] fix: text with carriage returns must match its own
 snapshot

---
 booktest/testcaserun.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index c7019e7..c8f2fd4 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -543,7 +543,7 @@ s
         NOTE: The token content IS COMPARED to snapshot content for differences
         that are reported.
         """
-        tokens = TestTokenizer(str(text))
+        tokens = TestTokenizer(normalize_newlines(str(text)))
         for t in tokens:
             self.test_feed_token(t)
         return self
@@ -556,7 +556,7 @@ s
         NOTE: The token content IS NOT COMPARED to snapshot content, and differences
         are ignored
         """
-        tokens = TestTokenizer(text)
+        tokens = TestTokenizer(normalize_newlines(text))
         for t in tokens:
             self.feed_token(t)
         return self
@@ -947,6 +947,11 @@ s
         return self
 
 
+def normalize_newlines(text):
+    # snapshots are read with universal newlines
+    return text.replace("\r\n", "\n").replace("\r", "\n")
+
+
 def value_format(value):
     value_type = type(value)
     if value_type is list:
-- 
2.43.0


From 5fecd8850825fbaacd8b6a64644f110dc5c9d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:25 +0000
Subject: [PATCH 08/68] fix: rel_path must not relate a sibling directory
 sharing the prefix

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index c8f2fd4..3ad982a 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -177,7 +177,7 @@ class TestCaseRun:
         """
         abs_file = os.path.abspath(file)
         abs_out_base_dir = os.path.abspath(self.out_base_dir)
-        if abs_file[:len(abs_out_base_dir)] == abs_out_base_dir:
+        if abs_file.startswith(os.path.join(abs_out_base_dir, "")):
             return abs_file[len(abs_out_base_dir)+1:]
         else:
             return None
-- 
2.43.0


From 0afcc91e63c80401c8725f92149abea2fcc91932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 09/68] fix: options of one run must not leak into later runs
 of the same process

---
 booktest/tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index b6cb00e..9071dd9 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -366,7 +366,8 @@ class Tests:
         if setup is None:
             setup = BookTestSetup()
 
-        config = get_default_config()
+        # options of this run must not leak into later runs
+        config = dict(get_default_config())
         # extra default configuration parameters get layered
         # on top of normal default configuration
         for key, value in extra_default_config.items():
-- 
2.43.0


From 80044893444252f338cefde158e51d90aa3b2947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 10/68] fix: read the .booktest file in the home directory

---
 booktest/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index e4edc5b..0825bec 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -30,7 +30,7 @@ def parse_config_file(config_file, config):
 def resolve_default_config(config_file):
     rv = {}
     # let home directory .booktest file has lowest priority
-    parse_config_file("~/.booktest", rv)
+    parse_config_file(path.expanduser("~/.booktest"), rv)
     # let config_file defaults have lower priority
     parse_config_file(config_file, rv)
 
-- 
2.43.0


From 6d00418c3f0e0e4ec023d35f5bd758d4e6834c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 11/68] fix: paths with spaces or shell characters must not be
 interpreted by a shell

---
 booktest/review.py      | 11 ++++++-----
 booktest/runs.py        |  5 +++--
 booktest/testcaserun.py |  4 ++--
 booktest/testrun.py     |  2 +-
 booktest/tests.py       |  5 +++--
 5 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 423afe7..0faa253 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -1,5 +1,6 @@
 import os.path as path
 import os
+import shlex
 import shutil
 
 from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, Metrics
@@ -65,20 +66,20 @@ def interact(exp_dir, out_dir, case_name, test_result, config):
             done = True
         elif answer == "v":
             if os.path.exists(exp_file_name):
-                arg = f"{exp_file_name} {out_file_name}"
+                arg = shlex.join([exp_file_name, out_file_name])
             else:
-                arg = out_file_name
+                arg = shlex.quote(out_file_name)
             run_tool(config, "md_viewer", arg)
         elif answer == "l":
-            run_tool(config, "log_viewer", log_file_name)
+            run_tool(config, "log_viewer", shlex.quote(log_file_name))
         elif answer == "d":
             run_tool(config,
                      "diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     shlex.join([exp_file_name, out_file_name]))
         elif answer == "D":
             run_tool(config,
                      "fast_diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     shlex.join([exp_file_name, out_file_name]))
     return rv, user_request
 
 
diff --git a/booktest/runs.py b/booktest/runs.py
index c725ce7..b6ebcb5 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,6 +1,7 @@
 import traceback
 import multiprocessing
 import os
+import shutil
 import threading
 import time
 from collections import defaultdict
@@ -36,7 +37,7 @@ def prepare_batch_dir(out_dir: str):
     _batch_dir = batch_dir(out_dir)
 
     if os.path.exists(_batch_dir):
-        os.system(f"rm -rf {_batch_dir}")
+        shutil.rmtree(_batch_dir, ignore_errors=True)
         os.makedirs(_batch_dir, exist_ok=True)
 
 
@@ -310,7 +311,7 @@ def parallel_run_tests(exp_dir,
 
     exit_code = 0
 
-    os.system(f"mkdir -p {out_dir}")
+    os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
     with open(report_file, "w") as report_f:
diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 3ad982a..8e7b973 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -45,7 +45,7 @@ class TestCaseRun:
 
         # expectation file
         self.exp_base_dir = path.join(run.exp_dir, relative_dir)
-        os.system(f"mkdir -p {self.exp_base_dir}")
+        os.makedirs(self.exp_base_dir, exist_ok=True)
         self.exp_file_name = path.join(self.exp_base_dir, name + ".md")
         self.exp_dir_name = path.join(self.exp_base_dir, name)
         self.exp_file_exists = path.exists(self.exp_file_name)
@@ -56,7 +56,7 @@ class TestCaseRun:
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
-        os.system(f"mkdir -p {self.out_base_dir}")
+        os.makedirs(self.out_base_dir, exist_ok=True)
         self.out_file_name = path.join(self.out_base_dir, name + ".md")
         self.out_dir_name = path.join(self.out_base_dir, name)
         self.out_tmp_dir_name = path.join(self.out_base_dir, name + ".tmp")
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 66c133d..284d69a 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -122,7 +122,7 @@ class TestRun:
         oks = 0
         fails = 0
         tests = 0
-        os.system(f"mkdir -p {self.report_dir}")
+        os.makedirs(self.report_dir, exist_ok=True)
         report_file = path.join(self.report_dir, "cases.txt")
 
         # 1.2. To continue testing, we need to read
diff --git a/booktest/tests.py b/booktest/tests.py
index 9071dd9..d795424 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -1,6 +1,7 @@
 import os.path as path
 import os
 import argparse
+import shlex
 
 from coverage import Coverage
 
@@ -457,7 +458,7 @@ class Tests:
             for name in todo:
                 file = path.join(exp_dir, f"{name}.md")
                 if path.exists(file):
-                    os.system(f"cat {file}")
+                    os.system(f"cat {shlex.quote(file)}")
             return 0
         elif cmd == '--path':
             for name in todo:
@@ -471,7 +472,7 @@ class Tests:
                 if path.exists(file):
                     files.append(file)
             if len(files) > 0:
-                return run_tool(config, "md_viewer", " ".join(files))
+                return run_tool(config, "md_viewer", shlex.join(files))
             else:
                 return 0
         elif cmd == '--clean':
-- 
2.43.0


From 43626af03a89f64cdc936443fe7b4a9f6c16a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 12/68] fix: parallel runs must not accept the same result
 twice

---
 booktest/runs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index b6ebcb5..bc8be50 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -147,6 +147,9 @@ class ParallelRunner:
         job_config["continue"] = False
         job_config["interactive"] = False
         job_config["always_interactive"] = False
+        # the results are reviewed and accepted by the main process
+        job_config["update"] = False
+        job_config["accept"] = False
 
         self.batches_dir = batches_dir
         self.run_batch = RunBatch(exp_dir, out_dir, tests, job_config, setup)
-- 
2.43.0


From cd3e10deaee6b5cc54338503c0e84a327b5eaa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 13/68] fix: a parallel job, that fails without a report, must
 be reported as a failed case

---
 booktest/reports.py | 2 +-
 booktest/runs.py    | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index a764841..f4d97bb 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -167,7 +167,7 @@ class CaseReports:
     def make_case(case_name,
                   res: TestResult,
                   duration):
-        return (case_name, res.name, duration)
+        return (case_name, res, duration)
 
     def to_dir(self, out_dir):
         report_file = os.path.join(out_dir, "cases.txt")
diff --git a/booktest/runs.py b/booktest/runs.py
index bc8be50..6c0abb1 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -76,6 +76,7 @@ class RunBatch:
                 "output.txt")
 
         output = open(output_file, "w")
+        rv = test_result_to_exit_code(TestResult.FAIL)
 
         try:
             run = TestRun(
@@ -232,8 +233,10 @@ class ParallelRunner:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                if os.path.exists(report_file):
-                    reports.append(CaseReports.of_file(report_file).cases[0])
+                # the report is missing or empty, if the job itself failed
+                cases = CaseReports.of_file(report_file).cases
+                if len(cases) > 0:
+                    reports.append(cases[0])
                 else:
                     reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))
 
-- 
2.43.0


From 44ac8b216f896b9b584c24cc783a212e9e0070f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 14/68] fix: an interrupted parallel run must not exit with
 success

---
 booktest/runs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index 6c0abb1..cd188c1 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -364,6 +364,7 @@ def parallel_run_tests(exp_dir,
                         duration)
 
             except KeyboardInterrupt as e:
+                exit_code = -1
                 runner.abort()
                 for i in runner.todo - runner.done:
                     print(f"  {i}..interrupted")
-- 
2.43.0


From c28fe7d907d8b3e7e8794d71a338efef706a2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 15/68] fix: a result that cannot be pickled must fail its test
 only, and results are stored atomically

---
 booktest/testrun.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 284d69a..15f7956 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -75,15 +75,18 @@ class TestRun:
 
         return False, None
 
-    def save_test_result(self, case_path, result):
+    def save_test_result(self, case_path, result, data):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
         if result is None:
             if path.exists(bin_path):
                 os.remove(bin_path)
         else:
-            with open(bin_path, 'wb') as file:
-                pickle.dump(result, file)
+            # replace the file at once to not leave it half written
+            tmp_path = bin_path + ".tmp"
+            with open(tmp_path, 'wb') as file:
+                file.write(data)
+            os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
@@ -94,15 +97,18 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
+            # a result, that cannot be stored, fails the test
+            data = pickle.dumps(rv)
         except Exception as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
+            data = None
 
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
             # if the test case return a value, store it in a cache
-            self.save_test_result(case_path, rv)
+            self.save_test_result(case_path, rv, data)
 
         return result, interaction, t.took_ms
 
-- 
2.43.0


From acbad6b031bfa0065c143b00fd38d9c53ff6e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 16/68] fix: a test that calls sys.exit must fail instead of
 ending the run

---
 booktest/testrun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 15f7956..4ebb865 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -99,7 +99,7 @@ class TestRun:
                 rv = case(t)
             # a result, that cannot be stored, fails the test
             data = pickle.dumps(rv)
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
-- 
2.43.0


From a79a3445a18f8f3a3608b25972287fbfaba4852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 17/68] fix: dependencies must get their values also with
 NoCache

---
 booktest/cache.py   | 3 +++
 booktest/testrun.py | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/booktest/cache.py b/booktest/cache.py
index 886ff18..c66212a 100644
--- a/booktest/cache.py
+++ b/booktest/cache.py
@@ -42,6 +42,9 @@ class NoCache:
     def __len__(self):
         return 0
 
+    def __contains__(self, key):
+        return False
+
     def __getitem__(self, key):
         return None
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 4ebb865..f135403 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -61,7 +61,9 @@ class TestRun:
             # a bit hacky way for figuring out the dependencies
             if match_method(method, t[1]):
                 bin_path = self.tests.test_result_path(self.out_dir, t[0])
-                if bin_path not in self.cache:
+                if bin_path in self.cache:
+                    rv = self.cache[bin_path]
+                else:
                     if path.exists(bin_path):
                         with open(bin_path, 'rb') as file:
                             rv = pickle.load(file)
@@ -71,7 +73,7 @@ class TestRun:
                             f"case {case.name} dependency {t[0]}" +
                             f" missing in '{bin_path}'")
 
-                return True, self.cache[bin_path]
+                return True, rv
 
         return False, None
 
-- 
2.43.0


From d467d85c904944fdf18b36d14f4f9c10b38bf67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 18/68] fix: env decorators must restore variables that are
 unset, and restore them when a snapshot is missing

---
 booktest/env.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f21b060..a247dfe 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -40,24 +40,29 @@ class SnapshotEnv:
             if name in self.snaphots:
                 value = self.snaphots[name]
                 if value is None:
-                    del os.environ[name]
+                    os.environ.pop(name, None)
                 else:
                     os.environ[name] = self.snaphots[name]
                 self.capture[name] = value
             elif self.complete_snapshots or self.refresh_snapshots:
                 self.capture[name] = old_value
             else:
+                # leave no partially changed environment behind
+                self.restore()
                 raise Exception(
                     f"missing env snapshot '{name}'. "
                     "try running booktest with '-s' flag to capture the missing snapshot")
 
-    def stop(self):
+    def restore(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
+    def stop(self):
+        self.restore()
+
         with open(self.snapshot_out_path, "w") as f:
             json.dump(self.capture, f, indent=4)
 
@@ -115,15 +120,13 @@ class MockMissingEnv:
             self._old_env[name] = old_value
 
             if old_value is None:
-                if value is None:
-                    del os.environ[name]
-                else:
+                if value is not None:
                     os.environ[name] = value
 
     def stop(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
-- 
2.43.0


From 2aef97758bf0034f9c910a8fcd743dc7a03598b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 19/68] fix: mock_missing_env must not mock variables when
 snapshots are captured

---
 booktest/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index a247dfe..40635ca 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -119,7 +119,7 @@ class MockMissingEnv:
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
 
-            if old_value is None:
+            if old_value is None and self._do_mock:
                 if value is not None:
                     os.environ[name] = value
 
-- 
2.43.0


From c6dc3434f7dfeea4039873ced9f7bf2fb130849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 20/68] fix: replayed requests responses must have case
 insensitive headers, url and reason

---
 booktest/requests.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 1814743..4acdcea 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -1,11 +1,13 @@
 import contextlib
 import functools
 import hashlib
+import http.client
 import os
 import types
 import booktest as bt
 import requests
 from requests import adapters
+from requests.structures import CaseInsensitiveDict
 import json
 import threading
 import sys
@@ -142,10 +144,11 @@ class RequestSnapshot:
         response_json = json_object["response"]
 
         response = requests.Response()
-        response.headers = response_json["headers"]
+        response.headers = CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
         response._content = response_json["content"].encode()
+        response._content_consumed = True
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -219,6 +222,13 @@ class SnapshotAdapter(adapters.BaseAdapter):
         if rv is None:
             rv = adapters.HTTPAdapter().send(request)
             self.requests.append(RequestSnapshot(key, rv))
+        else:
+            # the replayed response needs to relate to the sent request,
+            # e.g. for redirects to be followed
+            rv.request = request
+            rv.url = request.url
+            rv.reason = http.client.responses.get(rv.status_code)
+            rv.connection = self
 
         return rv
 
-- 
2.43.0


From d46709e594c0c61a3fa8a883b11a9b2215450eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 21/68] fix: httpx snapshots with binary content must be
 replayable

---
 booktest/httpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c59a675..2a5561c 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -137,7 +137,7 @@ class RequestSnapshot:
                          json_to_hash=None):
         response_json = json_object["response"]
 
-        content = base64.b64decode(response_json["content"].encode("ascii")).decode("utf-8")
+        content = base64.b64decode(response_json["content"].encode("ascii"))
 
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-- 
2.43.0


From e916029e98fb2ab5fe6d0b874d194c302605249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 22/68] fix: requests snapshots must support binary content

---
 booktest/requests.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 4acdcea..7ddfaa2 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -147,7 +147,10 @@ class RequestSnapshot:
         response.headers = CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
-        response._content = response_json["content"].encode()
+        if response_json.get("contentEncoding") == "base64":
+            response._content = base64.b64decode(response_json["content"])
+        else:
+            response._content = response_json["content"].encode()
         response._content_consumed = True
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
@@ -160,9 +163,14 @@ class RequestSnapshot:
                 "headers": dict(self.response.headers),
                 "statusCode": self.response.status_code,
                 "encoding": self.response.encoding,
-                "content": self.response.content.decode()
             }
         }
+        try:
+            rv["response"]["content"] = self.response.content.decode()
+        except UnicodeDecodeError:
+            # binary content cannot be stored as text
+            rv["response"]["content"] = base64.b64encode(self.response.content).decode("ascii")
+            rv["response"]["contentEncoding"] = "base64"
 
         return rv
 
-- 
2.43.0


From c75c2f3a711100cdb7029eba4de3db241501ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 23/68] fix: repeated requests must respect the custom
 json_to_hash

---
 booktest/httpx.py    | 12 +++++++++++-
 booktest/requests.py | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 2a5561c..047ae6b 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -29,6 +29,8 @@ class RequestKey:
                  json_object,
                  ignore_headers=True,
                  json_to_hash=None):
+        self.json_to_hash = json_to_hash
+
         if json_to_hash is None:
             json_to_hash = json_to_sha1
 
@@ -63,7 +65,15 @@ class RequestKey:
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        if self.json_to_hash is not None:
+            # the custom hash decides, which requests are the same
+            unordered = copy.deepcopy(json_object)
+            del unordered["order"]
+            json_object["hash"] = json_to_sha1({
+                "hash": self.json_to_hash(unordered),
+                "order": prev_order + 1
+            })
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
diff --git a/booktest/requests.py b/booktest/requests.py
index 7ddfaa2..771ed54 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -41,6 +41,8 @@ class RequestKey:
                  json_object,
                  ignore_headers=True,
                  json_to_hash=None):
+        self.json_to_hash = json_to_hash
+
         if json_to_hash is None:
             json_to_hash = json_to_sha1
 
@@ -75,7 +77,15 @@ class RequestKey:
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        if self.json_to_hash is not None:
+            # the custom hash decides, which requests are the same
+            unordered = copy.deepcopy(json_object)
+            del unordered["order"]
+            json_object["hash"] = json_to_sha1({
+                "hash": self.json_to_hash(unordered),
+                "order": prev_order + 1
+            })
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
-- 
2.43.0


From 0a43df8f3174b24abdbc1c05efaa16ad81816a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 24/68] fix: concurrent identical httpx requests must all be
 captured

---
 booktest/httpx.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 047ae6b..e84dbfa 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -259,8 +259,15 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = self._real_handle_request(transport, request)
-            self.requests.append(RequestSnapshot(key, rv))
+            # reserve the key, as the same request can be sent again before the response
+            snapshot = RequestSnapshot(key, None)
+            self.requests.append(snapshot)
+            try:
+                rv = self._real_handle_request(transport, request)
+                snapshot.response = rv
+            finally:
+                if snapshot.response is None:
+                    self.requests.remove(snapshot)
 
         return rv
 
@@ -268,8 +275,15 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = await self._real_handle_async_request(transport, request)
-            self.requests.append(RequestSnapshot(key, rv))
+            # reserve the key, as the same request can be sent again before the response
+            snapshot = RequestSnapshot(key, None)
+            self.requests.append(snapshot)
+            try:
+                rv = await self._real_handle_async_request(transport, request)
+                snapshot.response = rv
+            finally:
+                if snapshot.response is None:
+                    self.requests.remove(snapshot)
 
         return rv
 
-- 
2.43.0


From b350de321f4c5a7117d6ab79ae2aee27c8bd5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 25/68] fix: text written in pieces within one word must match
 its own snapshot

---
 booktest/testcaserun.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 8e7b973..d31c5d0 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -53,6 +53,8 @@ class TestCaseRun:
         self.exp_line = None
         self.exp_line_number = None
         self.exp_tokens = None
+        # the rest of the token, when text has matched only its beginning
+        self.exp_rest = None
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
@@ -316,6 +318,9 @@ s
         """
         Moves snapshot reader cursor to the next snapshot file line
         """
+        if self.exp_rest is not None:
+            self.diff()
+            self.exp_rest = None
         if self.exp_file_exists:
             if self.exp:
                 line = self.exp.readline()
@@ -515,12 +520,26 @@ s
         to the test stream.
         """
 
-        exp_token = self.next_exp_token()
+        rest = self.exp_rest
+        self.exp_rest = None
+        if rest is not None and check and token != '\n':
+            # the previous text was only the beginning of a token, so this text
+            # must continue it. it may extend to the following tokens
+            while len(rest) < len(token) and self.exp_tokens.has_next():
+                rest += next(self.exp_tokens)
+            exp_token = rest
+        else:
+            if rest is not None:
+                self.diff()
+            exp_token = self.next_exp_token()
         self.last_checked = check
         if self.exp_file_exists \
            and token != exp_token \
            and check:
-            self.diff()
+            if exp_token is not None and exp_token.startswith(token):
+                self.exp_rest = exp_token[len(token):]
+            else:
+                self.diff()
         if token == '\n':
             self.commit_line()
         else:
-- 
2.43.0


From d5e1b3daaac1c02499ac4a454373cde054861159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 26/68] fix: dependencies returning None must get their value
 in later runs and other processes

---
 booktest/testrun.py | 14 +++++---------
 booktest/tests.py   |  8 +++++++-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index f135403..8f091aa 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -80,15 +80,11 @@ class TestRun:
     def save_test_result(self, case_path, result, data):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
-        if result is None:
-            if path.exists(bin_path):
-                os.remove(bin_path)
-        else:
-            # replace the file at once to not leave it half written
-            tmp_path = bin_path + ".tmp"
-            with open(tmp_path, 'wb') as file:
-                file.write(data)
-            os.replace(tmp_path, bin_path)
+        # replace the file at once to not leave it half written
+        tmp_path = bin_path + ".tmp"
+        with open(tmp_path, 'wb') as file:
+            file.write(data)
+        os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
diff --git a/booktest/tests.py b/booktest/tests.py
index d795424..76d45a4 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -1,6 +1,7 @@
 import os.path as path
 import os
 import argparse
+import pickle
 import shlex
 
 from coverage import Coverage
@@ -54,7 +55,12 @@ class Tests:
         return path.join(out_dir, case_path + ".bin")
 
     def test_result_exists(self, out_dir, case_path):
-        return path.exists(self.test_result_path(out_dir, case_path))
+        bin_path = self.test_result_path(out_dir, case_path)
+        if not path.exists(bin_path):
+            return False
+        # a test, that returned nothing, is rerun when depended on
+        with open(bin_path, 'rb') as file:
+            return file.read(16) != pickle.dumps(None)
 
     def get_case(self, case_name):
         for s in self.cases:
-- 
2.43.0


From 547e4b654cb926a5030f062fcfd58ee9520c8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 27/68] fix: reviewing an accepted case destroyed its snapshot
 files and raised

---
 booktest/review.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/booktest/review.py b/booktest/review.py
index 0faa253..80419ed 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -117,7 +117,11 @@ def case_review(exp_dir, out_dir, case_name, test_result, config):
     auto_update = config.get("update", False)
     auto_freeze = config.get("accept", False)
 
-    if (interaction == UserRequest.FREEZE or
+    # the output is gone, if it has been accepted already
+    has_output = path.exists(os.path.join(out_dir, case_name + ".md"))
+
+    if has_output and \
+       (interaction == UserRequest.FREEZE or
        (rv == TestResult.OK and auto_update) or
        (rv == TestResult.DIFF and auto_freeze)):
         freeze_case(exp_dir, out_dir, case_name)
-- 
2.43.0


From 1e9d22ff3f1fec4b25e1996693b8ac4223025a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 28/68] fix: dependencies on functions decorated with
 decorate_tests were not found

---
 booktest/testrun.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 8f091aa..63df837 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -28,7 +28,14 @@ def method_identity(method):
 def match_method(matcher, method):
     matcher_self, matcher_func = method_identity(matcher)
     method_self, method_func = method_identity(method)
-    return matcher_func == method_func and (matcher_self == method_self or matcher_self is None)
+    if matcher_self is not None and matcher_self != method_self:
+        return False
+    # the method may have been decorated after it was depended on
+    while matcher_func != method_func:
+        if not hasattr(method_func, "_original_function"):
+            return False
+        method_func = method_func._original_function
+    return True
 
 
 class TestRun:
-- 
2.43.0


From 2a562791a5c85b50379c902a02a00097d0f4c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 29/68] fix: nested snapshot_env decorators must not lose each
 other's captures

---
 booktest/env.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index 40635ca..6c12dc6 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -63,8 +63,15 @@ class SnapshotEnv:
     def stop(self):
         self.restore()
 
+        capture = {}
+        # the test may have several decorators, keep what the inner ones captured
+        if os.path.exists(self.snapshot_out_path):
+            with open(self.snapshot_out_path, "r") as f:
+                capture = json.load(f)
+        capture.update(self.capture)
+
         with open(self.snapshot_out_path, "w") as f:
-            json.dump(self.capture, f, indent=4)
+            json.dump(capture, f, indent=4)
 
     def t_snapshots(self):
         self.t.h1("env snaphots:")
-- 
2.43.0


From 61ab461fcdcbdbaed9890060df456166adab9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 30/68] fix: a test that changes the result of a snapshotted
 function changed the snapshot

---
 booktest/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 1cdb85a..283aa68 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -135,7 +135,8 @@ class SnapshotFunctions:
             if snapshot.match(call):
                 if snapshot not in self.calls:
                     self.calls.append(snapshot)
-                return snapshot.result
+                # the test may change the object it gets
+                return copy.deepcopy(snapshot.result)
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for function call {call.func()} - {call.hash}. "
@@ -145,7 +146,7 @@ class SnapshotFunctions:
 
         # remove old version, it may have been timeout
         self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, rv))
+        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
 
         return rv
 
-- 
2.43.0


From 443b719248ef0dd0537b9f90249831f07a69a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 31/68] fix: a test ended by an interrupt left stderr and
 logging swapped

---
 booktest/testrun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 63df837..b62ab52 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -109,6 +109,10 @@ class TestRun:
             t.iln(traceback.format_exc())
             rv = None
             data = None
+        except BaseException:
+            # the run ends here, e.g. by Ctrl-C: leave stderr and logging as they were
+            t.close()
+            raise
 
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
-- 
2.43.0


From cb09e1eec299f3b0c4e8c5a30db640bac80b431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:22 +0000
Subject: [PATCH 32/68] fix: a parallel run that the user quit must not exit
 with zero when recorded cases differ or fail

---
 booktest/runs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index cd188c1..1f57062 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -378,6 +378,8 @@ def parallel_run_tests(exp_dir,
 
                 # add already processed, but not interacted reports
                 for case_name, result, duration in runner.done_reports():
+                    if result != TestResult.OK:
+                        exit_code = -1
                     report_case_begin(print,
                                       case_name,
                                       None,
-- 
2.43.0


From 0d98f9975f6d0287f502d9cbb0910f83968219c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 33/68] fix: importing the class TestBook into a test module
 must not add a failing test

---
 booktest/detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index a30331f..a0bd76a 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -67,7 +67,8 @@ def parse_test_file(root, f):
     for name in dir(module):
         member = getattr(module, name)
         if isinstance(member, type) and \
-                issubclass(member, bt.TestBook):
+                issubclass(member, bt.TestBook) and \
+                member is not bt.TestBook:
             member_signature = signature(member)
             needed_arguments = 0
             for parameter in member_signature.parameters.values():
-- 
2.43.0


From a78885ec949933c5b10373c207d126be1064773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 34/68] fix: a test book imported into another test module must
 not be listed twice in the index

---
 booktest/review.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/review.py b/booktest/review.py
index 80419ed..58fa04d 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -253,7 +253,8 @@ def create_index(dir, case_names):
 
         write("# Books overview:\n")
         domain = []
-        for name in case_names:
+        # a test book imported into several modules has its cases several times
+        for name in dict.fromkeys(case_names):
             names = name.split("/")
 
             name_domain = names[:(len(names) - 1)]
-- 
2.43.0


From fae990c12c69c1f382359c7ee2dcc6c7cad9e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:08 +0000
Subject: [PATCH 35/68] fix: --print must not take a books path that begins
 with a dash for an option

---
 booktest/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index 76d45a4..2b44ce4 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -464,7 +464,7 @@ class Tests:
             for name in todo:
                 file = path.join(exp_dir, f"{name}.md")
                 if path.exists(file):
-                    os.system(f"cat {shlex.quote(file)}")
+                    os.system(f"cat -- {shlex.quote(file)}")
             return 0
         elif cmd == '--path':
             for name in todo:
-- 
2.43.0


From 70a54c7cf37bf822442bcf791ad947c4f9997a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:34 +0000
Subject: [PATCH 36/68] fix: a record a killed run left half-written made every
 later run fail with UnicodeDecodeError

---
 booktest/reports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index f4d97bb..82cdd75 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -47,7 +47,8 @@ def read_lines(path, filename=None):
     else:
         file = os.path.join(path, filename)
     if os.path.exists(file):
-        with open(file, "r") as f:
+        # a killed run may leave the last character half-written
+        with open(file, "r", errors="replace") as f:
             rv = f.read().split("\n")
             if len(rv) > 0 and len(rv[len(rv)-1]) == 0:
                 # remove empty trailing line
-- 
2.43.0


From 191ff03cd9c003de4b62c45a6d962f54c5e9f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:03 +0000
Subject: [PATCH 37/68] fix: a snapshot with invalid UTF-8 ended the whole run
 without records

---
 booktest/testcaserun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index d31c5d0..a31fcf5 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -114,7 +114,8 @@ class TestCaseRun:
         """ Resets the reader that reads expectation / snapshot file """
         self.close_exp_reader()
         if self.exp_file_exists:
-            self.exp = open(self.exp_file_name, "r")
+            # damaged text differs, it does not end the run
+            self.exp = open(self.exp_file_name, "r", errors="backslashreplace")
         else:
             self.exp = None
         self.exp_line = None
-- 
2.43.0


From 9d6663d9c8bced978c3dbdf85dbbb2e84e7c22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 38/68] fix: a mocked or replayed variable, that cannot be set,
 left the earlier ones changed

---
 booktest/env.py | 50 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index 6c12dc6..65a64e9 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -34,6 +34,14 @@ class SnapshotEnv:
             raise ValueError("already started")
 
         self._old_env = {}
+        try:
+            self.replay()
+        except BaseException:
+            # leave no partially changed environment behind
+            self.restore()
+            raise
+
+    def replay(self):
         for name in self.names:
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
@@ -47,8 +55,6 @@ class SnapshotEnv:
             elif self.complete_snapshots or self.refresh_snapshots:
                 self.capture[name] = old_value
             else:
-                # leave no partially changed environment behind
-                self.restore()
                 raise Exception(
                     f"missing env snapshot '{name}'. "
                     "try running booktest with '-s' flag to capture the missing snapshot")
@@ -122,13 +128,18 @@ class MockMissingEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
-
-            if old_value is None and self._do_mock:
-                if value is not None:
-                    os.environ[name] = value
+        try:
+            for name, value in self.env.items():
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
+
+                if old_value is None and self._do_mock:
+                    if value is not None:
+                        os.environ[name] = value
+        except BaseException:
+            # leave no partially changed environment behind
+            self.stop()
+            raise
 
     def stop(self):
         for name, value in self._old_env.items():
@@ -172,15 +183,20 @@ class MockEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+        try:
+            for name, value in self.env.items():
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
 
-            if value is None:
-                if name in os.environ:
-                    del os.environ[name]
-            else:
-                os.environ[name] = value
+                if value is None:
+                    if name in os.environ:
+                        del os.environ[name]
+                else:
+                    os.environ[name] = value
+        except BaseException:
+            # leave no partially changed environment behind
+            self.stop()
+            raise
 
     def stop(self):
         for name, value in self._old_env.items():
-- 
2.43.0


From f5308fa02f1572d95be594a1943956b201352cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:19 +0000
Subject: [PATCH 39/68] fix: reviewing without or with damaged metrics crashed

---
 booktest/review.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 58fa04d..2e1b3b8 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -283,7 +283,11 @@ def review(exp_dir,
            config,
            passed,
            cases=None):
-    metrics = Metrics.of_dir(out_dir)
+    try:
+        took_ms = Metrics.of_dir(out_dir).took_ms
+    except (OSError, ValueError, KeyError, TypeError):
+        # there is no run, or it was interrupted
+        took_ms = 0
     report_txt = os.path.join(out_dir, "cases.txt")
     case_reports = CaseReports.of_file(report_txt)
 
@@ -332,6 +336,6 @@ def review(exp_dir,
     end_report(print,
                updated_case_reports.failed(),
                len(updated_case_reports.cases),
-               metrics.took_ms)
+               took_ms)
 
     return rv
-- 
2.43.0


From 4e15cd73ebb2948249ed7b0b97255771685ecc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:26 +0000
Subject: [PATCH 40/68] fix: text that cannot be encoded ended the whole run

---
 booktest/testcaserun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index a31fcf5..a39183e 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -968,6 +968,8 @@ s
 
 
 def normalize_newlines(text):
+    # surrogates, e.g. of undecodable file names, cannot be stored
+    text = text.encode("utf-8", "backslashreplace").decode("utf-8")
     # snapshots are read with universal newlines
     return text.replace("\r\n", "\n").replace("\r", "\n")
 
-- 
2.43.0


From 12ff86ca50f14effe46e9d45ce9d70fff55f0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:33 +0000
Subject: [PATCH 41/68] fix: an exception, whose message cannot be made, ended
 the whole run

---
 booktest/testrun.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index b62ab52..9d6a08e 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -105,7 +105,11 @@ class TestRun:
             # a result, that cannot be stored, fails the test
             data = pickle.dumps(rv)
         except (Exception, SystemExit) as e:
-            t.iln().fail().iln(f"test raised exception {e}:")
+            try:
+                message = str(e)
+            except Exception as e2:
+                message = f"{type(e).__name__} ({type(e2).__name__} in its message)"
+            t.iln().fail().iln(f"test raised exception {message}:")
             t.iln(traceback.format_exc())
             rv = None
             data = None
-- 
2.43.0


From 748292ef2659e92d716b0df08672a0716415996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 42/68] fix: an accepted capture of a repeated function call
 differed on its replay

---
 booktest/functions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 283aa68..9320552 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -144,9 +144,13 @@ class SnapshotFunctions:
 
         rv = func(*args, **kwargs)
 
-        # remove old version, it may have been timeout
-        self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
+        # replace old version, it may have been timeout. it keeps its
+        # place, as the calls are listed in the same order on replay
+        captured = FunctionCallSnapshot(call, copy.deepcopy(rv))
+        if captured in self.calls:
+            self.calls[self.calls.index(captured)] = captured
+        else:
+            self.calls.append(captured)
 
         return rv
 
-- 
2.43.0


From fa15d421ebf61a02fac033591316db5e64ccb8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 43/68] fix: a damaged function snapshot left the functions
 replaced

---
 booktest/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 9320552..6244df0 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -205,8 +205,11 @@ class SnapshotFunctions:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.t_snapshots()
-        self.stop()
+        try:
+            self.t_snapshots()
+        finally:
+            # the functions are restored in any case
+            self.stop()
 
 
 def snapshot_functions(*snapshot_funcs):
-- 
2.43.0


From 45da0ed100c91f917d291b96f50164f2dade8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 44/68] fix: a coverage report that cannot be made no longer
 hides the results of the run

---
 booktest/tests.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index 2b44ce4..8edcec3 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -3,8 +3,10 @@ import os
 import argparse
 import pickle
 import shlex
+import sys
 
 from coverage import Coverage
+from coverage.exceptions import CoverageException
 
 from booktest.cache import LruCache
 from booktest.dependencies import bind_dependent_method_if_unbound
@@ -539,9 +541,16 @@ class Tests:
                     cov.save()
                     cov.combine()
 
-                    cov.xml_report(outfile="coverage.xml")
+                    try:
+                        cov.xml_report(outfile="coverage.xml")
+                        reported = True
+                    except CoverageException as e:
+                        # this must not hide the results of the run
+                        print(f"coverage report failed: {e}", file=sys.stderr)
+                        reported = False
 
-                cov.report()
+                if reported:
+                    cov.report()
 
                 return rv
             else:
-- 
2.43.0


From a96690f15e016fddad09f2dbac303905f69d9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:57 +0000
Subject: [PATCH 45/68] fix: Ctrl-C interrupts the running test instead of
 being delayed until a test awaits something

---
 booktest/testrun.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 9d6a08e..99969a4 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -2,6 +2,8 @@ import asyncio
 import inspect
 import os.path as path
 import os
+import signal
+import threading
 import time
 import traceback
 import pickle
@@ -210,4 +212,17 @@ class TestRun:
         return rv
 
     def run(self):
-        return asyncio.run(self.run_async())
+        if threading.current_thread() is not threading.main_thread() or \
+           signal.getsignal(signal.SIGINT) is not signal.default_int_handler:
+            return asyncio.run(self.run_async())
+
+        # asyncio.run() replaces the default handler by one, that delays Ctrl-C
+        # until the tests await something. other handlers are left alone
+        def interrupt(signum, frame):
+            raise KeyboardInterrupt()
+
+        signal.signal(signal.SIGINT, interrupt)
+        try:
+            return asyncio.run(self.run_async())
+        finally:
+            signal.signal(signal.SIGINT, signal.default_int_handler)
-- 
2.43.0


From 4185f647f233aa1f7d34c8eb027f40e6075b7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 46/68] fix: Ctrl-C in a terminal no longer makes a parallel
 run hang, as it ended the workers in the middle of their jobs

---
 booktest/runs.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 1f57062..fb24d1e 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -2,6 +2,7 @@ import traceback
 import multiprocessing
 import os
 import shutil
+import signal
 import threading
 import time
 from collections import defaultdict
@@ -106,6 +107,13 @@ def case_batch_dir_and_report_file(batches_dir, name):
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
 
+def start_worker():
+    # Ctrl-C is for the main process, which waits for the jobs of its workers
+    signal.signal(signal.SIGINT, signal.SIG_IGN)
+    import coverage
+    coverage.process_startup()
+
+
 class ParallelRunner:
 
     def __init__(self,
@@ -269,9 +277,8 @@ class ParallelRunner:
             time.sleep(0.01)
 
     def __enter__(self):
-        import coverage
         self.finished = False
-        self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=coverage.process_startup)
+        self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=start_worker)
         self.pool.__enter__()
 
         self.thread = threading.Thread(target=self.thread_function)
-- 
2.43.0


From 97a0b6cf3489a93baa26fd195c8167ff1fe04c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:02 +0000
Subject: [PATCH 47/68] fix: httpx requests of several threads were captured
 under one key

---
 booktest/httpx.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index e84dbfa..8910bb8 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -224,6 +224,7 @@ class SnapshotHttpx:
 
         self.snapshots = snapshots
         self.requests = []
+        self._lock = threading.Lock()
 
         self._real_handle_request = None
         self._real_handle_async_request = None
@@ -255,13 +256,23 @@ class SnapshotHttpx:
 
         return key, None
 
-    def handle_request(self, transport: httpx.HTTPTransport, request: httpx.Request):
-        key, rv = self.lookup_snapshot(request)
+    def lookup_or_reserve_snapshot(self, request: httpx.Request):
+        # requests can be sent in several threads
+        with self._lock:
+            key, rv = self.lookup_snapshot(request)
+
+            if rv is not None:
+                return None, rv
 
-        if rv is None:
             # reserve the key, as the same request can be sent again before the response
             snapshot = RequestSnapshot(key, None)
             self.requests.append(snapshot)
+            return snapshot, None
+
+    def handle_request(self, transport: httpx.HTTPTransport, request: httpx.Request):
+        snapshot, rv = self.lookup_or_reserve_snapshot(request)
+
+        if rv is None:
             try:
                 rv = self._real_handle_request(transport, request)
                 snapshot.response = rv
@@ -272,12 +283,9 @@ class SnapshotHttpx:
         return rv
 
     async def handle_async_request(self, transport: httpx.AsyncHTTPTransport, request: httpx.Request):
-        key, rv = self.lookup_snapshot(request)
+        snapshot, rv = self.lookup_or_reserve_snapshot(request)
 
         if rv is None:
-            # reserve the key, as the same request can be sent again before the response
-            snapshot = RequestSnapshot(key, None)
-            self.requests.append(snapshot)
             try:
                 rv = await self._real_handle_async_request(transport, request)
                 snapshot.response = rv
-- 
2.43.0


From 13b7739da729d27818e6027dac477500751631cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:09 +0000
Subject: [PATCH 48/68] fix: a function called in several threads was listed
 twice in the report

---
 booktest/functions.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 6244df0..2512c67 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -5,6 +5,7 @@ import os
 import pickle
 import json
 import sys
+import threading
 
 from booktest import TestCaseRun
 from booktest.coroutines import maybe_async_call
@@ -128,13 +129,17 @@ class SnapshotFunctions:
         self.calls = None
         self.snapshotters = None
 
+        # the functions may be called in several threads
+        self.lock = threading.Lock()
+
     def snapshot(self, func, *args, **kwargs):
         call = FunctionCall.from_properties(func, args, kwargs)
 
         for snapshot in reversed(self.snapshots):
             if snapshot.match(call):
-                if snapshot not in self.calls:
-                    self.calls.append(snapshot)
+                with self.lock:
+                    if snapshot not in self.calls:
+                        self.calls.append(snapshot)
                 # the test may change the object it gets
                 return copy.deepcopy(snapshot.result)
 
@@ -147,10 +152,11 @@ class SnapshotFunctions:
         # replace old version, it may have been timeout. it keeps its
         # place, as the calls are listed in the same order on replay
         captured = FunctionCallSnapshot(call, copy.deepcopy(rv))
-        if captured in self.calls:
-            self.calls[self.calls.index(captured)] = captured
-        else:
-            self.calls.append(captured)
+        with self.lock:
+            if captured in self.calls:
+                self.calls[self.calls.index(captured)] = captured
+            else:
+                self.calls.append(captured)
 
         return rv
 
-- 
2.43.0


From ebb103da4f769531bd8b4308b882c2c46af76297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 49/68] fix: requests of other threads failed while one took
 long to capture

---
 booktest/requests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 771ed54..b78ed29 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -360,7 +360,8 @@ class SnapshotRequests:
             return self._adapter
 
         def _fake_send(session, request, **kwargs):
-            with threading_rlock(timeout=10):
+            # other threads may be capturing slow requests
+            with threading_rlock(timeout=-1):
                 _set_method(session, "get_adapter", _fake_get_adapter)
 
                 try:
-- 
2.43.0


From a3953b4df120d35fb5ad72934b192cbf82dc8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 50/68] fix: Ctrl-C while asyncio itself runs could hang the
 run

---
 booktest/testrun.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 99969a4..0f1dd3a 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -211,18 +211,25 @@ class TestRun:
 
         return rv
 
-    def run(self):
-        if threading.current_thread() is not threading.main_thread() or \
-           signal.getsignal(signal.SIGINT) is not signal.default_int_handler:
-            return asyncio.run(self.run_async())
-
+    async def run_interruptible(self):
         # asyncio.run() replaces the default handler by one, that delays Ctrl-C
         # until the tests await something. other handlers are left alone
+        delayed = signal.getsignal(signal.SIGINT)
+
         def interrupt(signum, frame):
-            raise KeyboardInterrupt()
+            if asyncio.current_task() is not None:
+                raise KeyboardInterrupt()
+            # nothing but asyncio itself is running
+            delayed(signum, frame)
 
         signal.signal(signal.SIGINT, interrupt)
         try:
-            return asyncio.run(self.run_async())
+            return await self.run_async()
         finally:
-            signal.signal(signal.SIGINT, signal.default_int_handler)
+            signal.signal(signal.SIGINT, delayed)
+
+    def run(self):
+        if threading.current_thread() is threading.main_thread() and \
+           signal.getsignal(signal.SIGINT) is signal.default_int_handler:
+            return asyncio.run(self.run_interruptible())
+        return asyncio.run(self.run_async())
-- 
2.43.0


From 8d215e23eecd1bf65543b7f34a0149958cdf4ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:54 +0000
Subject: [PATCH 51/68] fix: parallel runs mixed up cases with names such as
 a.b/c and a/b.c

---
 booktest/runs.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index fb24d1e..e2ef3e3 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -61,8 +61,7 @@ class RunBatch:
         self.setup = setup
 
     def __call__(self, case):
-        path = case.split("/")
-        batch_name = ".".join(path)
+        batch_name = case_batch_name(case)
         batch_dir = \
             os.path.join(
                 self.out_dir,
@@ -101,9 +100,13 @@ class RunBatch:
         return rv
 
 
+def case_batch_name(name):
+    # a.b/c and a/b.c have different batches
+    return name.replace("%", "%25").replace(".", "%2E").replace("/", ".")
+
+
 def case_batch_dir_and_report_file(batches_dir, name):
-    path = ".".join(name.split("/"))
-    batch_dir = os.path.join(batches_dir, path)
+    batch_dir = os.path.join(batches_dir, case_batch_name(name))
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
 
-- 
2.43.0


From 4d05bcb61f9f7e9597e050c20d3255af63704187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:46 +0000
Subject: [PATCH 52/68] fix: leaving an inner snapshot or mock of a function
 removed the outer one

---
 booktest/functions.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 2512c67..0eeb381 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -104,8 +104,11 @@ def set_function(func, value):
     elif hasattr(func, "__module__"):
         target = sys.modules[func.__module__]
     name = func.__name__
+    replaced = getattr(target, name)
     setattr(target, name, value)
 
+    return replaced
+
 
 class SnapshotFunctions:
 
@@ -176,17 +179,16 @@ class SnapshotFunctions:
 
         for func in self.snapshot_funcs:
             snapshotter = FunctionSnapshotter(self, func)
-            set_function(func, snapshotter)
-            snapshotters.append(snapshotter)
+            # an outer snapshot or mock may have replaced the function
+            snapshotters.append((snapshotter, set_function(func, snapshotter)))
 
         self.snapshots = snapshots
         self.calls = []
         self.snapshotters = snapshotters
 
     def stop(self):
-        for snapshotter in self.snapshotters:
-            func = snapshotter.func
-            set_function(func, func)
+        for snapshotter, replaced in reversed(self.snapshotters):
+            set_function(snapshotter.func, replaced)
 
         os.makedirs(self.mock_out_path, exist_ok=True)
 
@@ -255,14 +257,14 @@ class MockFunctions:
         original_funcs = []
 
         for func, mock in self.mock_funcs.items():
-            set_function(func, mock)
-            original_funcs.append(func)
+            # an outer snapshot or mock may have replaced the function
+            original_funcs.append((func, set_function(func, mock)))
 
         self._original_funcs = original_funcs
 
     def stop(self):
-        for func in self._original_funcs:
-            set_function(func, func)
+        for func, replaced in reversed(self._original_funcs):
+            set_function(func, replaced)
 
         self._original_funcs = None
 
-- 
2.43.0


From 8a89f620ce84a08f01d4bccd51fe1c68a5c9b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 53/68] fix: a second snapshot block of a test removed the
 requests captured by the first

---
 booktest/httpx.py    | 7 ++++++-
 booktest/requests.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 8910bb8..7f1946d 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -331,8 +331,13 @@ class SnapshotHttpx:
             "handle_async_request",
             self._real_handle_async_request)
 
-        # let's store everything in one file to avoid spamming git
+        # let's store everything in one file to avoid spamming git.
+        # an earlier or inner block of the same test may have stored its requests
         stored = {}
+        if os.path.exists(self.mock_out_file):
+            with open(self.mock_out_file, "r") as f:
+                stored = json.load(f)
+
         for snapshot in self.requests:
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
diff --git a/booktest/requests.py b/booktest/requests.py
index b78ed29..1ed5e05 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -387,8 +387,13 @@ class SnapshotRequests:
             self._mock_target.send = self._last_send
             self._last_send = None
 
-        # let's store everything in one file to avoid spamming git
+        # let's store everything in one file to avoid spamming git.
+        # an earlier or inner block of the same test may have stored its requests
         stored = {}
+        if os.path.exists(self.mock_out_file):
+            with open(self.mock_out_file, "r") as f:
+                stored = json.load(f)
+
         for snapshot in self._adapter.requests:
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
-- 
2.43.0


From f22b82155c73700bc1fe1bbea2c1208d29c4f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:00 +0000
Subject: [PATCH 54/68] fix: an outer httpx snapshot listed the requests of an
 inner one only when captured

---
 booktest/httpx.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 7f1946d..1d3da42 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -228,6 +228,8 @@ class SnapshotHttpx:
 
         self._real_handle_request = None
         self._real_handle_async_request = None
+        self._replaced_handle_request = None
+        self._replaced_handle_async_request = None
 
     def mark_order(self, key: RequestKey):
         for i in self.requests:
@@ -296,14 +298,23 @@ class SnapshotHttpx:
         return rv
 
     def start(self):
-        self._real_handle_request = httpx.HTTPTransport.handle_request
-        self._real_handle_async_request = httpx.AsyncHTTPTransport.handle_async_request
+        self._replaced_handle_request = httpx.HTTPTransport.handle_request
+        self._replaced_handle_async_request = httpx.AsyncHTTPTransport.handle_async_request
+
+        # an outer snapshot must not see the requests of this one. it would
+        # list them, when they are captured, but not, when they are replayed
+        self._real_handle_request = \
+            getattr(self._replaced_handle_request, "_real", self._replaced_handle_request)
+        self._real_handle_async_request = \
+            getattr(self._replaced_handle_async_request, "_real", self._replaced_handle_async_request)
 
         def mocked_handle_request(
                 transport: httpx.HTTPTransport, request: httpx.Request
         ) -> httpx.Response:
             return self.handle_request(transport, request)
 
+        mocked_handle_request._real = self._real_handle_request
+
         setattr(
             httpx.HTTPTransport,
             "handle_request",
@@ -314,6 +325,8 @@ class SnapshotHttpx:
         ) -> httpx.Response:
             return await self.handle_async_request(transport, request)
 
+        mocked_handle_async_request._real = self._real_handle_async_request
+
         setattr(
             httpx.AsyncHTTPTransport,
             "handle_async_request",
@@ -325,11 +338,11 @@ class SnapshotHttpx:
         setattr(
             httpx.HTTPTransport,
             "handle_request",
-            self._real_handle_request)
+            self._replaced_handle_request)
         setattr(
             httpx.AsyncHTTPTransport,
             "handle_async_request",
-            self._real_handle_async_request)
+            self._replaced_handle_async_request)
 
         # let's store everything in one file to avoid spamming git.
         # an earlier or inner block of the same test may have stored its requests
-- 
2.43.0


From 9fe917a5ec38c477cf5496142d71bd67706a7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:07 +0000
Subject: [PATCH 55/68] fix: t.file and t.tmp_path could fail when called in
 several threads

---
 booktest/testcaserun.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index a39183e..dd6986a 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -129,8 +129,7 @@ class TestCaseRun:
 
         these files get deleted before new runs, and by `booktest --clean` command
         """
-        if not path.exists(self.out_tmp_dir_name):
-            os.mkdir(self.out_tmp_dir_name)
+        os.makedirs(self.out_tmp_dir_name, exist_ok=True)
         return path.join(self.out_tmp_dir_name, name)
 
     def tmp_dir(self, dir_name):
@@ -150,8 +149,7 @@ class TestCaseRun:
         and avoid sensitive information.
         """
         # prepare new output files
-        if not path.exists(self.out_dir_name):
-            os.mkdir(self.out_dir_name)
+        os.makedirs(self.out_dir_name, exist_ok=True)
         return path.join(self.out_dir_name, filename)
 
     def rename_file_to_hash(self, file, postfix=""):
-- 
2.43.0


From 90b77484699f0fea7c6c7f12a0cc8ff24365dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:41 +0000
Subject: [PATCH 56/68] fix: keep the records of cases while cases.txt is
 rewritten

A run, review or --forget that was killed while it rewrote the records lost
those of cases that it had nothing to do with.
---
 booktest/reports.py |  5 ++++-
 booktest/runs.py    | 12 ++++++------
 booktest/testrun.py | 14 ++++++--------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index 82cdd75..29f4740 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -175,11 +175,14 @@ class CaseReports:
         return self.to_file(report_file)
 
     def to_file(self, file):
-        with open(file, "w") as f:
+        # the old records are kept, until the new ones are complete
+        new_file = file + ".new"
+        with open(new_file, "w") as f:
             for i in self.cases:
                 CaseReports.write_case(f,
                                        i[0],
                                        i[1],
                                        i[2])
+        os.replace(new_file, file)
 
 
diff --git a/booktest/runs.py b/booktest/runs.py
index e2ef3e3..581bfe6 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -330,12 +330,12 @@ def parallel_run_tests(exp_dir,
     os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
-    with open(report_file, "w") as report_f:
-        # add previously passed items to test
-        for i in reports.cases:
-            if i[0] not in todo:
-                CaseReports.write_case(
-                    report_f, i[0], i[1], i[2])
+    # add previously passed items to test
+    CaseReports(
+        [i for i in reports.cases
+         if i[0] not in todo]).to_file(report_file)
+
+    with open(report_file, "a") as report_f:
 
         reviewed = []
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 0f1dd3a..c00153c 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -162,14 +162,12 @@ class TestRun:
         # 2.2. run test.
         #      update the report as we test to allow hitting
         #      CTRL-C and continuing from the last succesful test
-        with open(report_file, "w") as report_f:
-
-            # 2.2.1 add previously passed items to test
-            if old_report is not None:
-                for i in old_report.cases:
-                    if i[0] not in todo:
-                        CaseReports.write_case(
-                            report_f, i[0], i[1], i[2])
+        # 2.2.1 add previously passed items to test
+        CaseReports(
+            [i for i in old_report.cases
+             if i[0] not in todo]).to_file(report_file)
+
+        with open(report_file, "a") as report_f:
 
             # 2.2.2 run cases
             for case_name in todo:
-- 
2.43.0


From fefa94b6339f3be4b251cec96741238340a398ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:33 +0000
Subject: [PATCH 57/68] fix: capture requests that are streamed, that have a
 timeout, or that digest authentication repeats

A streamed response could not be stored, arguments such as timeout, verify and
proxies were not passed on, and the repeated request of digest authentication
was sent past the snapshots.
---
 booktest/requests.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 1ed5e05..af07b2b 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -238,7 +238,9 @@ class SnapshotAdapter(adapters.BaseAdapter):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = adapters.HTTPAdapter().send(request)
+            rv = adapters.HTTPAdapter().send(request, **kwargs)
+            # read the content to have it stored, also if the test streams it
+            rv.content
             self.requests.append(RequestSnapshot(key, rv))
         else:
             # the replayed response needs to relate to the sent request,
@@ -246,7 +248,10 @@ class SnapshotAdapter(adapters.BaseAdapter):
             rv.request = request
             rv.url = request.url
             rv.reason = http.client.responses.get(rv.status_code)
-            rv.connection = self
+
+        # requests that e.g. digest authentication makes because
+        # of the response are captured and replayed as well
+        rv.connection = self
 
         return rv
 
-- 
2.43.0


From c060fd5c1f370ab8bd6f8dc408bf52d2b97994f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:38 +0000
Subject: [PATCH 58/68] fix: replay the cookies and the reason of responses of
 requests

---
 booktest/requests.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index af07b2b..80edd75 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -2,11 +2,13 @@ import contextlib
 import functools
 import hashlib
 import http.client
+import io
 import os
 import types
 import booktest as bt
 import requests
 from requests import adapters
+from requests.cookies import extract_cookies_to_jar
 from requests.structures import CaseInsensitiveDict
 import json
 import threading
@@ -138,6 +140,24 @@ class RequestKey:
         return type(other) == RequestKey and self.hash == other.hash
 
 
+def set_cookie_headers(response):
+    original = getattr(response.raw, "_original_response", None)
+    if original is None:
+        return []
+    return original.msg.get_all("Set-Cookie", [])
+
+
+class SnapshotRaw(io.BytesIO):
+    """ The raw response. This is, where requests reads the cookies from """
+
+    def __init__(self, content, set_cookie_headers):
+        super().__init__(content)
+        msg = http.client.HTTPMessage()
+        for i in set_cookie_headers:
+            msg["Set-Cookie"] = i
+        self._original_response = types.SimpleNamespace(msg=msg)
+
+
 class RequestSnapshot:
 
     def __init__(self,
@@ -156,12 +176,14 @@ class RequestSnapshot:
         response = requests.Response()
         response.headers = CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
+        response.reason = response_json.get("reason")
         response.encoding = response_json["encoding"]
         if response_json.get("contentEncoding") == "base64":
             response._content = base64.b64decode(response_json["content"])
         else:
             response._content = response_json["content"].encode()
         response._content_consumed = True
+        response.raw = SnapshotRaw(response._content, response_json.get("setCookie", []))
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -175,6 +197,11 @@ class RequestSnapshot:
                 "encoding": self.response.encoding,
             }
         }
+        if self.response.reason is not None:
+            rv["response"]["reason"] = self.response.reason
+        # the headers cannot hold several cookies
+        if set_cookie_headers(self.response):
+            rv["response"]["setCookie"] = set_cookie_headers(self.response)
         try:
             rv["response"]["content"] = self.response.content.decode()
         except UnicodeDecodeError:
@@ -240,14 +267,16 @@ class SnapshotAdapter(adapters.BaseAdapter):
         if rv is None:
             rv = adapters.HTTPAdapter().send(request, **kwargs)
             # read the content to have it stored, also if the test streams it
-            rv.content
+            rv.raw = SnapshotRaw(rv.content, set_cookie_headers(rv))
             self.requests.append(RequestSnapshot(key, rv))
         else:
             # the replayed response needs to relate to the sent request,
             # e.g. for redirects to be followed
             rv.request = request
             rv.url = request.url
-            rv.reason = http.client.responses.get(rv.status_code)
+            if rv.reason is None:
+                rv.reason = http.client.responses.get(rv.status_code)
+            extract_cookies_to_jar(rv.cookies, request, rv.raw)
 
         # requests that e.g. digest authentication makes because
         # of the response are captured and replayed as well
-- 
2.43.0


From 78af90c7bf930f1d04a973587815e65b271edc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:44 +0000
Subject: [PATCH 59/68] fix: capture httpx responses that are streamed

A streamed response could not be stored. The test now sees the response, that
is replayed, also when it is captured.
---
 booktest/httpx.py | 50 +++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 1d3da42..d856104 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -151,18 +151,29 @@ class RequestSnapshot:
 
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-                                  content=content)
+                                  stream=httpx.ByteStream(content))
+        response.read()
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
 
+    def uncompressed_headers(self):
+        # remove possible compression
+        return [(name, value)
+                for name, value in self.response.headers.multi_items()
+                if name != "content-encoding"]
+
+    def make_response(self):
+        # the test sees the same response, when it is captured and replayed.
+        # it may stream the content
+        return httpx.Response(self.response.status_code,
+                              headers=self.uncompressed_headers(),
+                              stream=httpx.ByteStream(self.response.content))
+
     def json_object(self, hide_details):
         payload = self.response.content
 
-        # remove possible compression
-        headers = dict(self.response.headers)
-        if "content-encoding" in headers:
-            del headers["content-encoding"]
+        headers = dict(httpx.Headers(self.uncompressed_headers()))
 
         rv = {
             "request": self.request.to_json_object(hide_details),
@@ -250,7 +261,7 @@ class SnapshotHttpx:
             if snapshot.match(key):
                 if snapshot not in self.requests:
                     self.requests.append(snapshot)
-                return key, snapshot.response
+                return key, snapshot
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
@@ -261,41 +272,42 @@ class SnapshotHttpx:
     def lookup_or_reserve_snapshot(self, request: httpx.Request):
         # requests can be sent in several threads
         with self._lock:
-            key, rv = self.lookup_snapshot(request)
+            key, snapshot = self.lookup_snapshot(request)
 
-            if rv is not None:
-                return None, rv
+            if snapshot is None:
+                # reserve the key, as the same request can be sent again before the response
+                snapshot = RequestSnapshot(key, None)
+                self.requests.append(snapshot)
 
-            # reserve the key, as the same request can be sent again before the response
-            snapshot = RequestSnapshot(key, None)
-            self.requests.append(snapshot)
-            return snapshot, None
+            return snapshot
 
     def handle_request(self, transport: httpx.HTTPTransport, request: httpx.Request):
-        snapshot, rv = self.lookup_or_reserve_snapshot(request)
+        snapshot = self.lookup_or_reserve_snapshot(request)
 
-        if rv is None:
+        if snapshot.response is None:
             try:
                 rv = self._real_handle_request(transport, request)
+                rv.read()
                 snapshot.response = rv
             finally:
                 if snapshot.response is None:
                     self.requests.remove(snapshot)
 
-        return rv
+        return snapshot.make_response()
 
     async def handle_async_request(self, transport: httpx.AsyncHTTPTransport, request: httpx.Request):
-        snapshot, rv = self.lookup_or_reserve_snapshot(request)
+        snapshot = self.lookup_or_reserve_snapshot(request)
 
-        if rv is None:
+        if snapshot.response is None:
             try:
                 rv = await self._real_handle_async_request(transport, request)
+                await rv.aread()
                 snapshot.response = rv
             finally:
                 if snapshot.response is None:
                     self.requests.remove(snapshot)
 
-        return rv
+        return snapshot.make_response()
 
     def start(self):
         self._replaced_handle_request = httpx.HTTPTransport.handle_request
-- 
2.43.0


From 441c1dc1b06dae84a3b63c1a90024ddc0fe797ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:50 +0000
Subject: [PATCH 60/68] fix: replay repeated headers of httpx responses, e.g.
 several cookies

---
 booktest/httpx.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index d856104..e2c9133 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -149,8 +149,12 @@ class RequestSnapshot:
 
         content = base64.b64decode(response_json["content"].encode("ascii"))
 
+        headers = response_json["headers"]
+        if isinstance(headers, list):
+            headers = [tuple(i) for i in headers]
+
         response = httpx.Response(response_json["statusCode"],
-                                  headers=response_json["headers"],
+                                  headers=headers,
                                   stream=httpx.ByteStream(content))
         response.read()
 
@@ -173,7 +177,10 @@ class RequestSnapshot:
     def json_object(self, hide_details):
         payload = self.response.content
 
-        headers = dict(httpx.Headers(self.uncompressed_headers()))
+        headers = self.uncompressed_headers()
+        # repeated headers, e.g. cookies, cannot be stored in an object
+        if len(dict(headers)) == len(headers):
+            headers = dict(headers)
 
         rv = {
             "request": self.request.to_json_object(hide_details),
-- 
2.43.0


From 878634d5c530c30059725ba248f618f3ff3774c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:49 +0000
Subject: [PATCH 61/68] fix: put class methods and methods of objects back as
 they were after snapshots and mocks of functions

---
 booktest/functions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 0eeb381..3d1b5ed 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -97,6 +97,10 @@ class FunctionSnapshotter:
         return str(self.func)
 
 
+# the method is set in the class of the object or in a base class
+NOT_SET = object()
+
+
 def set_function(func, value):
     target = None
     if hasattr(func, "__self__"):
@@ -104,8 +108,12 @@ def set_function(func, value):
     elif hasattr(func, "__module__"):
         target = sys.modules[func.__module__]
     name = func.__name__
-    replaced = getattr(target, name)
-    setattr(target, name, value)
+    # what getattr() gives is not the same, e.g. it binds methods
+    replaced = vars(target).get(name, NOT_SET)
+    if value is NOT_SET:
+        delattr(target, name)
+    else:
+        setattr(target, name, value)
 
     return replaced
 
-- 
2.43.0


From aa1214a197909be87fe75fd8f7d92429ee5c02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:55 +0000
Subject: [PATCH 62/68] fix: leave the adapter selection of sessions as it was
 after snapshots of requests

---
 booktest/requests.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 80edd75..2964502 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -348,7 +348,6 @@ class SnapshotRequests:
         self.mock_out_file = t.file(".requests.json")
         self._mock_target = requests.Session
         self._last_send = None
-        self._last_get_adapter = None
         self._lose_request_details = lose_request_details
         self._ignore_headers = ignore_headers
         self._encode_body = encode_body
@@ -388,7 +387,6 @@ class SnapshotRequests:
 
         # backup last `send` for restoration on `self.stop`
         self._last_send = self._mock_target.send
-        self._last_get_adapter = self._mock_target.get_adapter
 
         def _fake_get_adapter(session, url):
             return self._adapter
@@ -396,13 +394,18 @@ class SnapshotRequests:
         def _fake_send(session, request, **kwargs):
             # other threads may be capturing slow requests
             with threading_rlock(timeout=-1):
+                # the session can have an own get_adapter, also by its class
+                replaced = vars(session).get("get_adapter")
                 _set_method(session, "get_adapter", _fake_get_adapter)
 
                 try:
                     return _original_send(session, request, **kwargs)
                 finally:
                     # restore get_adapter
-                    _set_method(session, "get_adapter", self._last_get_adapter)
+                    if replaced is None:
+                        del session.get_adapter
+                    else:
+                        session.get_adapter = replaced
 
             if isinstance(self._mock_target, type):
                 return self._last_send(session, request, **kwargs)
-- 
2.43.0


From 776f06d7d3b2ea00a5073cdaa7bc287a09a87d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:02 +0000
Subject: [PATCH 63/68] fix: write dataframes with repeated labels and labels
 that are not text

---
 booktest/testcaserun.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index dd6986a..5a7a47a 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -742,16 +742,17 @@ s
         NOTE: df should be of pd.DataFrame or compatible type
         """
         pads = []
-        for column in df.columns:
-            max_len = len(column)
-            for i in df.index:
-                max_len = max(max_len, len(str(df[column][i])))
+        # labels of rows and columns may repeat, and need not be text
+        for j, column in enumerate(df.columns):
+            max_len = len(str(column))
+            for i in range(len(df.index)):
+                max_len = max(max_len, len(str(df.iloc[i, j])))
             pads.append(max_len)
 
         buf = ""
         buf += "|"
         for i, column in enumerate(df.columns):
-            buf += column.ljust(pads[i])
+            buf += str(column).ljust(pads[i])
             buf += "|"
         self.iln(buf)
         buf = "|"
@@ -759,10 +760,10 @@ s
             buf += "-" * i
             buf += "|"
         self.tln(buf)
-        for i in df.index:
+        for i in range(len(df.index)):
             self.t("|")
-            for j, column in enumerate(df.columns):
-                buf = str(df[column][i])\
+            for j in range(len(df.columns)):
+                buf = str(df.iloc[i, j])\
                           .replace("\r", " ")\
                           .replace("\n", " ")\
                           .strip()
-- 
2.43.0


From aecfeb127256789c3fba69d035c608db5bafa69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 64/68] fix: compare sets whose items look alike

---
 booktest/testcaserun.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 5a7a47a..be8b778 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -808,10 +808,11 @@ s
 
         if self.exp_file_exists:
             begin = self.exp_line_number
-            compare = set()
+            # different items may look alike
+            compare = []
             while (self.exp_line is not None
                    and self.exp_line.startswith(prefix)):
-                compare.add(self.exp_line[len(prefix):])
+                compare.append(self.exp_line[len(prefix):])
                 self.next_exp_line()
             end = self.exp_line_number
 
-- 
2.43.0


From 2fc4d1d16c7796422dda03235e29c0cabe63982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:02 +0000
Subject: [PATCH 65/68] fix: visit shared dependencies once

---
 booktest/tests.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index 8edcec3..2d77b96 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -104,11 +104,18 @@ class Tests:
     def all_method_dependencies(self,
                                 method,
                                 selection,
-                                cache_out_dir=None):
+                                cache_out_dir=None,
+                                visited=None):
+        # many cases may share dependencies: each is visited once
+        if visited is None:
+            visited = set()
         rv = []
         for dependency in self.method_dependencies(method, selection, cache_out_dir):
+            if dependency in visited:
+                continue
+            visited.add(dependency)
             m = self.get_case(dependency)
-            rv.extend(self.all_method_dependencies(m, selection, cache_out_dir))
+            rv.extend(self.all_method_dependencies(m, selection, cache_out_dir, visited))
             rv.append(dependency)
 
         return rv
@@ -118,12 +125,14 @@ class Tests:
 
     def selected_names(self, selection, cache_out_dir=None):
         selected = []
+        visited = set()
         for c in self.cases:
             if self.is_selected(c[0], selection):
                 dependencies = \
                     self.all_method_dependencies(c[1],
                                                  selection,
-                                                 cache_out_dir)
+                                                 cache_out_dir,
+                                                 visited)
                 for dependency in dependencies:
                     if dependency not in selected:
                         selected.append(dependency)
-- 
2.43.0


From 040ca7d4bae8fc78d80baa88da7481291c025295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:22 +0000
Subject: [PATCH 66/68] fix: cache results only when they are stored

---
 booktest/testrun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index c00153c..5b03ec7 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -88,12 +88,13 @@ class TestRun:
 
     def save_test_result(self, case_path, result, data):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
-        self.cache[bin_path] = result
         # replace the file at once to not leave it half written
         tmp_path = bin_path + ".tmp"
         with open(tmp_path, 'wb') as file:
             file.write(data)
         os.replace(tmp_path, bin_path)
+        # what could not be stored must not be used either
+        self.cache[bin_path] = result
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
-- 
2.43.0


From 17f894d577f1cba667ec3bdfcc5d033d2720a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:29 +0000
Subject: [PATCH 67/68] fix: restore stderr and logging when files of a test
 cannot be written

---
 booktest/testcaserun.py | 10 ++++++++--
 booktest/testrun.py     |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index be8b778..6b6ac2c 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -287,9 +287,9 @@ s
         sys.stderr = self.err
 
 
-    def close(self):
+    def restore_streams(self):
         """
-        Closes all resources (e.g. file system handles).
+        Puts the original logging handlers and stderr back, if they are replaced.
         """
         if self.orig_handlers is not None:
             logger = logging.getLogger()
@@ -304,6 +304,12 @@ s
             sys.stderr = self.orig_err
             self.orig_err = None
 
+    def close(self):
+        """
+        Closes all resources (e.g. file system handles).
+        """
+        self.restore_streams()
+
         self.err.close()
         self.err = None
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 5b03ec7..0926ae8 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -99,6 +99,14 @@ class TestRun:
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
         t = TestCaseRun(self, case_path, self.config, self.output)
+        try:
+            return await self.run_started_case(t, case_path, case, title)
+        finally:
+            # also if the files of the test cannot be written
+            t.restore_streams()
+
+    async def run_started_case(self, t, case_path, case, title) \
+            -> (TestResult, UserRequest, float):
         t.start(title)
         try:
             if inspect.iscoroutinefunction(case):
-- 
2.43.0


From ebe58c3266e543935ea4bba0a577ae1e47940412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:35 +0000
Subject: [PATCH 68/68] fix: delay Ctrl-C while workers are started and stopped

---
 booktest/runs.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 581bfe6..0a165b8 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,3 +1,4 @@
+import contextlib
 import traceback
 import multiprocessing
 import os
@@ -117,6 +118,27 @@ def start_worker():
     coverage.process_startup()
 
 
+@contextlib.contextmanager
+def uninterrupted():
+    """
+    Delays Ctrl-C. Within the code of pools and threads it can leave their locks
+    locked, and then the process does not end.
+    """
+    if threading.current_thread() is not threading.main_thread() or \
+       signal.getsignal(signal.SIGINT) is not signal.default_int_handler:
+        yield
+        return
+
+    received = []
+    signal.signal(signal.SIGINT, lambda signum, frame: received.append(signum))
+    try:
+        yield
+    finally:
+        signal.signal(signal.SIGINT, signal.default_int_handler)
+        if received:
+            raise KeyboardInterrupt()
+
+
 class ParallelRunner:
 
     def __init__(self,
@@ -281,18 +303,25 @@ class ParallelRunner:
 
     def __enter__(self):
         self.finished = False
-        self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=start_worker)
-        self.pool.__enter__()
+        try:
+            with uninterrupted():
+                self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=start_worker)
+                self.pool.__enter__()
 
-        self.thread = threading.Thread(target=self.thread_function)
-        self.thread.start()
+                self.thread = threading.Thread(target=self.thread_function)
+                self.thread.start()
+        except KeyboardInterrupt:
+            if self.thread is not None:
+                self.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         # it's important to wait the jobs for
         # the coverage measurement to succeed
         self._abort = True
         self.thread.join()
-        self.pool.close()
+        with uninterrupted():
+            self.pool.close()
 
         # for some reason, this will get stuck on keyboard interruptions
         # yet, it is necessary to get coverage correctly
-- 
2.43.0

