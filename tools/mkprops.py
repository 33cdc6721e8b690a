#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": ["booktest/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

prop("C01", "An accepted result always reproduces",
 """If a run of a test is accepted as its snapshot, running the same test again with the same output is
 reported OK with exit status 0 and leaves the accepted snapshot as it was, whatever text, tables, lists, sets,
 headers, anchors and ignored values the test writes and in whatever pieces it writes them.""",
 ["inputs", "programs"],
 """every test body built from the public writing methods (t, tln, i, iln, h1-h3, header, anchor, anchorln, keyvalueln,
 tlist, tset, ttable, tdf, tformat, it/must_*, assertln, ifloatln, imsln, timage ...), with any text including empty text, unterminated
 last lines, carriage returns, control characters and any Unicode; anchors at line starts, set items distinct and sets followed by another kind of line""",
 """the suite replays a fixed set of example books against committed snapshots; it cannot cover arbitrary text or
 arbitrary sequences of writing calls, and the token/line cursor that decides is sensitive to exactly those""",
 ["testcaserun.py", "tokenizer.py", "review.py"],
 [("token and line cursor over the snapshot", "testcaserun.py feed_token/next_exp_line"), ("tokenizer", "tokenizer.py"), ("acceptance", "review.py freeze_case")],
 [("snapshot cursor", "line and token of the snapshot that the next tested token is compared to", "testcaserun.py")],
 ["exit status of the run", "books/<case>.md before/after"])

prop("C02", "Every change in tested output is reported as a difference",
 """When the tested text of a run differs from the accepted snapshot - a changed, removed or added token within a line,
 a changed or inserted line, or lines beyond the end of the snapshot - the case is never reported OK: it is DIFF, the run's exit
 status is not zero, and the lines that are marked as differing in the case's report are exactly those whose tested tokens do not
 match the snapshot line they are compared to.""",
 ["inputs", "programs"],
 """every test body and every modification of its tested text relative to the snapshot (token- and line-level changes, insertions, additions at the end, first and last lines,
 unterminated last lines, text written in several pieces). Lines that are only missing from the end of a section are outside: ignored lines make them indistinguishable""",
 """tests compare fixed outputs to matching snapshots; a regression tool that misses a difference passes all its own snapshot tests""",
 ["testcaserun.py", "tokenizer.py", "testrun.py", "reports.py"],
 [("token comparison and line marks", "testcaserun.py feed_token/commit_line/flush_line"), ("end of snapshot handling", "testcaserun.py next_exp_line")],
 [("line_diff / diffs", "difference marks of the line and their count", "testcaserun.py")],
 ["cases.txt result", "marks in .out/<case>.txt", "exit status"])

prop("C03", "Ignored output never makes a test differ",
 """Text written with the ignoring methods (i, iln, feed, and the ignored parts of tables, float and timing lines) may change freely between runs
 without the case being reported as anything but OK and without marks in its report, as long as the ignored text before tested text on a line keeps its number of tokens.
 Values printed with ifloatln and imsln show the value of the accepted snapshot next to the new one.""",
 ["inputs", "programs"],
 "every test body and every replacement of its ignored text: whole ignored lines, ignored line ends, and token-for-token replacements in the middle of lines",
 "tests have a handful of ignored values; only generated variation shows that no ignored token position can cause a difference",
 ["testcaserun.py", "tokenizer.py"],
 [("unchecked feeding", "testcaserun.py feed/feed_token"), ("table padding", "testcaserun.py tdf"), ("ifloatln", "testcaserun.py ifloatln")],
 (), ["cases.txt result", "marks in .out/<case>.txt"])

prop("C04", "Headers and anchors confine differences to their own section",
 """A header or anchor line is compared to the snapshot line with the same text wherever it lies after the current position, or else before it,
 and the lines that follow are compared to the lines that follow it there. So adding, removing, changing or reordering sections never marks a line of an
 unchanged section with a unique title, and a header that the snapshot lacks is itself marked as a difference.""",
 ["inputs", "programs"],
 "every sequence of sections, every edit of it between snapshot and run (insert, delete, grow, shrink, reorder, rename) and every anchor kind (h1-h3, header, anchor, anchorln, keyvalueln)",
 "the number of section edit combinations is unbounded and the cursor's seek forward, wrap and restore paths depend on positions that the example books never reach",
 ["testcaserun.py"],
 [("seek with wrap around", "testcaserun.py seek/jump/reset_exp_reader"), ("header, anchor, anchorln", "testcaserun.py")],
 [("exp_line_number", "position in the snapshot", "testcaserun.py")], ["marks in .out/<case>.txt"])

prop("C05", "Sets are compared as sets",
 """A list of items written with tset is OK in any order when it has the same items as the snapshot's list, each as often, and the lines after the set
 are then compared to the lines after it in the snapshot. An item that is not in the snapshot's set, or an item of the snapshot's set that is missing, makes the case DIFF,
 also when the snapshot ends at the set.""",
 ["inputs", "programs"],
 "all item lists (any text without line breaks), permutations, additions, removals and replacements, any prefix, sets at the start, middle and end of the output, with and without a final newline",
 "tests use two fixed sets; permutations combined with membership changes and file position are not sampled",
 ["testcaserun.py"],
 [("tset scan, membership and jump", "testcaserun.py tset/seek_line/jump")], (), ["cases.txt result", "marks after the set"])

prop("C06", "The result, its report and the accepted snapshot hold exactly what was written",
 """The case's result file contains exactly the text the test wrote, in order, with line ends normalised and nothing lost or added (also an unterminated last line),
 tables, lists and formatted values rendered as documented; accepting it makes that very content the snapshot. The case's report and the verbose output show each written line
 once and in order, marked '?' for a difference, '!' for a failure and blank otherwise, next to the snapshot line for marked lines.""",
 ["inputs", "programs"],
 "every test body over the writing methods, any text and table content, with and without an existing snapshot, verbose or not, matching or differing",
 "the suite never reads the result files back against what the test body meant to write",
 ["testcaserun.py", "tokenizer.py", "review.py"],
 [("line buffering and writing", "testcaserun.py feed_token/commit_line/write_line/flush_line"), ("table rendering", "testcaserun.py tdf"), ("acceptance by rename", "review.py freeze_case")],
 (), [".out/<case>.md", ".out/<case>.txt", "books/<case>.md", "standard output with -v"])

prop("C07", "A failed test is FAIL, is never accepted, and fails alone",
 """A test that calls fail(), fails an assertion (assertln, must_*), exceeds a tmsln limit, raises an exception, calls sys.exit or returns a result that cannot be stored is reported FAIL -
 also when it differs as well or fails on its last, unterminated line - and no option or answer (-a, -u, interactive accept, review) makes it a snapshot or a success.
 The failure does not stop or change the other selected tests, it is recorded with its error in the report, and the exit status is not zero.""",
 ["inputs", "programs", "configurations"],
 "every failure kind at every position of a test body, alone or with differences, every combination of accept/update/interactive/parallel options, and every set of other tests around it",
 "existing tests must pass, so failing paths are hardly run by them",
 ["testrun.py", "testcaserun.py", "review.py", "runs.py"],
 [("exception capture and result decision", "testrun.py run_case; testcaserun.py end"), ("review never freezes FAIL", "review.py case_review/interact")],
 (), ["cases.txt", "books tree", ".out/<case>.txt", "exit status"])

prop("C08", "Snapshots change only by acceptance, and then exactly to the run's output",
 """A run changes the accepted snapshot (text file and snapshot directory) of a case only when that case is accepted: by -a if it is DIFF, by -u if it is OK, or by an interactive accept; it then equals
 that run's output file and output directory, and old snapshot files are gone. Without acceptance, and for all other cases, the books directory outside the output directory and the index stays byte for byte as it was,
 in serial, parallel and review runs.""",
 ["histories", "programs", "configurations"],
 "every history of runs over a project with any options (-a, -u, -i, -I, -w, -p, -c, -f, selections) and behaviours that change between runs (OK, DIFF, FAIL, files, snapshots missing)",
 "losing or silently overwriting reviewed snapshots is the worst failure of the tool and depends on option combinations and earlier runs that no unit test enumerates",
 ["review.py", "runs.py", "testcaserun.py", "tests.py"],
 [("freeze_case", "review.py"), ("case_review option handling", "review.py"), ("workers do not accept", "runs.py ParallelRunner")],
 (), ["recursive content of books before and after every run"])

prop("C09", "Exit status, records and summary tell the true results",
 """A run exits with zero exactly if every case it ran ended OK, a review exactly if all recorded results are OK after it. After a run that is not interrupted cases.txt has exactly one record for each case that ran,
 with its final result and the time it took, keeps the latest records that a continued run skipped, and the printed per-case lines, failure list, counts and times agree with them.""",
 ["histories", "programs", "configurations"],
 "every history of runs with any options, selections and behaviours, serial and parallel, with acceptance and review",
 "tests check single successful runs; truthful reporting must hold over mixed outcomes, options and histories",
 ["testrun.py", "runs.py", "review.py", "reports.py"],
 [("result to exit code", "reports.py test_result_to_exit_code; runs.py; testrun.py run_async"), ("case report writing", "reports.py CaseReports"), ("end_report", "review.py")],
 [("cases.txt", "record of results", "books/.out/cases.txt"), ("metrics.json", "time of the run", "books/.out/metrics.json")], ["exit status", "cases.txt", "standard output"])

prop("C10", "Exactly the selected cases run",
 """A run executes the cases whose name equals a given name or lies under a given path prefix (whole path components; '*' is everything), minus those under a skip: prefix, where only skips mean everything else,
 plus the dependencies that the selection needs and have no stored result (or all needed dependencies with -r), each at most once, and no other case.
 Without arguments the default_tests prefixes are the selection, and -l, --path, --print and --review are limited to the same cases.""",
 ["inputs", "configurations", "histories"],
 "every project of cases (names that are prefixes of each other as text, nested paths), every combination of positive and negative selections, with stored results present or not",
 "selection is a language over names; tests try a few literal selections",
 ["tests.py"],
 [("is_selected and selected_names", "tests.py"), ("default selection", "tests.py exec_parsed")], (), ["log of executed cases", "output of -l and --path"])

prop("C11", "Dependencies run before their dependents, once per run",
 """In every run, a case that runs together with cases it depends on (directly or transitively) runs after all of them, and no case runs twice, for functions, coroutines and test book methods, and
 whatever the declaration order. A dependency that is not selected runs only if its result is not stored or a refresh (-r) is asked for.""",
 ["programs", "histories", "configurations"],
 "every acyclic dependency graph over cases, any declaration order, any selection, stored results present or deleted, -r and -c",
 "tests use a few fixed dependency chains in declaration order",
 ["tests.py", "dependencies.py", "testrun.py"],
 [("all_method_dependencies / selected_names", "tests.py"), ("depends_on", "dependencies.py")], (), ["order of begin/end events of executed cases"])

prop("C12", "A dependent gets the value its dependency last returned",
 """Each parameter that @depends_on injects is the value that the named dependency returned when it last ended OK or DIFF - of the same test book instance if there is one, in declaration order, resources as their own values -
 whether the dependency ran in this run, in an earlier process or in another worker, and with the default, a bounded, a dict or no in-memory cache.
 Stored results survive a restart, and a value is never taken from another case.""",
 ["programs", "histories", "configurations"],
 "all dependency graphs with plain functions, coroutines, and several instances of a test book class; values of any picklable type, None included; run histories across processes, workers and cache types",
 "value routing depends on instance identity, cache state and earlier processes; tests sample one or two of them",
 ["testrun.py", "dependencies.py", "cache.py", "runs.py"],
 [("get_test_result / save_test_result", "testrun.py"), ("call_class_method_test", "dependencies.py"), ("LruCache, NoCache", "cache.py")],
 [("<case>.bin", "pickled result of the case", "books/.out")], ["values logged by dependents"])

prop("C13", "Continue reruns exactly what is not OK, forget stages again, fail-fast stops",
 """With -c a run executes exactly the selected cases (and needed dependencies) whose latest record is not OK, and keeps the records of the others; --forget removes the records of exactly the selected cases so that -c runs them again.
 With -f a serial run stops after the first case that is not OK, and a later -c picks up the rest.""",
 ["histories", "configurations"],
 "every history of run/-c/-f/--forget/review with selections and changing behaviours, serial and parallel (fail-fast stop only serial)",
 "these are properties of sequences of invocations over a persisted record, and tests run single invocations",
 ["reports.py", "testrun.py", "runs.py", "tests.py"],
 [("cases_to_done_and_todo", "reports.py"), ("--forget", "tests.py"), ("fail fast", "testrun.py, runs.py")],
 [("cases.txt", "persisted records", "books/.out/cases.txt")], ["executed cases of each run", "cases.txt"])

prop("C14", "A killed run never corrupts snapshots or claims, and the next run recovers",
 """If the process is killed at any moment of a run, also while writing, then every snapshot text file is entirely its old or its new content, no case is recorded OK that did not end OK, the cases that ended before the one running at the kill are recorded (in a serial run), and the next normal or -c run completes
 with the results it would have had, running every case that is not recorded OK. No half-written stored result is ever handed to a dependent. The records of the cases that a killed run does not run are kept, and a killed --review or --forget leaves the records either as they were or as it would have left them. (Snapshot text files only: the directories of captured functions, requests and environment are replaced
 one after the other, which is a listed finding.)""",
 ["crash_points", "histories", "schedules"],
 "a kill before, or in the middle of, any file system effect (create, write, rename, remove, mkdir) of serial and parallel runs that accept, update or continue over projects with dependencies, of reviews and of --forget, also kills of the repetition of a killed run",
 "needs a crash at each system call, which tests never do",
 ["testrun.py", "review.py", "reports.py"],
 [("rename based acceptance", "review.py freeze_case"), ("flushed incremental report", "reports.py write_case"), ("atomic replacement of results", "testrun.py save_test_result")],
 [("cases.txt", "incremental records", "books/.out")], ["file system after the kill and after the next run"])

prop("C15", "A parallel run gives the same results as a serial run",
 """For the same project, options and state, a run with any number of parallel workers ends with the same result for each case, the same snapshots, result files, stored results and exit status as a serial run,
 and executes each selected case exactly once.""",
 ["schedules", "programs", "configurations"],
 "every project with dependencies, any mix of outcomes, accept/update/continue options and any worker count and timing",
 "tests are serial or run a fixed parallel example with one schedule",
 ["runs.py", "testrun.py", "review.py"],
 [("ParallelRunner and merge", "runs.py"), ("report_case", "review.py")], (), ["cases.txt, books tree and .out of twin projects", "log of executions"])

prop("C16", "Cases sharing a resource never run at the same time",
 """In a parallel run two cases that declare the same resource (equal identifiers, also given by port()) never overlap in time, while cases without a common resource are not serialised against each other for ever and all complete;
 each case gets the value of its resource.""",
 ["schedules", "programs"],
 "all assignments of resources to cases, mixes with dependencies, durations and worker counts",
 "mutual exclusion is a property of schedules; tests sample one",
 ["runs.py", "dependencies.py"],
 [("resource reservation in the planner", "runs.py plan/thread_function"), ("Resource, port", "dependencies.py")],
 [("reserved_resources", "resources of running jobs", "runs.py")], ["begin/end intervals of the cases"])

prop("C17", "Parallel runs respect dependency order and pass values across workers",
 """In a parallel run a case starts only after every case it depends on has ended, if that runs in the same run, gets the value that one returned, and no case starts twice, whatever the worker count, durations and recorded earlier durations.""",
 ["schedules", "programs"],
 "all dependency graphs, durations, worker counts and previous duration records",
 "ordering across processes depends on timing that tests do not vary",
 ["runs.py", "testrun.py"],
 [("plan by done dependencies", "runs.py plan"), ("values through stored results", "testrun.py")], (), ["begin/end events and received values"])

prop("C18", "A parallel run with failing jobs ends and accounts for every case",
 """When tests or worker setups of a parallel run fail in any way - exceptions, sys.exit, unstorable results, setup or teardown errors, failing dependencies, exceptions that cannot be transferred, death of the worker process -
 the run still ends, records exactly one truthful result for every case, exits with non-zero status if any is not OK, and the other cases are unaffected.""",
 ["fault_sequences", "schedules", "programs"],
 "all combinations of failing cases and failure kinds, dependency graphs and worker counts",
 "fault handling across processes is not exercised by passing tests",
 ["runs.py", "testrun.py"],
 [("missing report becomes FAIL", "runs.py thread_function"), ("exception capture", "runs.py RunBatch; testrun.py")], (), ["termination, cases.txt, exit status"])

prop("C19", "Interactive decisions and review do what the user answers",
 """In interactive runs and in review (-w) the user is asked for exactly the cases that are not OK (with -I for all): accept makes the output the snapshot and the result OK, continue leaves both as they are, quit stops asking and, in a run, stops running further cases;
 accept is not offered or obeyed for a failed case. Afterwards the records, exit status and snapshots agree with the answers, and a viewer or diff tool request changes nothing.""",
 ["histories", "inputs", "configurations"],
 "every sequence of answers (including unknown answers and tool requests) over every mix of results, in -i and -I runs and in reviews, with -c and -f",
 "the suite cannot answer prompts; the decision space is a product of results, options and answers",
 ["review.py", "testrun.py", "tests.py"],
 [("interact / case_review / review", "review.py")], (), ["prompts on standard output", "books tree", "cases.txt", "exit status"])

prop("C20", "Environment snapshots and mocks apply in the test and are undone after it",
 """Inside a test with environment decorators the variables have exactly the declared value: the snapshot's value with snapshot_env (removed if it was unset), the given value with mock_env (removed if None), and with mock_missing_env the given value only if the variable is unset and snapshots are not being captured;
 after the test, however it ends, the environment is as before. A variable without a snapshot fails the test unless -s (missing only) or -S (all) captures the current value, and accepting stores the captured values.""",
 ["histories", "configurations", "programs"],
 "all environments, declared variables and decorator stacks, run/-s/-S/-a histories with changing environments, tests that raise",
 "tests check one variable each in the happy case; restoration and replay are properties of all states and endings",
 ["env.py"],
 [("SnapshotEnv, MockEnv, MockMissingEnv", "env.py")], (), ["environment logged before, in and after tests", "snapshot files"])

prop("C21", "Snapshotted functions replay, mocked functions are replaced, then restored",
 """In a test with snapshot_functions a call with arguments that the accepted snapshot holds returns the stored result without calling the function, and any other call fails the test, unless -s (missing calls only) or -S (all calls) runs the function and stores its result, of repeated calls the last one;
 results of different functions or arguments are never mixed. mock_functions replaces exactly the given functions during the test, and afterwards the originals are back, however the test ended.""",
 ["histories", "inputs", "programs"],
 "all sets of functions (module functions and methods of objects), argument lists of JSON values, call sequences, run/-s/-S/-a histories and endings",
 "keyed replay must hold for all arguments and histories; tests use one or two calls",
 ["functions.py"],
 [("FunctionCall hash and lookup", "functions.py"), ("set_function", "functions.py")], (), ["log of real calls", "values seen by the test", "stored snapshot files"])

prop("C22", "HTTP replay is faithful and never touches the network",
 """A test with snapshot_requests or snapshot_httpx that repeats the requests of its accepted capture gets the captured responses - status, headers looked up in any case and also repeated ones, cookies (which the session sends with its next requests), body bytes read at once or streamed in any way, JSON, redirects and digest authentication as in the capture, the n-th repetition of a request its n-th response -
 without any request leaving the process, synchronously and asynchronously. After the test real requests work again.""",
 ["histories", "inputs", "programs"],
 "all sequences of requests (methods, urls, bodies, headers, repetitions) and responses (status, headers, text and binary bodies, redirects) by requests and httpx",
 "the committed snapshots fix a few requests to public servers and no test can see whether the network was used",
 ["requests.py", "httpx.py"],
 [("request keys with order", "requests.py RequestKey; httpx.py"), ("response reconstruction", "requests.py, httpx.py RequestSnapshot")], (), ["hit counter of a local server", "responses seen by the test"])

prop("C23", "HTTP capture stores what was missing, and no request secrets",
 """Without -s or -S a request that the snapshot lacks raises and fails the test without being sent; with -s only the missing requests are sent and stored next to the replayed ones, and with -S all are sent again and stored; a request that fails, e.g. by its timeout, fails in the test as it does without snapshots and is not stored.
 Unless asked otherwise, no request header or request body is stored; requests are the same exactly if method, url, body (after encode_body) and non-ignored headers are, or as the given json_to_hash says.""",
 ["histories", "inputs", "configurations"],
 "all histories of run/-s/-S with acceptance over changing request sequences, all ignore_headers/json_to_hash/encode_body/lose_request_details settings",
 "capture modes need a live server and a history of runs; tests only replay",
 ["requests.py", "httpx.py"],
 [("lookup_snapshot and capture flags", "requests.py, httpx.py"), ("to_json_object hide_details", "requests.py, httpx.py")], (), ["hit counter of a local server", "stored snapshot files"])

prop("C24", "A test leaves no trace in the process and its stderr and logs go to its own log",
 """During a test, text written to sys.stderr and records logged through the root logger's handlers go to that case's log file and to no other case's, -L prints them, and after the test, however it ended, sys.stderr and the root logger's handlers are the ones from before.
After a run the interrupt handler, the working directory and the umask are as before it, and no file, thread or child process of the run stays open or alive.""",
 ["programs", "histories", "configurations"],
 "all sequences of tests (sync and async, all endings) writing to stderr and logging, in one process, repeated runs included",
 "restoration must hold for every ending of every test; tests do not look at it",
 ["testcaserun.py", "review.py"],
 [("open/close swap", "testcaserun.py open/close"), ("maybe_print_logs", "review.py")], (), [".out/<case>.log", "sys.stderr and logging handlers after runs"])

prop("C25", "Setup and teardown bracket what they should",
 """The process_setup_teardown of __booktest__.py has run its setup before the first test and runs its teardown exactly once after the last test of every process that runs tests (around each job in parallel workers); a test decorated with setup_teardown, directly or through decorate_tests, runs
 between its setup and its teardown. The teardown runs exactly once also when tests fail or raise. A setup that fails keeps what it brackets from running, and the test, or with the process setup the run, fails; a failing teardown fails its test, or the serial run.""",
 ["programs", "schedules", "histories"],
 "all mixes of test outcomes, decorator stacks, suites and serial or parallel runs",
 "pairing must hold for every ending; tests check only one successful setup",
 ["utils.py", "detection.py", "runs.py", "testsuite.py"],
 [("SetupTeardown", "utils.py"), ("BookTestSetup", "detection.py")], (), ["event log of setups, tests and teardowns"])

prop("C26", "Garbage listing and cleaning are exact",
 """--garbage lists exactly the files under the books directory that are neither the index nor the snapshot text or inside the snapshot directory of an existing case, each once; --clean removes exactly those files and nothing else, and neither runs a test.""",
 ["inputs", "histories"],
 "all trees of files (snapshots of existing and removed cases, sibling names sharing prefixes, output directory, nested directories, odd names) and case sets",
 "deleting a reviewed file is irreversible and depends on name relations that fixed tests do not have",
 ["tests.py"],
 [("garbage / is_garbage", "tests.py exec_parsed")], (), ["file tree before and after"])

prop("C27", "Configuration layers and options apply exactly, and only to their own run",
 """The effective configuration, as --config prints it, takes each key from the last of: ~/.booktest, ./.booktest, BOOKTEST_* environment variables, the defaults of a program that calls exec_parsed, command line options; '1' and '0' mean on and off, comments and blank lines are ignored, and values may contain '='.
 --setup stores its seven answers (or the current or default value for an empty answer) in ./.booktest.
Options given to one run do not affect a later run in the same process.""",
 ["configurations", "histories"],
 "all assignments of keys and values over the four layers and all sequences of runs with different options in one process",
 "precedence over all layer combinations is a product space, and leaks show only in sequences",
 ["config.py", "tests.py", "cli.py"],
 [("resolve_default_config", "config.py"), ("option layering", "tests.py exec_parsed")], (), ["output of --config", "behaviour of later runs"])

prop("C28", "Every test is found under its documented name, and the index lists all",
 """Running the command detects every test function, test book class constructible without arguments, test book instance and suite in files named *_test.py, *_book.py, *_suite.py or test_*.py under the test paths, and nothing in other files, under the name made of the path, the file name without test/book suffix,
 the snake case class name unless it repeats the file name, and the function name without test_; drop_prefix, merge_tests and suites rename as documented, and the tests of a book or suite keep their order. Each name runs its own test. After each run index.md lists and links each known case once.""",
 ["inputs", "programs"],
 "all trees of test modules with functions, classes, instances, suites and helper files, names over letters, digits and underscores",
 "name derivation is a function over all names, which examples sample sparsely",
 ["detection.py", "naming.py", "testbook.py", "testsuite.py", "review.py"],
 [("detect_tests / parse_test_file", "detection.py"), ("class_to_test_path, clean_*", "naming.py"), ("create_index", "review.py")], (), ["output of -l", "index.md"])

prop("C29", "Any case and directory name works, and only the books directory is written",
 """Case names, books paths and file names with spaces, quotes, shell characters or non-ASCII letters work like any others in runs, acceptance, reviews, printing and tool commands, and no part of them is interpreted as a command.
 A run creates, changes and removes files only under the books directory.""",
 ["inputs", "configurations"],
 "all names over printable characters without '/', tab and newline (but no first part that begins with 'skip:'), in every command",
 "tests use plain names only; a quoting error shows with special names only",
 ["testcaserun.py", "review.py", "tests.py", "runs.py"],
 [("path handling without a shell", "testcaserun.py, runs.py"), ("shell quoting of tool arguments", "review.py, tests.py")], (), ["file tree of the whole scratch directory", "arguments received by a stand-in tool"])

prop("C30", "Files of a test are exactly those of its latest run",
 """A test's output directory and temporary directory start empty in every run, so files of earlier runs never show up; what the test stored with file() is what acceptance puts in the snapshot directory, temporary files never get there;
 renaming a file to its hash gives the name of its content hash, and image links are relative to the text file and resolve.""",
 ["histories", "programs"],
 "all histories of runs creating different files and temporary files, in all outcomes and acceptance modes",
 "stale files show only over histories",
 ["testcaserun.py", "review.py"],
 [("purge of old output", "testcaserun.py __init__"), ("file/tmp_path/rename_file_to_hash/rel_path", "testcaserun.py"), ("freeze_case", "review.py")], (), ["directory contents during and after runs"])

prop("C31", "In-memory caches are bounded and never return a wrong or stale value",
 """LruCache never holds more entries than its size, keeps the most recently used ones, and a lookup returns the last value stored under the key or nothing; NoCache holds nothing.""",
 ["histories"],
 "all sequences of store, lookup and membership operations over any keys and sizes",
 "a cache is defined by all operation sequences",
 ["cache.py"],
 [("LruCache, NoCache", "cache.py")], (), ["results of public operations"])

prop("C32", "Coroutine tests behave exactly like function tests",
 """Writing a test, a dependency or a decorated test as a coroutine instead of a plain function changes nothing: same results, output, dependency values, decorators' effects, failures and records, also in mixed suites and in parallel runs.""",
 ["programs", "histories"],
 "all projects with any subset of tests as coroutines, awaiting or not, with all decorators and endings",
 "twin comparison over arbitrary projects is not something fixed tests can do",
 ["testrun.py", "coroutines.py", "dependencies.py", "utils.py"],
 [("maybe_async_call", "coroutines.py"), ("run_case", "testrun.py")], (), ["books and output trees of twin projects"])

prop("C33", "Damaged snapshots and state files are contained and recoverable",
 """A snapshot text, captured environment, function result, request or response that was damaged or edited by hand affects only the cases that use it:
 the run ends normally, records every case once, and the undamaged cases have their usual results, outputs and untouched snapshots. A damaged snapshot text is a difference exactly
 where its lines differ from the output; damaged captured data replays what it says or fails its test, real calls are never made instead, and no variable, function or HTTP client stays replaced.
 Damaged records, metrics, output files and stored results neither end a run nor a review, and fail only tests that use a damaged stored value.
 Restoring the files, or accepting a new capture (-S -a -u), makes everything OK again.""",
 ["inputs", "faults", "histories"],
 """all projects with env, function, requests and httpx snapshots, every byte-level damage (cuts, flips, inserted, removed or repeated bytes, invalid UTF-8, line ends, NUL, missing and stray files) and every structural edit of
 the JSON files, serial and parallel runs, any acceptance options""",
 "tests run against the intact committed snapshots only",
 ["testcaserun.py", "testrun.py", "env.py", "functions.py", "requests.py", "httpx.py", "reports.py", "review.py"],
 [("reset_exp_reader", "testcaserun.py"), ("start/stop of the snapshotters", "env.py, functions.py, requests.py, httpx.py"), ("read_lines, CaseReports.of_file, Metrics", "reports.py"), ("get_test_result", "testrun.py")],
 (), ["cases.txt, exit status, books tree, events of the bodies, process state after the run"])

prop("C34", "Measuring coverage changes nothing, and reports exactly what ran",
 """Running with --cov (or the coverage setting) gives the same exit status, test results, records, output, result files and snapshots as the same run without it, in serial and parallel runs,
 under any coverage configuration, also when there is nothing to report. coverage.xml and the printed report cover exactly the lines that the tests of this run executed (in workers too, when the configuration
 measures processes), nothing from earlier runs. No other file of the project is touched, and commands that run no tests touch no coverage files.""",
 ["inputs", "histories", "schedules"],
 "all projects, selections, options and coverage configurations, any sequence of runs",
 "tests do not compare measured with unmeasured runs",
 ["tests.py", "runs.py", "config.py"],
 [("Tests.exec_parsed", "tests.py"), ("ParallelRunner.__enter__", "runs.py")], (), ["exit status, stdout, cases.txt, books tree, coverage.xml, the project's other files"])

prop("C35", "Ctrl-C ends a run at once, cleanly and recoverably",
 """Interrupting a run (SIGINT to the process, or to its whole group as a terminal sends it) at any moment ends it with a non-zero exit status and without a hang.
 The test being run is interrupted at once, whether it awaits or not, no further test begins in a serial run (jobs already handed to workers may finish), and setups that ran get their teardowns.
 Cases that had ended keep their true results in the records, the interrupted case is not recorded as having passed or failed, cases outside of the run keep their records.
 Every snapshot is either the old one or, where the result was accepted, the new one; every stored result is the old or the new one and none is torn. The next run, with -c or without, then behaves as on this state and recovers.""",
 ["schedules", "crash-points", "histories"],
 "all projects, histories, arguments, serial, parallel and interactive runs, and every point of the run",
 "tests never interrupt a run",
 ["testrun.py", "runs.py", "review.py", "testcaserun.py", "tests.py"],
 [("TestRun.run", "testrun.py"), ("start_worker, ParallelRunner.abort, parallel_run_tests", "runs.py"), ("close, report", "testcaserun.py"), ("case_to_case_reports", "review.py")], (), ["exit status, events of the tests, cases.txt, books tree, stored results"])

prop("C36", "Snapshots are right when a test works in several threads or tasks",
 """A test may make its HTTP requests (requests, httpx sync or async) and its calls of snapshotted functions from several threads or asyncio tasks at once. Whatever the schedule:
each request or call gets the answer to itself, never one to another request; while capturing, each request that has no snapshot is really made once and each answer is stored under a key of its own, so equal requests that overlap have one snapshot each;
replaying gives the equal requests together the same answers without any request or call being made, and without capturing those that lack a snapshot are refused and fail the test, which then changes no snapshot.
The report lists each snapshot once, a slow request does not make those of other threads fail, and after the test requests and functions are the original ones. t.file, t.tmp_path, t.tmp_file and t.tmp_dir give each thread its path, in a directory that exists.""",
 ["schedules", "inputs", "histories"],
 "all workloads of several threads or tasks, all schedules, all histories of capture and replay with changed workloads; which of several equal requests gets which of their answers is open, as is the order in which function snapshots are listed; t is written to by one thread, while others may ask it for files",
 "no test makes requests or calls from several threads, and races need particular schedules",
 ["requests.py", "httpx.py", "functions.py", "testcaserun.py"],
 [("SnapshotAdapter.send, lookup_snapshot, SnapshotRequests.start", "requests.py"), ("lookup_or_reserve_snapshot", "httpx.py"), ("SnapshotFunctions.snapshot", "functions.py")], (), ["answers of each request, the server's log, the calls, .requests.json, .httpx.json, .functions, the report"])

prop("C37", "Snapshots and mocks nest and follow one another within a test",
 """Blocks of SnapshotEnv, MockEnv, MockMissingEnv, SnapshotFunctions, MockFunctions, SnapshotRequests and SnapshotHttpx - decorators of the test or with blocks in it - may be nested and follow one another in any way.
Within a block what it replaces is as it says; at its end, also by an exception, environment, functions and HTTP are as they were before the block, that is as an outer block of the test made them, and after the test as they were before it.
A block answers from the accepted snapshots of its test; when capturing, what they lack is really read, called or requested, once. The captures of all blocks of the test are stored together, and each block lists its own: an accepted test replays with the same observations and the same report, without calls and requests.""",
 ["programs", "inputs", "histories"],
 "all nestings and sequences of the seven kinds of blocks in functions, coroutines and test book methods, with exceptions that leave them, all histories of capture, replay, completion and refusal with changed tests, values and environments, serial and parallel",
 "tests use one decorator of a kind, and never nested or repeated blocks",
 ["env.py", "functions.py", "requests.py", "httpx.py"],
 [("start, stop, set_function", "functions.py"), ("SnapshotEnv, MockEnv, MockMissingEnv", "env.py"), ("SnapshotRequests.start, stop", "requests.py"), ("SnapshotHttpx.start, stop", "httpx.py")], (), ["environment, results of calls and requests at each point of the test, calls made, the server's log, .env.json, .functions, .requests.json, .httpx.json, the report"])

prop("C38", "A run whose files cannot be written says so and loses nothing",
 """When writing, creating, renaming or removing files under the books directory fails (disk full, quota, no permission, I/O error, read-only file system; once, for a while or from then on; writes also in part), a run, a review or --forget ends, and exits 0 only when every case of it
is recorded OK with its accepted snapshot and stored result in place; otherwise an error is raised or told, or a case is recorded as failed. Every accepted snapshot is the old or the new one, no case is recorded OK that did not end OK, cases that ended before the last one begun keep their records in a serial run,
and records of cases not run are kept. A stored result is the old or the new one, never a part, and no test gets a result that is not stored. stderr, logging, the interrupt handler and the working directory are as before, and once files can be written again, the next run brings everything into order.""",
 ["histories", "crash points"],
 "all points at which file effects fail, all kinds and spans of failure, in serial and parallel runs, continued and updating runs, reviews and --forget, on all histories of small projects",
 "no test lets a write fail; failures at single effects need fault injection",
 ["testcaserun.py", "testrun.py", "review.py", "reports.py", "runs.py"],
 [("save_test_result, run_case", "testrun.py"), ("freeze_case", "review.py"), ("to_file, write_case", "reports.py"), ("RunBatch, ParallelRunner", "runs.py")], (), ["exit status and output, snapshot and result files, cases.txt and cases.ndjson, process state, the next run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
