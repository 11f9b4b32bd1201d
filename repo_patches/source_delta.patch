From 5290787f6d3b2589e9a9c804e1834b07a359c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 001/193] fix: don't register an engine twice in the task
 scheduler

An engine that registers while the scheduler starts is announced by both
the connection reply and a registration notification. Registering it twice
made it two targets and discarded the record of its pending tasks.
---
 ipyparallel/controller/task_scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index b354b96..1ad4b5e 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -258,6 +258,10 @@ class TaskScheduler(Scheduler):
 
     def _register_engine(self, uid):
         """New engine with ident `uid` became available."""
+        if uid in self.targets:
+            # already registered: an engine can be announced both by
+            # our initial connection reply and by a notification
+            return
         # head of the line:
         self.targets.insert(0, uid)
         self.loads.insert(0, 0)
-- 
2.43.0


From 19326e484074e149f1ed4ee2e6326001c958a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 002/193] fix: failing an unsaved task that others'
 dependencies share

A task that turns out to be unreachable before it was added to the
dependency graph raised KeyError in fail_unreachable if another waiting
task depended on the same id, so its client never got a reply.
---
 ipyparallel/controller/task_scheduler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 1ad4b5e..f2d573e 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -467,7 +467,9 @@ class TaskScheduler(Scheduler):
         job.removed = True
         for mid in job.dependents:
             if mid in self.graph:
-                self.graph[mid].remove(msg_id)
+                # discard: a job that fails before it is saved
+                # was never added to the graph
+                self.graph[mid].discard(msg_id)
 
         try:
             raise why()
-- 
2.43.0


From 4fd993046a5f061871b787df3e2a6999717edd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 003/193] fix: don't run a queued task a second time

A task that became runnable through the dependency graph was submitted but
stayed in the queue, so a later scan of the queue submitted it again.
---
 ipyparallel/controller/task_scheduler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index f2d573e..181ea0b 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -728,7 +728,9 @@ class TaskScheduler(Scheduler):
         to_restore = []
         while jobs:
             job = jobs.popleft()
-            if job.removed:
+            if job.removed or job.msg_id not in self.queue_map:
+                # already failed or already running
+                # (jobs found via the graph also stay in the queue)
                 continue
             msg_id = job.msg_id
 
-- 
2.43.0


From 1d42e60ca711637b2150e6f750c465abadd6e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 004/193] fix: preserve the order of the queue when restoring
 unmet tasks

deque.extendleft reverses its argument.
---
 ipyparallel/controller/task_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 181ea0b..0987b1a 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -768,7 +768,7 @@ class TaskScheduler(Scheduler):
 
         # put back any tasks we popped but didn't run
         if using_queue:
-            self.queue.extendleft(to_restore)
+            self.queue.extendleft(reversed(to_restore))
 
     # ----------------------------------------------------------------------
     # methods to be overridden by subclasses
-- 
2.43.0


From a60fbee71692642f52b5192d9b2d0f6e1f98a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 005/193] fix: fail tasks whose location dependencies cannot be
 met anymore

A task following one that failed without ever running on an engine raised
KeyError (all) or waited forever (any). One following a task on an engine
that has died or is blacklisted for it waited forever.
---
 ipyparallel/controller/task_scheduler.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 0987b1a..fa2573c 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -532,7 +532,7 @@ class TaskScheduler(Scheduler):
 
             if not indices:
                 # couldn't run
-                if job.follow.all:
+                if job.follow:
                     # check follow for impossibility
                     dests = set()
                     relevant = set()
@@ -541,8 +541,21 @@ class TaskScheduler(Scheduler):
                     if job.follow.failure:
                         relevant = relevant.union(self.all_failed)
                     for m in job.follow.intersection(relevant):
-                        dests.add(self.destinations[m])
-                    if len(dests) > 1:
+                        # None if it failed without running anywhere
+                        dests.add(self.destinations.get(m))
+                    # engines that are still there and may run this job
+                    usable = set(self.targets).difference(job.blacklist)
+                    if job.targets:
+                        usable.intersection_update(job.targets)
+                    if job.follow.all:
+                        # has to run where *all* of them ran
+                        impossible = len(dests) > 1 or not dests.issubset(usable)
+                    else:
+                        # has to run where *any* of them ran
+                        impossible = job.follow.issubset(
+                            self.all_done
+                        ) and usable.isdisjoint(dests)
+                    if impossible:
                         self.queue_map[msg_id] = job
                         self.fail_unreachable(msg_id)
                         return False
-- 
2.43.0


From 64498f9b9c9fb9a96485b79bec44c703e2986d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 006/193] fix: fail queued tasks that could only run on an
 engine that died

Nothing looked at the queue when an engine was lost, so a task waiting for
it stayed in the queue until an unrelated event, or forever.
---
 ipyparallel/controller/task_scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index fa2573c..9f5b064 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -302,6 +302,10 @@ class TaskScheduler(Scheduler):
             self.completed.pop(uid)
             self.failed.pop(uid)
 
+        # rescan the queue: tasks that could only run on this engine
+        # have become impossible
+        self.update_graph(None)
+
     def handle_stranded_tasks(self, engine):
         """Deal with jobs resident in an engine that died."""
         lost = self.pending[engine]
-- 
2.43.0


From 0393ef25a273d43ee66eb390fead19d2e43bd848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 007/193] fix: ignore late results of tasks that were already
 retried elsewhere

When an engine that was given up for dead answers after all, its result was
relayed to the client and then raised KeyError: dependents of the task were
never released, the Hub was not told, and the retry's result was lost.
---
 ipyparallel/controller/task_scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 9f5b064..4b7cbfb 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -633,6 +633,11 @@ class TaskScheduler(Scheduler):
             idents, msg = self.session.feed_identities(raw_msg, copy=False)
             msg = self.session.deserialize(msg, content=False, copy=False)
             engine = idents[0]
+            if msg['parent_header']['msg_id'] not in self.pending.get(engine, {}):
+                # e.g. a late result from an engine that was given up for dead,
+                # whose tasks have already been failed or retried elsewhere
+                self.log.warning("task::Ignoring unexpected result from %r", engine)
+                return
             try:
                 idx = self.targets.index(engine)
             except ValueError:
-- 
2.43.0


From 4a60d5edc998b7a28b7c0a7e66331c105d0fa7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 008/193] fix: recheck queued tasks when another fails during
 the scan

A task failing as unreachable while the queue is scanned did not release or
fail its dependents that precede it in the queue: they were already set
aside, and stayed in the queue until an unrelated event.
---
 ipyparallel/controller/task_scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 4b7cbfb..a21a22f 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -748,6 +748,7 @@ class TaskScheduler(Scheduler):
             jobs = deque(sorted(self.queue_map[msg_id] for msg_id in msg_ids))
 
         to_restore = []
+        done_before = len(self.all_done)
         while jobs:
             job = jobs.popleft()
             if job.removed or job.msg_id not in self.queue_map:
@@ -791,6 +792,10 @@ class TaskScheduler(Scheduler):
         # put back any tasks we popped but didn't run
         if using_queue:
             self.queue.extendleft(reversed(to_restore))
+            if to_restore and len(self.all_done) > done_before:
+                # some tasks failed as unreachable during the scan,
+                # which may concern the ones we had already checked
+                self.update_graph(None)
 
     # ----------------------------------------------------------------------
     # methods to be overridden by subclasses
-- 
2.43.0


From 0a56e9baff34713b350611144144b82d732e3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 009/193] fix: DictDB queries with several equality conditions

Every equality test compared with the value of the last condition,
because the lambdas shared the loop variable.
---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index e9e67e7..b5b2e29 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -158,7 +158,7 @@ class DictDB(BaseDB):
             if isinstance(v, dict):
                 tests[k] = CompositeFilter(v)
             else:
-                tests[k] = lambda o: _add_tz(o) == _add_tz(v)
+                tests[k] = lambda o, v=v: _add_tz(o) == _add_tz(v)
 
         for rec in self._records.values():
             if self._match_one(rec, tests):
-- 
2.43.0


From 6b82ce4f2804bc4574be9094ddd9748d558fba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 010/193] fix: DictDB $gt matched records that are less than
 the value

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index b5b2e29..3156461 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -50,7 +50,7 @@ copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
 filters = {
     '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: b > a,
+    '$gt': lambda a, b: a > b,
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
     '$lte': lambda a, b: a <= b,
-- 
2.43.0


From ea3e8493ae9407c0ad96f8fc82f0cb210f033e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 011/193] fix: DictDB comparisons with missing values

Queries like {'completed': {'$gte': date}} raised TypeError as soon as there
was an unfinished task. As with SQLite and MongoDB, missing values don't match.
---
 ipyparallel/controller/dictdb.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 3156461..cda3d84 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -48,13 +48,19 @@ from ..util import ensure_timezone
 # Python can't copy memoryviews, but creating another memoryview works for us
 copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
+
+def _not_null(test):
+    """missing values are neither less nor greater than anything"""
+    return lambda a, b: a is not None and b is not None and test(a, b)
+
+
 filters = {
-    '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: a > b,
+    '$lt': _not_null(lambda a, b: a < b),
+    '$gt': _not_null(lambda a, b: a > b),
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
-    '$lte': lambda a, b: a <= b,
-    '$gte': lambda a, b: a >= b,
+    '$lte': _not_null(lambda a, b: a <= b),
+    '$gte': _not_null(lambda a, b: a >= b),
     '$in': lambda a, b: a in b,
     '$nin': lambda a, b: a not in b,
     '$all': lambda a, b: all([a in bb for bb in b]),
-- 
2.43.0


From 8a9ebb3aa5f8c3b5bca7a5cd3574c247c4cfc0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 012/193] fix: DictDB remembers culled ids per database, and
 forgets those added again

The set of culled ids was shared by all DictDB instances in a process,
and a record added again under a culled id could not be read or updated.
---
 ipyparallel/controller/dictdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index cda3d84..251c39b 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -40,7 +40,7 @@ import fnmatch
 from copy import deepcopy
 from datetime import datetime
 
-from traitlets import Dict, Float, Integer, Unicode
+from traitlets import Dict, Float, Integer, Set, Unicode
 from traitlets.config.configurable import LoggingConfigurable
 
 from ..util import ensure_timezone
@@ -114,7 +114,7 @@ class DictDB(BaseDB):
     """
 
     _records = Dict()
-    _culled_ids = set()  # set of ids which have been culled
+    _culled_ids = Set()  # set of ids which have been culled
     _buffer_bytes = Integer(0)  # running total of the bytes in the DB
 
     size_limit = Integer(
@@ -250,6 +250,7 @@ class DictDB(BaseDB):
             raise KeyError(f"Already have msg_id {msg_id!r}")
         self._check_dates(rec)
         self._records[msg_id] = rec
+        self._culled_ids.discard(msg_id)
         self._add_bytes(rec)
         self._maybe_cull()
 
-- 
2.43.0


From d0be2c6d9a04d8ae0bf81c0bd8a6eda5935efc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 013/193] fix: DictDB with a small record_limit never culled

int(cull_fraction * record_limit) is 0 for record_limit < 10 with the
default cull_fraction, so nothing was culled and the limit had no effect.
---
 ipyparallel/controller/dictdb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 251c39b..5131f3a 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -203,7 +203,11 @@ class DictDB(BaseDB):
     def _maybe_cull(self):
         # cull by count:
         if len(self._records) > self.record_limit:
-            to_cull = int(self.cull_fraction * self.record_limit)
+            # at least as many as needed to get back to the limit
+            to_cull = max(
+                int(self.cull_fraction * self.record_limit),
+                len(self._records) - self.record_limit,
+            )
             self.log.info(
                 "%i records exceeds limit of %i, culling oldest %i",
                 len(self._records),
-- 
2.43.0


From a742bf87d30f79598113832154221e056cc16eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 014/193] fix: SQLite queries with $in, $nin and $ne

$ne and $nin did not match records without a value, unlike the other
backends. $in and $nin with an empty list were an SQL syntax error, and with
more than 1000 entries exceeded SQLite's expression depth, so that e.g.
getting or purging that many results at once failed.
---
 ipyparallel/controller/sqlitedb.py | 36 ++++++++++++++++--------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 8eb42ff..b5d2a18 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -39,11 +39,12 @@ operators = {
     '$gt': ">",
     # null is handled weird with ==,!=
     '$eq': "=",
-    '$ne': "!=",
+    # unlike !=, IS NOT is true for null
+    '$ne': "IS NOT",
     '$lte': "<=",
     '$gte': ">=",
-    '$in': ('=', ' OR '),
-    '$nin': ('!=', ' AND '),
+    '$in': "IN",
+    '$nin': "NOT IN",
     # '$all': None,
     # '$mod': None,
     # '$exists' : None
@@ -51,7 +52,7 @@ operators = {
 }
 null_operators = {
     '=': "IS NULL",
-    '!=': "IS NOT NULL",
+    'IS NOT': "IS NOT NULL",
 }
 
 
@@ -344,23 +345,24 @@ class SQLiteDB(BaseDB):
                         op = operators[test]
                     except KeyError:
                         raise KeyError(f"Unsupported operator: {test!r}")
-                    if isinstance(op, tuple):
-                        op, join = op
-
                     if value is None and op in null_operators:
                         expr = f"{name} {null_operators[op]}"
+                    elif test in ('$in', '$nin'):
+                        if not isinstance(value, (tuple, list)):
+                            value = [value]
+                        if any([v is None for v in value]):
+                            # equality tests don't work with NULL
+                            raise ValueError(
+                                f"Cannot use {test!r} test with NULL values on SQLite backend"
+                            )
+                        expr = f"{name} {op} ({', '.join(['?'] * len(value))})"
+                        if test == '$nin':
+                            # NULL is not in any list
+                            expr = f"({name} IS NULL OR {expr})"
+                        args.extend(value)
                     else:
                         expr = f"{name} {op} ?"
-                        if isinstance(value, (tuple, list)):
-                            if op in null_operators and any([v is None for v in value]):
-                                # equality tests don't work with NULL
-                                raise ValueError(
-                                    f"Cannot use {test!r} test with NULL values on SQLite backend"
-                                )
-                            expr = f'( {join.join([expr] * len(value))} )'
-                            args.extend(value)
-                        else:
-                            args.append(value)
+                        args.append(value)
                     expressions.append(expr)
             else:
                 # it's an equality check
-- 
2.43.0


From 7caa3f875c4e62973ec9b32beb4f45e72be84bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 015/193] fix: an empty query is an SQL syntax error in
 SQLiteDB

---
 ipyparallel/controller/sqlitedb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index b5d2a18..b9b07f6 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -372,7 +372,8 @@ class SQLiteDB(BaseDB):
                     expressions.append(f"{name} = ?")
                     args.append(sub_check)
 
-        expr = " AND ".join(expressions)
+        # an empty query matches everything
+        expr = " AND ".join(expressions) or "1"
         return expr, args
 
     def add_record(self, msg_id, rec):
-- 
2.43.0


From a7a35d740a49e826a846a694821938f2cdb7bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 016/193] fix: compare timestamps in SQLiteDB regardless of
 their time zone

Timestamps are stored and compared as text. With different UTC offsets,
e.g. a naive local time in a query, the order of text is not that of time.
---
 ipyparallel/controller/sqlitedb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index b9b07f6..051c48a 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     import pickle
 
-from datetime import datetime
+from datetime import datetime, timezone
 
 try:
     import sqlite3
@@ -92,7 +92,8 @@ def _convert_bufs(bs):
 
 def _adapt_timestamp(dt):
     """Adapt datetime to text"""
-    return ensure_timezone(dt).isoformat()
+    # always in UTC, so that comparing the text compares the times
+    return ensure_timezone(dt).astimezone(timezone.utc).isoformat()
 
 
 def _convert_timestamp(s):
-- 
2.43.0


From 13cd875ab60b1d78513190030f18c5e30248c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 017/193] fix: SQLiteDB.find_records with an empty list of keys

It returned empty records instead of whole ones.
---
 ipyparallel/controller/sqlitedb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 051c48a..d87b3cf 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -449,6 +449,7 @@ class SQLiteDB(BaseDB):
             keys.insert(0, 'msg_id')
             req = ', '.join(keys)
         else:
+            keys = None
             req = '*'
         expr, args = self._render_expression(check)
         query = f"""SELECT {req} FROM '{self.table}' WHERE {expr}"""
-- 
2.43.0


From bd611997d2e00353f78dd63862435b9bc8497e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 018/193] fix: recognize existing SQLite tables

SQLite >= 3.37 reports standard types in upper case, so every table
looked like one of another format, and reopening a database made a new one.
---
 ipyparallel/controller/sqlitedb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index d87b3cf..846765c 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -244,7 +244,8 @@ class SQLiteDB(BaseDB):
         keys = []
         for line in lines:
             keys.append(line[1])
-            types[line[1]] = line[2]
+            # recent SQLite reports standard type names in upper case
+            types[line[1]] = line[2].lower()
         if self._keys != keys:
             # key mismatch
             self.log.warning('keys mismatch')
-- 
2.43.0


From b4896e2a3cd616c65a3baf63a47df0e7e0c6244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 019/193] fix: partition dicts on Python 3.12

Slices are hashable since 3.12, so slicing a dict raises KeyError instead
of TypeError (and a defaultdict grows an entry).
---
 ipyparallel/client/map.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 25ed377..4cb39bf 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -7,6 +7,7 @@ pieces to individual nodes in a cluster.
 # Copyright (c) IPython Development Team.
 # Distributed under the terms of the Modified BSD License.
 import sys
+from collections.abc import Mapping
 from itertools import chain, islice
 
 numpy = None
@@ -50,6 +51,11 @@ class Map:
             low = p * basesize + remainder
             high = low + basesize
 
+        if isinstance(seq, Mapping):
+            # not a sequence, but iterable
+            # indexing with a slice is a key lookup since Python 3.12
+            return list(islice(seq, low, high))
+
         try:
             result = seq[low:high]
         except TypeError:
-- 
2.43.0


From 9a957a03b4315c00cfaf402d8a7139d5678d8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 020/193] fix: keep the dtype of arrays joined by RoundRobinMap

Everything was converted to float64.
---
 ipyparallel/client/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 4cb39bf..a72591d 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -103,7 +103,7 @@ class RoundRobinMap(Map):
         test = listOfPartitions[0]
         shape = list(test.shape)
         shape[0] = sum(p.shape[0] for p in listOfPartitions)
-        A = numpy.ndarray(shape)
+        A = numpy.ndarray(shape, dtype=test.dtype)
         N = shape[0]
         q = len(listOfPartitions)
         for p, part in enumerate(listOfPartitions):
-- 
2.43.0


From bdf9bcbcaa3e44fd644ef418f29f9efbf69e8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 021/193] fix: serialize arrays of any dtype

- structured dtypes with sub-arrays, nested objects or titles raised
- alignment and offsets of structured dtypes got lost
- datetime64, timedelta64 and StringDType don't support the buffer protocol
---
 ipyparallel/serialize/canning.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index daadc65..6acdb76 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -321,26 +321,27 @@ class CannedArray(CannedObject):
         from numpy import ascontiguousarray
 
         self.shape = obj.shape
-        self.dtype = obj.dtype.descr if obj.dtype.fields else obj.dtype.str
+        # descr doesn't describe all structured dtypes (alignment, offsets, titles)
+        self.dtype = obj.dtype if obj.dtype.fields else obj.dtype.str
         self.pickled = False
         if sum(obj.shape) == 0:
             self.pickled = True
-        elif obj.dtype == 'O':
+        elif obj.dtype.hasobject or obj.dtype.itemsize == 0:
             # can't handle object dtype with buffer approach
             self.pickled = True
-        elif obj.dtype.fields and any(
-            dt == 'O' for dt, sz in obj.dtype.fields.values()
-        ):
-            self.pickled = True
+        else:
+            # ensure contiguous
+            contiguous = ascontiguousarray(obj, dtype=None)
+            try:
+                self.buffers = [memoryview(contiguous)]
+            except (ValueError, TypeError):
+                # not all dtypes (e.g. datetime64) support the buffer protocol
+                self.pickled = True
         if self.pickled:
             # just pickle it
             from . import serialize
 
             self.buffers = [serialize.pickle.dumps(obj, serialize.PICKLE_PROTOCOL)]
-        else:
-            # ensure contiguous
-            obj = ascontiguousarray(obj, dtype=None)
-            self.buffers = [memoryview(obj)]
 
     def get_object(self, g=None):
         from numpy import frombuffer
-- 
2.43.0


From b2991532779d96a0c26fce9db3c833ce75896d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 022/193] fix: serialize dicts with keys that can't be sorted

Pickle preserves the order of dicts, so there's no need to sort them.
---
 ipyparallel/serialize/serialize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 327339b..f3e81ce 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -102,7 +102,8 @@ def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
             buffers.extend(_extract_buffers(c, buffer_threshold))
     elif istype(obj, dict) and len(obj) < item_threshold:
         cobj = {}
-        for k in sorted(obj):
+        # keep the order of keys, which aren't always sortable
+        for k in obj:
             c = can(obj[k])
             buffers.extend(_extract_buffers(c, buffer_threshold))
             cobj[k] = c
@@ -135,7 +136,7 @@ def deserialize_object(buffers, g=None):
         newobj = uncan_sequence(canned, g)
     elif istype(canned, dict) and len(canned) < MAX_ITEMS:
         newobj = {}
-        for k in sorted(canned):
+        for k in canned:
             c = canned[k]
             _restore_buffers(c, bufs)
             newobj[k] = uncan(c, g)
-- 
2.43.0


From c76f0fa503680fbed39b38712f4cd01b48faea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 023/193] fix: buffers of objects in sets got mixed up

---
 ipyparallel/serialize/serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index f3e81ce..e071390 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -98,6 +98,9 @@ def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
     buffers = []
     if istype(obj, sequence_types) and len(obj) < item_threshold:
         cobj = can_sequence(obj)
+        if istype(obj, set):
+            # sets of canned objects have no order in which to restore buffers
+            buffer_threshold = float('inf')
         for c in cobj:
             buffers.extend(_extract_buffers(c, buffer_threshold))
     elif istype(obj, dict) and len(obj) < item_threshold:
-- 
2.43.0


From ec7e8ebc9144da28ba29d675b1ae6d37baf36b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 024/193] fix: deserialize containers larger than the default
 item_threshold

With a larger item_threshold, receivers got canned objects.
---
 ipyparallel/serialize/serialize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index e071390..5f8d679 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -74,6 +74,11 @@ def _restore_buffers(obj, buffers):
                 obj.buffers[i] = buffers.pop(0)
 
 
+def _any_canned(items):
+    """whether any item has to be uncanned (depends on the sender's item_threshold)"""
+    return any(isinstance(item, CannedObject) for item in items)
+
+
 def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
     """Serialize an object into a list of sendable buffers.
 
@@ -133,11 +138,11 @@ def deserialize_object(buffers, g=None):
     bufs = list(buffers)
     pobj = bufs.pop(0)
     canned = pickle.loads(pobj)
-    if istype(canned, sequence_types) and len(canned) < MAX_ITEMS:
+    if istype(canned, sequence_types) and _any_canned(canned):
         for c in canned:
             _restore_buffers(c, bufs)
         newobj = uncan_sequence(canned, g)
-    elif istype(canned, dict) and len(canned) < MAX_ITEMS:
+    elif istype(canned, dict) and _any_canned(canned.values()):
         newobj = {}
         for k in canned:
             c = canned[k]
-- 
2.43.0


From 1ea1c8af5416429d0bbed20313b5c70f42e51782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 025/193] fix: serialize arrays nested in functions and classes

Arrays in defaults, closures and class attributes raised
TypeError: cannot pickle 'memoryview' object.
---
 ipyparallel/serialize/canning.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index 6acdb76..da70a96 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -126,6 +126,16 @@ class CannedObject:
 
         self.buffers = []
 
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        if state.get('buffers'):
+            # objects nested in another one keep their buffers, which must be picklable
+            state['buffers'] = [
+                buf.tobytes() if isinstance(buf, memoryview) else buf
+                for buf in state['buffers']
+            ]
+        return state
+
     def get_object(self, g=None):
         if g is None:
             g = {}
-- 
2.43.0


From eebf183209e01adefc729bdd09c404eb72bd9c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 026/193] fix: resolve names of keyword-only defaults in the
 engine's namespace

Functions and references given as keyword-only defaults (or annotations)
were rebuilt with empty globals, unlike those given as other defaults.
---
 ipyparallel/serialize/canning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index da70a96..c5a997d 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -229,11 +229,11 @@ class CannedFunction(CannedObject):
             defaults = None
 
         if self.kwdefaults:
-            kwdefaults = uncan_dict(self.kwdefaults)
+            kwdefaults = uncan_dict(self.kwdefaults, g)
         else:
             kwdefaults = None
         if self.annotations:
-            annotations = uncan_dict(self.annotations)
+            annotations = uncan_dict(self.annotations, g)
         else:
             annotations = {}
 
-- 
2.43.0


From d0689eca5426fba9073c138f9f61c5e864ad5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 027/193] fix: interactive() dropped keyword-only defaults

---
 ipyparallel/serialize/canning.py | 2 ++
 ipyparallel/util.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index c5a997d..4ba28c1 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -42,12 +42,14 @@ def interactive(f):
     # interactive functions never have closures, that's kind of the point
     if isinstance(f, FunctionType):
         mainmod = __import__('__main__')
+        kwdefaults = f.__kwdefaults__
         f = FunctionType(
             f.__code__,
             mainmod.__dict__,
             f.__name__,
             f.__defaults__,
         )
+        f.__kwdefaults__ = kwdefaults
     # associate with __main__ for uncanning
     f.__module__ = '__main__'
     return f
diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index 7a67598..300a6f0 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -293,12 +293,14 @@ def interactive(f):
     # interactive functions never have closures, that's kind of the point
     if isinstance(f, FunctionType):
         mainmod = __import__('__main__')
+        kwdefaults = f.__kwdefaults__
         f = FunctionType(
             f.__code__,
             mainmod.__dict__,
             f.__name__,
             f.__defaults__,
         )
+        f.__kwdefaults__ = kwdefaults
     # associate with __main__ for uncanning
     f.__module__ = '__main__'
     return f
-- 
2.43.0


From 234447b21e9b5620c823baab395349cba53a412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 028/193] fix: send classes with properties, static and class
 methods

These can't be pickled.
---
 ipyparallel/serialize/canning.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index 4ba28c1..4d185a9 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -328,6 +328,28 @@ class CannedClass(CannedObject):
         return type(self.name, parents, uncan_dict(self._canned_dict, g=g))
 
 
+class CannedMethod(CannedObject):
+    """Can a static or class method"""
+
+    def __init__(self, obj):
+        self.type = type(obj)
+        self.func = can(obj.__func__)
+        self.buffers = []
+
+    def get_object(self, g=None):
+        return self.type(uncan(self.func, g))
+
+
+class CannedProperty(CannedObject):
+    def __init__(self, obj):
+        self.functions = [can(f) for f in (obj.fget, obj.fset, obj.fdel)]
+        self.doc = obj.__doc__
+        self.buffers = []
+
+    def get_object(self, g=None):
+        return property(*(uncan(f, g) for f in self.functions), doc=self.doc)
+
+
 class CannedArray(CannedObject):
     def __init__(self, obj):
         from numpy import ascontiguousarray
@@ -536,6 +558,9 @@ can_map = {
     memoryview: CannedMemoryView,
     cell_type: CannedCell,
     type: can_class,
+    staticmethod: CannedMethod,
+    classmethod: CannedMethod,
+    property: CannedProperty,
     'ipyparallel.dependent': can_dependent,
 }
 
-- 
2.43.0


From 0a7e2a2bc00034ea079d1938be4720faadc82226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 029/193] fix: validating a url with an invalid port raised
 UnboundLocalError

---
 ipyparallel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index 300a6f0..24c1e03 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -162,7 +162,7 @@ def validate_url(url):
         try:
             port = int(s_port)
         except ValueError:
-            raise AssertionError(f"Invalid port {port!r} in url: {url!r}")
+            raise AssertionError(f"Invalid port {s_port!r} in url: {url!r}")
 
         assert addr == '*' or pat.match(addr) is not None, f'Invalid url: {url!r}'
 
-- 
2.43.0


From 4c12e4d3dc58108480ed3cadc1e9df6cb7b8b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 030/193] fix: is_ip never recognized an ip

The arguments of re.match were swapped, so the location was used as the pattern.
---
 ipyparallel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index 24c1e03..d5eea6c 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -201,7 +201,7 @@ def is_ip(location):
 
     It could be a hostname.
     """
-    return bool(re.match(location, r'(\d+\.){3}\d+'))
+    return bool(re.fullmatch(r'(\d+\.){3}\d+', location))
 
 
 @lru_cache
-- 
2.43.0


From 1fcc54c72e59c1d34c450c280d33a1d354b4e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 031/193] fix: deprecated port pairs used the first port for
 both clients and engines

---
 ipyparallel/controller/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 8de42a0..dbcee60 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -446,7 +446,7 @@ class IPController(BaseParallelApplication):
             " Use IPController.ports config instead."
         )
         self.client_ports.append(change.new[0])
-        self.engine_ports.append(change.new[0])
+        self.engine_ports.append(change.new[1])
 
     @observe("hb")
     def _hb_ports_assigned(self, change):
-- 
2.43.0


From d41d480baae7b312fca40524b0eefb1e9a0ee09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 032/193] fix: bind the registration endpoint of engines
 whenever it is another one

It differs from that of clients if the transport does, or if it comes from
reused connection files.
---
 ipyparallel/controller/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index dbcee60..daf242c 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -847,7 +847,7 @@ class IPController(BaseParallelApplication):
         self.log.info(
             "Hub listening on %s for registration.", self.client_url('registration')
         )
-        if self.client_ip != self.engine_ip:
+        if self.client_url('registration') != self.engine_url('registration'):
             self.bind(query, self.engine_url('registration'))
             self.log.info(
                 "Hub listening on %s for registration.", self.engine_url('registration')
-- 
2.43.0


From e9a08c13018901aaa7317d225758c56e67c5f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 033/193] fix: don't hand out the same port twice

Reusing connection files of a controller with a configured pool of ports,
the first ports of the pool were given to internal connections although
they were those of the registration and other sockets.
---
 ipyparallel/controller/app.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index daf242c..1d9af3e 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -25,6 +25,7 @@ from traitlets import (
     Instance,
     Integer,
     List,
+    Set,
     Tuple,
     Type,
     Unicode,
@@ -590,7 +591,18 @@ class IPController(BaseParallelApplication):
 
     _random_port_count = Integer(0)
 
+    # ports handed out, or already in use by reused connection files
+    _used_ports = Set()
+
     def next_port(self, pool_name='common'):
+        """Get a port from our port pools that isn't used yet"""
+        port = self._draw_port(pool_name)
+        while port in self._used_ports:
+            port = self._draw_port(pool_name)
+        self._used_ports.add(port)
+        return port
+
+    def _draw_port(self, pool_name='common'):
         """Consume a port from our port pools"""
         if pool_name == 'client':
             if len(self.client_ports) > self.client_port_index:
@@ -725,6 +737,10 @@ class IPController(BaseParallelApplication):
 
         self.engine_info = ecfg
         self.client_info = ccfg
+        for info in (ecfg, ccfg):
+            for value in info.values():
+                ports = value if isinstance(value, list) else [value]
+                self._used_ports.update(p for p in ports if isinstance(p, int))
 
     def cleanup_connection_files(self):
         if self.reuse_files:
-- 
2.43.0


From 3bf078f6216a889e85219704a36a8b6c1bcd25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 034/193] fix: ipc endpoints of the controller were not those
 clients and engines connect to

The controller used '-' between interface and port, but everybody else ':'.
---
 ipyparallel/controller/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 1d9af3e..c6d136c 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -648,11 +648,11 @@ class IPController(BaseParallelApplication):
             )
 
         interface = info['interface']
-        sep = '-' if interface.partition("://")[0] == 'ipc' else ':'
         port = info[channel]
         if index is not None:
             port = port[index]
-        return f"{interface}{sep}{port}"
+        # must match the urls that clients and engines connect to
+        return f"{interface}:{port}"
 
     def internal_url(self, channel, index=None):
         """return full zmq url for a named internal channel"""
-- 
2.43.0


From 2f093632d6cae176cdda36ea20c878f0300a75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 035/193] fix: port pools configured as range strings were
 refused

---
 ipyparallel/traitlets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipyparallel/traitlets.py b/ipyparallel/traitlets.py
index 09632b7..64f90ea 100644
--- a/ipyparallel/traitlets.py
+++ b/ipyparallel/traitlets.py
@@ -82,6 +82,12 @@ class PortList(List):
             ports.extend(self.parse_port_range(s))
         return ports
 
+    def set(self, obj, value):
+        # before List.set wraps the string in a list
+        if isinstance(value, str):
+            value = self.parse_port_range(value)
+        super().set(obj, value)
+
     def validate(self, obj, value):
         if isinstance(value, str):
             value = self.parse_port_range(value)
-- 
2.43.0


From a0dea8476fe41241052df378497f300895d44289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 036/193] fix: registration on all interfaces failed if also on
 a specific one

---
 ipyparallel/controller/app.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index c6d136c..cfcdaaa 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -859,15 +859,23 @@ class IPController(BaseParallelApplication):
         # Registrar socket
         query = ZMQStream(ctx.socket(zmq.ROUTER), loop)
         util.set_hwm(query, 0)
-        self.bind(query, self.client_url('registration'))
-        self.log.info(
-            "Hub listening on %s for registration.", self.client_url('registration')
-        )
-        if self.client_url('registration') != self.engine_url('registration'):
-            self.bind(query, self.engine_url('registration'))
-            self.log.info(
-                "Hub listening on %s for registration.", self.engine_url('registration')
-            )
+        registration_urls = [
+            self.client_url('registration'),
+            self.engine_url('registration'),
+        ]
+        for ip in ('*', '0.0.0.0'):
+            any_ip = f"tcp://{ip}:{registration_port}"
+            if any_ip in registration_urls:
+                # listening on all interfaces covers the others,
+                # and binding those as well would fail
+                registration_urls = [
+                    url
+                    for url in registration_urls
+                    if url == any_ip or not url.startswith("tcp://")
+                ]
+        for url in dict.fromkeys(registration_urls):
+            self.bind(query, url)
+            self.log.info("Hub listening on %s for registration.", url)
 
         ### Engine connections ###
 
-- 
2.43.0


From bc86e2af322117ec4a5edc0059433c2bcbf2b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 037/193] fix: load_request always failed

---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 282ffa1..c9e785c 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1169,7 +1169,7 @@ class Hub(LoggingConfigurable):
         content = dict(status='ok')
         # loads = {}
         for t in targets:
-            content[bytes(t)] = len(self.queues[t]) + len(self.tasks[t])
+            content[str(t)] = len(self.queues[t]) + len(self.tasks[t])
         self.session.send(
             self.query, "load_reply", content=content, ident=client_id, parent=msg
         )
-- 
2.43.0


From 87c2bd00f85e19f525d8d47aaad3bdd31f67349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 038/193] fix: status of results from before a restart of the
 hub

---
 ipyparallel/controller/hub.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index c9e785c..0d06472 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1410,7 +1410,22 @@ class Hub(LoggingConfigurable):
                 )
                 return
         else:
+            # may be in the db, but unknown to us after a restart
+            unknown = [
+                msg_id
+                for msg_id in msg_ids
+                if msg_id not in self.pending and msg_id not in self.all_completed
+            ]
             records = {}
+            if unknown:
+                try:
+                    matches = self.db.find_records(
+                        dict(msg_id={'$in': unknown}), keys=['msg_id', 'completed']
+                    )
+                except Exception:
+                    self.log.exception("Failed to get status")
+                else:
+                    records = {rec['msg_id']: rec for rec in matches}
         for msg_id in msg_ids:
             if msg_id in self.pending:
                 pending.append(msg_id)
@@ -1421,11 +1436,12 @@ class Hub(LoggingConfigurable):
                     content[msg_id] = c
                     buffers.extend(bufs)
             elif msg_id in records:
-                if rec['completed']:
+                if records[msg_id]['completed']:
                     completed.append(msg_id)
-                    c, bufs = self._extract_record(records[msg_id])
-                    content[msg_id] = c
-                    buffers.extend(bufs)
+                    if not statusonly:
+                        c, bufs = self._extract_record(records[msg_id])
+                        content[msg_id] = c
+                        buffers.extend(bufs)
                 else:
                     pending.append(msg_id)
             else:
-- 
2.43.0


From 62897d936c75908816e5a8f5d013f317a6bfcfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 039/193] fix: forget the ids of engines that left

---
 ipyparallel/controller/hub.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 0d06472..dc1fb6b 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -986,6 +986,7 @@ class Hub(LoggingConfigurable):
         )
 
         # cleanup mappings
+        self.ids.discard(eid)
         self.by_ident.pop(ec.ident, None)
         self.engines.pop(eid, None)
 
-- 
2.43.0


From 0f794d10d0f2b6d1bf5ac9bdb6f081b881584f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 040/193] fix: fail the tasks of the engine that left, not
 those of another that got its id

---
 ipyparallel/controller/hub.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index dc1fb6b..2bb632b 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -980,12 +980,16 @@ class Hub(LoggingConfigurable):
         self.hearts.pop(ec.ident, None)
         self.expect_stopped_hearts.append(ec.ident)
 
+        # the id may be in use again by the time this is called
+        outstanding = self.queues.pop(eid)
         self.loop.add_timeout(
             self.loop.time() + self.registration_timeout,
-            lambda: self._handle_stranded_msgs(eid, ec.uuid),
+            lambda: self._handle_stranded_msgs(eid, ec.uuid, outstanding),
         )
 
         # cleanup mappings
+        self.tasks.pop(eid)
+        self.completed.pop(eid)
         self.ids.discard(eid)
         self.by_ident.pop(ec.ident, None)
         self.engines.pop(eid, None)
@@ -997,7 +1001,7 @@ class Hub(LoggingConfigurable):
                 self.notifier, "unregistration_notification", content=content
             )
 
-    def _handle_stranded_msgs(self, eid, uuid):
+    def _handle_stranded_msgs(self, eid, uuid, outstanding):
         """Handle messages known to be on an engine when the engine unregisters.
 
         It is possible that this will fire prematurely - that is, an engine will
@@ -1005,9 +1009,9 @@ class Hub(LoggingConfigurable):
         that the result failed and later receive the actual result.
         """
 
-        outstanding = self.queues[eid]
-
         for msg_id in outstanding:
+            if msg_id not in self.pending:
+                continue
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
             try:
-- 
2.43.0


From 2585a7cbd502fbe86363cf7c95710c007313eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 041/193] fix: record results that arrive after their engine
 left

---
 ipyparallel/controller/hub.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 2bb632b..bfe7f2c 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -518,20 +518,24 @@ class Hub(LoggingConfigurable):
             )
             return
 
-        eid = self.by_ident.get(queue_id, None)
-        if eid is None:
-            self.log.error("queue::unknown engine %r is sending a reply: ", queue_id)
-            return
-
         parent = msg['parent_header']
         if not parent:
             return
         msg_id = parent['msg_id']
+
+        eid = self.by_ident.get(queue_id, None)
+        if eid is None:
+            self.log.error("queue::unknown engine %r is sending a reply: ", queue_id)
+            if msg_id not in self.pending:
+                return
+            # the engine finished this before it left
+
         if msg_id in self.pending:
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-            self.queues[eid].remove(msg_id)
-            self.completed[eid].append(msg_id)
+            if eid is not None:
+                self.queues[eid].remove(msg_id)
+                self.completed[eid].append(msg_id)
             self.log.info("queue::request %r completed on %s", msg_id, eid)
         elif msg_id not in self.all_completed:
             # it could be a result from a dead engine that died before delivering the
-- 
2.43.0


From 175f972e54ea90b33eb32328b5fc58aba4108798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 042/193] fix: clients could not retrieve the error of tasks
 that died with their engine

---
 ipyparallel/controller/hub.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index bfe7f2c..5d035d9 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1028,7 +1028,12 @@ class Hub(LoggingConfigurable):
             header = {}
             header['engine'] = uuid
             header['date'] = util.utcnow()
-            rec = dict(result_content=content, result_header=header, result_buffers=[])
+            rec = dict(
+                result_content=content,
+                result_header=header,
+                result_metadata={'engine': uuid},
+                result_buffers=[],
+            )
             rec['completed'] = util.ensure_timezone(header['date'])
             rec['engine_uuid'] = uuid
             try:
-- 
2.43.0


From c154c5b46607d58fa2bd29a5b1b8e051eda60f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 043/193] fix: timeout of a canceled registration purged the
 next one

---
 ipyparallel/controller/hub.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 5d035d9..1054fc1 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -969,6 +969,9 @@ class Hub(LoggingConfigurable):
             if remove_heart_id is not None:
                 self.log.info(f"registration::canceling registration {ec.id}:{ec.uuid}")
                 self.incoming_registrations.pop(remove_heart_id)
+                if ec.stallback is not None:
+                    # don't purge a later registration of the same engine
+                    self.loop.remove_timeout(ec.stallback)
             else:
                 self.log.info(
                     f"registration::unregister_engine({eid}) already unregistered"
-- 
2.43.0


From c4029570ec9c201dec91ee537dfc92f4e11605a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 044/193] fix: reply to registration requests without uuid

---
 ipyparallel/controller/hub.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 1054fc1..a9e3b1f 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -888,6 +888,12 @@ class Hub(LoggingConfigurable):
             uuid = content['uuid']
         except KeyError:
             self.log.error("registration::queue not specified", exc_info=True)
+            self.session.send(
+                self.query,
+                "registration_reply",
+                content=error.wrap_exception(),
+                ident=reg,
+            )
             return
 
         eid = self.new_engine_id(content.get('id'))
-- 
2.43.0


From 8c7a23a112fa9738fa8ff4717694f4efa852ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 045/193] fix: retried tasks stayed in the queue of the first
 engine

---
 ipyparallel/controller/hub.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index a9e3b1f..3d77f77 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -169,7 +169,8 @@ class Hub(LoggingConfigurable):
     heartmonitor_period = Integer()
     pending = Set()
     queues = Dict()  # pending msg_ids keyed by engine_id
-    tasks = Dict()  # pending msg_ids submitted as tasks, keyed by client_id
+    tasks = Dict()  # pending msg_ids submitted as tasks, keyed by engine_id
+    task_engines = Dict()  # engine_id each pending task was sent to last
     completed = Dict()  # completed msg_ids keyed by engine_id
     all_completed = Set()  # completed msg_ids keyed by engine_id
     unassigned = Set()  # set of task msg_ids not yet assigned a destination
@@ -734,11 +735,9 @@ class Hub(LoggingConfigurable):
             self.log.info("task::task %r finished on %s", msg_id, eid)
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-            if eid is not None:
-                if status != 'aborted':
-                    self.completed[eid].append(msg_id)
-                if msg_id in self.tasks[eid]:
-                    self.tasks[eid].remove(msg_id)
+            if eid is not None and status != 'aborted':
+                self.completed[eid].append(msg_id)
+            self._forget_task_destination(msg_id)
             ensure_date_is_parsed(header)
             completed = util.ensure_timezone(header['date'])
             started = extract_dates(md.get('started', None))
@@ -761,6 +760,11 @@ class Hub(LoggingConfigurable):
         else:
             self.log.debug("task::unknown task %r finished", msg_id)
 
+    def _forget_task_destination(self, msg_id):
+        eid = self.task_engines.pop(msg_id, None)
+        if eid in self.tasks and msg_id in self.tasks[eid]:
+            self.tasks[eid].remove(msg_id)
+
     def save_task_destination(self, idents, msg):
         try:
             msg = self.session.deserialize(msg, content=True)
@@ -779,6 +783,9 @@ class Hub(LoggingConfigurable):
         # else:
         #     self.log.debug("task::task %r not listed as MIA?!"%(msg_id))
 
+        # it may have been elsewhere before, if this is a retry
+        self._forget_task_destination(msg_id)
+        self.task_engines[msg_id] = eid
         self.tasks[eid].append(msg_id)
         try:
             self.db.update_record(msg_id, dict(engine_uuid=engine_uuid))
-- 
2.43.0


From b32cd55931fc31d3dcc12a87c56a85286b9a67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 046/193] fix: resubmitted tasks lost their metadata

---
 ipyparallel/controller/hub.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 3d77f77..76bc509 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1314,7 +1314,8 @@ class Hub(LoggingConfigurable):
         reply = dict(status='ok')
         try:
             records = self.db.find_records(
-                {'msg_id': {'$in': msg_ids}}, keys=['header', 'content', 'buffers']
+                {'msg_id': {'$in': msg_ids}},
+                keys=['header', 'metadata', 'content', 'buffers'],
             )
         except Exception:
             self.log.error('db::db error finding tasks to resubmit', exc_info=True)
@@ -1358,6 +1359,8 @@ class Hub(LoggingConfigurable):
             msg = self.session.msg(header['msg_type'], parent=header)
             msg_id = msg['msg_id']
             msg['content'] = rec['content']
+            # dependencies, retries, etc.
+            msg['metadata'] = rec['metadata'] or {}
 
             # use the old header, but update msg_id and timestamp
             fresh = msg['header']
-- 
2.43.0


From 4843258f0c48e44f12e7c478acb7aa96678a11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 047/193] fix: SQLiteDB returned execute_result and error as
 text

---
 ipyparallel/controller/sqlitedb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 846765c..5c6bed0 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -182,8 +182,8 @@ class SQLiteDB(BaseDB):
             'result_buffers': 'bufs blob',
             'queue': 'text',
             'execute_input': 'text',
-            'execute_result': 'text',
-            'error': 'text',
+            'execute_result': 'dict text',
+            'error': 'dict text',
             'stdout': 'text',
             'stderr': 'text',
             'label': 'text',
@@ -306,8 +306,8 @@ class SQLiteDB(BaseDB):
                 result_buffers bufs blob,
                 queue text,
                 execute_input text,
-                execute_result text,
-                error text,
+                execute_result dict text,
+                error dict text,
                 stdout text,
                 stderr text,
                 label text)
-- 
2.43.0


From eef385803f12048b201ce50974ab1c1829b98522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 048/193] fix: a crash while saving engine state lost all of it

---
 ipyparallel/controller/hub.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 76bc509..5a2a70d 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1133,8 +1133,11 @@ class Hub(LoggingConfigurable):
 
         state['next_id'] = self._idcounter
 
-        with open(self.engine_state_file, 'w') as f:
+        # never leave an incomplete file behind
+        tmp_file = self.engine_state_file + ".tmp"
+        with open(tmp_file, 'w') as f:
             json.dump(state, f)
+        os.replace(tmp_file, self.engine_state_file)
 
     def _load_engine_state(self):
         """load engine mapping from JSON file"""
-- 
2.43.0


From 05135e99195f20e8a8d1b64c652cb4dff7a8cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 049/193] fix: engine ids were reused after restarting the hub
 twice

---
 ipyparallel/controller/hub.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 5a2a70d..079cd46 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1149,10 +1149,13 @@ class Hub(LoggingConfigurable):
         with open(self.engine_state_file) as f:
             state = json.load(f)
 
+        # finishing the registrations saves the state
+        self._idcounter = state['next_id']
+
         save_notifier = self.notifier
         self.notifier = None
         for eid, uuid in state['engines'].items():
-            heart = uuid.encode('ascii')
+            heart = uuid.encode('utf8')
 
             self.incoming_registrations[heart] = EngineConnector(
                 id=int(eid), uuid=uuid, ident=heart
@@ -1161,8 +1164,6 @@ class Hub(LoggingConfigurable):
 
         self.notifier = save_notifier
 
-        self._idcounter = state['next_id']
-
     # -------------------------------------------------------------------------
     # Client Requests
     # -------------------------------------------------------------------------
-- 
2.43.0


From d7283b92c0d8b007be746f7c790d843bf69f0437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 050/193] fix: engines that left while the hub was down stayed
 registered

---
 ipyparallel/controller/hub.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 079cd46..7f2fe91 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -176,6 +176,7 @@ class Hub(LoggingConfigurable):
     unassigned = Set()  # set of task msg_ids not yet assigned a destination
     incoming_registrations = Dict()
     registration_timeout = Integer()
+    restored_hearts = Set()  # restored engines that didn't have a heartbeat yet
     _idcounter = Integer(0)
     distributed_scheduler = Any()
 
@@ -417,6 +418,7 @@ class Hub(LoggingConfigurable):
     def handle_new_heart(self, heart):
         """Handle a new heart that just started beating"""
         self.log.debug("heartbeat::handle_new_heart(%r)", heart)
+        self.restored_hearts.discard(heart)
         if heart not in self.incoming_registrations:
             self.log.info("heartbeat::ignoring new heart: %r", heart)
         else:
@@ -1152,6 +1154,15 @@ class Hub(LoggingConfigurable):
         # finishing the registrations saves the state
         self._idcounter = state['next_id']
 
+        self.restored_hearts = {
+            uuid.encode('utf8') for uuid in state['engines'].values()
+        }
+        # the heart monitor doesn't know restored engines,
+        # so it doesn't notice the ones that are gone already
+        self.loop.add_timeout(
+            self.loop.time() + self.registration_timeout, self._purge_restored_engines
+        )
+
         save_notifier = self.notifier
         self.notifier = None
         for eid, uuid in state['engines'].items():
@@ -1164,6 +1175,19 @@ class Hub(LoggingConfigurable):
 
         self.notifier = save_notifier
 
+    def _purge_restored_engines(self):
+        """Unregister restored engines that didn't have a heartbeat since."""
+        # flush monitor messages before purging
+        # first heartbeat might be waiting to be handled
+        self.monitor.flush()
+        for heart in list(self.restored_hearts):
+            self.restored_hearts.discard(heart)
+            if heart in self.hearts:
+                self.log.warning(
+                    f"registration::no heartbeat of restored engine {self.hearts[heart]}"
+                )
+                self.handle_stopped_heart(heart)
+
     # -------------------------------------------------------------------------
     # Client Requests
     # -------------------------------------------------------------------------
-- 
2.43.0


From b87259de4a49f719f68b6d374e054ed73d57bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 051/193] fix: results of engines that registered again were
 lost

---
 ipyparallel/controller/hub.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 7f2fe91..e396360 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -536,7 +536,8 @@ class Hub(LoggingConfigurable):
         if msg_id in self.pending:
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-            if eid is not None:
+            # the engine may have registered again since, with another id
+            if eid is not None and msg_id in self.queues[eid]:
                 self.queues[eid].remove(msg_id)
                 self.completed[eid].append(msg_id)
             self.log.info("queue::request %r completed on %s", msg_id, eid)
-- 
2.43.0


From e70cf9894a13d3e4268ad41b9b9700beec03c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 052/193] fix: a crash after announcing an engine could lead to
 its id being reused

---
 ipyparallel/controller/hub.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index e396360..bf4c750 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1087,6 +1087,8 @@ class Hub(LoggingConfigurable):
         self.tasks[eid] = list()
         self.completed[eid] = list()
         self.hearts[heart] = eid
+        # before announcing the engine, so that its id isn't reused after a crash
+        self._save_engine_state()
         content = dict(id=eid, uuid=ec.uuid)
         if self.notifier:
             self.session.send(
@@ -1094,8 +1096,6 @@ class Hub(LoggingConfigurable):
             )
         self.log.info("engine::Engine Connected: %i", eid)
 
-        self._save_engine_state()
-
     def _purge_stalled_registration(self, heart):
         # flush monitor messages before purging
         # first heartbeat might be waiting to be handled
-- 
2.43.0


From c946d8eeb6ff59457d3659dd89044de0ba67a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 053/193] fix: a crash while restoring engines lost some of
 them

---
 ipyparallel/controller/hub.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index bf4c750..702161f 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1152,7 +1152,6 @@ class Hub(LoggingConfigurable):
         with open(self.engine_state_file) as f:
             state = json.load(f)
 
-        # finishing the registrations saves the state
         self._idcounter = state['next_id']
 
         self.restored_hearts = {
@@ -1166,6 +1165,9 @@ class Hub(LoggingConfigurable):
 
         save_notifier = self.notifier
         self.notifier = None
+        # don't replace the state by an incomplete one
+        engine_state_file = self.engine_state_file
+        self.engine_state_file = ''
         for eid, uuid in state['engines'].items():
             heart = uuid.encode('utf8')
 
@@ -1175,6 +1177,7 @@ class Hub(LoggingConfigurable):
             self.finish_registration(heart)
 
         self.notifier = save_notifier
+        self.engine_state_file = engine_state_file
 
     def _purge_restored_engines(self):
         """Unregister restored engines that didn't have a heartbeat since."""
-- 
2.43.0


From 89b05ae1db8b76708d15f77afa7586ce51137374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 054/193] fix: broadcast schedulers in the same process mixed
 up their replies

---
 ipyparallel/controller/broadcast_scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 667b9b1..4b93212 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -1,7 +1,7 @@
 import logging
 
 import zmq
-from traitlets import Bool, Bytes, Integer, List, Unicode
+from traitlets import Bool, Bytes, Dict, Integer, List, Unicode
 
 from ipyparallel import util
 from ipyparallel.controller.scheduler import (
@@ -13,8 +13,8 @@ from ipyparallel.controller.scheduler import (
 
 class BroadcastScheduler(Scheduler):
     port_name = 'broadcast'
-    accumulated_replies = {}
-    accumulated_targets = {}
+    accumulated_replies = Dict()
+    accumulated_targets = Dict()
     is_leaf = Bool(False)
     connected_sub_scheduler_ids = List(Bytes())
     outgoing_streams = List()
-- 
2.43.0


From 68f5fdeeb0e572315d46cf5ac4be8c4a113bcf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 055/193] fix: combined replies of a single broadcast scheduler
 named the wrong targets

---
 ipyparallel/controller/broadcast_scheduler.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 4b93212..8688484 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -34,13 +34,13 @@ class BroadcastScheduler(Scheduler):
     def send_to_targets(self, msg, original_msg_id, targets, idents, is_coalescing):
         if is_coalescing:
             self.accumulated_replies[original_msg_id] = {
-                target.encode('utf8'): None for target in targets
+                ident.encode('utf8'): None for ident, _ in targets
             }
             self.accumulated_targets[original_msg_id] = targets
 
-        for target in targets:
+        for ident, _ in targets:
             new_msg = self.append_new_msg_id_to_msg(
-                self.get_new_msg_id(original_msg_id, target), target, idents, msg
+                self.get_new_msg_id(original_msg_id, ident), ident, idents, msg
             )
             self.engine_stream.send_multipart(new_msg, copy=False)
 
@@ -137,10 +137,7 @@ class BroadcastScheduler(Scheduler):
 
         original_msg_id = metadata['original_msg_id']
         if self.is_leaf:
-            target_idents = [t[0] for t in targets]
-            self.send_to_targets(
-                msg, original_msg_id, target_idents, idents, is_coalescing
-            )
+            self.send_to_targets(msg, original_msg_id, targets, idents, is_coalescing)
         else:
             self.send_to_sub_schedulers(
                 msg, original_msg_id, targets, idents, is_coalescing
-- 
2.43.0


From b914c48f44d0dce77e70f96cf5207c0ca83bb1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 056/193] fix: errors on engines were masked in combined
 broadcast replies

---
 ipyparallel/controller/broadcast_scheduler.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 8688484..e3bd3ef 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -86,17 +86,22 @@ class BroadcastScheduler(Scheduler):
             self.outgoing_streams[i].send_multipart(new_msg, copy=False)
 
     def coalescing_reply(self, raw_msg, msg, original_msg_id, outgoing_id, idents):
-        # accumulate buffers
-        self.accumulated_replies[original_msg_id][outgoing_id] = msg['buffers']
+        # accumulate replies
+        self.accumulated_replies[original_msg_id][outgoing_id] = msg
         if all(
-            msg_buffers is not None
-            for msg_buffers in self.accumulated_replies[original_msg_id].values()
+            reply is not None
+            for reply in self.accumulated_replies[original_msg_id].values()
         ):
             replies = self.accumulated_replies.pop(original_msg_id)
             self.log.debug(f"Coalescing {len(replies)} reply to {original_msg_id}")
             targets = self.accumulated_targets.pop(original_msg_id)
 
+            # don't let successes hide a failure
             new_msg = msg.copy()
+            for reply in replies.values():
+                if reply['metadata'].get('status', 'ok') != 'ok':
+                    new_msg = reply.copy()
+                    break
             # begin rebuilding message
             # metadata['targets']
             if self.is_leaf:
@@ -106,8 +111,8 @@ class BroadcastScheduler(Scheduler):
 
             # avoid duplicated msg buffers
             buffers = []
-            for sub_target, msg_buffers in replies.items():
-                buffers.extend(msg_buffers)
+            for sub_target, reply in replies.items():
+                buffers.extend(reply['buffers'])
                 if not self.is_leaf:
                     new_msg['metadata']['broadcast_targets'].extend(targets[sub_target])
 
-- 
2.43.0


From 703de38bc1d7aee5db5521865e69e493847dc485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 057/193] fix: combined replies through several levels of
 broadcast schedulers attributed results to the wrong engines

---
 ipyparallel/controller/broadcast_scheduler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index e3bd3ef..f708379 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -104,17 +104,16 @@ class BroadcastScheduler(Scheduler):
                     break
             # begin rebuilding message
             # metadata['targets']
-            if self.is_leaf:
-                new_msg['metadata']['broadcast_targets'] = targets
-            else:
-                new_msg['metadata']['broadcast_targets'] = []
+            broadcast_targets = list(targets) if self.is_leaf else []
 
             # avoid duplicated msg buffers
             buffers = []
-            for sub_target, reply in replies.items():
+            for reply in replies.values():
                 buffers.extend(reply['buffers'])
                 if not self.is_leaf:
-                    new_msg['metadata']['broadcast_targets'].extend(targets[sub_target])
+                    # in the order of the results
+                    broadcast_targets.extend(reply['metadata']['broadcast_targets'])
+            new_msg['metadata']['broadcast_targets'] = broadcast_targets
 
             new_raw_msg = self.session.serialize(new_msg)
             self.client_stream.send_multipart(
-- 
2.43.0


From 07acacb1e0c6e125dde14003ec09fbccd61758b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 058/193] fix: a broadcast is done when all of its targets have
 replied

Without coalescing, the broadcast's own message id stayed outstanding forever,
so that waiting for all outstanding messages never returned.
---
 ipyparallel/client/view.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index f5ca23b..8a57ebd 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -946,8 +946,6 @@ class BroadcastView(DirectView):
                 self.client._outstanding_dict[ident].add(msg_and_target_id)
                 self.outstanding.add(msg_and_target_id)
                 futures.append(future[0])
-            if original_msg_id in self.outstanding:
-                self.outstanding.remove(original_msg_id)
         else:
             self.client.outstanding.add(original_msg_id)
             for ident in s_idents:
@@ -956,6 +954,18 @@ class BroadcastView(DirectView):
 
         ar = AsyncResult(self.client, futures, owner=True, **kwargs)
 
+        if not self.is_coalescing:
+            # the broadcast message itself gets no reply:
+            # it is done when all of its targets are
+            def _resolve_original(f):
+                self.client.outstanding.discard(original_msg_id)
+                message_future.set_result(f.result())
+
+            ar._result_future.add_done_callback(_resolve_original)
+            ar._output_future.add_done_callback(
+                lambda f: message_future.output.set_result(None)
+            )
+
         if self.is_coalescing:
             # if coalescing, discard outstanding-tracking when we are done
             def _rm_outstanding(_):
-- 
2.43.0


From ce76d8081abee3c80b482bf59f3a66c3b9dd560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 059/193] fix: BroadcastView.map works when the view is
 blocking

view.map(..., block=True) on a view with block=True raised AttributeError:
the map call itself was already blocking.
---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 8a57ebd..82e4942 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1165,7 +1165,7 @@ class BroadcastView(DirectView):
             scatter_chunk_sizes = ar._scatter_lengths
 
         # submit the map tasks as an actual broadcast
-        ar = self.apply(self._broadcast_map, f, *seq_names)
+        ar = self.apply_async(self._broadcast_map, f, *seq_names)
         ar.owner = False
         # re-wrap messages in an AsyncMapResult to get map API
         # this is where the 'gather' reconstruction happens
-- 
2.43.0


From da85281287cdf1c767f700dd71a853d28839941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 060/193] fix: BroadcastView.map pairs elements of sequences of
 different lengths as map does

each sequence was partitioned by its own length, so that elements at different
positions were combined.
---
 ipyparallel/client/view.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 82e4942..9e5c82b 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -11,6 +11,7 @@ import time
 import warnings
 from collections import deque
 from contextlib import contextmanager
+from itertools import islice
 
 from decorator import decorator
 from IPython import get_ipython
@@ -1151,15 +1152,24 @@ class BroadcastView(DirectView):
         dist = 'b'
         map_object = Map.dists[dist]()
 
-        seq_names = []
-        for i, seq in enumerate(sequences):
-            seq_name = f"_seq_{map_key}_{i}"
-            seq_names.append(seq_name)
+        sized_sequences = []
+        for seq in sequences:
             try:
                 len(seq)
             except Exception:
                 # cast length-less sequences (e.g. Range) to list
                 seq = list(seq)
+            sized_sequences.append(seq)
+        # like map, stop at the end of the shortest sequence,
+        # so that the partitions of all sequences match
+        n = min((len(seq) for seq in sized_sequences), default=0)
+
+        seq_names = []
+        for i, seq in enumerate(sized_sequences):
+            seq_name = f"_seq_{map_key}_{i}"
+            seq_names.append(seq_name)
+            if len(seq) > n:
+                seq = list(islice(seq, n))
 
             ar = self.scatter(seq_name, seq, dist=dist, block=False, track=track)
             scatter_chunk_sizes = ar._scatter_lengths
-- 
2.43.0


From d4774db81dbb94744e4cdf4a1da08d9a2655c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 061/193] fix: results of a coalescing broadcast are in the
 order of its targets

They came in the order in which the scheduler tree collected them.
---
 ipyparallel/client/client.py | 8 ++++++++
 ipyparallel/client/view.py   | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0e7fd64..f7d1ddb 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1006,6 +1006,14 @@ class Client(HasTraits):
                 while bufs:
                     deserialized, bufs = serialize.deserialize_object(bufs)
                     deserialized_bufs.append(deserialized)
+                # replies are collected in any order,
+                # results are in the order of the targets
+                targets = getattr(future, "broadcast_targets", None)
+                if targets and sorted(targets) == sorted(md['engine_uuid']):
+                    order = [md['engine_uuid'].index(uuid) for uuid in targets]
+                    for key in ('engine_uuid', 'engine_id'):
+                        md[key] = [md[key][i] for i in order]
+                    deserialized_bufs = [deserialized_bufs[i] for i in order]
                 self.results[msg_id] = deserialized_bufs
             else:
                 self.results[msg_id] = serialize.deserialize_object(msg['buffers'])[0]
diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 9e5c82b..e2ae068 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -951,6 +951,8 @@ class BroadcastView(DirectView):
             self.client.outstanding.add(original_msg_id)
             for ident in s_idents:
                 self.client._outstanding_dict[ident].add(original_msg_id)
+            # for putting the results in order
+            message_future.broadcast_targets = list(s_idents)
             futures = message_future
 
         ar = AsyncResult(self.client, futures, owner=True, **kwargs)
-- 
2.43.0


From 26ce081fee47b2c467ee2b89aed20462a1fa0b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 062/193] fix: get_dict works for a coalescing broadcast

it raised TypeError: unhashable type: 'list'
---
 ipyparallel/client/asyncresult.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3478d34..e8e1972 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -571,9 +571,13 @@ class AsyncResult(Future):
         """
 
         results = self.get(timeout)
-        if self._single_result:
-            results = [results]
         engine_ids = [md['engine_id'] for md in self._metadata]
+        if self._single_result:
+            if isinstance(engine_ids[0], list):
+                # coalescing broadcast: one message, with the results of all engines
+                engine_ids = engine_ids[0]
+            else:
+                results = [results]
 
         rdict = {}
         for engine_id, result in zip(engine_ids, results):
-- 
2.43.0


From 7df8d9fe5de69b6744a6b7545d66bd8b3664861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:11 +0000
Subject: [PATCH 063/193] fix: temp_flags left flags changed if one of them is
 invalid

---
 ipyparallel/client/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index e2ae068..272d2f2 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -182,9 +182,10 @@ class View(HasTraits):
         saved_flags = {}
         for f in self._flag_names:
             saved_flags[f] = getattr(self, f)
-        self.set_flags(**kwargs)
         # yield to the with-statement block
         try:
+            # also restore if only some of the flags are valid
+            self.set_flags(**kwargs)
             yield
         finally:
             # postflight: restore saved flags
-- 
2.43.0


From 314918e26b05044b811752e4fa42c2059e3856f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 064/193] fix: the timeout flag of load-balanced views could
 not be reset to None

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 272d2f2..cad3404 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1248,7 +1248,7 @@ class LoadBalancedView(View):
 
     follow = Any()
     after = Any()
-    timeout = CFloat()
+    timeout = CFloat(allow_none=True)
     retries = Integer(0)
     label = Any()
 
-- 
2.43.0


From 40564088e64ca2519c117f13b3601111080c4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 065/193] fix: map and parallel functions sent work to some
 engines before failing on another

---
 ipyparallel/client/remotefunction.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 5b7a935..b5626a1 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -255,13 +255,9 @@ class ParallelFunction(RemoteFunction):
                     "`chunksize` is ignored unless load balancing", UserWarning
                 )
             # multiplexed:
-            targets = self.view.targets
-            # 'all' is lazily evaluated at execution time, which is now:
-            if targets == 'all':
-                targets = client._build_targets(targets)[1]
-            elif isinstance(targets, int):
-                # single-engine view, targets must be iterable
-                targets = [targets]
+            # 'all' is lazily evaluated at execution time, which is now.
+            # Don't send anything if any of them is invalid.
+            targets = client._build_targets(self.view.targets)[1]
             nparts = len(targets)
 
         futures = []
-- 
2.43.0


From 28cc96bff4077df1ad9278a3f87298818e29b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 066/193] fix: queue_status of a negative index raised KeyError

---
 ipyparallel/client/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index f7d1ddb..a513daf 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2334,7 +2334,8 @@ class Client(HasTraits):
             raise self._unwrap_exception(content)
         content = util.int_keys(content)
         if isinstance(targets, int):
-            return content[targets]
+            # may be a negative index
+            return content[engine_ids[0]]
         else:
             return content
 
-- 
2.43.0


From 82348e26ac1210a228eede94ecf9489b28286ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 067/193] fix: client metadata had a 'submitted' entry that is
 no message

The time of submission is set in create_message_futures.
---
 ipyparallel/client/client.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index a513daf..eb24543 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1293,7 +1293,6 @@ class Client(HasTraits):
                 if ident_str in self._engines.values():
                     # save for later, in case of engine death
                     self._outstanding_dict[ident_str].add(msg_id)
-            self.metadata['submitted'] = util.utcnow()
 
         if expect_reply:
             futures = self.create_message_futures(
-- 
2.43.0


From 506c7ed93456018dd25f86c9dd1abb5c5c558788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 068/193] fix: view history had ids twice, or all of the
 client's history

Twice after gather and load-balanced map, which call methods that save
ids themselves; the whole client history (history[-0:]) if nothing was
sent, e.g. because the call failed.
---
 ipyparallel/client/view.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index cad3404..23d3fba 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -36,12 +36,14 @@ from .remotefunction import ParallelFunction, getname, parallel, remote
 def save_ids(f, self, *args, **kwargs):
     """Keep our history and outstanding attributes up to date after a method call."""
     n_previous = len(self.client.history)
+    n_saved = len(self.history)
     try:
         ret = f(self, *args, **kwargs)
     finally:
-        nmsgs = len(self.client.history) - n_previous
-        msg_ids = self.client.history[-nmsgs:]
-        self.history.extend(msg_ids)
+        msg_ids = self.client.history[n_previous:]
+        # nested calls have saved their ids already
+        saved = set(self.history[n_saved:])
+        self.history.extend(msg_id for msg_id in msg_ids if msg_id not in saved)
         self.outstanding.update(msg_ids)
     return ret
 
-- 
2.43.0


From 455860941d19751bcfb89c6ea96ab2932de1ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 069/193] fix: messages of DirectView.map were missing in the
 view's history

view.wait() and view.abort() ignored them.
---
 ipyparallel/client/remotefunction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index b5626a1..551534e 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -292,6 +292,11 @@ class ParallelFunction(RemoteFunction):
                 ar = view.apply(f, *args)
                 ar.owner = False
 
+            if view is not self.view:
+                # sent by another view, but on behalf of this one
+                self.view.history.extend(ar.msg_ids)
+                self.view.outstanding.update(ar.msg_ids)
+
             msg_id = ar.msg_ids[0]
             chunk_sizes[msg_id] = chunk_size
             futures.extend(ar._children)
-- 
2.43.0


From 97aa0826609958d0114a87063bb04dd6f2ab194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 070/193] fix: msg_id of a coalescing broadcast's metadata was
 one engine's

It is the id of the message that was sent, and keys the results.
---
 ipyparallel/client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index eb24543..36547c8 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -832,6 +832,8 @@ class Client(HasTraits):
         if md['is_coalescing']:
             # get destinations from target metadata
             targets = msg_meta.get("broadcast_targets", [])
+            # the parent is the message to one of them
+            md['msg_id'] = msg_meta['original_msg_id']
             md['engine_uuid'], md['engine_id'] = map(list, zip(*targets))
 
         if 'date' in parent:
-- 
2.43.0


From d19af06ca438e6ce2707d340e4ffeb330f156e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 071/193] fix: purging results by engine did nothing, or raised
 for engine 0

The engines' identities were compared as bytes with strings; engine id
(or history index) 0 was taken as unspecified.
---
 ipyparallel/client/client.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 36547c8..20920cf 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -256,6 +256,11 @@ def _is_future(f):
 _cr_pat = re.compile(r'.*\r(?=[^\n])')
 
 
+def _unspecified(arg):
+    """whether an argument is None or empty. 0 is an engine id or history index."""
+    return not arg and not isinstance(arg, int)
+
+
 class Client(HasTraits):
     """A semi-synchronous client to an IPython parallel cluster
 
@@ -2342,13 +2347,21 @@ class Client(HasTraits):
 
     def _msg_ids_from_target(self, targets=None):
         """Build a list of msg_ids from the list of engine targets"""
-        if not targets:  # needed as _build_targets otherwise uses all engines
+        # needed as _build_targets otherwise uses all engines
+        if _unspecified(targets):
             return []
-        target_ids = self._build_targets(targets)[0]
+        target_ids = {ident.decode("utf8") for ident in self._build_targets(targets)[0]}
+
+        def on_targets(engine_uuid):
+            if isinstance(engine_uuid, list):
+                # coalescing broadcast
+                return not target_ids.isdisjoint(engine_uuid)
+            return engine_uuid in target_ids
+
         return [
-            md_id
-            for md_id in self.metadata
-            if self.metadata[md_id]["engine_uuid"] in target_ids
+            msg_id
+            for msg_id, md in list(self.metadata.items())
+            if on_targets(md["engine_uuid"])
         ]
 
     def _msg_ids_from_jobs(self, jobs=None):
@@ -2442,7 +2455,7 @@ class Client(HasTraits):
         RuntimeError : if any of the tasks to be purged are still outstanding.
 
         """
-        if not targets and not jobs:
+        if _unspecified(targets) and _unspecified(jobs):
             raise ValueError("Must specify at least one of `targets` and `jobs`")
 
         if jobs == 'all':
@@ -2484,9 +2497,9 @@ class Client(HasTraits):
 
             default : None
         """
-        if not targets and not jobs:
+        if _unspecified(targets) and _unspecified(jobs):
             raise ValueError("Must specify at least one of `targets` and `jobs`")
-        if targets:
+        if not _unspecified(targets):
             targets = self._build_targets(targets)[1]
 
         # construct msg_ids from jobs
-- 
2.43.0


From ca2c09249034024678c56d6cd99ccea8fa4d980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 072/193] fix: get_result lost some of its jobs

Of an AsyncResult of several messages all but the first were dropped;
in a mixture, those not finished were dropped if others had to be
requested from the Hub; ids of pending messages next to AsyncResults
raised AttributeError.
---
 ipyparallel/client/client.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 20920cf..73de132 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2390,42 +2390,42 @@ class Client(HasTraits):
     def _asyncresult_from_jobs(self, jobs=None, owner=False):
         """Construct an AsyncResult from msg_ids or asyncresult objects"""
         if not isinstance(jobs, (list, tuple, set, types.GeneratorType)):
-            single = True
+            # an AsyncResult may have many parts
+            single = not isinstance(jobs, AsyncResult) or jobs._single_result
             jobs = [jobs]
         else:
             single = False
-        futures = []
         msg_ids = []
+        # those that need not be requested from the Hub
+        futures = {}
         for job in jobs:
             if isinstance(job, int):
                 job = self.history[job]
             if isinstance(job, str):
-                if job in self._futures:
-                    futures.append(job)
-                elif job in self.results:
+                msg_ids.append(job)
+                f = self._futures.get(job)
+                if f is None and job in self.results:
                     f = MessageFuture(job)
                     f.set_result(self.results[job])
                     f.output = Future()
                     f.output.metadata = self.metadata[job]
                     f.output.set_result(None)
-                    futures.append(f)
-                else:
-                    msg_ids.append(job)
+                if f is not None:
+                    futures[job] = f
             elif isinstance(job, AsyncResult):
-                if job._children:
-                    futures.extend(job._children)
-                else:
-                    msg_ids.extend(job.msg_ids)
+                msg_ids.extend(job.msg_ids)
+                futures.update(zip(job.msg_ids, job._children))
             else:
                 raise TypeError(f"Expected msg_id, int, or AsyncResult, got {job!r}")
-        if msg_ids:
+        if all(msg_id in futures for msg_id in msg_ids):
+            children = [futures[msg_id] for msg_id in msg_ids]
+            if single and children:
+                children = children[0]
+            return AsyncResult(self, children, owner=owner)
+        else:
             if single:
                 msg_ids = msg_ids[0]
             return AsyncHubResult(self, msg_ids, owner=owner)
-        else:
-            if single and futures:
-                futures = futures[0]
-            return AsyncResult(self, futures, owner=owner)
 
     def purge_local_results(self, jobs=[], targets=[]):
         """Clears the client caches of results and their metadata.
-- 
2.43.0


From 532ac08b5f914fd0aaba1c16d555cd8500e34973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 073/193] fix: result_status asked the Hub for results it had

Removing ids from the list being iterated skipped every other one.
---
 ipyparallel/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 73de132..0c7e2a0 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2244,7 +2244,7 @@ class Client(HasTraits):
         local_results = {}
 
         # comment this block out to temporarily disable local shortcut:
-        for msg_id in theids:
+        for msg_id in list(theids):
             if msg_id in self.results:
                 completed.append(msg_id)
                 local_results[msg_id] = self.results[msg_id]
-- 
2.43.0


From 2fd28711d0e79485b1eb4c11f9cf3ff73d7aa75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 074/193] fix: waiting for results from the Hub raised their
 errors

AsyncHubResult.wait and ready raised the error of a failed task instead
of returning, and get(return_exceptions=True) raised it, or
AttributeError.
---
 ipyparallel/client/asyncresult.py | 14 ++++++++++----
 ipyparallel/client/client.py      | 11 ++++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index e8e1972..01579bb 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1179,12 +1179,17 @@ class AsyncHubResult(AsyncResult):
             if not remote_ids:
                 self._ready = True
             else:
-                rdict = self._client.result_status(remote_ids, status_only=False)
+                # errors are raised in get
+                rdict = self._client._result_status(
+                    remote_ids, status_only=False, raise_failures=False
+                )
                 pending = rdict['pending']
                 while pending and (
                     timeout is None or time.perf_counter() < start + timeout
                 ):
-                    rdict = self._client.result_status(remote_ids, status_only=False)
+                    rdict = self._client._result_status(
+                        remote_ids, status_only=False, raise_failures=False
+                    )
                     pending = rdict['pending']
                     if pending:
                         time.sleep(0.1)
@@ -1194,6 +1199,7 @@ class AsyncHubResult(AsyncResult):
             self._output_ready = True
             try:
                 results = list(map(self._client.results.get, self.msg_ids))
+                self._raw_results = results
                 if self._single_result:
                     r = results[0]
                     if isinstance(r, Exception) and not self._return_exceptions:
@@ -1207,8 +1213,8 @@ class AsyncHubResult(AsyncResult):
                 self.set_exception(e)
             finally:
                 if self.owner:
-                    [self._client.metadata.pop(mid) for mid in self.msg_ids]
-                    [self._client.results.pop(mid) for mid in self.msg_ids]
+                    [self._client.metadata.pop(mid, None) for mid in self.msg_ids]
+                    [self._client.results.pop(mid, None) for mid in self.msg_ids]
 
         return self._ready
 
diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0c7e2a0..eb3fc3b 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2238,6 +2238,10 @@ class Client(HasTraits):
             be lists of msg_ids that are incomplete or complete. If `status_only`
             is False, then completed results will be keyed by their `msg_id`.
         """
+        return self._result_status(msg_ids, status_only=status_only)
+
+    def _result_status(self, msg_ids, status_only=True, raise_failures=True):
+        """result_status, optionally without raising the errors of failed tasks"""
         theids = self._msg_ids_from_jobs(msg_ids)
 
         completed = []
@@ -2310,10 +2314,11 @@ class Client(HasTraits):
                 self.results[msg_id] = res
                 content[msg_id] = res
 
-        if len(theids) == 1 and failures:
-            raise failures[0]
+        if raise_failures:
+            if len(theids) == 1 and failures:
+                raise failures[0]
 
-        error.collect_exceptions(failures, "result_status")
+            error.collect_exceptions(failures, "result_status")
         return content
 
     def queue_status(self, targets='all', verbose=False):
-- 
2.43.0


From 012d6b93bd6ebbb8ab9825771c1d6fc75199ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 075/193] fix: late replies of engines thought dead raised in
 the IO thread

The result was looked up after it was discarded, or set twice.
---
 ipyparallel/client/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index eb3fc3b..9d38f74 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -962,7 +962,7 @@ class Client(HasTraits):
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
-        if future:
+        if future and not future.done():
             future.set_result(self.results[msg_id])
 
     def _should_use_metadata_msg_id(self, msg):
@@ -981,7 +981,7 @@ class Client(HasTraits):
         if msg_id not in self.outstanding:
             if msg_id in self.history:
                 print(f"got stale result: {msg_id}")
-                print(self.results[msg_id])
+                print(self.results.get(msg_id))
                 print(msg)
             else:
                 print(f"got unknown result: {msg_id}")
@@ -1039,7 +1039,7 @@ class Client(HasTraits):
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
-        if future:
+        if future and not future.done():
             future.set_result(self.results[msg_id])
 
     def _make_io_loop(self):
-- 
2.43.0


From 67326a59175429649b94f14c9830e2b667b492cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 076/193] fix: getting the result of an aborted task from the
 Hub raised KeyError

---
 ipyparallel/client/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 9d38f74..52f46ec 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2307,6 +2307,9 @@ class Client(HasTraits):
                         raise KeyError(
                             "unhandled msg type: {!r}".format(header['msg_type'])
                         )
+                elif rcontent['status'] == 'aborted':
+                    res = error.TaskAborted(msg_id)
+                    failures.append(res)
                 else:
                     res = self._unwrap_exception(rcontent)
                     failures.append(res)
-- 
2.43.0


From 33c9a84fd52971b3af302cc6c57d484c6392458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 077/193] fix: results that can't be put together were never
 ready

The exception was logged, and get waited forever.
---
 ipyparallel/client/asyncresult.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 01579bb..9ec5284 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -528,12 +528,13 @@ class AsyncResult(Future):
                     raise r
             else:
                 results = self._collect_exceptions(results)
+            result = self._reconstruct_result(results)
         except Exception as e:
             self._success = False
             self.set_exception(e)
         else:
             self._success = True
-            self.set_result(self._reconstruct_result(results))
+            self.set_result(result)
 
     def _collect_exceptions(self, results):
         """Wrap Exceptions in a CompositeError
-- 
2.43.0


From d7ea790a39e6f15eda83ee5c0ecd874cafef334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 078/193] fix: nested CompositeErrors lost all of their errors

They have no ename, and were listed as (None, None, None, None).
---
 ipyparallel/error.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index d09144e..7e598a1 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -230,17 +230,14 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
     else:
         rlist = rdict_or_list
     for r in rlist:
-        if isinstance(r, RemoteError):
-            en, ev, etb, ei = r.ename, r.evalue, r.traceback, r.engine_info
-            # Sometimes we could have CompositeError in our list.  Just take
-            # the errors out of them and put them in our new list.  This
-            # has the effect of flattening lists of CompositeErrors into one
-            # CompositeError
-            if en == 'CompositeError':
-                for e in ev.elist:
-                    elist.append(e)
-            else:
-                elist.append((en, ev, etb, ei))
+        # Sometimes we could have CompositeError in our list.  Just take
+        # the errors out of them and put them in our new list.  This
+        # has the effect of flattening lists of CompositeErrors into one
+        # CompositeError
+        if isinstance(r, CompositeError):
+            elist.extend(r.elist)
+        elif isinstance(r, RemoteError):
+            elist.append((r.ename, r.evalue, r.traceback, r.engine_info))
     if len(elist) == 0:
         return rdict_or_list
     else:
-- 
2.43.0


From 639c21fe27814f4757fc57198a700f2a22425864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 079/193] fix: aborted tasks counted as successes if there were
 others

The exception was part of the result, and maps with aborted tasks were
never ready.
---
 ipyparallel/error.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index 7e598a1..9801d6e 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -238,6 +238,9 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
             elist.extend(r.elist)
         elif isinstance(r, RemoteError):
             elist.append((r.ename, r.evalue, r.traceback, r.engine_info))
+        elif isinstance(r, TaskAborted):
+            # not raised on an engine
+            elist.append((type(r).__name__, str(r), '', {}))
     if len(elist) == 0:
         return rdict_or_list
     else:
-- 
2.43.0


From 27bdea9d0e44e6f8dc237c4c5d6ec5a6b2aff550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 080/193] fix: tasks of dead engines stayed outstanding if the
 Hub's record was seen

If their failure was retrieved with result_status before the client was
notified of the engine's death, they were never finished.
---
 ipyparallel/client/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 52f46ec..8b2968a 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -889,8 +889,8 @@ class Client(HasTraits):
         outstanding = self._outstanding_dict[uuid]
 
         for msg_id in list(outstanding):
-            if msg_id in self.results:
-                # we already
+            if msg_id in self.results and msg_id not in self.outstanding:
+                # we already have the result
                 continue
             try:
                 raise error.EngineError(
-- 
2.43.0


From 0ddd787c56e66db3250d0febc2b2aa37521a589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 081/193] fix: dependencies in dictionary form as flags of
 load-balanced views

---
 ipyparallel/client/view.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 23d3fba..ca5f83b 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1278,9 +1278,9 @@ class LoadBalancedView(View):
         elif isinstance(dep, dict):
             if set(dep.keys()) != set(Dependency().as_dict().keys()):
                 return False
-            if not isinstance(dep['msg_ids'], list):
+            if not isinstance(dep['dependencies'], list):
                 return False
-            for d in dep['msg_ids']:
+            for d in dep['dependencies']:
                 if not isinstance(d, str):
                     return False
         else:
@@ -1298,7 +1298,11 @@ class LoadBalancedView(View):
             return []
         else:
             # pass to Dependency constructor
-            return list(Dependency(dep))
+            dependency = Dependency(dep)
+            if isinstance(dep, dict):
+                # keep how it is to be satisfied
+                return dependency.as_dict()
+            return list(dependency)
 
     def set_flags(self, **kwargs):
         """set my attribute flags by keyword.
-- 
2.43.0


From 4da05ebfecc7d553073c7a9fa91fc9d2afedf5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 082/193] fix: joining and aborting parts of load-balanced
 results

---
 ipyparallel/client/asyncresult.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 9ec5284..6a7baa3 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -412,12 +412,18 @@ class AsyncResult(Future):
             # only one AsyncResult, nothing to join
             return first
 
+        if any(ar._targets is None for ar in async_results):
+            # load-balanced
+            targets = None
+        else:
+            targets = list(chain(*(ar._targets for ar in async_results)))
+
         return cls(
             client=first._client,
             fname=first._fname,
             return_exceptions=first._return_exceptions,
             children=list(chain(*(ar._children for ar in async_results))),
-            targets=list(chain(*(ar._targets for ar in async_results))),
+            targets=targets,
             owner=False,
         )
 
@@ -447,7 +453,7 @@ class AsyncResult(Future):
             AsyncResult(
                 client=self._client,
                 children=msg_future if flatten else [msg_future],
-                targets=[engine_id],
+                targets=None if self._targets is None else [engine_id],
                 fname=self._fname,
                 owner=False,
                 return_exceptions=self._return_exceptions,
-- 
2.43.0


From bd3634f977285b9fa3cd84ff8cc2052f2e46c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 083/193] fix: get(return_exceptions=True) of maps with
 failures

---
 ipyparallel/client/asyncresult.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 6a7baa3..cdfc47c 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1098,18 +1098,17 @@ class AsyncMapResult(AsyncResult):
 
     def _reconstruct_result(self, res):
         """Perform the gather on the actual results."""
-        if self._return_exceptions:
-            if any(isinstance(r, Exception) for r in res):
-                # running with _return_exceptions,
-                # cannot reconstruct original
-                # use simple chain iterable
-                flattened = []
-                for r in res:
-                    if isinstance(r, Exception):
-                        flattened.append(r)
-                    else:
-                        flattened.extend(r)
-                return flattened
+        if any(isinstance(r, Exception) for r in res):
+            # returning exceptions,
+            # cannot reconstruct original
+            # use simple chain iterable
+            flattened = []
+            for r in res:
+                if isinstance(r, Exception):
+                    flattened.append(r)
+                else:
+                    flattened.extend(r)
+            return flattened
         return self._mapObject.joinPartitions(res)
 
     # asynchronous iterator:
-- 
2.43.0


From 3b1690bc602e3963bc4555b5598d4df342ff5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 084/193] fix: results of broadcasts know when they have been
 sent

---
 ipyparallel/client/view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index ca5f83b..569795e 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -944,8 +944,10 @@ class BroadcastView(DirectView):
                     msg_and_target_id,
                     message_future.header,
                     async_result=True,
-                    track=True,
+                    track=message_future.track,
                 )
+                # only one message is sent
+                future[0].tracker = message_future.tracker
                 self.client.outstanding.add(msg_and_target_id)
                 self.client._outstanding_dict[ident].add(msg_and_target_id)
                 self.outstanding.add(msg_and_target_id)
-- 
2.43.0


From 40a6655f7864d54cd7c38d1d14912b3400478f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 085/193] fix: errors of the input of lazy maps

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 569795e..45cb2a4 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1688,7 +1688,7 @@ class LoadBalancedView(View):
                 # exception consuming iterator, propagate
                 ar = concurrent.futures.Future()
                 # mock get so it gets re-raised when awaited
-                ar.get = lambda *args: ar.result()
+                ar.get = lambda *args, **kwargs: ar.result()
                 ar.set_exception(e)
                 with outstanding_lock:
                     add_outstanding(ar)
-- 
2.43.0


From d9bc0124c2d711ce4d1ed51bfe8decabcbf19d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 086/193] fix: lazy maps are over after an error

---
 ipyparallel/client/view.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 45cb2a4..31f6d59 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1726,10 +1726,14 @@ class LoadBalancedView(View):
         def iter_results():
             nonlocal outstanding
             with consumer_pool:
-                while not iterator_done:
-                    # yield results as they become ready
-                    for ready_ar in wait_for_ready():
-                        yield ready_ar.get(return_exceptions=return_exceptions)
+                try:
+                    while not iterator_done:
+                        # yield results as they become ready
+                        for ready_ar in wait_for_ready():
+                            yield ready_ar.get(return_exceptions=return_exceptions)
+                finally:
+                    # nobody will ask for more after an error
+                    signal_done()
 
             # yield any remaining results
             if ordered:
-- 
2.43.0


From ac337a52e7e1eb61c1317217075a06008ad7be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 087/193] fix: shutdown of executors of direct views

---
 ipyparallel/client/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 31f6d59..1ec2af3 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1805,7 +1805,8 @@ class ViewExecutor(concurrent.futures.Executor):
         if wait:
             # wait for *submission* of outstanding maps,
             # otherwise view.wait won't know what to wait for
-            outstanding_maps = getattr(self.view, "_outstanding_maps")
+            # (only load-balanced views submit lazily)
+            outstanding_maps = getattr(self.view, "_outstanding_maps", None)
             if outstanding_maps:
                 while outstanding_maps:
                     time.sleep(0.1)
-- 
2.43.0


From d92a31f4d0ac443045b11c5d1aa6538f2f8f4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 088/193] fix: stream_output of load-balanced results

---
 ipyparallel/client/asyncresult.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index cdfc47c..d556314 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -143,6 +143,9 @@ class AsyncResult(Future):
     def _iopub_streaming_output_callback(self, eid, msg_future, msg):
         """Callback for iopub messages registered during AsyncResult.stream_output()"""
         msg_type = msg['header']['msg_type']
+        if eid is None:
+            # the engine is known once there is output
+            eid = msg_future.output.metadata.engine_id
         ip = get_ipython()
         if ip is not None:
             in_kernel = getattr(ip, 'kernel', None) is not None
@@ -228,7 +231,9 @@ class AsyncResult(Future):
         self._last_display_prefix = ""
         self._streamed_errors = 0
 
-        for eid, msg_future in zip(self._targets, self._children):
+        # load-balanced tasks don't have targets
+        targets = self._targets or [None] * len(self._children)
+        for eid, msg_future in zip(targets, self._children):
             iopub_callback = partial(
                 self._iopub_streaming_output_callback, eid, msg_future
             )
-- 
2.43.0


From 897ef8df37a52ac277900a0a142dc32bcfc5866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 089/193] fix: stream_output in a kernel: one display for each
 stream of each task, including output captured before

---
 ipyparallel/client/asyncresult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index d556314..16d9917 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -157,8 +157,7 @@ class AsyncResult(Future):
             stream_name = msg_content['name']
 
             if in_kernel:
-                parent_msg_id = msg.get('parent_header', {}).get('msg_id', '')
-                display_id = f"{parent_msg_id}-{stream_name}"
+                display_id = f"{msg_future.msg_id}-{stream_name}"
                 md = msg_future.output.metadata
                 full_stream = md[stream_name]
                 if display_id in self._already_streamed:
-- 
2.43.0


From 7fda787fb75c40c52b55a364ee5c925588eb996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 090/193] fix: display_outputs(groupby='order') shows all
 outputs when tasks have different numbers of them

---
 ipyparallel/client/asyncresult.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 16d9917..8964d3f 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1038,14 +1038,10 @@ class AsyncResult(Future):
 
             if not result_only:
                 if groupby == 'order':
-                    output_dict = {
-                        eid: outputs for eid, outputs in zip(targets, output_lists)
-                    }
                     N = max(len(outputs) for outputs in output_lists)
                     for i in range(N):
-                        for eid in targets:
-                            outputs = output_dict[eid]
-                            if len(outputs) >= N:
+                        for eid, outputs in zip(targets, output_lists):
+                            if len(outputs) > i:
                                 _raw_text(f'[output:{eid}]')
                                 self._republish_displaypub(outputs[i], eid)
                 else:
-- 
2.43.0


From a6e921ac4063d887b356f0b2970d555a964496b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 091/193] fix: comm messages from engines when IPython is not a
 kernel

---
 ipyparallel/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 8b2968a..51008b7 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1186,7 +1186,9 @@ class Client(HasTraits):
                 if future and not future.done():
                     # TODO: should probably store actual outputs on the Future
                     future.set_result(None)
-        elif msg_type.startswith("comm_") and ip is not None and ip.kernel is not None:
+        elif (
+            msg_type.startswith("comm_") and getattr(ip, "kernel", None) is not None
+        ):
             # only handle comm messages when we're in an IPython kernel
             if msg_type == "comm_open":
                 # create proxy comm
-- 
2.43.0


From d9ea1b389e74ecc160955f4ae6a112e61c6c640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 092/193] fix: output of coalescing broadcasts

engines publish it with their own msg_ids, so that it was lost
and waiting for it never ended
---
 ipyparallel/client/client.py | 11 +++++++++--
 ipyparallel/client/view.py   | 11 +++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 51008b7..c8d5e3f 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -343,6 +343,8 @@ class Client(HasTraits):
     debug = Bool(False)
     _futures = Dict()
     _output_futures = Dict()
+    # msg_ids of coalescing broadcasts by the msg_ids their engines see
+    _coalesced_msg_ids = Dict()
     _io_loop = Any()
     _io_thread = Any()
 
@@ -1140,7 +1142,9 @@ class Client(HasTraits):
         if not parent or parent['session'] != self.session.session:
             # ignore IOPub messages not from here
             return
-        msg_id = parent['msg_id']
+        engine_msg_id = parent['msg_id']
+        # all output of a coalescing broadcast belongs to one message
+        msg_id = self._coalesced_msg_ids.get(engine_msg_id, engine_msg_id)
         content = msg['content']
         header = msg['header']
         msg_type = msg['header']['msg_type']
@@ -1183,7 +1187,10 @@ class Client(HasTraits):
             # idle message comes after all outputs
             if content['execution_state'] == 'idle':
                 future = self._output_futures.get(msg_id)
-                if future and not future.done():
+                # a coalescing broadcast has output until all its engines are idle
+                pending = getattr(future, "coalesced_pending", set())
+                pending.discard(engine_msg_id)
+                if future and not future.done() and not pending:
                     # TODO: should probably store actual outputs on the Future
                     future.set_result(None)
         elif (
diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 1ec2af3..efdc7fd 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -958,6 +958,11 @@ class BroadcastView(DirectView):
                 self.client._outstanding_dict[ident].add(original_msg_id)
             # for putting the results in order
             message_future.broadcast_targets = list(s_idents)
+            # output comes with the msg_ids that the engines see
+            engine_msg_ids = [f'{original_msg_id}_{ident}' for ident in s_idents]
+            message_future.output.coalesced_pending = set(engine_msg_ids)
+            for engine_msg_id in engine_msg_ids:
+                self.client._coalesced_msg_ids[engine_msg_id] = original_msg_id
             futures = message_future
 
         ar = AsyncResult(self.client, futures, owner=True, **kwargs)
@@ -983,6 +988,12 @@ class BroadcastView(DirectView):
 
             ar.add_done_callback(_rm_outstanding)
 
+            def _rm_msg_ids(_):
+                for engine_msg_id in engine_msg_ids:
+                    self.client._coalesced_msg_ids.pop(engine_msg_id, None)
+
+            ar._output_future.add_done_callback(_rm_msg_ids)
+
         return ar
 
     @sync_results
-- 
2.43.0


From c1aff271a913a967363b006be1147f01d592bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 093/193] fix: engines reply when the message of an exception
 cannot be formatted

---
 ipyparallel/engine/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index f346371..c001c99 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -177,7 +177,10 @@ class IPythonParallelKernel(IPythonKernel):
             try:
                 shell.showtraceback()
             except Exception as tb_error:
-                self.log.error(f"Failed to show traceback for {e}: {tb_error}")
+                # e may not be printable
+                self.log.error(
+                    f"Failed to show traceback for {type(e).__name__}: {tb_error!r}"
+                )
 
             try:
                 str_evalue = str(e)
-- 
2.43.0


From 460feb5efc16a545b328f0e5ba859defabf1b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 094/193] fix: engines reply when the message of an exception
 has surrogates

---
 ipyparallel/engine/kernel.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index c001c99..570c040 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -13,6 +13,11 @@ from ipyparallel.util import utcnow
 from .datapub import ZMQDataPublisher
 
 
+def _encodable(s):
+    """Escape surrogates in text"""
+    return s.encode("utf8", "backslashreplace").decode("utf8")
+
+
 class IPythonParallelKernel(IPythonKernel):
     """Extend IPython kernel for parallel computing"""
 
@@ -198,6 +203,11 @@ class IPythonParallelKernel(IPythonKernel):
             else:
                 self.log.warning("Didn't find a traceback where I expected to")
             shell._last_traceback = None
+            # what cannot be encoded cannot be sent, and there would be no reply
+            reply_content['evalue'] = _encodable(reply_content['evalue'])
+            reply_content['traceback'] = [
+                _encodable(line) for line in reply_content['traceback']
+            ]
             reply_content["engine_info"] = self.get_engine_info(method="apply")
 
             self.log.info(
-- 
2.43.0


From 8a13dd6815405378d578eee00af3c54ec9966021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 095/193] fix: engines reply to abort requests without msg_ids

---
 ipyparallel/engine/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index 570c040..139539b 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -242,7 +242,7 @@ class IPythonParallelKernel(IPythonKernel):
             f = self._abort_queues()
             if inspect.isawaitable(f):
                 asyncio.ensure_future(f)
-        for mid in msg_ids:
+        for mid in msg_ids or ():
             self.aborted.add(str(mid))
 
         content = dict(status='ok')
-- 
2.43.0


From 7eb0bec3f6a14dbe9587ebdf3d62610984da3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 096/193] fix: parallel functions use the view's block
 attribute by default

---
 ipyparallel/client/remotefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 551534e..5ad85d7 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -311,7 +311,8 @@ class ParallelFunction(RemoteFunction):
             chunk_sizes=chunk_sizes,
         )
 
-        if self.block:
+        block = self.view.block if self.block is None else self.block
+        if block:
             try:
                 return r.get()
             except KeyboardInterrupt:
-- 
2.43.0


From b64e4fd7260a2084b2dd90d07244585d7939d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 097/193] fix: depend and require accept any keyword, such as
 self

---
 ipyparallel/controller/dependency.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/dependency.py b/ipyparallel/controller/dependency.py
index a0fb0f9..708a354 100644
--- a/ipyparallel/controller/dependency.py
+++ b/ipyparallel/controller/dependency.py
@@ -29,7 +29,7 @@ class depend:
     and another engine will be tried.
     """
 
-    def __init__(self, _wrapped_f, *args, **kwargs):
+    def __init__(self, _wrapped_f, /, *args, **kwargs):
         self.f = _wrapped_f
         self.args = args
         self.kwargs = kwargs
@@ -44,7 +44,7 @@ class dependent:
     in traditional decorators, which are not picklable.
     """
 
-    def __init__(self, _wrapped_f, _wrapped_df, *dargs, **dkwargs):
+    def __init__(self, _wrapped_f, _wrapped_df, /, *dargs, **dkwargs):
         self.f = _wrapped_f
         name = getattr(_wrapped_f, '__name__', 'f')
         self.__name__ = name
@@ -56,7 +56,7 @@ class dependent:
         if self.df(*self.dargs, **self.dkwargs) is False:
             raise UnmetDependency()
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         return self.f(*args, **kwargs)
 
 
-- 
2.43.0


From d609060bca08bdb260c91cff4816dfa37c926663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 098/193] fix: apply passes a keyword named self to the
 function

---
 ipyparallel/client/view.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index efdc7fd..35cfea9 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -212,7 +212,7 @@ class View(HasTraits):
         """wrapper for client.send_apply_request"""
         raise NotImplementedError("Implement in subclasses")
 
-    def apply(self, __ipp_f, *args, **kwargs):
+    def apply(self, __ipp_f, /, *args, **kwargs):
         """calls ``f(*args, **kwargs)`` on remote engines, returning the result.
 
         This method sets all apply flags via this View's attributes.
@@ -223,14 +223,14 @@ class View(HasTraits):
         """
         return self._really_apply(__ipp_f, args, kwargs)
 
-    def apply_async(self, __ipp_f, *args, **kwargs):
+    def apply_async(self, __ipp_f, /, *args, **kwargs):
         """calls ``f(*args, **kwargs)`` on remote engines in a nonblocking manner.
 
         Returns :class:`~ipyparallel.client.asyncresult.AsyncResult` instance.
         """
         return self._really_apply(__ipp_f, args, kwargs, block=False)
 
-    def apply_sync(self, __ipp_f, *args, **kwargs):
+    def apply_sync(self, __ipp_f, /, *args, **kwargs):
         """calls ``f(*args, **kwargs)`` on remote engines in a blocking manner,
         returning the result.
         """
-- 
2.43.0


From f525d9685fad907dbdd6a989c22baa206d300609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 099/193] fix: remote functions pass a keyword named self to
 the function

---
 ipyparallel/client/remotefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 5ad85d7..cfc640a 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -135,7 +135,7 @@ class RemoteFunction:
                 # no signature, but that's okay
                 pass
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         block = self.view.block if self.block is None else self.block
         with self.view.temp_flags(block=block, **self.flags):
             return self.view.apply(self.func, *args, **kwargs)
-- 
2.43.0


From 9a393df3fbeb5b3969915b0be17c217cafbbac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 100/193] fix: executors accept the keywords self and fn in
 submit, as concurrent.futures do

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 35cfea9..0361d88 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1797,7 +1797,7 @@ class ViewExecutor(concurrent.futures.Executor):
         self.view = view
         self._max_workers = len(self.view)
 
-    def submit(self, fn, *args, **kwargs):
+    def submit(self, fn, /, *args, **kwargs):
         """Same as View.apply_async"""
         return self.view.apply_async(fn, *args, **kwargs)
 
-- 
2.43.0


From b6d717aaf3a2bcb4f1c154cfa350cfd4b0f00175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 101/193] fix: remote errors can be pickled and copied

---
 ipyparallel/error.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index 9801d6e..f07ac50 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -83,6 +83,14 @@ class RemoteError(KernelError):
         self.engine_info = engine_info or {}
         self.args = (ename, evalue)
 
+    def __reduce__(self):
+        # args are not the arguments of __init__
+        return (
+            self.__class__,
+            (self.ename, self.evalue, self.traceback, self.engine_info),
+            self.__dict__,
+        )
+
     def __repr__(self):
         engineid = self.engine_info.get('engine_id', ' ')
         return f"<{self.__class__.__name__}[{engineid}]:{self.ename}({self.evalue})>"
@@ -147,6 +155,9 @@ class CompositeError(RemoteError):
         self.elist = elist
         self.args = [e[0] for e in elist]
 
+    def __reduce__(self):
+        return (self.__class__, (self.msg, self.elist), self.__dict__)
+
     def _get_traceback(self, ev):
         try:
             tb = ev._ipython_traceback_text
@@ -207,6 +218,9 @@ class AlreadyDisplayedError(RemoteError):
         self.original_error = original_error
         self.n = len(self.original_error.elist)
 
+    def __reduce__(self):
+        return (self.__class__, (self.original_error,), self.__dict__)
+
     def __repr__(self):
         return f"<{self.__class__.__name__}({self.n} errors)>"
 
-- 
2.43.0


From 8006a8fff76afd662e221d53d572c1e104029bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 102/193] fix: remote errors without a method or engine id can
 be shown

---
 ipyparallel/error.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index f07ac50..a95f7b6 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -105,7 +105,10 @@ class RemoteError(KernelError):
         if not engine_info:
             return '[Engine Exception]'
         else:
-            return f"[{engine_info['engine_id']}:{engine_info['method']}]"
+            # the method is optional, and so is the id until the client adds it
+            engine = engine_info.get('engine_id', engine_info.get('engine_uuid', ' '))
+            method = engine_info.get('method', '')
+            return f"[{engine}:{method}]"
 
     def render_traceback(self):
         """render traceback to a list of lines"""
-- 
2.43.0


From cbd68a2ee00f88cef7044bae3c1a26ad43cf9c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:51 +0000
Subject: [PATCH 103/193] fix: any exception can be wrapped, even if its
 message cannot be shown or encoded

---
 ipyparallel/error.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index a95f7b6..1ef493b 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -266,14 +266,24 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
         raise err
 
 
+def _encodable(s):
+    """Escape surrogates in text"""
+    return s.encode("utf8", "backslashreplace").decode("utf8")
+
+
 def wrap_exception(engine_info={}):
     etype, evalue, tb = sys.exc_info()
     stb = traceback.format_exception(etype, evalue, tb)
+    try:
+        str_evalue = str(evalue)
+    except Exception as str_error:
+        str_evalue = f"Failed to cast exception to string: {str_error}"
+    # lone surrogates cannot be encoded, and the message could not be sent
     exc_content = {
         'status': 'error',
-        'traceback': stb,
+        'traceback': [_encodable(line) for line in stb],
         'ename': etype.__name__,
-        'evalue': str(evalue),
+        'evalue': _encodable(str_evalue),
         'engine_info': engine_info,
     }
     return exc_content
-- 
2.43.0


From 9676d78c84367ac1d49055818f55e4067fb05a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 104/193] fix: StopIteration raised by a mapped function is an
 error, and does not drop results

---
 ipyparallel/client/remotefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index cfc640a..9af30bf 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -142,7 +142,8 @@ class RemoteFunction:
 
 
 def _map(f, *sequences):
-    return list(map(f, *sequences))
+    # not list(map(...)), where a StopIteration raised by f would end the list
+    return [f(*args) for args in zip(*sequences)]
 
 
 _prepickled_map = None
-- 
2.43.0


From fbad0f9d4f8935941462d786208749dd7c33c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 105/193] fix: results that cannot be deserialized by the
 client are errors, instead of waiting forever

---
 ipyparallel/client/client.py  | 45 ++++++++++++++++++++++++++---------
 ipyparallel/controller/hub.py |  1 +
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index c8d5e3f..337558b 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -816,6 +816,30 @@ class Client(HasTraits):
             e.engine_info['engine_id'] = eid
         return e
 
+    def _deserialize_result(self, buffers, md, coalesced=False):
+        """Deserialize a result, or the list of results of a coalescing broadcast
+
+        A result that cannot be deserialized here,
+        e.g. because its module is not available, is an error.
+        """
+        results = []
+        try:
+            while True:
+                result, buffers = serialize.deserialize_object(buffers)
+                results.append(result)
+                if not (coalesced and buffers):
+                    break
+        except Exception:
+            content = error.wrap_exception(
+                {
+                    'engine_uuid': md['engine_uuid'],
+                    'engine_id': md['engine_id'],
+                    'method': 'apply',
+                }
+            )
+            return self._unwrap_exception(content)
+        return results if coalesced else results[0]
+
     def _extract_metadata(self, msg):
         header = msg['header']
         parent = msg['parent_header']
@@ -1009,12 +1033,9 @@ class Client(HasTraits):
 
         # construct result:
         if content['status'] == 'ok':
-            if md.get('is_coalescing', False):
-                deserialized_bufs = []
-                bufs = msg['buffers']
-                while bufs:
-                    deserialized, bufs = serialize.deserialize_object(bufs)
-                    deserialized_bufs.append(deserialized)
+            coalesced = md.get('is_coalescing', False)
+            result = self._deserialize_result(msg['buffers'], md, coalesced)
+            if coalesced and isinstance(result, list):
                 # replies are collected in any order,
                 # results are in the order of the targets
                 targets = getattr(future, "broadcast_targets", None)
@@ -1022,10 +1043,8 @@ class Client(HasTraits):
                     order = [md['engine_uuid'].index(uuid) for uuid in targets]
                     for key in ('engine_uuid', 'engine_id'):
                         md[key] = [md[key][i] for i in order]
-                    deserialized_bufs = [deserialized_bufs[i] for i in order]
-                self.results[msg_id] = deserialized_bufs
-            else:
-                self.results[msg_id] = serialize.deserialize_object(msg['buffers'])[0]
+                    result = [result[i] for i in order]
+            self.results[msg_id] = result
         elif content['status'] == 'aborted':
             self.results[msg_id] = error.TaskAborted(msg_id)
             out_future = self._output_futures.get(msg_id)
@@ -2292,6 +2311,8 @@ class Client(HasTraits):
                 header = util.extract_dates(rec['result_header'])
                 rcontent = rec['result_content']
                 iodict = rec['io']
+                n = rec['result_buffer_len']
+                result_buffers, buffers = buffers[:n], buffers[n:]
                 if isinstance(rcontent, str):
                     rcontent = self.session.unpack(rcontent)
 
@@ -2309,7 +2330,9 @@ class Client(HasTraits):
 
                 if rcontent['status'] == 'ok':
                     if header['msg_type'] == 'apply_reply':
-                        res, buffers = serialize.deserialize_object(buffers)
+                        res = self._deserialize_result(result_buffers, md)
+                        if isinstance(res, error.RemoteError):
+                            failures.append(res)
                     elif header['msg_type'] == 'execute_reply':
                         res = ExecuteReply(msg_id, rcontent, md)
                     else:
diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 702161f..d4a5b11 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1442,6 +1442,7 @@ class Hub(LoggingConfigurable):
             buffers = list(rec['result_buffers'])
         else:
             buffers = []
+        content['result_buffer_len'] = len(buffers)
 
         return content, buffers
 
-- 
2.43.0


From 6c81c864f4a324d94f91f16ac82611e74da5dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 106/193] fix: SGE scripts set the output file with SGE
 directives, not those of PBS

---
 ipyparallel/cluster/launcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 325858e..d7d3bd1 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2215,6 +2215,8 @@ class SGELauncher(PBSLauncher):
     job_array_template = Unicode('#$ -t 1-{n}')
     queue_regexp = CRegExp(r'#\$\W+-q\W+\$?\w+')
     queue_template = Unicode('#$ -q {queue}')
+    output_regexp = CRegExp(r'#\$\W+(?:-o)\W+\$?\w+')
+    output_template = Unicode('#$ -j y\n#$ -o {output_file}')
 
 
 class SGEControllerLauncher(SGELauncher, BatchControllerLauncher):
-- 
2.43.0


From 2282032ae5abf967edac6c51634c55314825fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 107/193] fix: LSF jobs are submitted with all of
 submit_command and with the launcher's environment, from any path

---
 ipyparallel/cluster/launcher.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index d7d3bd1..8ef451b 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -19,7 +19,7 @@ import time
 from concurrent.futures import ThreadPoolExecutor
 from functools import lru_cache, partial
 from signal import SIGTERM
-from subprocess import PIPE, STDOUT, Popen, check_output
+from subprocess import STDOUT, Popen, check_output
 from tempfile import TemporaryDirectory
 from textwrap import indent
 
@@ -2285,10 +2285,16 @@ class LSFLauncher(BatchSystemLauncher):
         # Here we save profile_dir in the context so they
         # can be used in the batch script template as {profile_dir}
         self.write_batch_script(n)
-        piped_cmd = self.args[0] + '<"' + self.args[1] + '"'
-        self.log.debug("Starting %s: %s", self.__class__.__name__, piped_cmd)
-        p = Popen(piped_cmd, shell=True, env=os.environ, stdout=PIPE)
-        output, err = p.communicate()
+        self.log.debug(
+            "Starting %s: %s < %s",
+            self.__class__.__name__,
+            shlex_join(self.submit_command),
+            self.batch_file,
+        )
+        env = os.environ.copy()
+        env.update(self.get_env())
+        with open(self.batch_file, "rb") as f:
+            output = check_output(self.submit_command, stdin=f, env=env)
         output = output.decode("utf8", 'replace')
         job_id = self.parse_job_id(output)
         self.notify_start(job_id)
-- 
2.43.0


From 5fe91acade45e36764aa07e3575281ac6da9c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 108/193] fix: LSF templates that already name a job array,
 queue or output file are recognised

---
 ipyparallel/cluster/launcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 8ef451b..598a40b 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2269,12 +2269,12 @@ class LSFLauncher(BatchSystemLauncher):
     )
 
     batch_file = Unicode('')
-    job_array_regexp = CRegExp(r'#BSUB\s+-J+\w+\[\d+-\d+\]')
+    job_array_regexp = CRegExp(r'#BSUB\s+-J\s*[^\s\[]+\[')
     job_array_template = Unicode('#BSUB -J ipengine[1-{n}]')
-    queue_regexp = CRegExp(r'#BSUB\s+-q\s+\w+')
+    queue_regexp = CRegExp(r'#BSUB\s+-q\s+\S+')
     queue_template = Unicode('#BSUB -q {queue}')
-    output_regexp = CRegExp(r'#BSUB\s+-oo?\s+\w+')
-    output_template = Unicode('#BSUB -o {output_file}\n#BSUB -e {output_file}\n')
+    output_regexp = CRegExp(r'#BSUB\s+-oo?\s+\S+')
+    output_template = Unicode('#BSUB -o {output_file}\n#BSUB -e {output_file}')
 
     def start(self, n=1):
         """Start n copies of the process using LSF batch system.
-- 
2.43.0


From 85c3afc5903ef44fd64f2c3eacfc53ae88af59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 109/193] fix: Slurm options are used in the default template,
 and unset Slurm settings do not break custom templates

---
 ipyparallel/cluster/launcher.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 598a40b..b323e17 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2112,6 +2112,17 @@ class SlurmLauncher(BatchSystemLauncher):
 
     options = Unicode("", config=True, help="Extra Slurm options")
 
+    @default("context")
+    def _context_default(self):
+        context = super()._context_default()
+        context.update(
+            account=self.account,
+            qos=self.qos,
+            timelimit=self.timelimit,
+            options=self.options,
+        )
+        return context
+
     @observe('account')
     def _account_changed(self, change):
         self._update_context(change)
@@ -2148,6 +2159,8 @@ class SlurmLauncher(BatchSystemLauncher):
     output_regexp = CRegExp(r'#SBATCH\W+(?:--output)\W+\$?\w+')
     output_template = Unicode('#SBATCH --output={output_file}')
 
+    options_template = Unicode('#SBATCH {options}')
+
     def _insert_options_in_script(self):
         """Insert 'partition' (slurm name for queue), 'account', 'time' and other options if necessary"""
         super()._insert_options_in_script()
@@ -2165,6 +2178,10 @@ class SlurmLauncher(BatchSystemLauncher):
             self.log.debug("adding slurm time limit settings to batch script")
             inserts.append(self.timelimit_template)
 
+        if self.options:
+            self.log.debug("adding extra Slurm options to batch script")
+            inserts.append(self.options_template)
+
         if inserts:
             firstline, rest = self.batch_template.split('\n', 1)
             self.batch_template = '\n'.join([firstline] + inserts + [rest])
-- 
2.43.0


From 79377fa879d3ed7ef41bbc7a265f8aeee30d629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 110/193] fix: output that is not valid text does not prevent
 launchers from reporting that a process stopped

---
 ipyparallel/cluster/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index b323e17..82aa8e6 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -597,7 +597,7 @@ class LocalProcessLauncher(BaseLauncher):
         if self._output is None:
             if self.output_file:
                 try:
-                    with open(self.output_file) as f:
+                    with open(self.output_file, errors="replace") as f:
                         self._output = f.read()
                 except FileNotFoundError:
                     self.log.debug(f"Missing output file: {self.output_file}")
-- 
2.43.0


From d76f233b4dabde88afb1a4590b20cea2cf231e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 111/193] fix: arguments of commands sent to a remote shell as
 a list arrive unchanged

---
 ipyparallel/cluster/shellcmd.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/cluster/shellcmd.py b/ipyparallel/cluster/shellcmd.py
index 02f2f9a..022ebac 100644
--- a/ipyparallel/cluster/shellcmd.py
+++ b/ipyparallel/cluster/shellcmd.py
@@ -18,6 +18,7 @@ import json
 import logging
 import pathlib
 import re
+import shlex
 import sys
 import time
 import warnings
@@ -162,6 +163,16 @@ class ShellCommandSend:
         else:
             raise TypeError(f"Unknown command type: {cmd!r}")
 
+    def _shell_args(self, cmd):
+        """The shell arguments which run cmd
+
+        A string is a command for the shell as it is.
+        Items of a list are passed on to the command unchanged.
+        """
+        if isinstance(cmd, list) and not self._win:
+            return [" ".join(shlex.quote(arg) for arg in cmd)]
+        return self._as_list(cmd)
+
     def _cmd_start_windows_no_breakaway(self, cmd_args, py_cmd):
         # if windows platform doesn't support breakaway flag (e.g. Github Runner)
         # we need to start a detached process (as work-a-round), the runs until the
@@ -394,7 +405,7 @@ class ShellCommandSend:
         :param kwargs: additional parameters that are passed to subprocess.check_output
         :return: output of executed command"""
         assert self.shell_info  # make sure that initialize was called already
-        full_cmd = self.shell + self.args + self._as_list(cmd)
+        full_cmd = self.shell + self.args + self._shell_args(cmd)
         return self._check_output(full_cmd, **kwargs)
 
     def check_output_python_module(self, module_params, **kwargs):
@@ -404,12 +415,11 @@ class ShellCommandSend:
         :return: output of executed command
         """
         assert self.shell_info  # make sure that initialize was called already
-        cmd = (
-            self.shell
-            + self.args
-            + [self.python_path, "-m"]
-            + self._as_list(module_params)
-        )
+        python_cmd = [self.python_path, "-m"] + self._shell_args(module_params)
+        if not self._win:
+            # one command for the shell
+            python_cmd = [" ".join(python_cmd)]
+        cmd = self.shell + self.args + python_cmd
         return self._check_output(cmd, **kwargs)
 
     def check_output_python_code(self, python_code, **kwargs):
-- 
2.43.0


From 80ee03105a7c695e45fbcea276c8d42db1da1147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 112/193] fix: killing a remote process without naming a signal
 terminates it, signal 0 only tests it

---
 ipyparallel/cluster/shellcmd.py         | 2 +-
 ipyparallel/cluster/shellcmd_receive.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/shellcmd.py b/ipyparallel/cluster/shellcmd.py
index 022ebac..e10f4d0 100644
--- a/ipyparallel/cluster/shellcmd.py
+++ b/ipyparallel/cluster/shellcmd.py
@@ -499,7 +499,7 @@ class ShellCommandSend:
     def cmd_kill(self, pid, sig=None):
         """kill (remote) process with the given pid"""
         assert self.shell_info  # make sure that initialize was called already
-        if sig:
+        if sig is not None:
             self._cmd_send("cmd_kill", pid=pid, sig=int(sig))
         else:
             self._cmd_send("cmd_kill", pid=pid)
diff --git a/ipyparallel/cluster/shellcmd_receive.py b/ipyparallel/cluster/shellcmd_receive.py
index 54848b6..fa41b9c 100644
--- a/ipyparallel/cluster/shellcmd_receive.py
+++ b/ipyparallel/cluster/shellcmd_receive.py
@@ -12,6 +12,7 @@ packages. Hence, DO NOT USE ANY ipyparallel IMPORTS IN THIS FILE!
 import logging
 import os
 import shutil
+import signal
 import sys
 from abc import ABCMeta, abstractmethod
 from contextlib import contextmanager
@@ -240,7 +241,7 @@ class ShellCommandReceivePosix(ShellCommandReceiveBase):
 
     def cmd_kill(self, pid, sig=None):
         self._log(f"Kill pid {pid} (signal={sig})")
-        os.kill(pid, sig)
+        os.kill(pid, signal.SIGTERM if sig is None else sig)
 
 
 @contextmanager
-- 
2.43.0


From 0f696d4e0acad2b73226c44c9dcb5952c505afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 113/193] fix: local directories made for fetched files are
 accessible to their owner

---
 ipyparallel/cluster/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 82aa8e6..2798bb7 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1288,7 +1288,7 @@ class SSHLauncher(LocalProcessLauncher):
             else:
                 raise ValueError(f"cmd_exists expects bool, got {check!r}")
         local_dir = os.path.dirname(local)
-        ensure_dir_exists(local_dir, 700)
+        ensure_dir_exists(local_dir, 0o700)
         check_output(self.scp_cmd + self.scp_args + [full_remote, local])
 
     def fetch_files(self):
-- 
2.43.0


From f686002a6f9f062f552baa8c56b14de793d8bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 114/193] fix: remote output that is not valid text can be
 retrieved

---
 ipyparallel/cluster/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 2798bb7..f76e32c 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1247,7 +1247,7 @@ class SSHLauncher(LocalProcessLauncher):
                             f"Removing {self.location}:{self.remote_output_file}"
                         )
                         self.ssh_sender.cmd_remove(self.remote_output_file)
-                    with open(output_file) as f:
+                    with open(output_file, errors="replace") as f:
                         self._output = f.read()
         return self._output
 
-- 
2.43.0


From b662051c9716ade69a97af1390d4ebaed0fd846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 115/193] fix: clusters are found in profile directories whose
 name has characters like [ or *

---
 ipyparallel/cluster/cluster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 1b30630..a0094a5 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -939,7 +939,9 @@ class ClusterManager(LoggingConfigurable):
 
         Returns list of cluster *files*
         """
-        return glob.glob(os.path.join(profile_dir, "security", "cluster-*.json"))
+        return glob.glob(
+            os.path.join(glob.escape(profile_dir), "security", "cluster-*.json")
+        )
 
     def load_clusters(
         self,
@@ -1091,9 +1093,9 @@ def clean_cluster_files(profile_dirs=None, *, log=None, force=False):
                         )
                     else:
                         _remove(cluster_file)
-        for log_file in glob.glob(os.path.join(profile_dir, 'log', '*')):
+        for log_file in glob.glob(os.path.join(glob.escape(profile_dir), 'log', '*')):
             _remove(log_file)
         for security_file in glob.glob(
-            os.path.join(profile_dir, 'security', 'ipcontroller-*.json')
+            os.path.join(glob.escape(profile_dir), 'security', 'ipcontroller-*.json')
         ):
             _remove(security_file)
-- 
2.43.0


From 75ad92c1d2f182669743c6594b6b548592bbfa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:51 +0000
Subject: [PATCH 116/193] fix: controllers and engine sets that fail to start
 are not considered running

---
 ipyparallel/cluster/cluster.py | 52 +++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index a0094a5..23d2d9b 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -653,9 +653,14 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             self.controller.controller_args = list(controller_args)
 
         self.controller.on_stop(self._controller_stopped)
-        r = self.controller.start()
-        if inspect.isawaitable(r):
-            await r
+        try:
+            r = self.controller.start()
+            if inspect.isawaitable(r):
+                await r
+        except Exception:
+            # not started, there is no controller
+            self.controller = None
+            raise
 
         self.update_cluster_file()
 
@@ -694,22 +699,31 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             engine_set_id=engine_set_id,
             **kwargs,
         )
-        if self.send_engines_connection_env and self.controller:
-            self.log.debug("Setting $IPP_CONNECTION_INFO environment")
-            connection_info = await self.controller.get_connection_info()
-            connection_info_json = json.dumps(connection_info["engine"])
-            engine_set.environment["IPP_CONNECTION_INFO"] = connection_info_json
-
-        if n is None:
-            n = self.n
-        n = getattr(engine_set, 'engine_count', n)
-        if n is None:
-            n = cpu_count()
-        self.log.info(f"Starting {n or ''} engines with {self.engine_launcher_class}")
-        r = engine_set.start(n)
-        engine_set.on_stop(partial(self._engines_stopped, engine_set_id))
-        if inspect.isawaitable(r):
-            await r
+        try:
+            if self.send_engines_connection_env and self.controller:
+                self.log.debug("Setting $IPP_CONNECTION_INFO environment")
+                connection_info = await self.controller.get_connection_info()
+                connection_info_json = json.dumps(connection_info["engine"])
+                engine_set.environment["IPP_CONNECTION_INFO"] = connection_info_json
+
+            if n is None:
+                n = self.n
+            n = getattr(engine_set, 'engine_count', n)
+            if n is None:
+                n = cpu_count()
+            self.log.info(
+                f"Starting {n or ''} engines with {self.engine_launcher_class}"
+            )
+            r = engine_set.start(n)
+            engine_set.on_stop(partial(self._engines_stopped, engine_set_id))
+            if inspect.isawaitable(r):
+                await r
+        except Exception:
+            # not started, unless some of the engines are running already
+            launchers = getattr(engine_set, 'launchers', {})
+            if not any(el.running for el in launchers.values()):
+                self.engines.pop(engine_set_id, None)
+            raise
         self.update_cluster_file()
         return engine_set_id
 
-- 
2.43.0


From a89cb89378bac530947609fc4170c06ec52da9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 117/193] fix: the controller's launcher class is part of a
 saved cluster even while no controller runs

---
 ipyparallel/cluster/cluster.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 23d2d9b..297fc3d 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -441,6 +441,9 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             return f"{cls.__module__}.{cls.__name__}"
 
         cluster_info["class"] = _cls_str(self.__class__)
+        cluster_info["controller_class"] = launcher.abbreviate_launcher_class(
+            self.controller_launcher_class
+        )
 
         if self.controller and self.controller.state != 'after':
             d["controller"] = {
@@ -484,6 +487,10 @@ class Cluster(AsyncFirst, LoggingConfigurable):
 
         cluster_key = ClusterManager._cluster_key(self)
 
+        if cluster_info.get("controller_class"):
+            # also known while there is no controller
+            self.controller_launcher_class = cluster_info["controller_class"]
+
         if d.get("controller"):
             controller_info = d["controller"]
             self.controller_launcher_class = controller_info["class"]
-- 
2.43.0


From d8eb18d5cfae7ea8492280a89bb2337ec379dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:57 +0000
Subject: [PATCH 118/193] fix: %autopx with a suffix can be switched off by its
 own command

The magics of a view activated with a suffix are %autopx<suffix>, etc.,
but only %autopx was recognized in automatic mode,
so %autopx<suffix> was sent to the engines as code
and automatic mode stayed on.
---
 ipyparallel/client/magics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index 88af1aa..217b8f5 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -561,7 +561,8 @@ class ParallelMagics(Magics):
 
     def pxrun_nodes(self, *args, **kwargs):
         cell = self._px_cell
-        if re.search(r'^\s*%autopx\b', cell):
+        # our own command is %autopx + suffix
+        if re.search(rf'^\s*%autopx(?:{re.escape(self.suffix)})?(?!\w)', cell):
             self._disable_autopx()
             return False
         else:
-- 
2.43.0


From 11498d2ada19bc1fd19a3d38b160174637f86d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:12 +0000
Subject: [PATCH 119/193] fix: %%px --verbose and --no-verbose have an effect

The options were accepted and ignored.
---
 ipyparallel/client/magics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index 217b8f5..1a010d6 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -348,12 +348,14 @@ class ParallelMagics(Magics):
         stream_output=None,
         progress_after=None,
         signal_on_interrupt=None,
+        verbose=None,
     ):
         """implementation used by %px and %%parallel"""
 
         # defaults:
         block = self.view.block if block is None else block
         stream_output = self.stream_output if stream_output is None else stream_output
+        verbose = self.verbose if verbose is None else verbose
         signal_on_interrupt = (
             self.signal_on_interrupt
             if signal_on_interrupt is None
@@ -367,7 +369,7 @@ class ParallelMagics(Magics):
             str_targets = str(targets[:4])[:-1] + ', ..., ' + str(targets[-4:])[1:]
         else:
             str_targets = str(targets)
-        if self.verbose:
+        if verbose:
             print(base + f" execution on engine(s): {str_targets}")
 
         result = self.view.execute(cell, silent=False, block=False)
@@ -481,6 +483,7 @@ class ParallelMagics(Magics):
                 stream_output=args.stream,
                 progress_after=args.progress_after_seconds,
                 signal_on_interrupt=signal_on_interrupt,
+                verbose=args.set_verbose,
             )
         finally:
             if args.targets:
-- 
2.43.0


From bf58238e3e2c4c96b16a9f9e96e9c5b9f3de4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 120/193] fix: %%px --local shows the output of engines that
 fail

A blocking %%px shows outputs on both success and error,
but with --local they were lost as soon as any engine failed.
---
 ipyparallel/client/magics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index 1a010d6..5f7e23e 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -495,8 +495,10 @@ class ParallelMagics(Magics):
             self.shell.run_cell(cell)
             # now apply blocking behavior to remote execution
             if block:
-                ar.get()
+                # display outputs on both success and error, like without --local
+                ar.wait()
                 ar.display_outputs(args.groupby)
+                ar.get()
         if not block:
             return ar
 
-- 
2.43.0


From 30bcbd91e6191d84fd4b6d76079037e192bdb589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:42 +0000
Subject: [PATCH 121/193] fix: %%px shows output that arrives after the
 results, whatever --progress-after

With --progress-after=-1 or a short delay,
streaming stopped as soon as the results were there,
and output still on its way was lost.
---
 ipyparallel/client/magics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index 5f7e23e..217c5eb 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -401,7 +401,10 @@ class ParallelMagics(Magics):
                         if progress_after >= 0:
                             # not an immediate result, start interactive progress
                             result.wait_interactive()
-                            result.wait_for_output(1)
+                        else:
+                            result.wait()
+                    # results may arrive before the last of the output
+                    result.wait_for_output(1)
 
                     try:
                         result.get()
-- 
2.43.0


From fd016fad8f88831dc7817f65517aeb191e329e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:42 +0000
Subject: [PATCH 122/193] fix: an interrupted %%px does not raise TimeoutError

If the engines did not finish, or their results arrived after their output,
display_outputs failed with 'result not ready'.
---
 ipyparallel/client/magics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index 217c5eb..f03c0c6 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -433,7 +433,10 @@ class ParallelMagics(Magics):
                 if not stream_output:
                     # wait for at most 1 second for output to be complete
                     result.wait_for_output(1)
-                    result.display_outputs(groupby)
+                    # after an interrupt, the result may still be on its way
+                    result.wait(1)
+                    if result.done():
+                        result.display_outputs(groupby)
         else:
             # return AsyncResult only on non-blocking submission
             return result
-- 
2.43.0


From 64ca24e84248aeab02324a1d052eb0f7c6e97276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:14 +0000
Subject: [PATCH 123/193] fix: the ssh port of one host is not used for the
 next one

---
 ipyparallel/cluster/launcher.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index f76e32c..20886a1 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1304,12 +1304,11 @@ class SSHLauncher(LocalProcessLauncher):
         if user is not None:
             self.user = user
         if port is not None:
+            # don't modify lists in-place, they may be shared with other launchers
             if '-p' not in self.ssh_args:
-                self.ssh_args.append('-p')
-                self.ssh_args.append(str(port))
+                self.ssh_args = self.ssh_args + ['-p', str(port)]
             if '-P' not in self.scp_args:
-                self.scp_args.append('-P')
-                self.scp_args.append(str(port))
+                self.scp_args = self.scp_args + ['-P', str(port)]
 
         # do some checks that setting are correct
         shell_info = self.ssh_sender.get_shell_info()
-- 
2.43.0


From 344487e0d7fe826bc7d3c21fd63f7fd8bef7b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:14 +0000
Subject: [PATCH 124/193] fix: launchers accept names of signals

---
 ipyparallel/cluster/launcher.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 20886a1..277c102 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -83,6 +83,15 @@ class NotRunning(LauncherError):
     pass
 
 
+def _signal_number(sig):
+    """Return the number of a signal, given as a name ('KILL', 'SIGKILL') or number"""
+    if isinstance(sig, str):
+        if not sig.startswith("SIG"):
+            sig = f"SIG{sig}"
+        sig = signal.Signals[sig]
+    return sig
+
+
 class BaseLauncher(LoggingConfigurable):
     """An abstraction for starting, stopping and signaling a process."""
 
@@ -639,6 +648,7 @@ class LocalProcessLauncher(BaseLauncher):
         await self.join(timeout=self.stop_timeout)
 
     def signal(self, sig):
+        sig = _signal_number(sig)
         if self.state == 'running':
             if WINDOWS and sig in {SIGTERM, SIGKILL}:
                 # use Windows tree-kill for better child cleanup
@@ -1390,6 +1400,7 @@ class SSHLauncher(LocalProcessLauncher):
             self._wait_thread.join()
 
     def signal(self, sig):
+        sig = _signal_number(sig)
         if self.state == 'running':
             self.ssh_sender.cmd_kill(self.pid, sig)
 
-- 
2.43.0


From 67f29adb331ff58b47db8366f7a1a6cc2e85990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:14 +0000
Subject: [PATCH 125/193] fix: an engine that has exited does not keep others
 from getting a signal

---
 ipyparallel/cluster/launcher.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 277c102..19dafc1 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -795,8 +795,17 @@ class LocalEngineSetLauncher(LocalEngineLauncher):
         return ['engine set']
 
     def signal(self, sig):
-        for el in list(self.launchers.values()):
-            el.signal(sig)
+        errors = []
+        for identifier, el in list(self.launchers.items()):
+            try:
+                el.signal(sig)
+            except Exception as e:
+                # e.g. the engine has exited, but we have not noticed yet.
+                # Others should still get the signal
+                self.log.warning(f"Failed to signal engine {identifier}: {e!r}")
+                errors.append(e)
+        if errors and len(errors) == len(self.launchers):
+            raise errors[0]
 
     async def stop(self):
         futures = []
-- 
2.43.0


From a74b56aad343d5e848bad1c42bfc627046a54f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:14 +0000
Subject: [PATCH 126/193] fix: retrieving output of a running process does not
 hide what it prints later

---
 ipyparallel/cluster/launcher.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 19dafc1..b756e1b 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -603,16 +603,18 @@ class LocalProcessLauncher(BaseLauncher):
     _output = None
 
     def get_output(self, remove=False):
-        if self._output is None:
+        output = self._output
+        if output is None:
+            output = ""
             if self.output_file:
                 try:
                     with open(self.output_file, errors="replace") as f:
-                        self._output = f.read()
+                        output = f.read()
                 except FileNotFoundError:
                     self.log.debug(f"Missing output file: {self.output_file}")
-                    self._output = ""
-            else:
-                self._output = ""
+            if remove or self.state == 'after':
+                # while the process runs, there may be more to come
+                self._output = output
 
         if remove and os.path.isfile(self.output_file):
             self.log.debug(f"Removing {self.output_file}")
@@ -623,7 +625,7 @@ class LocalProcessLauncher(BaseLauncher):
                 # e.g. due to another processing having it open
                 self.log.error(f"Failed to remove {self.output_file}: {e}")
 
-        return self._output
+        return output
 
     async def stop(self):
         try:
@@ -1247,7 +1249,8 @@ class SSHLauncher(LocalProcessLauncher):
 
     def get_output(self, remove=False):
         """Retrieve engine output from the remote file"""
-        if self._output is None:
+        output = self._output
+        if output is None:
             with TemporaryDirectory() as td:
                 output_file = os.path.join(
                     td, os.path.basename(self.remote_output_file)
@@ -1258,7 +1261,7 @@ class SSHLauncher(LocalProcessLauncher):
                     self.log.error(
                         f"Failed to get output file {self.remote_output_file}: {e}"
                     )
-                    self._output = ''
+                    output = ''
                 else:
                     if remove:
                         # remove the file after we retrieve it
@@ -1267,8 +1270,11 @@ class SSHLauncher(LocalProcessLauncher):
                         )
                         self.ssh_sender.cmd_remove(self.remote_output_file)
                     with open(output_file, errors="replace") as f:
-                        self._output = f.read()
-        return self._output
+                        output = f.read()
+            if remove or self.state == 'after':
+                # while the process runs, there may be more to come
+                self._output = output
+        return output
 
     def _send_file(self, local, remote, wait=True):
         """send a single file"""
-- 
2.43.0


From cd13ac404ae28c494faf1d0a5cdce02fd227ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:08 +0000
Subject: [PATCH 127/193] fix: the reply to a signal request is a signal_reply

---
 ipyparallel/engine/nanny.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/engine/nanny.py b/ipyparallel/engine/nanny.py
index deb8a24..f2db192 100644
--- a/ipyparallel/engine/nanny.py
+++ b/ipyparallel/engine/nanny.py
@@ -153,7 +153,7 @@ class KernelNanny:
 
         msg_type = msg['header']['msg_type']
         if msg_type.endswith("_request"):
-            reply_type = msg_type[-len("_request") :]
+            reply_type = msg_type[: -len("_request")] + "_reply"
         else:
             reply_type = "error"
         self.log.debug(f"Client {idents[-1]} requested {msg_type}")
-- 
2.43.0


From ef9ede4e3c69bb2b8caa1fa736ce84b4c6b1658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:19 +0000
Subject: [PATCH 128/193] fix: the handler for logs of engines can be created

---
 ipyparallel/engine/log.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/engine/log.py b/ipyparallel/engine/log.py
index cdad377..2a33184 100644
--- a/ipyparallel/engine/log.py
+++ b/ipyparallel/engine/log.py
@@ -7,8 +7,8 @@ class EnginePUBHandler(PUBHandler):
     engine = None
 
     def __init__(self, engine, *args, **kwargs):
-        PUBHandler.__init__(self, *args, **kwargs)
         self.engine = engine
+        PUBHandler.__init__(self, *args, **kwargs)
 
     @property
     def root_topic(self):
@@ -18,3 +18,7 @@ class EnginePUBHandler(PUBHandler):
             return f"engine.{self.engine.id}"
         else:
             return "engine"
+
+    @root_topic.setter
+    def root_topic(self, value):
+        """Set by PUBHandler, but determined by the engine"""
-- 
2.43.0


From 332d0acfd13c691b8672ed130e38660e9b762a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:19 +0000
Subject: [PATCH 129/193] fix: engines with a log_url start

---
 ipyparallel/engine/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/engine/app.py b/ipyparallel/engine/app.py
index 64d100d..993e0bf 100755
--- a/ipyparallel/engine/app.py
+++ b/ipyparallel/engine/app.py
@@ -939,7 +939,7 @@ class IPEngine(BaseParallelApplication):
             context = self.context
             lsock = context.socket(zmq.PUB)
             lsock.connect(self.log_url)
-            handler = EnginePUBHandler(self.engine, lsock)
+            handler = EnginePUBHandler(self, lsock)
             handler.setLevel(self.log_level)
             self.log.addHandler(handler)
 
-- 
2.43.0


From 4551245ac851278ca500a69376901ed2da4c71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:19 +0000
Subject: [PATCH 130/193] fix: iplogger subscribes and logs with bytes

---
 ipyparallel/apps/logwatcher.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/apps/logwatcher.py b/ipyparallel/apps/logwatcher.py
index 89c40a3..8050c6b 100644
--- a/ipyparallel/apps/logwatcher.py
+++ b/ipyparallel/apps/logwatcher.py
@@ -31,6 +31,8 @@ class LogWatcher(LoggingConfigurable):
         return f'tcp://{localhost()}:20202'
 
     # internals
+    _subscribed = List()
+
     stream = Instance('zmq.eventloop.zmqstream.ZMQStream', allow_none=True)
 
     context = Instance(zmq.Context)
@@ -59,14 +61,18 @@ class LogWatcher(LoggingConfigurable):
 
     def subscribe(self):
         """Update our SUB socket's subscriptions."""
-        self.stream.setsockopt(zmq.UNSUBSCRIBE, '')
+        while self._subscribed:
+            self.stream.setsockopt(zmq.UNSUBSCRIBE, self._subscribed.pop())
         if '' in self.topics:
             self.log.debug("Subscribing to: everything")
-            self.stream.setsockopt(zmq.SUBSCRIBE, '')
+            topics = ['']
         else:
-            for topic in self.topics:
-                self.log.debug(f"Subscribing to: {topic!r}")
-                self.stream.setsockopt(zmq.SUBSCRIBE, topic)
+            self.log.debug(f"Subscribing to: {self.topics!r}")
+            topics = self.topics
+        for topic in topics:
+            topic = topic.encode("utf8")
+            self.stream.setsockopt(zmq.SUBSCRIBE, topic)
+            self._subscribed.append(topic)
 
     def _extract_level(self, topic_str):
         """Turn 'engine.0.INFO.extra' into (logging.INFO, 'engine.0.extra')"""
@@ -85,14 +91,14 @@ class LogWatcher(LoggingConfigurable):
 
     def log_message(self, raw):
         """receive and parse a message, then log it."""
-        if len(raw) != 2 or '.' not in raw[0]:
+        if len(raw) != 2 or b'.' not in raw[0]:
             self.log.error(f"Invalid log message: {raw}")
             return
         else:
-            topic, msg = raw
+            topic, msg = (part.decode("utf8", "replace") for part in raw)
             # don't newline, since log messages always newline:
             topic, level_name = topic.rsplit('.', 1)
             level, topic = self._extract_level(topic)
-            if msg[-1] == '\n':
+            if msg.endswith('\n'):
                 msg = msg[:-1]
             self.log.log(level, f"[{topic}] {msg}")
-- 
2.43.0


From c0c25faf1af60f7ae37adace73c3070f948b9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:19 +0000
Subject: [PATCH 131/193] fix: iplogger keeps the level of messages

---
 ipyparallel/apps/logwatcher.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ipyparallel/apps/logwatcher.py b/ipyparallel/apps/logwatcher.py
index 8050c6b..c1a1045 100644
--- a/ipyparallel/apps/logwatcher.py
+++ b/ipyparallel/apps/logwatcher.py
@@ -97,7 +97,6 @@ class LogWatcher(LoggingConfigurable):
         else:
             topic, msg = (part.decode("utf8", "replace") for part in raw)
             # don't newline, since log messages always newline:
-            topic, level_name = topic.rsplit('.', 1)
             level, topic = self._extract_level(topic)
             if msg.endswith('\n'):
                 msg = msg[:-1]
-- 
2.43.0


From c5831803ae2fc33c2fe802eae4d834769950845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:19 +0000
Subject: [PATCH 132/193] fix: setting up a logger twice returns it

---
 ipyparallel/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index d5eea6c..f5cdd56 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -390,7 +390,7 @@ def connect_logger(logname, context, iface, root="ip", loglevel=logging.DEBUG):
     logger = logging.getLogger(logname)
     if any([isinstance(h, handlers.PUBHandler) for h in logger.handlers]):
         # don't add a second PUBHandler
-        return
+        return logger
     loglevel = integer_loglevel(loglevel)
     lsock = context.socket(zmq.PUB)
     lsock.connect(iface)
@@ -408,7 +408,7 @@ def connect_engine_logger(context, iface, engine, loglevel=logging.DEBUG):
     logger = logging.getLogger()
     if any([isinstance(h, handlers.PUBHandler) for h in logger.handlers]):
         # don't add a second PUBHandler
-        return
+        return logger
     loglevel = integer_loglevel(loglevel)
     lsock = context.socket(zmq.PUB)
     lsock.connect(iface)
@@ -424,7 +424,7 @@ def local_logger(logname, loglevel=logging.DEBUG):
     logger = logging.getLogger(logname)
     if any([isinstance(h, logging.StreamHandler) for h in logger.handlers]):
         # don't add a second StreamHandler
-        return
+        return logger
     handler = logging.StreamHandler()
     handler.setLevel(loglevel)
     formatter = logging.Formatter(
-- 
2.43.0


From 15e59bcaa3500c3af96f691b024c47b7efb21dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 133/193] fix: failing to stop a part of a cluster does not
 keep the rest from being stopped

---
 ipyparallel/cluster/cluster.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 297fc3d..74a3923 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -72,6 +72,17 @@ def _atexit_cleanup_clusters(*args):
 _atexit_cleanup_clusters.registered = False
 
 
+async def _wait_for_all(*awaitables):
+    """Wait for all to finish, even if some fail
+
+    The first error, if any, is raised when all are finished.
+    """
+    results = await asyncio.gather(*awaitables, return_exceptions=True)
+    for result in results:
+        if isinstance(result, BaseException):
+            raise result
+
+
 @_traitlet_signature
 class Cluster(AsyncFirst, LoggingConfigurable):
     """Class representing an IPP cluster
@@ -813,8 +824,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             futures = []
             for engine_set_id in list(self.engines):
                 futures.append(self.stop_engines(engine_set_id))
-            if futures:
-                await asyncio.gather(*futures)
+            await _wait_for_all(*futures)
             return
         self.log.info(f"Stopping engine(s): {engine_set_id}")
         engine_set = self.engines[engine_set_id]
@@ -892,7 +902,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
 
     async def stop_cluster(self):
         """Stop the controller and all engines"""
-        await asyncio.gather(self.stop_controller(), self.stop_engines())
+        await _wait_for_all(self.stop_controller(), self.stop_engines())
 
     async def connect_client(self, **client_kwargs):
         """Return a client connected to the cluster"""
-- 
2.43.0


From 4752da93855f0cfe89466222a74cde02beede410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 134/193] fix: a cluster used as a context manager is stopped
 when entering or a part of exiting fails

---
 ipyparallel/cluster/cluster.py | 53 ++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 74a3923..cc90083 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -788,9 +788,14 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             n = sum(engine_set.n for engine_set in self.engines.values())
 
         if n:
-            await asyncio.wrap_future(
-                client.wait_for_engines(n, block=False, timeout=self.engine_timeout)
-            )
+            try:
+                await asyncio.wrap_future(
+                    client.wait_for_engines(n, block=False, timeout=self.engine_timeout)
+                )
+            except BaseException:
+                # nobody gets to see the client
+                client.close()
+                raise
 
         if activate:
             view = client[:]
@@ -926,26 +931,44 @@ class Cluster(AsyncFirst, LoggingConfigurable):
     _context_client = None
 
     async def __aenter__(self):
-        client = self._context_client = await self.start_and_connect()
+        try:
+            client = self._context_client = await self.start_and_connect()
+        except BaseException:
+            # not entered, so we won't be exited
+            await self.__aexit__()
+            raise
         return client
 
     async def __aexit__(self, *args):
-        if self._context_client is not None:
-            self._context_client.close()
-            self._context_client = None
-        await self.stop_engines()
-        await self.stop_controller()
+        try:
+            if self._context_client is not None:
+                self._context_client.close()
+                self._context_client = None
+        finally:
+            try:
+                await self.stop_engines()
+            finally:
+                await self.stop_controller()
 
     def __enter__(self):
-        client = self._context_client = self.start_and_connect_sync()
+        try:
+            client = self._context_client = self.start_and_connect_sync()
+        except BaseException:
+            # not entered, so we won't be exited
+            self.__exit__()
+            raise
         return client
 
     def __exit__(self, *args):
-        if self._context_client:
-            self._context_client.close()
-            self._context_client = None
-        self.stop_engines_sync()
-        self.stop_controller_sync()
+        try:
+            if self._context_client is not None:
+                self._context_client.close()
+                self._context_client = None
+        finally:
+            try:
+                self.stop_engines_sync()
+            finally:
+                self.stop_controller_sync()
 
 
 class ClusterManager(LoggingConfigurable):
-- 
2.43.0


From 4431b823591e754c43b211d02a60c30505399275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 135/193] fix: starting engines with the id of a running engine
 set does not lose track of it

---
 ipyparallel/cluster/cluster.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index cc90083..6e86917 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -708,6 +708,14 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         # TODO: send engines connection info
         if engine_set_id is None:
             engine_set_id = self._new_engine_set_id()
+        elif (
+            engine_set_id in self.engines
+            and self.engines[engine_set_id].state != 'after'
+        ):
+            raise RuntimeError(
+                f"Engine set {engine_set_id} is already running."
+                " Call stop_engines() first."
+            )
         engine_set = self.engines[engine_set_id] = self.engine_launcher_class(
             work_dir='.',
             parent=self,
-- 
2.43.0


From f65a803da29d5005af5916bbe568b19798212404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 136/193] fix: failing to signal one engine set does not keep
 others from getting the signal

---
 ipyparallel/cluster/cluster.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 6e86917..dea8fba 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -890,8 +890,12 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         If no engine set is specified, signal all engine sets.
         """
         if engine_set_id is None:
-            for engine_set_id in list(self.engines):
-                await self.signal_engines(signum, engine_set_id)
+            await _wait_for_all(
+                *(
+                    self.signal_engines(signum, engine_set_id)
+                    for engine_set_id in list(self.engines)
+                )
+            )
             return
         self.log.info(f"Sending signal {signum} to engine(s) {engine_set_id}")
         engine_set = self.engines[engine_set_id]
-- 
2.43.0


From 8fb928854934edcb306bcabf30c1dc7c8d944def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 137/193] fix: clusters that only start engines stop them at
 exit, too

---
 ipyparallel/cluster/cluster.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index dea8fba..dd1dd07 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -72,6 +72,14 @@ def _atexit_cleanup_clusters(*args):
 _atexit_cleanup_clusters.registered = False
 
 
+def _register_atexit(cluster):
+    """Stop a cluster when the process ends, if it is not stopped earlier"""
+    _atexit_clusters.add(cluster)
+    if not _atexit_cleanup_clusters.registered:
+        atexit.register(_atexit_cleanup_clusters)
+        _atexit_cleanup_clusters.registered = True
+
+
 async def _wait_for_all(*awaitables):
     """Wait for all to finish, even if some fail
 
@@ -629,9 +637,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             )
 
         if self.shutdown_atexit:
-            _atexit_clusters.add(self)
-            if not _atexit_cleanup_clusters.registered:
-                atexit.register(_atexit_cleanup_clusters)
+            _register_atexit(self)
 
         self.controller = controller = self.controller_launcher_class(
             work_dir='.',
@@ -706,6 +712,8 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         Returns an engine set id which can be used in stop_engines
         """
         # TODO: send engines connection info
+        if self.shutdown_atexit:
+            _register_atexit(self)
         if engine_set_id is None:
             engine_set_id = self._new_engine_set_id()
         elif (
-- 
2.43.0


From 0c59d036de31144225974e4dc3a7749ce89a106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 138/193] fix: what failed to start is not left in the cluster
 file

---
 ipyparallel/cluster/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index dd1dd07..3b66464 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -684,6 +684,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         except Exception:
             # not started, there is no controller
             self.controller = None
+            self.update_cluster_file()
             raise
 
         self.update_cluster_file()
@@ -757,6 +758,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             launchers = getattr(engine_set, 'launchers', {})
             if not any(el.running for el in launchers.values()):
                 self.engines.pop(engine_set_id, None)
+            self.update_cluster_file()
             raise
         self.update_cluster_file()
         return engine_set_id
-- 
2.43.0


From a7e0809d585436c326c961ccc3561d40cac6bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:20 +0000
Subject: [PATCH 139/193] fix: the default clusters of a ClusterManager have
 its configuration

---
 ipyparallel/cluster/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 3b66464..989fe5a 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -1081,7 +1081,9 @@ class ClusterManager(LoggingConfigurable):
             # TODO: only if it has any ipyparallel config files
             # *or* it's the default profile
             if init_default_clusters and not cluster_files:
-                cluster = Cluster(profile_dir=profile_dir, cluster_id="")
+                cluster = Cluster(
+                    profile_dir=profile_dir, cluster_id="", parent=self
+                )
                 cluster_key = self._cluster_key(cluster)
                 if cluster_key not in self.clusters:
                     self.clusters[cluster_key] = cluster
-- 
2.43.0


From 04bf7dc63bc3717063775b757226526c8ed34f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:41 +0000
Subject: [PATCH 140/193] fix: an error without a traceback does not get that
 of an earlier request

---
 ipyparallel/engine/kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index 139539b..9212458 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -177,6 +177,8 @@ class IPythonParallelKernel(IPythonKernel):
             )
 
         except BaseException as e:
+            # what is there is the traceback of an earlier request
+            shell._last_traceback = None
             # invoke IPython traceback formatting
             # this sends the 'error' message
             try:
-- 
2.43.0


From 19d87512fb748413dda117a9b2eca9ea605c1ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 141/193] fix: ipcluster start exits if the cluster does not
 start

---
 ipyparallel/cluster/app.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 13c92b3..86d9c15 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -566,7 +566,16 @@ class IPClusterStart(IPClusterEngines):
         pass
 
     async def start_cluster(self):
-        await self.cluster.start_cluster()
+        try:
+            await self.cluster.start_cluster()
+        except Exception:
+            self.log.exception("Cluster start failed")
+            try:
+                # don't leave what did start
+                await self.cluster.stop_cluster()
+            except Exception:
+                self.log.exception("Error stopping cluster")
+            self.exit(1)
         if self.daemonize:
             print(
                 f"Leaving cluster running: {self.cluster.cluster_file}", file=sys.stderr
-- 
2.43.0


From 9b9c32ef472f4e5370f9aaa6be5d2410054f984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 142/193] fix: ipcluster start ignores the file of a cluster
 that does not run

---
 ipyparallel/cluster/app.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 86d9c15..adda061 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -601,12 +601,14 @@ class IPClusterStart(IPClusterEngines):
         if os.path.isfile(cluster_file):
             try:
                 cluster = Cluster.from_file(cluster_file)
+                running = cluster._is_running()
             except Exception as e:
                 # TODO: define special ClusterNotRunning exception to handle here
                 self.log.error(
                     f"Error loading cluster from file {cluster_file}: {e}. Assuming stopped cluster."
                 )
-            else:
+                running = False
+            if running:
                 self.log.critical(
                     f'Cluster is already running at {self.cluster.cluster_file}. '
                     'use `ipcluster stop` to stop the cluster.'
-- 
2.43.0


From f8e5974db7f6afb62c12a8d0bf8d8478c93b87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 143/193] fix: ipcluster ends even if stopping the cluster
 fails

---
 ipyparallel/cluster/app.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index adda061..613c766 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -499,8 +499,10 @@ class IPClusterEngines(BaseParallelApplication):
         if not self._stopping:
             self._stopping = True
             self.log.error("IPython cluster: stopping")
-            await self.cluster.stop_cluster()
-            self.loop.add_callback(self.loop.stop)
+            try:
+                await self.cluster.stop_cluster()
+            finally:
+                self.loop.add_callback(self.loop.stop)
 
     def start_logging(self):
         # Remove old log files of the controller and engine
-- 
2.43.0


From cd6a6178c23d73f1d147d00d6f7a59d76233fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:36 +0000
Subject: [PATCH 144/193] fix: clusters with custom launcher classes can be
 loaded from their files

---
 ipyparallel/cluster/launcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index b756e1b..6774bd9 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2577,4 +2577,5 @@ def abbreviate_launcher_class(cls):
         for entrypoint in group:
             if entrypoint.value == cls_key:
                 return entrypoint.name.lower()
-    return cls_key
+    # not registered: to be imported by its name
+    return f"{cls.__module__}.{cls.__name__}"
-- 
2.43.0


From b825a670526df12dcce931e752525861f2a2bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:47 +0000
Subject: [PATCH 145/193] fix: a cluster whose start is interrupted knows what
 has been started

---
 ipyparallel/cluster/cluster.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 989fe5a..f6486c8 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -681,9 +681,10 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             r = self.controller.start()
             if inspect.isawaitable(r):
                 await r
-        except Exception:
+        except BaseException:
             # not started, there is no controller
-            self.controller = None
+            if not self.controller.running:
+                self.controller = None
             self.update_cluster_file()
             raise
 
@@ -753,10 +754,12 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             engine_set.on_stop(partial(self._engines_stopped, engine_set_id))
             if inspect.isawaitable(r):
                 await r
-        except Exception:
+        except BaseException:
             # not started, unless some of the engines are running already
             launchers = getattr(engine_set, 'launchers', {})
-            if not any(el.running for el in launchers.values()):
+            if not engine_set.running and not any(
+                el.running for el in launchers.values()
+            ):
                 self.engines.pop(engine_set_id, None)
             self.update_cluster_file()
             raise
-- 
2.43.0


From 9caf00838f41a4446b5d97ec0701e41bebac8833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:47 +0000
Subject: [PATCH 146/193] fix: a signal that stops ipcluster start while it is
 starting stops everything

---
 ipyparallel/cluster/app.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 613c766..2377672 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -369,6 +369,7 @@ class IPClusterEngines(BaseParallelApplication):
         help="If engines stop in this time frame, assume something is wrong and tear down the cluster.",
     )
     _stopping = False
+    _start_task = None
 
     aliases = Dict(engine_aliases)
     flags = Dict(engine_flags)
@@ -500,6 +501,10 @@ class IPClusterEngines(BaseParallelApplication):
             self._stopping = True
             self.log.error("IPython cluster: stopping")
             try:
+                if self._start_task is not None and not self._start_task.done():
+                    # nothing should start from now on
+                    self._start_task.cancel()
+                    await asyncio.wait([self._start_task])
                 await self.cluster.stop_cluster()
             finally:
                 self.loop.add_callback(self.loop.stop)
@@ -568,8 +573,14 @@ class IPClusterStart(IPClusterEngines):
         pass
 
     async def start_cluster(self):
+        if self._stopping:
+            return
+        self._start_task = asyncio.ensure_future(self.cluster.start_cluster())
         try:
-            await self.cluster.start_cluster()
+            await self._start_task
+        except asyncio.CancelledError:
+            # stopped while starting
+            return
         except Exception:
             self.log.exception("Cluster start failed")
             try:
@@ -633,7 +644,7 @@ class IPClusterStart(IPClusterEngines):
             else:
                 raise
         finally:
-            if not self.daemonize:
+            if not self.daemonize or self._stopping:
                 self.cluster.stop_cluster_sync()
 
 
-- 
2.43.0


From 9f96c885d02460044a80555e72235d66f8b4fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 147/193] fix: ipcluster stop stops all clusters even if
 stopping one fails

---
 ipyparallel/cluster/app.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 2377672..7773d2d 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -19,6 +19,7 @@ from traitlets.config.application import catch_config_error
 from ipyparallel._version import __version__
 from ipyparallel.apps.baseapp import BaseParallelApplication, base_aliases, base_flags
 from ipyparallel.cluster import Cluster, ClusterManager, clean_cluster_files
+from ipyparallel.cluster.cluster import _wait_for_all
 from ipyparallel.traitlets import entry_points
 from ipyparallel.util import abbreviate_profile_dir
 
@@ -184,7 +185,8 @@ class IPClusterStop(BaseParallelApplication):
             for cluster in clusters:
                 self.log.info(f"Stopping cluster {cluster.cluster_id}")
                 tasks.append(cluster.stop_cluster())
-            await asyncio.gather(*tasks)
+            # don't leave the others running if one fails
+            await _wait_for_all(*tasks)
 
         asyncio.run(_stop_all())
 
-- 
2.43.0


From ad725b2aeee7589b846e1604a626720e8a269f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:14 +0000
Subject: [PATCH 148/193] fix: clean_cluster_files without a log passes over
 what it cannot remove

---
 ipyparallel/cluster/cluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index f6486c8..a9050c4 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -1149,7 +1149,8 @@ def clean_cluster_files(profile_dirs=None, *, log=None, force=False):
         try:
             os.remove(f)
         except OSError as e:
-            log.error(f"Error removing {f}: {e}")
+            if log:
+                log.error(f"Error removing {f}: {e}")
 
     for profile_dir in profile_dirs:
         if log:
@@ -1170,7 +1171,7 @@ def clean_cluster_files(profile_dirs=None, *, log=None, force=False):
                 else:
                     if cluster._is_running():
                         raise ValueError(
-                            "f{cluster} is still running. Use force=True to cleanup files for running clusters (may leave orphan processes!)"
+                            f"{cluster} is still running. Use force=True to cleanup files for running clusters (may leave orphan processes!)"
                         )
                     else:
                         _remove(cluster_file)
-- 
2.43.0


From a7717062f1a5db67e5f64dde815b9b539574e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:14 +0000
Subject: [PATCH 149/193] fix: clean_logs finds the log files of earlier runs

---
 ipyparallel/apps/baseapp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/apps/baseapp.py b/ipyparallel/apps/baseapp.py
index a3fd27c..7cd6ca1 100644
--- a/ipyparallel/apps/baseapp.py
+++ b/ipyparallel/apps/baseapp.py
@@ -185,7 +185,9 @@ class BaseParallelApplication(BaseIPythonApplication):
         log_dir = self.profile_dir.log_dir
         if self.clean_logs:
             for f in os.listdir(log_dir):
-                if re.match(rf'{self.name}-\d+\.(log|err|out)', f):
+                # as named below
+                prefix = re.escape(f"{self.name}-{self.cluster_id}")
+                if re.match(rf'{prefix}-\d+\.(log|err|out)', f):
                     try:
                         os.remove(os.path.join(log_dir, f))
                     except OSError:
-- 
2.43.0


From 612ea51c57564353ed72007e46c54dd1f2bbaa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:43 +0000
Subject: [PATCH 150/193] fix: ipcluster engines leaves the file of a running
 cluster alone

---
 ipyparallel/cluster/app.py | 44 ++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 7773d2d..7d9fefa 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -519,10 +519,27 @@ class IPClusterEngines(BaseParallelApplication):
                 if re.match(r'ip(engine|controller)-.+\.(log|err|out)', f):
                     os.remove(os.path.join(log_dir, f))
 
+    def already_running(self):
+        """Is there a file of our cluster, and is any of it running"""
+        cluster_file = self.cluster.cluster_file
+        if not os.path.isfile(cluster_file):
+            return False
+        try:
+            return Cluster.from_file(cluster_file)._is_running()
+        except Exception as e:
+            # TODO: define special ClusterNotRunning exception to handle here
+            self.log.error(
+                f"Error loading cluster from file {cluster_file}: {e}. Assuming stopped cluster."
+            )
+            return False
+
     def start(self):
         """Start the app for the engines subcommand."""
         self.log.info(f"IPython cluster start: {self.cluster_id}")
         # First see if the cluster is already running
+        if self.already_running():
+            # its file is not ours to change
+            self.cluster.cluster_file = ""
 
         # Now log and daemonize
         self.log.info(f'Starting engines with [daemon={self.daemonize!r}]')
@@ -612,25 +629,14 @@ class IPClusterStart(IPClusterEngines):
     def start(self):
         """Start the app for the start subcommand."""
         # First see if the cluster is already running
-        cluster_file = self.cluster.cluster_file
-        if os.path.isfile(cluster_file):
-            try:
-                cluster = Cluster.from_file(cluster_file)
-                running = cluster._is_running()
-            except Exception as e:
-                # TODO: define special ClusterNotRunning exception to handle here
-                self.log.error(
-                    f"Error loading cluster from file {cluster_file}: {e}. Assuming stopped cluster."
-                )
-                running = False
-            if running:
-                self.log.critical(
-                    f'Cluster is already running at {self.cluster.cluster_file}. '
-                    'use `ipcluster stop` to stop the cluster.'
-                )
-                # Here I exit with a unusual exit status that other processes
-                # can watch for to learn how I existed.
-                self.exit(ALREADY_STARTED)
+        if self.already_running():
+            self.log.critical(
+                f'Cluster is already running at {self.cluster.cluster_file}. '
+                'use `ipcluster stop` to stop the cluster.'
+            )
+            # Here I exit with a unusual exit status that other processes
+            # can watch for to learn how I existed.
+            self.exit(ALREADY_STARTED)
 
         # Now log and daemonize
         self.log.info(f'Starting ipcluster with [daemonize={self.daemonize!r}]')
-- 
2.43.0


From 3474cde0cf6d03d43fe4d33af3efe3132f9d0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:57 +0000
Subject: [PATCH 151/193] fix: the error in metadata from the Hub is an
 exception

---
 ipyparallel/client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 337558b..4a51d20 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2326,6 +2326,8 @@ class Client(HasTraits):
                 md.update(self._extract_metadata(md_msg))
                 if rec.get('received'):
                     md['received'] = util._parse_date(rec['received'])
+                if iodict.get('error'):
+                    iodict['error'] = self._unwrap_exception(iodict['error'])
                 md.update(iodict)
 
                 if rcontent['status'] == 'ok':
-- 
2.43.0


From 4ea90e8a9ffc854a28f39af8c14ebae2e62f6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:31 +0000
Subject: [PATCH 152/193] fix: progress of a result from the Hub counts what
 the Hub is waiting for

---
 ipyparallel/client/asyncresult.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 8964d3f..0a37939 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1224,5 +1224,20 @@ class AsyncHubResult(AsyncResult):
 
         return self._ready
 
+    @property
+    def progress(self):
+        """the number of tasks which have been completed at this point."""
+        if self.ready():
+            return len(self)
+        pending = self._client.outstanding.intersection(self.msg_ids)
+        remote_ids = [
+            m
+            for m in self.msg_ids
+            if m not in pending and m not in self._client.results
+        ]
+        if remote_ids:
+            pending.update(self._client.result_status(remote_ids)['pending'])
+        return len(self) - self._count_chunks(*pending)
+
 
 __all__ = ['AsyncResult', 'AsyncMapResult', 'AsyncHubResult']
-- 
2.43.0


From a9118c163e865300faad4a0f7c84da479e466fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:24 +0000
Subject: [PATCH 153/193] fix: waiting for a result from the Hub to be sent
 does not hang

---
 ipyparallel/client/asyncresult.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 0a37939..06052bf 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1169,7 +1169,9 @@ class AsyncHubResult(AsyncResult):
 
     def _init_futures(self):
         """disable Future-based resolution of Hub results"""
-        pass
+        # sent already, or not by us
+        self._tracker = zmq.MessageTracker()
+        self._sent_event.set()
 
     def wait(self, timeout=-1, return_when=None):
         """wait for result to complete."""
-- 
2.43.0


From 8a62c3571cceeefb1eb6a600391fb82479f5c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 154/193] fix: result() and exception() of a result from the
 Hub wait for it

---
 ipyparallel/client/asyncresult.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 06052bf..1f89e78 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1226,6 +1226,16 @@ class AsyncHubResult(AsyncResult):
 
         return self._ready
 
+    def result(self, timeout=None):
+        """wait for the result (see concurrent.futures.Future)"""
+        self.wait(timeout)
+        return super().result(0)
+
+    def exception(self, timeout=None):
+        """wait for the exception, if any (see concurrent.futures.Future)"""
+        self.wait(timeout)
+        return super().exception(0)
+
     @property
     def progress(self):
         """the number of tasks which have been completed at this point."""
-- 
2.43.0


From f686d8aeb2064a751dd94381e29c28f574c26a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 155/193] fix: wait_for_output() of a result from the Hub does
 not hang

---
 ipyparallel/client/asyncresult.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 1f89e78..8495faf 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1226,6 +1226,10 @@ class AsyncHubResult(AsyncResult):
 
         return self._ready
 
+    def wait_for_output(self, timeout=-1):
+        """Output comes with the result"""
+        return self.wait(timeout)
+
     def result(self, timeout=None):
         """wait for the result (see concurrent.futures.Future)"""
         self.wait(timeout)
-- 
2.43.0


From a8526e0713e348c9178f893f81b14bd05edbf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 156/193] fix: iterating over a pending result from the Hub
 waits for it

---
 ipyparallel/client/asyncresult.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 8495faf..18847e6 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1226,6 +1226,28 @@ class AsyncHubResult(AsyncResult):
 
         return self._ready
 
+    def __iter__(self):
+        if self._single_result:
+            raise TypeError("AsyncResults with a single result are not iterable.")
+        if self.ready():
+            yield from self.get()
+        else:
+            # wait for each result individually
+            for part in self._parts():
+                yield from part.get()
+
+    def _parts(self):
+        """my messages, one by one"""
+        return [
+            AsyncHubResult(
+                self._client,
+                [msg_id],
+                fname=self._fname,
+                return_exceptions=self._return_exceptions,
+            )
+            for msg_id in self.msg_ids
+        ]
+
     def wait_for_output(self, timeout=-1):
         """Output comes with the result"""
         return self.wait(timeout)
-- 
2.43.0


From 988ce09f7c31d3dc49766802be3a8b2cc5b6cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:11 +0000
Subject: [PATCH 157/193] fix: return_when is respected in waits for results
 from the Hub

---
 ipyparallel/client/asyncresult.py | 57 ++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 18847e6..ed75791 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1178,6 +1178,8 @@ class AsyncHubResult(AsyncResult):
         start = time.perf_counter()
         if timeout and timeout < 0:
             timeout = None
+        if return_when is not None:
+            return self._wait_some(timeout, return_when)
         if self._ready:
             return True
         local_ids = [m for m in self.msg_ids if m in self._client.outstanding]
@@ -1226,6 +1228,41 @@ class AsyncHubResult(AsyncResult):
 
         return self._ready
 
+    def _wait_some(self, timeout, return_when):
+        """wait as concurrent.futures.wait does"""
+        start = time.perf_counter()
+        parts = self.split()
+        while True:
+            done = {part for part in parts if part.ready()}
+            pending = set(parts).difference(done)
+            if not pending:
+                # resolve myself, too
+                self.wait(0)
+                break
+            if return_when == FIRST_COMPLETED and done:
+                break
+            if return_when == FIRST_EXCEPTION and not all(p._success for p in done):
+                break
+            if timeout is not None and time.perf_counter() >= start + timeout:
+                break
+            time.sleep(0.1)
+        return done, pending
+
+    @lru_cache
+    def split(self):
+        """Split a result from the Hub into those of single messages"""
+        if len(self.msg_ids) == 1:
+            return (self,)
+        return tuple(
+            AsyncHubResult(
+                self._client,
+                msg_id,
+                fname=self._fname,
+                return_exceptions=self._return_exceptions,
+            )
+            for msg_id in self.msg_ids
+        )
+
     def __iter__(self):
         if self._single_result:
             raise TypeError("AsyncResults with a single result are not iterable.")
@@ -1233,21 +1270,15 @@ class AsyncHubResult(AsyncResult):
             yield from self.get()
         else:
             # wait for each result individually
-            for part in self._parts():
+            for msg_id in self.msg_ids:
+                part = AsyncHubResult(
+                    self._client,
+                    [msg_id],
+                    fname=self._fname,
+                    return_exceptions=self._return_exceptions,
+                )
                 yield from part.get()
 
-    def _parts(self):
-        """my messages, one by one"""
-        return [
-            AsyncHubResult(
-                self._client,
-                [msg_id],
-                fname=self._fname,
-                return_exceptions=self._return_exceptions,
-            )
-            for msg_id in self.msg_ids
-        ]
-
     def wait_for_output(self, timeout=-1):
         """Output comes with the result"""
         return self.wait(timeout)
-- 
2.43.0


From b700cf72855d905d9326b314a93bf6160fdbd3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:34 +0000
Subject: [PATCH 158/193] fix: a result from the Hub has the metadata from the
 Hub

---
 ipyparallel/client/asyncresult.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index ed75791..a0f83ba 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1207,6 +1207,11 @@ class AsyncHubResult(AsyncResult):
                     self._ready = True
         if self._ready:
             self._output_ready = True
+            # earlier results may have dropped what we had
+            self._metadata = [
+                self._client.metadata.get(msg_id, md)
+                for msg_id, md in zip(self.msg_ids, self._metadata)
+            ]
             try:
                 results = list(map(self._client.results.get, self.msg_ids))
                 self._raw_results = results
-- 
2.43.0


From cf36f82a783a78023a4bbefc4363521b681c876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:46 +0000
Subject: [PATCH 159/193] fix: a result from the Hub does not lose those
 dropped by their owners meanwhile

---
 ipyparallel/client/asyncresult.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index a0f83ba..e996498 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1184,8 +1184,14 @@ class AsyncHubResult(AsyncResult):
             return True
         local_ids = [m for m in self.msg_ids if m in self._client.outstanding]
         local_ready = self._client.wait(local_ids, timeout)
+        found = {}
         if local_ready:
-            remote_ids = [m for m in self.msg_ids if m not in self._client.results]
+            # results may be dropped by their owners at any time
+            for msg_id in self.msg_ids:
+                result = self._client.results.get(msg_id, _default)
+                if result is not _default:
+                    found[msg_id] = result
+            remote_ids = [m for m in self.msg_ids if m not in found]
             if not remote_ids:
                 self._ready = True
             else:
@@ -1205,6 +1211,7 @@ class AsyncHubResult(AsyncResult):
                         time.sleep(0.1)
                 if not pending:
                     self._ready = True
+                    found.update({m: rdict[m] for m in remote_ids})
         if self._ready:
             self._output_ready = True
             # earlier results may have dropped what we had
@@ -1213,7 +1220,7 @@ class AsyncHubResult(AsyncResult):
                 for msg_id, md in zip(self.msg_ids, self._metadata)
             ]
             try:
-                results = list(map(self._client.results.get, self.msg_ids))
+                results = [found[msg_id] for msg_id in self.msg_ids]
                 self._raw_results = results
                 if self._single_result:
                     r = results[0]
-- 
2.43.0


From 573e9b930a41cb52974a041ad77694b5c9243a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:48 +0000
Subject: [PATCH 160/193] fix: errors of joblib tasks are not logged as errors
 of a callback

---
 ipyparallel/client/_joblib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/_joblib.py b/ipyparallel/client/_joblib.py
index 92b5d03..71dc337 100644
--- a/ipyparallel/client/_joblib.py
+++ b/ipyparallel/client/_joblib.py
@@ -60,5 +60,11 @@ class IPythonParallelBackend(AutoBatchingMixin, ParallelBackendBase):
         """Schedule a func to be run"""
         future = self._view.apply_async(func)
         if callback:
-            future.add_done_callback(lambda f: callback(f.result()))
+
+            def when_done(f):
+                # errors are raised when joblib gets the result
+                if f.exception() is None:
+                    callback(f.result())
+
+            future.add_done_callback(when_done)
         return future
-- 
2.43.0


From 9fd39860ad3869c49b74c26cfd941b94de356dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:16 +0000
Subject: [PATCH 161/193] fix: the default joblib backend can be used more than
 once

---
 ipyparallel/client/_joblib.py | 64 +++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/ipyparallel/client/_joblib.py b/ipyparallel/client/_joblib.py
index 71dc337..1b8bfb0 100644
--- a/ipyparallel/client/_joblib.py
+++ b/ipyparallel/client/_joblib.py
@@ -12,48 +12,60 @@ class IPythonParallelBackend(AutoBatchingMixin, ParallelBackendBase):
         super().__init__(**kwargs)
         self._cluster_owner = False
         self._client_owner = False
+        self._connected = False
         if view is None:
             self._client_owner = True
-            try:
-                # load the default cluster
-                cluster = ipp.Cluster.from_file()
-            except FileNotFoundError:
-                # other load errors?
-                cluster = self._cluster = ipp.Cluster()
-                self._cluster_owner = True
-                cluster.start_cluster_sync()
-            else:
-                # cluster running, ensure some engines are, too
-                if not cluster.engines:
-                    cluster.start_engines_sync()
-            rc = cluster.connect_client_sync()
-            rc.wait_for_engines(cluster.n or 1)
-            view = rc.load_balanced_view()
+            view = self._connect()
+        self._view = view
 
-            # use cloudpickle or dill for closures, if available.
-            # joblib tends to create closures default pickle can't handle.
+    def _connect(self):
+        """Connect to the default cluster, starting it if needed"""
+        try:
+            # load the default cluster
+            cluster = ipp.Cluster.from_file()
+        except FileNotFoundError:
+            # other load errors?
+            cluster = self._cluster = ipp.Cluster()
+            self._cluster_owner = True
+            cluster.start_cluster_sync()
+        else:
+            # cluster running, ensure some engines are, too
+            if not cluster.engines:
+                cluster.start_engines_sync()
+        rc = cluster.connect_client_sync()
+        rc.wait_for_engines(cluster.n or 1)
+        view = rc.load_balanced_view()
+
+        # use cloudpickle or dill for closures, if available.
+        # joblib tends to create closures default pickle can't handle.
+        try:
+            import cloudpickle  # noqa
+        except ImportError:
             try:
-                import cloudpickle  # noqa
+                import dill  # noqa
             except ImportError:
-                try:
-                    import dill  # noqa
-                except ImportError:
-                    pass
-                else:
-                    view.client[:].use_dill()
+                pass
             else:
-                view.client[:].use_cloudpickle()
-        self._view = view
+                view.client[:].use_dill()
+        else:
+            view.client[:].use_cloudpickle()
+        self._connected = True
+        return view
 
     def effective_n_jobs(self, n_jobs):
         """A View can run len(view) jobs at a time"""
+        if self._client_owner and not self._connected:
+            # joblib uses a backend again after terminating it
+            self._view = self._connect()
         return len(self._view)
 
     def terminate(self):
         """Close the client if we created it"""
         if self._client_owner:
+            self._connected = False
             self._view.client.close()
         if self._cluster_owner:
+            self._cluster_owner = False
             self._cluster.stop_cluster_sync()
 
     def apply_async(self, func, callback=None):
-- 
2.43.0


From 7573e7f750bde4b4b02df349ec67727ac09245fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:47 +0000
Subject: [PATCH 162/193] fix: stop callbacks are all called, if one removes
 itself

---
 ipyparallel/cluster/launcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 6774bd9..95999eb 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -301,7 +301,8 @@ class BaseLauncher(LoggingConfigurable):
         self.stop_data = data
         self.state = 'after'
         self._log_output(data)
-        for f in self.stop_callbacks:
+        # callbacks may remove themselves
+        for f in list(self.stop_callbacks):
             f(data)
         return data
 
-- 
2.43.0


From 3b79407fdc674426b9ebce7325d9938aefb2ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:12 +0000
Subject: [PATCH 163/193] fix: registrations of engines are noticed by all
 waits for engines

---
 ipyparallel/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 4a51d20..a9861b8 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -883,7 +883,8 @@ class Client(HasTraits):
         self._update_engines(d)
         event = {'event': 'register'}
         event.update(content)
-        for callback in self._registration_callbacks:
+        # callbacks may remove themselves
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _unregister_engine(self, msg):
@@ -901,7 +902,8 @@ class Client(HasTraits):
 
         event = {"event": "unregister"}
         event.update(content)
-        for callback in self._registration_callbacks:
+        # callbacks may remove themselves
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _handle_stranded_msgs(self, eid, uuid):
-- 
2.43.0


From 0139ef3272d6481087205a978e71dc35dff043fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:12 +0000
Subject: [PATCH 164/193] fix: engines that register while a wait for engines
 begins are not missed

---
 ipyparallel/client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index a9861b8..135afeb 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1626,6 +1626,8 @@ class Client(HasTraits):
 
         self._registration_callbacks.append(notify)
         future.add_done_callback(lambda f: self._registration_callbacks.remove(notify))
+        # engines may have registered since we looked
+        self._io_loop.add_callback(notify, {"event": "check"})
 
         def on_timeout():
             """Called when timeout is reached"""
-- 
2.43.0


From 92509ea0009704d6ebf33bd8c089a9eebdd8b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:06 +0000
Subject: [PATCH 165/193] fix: engines are told when the frontend closes a comm

---
 ipyparallel/client/client.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 135afeb..43ed4ba 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1244,14 +1244,8 @@ class Client(HasTraits):
                     )
 
                 comm.on_msg(relay_comm)
-                comm.on_close(
-                    lambda: send_to_engine(
-                        "comm_close",
-                        content={
-                            "comm_id": comm.comm_id,
-                        },
-                    )
-                )
+                # comm_close is relayed like comm_msg
+                comm.on_close(relay_comm)
                 ip.kernel.comm_manager.register_comm(comm)
 
             # relay all comm msgs
-- 
2.43.0


From 6da6814137dfe29ae4f5106d987ad3add91b5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:16 +0000
Subject: [PATCH 166/193] fix: the Windows HPC controller launcher can be
 started by a Cluster

---
 ipyparallel/cluster/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 95999eb..449e25c 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1653,7 +1653,7 @@ class WindowsHPCLauncher(BaseLauncher):
         self.log.info(f'Job started with id: {job_id}')
         return job_id
 
-    def start(self, n):
+    def start(self, n=1):
         """Start n copies of the process using the Win HPC job scheduler."""
         self.write_job_file(n)
         args = [
-- 
2.43.0


From e13944c5bb3600924483c9126d3ae30f902b3569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:16 +0000
Subject: [PATCH 167/193] fix: Windows HPC job files keep text like _A_ in
 values

---
 ipyparallel/cluster/_winhpcjob.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/cluster/_winhpcjob.py b/ipyparallel/cluster/_winhpcjob.py
index 3cbba19..ad321d9 100644
--- a/ipyparallel/cluster/_winhpcjob.py
+++ b/ipyparallel/cluster/_winhpcjob.py
@@ -30,6 +30,11 @@ def as_str(value):
         return value
 
 
+def _attr_name(key):
+    """Remove the token that tells the order of an attribute"""
+    return re.sub(r'^_[A-Z]_', '', key)
+
+
 def indent(elem, level=0):
     i = "\n" + level * "  "
     if len(elem):
@@ -89,10 +94,10 @@ class WinHPCJob(Configurable):
     def _write_attr(self, root, attr, key):
         s = as_str(getattr(self, attr, ''))
         if s:
-            root.set(key, s)
+            root.set(_attr_name(key), s)
 
     def as_element(self):
-        # We have to add _A_ type things to get the right order than
+        # The _A_ type things tell the order that
         # the MSFT XML parser expects.
         root = ET.Element('Job')
         self._write_attr(root, 'version', '_A_Version')
@@ -126,8 +131,6 @@ class WinHPCJob(Configurable):
         root = self.as_element()
         indent(root)
         txt = ET.tostring(root, encoding="utf-8").decode('utf-8')
-        # Now remove the tokens used to order the attributes.
-        txt = re.sub(r'_[A-Z]_', '', txt)
         txt = '<?xml version="1.0" encoding="utf-8"?>\n' + txt
         return txt
 
@@ -170,7 +173,7 @@ class WinHPCTask(Configurable):
     def _write_attr(self, root, attr, key):
         s = as_str(getattr(self, attr, ''))
         if s:
-            root.set(key, s)
+            root.set(_attr_name(key), s)
 
     def as_element(self):
         root = ET.Element('Task')
-- 
2.43.0


From c0bb8c5a393b74a4929f85adb26fb524a735b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:16 +0000
Subject: [PATCH 168/193] fix: Windows HPC job files are utf-8, as they declare

---
 ipyparallel/cluster/_winhpcjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/_winhpcjob.py b/ipyparallel/cluster/_winhpcjob.py
index ad321d9..2be61b7 100644
--- a/ipyparallel/cluster/_winhpcjob.py
+++ b/ipyparallel/cluster/_winhpcjob.py
@@ -137,7 +137,7 @@ class WinHPCJob(Configurable):
     def write(self, filename):
         """Write the XML job description to a file."""
         txt = self.tostring()
-        with open(filename, 'w') as f:
+        with open(filename, 'w', encoding='utf-8') as f:
             f.write(txt)
 
     def add_task(self, task):
-- 
2.43.0


From d02ed610de69f741d93dfbaf4a643c2ca150f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:16 +0000
Subject: [PATCH 169/193] fix: arguments are quoted in Windows HPC job files

---
 ipyparallel/cluster/_winhpcjob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/_winhpcjob.py b/ipyparallel/cluster/_winhpcjob.py
index 2be61b7..4d5ab0a 100644
--- a/ipyparallel/cluster/_winhpcjob.py
+++ b/ipyparallel/cluster/_winhpcjob.py
@@ -6,6 +6,7 @@ Job and task components for writing .xml files that the Windows HPC Server
 import os
 import re
 import uuid
+from subprocess import list2cmdline
 from xml.etree import ElementTree as ET
 
 from traitlets import Bool, Enum, Instance, Integer, List, Unicode
@@ -259,7 +260,7 @@ class IPControllerTask(WinHPCTask):
 
     @property
     def command_line(self):
-        return ' '.join(self.controller_cmd + self.controller_args)
+        return list2cmdline(self.controller_cmd + self.controller_args)
 
 
 class IPEngineTask(WinHPCTask):
@@ -286,4 +287,4 @@ class IPEngineTask(WinHPCTask):
 
     @property
     def command_line(self):
-        return ' '.join(self.engine_cmd + self.engine_args)
+        return list2cmdline(self.engine_cmd + self.engine_args)
-- 
2.43.0


From 8ab5f75fcfd9e3b4044334967af6cb3096c2a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:16 +0000
Subject: [PATCH 170/193] fix: Windows HPC jobs are told their profile and
 cluster id

---
 ipyparallel/cluster/launcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 449e25c..ddcf505 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1708,6 +1708,7 @@ class WindowsHPCControllerLauncher(WindowsHPCLauncher):
         # Add the profile_dir and from self.start().
         t.controller_args.extend(self.cluster_args)
         t.controller_args.extend(self.controller_args)
+        t.environment_variables.update(self.get_env())
         job.add_task(t)
 
         self.log.debug("Writing job description file: %s", self.job_file)
@@ -1732,6 +1733,7 @@ class WindowsHPCEngineSetLauncher(WindowsHPCLauncher):
             # Add the profile_dir and from self.start().
             t.engine_args.extend(self.cluster_args)
             t.engine_args.extend(self.engine_args)
+            t.environment_variables.update(self.get_env())
             job.add_task(t)
 
         self.log.debug("Writing job description file: %s", self.job_file)
-- 
2.43.0


From ed1f038eda9c40297a0198a8574ab0bbb9b5f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:59 +0000
Subject: [PATCH 171/193] fix: clients connecting via ssh use CURVE for all
 sockets

---
 ipyparallel/client/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 43ed4ba..c541c8c 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -747,6 +747,10 @@ class Client(HasTraits):
             if self._ssh:
                 from zmq.ssh import tunnel
 
+                if self.curve_serverkey:
+                    s.curve_serverkey = self.curve_serverkey
+                    s.curve_secretkey = self.curve_secretkey
+                    s.curve_publickey = self.curve_publickey
                 return tunnel.tunnel_connection(s, url, sshserver, **ssh_kwargs)
             else:
                 return util.connect(
-- 
2.43.0


From b75c2bcede2ce47ed9bd977a95388e3c55c0d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:59 +0000
Subject: [PATCH 172/193] fix: error message for incomplete connection files

---
 ipyparallel/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index c541c8c..a6b300f 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -576,7 +576,7 @@ class Client(HasTraits):
                     "If you are reusing connection files, remove them and start ipcontroller again.",
                 ]
             )
-            raise ValueError(msg.format(exc.message))
+            raise ValueError(msg.format(exc.args[0]))
 
         util._disable_session_extract_dates()
         self.session = Session(**extra_args)
-- 
2.43.0


From d8727b7e92043d1080e2474e622022f6129badab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:59 +0000
Subject: [PATCH 173/193] fix: the deprecated url_file argument of Client is
 not ignored

---
 ipyparallel/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index a6b300f..47fcfd6 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -420,9 +420,11 @@ class Client(HasTraits):
         if context is not None:
             self._context = context
 
+        if url_file is not None:
+            extra_args['url_file'] = url_file
         for argname in ('url_or_file', 'url_file'):
             if argname in extra_args:
-                connection_info = extra_args[argname]
+                connection_info = extra_args.pop(argname)
                 warnings.warn(
                     f"{argname} arg no longer supported, use positional connection_info argument",
                     DeprecationWarning,
-- 
2.43.0


From ab10c846d9df3e5d35d39890f13b681afec2e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:59 +0000
Subject: [PATCH 174/193] fix: sshkey or password without sshserver tunnel via
 the controller's address

---
 ipyparallel/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 47fcfd6..77e6e48 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -553,7 +553,7 @@ class Client(HasTraits):
         self._config = cfg
 
         self._ssh = bool(sshserver or sshkey or password)
-        if self._ssh and sshserver is None:
+        if self._ssh and not sshserver:
             # default to ssh via localhost
             sshserver = addr
         if self._ssh and password is None:
-- 
2.43.0


From 20ffb42cb6cfdcb2a918e04be7fc20e52d1dca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:51 +0000
Subject: [PATCH 175/193] fix: clients work without task farming after engines
 have left a pure ZMQ scheduler

---
 ipyparallel/client/client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 77e6e48..e107c7b 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -388,6 +388,7 @@ class Client(HasTraits):
     curve_publickey = Bytes(allow_none=True)
 
     _task_scheme = Unicode()
+    _task_stream = None
     _closed = False
 
     def __new__(self, *args, **kw):
@@ -686,6 +687,8 @@ class Client(HasTraits):
         """Stop scheduling tasks because an engine has been unregistered
         from a pure ZMQ scheduler.
         """
+        if self._task_stream is not None:
+            self._task_stream.close()
         self._task_socket.close()
         self._task_socket = None
         msg = (
@@ -1094,8 +1097,10 @@ class Client(HasTraits):
         self._control_stream.on_recv(self._dispatch_single_reply, copy=False)
         self._mux_stream = ZMQStream(self._mux_socket, self._io_loop)
         self._mux_stream.on_recv(self._dispatch_reply, copy=False)
-        self._task_stream = ZMQStream(self._task_socket, self._io_loop)
-        self._task_stream.on_recv(self._dispatch_reply, copy=False)
+        # no task socket if engines have left a pure ZMQ scheduler already
+        if self._task_socket is not None:
+            self._task_stream = ZMQStream(self._task_socket, self._io_loop)
+            self._task_stream.on_recv(self._dispatch_reply, copy=False)
         self._iopub_stream = ZMQStream(self._iopub_socket, self._io_loop)
         self._iopub_stream.on_recv(self._dispatch_iopub, copy=False)
         self._notification_stream = ZMQStream(self._notification_socket, self._io_loop)
@@ -1308,6 +1313,8 @@ class Client(HasTraits):
         returns msg object"""
         if self._closed:
             raise OSError("Connections have been closed.")
+        if socket is self._task_stream and self._task_socket is None:
+            raise OSError("Task farming is disabled.")
         msg = self.session.msg(
             msg_type, content=content, parent=parent, header=header, metadata=metadata
         )
-- 
2.43.0


From 6fbc981d20ec4f2b9bebbcd2b8eeaa704d5ac1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:15 +0000
Subject: [PATCH 176/193] fix: requests on the control channel do not wait for
 engines that died

---
 ipyparallel/client/client.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index e107c7b..da5f194 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -363,6 +363,8 @@ class Client(HasTraits):
             return 'default'
 
     _outstanding_dict = Instance('collections.defaultdict', (set,))
+    # control requests without a reply: {engine uuid: {msg_id: msg_type}}
+    _outstanding_control = Instance('collections.defaultdict', (dict,))
     _ids = List()
     _connected = Bool(False)
     _ssh = Bool(False)
@@ -923,6 +925,26 @@ class Client(HasTraits):
         of the unregistration and later receive the successful result.
         """
 
+        # control requests the engine has not replied to will get no reply
+        for msg_id, msg_type in list(self._outstanding_control[uuid].items()):
+            if msg_type == 'shutdown_request':
+                # that is what it was asked to do
+                content = {'status': 'ok'}
+            else:
+                try:
+                    raise error.EngineError(
+                        f"Engine {eid!r} died before replying to {msg_type}"
+                    )
+                except Exception:
+                    content = error.wrap_exception()
+            future = self._futures.get(msg_id)
+            if future is not None and not future.done():
+                msg = self.session.msg(
+                    msg_type.replace('_request', '_reply'), content=content
+                )
+                msg['parent_header']['msg_id'] = msg_id
+                future.set_result(msg)
+
         outstanding = self._outstanding_dict[uuid]
 
         for msg_id in list(outstanding):
@@ -1144,7 +1166,7 @@ class Client(HasTraits):
         """Dispatch single (non-execution) replies"""
         msg_id = msg['parent_header'].get('msg_id', None)
         future = self._futures.get(msg_id)
-        if future is not None:
+        if future is not None and not future.done():
             future.set_result(msg)
 
     @unpack_message
@@ -1358,6 +1380,16 @@ class Client(HasTraits):
 
             multi_future(futures).add_done_callback(cleanup)
 
+            if socket is self._control_stream and ident:
+                # save for later, in case of engine death
+                ident_str = ident.decode("utf-8")
+                self._outstanding_control[ident_str][msg_id] = msg_type
+
+                def control_done(f):
+                    self._outstanding_control[ident_str].pop(msg_id, None)
+
+                futures[0].add_done_callback(control_done)
+
         def _really_send():
             sent = self.session.send(
                 socket, msg, track=track, buffers=buffers, ident=ident
-- 
2.43.0


From ca323e0203d892e74653dbed1819b62410d74881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:15 +0000
Subject: [PATCH 177/193] fix: requests to engines that leave as they are sent
 do not wait for ever

---
 ipyparallel/client/client.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index da5f194..421f214 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1356,7 +1356,10 @@ class Client(HasTraits):
                 if isinstance(ident_str, list):
                     ident_str = ident_str[-1]
                 ident_str = ident_str.decode("utf-8")
-                if ident_str in self._engines.values():
+                if (
+                    socket is self._mux_stream
+                    or ident_str in list(self._engines.values())
+                ):
                     # save for later, in case of engine death
                     self._outstanding_dict[ident_str].add(msg_id)
 
@@ -1390,6 +1393,17 @@ class Client(HasTraits):
 
                 futures[0].add_done_callback(control_done)
 
+            if socket in (self._mux_stream, self._control_stream) and ident:
+                if isinstance(ident, list):
+                    ident_str = ident[-1].decode("utf-8")
+                else:
+                    ident_str = ident.decode("utf-8")
+                if ident_str not in list(self._engines.values()):
+                    # the engine has left since the targets were chosen
+                    self._io_loop.add_callback(
+                        self._handle_stranded_msgs, ident_str, ident_str
+                    )
+
         def _really_send():
             sent = self.session.send(
                 socket, msg, track=track, buffers=buffers, ident=ident
-- 
2.43.0


From 90222b12723414f356a770af9da0749c8c18d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:44 +0000
Subject: [PATCH 178/193] fix: displaying an execute reply does not send the
 task's metadata as the display's

---
 ipyparallel/client/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 421f214..323c46a 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -121,7 +121,7 @@ class ExecuteReply(RichOutput):
     def display(self):
         from IPython.display import publish_display_data
 
-        publish_display_data(self.data, self.metadata)
+        publish_display_data(self.data, self._metadata)
 
     def _repr_mime_(self, mime):
         if mime not in self.data:
@@ -133,7 +133,7 @@ class ExecuteReply(RichOutput):
             return data
 
     def _repr_mimebundle_(self, *args, **kwargs):
-        data, md = self.data, self.metadata
+        data, md = self.data, self._metadata
         if 'text/plain' in data:
             data = data.copy()
             data['text/plain'] = self._plaintext()
-- 
2.43.0


From d2e40dc3446d3c4a29a65a1f80b724cde8ce4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:44 +0000
Subject: [PATCH 179/193] fix: task metadata and execute replies can be copied
 and pickled

---
 ipyparallel/client/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 323c46a..0c2d8e9 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -143,7 +143,7 @@ class ExecuteReply(RichOutput):
         return self.metadata[key]
 
     def __getattr__(self, key):
-        if key not in self.metadata:
+        if key == 'metadata' or key not in self.metadata:
             raise AttributeError(key)
         return self.metadata[key]
 
@@ -225,6 +225,10 @@ class Metadata(dict):
         self.update(md)
         self.update(dict(*args, **kwargs))
 
+    def __reduce__(self):
+        # items can only be set on instances that have the keys
+        return (type(self), (dict(self),))
+
     def __getattr__(self, key):
         """getattr aliased to getitem"""
         if key in self:
-- 
2.43.0


From aed40d5f9d364dd7ca618eca98ee488cb20f6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:00 +0000
Subject: [PATCH 180/193] fix: sync_imports forwards imports after one that
 failed or came from elsewhere

---
 ipyparallel/client/view.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 0361d88..44e71a4 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -457,15 +457,9 @@ class DirectView(View):
             """the drop-in replacement for __import__, that optionally imports
             locally as well.
             """
-            # don't override nested imports
-            save_import = builtins.__import__
-            builtins.__import__ = local_import
-
-            import_frame = inspect.getouterframes(inspect.currentframe())[1].frame
-            if import_frame is not context_frame:
+            if inspect.currentframe().f_back is not context_frame:
                 # only forward imports from the context frame,
-                # not secondary imports
-                # TODO: does this ever happen, or is the above `__import__` enough?
+                # not secondary imports or those of other threads
                 return local_import(name, globals, locals, fromlist, level)
 
             if local:
@@ -486,8 +480,6 @@ class DirectView(View):
                     else:
                         print(f"importing {name} on engine(s)")
                 results.append(self.apply_async(remote_import, name, fromlist, level))
-            # restore override
-            builtins.__import__ = save_import
 
             return mod
 
-- 
2.43.0


From d0f100dd5681c5d43a3abf51b3f057cd2d490dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:00 +0000
Subject: [PATCH 181/193] fix: importing a submodule under sync_imports binds
 its package on the engines

---
 ipyparallel/client/view.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 44e71a4..dc811f1 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -443,15 +443,14 @@ class DirectView(View):
             """the function to be passed to apply, that actually performs the import
             on the engine, and loads up the user namespace.
             """
-            import sys
-
             user_ns = globals()
             mod = __import__(name, fromlist=fromlist, level=level)
             if fromlist:
                 for key in fromlist:
                     user_ns[key] = getattr(mod, key)
             else:
-                user_ns[name] = sys.modules[name]
+                # as the import statement does, bind the top-level package
+                user_ns[name.partition('.')[0]] = mod
 
         def view_import(name, globals={}, locals={}, fromlist=[], level=0):
             """the drop-in replacement for __import__, that optionally imports
-- 
2.43.0


From 61333c6ecbfcecfe5f6804063fc8a301812673c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:00 +0000
Subject: [PATCH 182/193] fix: star imports under sync_imports work

---
 ipyparallel/client/view.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index dc811f1..1a6713a 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -446,6 +446,10 @@ class DirectView(View):
             user_ns = globals()
             mod = __import__(name, fromlist=fromlist, level=level)
             if fromlist:
+                if '*' in fromlist:
+                    fromlist = getattr(mod, '__all__', None)
+                    if fromlist is None:
+                        fromlist = [key for key in vars(mod) if key[:1] != '_']
                 for key in fromlist:
                     user_ns[key] = getattr(mod, key)
             else:
-- 
2.43.0


From e993a0b66a3e3a2df4b5b66c0bf7ad1ccfa95e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:02 +0000
Subject: [PATCH 183/193] fix: the last output of a process is streamed, too

---
 ipyparallel/cluster/launcher.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index ddcf505..673ab6d 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -582,13 +582,17 @@ class LocalProcessLauncher(BaseLauncher):
 
     def _stream_file(self, path):
         """Stream one file"""
-        with open(path) as f:
-            while self.state == 'running' and not self._stop_waiting.is_set():
+        with open(path, errors="replace") as f:
+            while True:
+                # check before reading: what was written by then is there to be read
+                running = self.state == 'running' and not self._stop_waiting.is_set()
                 line = f.readline()
                 # log prefix?
                 # or stream directly to sys.stderr
                 if line:
                     sys.stderr.write(line)
+                elif not running:
+                    break
                 else:
                     # pause while we are at the end of the file
                     time.sleep(0.1)
-- 
2.43.0


From e43902abf633b679000767a264e6af31e7f20aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:02 +0000
Subject: [PATCH 184/193] fix: connection files that take long to be written
 are waited for

---
 ipyparallel/cluster/launcher.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 673ab6d..4544dec 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -411,16 +411,26 @@ class ControllerLauncher(BaseLauncher):
                 )
         self.log.debug(f"Loading {paths}")
         connection_info = {}
+        if deadline is not None:
+            # files that are there may still be written
+            deadline = max(deadline, time.monotonic() + 0.5)
         for key, path in connection_files.items():
-            try:
-                with open(path) as f:
-                    connection_info[key] = json.load(f)
-            except ValueError:
-                # possible race while controller is still writing the file
-                # give it half a second before trying again
-                time.sleep(0.5)
-                with open(path) as f:
-                    connection_info[key] = json.load(f)
+            while key not in connection_info:
+                try:
+                    with open(path) as f:
+                        connection_info[key] = json.load(f)
+                except ValueError:
+                    # possible race while controller is still writing the file
+                    if deadline is not None and time.monotonic() > deadline:
+                        raise
+                    await asyncio.sleep(0.1)
+                    status = self.poll()
+                    if inspect.isawaitable(status):
+                        status = await status
+                    if status is not None:
+                        raise RuntimeError(
+                            f"Controller stopped with {status} while writing {path}"
+                        )
 
         return connection_info
 
-- 
2.43.0


From 9e01abbf0b3c611b5e62b7d7a2e9971466d22b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:04 +0000
Subject: [PATCH 185/193] fix: streaming the output of a process that stops at
 once does not fail

---
 ipyparallel/cluster/launcher.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 4544dec..4874df1 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -590,9 +590,9 @@ class LocalProcessLauncher(BaseLauncher):
                     f"Process {self.process.pid} did not exit in {timeout} seconds."
                 )
 
-    def _stream_file(self, path):
-        """Stream one file"""
-        with open(path, errors="replace") as f:
+    def _stream_file(self, f):
+        """Stream one open file"""
+        with f:
             while True:
                 # check before reading: what was written by then is there to be read
                 running = self.state == 'running' and not self._stop_waiting.is_set()
@@ -609,7 +609,10 @@ class LocalProcessLauncher(BaseLauncher):
 
     def _start_streaming(self):
         self._stream_thread = t = Thread(
-            target=partial(self._stream_file, self.output_file),
+            # open it now, it is removed when the process stops
+            target=partial(
+                self._stream_file, open(self.output_file, errors="replace")
+            ),
             name=f"Stream Output {self.identifier}",
             daemon=True,
         )
-- 
2.43.0


From d58a76c8517007c3ec1879be1e1f0fb40c6eda77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:25 +0000
Subject: [PATCH 186/193] fix: port 65536 is not accepted for port pools

---
 ipyparallel/traitlets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/traitlets.py b/ipyparallel/traitlets.py
index 64f90ea..691f6c7 100644
--- a/ipyparallel/traitlets.py
+++ b/ipyparallel/traitlets.py
@@ -95,10 +95,10 @@ class PortList(List):
         for item in value:
             if not isinstance(item, int):
                 raise TraitError(
-                    f"Ports must be integers in range 1-65536, not {item!r}"
+                    f"Ports must be integers in range 1-65535, not {item!r}"
                 )
-            if not 1 <= item <= 65536:
+            if not 1 <= item <= 65535:
                 raise TraitError(
-                    f"Ports must be integers in range 1-65536, not {item!r}"
+                    f"Ports must be integers in range 1-65535, not {item!r}"
                 )
         return value
-- 
2.43.0


From 64f70c4648b4ed5b9833fd94ea344f31ed8ff0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:17 +0000
Subject: [PATCH 187/193] fix: broadcasts to no engines are refused instead of
 waited for

---
 ipyparallel/client/view.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 1a6713a..008b5bf 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -921,6 +921,13 @@ def _not_coalescing(method, self, *args, **kwargs):
 class BroadcastView(DirectView):
     is_coalescing = Bool(False)
 
+    def _broadcast_targets(self, targets):
+        """the engines to broadcast to, which have to be some: there would be no reply"""
+        idents, _targets = self.client._build_targets(targets)
+        if not idents:
+            raise ValueError("There are no targets to broadcast to")
+        return idents, _targets
+
     def _init_metadata(self, target_tuples):
         """initialize request metadata"""
         return dict(
@@ -1001,7 +1008,7 @@ class BroadcastView(DirectView):
         block = self.block if block is None else block
         track = self.track if track is None else track
         targets = self.targets if targets is None else targets
-        idents, _targets = self.client._build_targets(targets)
+        idents, _targets = self._broadcast_targets(targets)
 
         pf = PrePickled(f)
         pargs = [PrePickled(arg) for arg in args]
@@ -1056,7 +1063,7 @@ class BroadcastView(DirectView):
         block = self.block if block is None else block
         targets = self.targets if targets is None else targets
 
-        _idents, _targets = self.client._build_targets(targets)
+        _idents, _targets = self._broadcast_targets(targets)
         s_idents = [ident.decode("utf8") for ident in _idents]
         target_tuples = list(zip(s_idents, _targets))
 
-- 
2.43.0


From 37158e95c223b167e8154cde7dc561fa4d29dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:09 +0000
Subject: [PATCH 188/193] fix: set_flags does not set flags that it refuses

---
 ipyparallel/client/view.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 008b5bf..f175d4a 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -155,11 +155,18 @@ class View(HasTraits):
         label : str
             set an optional user-defined task identifier
         """
-        for name, value in kwargs.items():
+        for name in kwargs:
             if name not in self._flag_names:
                 raise KeyError(f"Invalid name: {name!r}")
-            else:
+        before = {name: getattr(self, name) for name in kwargs}
+        try:
+            for name, value in kwargs.items():
+                setattr(self, name, value)
+        except Exception:
+            # all or nothing
+            for name, value in before.items():
                 setattr(self, name, value)
+            raise
 
         return self  # returning self would allow direct calling of map/apply in one command (no context manager)
 
@@ -191,7 +198,8 @@ class View(HasTraits):
             yield
         finally:
             # postflight: restore saved flags
-            self.set_flags(**saved_flags)
+            for name, value in saved_flags.items():
+                setattr(self, name, value)
 
     # ----------------------------------------------------------------
     # apply
@@ -1355,13 +1363,10 @@ class LoadBalancedView(View):
             set an optional user-defined task identifier
         """
 
-        super().set_flags(**kwargs)
         for name in ('follow', 'after'):
             if name in kwargs:
                 value = kwargs[name]
-                if self._validate_dependency(value):
-                    setattr(self, name, value)
-                else:
+                if not self._validate_dependency(value):
                     raise ValueError(f"Invalid dependency: {value!r}")
         if 'timeout' in kwargs:
             t = kwargs['timeout']
@@ -1371,9 +1376,8 @@ class LoadBalancedView(View):
                 if t < 0:
                     raise ValueError(f"Invalid timeout: {t}")
 
-            self.timeout = t
-
-        return self  # returning self would allow direct calling of map/apply in one command (no context manager)
+        # set them only if all of them are valid
+        return super().set_flags(**kwargs)  # returning self would allow direct calling of map/apply in one command (no context manager)
 
     @sync_results
     @save_ids
-- 
2.43.0


From ef409fd5f5659e2b34c13756e23e7c00d52dca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:17 +0000
Subject: [PATCH 189/193] fix: stop_dask closes the dask scheduler

---
 ipyparallel/controller/hub.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index d4a5b11..3d8fcd1 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1612,12 +1612,15 @@ class Hub(LoggingConfigurable):
             ident=client_id,
         )
 
-    def stop_distributed(self, client_id, msg):
-        """Start a dask.distributed Scheduler."""
+    async def stop_distributed(self, client_id, msg):
+        """Stop the dask.distributed Scheduler."""
         if self.distributed_scheduler is not None:
             self.log.info("Stopping dask.distributed scheduler")
-            self.distributed_scheduler.close()
+            scheduler = self.distributed_scheduler
             self.distributed_scheduler = None
+            closing = scheduler.close()
+            if inspect.isawaitable(closing):
+                await closing
         else:
             self.log.info("No dask.distributed scheduler running.")
         content = {'status': 'ok'}
-- 
2.43.0


From 992f14152907be59cfb81b18f479daa737657fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:17 +0000
Subject: [PATCH 190/193] fix: a dask scheduler that failed to start is not
 used by later requests

---
 ipyparallel/controller/hub.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 3d8fcd1..002b533 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1594,7 +1594,12 @@ class Hub(LoggingConfigurable):
             from distributed import Scheduler
 
             self.distributed_scheduler = scheduler = Scheduler(**kwargs)
-            await scheduler.start()
+            try:
+                await scheduler.start()
+            except BaseException:
+                # let the next request start another
+                self.distributed_scheduler = None
+                raise
         content = {
             'status': 'ok',
             'ip': self.distributed_scheduler.ip,
-- 
2.43.0


From 4c725c551c5e56ff424003fe87a7999bd0466415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:17 +0000
Subject: [PATCH 191/193] fix: become_dask does not start a second worker on an
 engine

---
 ipyparallel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index f5cdd56..60a8980 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -488,7 +488,7 @@ def become_dask_worker(address, nanny=False, **kwargs):
     """
     shell = get_ipython()
     kernel = shell.kernel
-    if getattr(kernel, 'dask_worker', None) is not None:
+    if getattr(kernel, 'distributed_worker', None) is not None:
         kernel.log.info("Dask worker is already running.")
         return
     from distributed import Nanny, Worker
-- 
2.43.0


From 9005109dc379801e8054d7c663a47c149f05c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:17 +0000
Subject: [PATCH 192/193] fix: stop_dask closes the dask workers

---
 ipyparallel/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index 60a8980..1013a52 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -522,9 +522,10 @@ def stop_distributed_worker():
         return
     w = kernel.distributed_worker
     kernel.distributed_worker = None
-    if shell.user_ns.get('distributed_worker', None) is w:
-        shell.user_ns.pop('distributed_worker', None)
-    IOLoop.current().add_callback(lambda: w.terminate(None))
+    for name in ('dask_worker', 'distributed_worker'):
+        if shell.user_ns.get(name, None) is w:
+            shell.user_ns.pop(name, None)
+    IOLoop.current().add_callback(w.close)
 
 
 def ensure_timezone(dt):
-- 
2.43.0


From 479a5094d3f82f3cf09fa2e8e84b381f485ebbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:17 +0000
Subject: [PATCH 193/193] fix: the port argument of become_dask is not ignored

---
 ipyparallel/client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0c2d8e9..65971b2 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1958,6 +1958,8 @@ class Client(HasTraits):
             scheduler_args = {}
         else:
             scheduler_args = dict(scheduler_args)  # copy
+        if port:
+            scheduler_args.setdefault('port', port)
 
         # Start a Scheduler on the Hub:
         reply = self._send_recv(
-- 
2.43.0

