From 49c7666231bf60b40c1ef173a69061e595f3f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:52 +0000
Subject: [PATCH 01/31] fix: do not pickle return values of other tasks to
 child processes

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 8c315d3..837359c 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -539,7 +539,7 @@ class Session(RedBase):
         # Copy and remove typically unpicklable attrs.
         # Used when creating a child process
         unpicklable_conf = {'shut_cond'}
-        unpicklable = {'tasks', '_cond_cache', 'session', '_cond_parsers', 'parameters'}
+        unpicklable = {'tasks', '_cond_cache', 'session', '_cond_parsers', 'parameters', 'returns'}
         new_self = copy(self)
         for attr in unpicklable:
             setattr(new_self, attr, None)
-- 
2.43.0


From f407bba1e6dbfbb9f63904875d384382d3773e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:52 +0000
Subject: [PATCH 02/31] fix: records of failures outside the function and of
 scheduler exits carry their run id

---
 rocketry/core/task.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a3bd0b3..b8a4e7c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -603,7 +603,7 @@ class Task(RedBase, BaseModel):
             self.process_success(output)
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
-            self.log_success(task_run)
+            self.log_success(task_run=task_run)
             status = "succeeded"
             self.process_success(None)
             exc_info = sys.exc_info()
@@ -683,7 +683,7 @@ class Task(RedBase, BaseModel):
             # Logging failed
             task_run.exception = exc
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except Exception:
                 pass
             # Note that we don't raise the error as there is nothing
@@ -697,7 +697,7 @@ class Task(RedBase, BaseModel):
         except Exception:
             # Task crashed before actually running the execute.
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except TaskLoggingError as exc:
                 task_run.exception = exc
 
@@ -776,7 +776,7 @@ class Task(RedBase, BaseModel):
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
         except Exception as exc:
             # Task crashed before running execute (silence=True)
-            self.log_failure()
+            self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
-- 
2.43.0


From 315f1fcdb1da56fc5a610ff5dbe8eaa4b7204da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:49 +0000
Subject: [PATCH 03/31] fix: log the failure of an async task whose hooks or
 parameters fail

---
 rocketry/core/task.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index b8a4e7c..f46287e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -583,14 +583,22 @@ class Task(RedBase, BaseModel):
         else:
             hooks = self.session.hooks.task_execute
         hooker = _Hooker(hooks)
-        hooker.prerun(task=self)
 
         status = None
         output = None
         exc_info = (None, None, None)
-        params = self.postfilter_params(params)
-        params = Parameters(params) | Parameters(direct_params)
-        params = params.materialize(task=self, session=self.session)
+        try:
+            hooker.prerun(task=self)
+            params = self.postfilter_params(params)
+            params = Parameters(params) | Parameters(direct_params)
+            params = params.materialize(task=self, session=self.session)
+        except Exception:
+            if execution == "async":
+                # Nothing waits for the task and thus nothing
+                # else would log the failure
+                self.log_failure(task_run)
+                return
+            raise
 
         try:
             if inspect.iscoroutinefunction(self.execute):
-- 
2.43.0


From c7ba13d663bad26504b899a9063dfea75891690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:19 +0000
Subject: [PATCH 04/31] fix: exactly one run and one finish record for process
 tasks that crash in setup or race with termination

---
 rocketry/core/task.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index f46287e..b2c5b22 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -56,6 +56,9 @@ class TaskRun:
     event_running: Optional[threading.Event] = None
     exception: Exception = None
 
+    # Latest action logged for this run
+    status: Optional[str] = None
+
     def is_alive(self) -> bool:
         if self.is_main:
             return True
@@ -531,7 +534,7 @@ class Task(RedBase, BaseModel):
             # and it did not reach to log_running
             if task_run.run_id is None:
                 task_run.run_id = self.get_run_id(task_run)
-            if self.status != "run":
+            if task_run.status is None:
                 self.log_running(task_run)
             self.log_failure(task_run)
             raise TaskSetupError("Task failed before logging") from exc
@@ -1026,7 +1029,8 @@ class Task(RedBase, BaseModel):
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
         for run in self._run_stack:
-            await self._terminate_run(run, reason=reason)
+            if run.is_alive():
+                await self._terminate_run(run, reason=reason)
         self._clean_run_stack()
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
@@ -1041,7 +1045,10 @@ class Task(RedBase, BaseModel):
         else:
             if run.is_process:
                 # Threaded tasks handle their termination themselves
-                self.log_termination(reason=reason, task_run=run)
+                # NOTE: the process may have finished just before it was terminated
+                self.session.scheduler.handle_logs()
+                if run.status == "run":
+                    self.log_termination(reason=reason, task_run=run)
 
 # Logging
     def _lock_to_run_log(self, log_queue):
@@ -1061,7 +1068,6 @@ class Task(RedBase, BaseModel):
             except Empty:
                 if not self.is_alive():
                     # There will be no "run" log record thus ending the task gracefully
-                    self.logger.critical(f"Task '{self.name}' crashed in setup", extra={"action": "fail"})
                     raise TaskSetupError(f"Task '{self.name}' process crashed silently")
             else:
 
@@ -1116,6 +1122,9 @@ class Task(RedBase, BaseModel):
         # Set last_run/last_success/last_fail etc.
         cache_attr = f"_last_{record.action}"
         record_time = record.created
+        for run in self._run_stack:
+            if run.run_id == getattr(record, "run_id", None):
+                run.status = record.action
 
         try:
             self.logger.handle(record)
@@ -1184,6 +1193,9 @@ class Task(RedBase, BaseModel):
 
         cache_attr = f"_last_{action}"
 
+        if task_run is not None:
+            task_run.status = action
+
         log_method = self.logger.exception if action == "fail" else self.logger.info
         try:
             log_method(
-- 
2.43.0


From 031c2576f464ffb6ceaacb3533b3f9feddcbc352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:32 +0000
Subject: [PATCH 05/31] fix: a process task whose return value or function
 cannot be pickled fails with one record

---
 rocketry/core/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index b2c5b22..3e0f24d 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -612,6 +612,11 @@ class Task(RedBase, BaseModel):
             # NOTE: we process success here in case the process_success
             # fails (therefore task fails)
             self.process_success(output)
+
+            if execution == "process" and not is_pickleable(output):
+                # The return value is sent to the main process among the log
+                # record which would be lost
+                raise TypeError(f"Return value of task '{self.name}' cannot be pickled")
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
             self.log_success(task_run=task_run)
@@ -1342,8 +1347,6 @@ class Task(RedBase, BaseModel):
                 #       - There is another func with same name in the file
                 #       - The function is lambda or decorated func
                 unpicklable = {key: val for key, val in state.items() if not is_pickleable(val)}
-                self.log_running()
-                self.logger.critical(f"Task '{self.name}' crashed in pickling. Cannot pickle: {unpicklable}", extra={"action": "fail", "task_name": self.name})
                 raise PicklingError(f"Task {self.name} could not be pickled. Cannot pickle: {unpicklable}")
             # Is pickled by something else than task execution
             return state
-- 
2.43.0


From 7f6574483225a4cf0f4de108b226e0dc7d92b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:55 +0000
Subject: [PATCH 06/31] fix: cron ranges with a step count days and months from
 one

---
 rocketry/time/cron.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index bc51434..f8f1950 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -62,8 +62,15 @@ class Cron(TimePeriod):
                     # cron includes also the endpoint thus
                     # we convert to int (if needed) and add
                     # one
+                    # NOTE: create_range slices from zero but days
+                    # and months are numbered from one
+                    first = 1 if cls in (TimeOfWeek, TimeOfMonth, TimeOfYear) else 0
+                    if isinstance(start, int):
+                        start -= first
                     if isinstance(end, str):
                         end = cls._unit_mapping[end.lower()]
+                    else:
+                        end -= first
                     end += 1
                     period = cls.create_range(start, end, step=int(step))
                 else:
-- 
2.43.0


From a45390fe469d96d4d67f02e18763651f4e05605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:44 +0000
Subject: [PATCH 07/31] fix: a run which terminates itself does not cancel the
 termination of the other runs of the task

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 3e0f24d..83e6a7d 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1110,7 +1110,9 @@ class Task(RedBase, BaseModel):
         self._set_status("terminate", task_run, message=msg + f" ({reason})")
 
         # Reset event and force_termination (for threads)
-        self.force_termination = False
+        # NOTE: if there are other runs, they are still to be terminated
+        if not any(run is not task_run and run.status == "run" for run in self._run_stack or ()):
+            self.force_termination = False
 
     def log_inaction(self, task_run:TaskRun=None):
         """Make a log that the task did nothing."""
-- 
2.43.0


From 6898a2c839efaafabf56fb33b1323920a05d2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:16 +0000
Subject: [PATCH 08/31] fix: setting an attribute of a task does not undo what
 other threads set meanwhile

---
 rocketry/core/task.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 83e6a7d..0846b3d 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -20,7 +20,7 @@ try:
 except ImportError: # pragma: no cover
     from typing_extensions import Literal
 
-from pydantic import BaseModel, Field, PrivateAttr, validator
+from pydantic import BaseModel, Field, PrivateAttr, ValidationError, validator
 
 from rocketry._base import RedBase
 from rocketry.core.condition import BaseCondition, AlwaysFalse, All
@@ -387,6 +387,20 @@ class Task(RedBase, BaseModel):
             values['batches'].append(Parameters())
         return value
 
+    def __setattr__(self, name, value):
+        field = self.__fields__.get(name)
+        if field is None or self.__pre_root_validators__ or self.__post_root_validators__:
+            super().__setattr__(name, value)
+            return
+        # NOTE: Pydantic replaces all of the attributes in order to set one and
+        # what others (ie. threads) set at the same time would be lost
+        others = {key: val for key, val in dict(self.__dict__).items() if key != name}
+        value, error = field.validate(value, others, loc=name, cls=type(self))
+        if error:
+            raise ValidationError([error], type(self))
+        self.__dict__[name] = value
+        self.__fields_set__.add(name)
+
     def __hash__(self):
         return id(self)
 
-- 
2.43.0


From 9918980ec68f8eef083a6dbd1063708377359c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:16 +0000
Subject: [PATCH 09/31] fix: finding a task while another thread adds or
 removes tasks

---
 rocketry/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 837359c..46654c1 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -227,7 +227,8 @@ class Session(RedBase):
     def __getitem__(self, task:Union['Task', str]):
         "Get a task from the session"
         task_name = self._get_task_name(task)
-        for task in self.tasks:
+        # NOTE: another thread may add or remove tasks at the same time
+        for task in list(self.tasks):
             if task.name == task_name:
                 return task
         raise KeyError(f"Task '{task_name}' not found")
-- 
2.43.0


From 8929da60d068711569834aaa766a5254ae2765b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:34 +0000
Subject: [PATCH 10/31] fix: removing a running process task does not crash the
 scheduler, return values are not lost when another process starts

---
 rocketry/core/schedule.py | 25 +++++++++++++++++--------
 rocketry/core/task.py     | 15 +++++++++++++--
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3adb3fc..f9ab3ab 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -263,7 +263,6 @@ class Scheduler(RedBase):
                 break
             else:
                 self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
                 if record.action == "fail":
                     # There is a caveat in logging
                     # https://github.com/python/cpython/blame/fad6af2744c0b022568f7f4a8afc93fed056d4db/Lib/logging/handlers.py#L1383
@@ -278,13 +277,13 @@ class Scheduler(RedBase):
                     record.exc_text = record.exc_text
                     if record.exc_text is not None and record.exc_text not in record.message:
                         record.message = record.message + "\n" + record.message
-                elif record.action == "success":
-                    # Take the return value from the record and delete
-                    # Note that record has attr __return__ only if task running as process
-                    return_value = record.__return__
-                    task._handle_return(return_value)
-                    del record.__return__
-                self._log_task(task, "log_record", record)
+                try:
+                    task = self.session[record.task_name]
+                except KeyError:
+                    # The task was removed while it was running
+                    self._log_removed_task(record)
+                else:
+                    self._log_task(task, "log_record", record)
 
     async def _hibernate(self):
         """Go to sleep and wake up when next task can be executed."""
@@ -516,6 +515,16 @@ class Scheduler(RedBase):
             if not self.session.config.silence_task_logging:
                 raise
 
+    def _log_removed_task(self, record):
+        "Log a record of a task that is no longer in the session"
+        record.__dict__.pop("__return__", None)
+        try:
+            logging.getLogger(self.session.config.task_logger_basename).handle(record)
+        except Exception:
+            self.logger.exception(f"Logging failed for task '{record.task_name}'")
+            if not self.session.config.silence_task_logging:
+                raise
+
     def check_thread_errors(self):
         silence_logging = self.session.config.silence_task_logging
         if not silence_logging:
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 0846b3d..dc23292 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1091,9 +1091,16 @@ class Task(RedBase, BaseModel):
             else:
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
                 try:
-                    task.log_record(record)
+                    task = self if record.task_name == self.name else self.session[record.task_name]
+                except KeyError:
+                    # The task was removed while it was running
+                    task = None
+                try:
+                    if task is not None:
+                        task.log_record(record)
+                    else:
+                        self.session.scheduler._log_removed_task(record)
                 except Exception as exc:
                     # It must be made sure the task is set running
                     # so we ignore logging errors until that's sure
@@ -1143,6 +1150,10 @@ class Task(RedBase, BaseModel):
         # Set last_run/last_success/last_fail etc.
         cache_attr = f"_last_{record.action}"
         record_time = record.created
+        if "__return__" in record.__dict__:
+            # Take the return value from the record and delete
+            # Note that record has attr __return__ only if task running as process
+            self._handle_return(record.__dict__.pop("__return__"))
         for run in self._run_stack:
             if run.run_id == getattr(record, "run_id", None):
                 run.status = record.action
-- 
2.43.0


From 4d84f37c3df69255c3e2446f89e4ddf0f340192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:41 +0000
Subject: [PATCH 11/31] fix: removing a task while the scheduler inspects its
 condition does not crash the scheduler

---
 rocketry/conditions/task/task.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 2e49de3..1a78748 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -288,10 +288,10 @@ class TaskExecutable(BaseCondition):
         retries = 0 if self.retries is None else self.retries
 
         # Form the sub statements
-        has_not_succeeded = TaskSucceeded(period=period, task=task) == 0
-        has_not_inacted = TaskInacted(period=period, task=task) == 0
-        has_not_failed = TaskFailed(period=period, task=task) <= retries
-        has_not_terminated = TaskTerminated(period=period, task=task) == 0
+        has_not_succeeded = TaskSucceeded(period=period, task=self.task) == 0
+        has_not_inacted = TaskInacted(period=period, task=self.task) == 0
+        has_not_failed = TaskFailed(period=period, task=self.task) <= retries
+        has_not_terminated = TaskTerminated(period=period, task=self.task) == 0
 
         isin_period = (
             # TimeDelta has no __contains__. One cannot say whether now is "past 2 hours".
@@ -347,7 +347,7 @@ class TaskRunnable(BaseCondition):
         task = self.task if self.task is not None else task
         period = self.period
 
-        has_not_run = TaskStarted(period=period, task=task) == 0
+        has_not_run = TaskStarted(period=period, task=self.task) == 0
 
         isin_period = (
             True
-- 
2.43.0


From a35b2471ccc7eb084abab6344d739432701a3cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:12 +0000
Subject: [PATCH 12/31] fix: crash records carry the id of the crashed run and
 equal or reordered timestamps do not make a crash

---
 rocketry/core/task.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index dc23292..1f2883e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -20,6 +20,7 @@ try:
 except ImportError: # pragma: no cover
     from typing_extensions import Literal
 
+from redbird.oper import in_
 from pydantic import BaseModel, Field, PrivateAttr, ValidationError, validator
 
 from rocketry._base import RedBase
@@ -32,6 +33,7 @@ from rocketry.core.utils import is_pickleable, filter_keyword_args, is_main_subp
 from rocketry.exc import SchedulerRestart, SchedulerExit, TaskInactionException, TaskTerminationException, TaskLoggingError, TaskSetupError
 from rocketry.core.hook import _Hooker
 from rocketry.log import QueueHandler
+from rocketry.log.utils import get_field_value
 
 if TYPE_CHECKING:
     from rocketry import Session
@@ -955,21 +957,27 @@ class Task(RedBase, BaseModel):
         self._last_inaction = self._get_last_action("inaction", from_logs=True, logger=logger)
         self._last_crash = self._get_last_action("crash", from_logs=True, logger=logger)
 
-        times = {
-            name: getattr(self, f"_last_{name}")
-            for name in ('run', 'success', 'fail', 'terminate', 'inaction', 'crash')
-            if getattr(self, f"_last_{name}") is not None
-        }
-        if times:
-            status = max(
-                times,
-                key=times.get
-            )
-            if status == "run":
-                # There has been a sudden crash
-                self.log_crash()
-            else:
-                self.status = status
+        # NOTE: the latest is the one that was logged last: the timestamps can be
+        # equal or out of order (ie. if the clock was set back)
+        try:
+            record = logger.get_latest(action=in_([action for action in self._actions if action]))
+        except AttributeError:
+            # Logger is not readable
+            return
+        if not record:
+            return
+
+        status = get_field_value(record, "action")
+        if status == "run":
+            # There has been a sudden crash
+            try:
+                run_id = get_field_value(record, "run_id")
+            except (KeyError, AttributeError):
+                # Logs have no run_id
+                run_id = None
+            self.log_crash(TaskRun(start=self._last_run, task=None, run_id=run_id))
+        else:
+            self.status = status
 
     def get_default_name(self, **kwargs):
         """Create a name for the task when name was not passed to initiation of
-- 
2.43.0


From 194408c9ef6c7c98be4efd11d25500fb6aebaff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:34 +0000
Subject: [PATCH 13/31] fix: forced shutdown does not leak to the next session
 and works during a graceful one

The flag of shut_down(force=True) was never cleared, so that every later
session or restart of the scheduler terminated its tasks at shutdown, and
it was not read any more once the scheduler had begun waiting, although
calling shut_down() twice is documented to terminate the tasks.
---
 rocketry/core/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index f9ab3ab..8d25e5c 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -110,6 +110,7 @@ class Scheduler(RedBase):
         session."""
         # Unsetting some flags
         self._flag_shutdown.clear()
+        self._flag_force_exit.clear()
         self._flag_restart.clear()
         self._flag_enabled.set()
 
@@ -367,6 +368,10 @@ class Scheduler(RedBase):
                     await self._hibernate() # This is the time async tasks can continue
 
                     self.handle_logs()
+                    if self._flag_force_exit.is_set():
+                        # Forced while waiting
+                        await self.terminate_all(reason="Instant shutdown of the scheduler")
+                        break
                     for task in self.tasks:
                         if task.permanent:
                             # Would never "finish" anyways
-- 
2.43.0


From 59fe34b09fe9815a39608a9909ed1caf68739d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:56 +0000
Subject: [PATCH 14/31] fix: async or main run whose start cannot be logged is
 not executed

When writing the 'run' record failed, the run was logged as failed but its
coroutine had been scheduled already: it was executed afterwards and could
overlap with the next run of the task.
---
 rocketry/core/task.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 1f2883e..a6f1261 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -516,7 +516,12 @@ class Task(RedBase, BaseModel):
                 if execution == "async":
                     task_run.task = async_task
                 self._run_stack.append(task_run)
-                self.log_running(task_run)
+                try:
+                    self.log_running(task_run)
+                except TaskLoggingError:
+                    # The run is considered failed thus it must not start
+                    async_task.cancel()
+                    raise
                 if execution == "main":
                     await async_task
                 if _IS_WINDOWS:
-- 
2.43.0


From b1946fb1b7cd60f003328ff4c9533628d5648580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:29 +0000
Subject: [PATCH 15/31] fix: statuses of all tasks are read from the logs
 before the startup tasks are run

---
 rocketry/core/schedule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 8d25e5c..eb359c8 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -316,7 +316,10 @@ class Scheduler(RedBase):
                 self.logger.exception(f"Failed setting cache for task '{task.name}'")
                 if not self.session.config.silence_task_logging:
                     raise
-            
+
+        # NOTE: the startup tasks may depend on any other task
+        # thus all of the caches must be set before running any
+        for task in self.tasks:
             if task.on_startup:
                 if isinstance(task.start_cond, AlwaysFalse) and not task.disabled:
                     # Make sure the tasks run if start_cond not set
-- 
2.43.0


From a726065d32cd1cbc5387988e7dd38fa79b793882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:39 +0000
Subject: [PATCH 16/31] fix: logging error of an async run reaches the
 scheduler

---
 rocketry/core/task.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a6f1261..c2d9a1d 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -505,8 +505,9 @@ class Task(RedBase, BaseModel):
 
             # Run the actual task
             if execution in ("main", "async"):
+                run_async = self._run_as_async if execution == "main" else self._run_as_async_task
                 async_task = asyncio.create_task(
-                    self._run_as_async(
+                    run_async(
                         params=params,
                         direct_params=direct_params,
                         task_run=task_run,
@@ -598,6 +599,14 @@ class Task(RedBase, BaseModel):
     def _run_as_main(self, **kwargs):
         return asyncio.run(self._run_as_async(**kwargs))
 
+    async def _run_as_async_task(self, task_run:TaskRun, **kwargs):
+        """Running the task as an async task which nothing awaits"""
+        try:
+            return await self._run_as_async(task_run=task_run, **kwargs)
+        except TaskLoggingError as exc:
+            # Relaying to the scheduler (as there is nothing to catch it)
+            task_run.exception = exc
+
     async def _run_as_async(self, params:Parameters, direct_params:Parameters, task_run:TaskRun, execution=None, **kwargs):
         """Run the task on the current thread and process"""
         # NOTE: Assumed that self.log_running() has been already called.
-- 
2.43.0


From 62811707854d067c9181ad8510e7d2a36711b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 17/31] fix: error in logging the finish of a threaded run
 reaches the scheduler

---
 rocketry/core/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index c2d9a1d..1de2492 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -740,8 +740,11 @@ class Task(RedBase, BaseModel):
 
         try:
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="thread")
-        except Exception:
-            # Task crashed before actually running the execute.
+        except Exception as exc:
+            # Task crashed before actually running the execute
+            # or logging how the task finished failed
+            if isinstance(exc, TaskLoggingError):
+                task_run.exception = exc
             try:
                 self.log_failure(task_run)
             except TaskLoggingError as exc:
-- 
2.43.0


From 1e4c5f6c3d504c935f8af0338c6dc40fff6261b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 18/31] fix: silenced logging error in terminating a run does
 not crash the scheduler

---
 rocketry/core/task.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 1de2492..f50b57c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1085,14 +1085,22 @@ class Task(RedBase, BaseModel):
             await run.terminate()
         except asyncio.CancelledError:
             # Async tasks raise CancelledError if terminated
-            self.log_termination(reason=reason, task_run=run)
+            self._log_terminated_run(run, reason=reason)
         else:
             if run.is_process:
                 # Threaded tasks handle their termination themselves
                 # NOTE: the process may have finished just before it was terminated
                 self.session.scheduler.handle_logs()
                 if run.status == "run":
-                    self.log_termination(reason=reason, task_run=run)
+                    self._log_terminated_run(run, reason=reason)
+
+    def _log_terminated_run(self, run:TaskRun, reason=None):
+        try:
+            self.log_termination(reason=reason, task_run=run)
+        except TaskLoggingError:
+            self.session.scheduler.logger.exception(f"Logging failed for task '{self.name}'")
+            if not self.session.config.silence_task_logging:
+                raise
 
 # Logging
     def _lock_to_run_log(self, log_queue):
-- 
2.43.0


From 80fecb7c3252f31c813cee4693be0c8618321a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:38 +0000
Subject: [PATCH 19/31] fix: shut down called while restarting is not lost

The restart cleared the shut down request made while the previous
round was shutting down, so the scheduler ran on.
---
 rocketry/core/schedule.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index eb359c8..95d6445 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -113,7 +113,9 @@ class Scheduler(RedBase):
         self._flag_force_exit.clear()
         self._flag_restart.clear()
         self._flag_enabled.set()
+        await self._serve()
 
+    async def _serve(self):
         self.is_alive = True
         exception = None
         try:
@@ -440,9 +442,9 @@ class Scheduler(RedBase):
             self.is_alive = False
             self.logger.info("Shutdown completed. Good bye.")
 
-        if isinstance(exception, SchedulerRestart):
+        if isinstance(exception, SchedulerRestart) and not self._flag_shutdown.is_set():
             # Clean up finished, restart is finally
-            # possible
+            # possible (unless shut down was called meanwhile)
             await self._restart()
 
     async def _restart(self):
@@ -470,8 +472,11 @@ class Scheduler(RedBase):
                 subprocess.Popen([python, *sys.argv], shell=True, close_fds=True)
         elif restarting == "recall":
             # Mostly useful for testing.
-            # Restart by calling the self.__call__ again
-            await asyncio.create_task(self.serve())
+            # Restart by serving again
+            # NOTE: if shut down is called from now on, it must stay set
+            self._flag_restart.clear()
+            self._flag_enabled.set()
+            await asyncio.create_task(self._serve())
         else:
             raise ValueError(f"Invalid restaring: {restarting}")
 
-- 
2.43.0


From 4029a2af748c98acd761afdab5f6b92751128a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:27 +0000
Subject: [PATCH 20/31] fix: session.run accepts also functions and tasks

The documentation runs a task by passing the decorated function but
only names were recognized: nothing was run.
---
 rocketry/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index 46654c1..f58811d 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -288,6 +288,9 @@ class Session(RedBase):
         # To prevent circular import
         from rocketry.conditions.scheduler import SchedulerCycles
 
+        # The tasks can be given also as functions or as task instances
+        task_names = [self._get_task_name(task) for task in task_names]
+
         orig_vals = {}
         for task in self.tasks:
             name = task.name
-- 
2.43.0


From 4f92897acd89410c1f1242ff24549535c6b87b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:27 +0000
Subject: [PATCH 21/31] fix: session.run restores the tasks also if a task was
 created meanwhile

---
 rocketry/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index f58811d..18d8fec 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -314,7 +314,8 @@ class Session(RedBase):
             self.config.shut_cond = orig_shut_cond
             # Set back the disabled, execution etc.
             for task in self.tasks:
-                task.__dict__.update(orig_vals[task.name])
+                # NOTE: a task could have been created meanwhile
+                task.__dict__.update(orig_vals.get(task.name, {}))
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From f4e009648cd0f06a00df292195058fe46159855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:27 +0000
Subject: [PATCH 22/31] fix: restarting as fresh runs the script and not only
 the interpreter

---
 rocketry/core/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 95d6445..6b61032 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -5,6 +5,7 @@ import threading
 import time
 import sys
 import os
+import shlex
 import subprocess
 import logging
 import datetime
@@ -469,7 +470,8 @@ class Scheduler(RedBase):
                 subprocess.Popen([python, *sys.argv], shell=False, close_fds=True, creationflags=subprocess.CREATE_NEW_CONSOLE)
             else:
                 # Linux does not have CREATE_NEW_CONSOLE creation flag but shell=True is pretty close
-                subprocess.Popen([python, *sys.argv], shell=True, close_fds=True)
+                # NOTE: the shell takes only the first item of a list as the command
+                subprocess.Popen(shlex.join([python, *sys.argv]), shell=True, close_fds=True)
         elif restarting == "recall":
             # Mostly useful for testing.
             # Restart by serving again
-- 
2.43.0


From b2cf37bacfdd761fe601f0a434787454ed6cc849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:28 +0000
Subject: [PATCH 23/31] fix: a command task given as a list keeps its command
 over the runs

---
 rocketry/tasks/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index d58a45c..24b5344 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -70,7 +70,8 @@ class CommandTask(Task):
 
     def execute(self, **parameters):
         """Run the command."""
-        command = self.command
+        # NOTE: the task's command must not be modified
+        command = self.command if isinstance(self.command, str) else list(self.command)
 
         for param, val in parameters.items():
             if not param.startswith("-"):
-- 
2.43.0


From 7d883d6d987bd6d5910b195b1641593df919bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:28 +0000
Subject: [PATCH 24/31] fix: a command task with a timeout runs its command

---
 rocketry/tasks/command.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 24b5344..a6606b0 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import datetime
 import subprocess
 from typing import List, Optional, Union
 
@@ -68,6 +69,12 @@ class CommandTask(Task):
             None: '--',
         }[value]
 
+    def _get_timeout_seconds(self) -> Optional[float]:
+        if self.timeout is None or self.timeout == datetime.timedelta.max:
+            # No timeout for the command
+            return None
+        return self.timeout.total_seconds()
+
     def execute(self, **parameters):
         """Run the command."""
         # NOTE: the task's command must not be modified
@@ -85,7 +92,7 @@ class CommandTask(Task):
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
         try:
-            outs, errs = pipe.communicate(timeout=self.timeout)
+            outs, errs = pipe.communicate(timeout=self._get_timeout_seconds())
         except subprocess.TimeoutExpired:
             # https://docs.python.org/3.3/library/subprocess.html#subprocess.Popen.communicate
             pipe.kill()
-- 
2.43.0


From 456fb197fa690377e6284a9d8f03d2543aadfbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:28 +0000
Subject: [PATCH 25/31] fix: the parameters of a command task are given as long
 options by default

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index a6606b0..6d3a301 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -59,7 +59,7 @@ class CommandTask(Task):
         kwargs.update(self.kwds_popen)
         return kwargs
 
-    @validator('argform')
+    @validator('argform', always=True)
     def parse_argform(cls, value):
         return {
             "long": "--",
-- 
2.43.0


From 14e78063e5211efd59cf8919319ac635b3bd7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:34 +0000
Subject: [PATCH 26/31] fix: conditions without a bounded period work with a
 configured timezone

running, scheduler_running(more_than=...) and the task status conditions
compared naive limits with aware times, which crashed the scheduler.
---
 rocketry/core/time/utils.py | 11 ++++++-----
 rocketry/time/delta.py      |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/rocketry/core/time/utils.py b/rocketry/core/time/utils.py
index b27e6c4..161751b 100644
--- a/rocketry/core/time/utils.py
+++ b/rocketry/core/time/utils.py
@@ -10,16 +10,17 @@ def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetim
     # To prevent circular import
     from rocketry.parse import parse_time
 
-    if period is None:
-        return TimePeriod.min, TimePeriod.max
-    if isinstance(period, str):
-        period = parse_time(period)
-
     if session is None:
         now = datetime.datetime.fromtimestamp(time.time())
     else:
         now = session._get_datetime_now()
 
+    if period is None:
+        tz = now.tzinfo
+        return TimePeriod.min.replace(tzinfo=tz), TimePeriod.max.replace(tzinfo=tz)
+    if isinstance(period, str):
+        period = parse_time(period)
+
     if hasattr(period, "use_reference"):
         # Period requires reference date
         # (usually timedelta related)
diff --git a/rocketry/time/delta.py b/rocketry/time/delta.py
index 12ce7b5..8a645e4 100644
--- a/rocketry/time/delta.py
+++ b/rocketry/time/delta.py
@@ -36,14 +36,14 @@ class TimeSpanDelta(TimeDelta):
 
     def rollback(self, dt):
         "Get previous interval (including currently ongoing)"
-        start = dt - self.far if self.far is not None else self.min
+        start = dt - self.far if self.far is not None else self.min.replace(tzinfo=dt.tzinfo)
         end = dt - self.near
         return Interval(start, end)
 
     def rollforward(self, dt):
         "Get next interval (including currently ongoing)"
         start = dt + self.near
-        end = dt + self.far if self.far is not None else self.max
+        end = dt + self.far if self.far is not None else self.max.replace(tzinfo=dt.tzinfo)
         return Interval(start, end)
 
     def __eq__(self, other):
-- 
2.43.0


From 11d47a70bccb5ddb479d43261bbb2f3482cf2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:34 +0000
Subject: [PATCH 27/31] fix: running.more_than from logs does not count runs
 that have finished

The finish of a run may lie outside the period in which the run started.
---
 rocketry/conditions/task/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 1a78748..ed7d326 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -178,8 +178,9 @@ class TaskRunning(BaseComparable):
             ]
             return runs
 
+        # NOTE: a run may have finished after the period
         records = task.logger.get_records(
-            created=between(to_timestamp(start), to_timestamp(end)),
+            created=greater_equal(to_timestamp(start)),
         )
         records = sorted(records, key=lambda x: get_field_value(x, "created"))
         runs = []
@@ -202,7 +203,7 @@ class TaskRunning(BaseComparable):
         for record in records:
             action = get_field_value(record, "action")
             is_run = action == "run"
-            if not is_run:
+            if not is_run or get_field_value(record, "created") > to_timestamp(end):
                 continue
             if has_run_id:
                 run_id = get_field_value(record, "run_id")
-- 
2.43.0


From fd6507e92208d44ca545a829adc14d966470a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:34 +0000
Subject: [PATCH 28/31] fix: Task.period of tasks whose start condition is a
 task status condition

The status conditions have no attribute kwargs: inspecting the status of
such a task crashed the scheduler.
---
 rocketry/core/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index f50b57c..8e0d211 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1436,13 +1436,16 @@ class Task(RedBase, BaseModel):
         session = self.session
 
         if isinstance(cond, (TaskSucceeded, TaskFinished)):
-            if session[cond.kwargs["task"]] is self:
+            if cond.task is None or session[cond.task] is self:
                 return cond.period
 
         elif isinstance(cond, All):
             task_periods = []
             for sub_stmt in cond:
-                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and session[sub_stmt.kwargs["task"]] is self:
+                if isinstance(sub_stmt, TaskFinished) and (
+                    sub_stmt.period is not None
+                    and (sub_stmt.task is None or session[sub_stmt.task] is self)
+                ):
                     task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
-- 
2.43.0


From d452acaf4d8427ce1936a9afd413c7f7d6c05f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:03 +0000
Subject: [PATCH 29/31] fix: a finished run is logged with its own start time

With multilaunch the start and the runtime of another run were logged.
---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 8e0d211..fbf6115 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1243,7 +1243,8 @@ class Task(RedBase, BaseModel):
             }
             # self._last_run = now
         else:
-            start_time = self._get_last_action("run")
+            # NOTE: with multilaunch the latest run may be another one
+            start_time = task_run.start if task_run is not None else self._get_last_action("run")
             runtime = time_now - start_time if start_time is not None else None
             extra = {"action": action, "start": start_time, "end": time_now, "runtime": runtime}
 
-- 
2.43.0


From 2d109da1cca2b7111a74d5db27e1a67ef78e29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:03 +0000
Subject: [PATCH 30/31] fix: cron day of week ranges over the end of the week

Ranges with a step such as 0-4/2 or sun-wed/2 crashed the scheduler.
---
 rocketry/core/time/anchor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/time/anchor.py b/rocketry/core/time/anchor.py
index 615b8bd..393a0c3 100644
--- a/rocketry/core/time/anchor.py
+++ b/rocketry/core/time/anchor.py
@@ -114,9 +114,14 @@ class AnchoredInterval(TimeInterval):
         if isinstance(end, str):
             end = cls._unit_mapping[end.lower()]
 
+        units = cls._unit_names[start:end]
+        if start is not None and end is not None and start >= end:
+            # Over the end of the scope (ie. from Sunday to Tuesday)
+            units = cls._unit_names[start:] + cls._unit_names[:end]
+
         periods = tuple(
-            cls.at(step)
-            for step in cls._unit_names[start:end:step]
+            cls.at(unit)
+            for unit in units[::step]
         )
         return Any(*periods)
 
-- 
2.43.0


From 29320ef9020709dcb4db1b8fcd1dbfb658080f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:03 +0000
Subject: [PATCH 31/31] fix: days which shorter months do not have

Periods such as the 31st (ie. cron 0 0 31 * * or * * */3 * *) raised an
error or never ended in and after the months without the day, which
crashed the scheduler.
---
 rocketry/core/time/base.py |  4 ++++
 rocketry/time/interval.py  | 36 +++++++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index de57461..cb6b95e 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -164,6 +164,10 @@ class TimeInterval(TimePeriod):
         else:
             end = self.rollend(dt)
             start = self.prev_start(dt)
+            if start == end and dt not in self:
+                # There are no points in the interval (ie. 31st
+                # of a shorter month). We look for another one
+                return self.rollback(start - self.resolution)
             if start == end:
                 # The interval is left closed but the start
                 # is included in the interval. Therefore
diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index ab8bb66..070eb59 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -8,7 +8,7 @@ import dateutil
 
 from rocketry.core.time.anchor import AnchoredInterval
 from rocketry.core.time.base import TimeInterval
-from rocketry.pybox.time import datetime_to_dict, to_microseconds
+from rocketry.pybox.time import datetime_to_dict, to_microseconds, to_timedelta
 from rocketry.pybox.time.interval import Interval
 
 @dataclass(frozen=True, init=False)
@@ -286,15 +286,33 @@ class TimeOfMonth(AnchoredInterval):
 
         return to_microseconds(**d)
 
-    def get_scope_forward(self, dt):
-        n_days = calendar.monthrange(dt.year, dt.month)[1]
-        return to_microseconds(day=1) * n_days
+    def _get_point(self, dt, ms, months=0):
+        "Turn microseconds to datetime in the month of dt (or in n months from it)"
+        year, month = divmod(dt.year * 12 + dt.month - 1 + months, 12)
+        n_days = calendar.monthrange(year, month + 1)[1]
+        # NOTE: shorter months don't have all the days
+        ms = min(ms, to_microseconds(day=1) * n_days)
+        return datetime.datetime(year, month + 1, 1, tzinfo=dt.tzinfo) + to_timedelta(ms, unit="microsecond")
 
-    def get_scope_back(self, dt):
-        month = 12 if dt.month == 1 else dt.month - 1
-        year = dt.year - 1 if dt.month == 1 else dt.year
-        n_days = calendar.monthrange(year, month)[1]
-        return to_microseconds(day=1) * n_days
+    def _get_next(self, dt, ms):
+        point = self._get_point(dt, ms)
+        return point if dt < point else self._get_point(dt, ms, months=1)
+
+    def _get_prev(self, dt, ms):
+        point = self._get_point(dt, ms)
+        return point if dt >= point else self._get_point(dt, ms, months=-1)
+
+    def next_start(self, dt):
+        return self._get_next(dt, self._start)
+
+    def next_end(self, dt):
+        return self._get_next(dt, self._end)
+
+    def prev_start(self, dt):
+        return self._get_prev(dt, self._start)
+
+    def prev_end(self, dt):
+        return self._get_prev(dt, self._end)
 
 @dataclass(frozen=True, init=False)
 class TimeOfYear(AnchoredInterval):
-- 
2.43.0

