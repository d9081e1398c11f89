COMMON = ("Clock jumps, stalls, freezes and kills are injected; the schedule of every thread, process and coroutine is "
          "chosen by the seed.")

prop("C01", "A task never overlaps itself unless multilaunch allows it",
     "While one execution of a task's function is in progress, no other execution of the same task begins, unless "
     "multilaunch is on for the task (or, when the task does not say, for the session). This holds for async, thread, "
     "process and main execution, however the runs are triggered (condition, run requests, startup, shutdown, "
     "restart of the scheduler in the same process).",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "for every interleaving of the scheduler, task threads, processes and operators, every duration and ending of "
     "runs, and every injected failure of logging, parameters, processes and clocks",
     "The tests start a handful of runs with fixed sleeps; overlaps need a run to be requested, terminated, failing or "
     "frozen at a particular moment of another run.",
     [SCHED, TASK],
     [("is_task_runnable: no start while the task is alive", SCHED), ("_run_stack and is_alive", TASK),
      ("_lock_to_run_log waits for the child's run record", TASK), ("event_running handshake with threads", TASK)],
     ["begin and end of the task's function"],
     "some task without multilaunch executed at least twice",
     ("interval overlap of function executions", "Random deployments of 1-4 tasks, four executions; overlaps of "
      "function executions are looked for in the history."))

prop("C02", "Every run leaves exactly one run record and one matching finish record",
     "Every started run of a task is logged with exactly one 'run' record followed by exactly one finish record "
     "('success', 'fail', 'inaction' or 'terminate') carrying the same run id, and the finish record tells how the "
     "run really ended and carries the start, end and runtime of that run. A run which fails before or outside its function (parameters, hooks, pickling, process setup) "
     "is recorded as 'fail'; no record belongs to no run.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "for every interleaving, way of ending (return, exception, inaction, self-termination, timeout, end condition, "
     "terminate(), shutdown), failing hook or parameter, unpicklable value and simultaneous termination and finish; a "
     "process killed from outside may lack its finish record",
     "The races between a finishing process and its termination, or a hook failing in an async task, need a moment "
     "that tests with real time do not hit.",
     [TASK, SCHED, "rocketry/log/log_record.py"],
     [("log_running / log_* through _set_status", TASK), ("handle_logs relays the records of processes", SCHED),
      ("_terminate_run", TASK)],
     ["records in the session's log repository", "end of the task's function"],
     "at least two runs started",
     ("one run record and one truthful finish record per run", "All four executions, multilaunch, hooks, failing "
      "parameters, self-terminating and scheduler-ending tasks."))

prop("C04", "Every requested run happens exactly once, in order, with its own parameters",
     "Each call of task.run() leads to exactly one run of that task with exactly the parameters given to the call, in "
     "the order of the calls; requests made from any thread or task, at any moment, are neither lost, duplicated nor "
     "mixed up, also when earlier runs fail before their function. A request is served in the next cycle in which the "
     "task may run, regardless of its start condition and of 'disabled'; what was not served yet stays pending.",
     ["schedules", "histories", "fault_sequences"],
     "for every interleaving of requests from several threads and tasks with the scheduler's lines, every execution "
     "type, process limit, hold/resume, clock jump and repeated session",
     "Tests request one or two runs before the scheduler starts; losing a request needs it to arrive between two "
     "particular lines of the scheduler.",
     [TASK, SCHED],
     [("Task.run appends a batch", TASK), ("_get_direct_params takes one batch per run", TASK),
      ("is_runnable is true while batches are pending", TASK)],
     ["parameters received by the task's function", "start of runs"],
     "at least two run requests were made",
     ("conservation, order and payload of requests", "Requests are tagged with unique parameters and matched with the "
      "runs; requests also arrive between two source lines of a cycle."))

prop("C06", "What must be terminated is terminated promptly, and nothing else is",
     "A run of an async, process or cooperating thread task is terminated in the first cycle in which its timeout (of "
     "the task, else of the session; none for permanent tasks) has passed, its end condition is true, or "
     "terminate() had been called while it ran; with several runs alive, terminate() and the end condition stop all of "
     "them and a timeout only those which exceeded it. No run is terminated without such a reason.",
     ["schedules", "histories", "configurations"],
     "for every duration, timeout, end condition, moment of terminate(), multilaunch stack, hold of the scheduler, "
     "clock jump forward and freeze",
     "Tests terminate one task with one reason; the interplay of several runs, self-termination, stale requests and "
     "end conditions that come and go is not sampled.",
     [TASK, SCHED],
     [("_check_termination", TASK), ("_terminate_all / _terminate_run", TASK), ("TaskRun.terminate", TASK)],
     ["end of the task's function or process"],
     "at least one run had to be terminated",
     ("required and forbidden terminations derived from the history", "Timeouts as numbers, strings, 'never'; end "
      "conditions evaluated by a reference model."))

prop("C09", "Calendar conditions run a task once per window, inside it, missing none",
     "A task scheduled with a calendar condition (secondly, minutely, hourly, daily, weekly, monthly, with between, "
     "before, after, at, on, starting, and their combinations with &, |, ~ and time_of_...) starts exactly when a "
     "cycle finds the session's local time inside the window and the task not yet finished, inactive or terminated in "
     "it. It never starts outside, never twice for one window, and never misses a window in which a cycle found it idle.",
     ["inputs", "histories", "schedules", "configurations"],
     "for every window, start of the history, timezone offset, cycle rate, task duration across window borders, clock "
     "jump forward, stall and crash of the scheduler",
     "Tests check single condition values at chosen instants; the composition over months of cycles, failures and "
     "restarts is not run.",
     ["rocketry/conds/api.py", "rocketry/conditions/task/task.py", "rocketry/time/interval.py",
      "rocketry/core/time/anchor.py", SCHED],
     [("TaskExecutable", "rocketry/conditions/task/task.py"), ("time periods", "rocketry/time/interval.py")],
     ["start of runs relative to the virtual wall clock"],
     "at least two starts happened",
     ("an independent reference model of the conditions, evaluated for every cycle", "Horizons from seconds to 200 "
      "simulated days."))

prop("C10", "every(...) runs a task at its interval and neither earlier nor later",
     "A task scheduled with every(interval) starts in exactly the first cycle in which at least the interval has "
     "passed since its last start (or, as chosen with based, since its last finish, success or fail), with the "
     "first start immediate. This holds through failures, terminations, clock jumps forward, stalls, and crash and "
     "restart with a durable log.",
     ["inputs", "histories", "schedules", "configurations", "crash_points"],
     "for every interval, basis, execution type, duration, outcome, cached or log-based status, and restart",
     "Tests use one or two intervals with an always succeeding task and no restart.",
     ["rocketry/conds/api.py", "rocketry/conditions/task/task.py", "rocketry/conditions/task/utils.py", SCHED],
     [("TaskRunnable and the based variants", "rocketry/conditions/task/task.py")],
     ["start of runs relative to the virtual wall clock"],
     "at least two starts happened",
     ("an independent reference model of the conditions, evaluated for every cycle", "Intervals from 100 ms to "
      "minutes; combined with running conditions."))

prop("C11", "cron schedules start a task once in every matching minute",
     "A task scheduled with a cron expression (or cron with keyword fields) starts exactly once in each minute "
     "matching the expression in which the scheduler cycles while the task is idle, and never in a minute that does "
     "not match. Lists, ranges, steps, names, and the either-or of day of month and day of week follow crontab.",
     ["inputs", "histories", "configurations"],
     "for every expression, start date, timezone offset, cycle rate, task outcome, clock jump forward and restart",
     "Tests check a few expressions at single instants.",
     ["rocketry/time/cron.py", "rocketry/conds/api.py", "rocketry/conditions/task/task.py"],
     [("Crontab period", "rocketry/time/cron.py"), ("TaskRunnable", "rocketry/conditions/task/task.py")],
     ["start of runs relative to the virtual wall clock"],
     "at least two starts happened",
     ("an independent crontab evaluator, for every cycle", "Random cron expressions over hours to months."))

prop("C12", "Pipelines: a dependent task runs once per new outcome of its dependency",
     "A task with after_success, after_fail, after_finish (or their all/any forms) on other tasks starts in exactly "
     "the cycles in which each (any) dependency has logged a matching outcome later than the dependent's own last "
     "start. Other outcomes, runs in progress, failures and crashes of the dependent do not trigger it.",
     ["schedules", "histories", "fault_sequences"],
     "for every chain and fan-in of tasks, interleaving of finishes, outcome sequence, mixed execution types, clock "
     "jump and crash",
     "Tests run a pipeline of two or three succeeding tasks once.",
     ["rocketry/conditions/task/utils.py", "rocketry/conds/api.py", SCHED],
     [("DependMixin compares the latest outcome with the latest start", "rocketry/conditions/task/utils.py")],
     ["start of runs relative to log records"],
     "a dependent task ran",
     ("an independent reference model of the dependency conditions, for every cycle", "Chains, diamonds and mixed "
      "conditions over 2-5 tasks."))

prop("C16", "retry gives a failed task exactly its retries",
     "A task with a retry condition is started again after a failure until it has failed 1 + n times in a row (n "
     "unlimited for retry without number), and not after a success, inaction or termination. Retries combine with "
     "other conditions and survive a restart of the scheduler with a durable log.",
     ["histories", "inputs", "schedules", "crash_points"],
     "for every outcome sequence, number of retries, execution type, combination of conditions and restart",
     "Tests check two or three prepared log histories.",
     ["rocketry/conditions/task/task.py", "rocketry/conds/api.py", SCHED],
     [("Retry condition counts trailing failures", "rocketry/conditions/task/task.py")],
     ["start of runs relative to log records"],
     "a task failed and was retried or given up",
     ("an independent reference model of the retry rule, for every cycle", "Random outcome scripts and retry counts."))

prop("C17", "Changes at runtime take effect in the next cycle and disturb nothing else",
     "Disabling or enabling a task, giving it a new start condition, holding or resuming the scheduler, and adding or "
     "removing tasks, done from any thread while the scheduler runs, are in force from the next cycle on and are never "
     "lost. Such changes neither crash the scheduler nor affect other tasks, and operations on the session succeed "
     "at any moment.",
     ["schedules", "histories"],
     "for every moment of the change, down to between two source lines of the scheduler, every execution type and "
     "sequence of changes",
     "Tests change attributes before the scheduler starts or from a task in the main thread; lost updates need a "
     "particular interleaving.",
     [TASK, SCHED, SESS],
     [("Task.__setattr__", TASK), ("Session.tasks / __getitem__ / add_task / remove_task", SESS),
      ("run_cycle inspects the tasks of the session", SCHED)],
     ["start of runs", "result of operations", "whether the scheduler goes on"],
     "more than one change was made and more than one run started",
     ("start decisions under the changed attributes, from the reference model", "Operations fire at random times and "
      "after a random number of source lines within a cycle."))

prop("C07", "Shutdown waits for runs, a forced one terminates them, nothing outlives it",
     "Once shut_down() was called or the shut condition is true, no further cycle begins and no task but the shutdown "
     "tasks starts. Runs in progress are waited for until they finish or reach their timeout or end condition "
     "(permanent tasks are terminated). They are terminated at once if instant_shutdown is set, the scheduler met a "
     "fatal error, shut_down(force=True) was called, or shut_down() was called again - also while the scheduler "
     "already waits - and never otherwise, in particular not because an earlier session was shut down by force. The "
     "scheduler returns, and when it does no execution, thread or process of its tasks is left.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "for every moment of the shutdown relative to the starts, ends and terminations of runs, every mixture of "
     "execution types, number and kind of shut_down calls from any thread, fatal error, restart and repeated session",
     "Tests shut down from the shut condition with one long task; the suite's tests of shutdown are among the unstable "
     "ones and do not cover repeated sessions or a force during the wait.",
     [SCHED, SESS, TASK],
     [("Scheduler.serve / shut_down / _shut_down_tasks / wait_task_alive", SCHED), ("Session.shut_down", SESS),
      ("Task._terminate_all", TASK)],
     ["end of executions, threads and processes", "return of the scheduler"],
     "at least one run was alive when the shutdown began",
     ("which runs must, may and must not be terminated in a shutdown, and liveness of the return", "Shutdowns by "
      "shut_down with and without force, shut condition, fatal error, restart; again while waiting; repeated sessions."))

prop("C05", "Every execution gets the parameters of its own level and latest returns",
     "The value of each parameter an execution of a task receives is the one of the batch it was requested with, else "
     "of the task, else of an argument in the function's signature, else of the session, else the signature's default; "
     "session parameters the function does not take are not passed. Arguments are evaluated anew for every run: Return "
     "gives the latest return value of the other task, Arg the current session parameter, FuncArg the value of a new "
     "call (made before or after the thread or process exists, as configured), Task the task itself. Parameters and "
     "return values of concurrent runs are never mixed up, and a run with resolvable parameters reaches its function.",
     ["schedules", "histories", "inputs", "configurations"],
     "for every combination of levels and argument types, execution type, concurrent and multilaunched runs, return "
     "values arriving and session parameters set at any moment",
     "Tests materialise parameters of one run at a time; mixing up returns or batches needs runs of several tasks to "
     "finish and start at particular moments.",
     [TASK, "rocketry/core/parameters/parameters.py", "rocketry/args/builtin.py", "rocketry/tasks/func.py"],
     [("start_async: get_extra_params, _get_direct_params, pre_materialize", TASK),
      ("Parameters.materialize", "rocketry/core/parameters/parameters.py"),
      ("Return / Arg / FuncArg", "rocketry/args/builtin.py"), ("_handle_return, log_record", TASK)],
     ["parameters received by the task's function"],
     "more than five parameters were compared",
     ("a model of the parameter levels; returns and session parameters as registers with overlapping writes and reads",
      "Random levels and argument types over 2-4 tasks which return values to each other."))

prop("C08", "Startup and shutdown tasks run once in their phase; priority orders starts",
     "Each startup of the scheduler (also a restart or a repeated session) starts every enabled startup task exactly "
     "once if its start condition is unset or true, before the first cycle; each shutdown (also after a fatal error, "
     "an exit or a restart) does so with the shutdown tasks. These tasks never start in ordinary cycles and ordinary "
     "tasks never start in these phases. Within a startup, a shutdown and a cycle tasks start in the order of their "
     "current priorities, highest first.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "for every mixture of tasks, conditions, priorities changed at runtime, requested runs, restarts, fatal errors and "
     "crashes",
     "Tests run one startup and one shutdown of a session in which nothing else happens.",
     [SCHED, TASK],
     [("Scheduler.startup / run_shutdown_tasks / run_cycle", SCHED), ("Scheduler.tasks sorts by priority", SCHED)],
     ["start of runs relative to the startup, cycle and shutdown hooks"],
     "a startup or shutdown task ran and two starts were ordered",
     ("which tasks start in which phase, how often and in which order", "Random startup and shutdown tasks of all "
      "executions; restarts, fatal errors, crashes and repeated sessions."))

prop("C13", "After a crash the tasks resume from the durable log",
     "When the scheduler dies at any point and is started again with the same log repository, every task's status and "
     "last_run, last_success, last_fail, last_terminate, last_inaction and last_crash equal what the log says; the run "
     "which was in progress according to the log gets exactly one crash record with its run id before the task runs "
     "again, no other task gets one, and start decisions (of startup tasks too) follow the log as if the scheduler had "
     "not been away.",
     ["crash_points", "histories", "schedules", "configurations"],
     "for every crash point down to a source line of the scheduler or of a task, number of crashes, downtime, clock "
     "jump, execution type, record model and repository (memory or CSV file kept by the simulated disk); tasks without "
     "overlapping runs",
     "Tests prepare two or three log histories by hand; real crash points between two writes are not reachable with "
     "unit tests.",
     [TASK, SCHED, "rocketry/core/log/adapter.py"],
     [("Task.set_cached reads the log at startup", TASK), ("log_crash", TASK), ("Scheduler.startup", SCHED),
      ("TaskAdapter.get_latest / get_records", "rocketry/core/log/adapter.py")],
     ["status and last_* of the tasks after the startup", "crash records", "start of runs after the crash"],
     "the scheduler crashed and task states were compared after the restart",
     ("the durable log itself, and the reference model of the start conditions across the crash", "Crashes at random "
      "times and source lines; memory and CSV repositories; up to three crashes in a run."))

prop("C14", "Faults are contained, or stop the scheduler in order, as configured",
     "An exception in a task's function never stops the scheduler. With silence_cond_check, silence_task_prerun and "
     "silence_task_logging set, neither do errors in conditions, in parameters, hooks and starting of threads and "
     "processes, and in writing records: all other tasks keep their schedule, a task whose condition fails does not "
     "start in that cycle, and the failing task is started again as before once its faults are over. Without the "
     "setting the scheduler ends with that error soon (condition, main-thread and setup errors at once, logging errors "
     "within two cycles), after a complete shutdown: shutdown tasks run and no run is left alive. It never ends with an "
     "error that is not due to such a fault.",
     ["fault_sequences", "schedules", "configurations", "histories"],
     "for every place, moment and combination of injected faults: conditions, end conditions, arguments, hooks, lost "
     "and late-failing log writes, failing thread and process creation, killed children",
     "Tests inject one kind of failure into one task at a time and do not look at the other tasks.",
     [SCHED, TASK],
     [("run_task, check_task_cond, _log_task, check_thread_errors", SCHED),
      ("start_async, _run_as_thread, _terminate_run, _check_termination", TASK)],
     ["whether and how the scheduler returns", "start of runs of healthy and failing tasks"],
     "at least one fault was injected",
     ("which faults may, must and must not end the scheduler, and the start decisions of all tasks", "Up to two kinds "
      "of faults in each of up to three tasks besides one or two healthy ones."))

prop("C15", "Limits on concurrent runs are never exceeded and free slots are used",
     "At no moment are more processes of tasks alive than max_process_count, whatever mixture of scheduled starts, "
     "task.run() requests, startup and shutdown tasks, multilaunch, slow process starts, kills and terminations leads "
     "there; and as soon as a process has ended, a due task is started in its place in the next cycle. A task whose "
     "start condition limits concurrent runs (running < n, ~running, ~running(other)) is started exactly when the "
     "number of runs alive is below the limit: never beyond it, and never held back by runs that have ended.",
     ["schedules", "interleavings", "fault_sequences", "histories"],
     "for every interleaving of process starts, exits, kills, terminations and requests with the scheduler's cycles",
     "Tests run one or two processes to completion; the limit is only at stake while starts and exits overlap.",
     [SCHED, TASK, "rocketry/conditions/task/task.py"],
     [("Scheduler.is_task_runnable, has_free_processors, n_alive", SCHED), ("Task.is_alive, n_alive, _run_as_process", TASK),
      ("TaskRunning", "rocketry/conditions/task/task.py")],
     ["number of processes alive at each process start", "start of runs per cycle"],
     "the process limit was reached or a task had a running condition",
     ("the processes alive in the simulator and the reference model of the start decisions", "Up to 5 tasks, limits 1-3, "
      "up to 20 requests."))

prop("C18", "session.run() runs the given tasks once, nothing else, and alters nothing",
     "session.run(tasks, execution, obey_cond) goes through one startup, one cycle and one complete shutdown: each given "
     "task (by name, function or task object) runs exactly once, with the execution asked for or its own, regardless of its "
     "condition, of being disabled and of earlier runs (or, with obey_cond, exactly if its condition holds); no other task "
     "runs; the finish of each run is logged and nothing is alive on return. Afterwards every setting of every task and of "
     "the session is what it was, also if a condition failed, tasks were created or the session was shut down meanwhile, "
     "and normal sessions before, between and after follow the start conditions as if they were the only ones.",
     ["histories", "configurations", "fault_sequences", "schedules"],
     "for every sequence of manual and normal sessions of one app, mixture of task settings, and failures in between",
     "Tests make a single manual run of one task in a fresh session and look at two attributes.",
     ["rocketry/session.py", SCHED],
     [("Session.run", "rocketry/session.py"), ("Scheduler.startup / shut_down", SCHED)],
     ["runs in each manual session", "settings of tasks and session before and after", "starts in normal sessions"],
     "a manual session with at least one given task was completed",
     ("exactly-once accounting of the runs, equality of settings and the reference model of the start decisions", "Up to four "
      "sessions of one app, up to five tasks."))

prop("C19", "A restart is one complete shutdown and one new start, unless shut down meanwhile",
     "session.restart() or a main-thread task raising SchedulerRestart leads, after the cycle in progress, to one complete "
     "shutdown (runs waited for or terminated, finishes logged, shutdown tasks run, hooks called) and then to exactly one new "
     "start in the configured way: the process replaced, a new process launched with the whole command line, or the scheduler "
     "called again. No run is alive at that moment. A shutdown requested before it is completed prevails: the scheduler does "
     "not start again. Without a request it never restarts. After the restart startup tasks run again and all tasks go on from "
     "their logged history as their conditions say.",
     ["schedules", "interleavings", "histories", "crash_points"],
     "for every moment of the request relative to cycles, runs and shutdown requests, and every restarting mode",
     "Tests restart an idle scheduler once in the recall mode only; the process modes cannot be executed in a unit test.",
     [SCHED, "rocketry/session.py"],
     [("Scheduler.serve / _restart / _shut_down_all", SCHED), ("Session.restart", "rocketry/session.py")],
     ["sequence of startup and shutdown phases, replacements and launches", "runs alive at the restart", "starts afterwards"],
     "the scheduler restarted",
     ("the phases as an automaton, lifetimes of runs, and the reference model of the start decisions", "os.execl and "
      "subprocess.Popen are simulated: the new process is a new boot on the same durable log; up to five restarts in a run."))

prop("C03", "What a task tells about itself agrees at all times with its log and its runs",
     "At the end of every cycle, after a startup, and in every later session or after a crash, task.status is the action of "
     "the task's latest log record, task.last_run, last_success, last_fail, last_terminate, last_inaction and last_crash are "
     "the times of its latest record of that action (or None), and task.is_alive() tells whether a thread, process, coroutine "
     "or main execution of it is in progress. This holds whichever of the four executions wrote the records, with the "
     "statuses read from the cache or from the logs.",
     ["schedules", "interleavings", "fault_sequences", "crash_points", "histories"],
     "for every interleaving of runs, terminations, kills, failing starts and parameters, restarts and crashes of the "
     "scheduler with the observations",
     "Tests read the status after a single run has ended and the scheduler is idle.",
     [TASK, SCHED, "rocketry/log/log_record.py"],
     [("Task._set_status and the _last_* cache", TASK), ("Task.set_cached", TASK), ("TaskRun.is_alive", TASK),
      ("Scheduler.handle_logs / log_record", SCHED)],
     ["status, last_* and is_alive() of every task at every cycle", "records in the log repository"],
     "the state was compared at least four times",
     ("equality of the told state with the one derived from the records and the lifetimes of the runs", "1-4 tasks, four "
      "executions, memory and CSV repositories, all record models; times within a tolerance of the simulated latency; several "
      "threads of a multilaunch task writing at the same time are not judged."))

prop("C20", "Every hook wraps what it is set for exactly once, in the run it belongs to",
     "A task_execute hook runs its first part exactly once before the task's function and its second part exactly once after "
     "the function has ended, in the same thread or process as the function, for the very task, and is told the exception the "
     "function ended with (none for success); a failing hook prevents the function from running. Startup, cycle and shutdown "
     "hooks are begun and completed once per startup, cycle and shutdown, in this order: startup tasks start only between the "
     "parts of the startup hooks, shutdown tasks between those of the shutdown hooks, other tasks between those of the cycle "
     "hooks. The shutdown hooks are completed before the scheduler returns or restarts.",
     ["schedules", "interleavings", "fault_sequences", "histories", "configurations"],
     "for every execution type, multilaunch, way of ending, failing hook or parameter, termination, kill, restart and repeated "
     "session; a process which was killed or terminated does not complete its hooks",
     "Tests run one hooked task once with a function that returns.",
     ["rocketry/core/hook.py", TASK, SCHED],
     [("_Hooker.prerun / postrun", "rocketry/core/hook.py"), ("Task._run_as_async and _run_as_process", TASK),
      ("Scheduler.startup, run_cycle and shut_down", SCHED)],
     ["calls of the hooks and of the task's function with their thread and process", "start of runs"],
     "at least two executions were wrapped by generator hooks",
     ("pairing of hook calls with function executions and the phases as an automaton", "1-3 execute hooks (generators and a "
      "plain function), 1-4 tasks of the four executions."))

prop("C21", "A command task runs its command once per run, with that run's own arguments",
     "Each run of a command task executes its command exactly once, with the task's parameters and those of the run request as "
     "command line arguments (in the chosen form, '--' by default) and nothing of other runs or of the session, in the given "
     "directory and shell mode, and waits for it. Exit code 0 makes the run a success whose return value is the output; "
     "another code, a missing command, or exceeding the task's timeout (the command is killed) makes it a failure.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "for every execution, repetition, overlap of runs, mixture of parameters, exit code, duration, timeout and termination",
     "Tests execute a command once, mostly without parameters and never with a timeout.",
     ["rocketry/tasks/command.py", TASK],
     [("CommandTask.execute", "rocketry/tasks/command.py"), ("get_kwargs_popen", "rocketry/tasks/command.py"),
      ("Task._get_direct_params", TASK)],
     ["arguments of subprocess.Popen per run", "exit or kill of the command", "finish records and return values"],
     "at least two commands were executed with arguments",
     ("comparison of each execution with the command, parameters and simulated exit", "subprocess.Popen is simulated (start "
      "failure, exit code, duration, output, kill); 1-4 command tasks of the four executions."))

prop("C22", "Status, scheduler and custom conditions decide as the log and the runs tell",
     "A start condition made of started, succeeded, failed, finished (of the task itself or another, this minute, hour, day, "
     "week or month, in a window of it, in the past time span, or ever) or of counts of these compared with a number is true "
     "exactly when the records of the log say so; running (more_than, less_than, between, counts) exactly when runs that old "
     "are alive; scheduler_running and scheduler_cycles by the time since the startup and the cycles made; a condition of "
     "the user's own is called with the task it is checked for, its session and the arguments it was given. Combinations with "
     "&, | and ~ follow. The scheduler stops after the first cycle at whose end its shut condition is true, and not before.",
     ["schedules", "histories", "fault_sequences", "inputs", "configurations"],
     "for every history of runs, time scale from seconds to months, clock jump, stall, crash and restart, time zone, "
     "multilaunch, cached or logged status, and for the condition given as object or string",
     "Tests set up single histories by hand and evaluate one condition once, without time zones and outside of a scheduler.",
     ["rocketry/conditions/task/task.py", "rocketry/conditions/task/utils.py", "rocketry/conditions/scheduler.py",
      "rocketry/conditions/func.py", "rocketry/core/condition/base.py", SCHED],
     [("TaskStatusMixin.get_measurement", "rocketry/conditions/task/utils.py"),
      ("TaskRunning.get_measurement", "rocketry/conditions/task/task.py"),
      ("SchedulerStarted, SchedulerCycles", "rocketry/conditions/scheduler.py"),
      ("FuncCond.observe", "rocketry/conditions/func.py"), ("Scheduler.check_shut_cond", SCHED)],
     ["log records", "lifetimes of runs", "starts in every cycle", "calls of the user's condition", "end of the session"],
     "conditions were certainly true and certainly false",
     ("the start decision of every task in every cycle compared with a reference evaluation of its condition on the recorded "
      "history; the end of the session with that of the shut condition", "2-5 tasks, five time scales; what a clock reading "
      "within the cycle could change is not judged."))

prop("C23", "The scheduler keeps its pace, and runs do not hold each other up",
     "Between two cycles the scheduler sleeps the configured cycle_sleep, neither less nor more. A cycle takes only as long as "
     "the main executions and the bringing up of processes in it: while async, threaded and process tasks run, however long, "
     "the scheduler goes on deciding the other tasks. An async, threaded or process run begins at once when it is started and "
     "lasts as long as its function takes by itself, whatever other such runs do.",
     ["schedules", "fault_sequences", "configurations"],
     "for every mix of executions and durations, cycle_sleep, multilaunch, number of processes, slow process start, killed or "
     "frozen child, frozen host and interleaving",
     "In tests tasks take no time and cycles are counted, not timed: a cycle which waits for a thread looks the same.",
     [SCHED, TASK],
     [("Scheduler.run_cycle, Scheduler.main_loop", SCHED), ("_run_as_async, _run_as_thread, _run_as_process", TASK)],
     ["begin and end of the cycles", "start of the runs, begin and end of their functions"],
     "more than five cycles and two executions",
     ("the time between cycles, the length of a cycle less its main executions, and the delay and duration of every run, "
      "measured in simulated time", "2-5 tasks, cycle_sleep 20 ms to 0.7 s or none; latency of the simulated machine is slack."))

prop("C24", "A task in a group obeys the group and the app",
     "Tasks of a Grouper included in an app start exactly when both the group's start condition and their own are true, are "
     "called with the group's prefix in their name (also in conditions which name them), use the group's execution unless they have "
     "their own, and are otherwise tasks of the app as any other: the group's parameters are there for them, the app's settings, log, timeouts, multilaunch and single execution hold for them.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "for every combination of group and own conditions, executions, parameters and settings, tasks beside the group, operators' "
     "commands, crash and restart",
     "Tests include a group with a task or two and look at the attributes; they do not run it together with others.",
     ["rocketry/application.py", "rocketry/core/condition/base.py", "rocketry/core/task.py", "rocketry/core/parameters/parameters.py"],
     [("Grouper, _AppMixin.include_grouper", "rocketry/application.py"), ("Task", TASK)],
     ["names of the tasks", "starts in every cycle", "execution and parameters of every run", "log records"],
     "a task of a group started",
     ("the start decisions compared with a reference evaluation of both conditions; execution, parameters, name, records, "
      "terminations as for tasks of the app", "1-3 groups with 1-3 tasks, 0-2 tasks beside them."))
