"""What is claimed, property by property (gen_meta.py turns this into the registered files)."""

ASSUMPTIONS = {
    "sim": [
        "the storage is the in-process Redis the project itself ships for memory:// URLs; every command (and every "
        "MULTI/EVAL) is atomic, and a network failure loses a request or a reply but does not reorder one "
        "connection's commands",
        "single event loop per case: interleavings are those of awaits and of commands with generated latencies, "
        "not of preemption inside a synchronous stretch of Python",
        "virtual time: clocks of all simulated processes agree",
    ],
    "pure": ["the functions are called directly, without storage"],
    "store": [
        "the storage is the in-process Redis the project itself ships for memory:// URLs, with virtual time",
    ],
}
NOTE = {
    "sim": "Generated-input search, no proof: the real docket, worker and Lua code run against the bundled in-memory "
           "Redis in a deterministic simulation with virtual time, generated latencies, schedules and faults; a "
           "failing case is shrunk and replayable. Trusts the bundled Redis and the simulation harness.",
    "pure": "Generated-input search against an independently written oracle; no proof. Trusts the oracle.",
    "store": "Generated-input search: the real code runs against the bundled in-memory Redis in a deterministic "
             "simulation with virtual time; outcomes are compared with an independently written model. No proof.",
}
NOTES = ("All checks: one entry point, run.py; Hypothesis generates JSON-able cases (VERIF_SEED pins them), 8 shards "
         "run in the project's interpreter. python3 run.py <ID> --replay <file> re-runs a saved case. "
         "properties.jsonl, checks.json and this file are generated by tools/gen_meta.py from tools/table.py.")

NOT_CLAIMED: dict[str, str] = {}

PROPERTIES: dict[str, dict] = {}


def P(pid, **kw):
    PROPERTIES[pid] = kw


DOCKET, EXEC, WORKER = "src/docket/docket.py", "src/docket/execution.py", "src/docket/worker.py"
DEPS = "src/docket/dependencies/"

P("P01",
  title="An accepted task runs to its end at least once, whatever crashes",
  statement="Once a submission has been accepted, its task runs to its end at least once as long as some worker is "
            "eventually able to work, whichever workers are killed, cut off or restarted at whatever point in "
            "between. Afterwards nothing is left behind in the docket, and without any fault each attempt runs "
            "exactly once.",
  over=["crash_points", "fault_sequences", "schedules", "histories"],
  text="every sequence of tasks (immediate, future, failing with retries), every number of workers, kills before or "
       "after any command, lost requests and replies, outages of any length, restarts after any delay, any latencies",
  why="Tests kill or disconnect a worker at one or two hand-picked points; the guarantee is about every command "
      "boundary of claim, run, reschedule, acknowledge and redelivery.",
  files=[WORKER, EXEC, DOCKET],
  mechanism=[("redelivery of unacknowledged messages, lease renewal", "worker.py: _worker_loop, _renew_leases"),
             ("atomic scheduling and completion scripts", "execution.py: _schedule, _mark_as_terminal"),
             ("mover of due tasks", "worker.py: _scheduler_loop")],
  observe=["task bodies' own journal", "length of the docket's stream and queue", "recorded run state"],
  technique="fault-injecting simulation, generated histories, journal invariant",
  rule="tasks, workers and faults (kill before/after the nth command, lost request/reply, outage, kill at a time) are "
       "generated; non-trivial: a crash, outage or lost message really hit")

P("P02",
  title="One key, one task: a submission for a live key is refused",
  statement="While a task with some key is pending, parked or running, adding a task with the same key is refused, "
            "reported as already existing, and changes nothing; however many clients submit concurrently, exactly one "
            "submission is accepted. Once the task is finished the key can be used again at once, and the new run "
            "starts with a fresh record.",
  over=["schedules", "histories", "inputs"],
  text="every interleaving of submissions of shared keys by several clients with the running, failing, retrying, "
       "parking and completing of the tasks, including self-perpetuating ones",
  why="Tests submit a duplicate sequentially at one or two states of the task; the guarantee is about every state "
      "and every interleaving of two scripts.",
  files=[DOCKET, EXEC, WORKER],
  mechanism=[("atomic known-key check in the scheduling script", "execution.py: _schedule"),
             ("key freed with the completion, not before", "execution.py: _mark_as_terminal")],
  observe=["the disposition a submission reports", "bodies that ran, by submission token"],
  technique="stateful history generation, real-time-order oracle",
  rule="several clients submit a few keys at generated times while workers run; non-trivial: at least one submission "
       "was refused (or a perpetual chain went round)")

P("P03",
  title="replace(): the newest schedule of a key wins",
  statement="Replacing a key's task always succeeds, and once the call has returned, no attempt of any older schedule "
            "of that key starts, whether it was pending, parked, between retries or running. The last "
            "replacement runs to its end exactly as scheduled, and an older run that finishes later does not disturb "
            "it.",
  over=["schedules", "histories"],
  text="every interleaving of adds and replaces of shared keys by several clients with running, failing, retrying and "
       "parked attempts of older schedules",
  why="Tests replace a pending task; replacing at every other point of an attempt's life (claim, retry, parking, "
      "completion) depends on interleavings they do not reach.",
  files=[DOCKET, EXEC, WORKER],
  mechanism=[("generation counter of a key", "execution.py: _schedule and the supersession checks"),
             ("head check before running", "worker.py: _execute")],
  observe=["bodies that ran, by submission token", "recorded state of the key"],
  technique="stateful history generation, real-time-order oracle",
  rule="several clients add and replace shared keys at generated times; non-trivial: a replacement displaced or "
       "followed something")

P("P04",
  title="cancel(): a cancelled task never starts, a running one is interrupted",
  statement="Once cancelling a key has returned, a task of that key that was pending, parked or waiting for a retry "
            "never starts; a running one is interrupted where it awaits, recorded as cancelled and not retried. "
            "Everyone waiting on it learns of the cancellation, the key is free for a new submission, and "
            "cancelling an unknown or finished key changes nothing.",
  over=["schedules", "histories"],
  text="every interleaving of adds, cancels and (separately) replaces of shared keys with running, failing, retrying "
       "and parked attempts; waiters subscribed before or after",
  why="Tests cancel a future task, a running task and a finished task at rest; the windows between message delivery, "
      "claim, retry and completion are not sampled.",
  files=[DOCKET, EXEC, WORKER],
  mechanism=[("atomic cancellation script", "docket.py: _cancel"),
             ("cancellation broadcast to workers", "worker.py: _cancellation_listener"),
             ("cancelled record kept", "execution.py: _mark_as_terminal")],
  observe=["bodies that ran, by submission token", "get_result()", "recorded state"],
  technique="stateful history generation, real-time-order oracle",
  rule="clients add and cancel shared keys at generated times; non-trivial: a cancellation hit a pending or running "
       "task, or someone waited")

P("P05",
  title="Redelivered or stale copies of a displaced task have no effect",
  statement="A copy of a task that has been displaced by a newer schedule of its key, and is delivered again later "
            "because its worker crashed or stalled, neither starts again nor alters the newer schedule's record, "
            "result or key.",
  over=["crash_points", "schedules", "histories"],
  text="every point at which the displaced attempt's worker stalls or dies, and every timing of the newer schedule's "
       "run relative to the redelivery",
  why="Needs a crash, a replacement and a redelivery in a particular order; tests fabricate one or two such states "
      "by hand.",
  files=[EXEC, WORKER, "src/docket/_lua.py"],
  mechanism=[("generation carried by every message", "execution.py: as_message / from_message"),
             ("supersession check on claim and on completion", "execution.py: claim, _mark_as_terminal")],
  observe=["bodies that ran", "recorded state and result of the newest schedule"],
  technique="fault-injecting simulation, journal invariant",
  rule="a task is started, its worker stalls or dies, the key is scheduled again; non-trivial: the displaced task had "
       "started")

P("P06",
  title="A task body receives exactly the arguments it was submitted with",
  statement="Whatever picklable positional and keyword arguments a task is submitted with, its body receives equal "
            "values of the same types, bound as a plain call would bind them, on every path to it: immediate, "
            "scheduled, replaced, parked, retried and redelivered. Reading the task back shows the same arguments, "
            "key and time.",
  over=["inputs", "histories"],
  text="recursively generated values (numbers incl. nan/inf, text, bytes, containers, dates, enums, dataclasses, "
       "custom classes), signatures with positional-only, keyword-only, defaulted and variadic parameters, all paths",
  why="Tests submit a handful of strings and numbers on the immediate path.",
  files=[EXEC, DOCKET],
  mechanism=[("pickling of args and kwargs into the message", "execution.py: as_message / from_message"),
             ("parked copy of the message", "execution.py: _schedule; worker.py: _scheduler_loop")],
  observe=["arguments the body saw", "get_execution()"],
  technique="round-trip on generated payloads and paths",
  rule="payloads, signatures and paths are generated; non-trivial: some argument was submitted")

P("P07",
  title="get_result() hands every waiter the task's own outcome, and not before it",
  statement="Everyone asking for a task's result, before, during or after it runs, gets the value it returned or an "
            "error equivalent to the one it raised, as soon as it has ended and never earlier, for the run in "
            "question and not a previous one of the same key. A timeout or deadline given by the caller is honoured "
            "unless the outcome was there.",
  over=["inputs", "schedules", "histories"],
  text="generated return values and exceptions (including unpicklable ones), several waiters starting at generated "
       "times with and without timeouts, repeated runs of one key, retries, any latencies",
  why="Tests await one result per task; the missed-wakeup windows and odd exceptions are not sampled.",
  files=[EXEC, WORKER, "src/docket/_result_store.py"],
  mechanism=[("subscription before reading the state", "execution.py: get_result"),
             ("outcome stored before the completion is announced", "worker.py: _execute; execution.py: _mark_as_terminal")],
  observe=["get_result()", "recorded state and error of the run"],
  technique="generated outcomes and waiters, round-trip and real-time-order oracle",
  rule="outcomes, waiters and timings are generated; non-trivial: someone waited while the task was unfinished")

P("P08",
  title="Tasks start never before their time, and promptly once due",
  statement="A task never starts before the time it was scheduled for, whatever time zone that time was given in. "
            "Once it is due and a worker has a free slot, it starts within the worker's configured intervals, and no "
            "task waits while a slot stays free.",
  over=["inputs", "schedules", "configurations"],
  text="generated times (past, present, milliseconds to a day ahead, any zone), worker counts, concurrency, check "
       "interval and scheduling resolution, latencies",
  why="Tests check one or two delays against the wall clock with wide tolerances.",
  files=[WORKER, EXEC, DOCKET],
  mechanism=[("due-time comparison in the scheduling and moving scripts", "execution.py: _schedule; worker.py: _scheduler_loop"),
             ("slot accounting", "worker.py: _worker_loop")],
  observe=["start times of bodies in virtual time"],
  technique="simulation in virtual time, bounds on start times",
  rule="submissions and worker settings are generated; non-trivial: a task was scheduled for the future, or a ready "
       "task had to wait for a slot")

P("P09",
  title="Watchers of a task see its states in order, up to the end",
  statement="Whoever subscribes to a task sees every state it goes through from then on, in order, none twice, ending "
            "with its terminal state; reading a task at any time gives a state consistent with what subscribers saw, "
            "and never goes back.",
  over=["schedules", "histories"],
  text="tasks with delays, failures, retries and cancellations; subscribers and readers joining at any time",
  why="Tests subscribe before the task is added and look at one life; joining in the middle of each transition is a "
      "race they cannot schedule.",
  files=[EXEC, WORKER, "src/docket/docket.py"],
  mechanism=[("state changes published with the record change", "execution.py: the Lua scripts"),
             ("subscribe", "execution.py: Execution.subscribe")],
  observe=["events yielded by subscribe()", "get_execution().state, sync()"],
  technique="simulation, generated subscribers and readers, path-suffix oracle",
  rule="lives, subscribers and readers are generated; non-trivial: a subscriber joined before the end")

P("P10",
  title="A failing task is retried as often and as late as its policy says",
  statement="A failing task is attempted again with the same arguments until it succeeds or has used the attempts its "
            "policy allows, counting from 1; each attempt starts when the policy's delay (linear, exponential up "
            "to its maximum, or what the task itself asked for) has passed and promptly after. Then the outcome of "
            "the last attempt is the task's outcome.",
  over=["inputs", "schedules", "configurations"],
  text="linear and exponential policies, bounded and unbounded, with any delays, up to the 3000th attempt for the "
       "arithmetic; tasks overriding the delay or the time; any latencies",
  why="Tests check a few attempts of one policy.",
  files=[DEPS + "_retry.py", WORKER],
  mechanism=[("delay computation", "_retry.py: Retry, ExponentialRetry"),
             ("rescheduling in place of completion", "_retry.py: handle_failure; worker.py: _execute")],
  observe=["starts, attempt numbers and arguments journalled by bodies", "recorded outcome"],
  technique="generated policies and failure scripts against a reference schedule",
  rule="policies and failure scripts are generated; non-trivial: three attempts or more (not the first attempt, for "
       "the arithmetic)")

P("P11",
  title="A perpetual task keeps going, once at a time, until told to stop",
  statement="A perpetual task runs again after each run, successful or not, at the interval or time it asked for and with "
            "the arguments it asked for, never twice at once, until it cancels itself or is cancelled; a replacement "
            "from outside takes effect. Automatic ones are started by workers exactly once however many workers start, "
            "and again if their chain is lost.",
  over=["schedules", "histories", "configurations"],
  text="any number of workers starting and stopping at any time, run durations, failures, intervals, changes of "
       "arguments or time, outside replacements, latencies",
  why="Tests watch one chain go round a few times with one worker.",
  files=[DEPS + "_perpetual.py", WORKER, EXEC],
  mechanism=[("rescheduling on completion", "_perpetual.py: on_complete"),
             ("automatic seeding and reseeding", "worker.py: _schedule_all_automatic_perpetual_tasks")],
  observe=["runs journalled by bodies", "recorded state, backlog"],
  technique="simulation of generated chains against a reference schedule",
  rule="chains and interventions are generated; non-trivial: a chain went round, or a replacement displaced it")

P("P12",
  title="Cron tasks run at the times their expression names",
  statement="A cron task is scheduled at exactly the next time its expression names in its time zone after the present, "
            "for any valid expression, keyword, zone and starting moment, also when it is scheduled long after it was "
            "declared. Workers keep it running at those times, each once, through failures, long runs and late starts.",
  over=["inputs", "schedules"],
  text="generated expressions (steps, ranges, lists, names, keywords), ten zones, moments over four years; workers "
       "with runs shorter and longer than the period",
  why="Tests check a handful of expressions at one moment.",
  files=[DEPS + "_cron.py", WORKER],
  mechanism=[("next time", "_cron.py: next_time, initial_when, on_complete")],
  observe=["next_time(), initial_when", "runs journalled by bodies"],
  technique="differential against an independent cron reading; simulation of workers",
  rule="expressions, zones and moments are generated; non-trivial: not '* * * * *'; at least two runs",
  assume=["within a day of a UTC offset change of the zone only 'after the present' is checked"])

P("P13",
  title="A Timeout ends an attempt at its deadline, and never otherwise",
  statement="An attempt of a task with a Timeout is interrupted exactly when the base time plus the extensions made so far "
            "have passed since its start, and then counts as failed with a TimeoutError, even if it swallows the "
            "interruption; an attempt that ends before is not disturbed and keeps its own outcome, its own "
            "TimeoutErrors included. Each attempt and each task has its own deadline.",
  over=["inputs", "schedules"],
  text="scripts of sleeping, extending, nested timeouts of their own, all kinds of endings and reactions to the "
       "interruption, on tasks and on workers, with retries and several at once",
  why="Tests sleep past one deadline on the wall clock.",
  files=[DEPS + "_timeout.py", "src/docket/_cancellation.py", WORKER],
  mechanism=[("deadline loop", "_timeout.py: run"), ("cancelling with a reason", "_cancellation.py: cancel_task")],
  observe=["interruption times journalled by bodies", "remaining()", "recorded outcome"],
  technique="generated attempt scripts against a reference deadline, in virtual time",
  rule="scripts are generated; non-trivial: an attempt was interrupted")

P("P14",
  title="A concurrency limit is never exceeded and leaves no task waiting in vain",
  statement="Never more tasks than the limit allows run at once for a scope, parameter and value, or task, on however many "
            "workers; a task waiting for its turn starts promptly once a slot and a worker are free, and every "
            "waiting task runs in the end, whichever workers crash or lose messages at whatever point. Nothing is left "
            "behind afterwards.",
  over=["schedules", "crash_points", "fault_sequences", "configurations"],
  text="limits 1-3, all ways of declaring them, tasks of any timing and duration with retries, workers, kills before "
       "or after any command, lost requests and replies, concentrated around hand-overs",
  why="Tests have two or three tasks on one worker and fabricate one or two crash states.",
  files=[DEPS + "_concurrency.py", WORKER],
  mechanism=[("atomic acquire or park", "_concurrency.py: _acquire_or_park"),
             ("hand-over to waiters", "_concurrency.py: _release_and_wake"),
             ("leases and safeguard", "_concurrency.py: _renew_lease_loop, _safeguard_wake")],
  observe=["running intervals journalled by bodies", "keys left in storage"],
  technique="fault-injecting simulation, interval invariants (safety, no idle slot, no lost task)",
  rule="tasks, workers and faults are generated; non-trivial: a task had to wait; with faults: the limit was reached "
       "and a fault really hit",
  assume=["a worker that is cut off for longer than its lease may still be running what it had started"])

P("P15",
  title="A cooldown runs the first task and drops those within its window",
  statement="Within a cooldown's scope (task, parameter and value, or given scope) no two tasks start within the window; a task that "
            "comes later than that runs; a task that comes within it is dropped, recorded as cancelled and never runs.",
  over=["schedules", "inputs", "configurations"],
  text="all ways of declaring cooldowns, one or two on a task, values, windows, submission times around the window's "
       "edge, several workers",
  why="Tests submit two tasks back to back.",
  files=[DEPS + "_cooldown.py", WORKER],
  mechanism=[("first one in sets the key", "_cooldown.py: __aenter__")],
  observe=["starts journalled by bodies", "recorded states"],
  technique="simulation in virtual time, window invariant and reason for every drop",
  rule="submissions are generated; non-trivial: a task was dropped")

P("P16",
  title="A debounced burst runs one task, once it has settled",
  statement="Of the tasks submitted to a debounce scope with gaps shorter than the settle time exactly one runs, not before the "
            "settle time has passed since the last of them and promptly after; the others are recorded as cancelled and never run. "
            "Crashes of workers do not lose a burst: something runs after every submission.",
  over=["schedules", "crash_points", "inputs"],
  text="generated bursts, scopes, settle times, several workers, kills at any time",
  why="Tests have one burst of two or three submissions and one worker.",
  files=[DEPS + "_debounce.py", WORKER],
  mechanism=[("winner and last-seen keys", "_debounce.py: _debounce")],
  observe=["starts journalled by bodies", "recorded states"],
  technique="simulation of generated bursts against a reference partition; crash injection",
  rule="bursts are generated; non-trivial: a burst had two submissions or more, or a worker was killed",
  assume=["gaps within a fraction of a second of the settle time are not judged",
          "the task waiting for the burst to settle is not itself cancelled by someone"])

P("P17",
  title="A rate limit holds in every window and delays or drops no more than it must",
  statement="In no window of the given length do more tasks of a rate limit's scope start than it allows. Without drop, every task "
            "runs, as early as the limit permits; with drop, exactly the tasks that find the window full are dropped, recorded "
            "as cancelled. A task that another dependency holds back does not use up a turn.",
  over=["schedules", "inputs", "configurations"],
  text="all ways of declaring limits, several values and tasks per scope, bursts and spread submissions, several "
       "workers, combination with concurrency limits",
  why="Tests exhaust one small limit once.",
  files=[DEPS + "_ratelimit.py", WORKER],
  mechanism=[("sliding window log", "_ratelimit.py: _ratelimit"), ("turn given back", "_ratelimit.py: __aexit__")],
  observe=["starts journalled by bodies", "recorded states"],
  technique="simulation in virtual time, sliding-window invariant, greedy reference schedule",
  rule="submissions are generated; non-trivial: a task was delayed or dropped, or shared a concurrency limit")

P("P18",
  title="Strikes stop exactly the calls they describe, until restored",
  statement="A call that a strike in force describes (task, parameter condition, or both) is refused when it is added, replaced or "
            "scheduled, leaving no trace, and is dropped, recorded as cancelled, when a worker reaches it, also as a retry. "
            "A call no strike describes is unaffected, whatever types are compared. "
            "Restoring a strike lifts that one and no other, and an automatic perpetual task comes back.",
  over=["inputs", "schedules", "configurations"],
  text="sequences of strikes, restores and submissions (all operators, value types, signatures, *args/**kwargs, due times) issued by two "
       "dockets",
  why="Tests check one strike and one or two calls at a time; which of many rules applies to which binding is an unbounded space.",
  files=["src/docket/strikelist.py", "src/docket/docket.py", WORKER],
  mechanism=[("decision", "strikelist.py: is_stricken, _is_match"), ("application", "strikelist.py: _strike, _restore"),
             ("refusal at submission", "docket.py: add, replace, schedule"), ("drop at the worker", "worker.py: _execute")],
  observe=["disposition and record after submission", "runs journalled by bodies", "recorded states"],
  technique="stateful generation against a reference model of the rules",
  rule="sequences are generated; non-trivial: a submission was struck")

P("P19",
  title="Everyone ends up with the strikes that were issued",
  statement="Once no more strikes are issued, every docket and strike list, whenever it joined and whatever was cut off meanwhile, holds "
            "exactly the strikes that the calls, in the order they are recorded, make. A member that has loaded the strikes "
            "holds those issued before it joined; a member's own call is in force when it returns.",
  over=["schedules", "fault_sequences", "histories"],
  text="2-4 members of either kind joining at any time, strikes and restores of few rules in bursts or spread, outages, lost "
       "requests and replies",
  why="Tests have one monitor and an undisturbed stream; they cannot order a member's own call against what it reads.",
  files=["src/docket/strikelist.py", "src/docket/docket.py"],
  mechanism=[("stream", "strikelist.py: send_instruction"), ("monitor", "strikelist.py: _monitor_strikes")],
  observe=["is_stricken() of every member", "strike stream"],
  technique="fault-injecting simulation, convergence against a fold of the recorded stream, staleness bound on every view",
  rule="members, calls and faults are generated; non-trivial: two calls or more took effect while others watched")

P("P20",
  title="A task gets the dependencies it declares, and they are released in order",
  statement="Every factory a task needs, directly or through other factories, is called exactly once per attempt, after those it depends on; "
            "the task and the factories get those values, or the ones the caller passed explicitly, which are then not resolved. "
            "Context managers are left in reverse order once the body is done, whatever happens, and what they raise or suppress "
            "counts as the task's outcome; if a factory fails, the body does not run and the attempt fails, naming its errors.",
  over=["inputs", "configurations", "schedules"],
  text="generated graphs of factories (functions and context managers, sync and async, contextual values, annotated dependencies), explicitly "
       "passed values, failures on entering, in the body and on leaving, retries, concurrent tasks",
  why="Tests use graphs of one to three factories, each with one failure.",
  files=[DEPS + "_resolution.py", DEPS + "_functional.py", DEPS + "_contextual.py", WORKER],
  mechanism=[("resolution", "_resolution.py: resolved_dependencies"), ("nested resolution", "_functional.py: _Depends"),
             ("outcome", "worker.py: _execute")],
  observe=["calls, enters and exits journalled by the factories", "recorded states and results"],
  technique="generated dependency graphs against invariants and a reference unwinding",
  rule="graphs and tasks are generated; non-trivial: two factories or more took part in a task")

P("P21",
  title="Shared dependencies live with their worker; its own ones wrap every task",
  statement="A shared factory is resolved at most once in a worker's lifetime (again only after failing), with that worker's context; every task of the worker gets "
            "the same instance; shared context managers are left in reverse order after the worker's last task, when it closes. "
            "Dependencies given to a worker wrap every attempt of every task, outermost and in order, without being passed to it; a policy "
            "such as a retry or timeout applies to every task, and one declared by both worker and task fails the task without running it.",
  over=["inputs", "configurations", "schedules"],
  text="graphs of shared factories, slow or failing, first used by several tasks at once; workers entered separately or together, on one or two "
       "dockets, stopped and restarted; generated lists of worker dependencies",
  why="Tests use one worker and resolve one shared factory twice.",
  files=[WORKER, DEPS + "_functional.py", DEPS + "_resolution.py"],
  mechanism=[("lifetime", "worker.py: __aenter__, _run"), ("worker dependencies", "_resolution.py: resolved_dependencies, detect_single_conflicts")],
  observe=["calls, enters and exits journalled by the factories", "recorded states"],
  technique="simulation of generated graphs and workers, invariants over each worker's journal",
  rule="graphs, workers and tasks are generated; non-trivial: two tasks of a worker used a shared factory, or the worker had dependencies of its own")

P("P22",
  title="A task's progress is what its current attempt has reported",
  statement="Whoever reads a task's progress, at any time and from any docket, sees the sum of the increments, parallel ones included, and the last total "
            "and message its current attempt has reported by then; each attempt starts afresh, after a crash too, and once the task has ended nothing is left. "
            "The task sees the same values in its Progress dependency, also while other runs of its function are under way. Subscribers get each report "
            "once, in order and with those values.",
  over=["inputs", "schedules", "histories", "crash points"],
  text="generated scripts of reports (totals, increments, parallel increments, messages, refused values) over attempts and runs of a key, several tasks of "
       "one function at once, readers and subscribers at generated times, workers killed and restarted",
  why="Tests report from one task at a time, one coroutine, first attempt, and read at fixed points.",
  files=[DEPS + "_progress.py", "src/docket/_execution_progress.py", EXEC],
  mechanism=[("reports", "_execution_progress.py: set_total, increment, set_message, _progress_write"), ("lifetime", "execution.py: _claim, _terminal, claim")],
  observe=["values read by observers", "the task's own view", "events received"],
  technique="simulation of generated report scripts, reads judged against the versions possible at that time",
  rule="scripts, reads and subscriptions are generated; non-trivial: a value was read midway, or reports were received")

P("P23",
  title="A worker keeps to its slots, drains when stopped, and knows when it is finished",
  statement="A worker never runs more tasks at once than its concurrency, across retries and respawns. Stopped gracefully, it begins nothing new, lets what it runs "
            "end, each once, however long that takes and whatever other workers do meanwhile, and then returns; what it did not run is left to others. "
            "run_until_finished returns once everything, future tasks and those spawned meanwhile included, is done, and not before; run_at_most runs each "
            "limited key at most that often, everything else to the end, and leaves nothing of the limit behind.",
  over=["schedules", "histories", "configurations"],
  text="1-3 workers with several sessions each, stopped at generated times by cancellation or by leaving the context, immediate, delayed, long, retried and "
       "spawning tasks, short redelivery timeouts; generated limits over plain, perpetual and self-rescheduling keys",
  why="Tests stop one idle or briefly busy worker; none lets a task outlive the redelivery timeout while draining.",
  files=[WORKER],
  mechanism=[("loop", "worker.py: _worker_loop"), ("leases", "worker.py: _renew_leases"), ("limit", "worker.py: run_at_most")],
  observe=["starts and ends per worker", "return of the run calls", "backlog", "recorded states"],
  technique="simulation of generated workers and tasks, invariants over each worker's journal",
  rule="workers, sessions and tasks are generated; non-trivial: a worker was stopped while busy or finished a docket with tasks, or some key was limited")

P("P24",
  title="Clearing a docket removes what is pending and nothing else",
  statement="After clear() returns, nothing that was pending when it was called runs, whether due, future, being moved or between attempts, and its keys can be used again; "
            "tasks that are running are not disturbed, and a task submitted during or after the call is not lost. "
            "The number returned is the number of pending tasks removed.",
  over=["schedules", "histories"],
  text="clears at generated times, up to three, one after another or at once, amid additions and replacements of few keys, running tasks and retries, 1-2 workers",
  why="Tests clear a docket nobody else is using.",
  files=["src/docket/docket.py", EXEC, WORKER],
  mechanism=[("clear", "docket.py: clear"), ("superseded copies", "worker.py: _execute; execution.py: claim")],
  observe=["starts and ends", "disposition of later submissions", "returned counts"],
  technique="simulation of generated histories, invariants per task and clear",
  rule="submissions and clears are generated; non-trivial: something certainly pending was cleared")

P("P25",
  title="A snapshot shows every task where it is, and the workers that are alive",
  statement="A snapshot lists a future task among the future with its name, arguments and time, and a running one among the running with its worker and start, each once; "
            "a finished or not yet submitted one not at all, whether or not the caller knows the task. "
            "workers() and task_workers() list every worker that has been running for a heartbeat, with the tasks it knows, and none that stopped, "
            "or that has been dead for the configured number of missed heartbeats.",
  over=["schedules", "crash points", "configurations"],
  text="snapshots and listings at generated times, by dockets that know the tasks or not, amid workers with different tasks starting, stopping and being killed, "
       "delayed, running and retried tasks under several names",
  why="Tests take snapshots of a still docket with at most one worker.",
  files=["src/docket/_docket_snapshot.py", WORKER],
  mechanism=[("snapshot", "_docket_snapshot.py: snapshot"), ("listing", "_docket_snapshot.py: workers, task_workers"), ("heartbeat", "worker.py: _heartbeat")],
  observe=["snapshots and worker listings"],
  technique="simulation, each look judged against what the journal says must and may be seen then",
  rule="tasks, workers and looks are generated; non-trivial: something certainly running, future or alive was looked at")

P("P26",
  title="An agenda scatters its tasks evenly over the window, each once",
  statement="scatter() schedules the i-th of n tasks at start + over*i/(n-1) (a single one in the middle), off by at most the jitter and never before start, with its own "
            "name, arguments and key, and each runs once, not before its time. Scattering again leaves tasks whose key is still pending as they are and schedules the others anew. "
            "With an unregistered name or a window that is not positive, nothing is scheduled; a struck task is skipped without affecting the rest.",
  over=["inputs", "histories"],
  text="agendas of 0-30 tasks given by function or any of their names, keys shared between entries, repeated scatters, starts in the past and future in several zones, strikes",
  why="Tests scatter two or three tasks of one function once.",
  files=["src/docket/agenda.py", "src/docket/docket.py"],
  mechanism=[("scatter", "agenda.py: scatter")],
  observe=["returned executions", "starts"],
  technique="generated agendas against the arithmetic of the schedule, and simulation of their runs",
  rule="agendas and calls are generated; non-trivial: an agenda of two tasks or more was scattered")

P("P27",
  title="What a task leaves in storage lasts as configured, and then goes",
  statement="While a task is pending or running its record stays readable, however long that takes and whatever its key was used for before. "
            "Once it has ended, its state and result stay readable for the docket's execution_ttl and are gone soon after. "
            "Once everything has ended, nothing but the docket's own fixed structures is left without an expiry, whichever tasks failed, were retried, parked, dropped, "
            "replaced, cancelled, cleared or struck, or lost their worker.",
  over=["histories", "crash points", "configurations"],
  text="histories of adds, replacements, cancellations, clears and strikes on shared keys, over tasks with every kind of policy, amid crashes, for execution_ttl from 0 up; "
       "keys used again and again with waits and runs beyond the execution_ttl",
  why="The tests' leak checker looks at what single tests leave; lifetimes are hardly waited for.",
  files=[EXEC, "src/docket/docket.py", "src/docket/dependencies/"],
  mechanism=[("expiry", "execution.py: _terminal, _schedule; docket.py: _cancel_task, _clear_tasks"), ("policies' keys", "dependencies/_concurrency.py, _debounce.py, _ratelimit.py, _cooldown.py")],
  observe=["the keys in storage and their time to live", "records and results as read by get_execution() and get_result()"],
  technique="simulation; every key in storage is judged once all is done, and records are watched from submission to expiry",
  rule="histories are generated; non-trivial: something was left to expire, or a key was used more than once")

P("P28",
  title="Dockets that share one storage know nothing of each other",
  statement="Whatever is done in one docket (submitting, replacing, cancelling or clearing tasks of the same keys and functions, striking them, starting and stopping workers of the same name), "
            "the tasks of another docket in the same storage run once, on time, with their own arguments and results, uninterrupted and by its own workers; its limits, windows and strikes, "
            "its watchers and its snapshots and worker listings reflect only itself. This holds whatever characters the two names contain.",
  over=["histories", "configurations"],
  text="pairs of docket names that are prefixes, patterns, or quoted forms of each other; histories of everything in one of them while the other one works",
  why="Tests use two dockets with unrelated names and one operation each.",
  files=[DOCKET, WORKER, "src/docket/dependencies/"],
  mechanism=[("naming", "docket.py: prefix, key, cancellation_pattern"), ("scopes", "dependencies/*.py: __aenter__")],
  observe=["starts, results, events, snapshots and listings of the quiet docket"],
  technique="simulation with two dockets; the quiet one is judged as though it were alone",
  rule="names, tasks and histories are generated; non-trivial: something was done in the other docket")

P("P29",
  title="A task that goes wrong harms neither its worker nor other tasks",
  statement="Whatever exception a task or its dependencies raise, whatever it returns or asks for (a retry, a next run), and whether or not its function is known or its arguments fit, "
            "can be read, shown or compared, its worker stays up and serves other tasks as promptly as ever. "
            "The task itself ends: failed (after its attempts), or cancelled if it cancelled itself, with a record and a result that say so. "
            "A task of an unknown function goes to the worker's fallback_task, with its arguments, once.",
  over=["inputs", "configurations"],
  text="tasks with some fifty kinds of trouble, alone and together, with retries and timeouts, on one or two workers, with each kind of fallback; control tasks beside and after them",
  why="Tests use well-behaved exceptions and arguments, one at a time.",
  files=[WORKER, EXEC, "src/docket/dependencies/", "src/docket/strikelist.py"],
  mechanism=[("failures", "worker.py: _execute, process_completed_tasks"), ("fallback", "execution.py: from_message")],
  observe=["workers ending", "runs of bodies and of the fallback", "states, errors and results"],
  technique="simulation; generated mixtures of troubled and control tasks, judged by a table of outcomes",
  rule="mixtures are generated; non-trivial: a task did something other than succeed")

P("P30",
  title="Arguments show in logs and traces only if their parameter is declared Logged",
  statement="Whatever a function's signature, however it is called and however the task ends, no value of a parameter that isn't annotated Logged appears in any log record or span of docket's, "
            "nor what is in a value annotated Logged(length_only=True). "
            "The lines that tell of a task's start and end show each argument declared Logged, by its repr or its length, in the form of the call, and '...' for the others.",
  over=["inputs", "configurations"],
  text="signatures of all kinds of parameters, each declared in some way, called with arguments by position and by name, given or left out, too many, unknown; tasks that end in any way",
  why="Tests log a few calls of fixed functions.",
  files=[EXEC, "src/docket/annotations.py", WORKER, "src/docket/strikelist.py"],
  mechanism=[("call_repr", "execution.py: call_repr"), ("formats", "annotations.py: Logged.format")],
  observe=["log records at all levels", "spans, their attributes, events and status"],
  technique="simulation; markers planted in every argument are searched for in all output",
  rule="calls are generated; non-trivial: some arguments were to be shown and some not")

P("P31",
  title="Metrics and traces agree with what happened",
  statement="Tasks started, succeeded, failed, retried, perpetuated, added, replaced, scheduled, cancelled and stricken are counted once each, under their function and worker; every start is matched by a completion, "
            "the running gauge is at any time the number of tasks running, durations and punctualities are those of the runs, and the depth gauges those of the docket. "
            "Every run has a span of its own, which is current in the task's body, has the status of its outcome, and links back to the call that asked for it, also if that was for later.",
  over=["histories", "configurations"],
  text="histories of adds, replacements and cancellations of tasks that succeed, fail, are retried, perpetual, limited or struck, immediate and delayed, on one or two workers",
  why="Tests check single increments against a mock; spans of delayed and retried tasks are not followed.",
  files=[WORKER, "src/docket/docket.py", EXEC, "src/docket/instrumentation.py"],
  mechanism=[("counters", "worker.py: _execute; docket.py: add, replace, cancel"), ("links", "execution.py: schedule, incoming_span_links; worker.py: _stream_due_tasks")],
  observe=["metrics as read by an SDK reader", "finished spans"],
  technique="simulation under the OpenTelemetry SDK; metrics and spans are compared with a journal",
  rule="histories are generated; non-trivial: tasks ran more than once")

P("P32",
  title="Every kind of Redis deployment is served alike, through restarts and failovers",
  statement="What docket guarantees on its in-memory backend holds as well over RESP2 and RESP3 connections to a single server, a cluster, or a master watched by Sentinels, whatever dockets, scopes and argument values are called: on a cluster no request or script touches two slots. "
            "After connections are reset, servers restart (their script cache empty), can't be reached for a while, fail over, or move their slots, accepted tasks still run to their end. "
            "Workers that had nothing to do then are still up, and take, cancel and schedule tasks as before.",
  over=["histories", "faults", "configurations"],
  text="the histories of most other properties, over each kind of deployment; tasks in progress or idle workers while servers are disturbed in generated ways at generated times; generated names, scopes and argument values",
  why="The suite here runs on one backend at a time, and never disturbs a server under a worker.",
  files=["src/docket/_redis.py", "src/docket/_lua.py", WORKER, "src/docket/docket.py", DEPS],
  mechanism=[("connections", "_redis.py: RedisConnection"), ("reconnection", "worker.py: _run_as_current, _worker_loop"), ("key names", "docket.py: key, prefix; dependencies/")],
  observe=["runs and outcomes of tasks", "workers ending", "the slots of keys that requests and scripts use"],
  technique="simulation with redis-py over a simulated network and server; the other properties' oracles again",
  rule="histories are generated; non-trivial: see each part's rule")

P("P33",
  title="The command line shows what is on a docket, and does what it is told",
  statement="`docket snapshot`, `docket workers ls` and `docket workers for-task` show every task and worker that is there, where and when, as it is named, whatever characters the names hold; `docket watch` follows a task however long nothing happens, shows its state, worker, error and progress, and ends soon after the task is over and not before. "
            "`docket strike` and `docket restore` act on exactly the calls described, with values of the types written; `docket tasks` adds one task, due after the delay written; `docket clear` empties the docket and says how much it held. "
            "`docket worker` works as its options or environment variables say.",
  over=["inputs", "histories"],
  text="generated names, keys, messages, values, delays and options; tasks running, waiting, retried, failing, cancelled or over at the time of a command; watches begun before, while and after a task runs",
  why="The tests of the command line use plain names and tasks that end within a second, and most need a Redis server.",
  files=["src/docket/cli/__init__.py", "src/docket/cli/_support.py", "src/docket/_docket_snapshot.py"],
  mechanism=[("commands", "cli/__init__.py"), ("values, durations, tables", "cli/_support.py"), ("what is there", "_docket_snapshot.py: snapshot, workers")],
  observe=["exit status and output of commands", "frames that a watch draws", "runs of tasks", "the docket's contents"],
  technique="the real commands as processes of the simulated deployment; journals and a model of strikes as oracles",
  rule="histories are generated; non-trivial: see each part's rule")

P("P34",
  title="A docket goes where its URL says, as who it says, and nowhere else",
  statement="Every connection that a docket or worker opens (for commands, results, cancellations, subscriptions and publishing) goes to the servers its URL names, with the account, TLS settings and protocol it names, and everything is kept in the database it names; URLs that say the same differently lead to the same docket, and ones that can't be understood are refused. "
            "A Sentinel URL leads to the master as long as one of its Sentinels answers. "
            "Different memory URLs and event loops have servers of their own.",
  over=["inputs", "configurations", "schedules"],
  text="kinds of deployment, hosts, ports, IPv6, databases, accounts and passwords of any characters and the ways to escape them, TLS with any certificate, options, Sentinels that are away, failovers",
  why="Tests use one plain URL, and parse a few Sentinel URLs; whether each connection of a docket honours all of the URL shows only against servers that insist on it.",
  files=["src/docket/_redis.py", "src/docket/_redis_sentinel.py", "src/docket/_result_store.py"],
  mechanism=[("connection pools", "_redis.py: RedisConnection"), ("Sentinel URLs and pools", "_redis_sentinel.py"), ("results", "_result_store.py: ResultStorage")],
  observe=["addresses called, accounts and databases used by commands", "what tasks, watchers, cancellations and strikes do", "parse_sentinel_url()"],
  technique="simulated servers that refuse whoever comes otherwise; round-trip of generated URLs",
  rule="places and ways to write their URLs are generated; non-trivial: see each part's rule")

P("P35",
  title="The assertions of docket.testing pass exactly when what they assert is so",
  statement="assert_task_scheduled, assert_task_not_scheduled, assert_task_count and assert_no_tasks pass exactly when what is asserted holds for the tasks that are waiting, due now or later, retried or perpetuated ones included, and running, cancelled, replaced and finished ones not: "
            "the function, by itself or by name, the key, all positional and the given keyword arguments. A failed one says why, and asking changes nothing.",
  over=["histories", "inputs"],
  text="submissions, replacements, cancellations, failures and ends of tasks with generated arguments, then assertions with criteria taken from a task, part of it, or none",
  why="The helpers' tests assert about one or two immediate tasks at a time.",
  files=["src/docket/testing.py", "src/docket/_docket_snapshot.py"],
  mechanism=[("criteria", "testing.py: _matches_criteria"), ("what is waiting", "_docket_snapshot.py: snapshot")],
  observe=["which assertions raise"],
  technique="generated histories against a model of what waits",
  rule="histories and criteria are generated; non-trivial: an assertion with criteria matched a task")
