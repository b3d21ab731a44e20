From 0c35be9402ec130b4cf10d9747b485112864d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 01/69] fix: keep exponential retries going once the backoff
 exceeds what a timedelta holds

---
 src/docket/dependencies/_retry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 6f3592b..ac606e9 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -205,7 +205,10 @@ class ExponentialRetry(Retry):
 
         if execution.attempt > 1:
             backoff_factor = 2 ** (execution.attempt - 1)
-            calculated_delay = self.delay * backoff_factor
+            try:
+                calculated_delay = self.delay * backoff_factor
+            except OverflowError:
+                calculated_delay = self.maximum_delay
 
             if calculated_delay > self.maximum_delay:
                 retry.delay = self.maximum_delay
-- 
2.43.0


From 3927e84e1f8710efcde4c253f92fd968fc7acdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 02/69] fix: start every scheduling of a key with a fresh run
 record

A re-added or replaced key kept the TTL and the outcome fields of the key's
previous run: a task due after the remaining TTL was silently dropped as
superseded, and get_result() returned the previous run's value.
---
 src/docket/execution.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index eeded38..4fcdbed 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -196,8 +196,13 @@ async def _schedule(
         end
     end
 
-    -- Increment generation counter
-    local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+    -- Increment generation counter.  Nothing else of a previous run of this
+    -- key may carry over: not its outcome (error, result_key, completed_at),
+    -- and not the TTL that run left on the hash, which could otherwise expire
+    -- before this execution is due and make it look superseded.
+    local previous_gen = tonumber(redis.call('HGET', runs_key, 'generation') or 0)
+    redis.call('DEL', runs_key)
+    local new_gen = redis.call('HINCRBY', runs_key, 'generation', previous_gen + 1)
     if generation_index then
         message[generation_index] = tostring(new_gen)
     end
-- 
2.43.0


From 3986424aa1d9798e1709704d388b42376561bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 03/69] fix: never run a cancelled task whose message is
 already in the stream

Tasks moved from the queue to the stream had no stream_id recorded, so
cancel() could not remove them; and a task cancelled between delivery and
claim still ran.
---
 src/docket/execution.py | 12 +++++++++++-
 src/docket/worker.py    |  7 ++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 4fcdbed..58320eb 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -290,6 +290,16 @@ async def _claim(
         end
     end
 
+    -- A task that was cancelled after a worker received its message, but
+    -- before it was claimed, must not run.
+    if redis.call('HGET', runs_key, 'state') == 'cancelled' then
+        if message_id ~= '' then
+            redis.call('XACK', stream_key, worker_group_name, message_id)
+            redis.call('XDEL', stream_key, message_id)
+        end
+        return 'SUPERSEDED'
+    end
+
     -- Update execution state to running
     redis.call('HSET', runs_key,
         'state', 'running',
@@ -775,7 +785,7 @@ class Execution:
             worker: Name of the worker claiming the task
 
         Returns:
-            True if the task was claimed, False if it was superseded.
+            True if the task was claimed, False if it was superseded or cancelled.
         """
         started_at = datetime.now(timezone.utc)
         started_at_iso = started_at.isoformat()
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 567f714..ffb7f81 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,7 +192,7 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                redis.call('XADD', stream_key, '*',
+                local message_id = redis.call('XADD', stream_key, '*',
                     'key', task['key'],
                     'when', task['when'],
                     'function', task['function'],
@@ -203,9 +203,10 @@ async def _stream_due_tasks(
                 )
                 redis.call('DEL', hash_key)
 
-                -- Set run state to queued
+                -- Set run state to queued, and record where the message is so
+                -- that cancel() and replace() can remove it from the stream
                 local run_key = docket_prefix .. ":runs:" .. task['key']
-                redis.call('HSET', run_key, 'state', 'queued')
+                redis.call('HSET', run_key, 'state', 'queued', 'stream_id', message_id)
 
                 -- Publish state change event to pub/sub
                 local channel = docket_prefix .. ":state:" .. task['key']
-- 
2.43.0


From fb47f4f34f043034cf87a6b85c166f408de1cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 04/69] fix: announce cancellations and expire the tombstone
 atomically

Nothing published the cancelled state of a task that wasn't running, so
get_result() and subscribe() waited forever.  And the separate EXPIRE/DEL
of the tombstone could hit a concurrent re-scheduling of the same key.
---
 src/docket/docket.py | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ad8e775..d583c5c 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,4 +1,5 @@
 import importlib
+import json
 import logging
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
@@ -74,8 +75,11 @@ async def _cancel_task(
     stream_id_key: Key[str],
     runs_key: Key[str],
     progress_key: Key[str],
+    state_channel: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    ttl_seconds: Arg[int],
+    state_payload: Arg[str],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -111,6 +115,21 @@ async def _cancel_task(
     local current_state = redis.call('HGET', runs_key, 'state')
     if current_state ~= 'completed' and current_state ~= 'failed' and current_state ~= 'cancelled' then
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+
+        -- Tell whoever is waiting on this task.  For a running task, the
+        -- worker publishes the terminal state once the task has stopped.
+        if current_state ~= 'running' then
+            redis.call('PUBLISH', state_channel, state_payload)
+        end
+    end
+
+    -- Apply TTL or delete tombstone based on execution_ttl, in this same step
+    -- so that it can never hit a later scheduling of the same key
+    if ttl_seconds > 0 then
+        redis.call('EXPIRE', runs_key, ttl_seconds)
+    else
+        -- execution_ttl=0 means no observability - delete tombstone immediately
+        redis.call('DEL', runs_key)
     end
 
     return 'OK'
@@ -754,6 +773,18 @@ class Docket(DocketSnapshotMixin):
         completed_at = datetime.now(timezone.utc).isoformat()
         task_runs_key = self.runs_key(key)
 
+        ttl_seconds = (
+            int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
+        )
+        state_payload = json.dumps(
+            {
+                "type": "state",
+                "key": key,
+                "state": "cancelled",
+                "completed_at": completed_at,
+            }
+        )
+
         # Execute the cancellation script
         await _cancel_task(
             redis,
@@ -764,18 +795,13 @@ class Docket(DocketSnapshotMixin):
             stream_id_key=self.stream_id_key(key),
             runs_key=task_runs_key,
             progress_key=self.key(f"progress:{key}"),
+            state_channel=self.key(f"state:{key}"),
             task_key=key,
             completed_at=completed_at,
+            ttl_seconds=ttl_seconds,
+            state_payload=state_payload,
         )
 
-        # Apply TTL or delete tombstone based on execution_ttl
-        if self.execution_ttl:
-            ttl_seconds = int(self.execution_ttl.total_seconds())
-            await redis.expire(task_runs_key, ttl_seconds)
-        else:
-            # execution_ttl=0 means no observability - delete tombstone immediately
-            await redis.delete(task_runs_key)
-
     async def strike(
         self,
         function: Callable[P, Awaitable[R]] | str | None = None,
-- 
2.43.0


From decf065866f34fa5e12f1c962afa1e5ca955b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 05/69] fix: subscribe before reading the state, so
 get_result() can't miss the end

An execution that finished between reading its state and the SUBSCRIBE was
never noticed, and get_result() waited forever.
---
 src/docket/execution.py | 69 +++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 58320eb..d5f3309 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1129,45 +1129,48 @@ class Execution:
             - For state events: type="state", state, worker, timestamps, error
             - For progress events: type="progress", current, total, message, updated_at
         """
-        # First, emit the current state
-        await self.sync()
-
-        # Build initial state event from current attributes
-        initial_state: StateEvent = {
-            "type": "state",
-            "key": self.key,
-            "state": self.state,
-            "when": self.when.isoformat(),
-            "worker": self.worker,
-            "started_at": self.started_at.isoformat() if self.started_at else None,
-            "completed_at": (
-                self.completed_at.isoformat() if self.completed_at else None
-            ),
-            "error": self.error,
-        }
-
-        yield initial_state
-
-        progress_event: ProgressEvent = {
-            "type": "progress",
-            "key": self.key,
-            "current": self.progress.current,
-            "total": self.progress.total,
-            "message": self.progress.message,
-            "updated_at": self.progress.updated_at.isoformat()
-            if self.progress.updated_at
-            else None,
-        }
-
-        yield progress_event
-
-        # Then subscribe to real-time updates
+        # Subscribe before reading the current state: an update published in
+        # between is buffered by the subscription rather than missed.
         state_channel = self.docket.key(f"state:{self.key}")
         progress_channel = self.docket.key(f"progress:{self.key}")
         async with self.docket._pubsub() as pubsub:
             await pubsub.subscribe(state_channel, progress_channel)
             if ready is not None:
                 ready.set()
+
+            # First, emit the current state
+            await self.sync()
+
+            # Build initial state event from current attributes
+            initial_state: StateEvent = {
+                "type": "state",
+                "key": self.key,
+                "state": self.state,
+                "when": self.when.isoformat(),
+                "worker": self.worker,
+                "started_at": self.started_at.isoformat() if self.started_at else None,
+                "completed_at": (
+                    self.completed_at.isoformat() if self.completed_at else None
+                ),
+                "error": self.error,
+            }
+
+            yield initial_state
+
+            progress_event: ProgressEvent = {
+                "type": "progress",
+                "key": self.key,
+                "current": self.progress.current,
+                "total": self.progress.total,
+                "message": self.progress.message,
+                "updated_at": self.progress.updated_at.isoformat()
+                if self.progress.updated_at
+                else None,
+            }
+
+            yield progress_event
+
+            # Then emit real-time updates
             async for message in pubsub.listen():  # pragma: no cover
                 if message["type"] == "message":
                     message_data = json.loads(message["data"])
-- 
2.43.0


From 703b78f5935db367629ca34f2210ec37e3b3499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 06/69] fix: let a newer schedule of a key win over
 rescheduling the running attempt

Retrying (or re-queueing) an attempt whose key was replaced while it ran
overwrote the replacement, which then never ran.
---
 src/docket/execution.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index d5f3309..18a98c9 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -70,6 +70,7 @@ async def _schedule(
     is_immediate: Arg[bool],
     replace: Arg[bool],
     reschedule_message_id: Arg[bytes],
+    generation: Arg[int],
     worker_group_name: Arg[str],
     state_payload: Arg[str],
     message: Args[dict[bytes, bytes]],
@@ -115,6 +116,15 @@ async def _schedule(
         redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)
         redis.call('XDEL', stream_key, reschedule_message_id)
 
+        -- A newer schedule of this key (e.g. docket.replace() while this
+        -- attempt was running) wins over rescheduling the older one.
+        if generation > 0 then
+            local current_gen = redis.call('HGET', runs_key, 'generation')
+            if current_gen and tonumber(current_gen) > generation then
+                return 'SUPERSEDED'
+            end
+        end
+
         -- Increment generation counter
         local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
         if generation_index then
@@ -745,6 +755,7 @@ class Execution:
                     is_immediate=is_immediate,
                     replace=replace,
                     reschedule_message_id=reschedule_message or b"",
+                    generation=self._generation,
                     worker_group_name=self.docket.worker_group_name,
                     state_payload=state_payload,
                     message=message,
@@ -756,17 +767,22 @@ class Execution:
             self.disposition = Disposition.ALREADY_SCHEDULED
             return self.disposition
 
-        if is_immediate:
-            self.state = ExecutionState.QUEUED
-        else:
-            self.state = ExecutionState.SCHEDULED
-
         # The reschedule branch in `_schedule` XACKed and XDELed the original
         # stream message, so any caller passing in our own message_id has
         # implicitly retired this Execution's pending entry.
         if reschedule_message and reschedule_message == self.message_id:
             self._acked = True
 
+        if reply in (b"SUPERSEDED", "SUPERSEDED"):
+            # A newer schedule for this key exists and was left untouched.
+            self.disposition = Disposition.ALREADY_SCHEDULED
+            return self.disposition
+
+        if is_immediate:
+            self.state = ExecutionState.QUEUED
+        else:
+            self.state = ExecutionState.SCHEDULED
+
         self.disposition = Disposition.SCHEDULED
         return self.disposition
 
-- 
2.43.0


From 9f3a95f9ec03475ed88a341b0c795c566891073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 07/69] fix: keep parked tasks deduplicated, and let
 replacements of them win

While a task waited for a concurrency slot, add() with the same key wasn't
recognized as a duplicate, and waking the waiter revived the old payload
over whatever the key had been rescheduled to.
---
 src/docket/dependencies/_concurrency.py | 50 ++++++++++++++++++-------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 30ffa6c..0a29f0b 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -103,6 +103,15 @@ async def _acquire_or_park(
     redis.call('XACK', stream_key, worker_group_name, message_id)
     redis.call('XDEL', stream_key, message_id)
 
+    -- If the task was rescheduled (e.g. by docket.replace()) after it was
+    -- claimed, the newer schedule wins and there is nothing left to park.
+    local current_gen = tonumber(redis.call('HGET', runs_key, 'generation') or 0)
+    for i = message_start, #ARGV, 2 do
+        if ARGV[i] == 'generation' and current_gen > tonumber(ARGV[i + 1]) then
+            return 0
+        end
+    end
+
     -- Bump generation so stale redeliveries of this task are superseded on wake,
     -- and splice the new value into the message as we forward it.
     local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
@@ -128,8 +137,11 @@ async def _acquire_or_park(
 
     -- Record the waiter's location so the dependency's cancel subscriber can
     -- find and XDEL the waiter entry when the task transitions to 'cancelled'.
+    -- A parked task is still pending: 'known' (deleted at claim time) makes
+    -- add() dedup against it.
     redis.call('HSET', runs_key,
         'state', 'scheduled',
+        'known', current_time,
         'waiter_stream', waiters_stream,
         'waiter_entry_id', waiter_entry_id,
         'function', function_name,
@@ -216,19 +228,24 @@ async def _release_and_wake(
 
             local runs_key = runs_prefix .. waiter_task_key
 
-            -- Forward only if the task is still in the parked state.  Anything
-            -- else -- 'cancelled', a missing runs hash (DELed by a cancel with
-            -- execution_ttl=0), or any other terminal state -- means the task
-            -- has been superseded and must not be revived.  Drop the waiter
-            -- entry without forwarding.
+            -- Forward only if the task is still in the parked state, and parked
+            -- as this very entry.  Anything else -- 'cancelled', a missing runs
+            -- hash (DELed by a cancel with execution_ttl=0), any other terminal
+            -- state, or a newer schedule of the same key -- means the task has
+            -- been superseded and must not be revived.  Drop the waiter entry
+            -- without forwarding.
             local current_state = redis.call('HGET', runs_key, 'state')
+            local current_entry = redis.call('HGET', runs_key, 'waiter_entry_id')
             local safeguard_key = '__safeguard__:' .. waiter_task_key
-            if current_state ~= 'scheduled' then
+            if current_state ~= 'scheduled' or current_entry ~= waiter_id then
                 redis.call('XDEL', waiters_stream, waiter_id)
-                -- Cancelled/superseded waiter: drop its safeguard backstop too.
-                redis.call('ZREM', queue_key, safeguard_key)
-                redis.call('DEL', parked_prefix .. safeguard_key)
-                redis.call('DEL', runs_prefix .. safeguard_key)
+                -- Cancelled/superseded waiter: drop its safeguard backstop too,
+                -- unless the same key has parked again since and relies on it.
+                if current_state ~= 'scheduled' or not current_entry then
+                    redis.call('ZREM', queue_key, safeguard_key)
+                    redis.call('DEL', parked_prefix .. safeguard_key)
+                    redis.call('DEL', runs_prefix .. safeguard_key)
+                end
             else
                 local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
                 for i = 1, #fields, 2 do
@@ -337,12 +354,17 @@ async def _scavenge_and_wake(
 
         -- Skip cancelled/superseded waiters: drop the entry without forwarding.
         local current_state = redis.call('HGET', runs_key, 'state')
+        local current_entry = redis.call('HGET', runs_key, 'waiter_entry_id')
         local safeguard_key = '__safeguard__:' .. waiter_task_key
-        if current_state ~= 'scheduled' then
+        if current_state ~= 'scheduled' or current_entry ~= waiter_id then
             redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
+            -- Cancelled/superseded waiter: drop its safeguard backstop too,
+            -- unless the same key has parked again since and relies on it.
+            if current_state ~= 'scheduled' or not current_entry then
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
+            end
         else
             local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
             for i = 1, #fields, 2 do
-- 
2.43.0


From a91cecad5ecb1780820992acce369475b5648224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 08/69] fix: don't tear down a waiter that parked again after
 its cancellation

---
 src/docket/dependencies/_concurrency.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 0a29f0b..b6c15e2 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -409,8 +409,14 @@ async def _cancel_cleanup(
     progress_key: Key[str],
     runs_key: Key[str],
     waiter_entry_id: Arg[str],
-) -> None:
+) -> int:
     """
+    -- The task may have been scheduled, and parked, again since the
+    -- cancellation was published: that waiter must stay.
+    if redis.call('HGET', runs_key, 'state') == 'scheduled' then
+        return 0
+    end
+
     -- Atomically tear down a cancelled task's waiter footprint.  Invoked
     -- by ConcurrencyLimit's pubsub-driven cancel subscriber after
     -- Docket.cancel flips the task to 'cancelled'.
@@ -426,6 +432,7 @@ async def _cancel_cleanup(
     redis.call('DEL', progress_key)
 
     redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+    return 1
     """
     ...
 
@@ -763,13 +770,15 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 return
             waiter_stream = waiter_stream_b.decode()
             waiter_entry_id = waiter_entry_id_b.decode()
-            await _cancel_cleanup(
+            cleaned_up = await _cancel_cleanup(
                 redis,
                 waiters_stream=waiter_stream,
                 progress_key=f"{docket.prefix}:progress:{task_key}",
                 runs_key=runs_key,
                 waiter_entry_id=waiter_entry_id,
             )
+        if not cleaned_up:
+            return
         # Drop the safeguard task this waiter scheduled at park time.
         # Cancelling routes through the same cancel pubsub we're subscribed
         # to, but the resulting cleanup callback for the safeguard's own
-- 
2.43.0


From e1430c4b4318fba29dc86cda7959a4284dcf150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 09/69] fix: a task raising an exception that can't be pickled
 no longer ends the worker

---
 src/docket/worker.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index ffb7f81..ef3222d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1215,8 +1215,20 @@ class Worker:
 
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
+                    pickled_exception = None
                     if self.docket.execution_ttl:
-                        pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
+                        try:
+                            pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
+                        except Exception:
+                            # The task still failed, with the error message
+                            # below, even if its exception can't be stored
+                            logger.warning(
+                                "Unable to store the exception of %s",
+                                call,
+                                exc_info=True,
+                                extra=log_context,
+                            )
+                    if pickled_exception is not None:
                         # Base64-encode for JSON serialization
                         encoded_exception = base64.b64encode(pickled_exception).decode(
                             "ascii"
-- 
2.43.0


From b147e4bacb7429b5dfe358b13e8d1d66afce3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 10/69] fix: get_result() reports the task's error when its
 exception can't be unpickled

---
 src/docket/execution.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 18a98c9..a0f1da9 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1043,8 +1043,18 @@ class Execution:
                 if result_data and "data" in result_data:
                     # Base64-decode and unpickle
                     pickled_exception = base64.b64decode(result_data["data"])
-                    exception = cloudpickle.loads(pickled_exception)
-                    raise exception
+                    try:
+                        exception = cloudpickle.loads(pickled_exception)
+                    except Exception:
+                        # Not every exception survives pickling (e.g. ones whose
+                        # __init__ takes other arguments than their ``args``)
+                        logger.warning(
+                            "Unable to load the exception of %r",
+                            self.key,
+                            exc_info=True,
+                        )
+                    else:
+                        raise exception
             # If no stored exception, raise a generic error with the error message
             error_msg = self.error or "Task execution failed"
             raise Exception(error_msg)
-- 
2.43.0


From 59deeb95dd426c8d2f29c3bfdfa9fc9c60bf19ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 11/69] fix: striking one parameter of a struck task no longer
 lifts the task's own strike

---
 src/docket/strikelist.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8d9c477..5550bd7 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -169,6 +169,7 @@ class StrikeList:
 
     task_strikes: TaskStrikes
     parameter_strikes: ParameterStrikes
+    _struck_tasks: set[str]
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
@@ -195,6 +196,7 @@ class StrikeList:
         self.name = name
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.task_strikes = {}
+        self._struck_tasks = set()
         self.parameter_strikes = {}
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
@@ -384,10 +386,11 @@ class StrikeList:
         function_name = execution.function_name
 
         # Check if the entire task is stricken (without parameter conditions)
-        task_strikes = self.task_strikes.get(function_name, {})
-        if function_name in self.task_strikes and not task_strikes:
+        if function_name in self._struck_tasks:
             return True
 
+        task_strikes = self.task_strikes.get(function_name, {})
+
         signature = get_signature(execution.function)
 
         try:
@@ -481,10 +484,8 @@ class StrikeList:
             parameter_strikes.add((strike.operator, strike.value))
 
         elif strike.function:
-            try:
-                task_strikes = self.task_strikes[strike.function]
-            except KeyError:
-                task_strikes = self.task_strikes[strike.function] = {}
+            self._struck_tasks.add(strike.function)
+            self.task_strikes.setdefault(strike.function, {})
 
         elif strike.parameter:  # pragma: no branch
             try:
@@ -514,7 +515,7 @@ class StrikeList:
 
             if not parameter_strikes:
                 task_strikes.pop(restore.parameter, None)
-                if not task_strikes:
+                if not task_strikes and restore.function not in self._struck_tasks:
                     self.task_strikes.pop(restore.function, None)
 
         elif restore.function:
@@ -523,7 +524,9 @@ class StrikeList:
             except KeyError:
                 return
 
-            # If there are no parameter strikes, this was a full task strike
+            self._struck_tasks.discard(restore.function)
+
+            # Any parameter strikes of this task stay in effect
             if not task_strikes:
                 self.task_strikes.pop(restore.function, None)
 
-- 
2.43.0


From a3644e9c539a1e443b1eb0955cadb5f1b0179a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 12/69] fix: keep a running task cancellable when an older run
 of its key finishes

---
 src/docket/worker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index ef3222d..5fd1213 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -696,7 +696,9 @@ class Worker:
             for task in completed_tasks:
                 message_id = active_tasks.pop(task)
                 execution = task_executions.pop(task)
-                self._tasks_by_key.pop(execution.key, None)
+                # A later execution of the same key may have taken this entry over
+                if self._tasks_by_key.get(execution.key) is task:
+                    self._tasks_by_key.pop(execution.key)
                 try:
                     await task
                 except AdmissionBlocked as e:
-- 
2.43.0


From 56fcb4578c8287944ab67b1eb2259401b4882e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 13/69] fix: clear() frees the cleared tasks' keys and leaves
 running tasks alone

Cleared keys stayed known, so add() ignored them until execution_ttl passed;
and messages of running tasks were trimmed and counted although they aren't
cleared.
---
 src/docket/docket.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index d583c5c..bea3ba1 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -886,7 +886,9 @@ class Docket(DocketSnapshotMixin):
                     scheduled_keys: list[bytes]
                     stream_count, queue_count, scheduled_keys = await pipeline.execute()
 
-                # Get keys from stream messages before trimming
+                # Get keys from stream messages before deleting them, leaving out
+                # running tasks, whose messages stay until they are done
+                stream_ids: list[RedisMessageID] = []
                 stream_keys: list[str] = []
                 if stream_count > 0:
                     # Read all messages from the stream
@@ -894,13 +896,17 @@ class Docket(DocketSnapshotMixin):
                     for message_id, fields in messages:
                         # Extract the key field from the message
                         if b"key" in fields:  # pragma: no branch
-                            stream_keys.append(fields[b"key"].decode())
+                            task_key = fields[b"key"].decode()
+                            state = await redis.hget(self.runs_key(task_key), "state")
+                            if state != b"running":
+                                stream_ids.append(message_id)
+                                stream_keys.append(task_key)
 
                 async with redis.pipeline() as pipeline:
                     # Clear all data
-                    # Trim stream to 0 messages instead of deleting it to preserve consumer group
-                    if stream_count > 0:
-                        pipeline.xtrim(self.stream_key, maxlen=0, approximate=False)
+                    # Delete messages instead of the stream to preserve consumer group
+                    if stream_ids:
+                        pipeline.xdel(self.stream_key, *stream_ids)
                     pipeline.delete(self.queue_key)
 
                     # Clear parked task data and known task keys for scheduled tasks
@@ -910,8 +916,11 @@ class Docket(DocketSnapshotMixin):
                         pipeline.delete(self.known_task_key(task_key))
                         pipeline.delete(self.stream_id_key(task_key))
 
-                        # Handle runs hash: set TTL or delete based on execution_ttl
+                        # Clear scheduling markers so add() can reschedule this key
                         task_runs_key = self.runs_key(task_key)
+                        pipeline.hdel(task_runs_key, "known", "stream_id")
+
+                        # Handle runs hash: set TTL or delete based on execution_ttl
                         if self.execution_ttl:
                             ttl_seconds = int(self.execution_ttl.total_seconds())
                             pipeline.expire(task_runs_key, ttl_seconds)
@@ -921,6 +930,7 @@ class Docket(DocketSnapshotMixin):
                     # Handle runs hash for immediate tasks from stream
                     for task_key in stream_keys:
                         task_runs_key = self.runs_key(task_key)
+                        pipeline.hdel(task_runs_key, "known", "stream_id")
                         if self.execution_ttl:
                             ttl_seconds = int(self.execution_ttl.total_seconds())
                             pipeline.expire(task_runs_key, ttl_seconds)
@@ -929,5 +939,5 @@ class Docket(DocketSnapshotMixin):
 
                     await pipeline.execute()
 
-                    total_cleared = stream_count + queue_count
+                    total_cleared = len(stream_ids) + queue_count
                     return total_cleared
-- 
2.43.0


From 20d33c5aa71c823030ddff0ad1113fc76549354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 14/69] fix: accept millisecond durations, as documented for
 worker settings

---
 src/docket/cli/_support.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index 582dd00..9a7e5fd 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -76,6 +76,7 @@ def duration(duration_str: str | timedelta) -> timedelta:
 
     Supported formats:
     - 123 = 123 seconds
+    - 123ms = 123 milliseconds
     - 123s = 123 seconds
     - 123m = 123 minutes
     - 123h = 123 hours
@@ -95,6 +96,8 @@ def duration(duration_str: str | timedelta) -> timedelta:
             return timedelta(hours=hours, minutes=minutes, seconds=seconds)
         else:
             raise ValueError(f"Invalid duration string: {duration_str}")
+    elif duration_str.endswith("ms"):
+        return timedelta(milliseconds=int(duration_str[:-2]))
     elif duration_str.endswith("s"):
         return timedelta(seconds=int(duration_str[:-1]))
     elif duration_str.endswith("m"):
-- 
2.43.0


From 83ceced186c100ecfd414b3f162d7140ddaaacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 15/69] fix: cancelling a task while it is being claimed or
 finished no longer ends the worker

---
 src/docket/worker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 5fd1213..2c0dd44 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -723,6 +723,11 @@ class Worker:
                             extra=log_context,
                         )
                         await e.execution.mark_as_cancelled()
+                except asyncio.CancelledError:
+                    # The task is done, so this is its own cancellation, which
+                    # docket.cancel() requested while the task's function wasn't
+                    # running (e.g. while claiming it), and not the worker's.
+                    await execution.mark_as_cancelled()
 
                 # Safety net: if nothing inside _execute or these except
                 # handlers acked the stream message (e.g. a custom
-- 
2.43.0


From cc47fea66cefb9a9d125d26da54c900bf7e4fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 16/69] fix: a task cancelled while it is retried or parked
 doesn't come back

---
 src/docket/dependencies/_concurrency.py | 13 ++++++++++---
 src/docket/execution.py                 | 10 ++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index b6c15e2..136c4a5 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -66,7 +66,7 @@ async def _acquire_or_park(
     -- atomically.  Returns 1 if acquired (task should run), 0 if parked
     -- (the inflight stream message has been XACK+XDEL'd and re-XADD'd
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
-    -- so the worker takes no further action).
+    -- so the worker takes no further action), or -1 if it was cancelled.
 
     -- If this task already has a slot (previous delivery attempt), only a
     -- redelivery with a stale original holder can take it over.  Otherwise we
@@ -103,8 +103,11 @@ async def _acquire_or_park(
     redis.call('XACK', stream_key, worker_group_name, message_id)
     redis.call('XDEL', stream_key, message_id)
 
-    -- If the task was rescheduled (e.g. by docket.replace()) after it was
-    -- claimed, the newer schedule wins and there is nothing left to park.
+    -- If the task was cancelled or rescheduled (e.g. by docket.replace()) after
+    -- it was claimed, that wins and there is nothing left to park.
+    if redis.call('HGET', runs_key, 'state') == 'cancelled' then
+        return -1
+    end
     local current_gen = tonumber(redis.call('HGET', runs_key, 'generation') or 0)
     for i = message_start, #ARGV, 2 do
         if ARGV[i] == 'generation' and current_gen > tonumber(ARGV[i + 1]) then
@@ -621,6 +624,10 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 message=message,
             )
 
+        if result == -1:
+            await execution.mark_as_cancelled()
+            raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
+
         if not bool(result):  # pragma: no branch
             logger.debug(
                 "⏳ Task %s parked on waiter stream %s",
diff --git a/src/docket/execution.py b/src/docket/execution.py
index a0f1da9..887e805 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -125,6 +125,11 @@ async def _schedule(
             end
         end
 
+        -- Neither does a task that was cancelled meanwhile come back.
+        if redis.call('HGET', runs_key, 'state') == 'cancelled' then
+            return 'CANCELLED'
+        end
+
         -- Increment generation counter
         local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
         if generation_index then
@@ -773,6 +778,11 @@ class Execution:
         if reschedule_message and reschedule_message == self.message_id:
             self._acked = True
 
+        if reply in (b"CANCELLED", "CANCELLED"):
+            await self.mark_as_cancelled()
+            self.disposition = Disposition.ALREADY_SCHEDULED
+            return self.disposition
+
         if reply in (b"SUPERSEDED", "SUPERSEDED"):
             # A newer schedule for this key exists and was left untouched.
             self.disposition = Disposition.ALREADY_SCHEDULED
-- 
2.43.0


From 466268a341e672dd164d590618f8bc8111466aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 17/69] fix: an attempt whose successor came and went is not
 rescheduled

---
 src/docket/execution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 887e805..6efacfd 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -117,10 +117,11 @@ async def _schedule(
         redis.call('XDEL', stream_key, reschedule_message_id)
 
         -- A newer schedule of this key (e.g. docket.replace() while this
-        -- attempt was running) wins over rescheduling the older one.
+        -- attempt was running) wins over rescheduling the older one, also
+        -- when its record is gone already (see ``_terminal``).
         if generation > 0 then
             local current_gen = redis.call('HGET', runs_key, 'generation')
-            if current_gen and tonumber(current_gen) > generation then
+            if not current_gen or tonumber(current_gen) > generation then
                 return 'SUPERSEDED'
             end
         end
-- 
2.43.0


From 73f71263562577e08c6b72c3abd60c76208c7ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 18/69] fix: keep the outcome of a replaced attempt from
 overwriting its successor's

---
 src/docket/execution.py | 11 +++++++++++
 src/docket/worker.py    |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 6efacfd..bfc7353 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -586,6 +586,17 @@ class Execution:
         """Scheduling generation counter for supersession detection."""
         return self._generation
 
+    @property
+    def outcome_key(self) -> str:
+        """Key in the result storage for the result or exception of this execution.
+
+        Executions of one key may overlap (``docket.replace()`` of a running
+        task), so each generation has a place of its own.
+        """
+        if self._generation > 1:
+            return f"{self._key}#{self._generation}"
+        return self._key
+
     @contextmanager
     def _maybe_suppress_instrumentation(self) -> Generator[None, None, None]:
         """Suppress OTel auto-instrumentation for internal Redis operations."""
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 2c0dd44..470ad46 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1148,7 +1148,7 @@ class Worker:
                             encoded_result = base64.b64encode(pickled_result).decode(
                                 "ascii"
                             )
-                            result_key = execution.key
+                            result_key = execution.outcome_key
                             ttl_seconds = int(self.docket.execution_ttl.total_seconds())
                             await self.docket.result_storage.put(
                                 result_key, {"data": encoded_result}, ttl=ttl_seconds
@@ -1240,7 +1240,7 @@ class Worker:
                         encoded_exception = base64.b64encode(pickled_exception).decode(
                             "ascii"
                         )
-                        result_key = execution.key
+                        result_key = execution.outcome_key
                         ttl_seconds = int(self.docket.execution_ttl.total_seconds())
                         await self.docket.result_storage.put(
                             result_key, {"data": encoded_exception}, ttl=ttl_seconds
-- 
2.43.0


From 8d3bae709e82510c9c73b6a51432b93026c68488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 19/69] fix: a task's own TimeoutError, or result at the
 deadline, isn't dropped by Timeout

---
 src/docket/dependencies/_timeout.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_timeout.py b/src/docket/dependencies/_timeout.py
index a9b4906..b0d04a1 100644
--- a/src/docket/dependencies/_timeout.py
+++ b/src/docket/dependencies/_timeout.py
@@ -80,7 +80,7 @@ class Timeout(Runtime["Timeout"]):
 
         timed_out = False
         try:
-            while not task.done():  # pragma: no branch
+            while not task.done():
                 if self.expired():
                     timed_out = True
                     break
@@ -91,6 +91,10 @@ class Timeout(Runtime["Timeout"]):
                     )
                 except asyncio.TimeoutError:
                     continue
+            else:
+                # The task finished, either right at the deadline or by raising a
+                # TimeoutError of its own
+                return task.result()
         finally:
             if not task.done():
                 timeout_reason = (
-- 
2.43.0


From ad0e0edf4564d5ddb2e6f1cca1284f5dc2631d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 20/69] fix: a finished perpetual run doesn't overwrite a
 replacement made meanwhile

---
 src/docket/dependencies/_perpetual.py | 51 +++++++++++++++++----------
 src/docket/docket.py                  |  6 ++++
 src/docket/execution.py               | 14 ++++++++
 3 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 7e885ed..6bebec2 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -106,22 +106,10 @@ class Perpetual(CompletionHandler["Perpetual"]):
                 await docket._cancel(redis, execution.key)
             return False
 
+        from ..execution import Disposition, succeeded_generation
+
         if await execution.is_superseded():
-            worker = current_worker.get()
-            TASKS_SUPERSEDED.add(
-                1,
-                {
-                    **worker.labels(),
-                    **execution.general_labels(),
-                    "docket.where": "on_complete",
-                },
-            )
-            logger.info(
-                "↬ [%s] %s (superseded)",
-                format_duration(outcome.duration.total_seconds()),
-                execution.call_repr(),
-            )
-            return True
+            return self._on_superseded(execution, outcome)
 
         docket = current_docket.get()
         worker = current_worker.get()
@@ -132,10 +120,18 @@ class Perpetual(CompletionHandler["Perpetual"]):
             now = datetime.now(timezone.utc)
             when = max(now, now + self.every - outcome.duration)
 
-        await docket.replace(execution.function, when, execution.key)(
-            *self.args,
-            **self.kwargs,
-        )
+        token = succeeded_generation.set(execution.generation)
+        try:
+            successor = await docket.replace(execution.function, when, execution.key)(
+                *self.args,
+                **self.kwargs,
+            )
+        finally:
+            succeeded_generation.reset(token)
+
+        if successor.disposition is Disposition.ALREADY_SCHEDULED:
+            # Superseded since the check above
+            return self._on_superseded(execution, outcome)
 
         TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})
 
@@ -154,3 +150,20 @@ class Perpetual(CompletionHandler["Perpetual"]):
         )
 
         return True
+
+    def _on_superseded(self, execution: Execution, outcome: TaskOutcome) -> bool:
+        worker = current_worker.get()
+        TASKS_SUPERSEDED.add(
+            1,
+            {
+                **worker.labels(),
+                **execution.general_labels(),
+                "docket.where": "on_complete",
+            },
+        )
+        logger.info(
+            "↬ [%s] %s (superseded)",
+            format_duration(outcome.duration.total_seconds()),
+            execution.call_repr(),
+        )
+        return True
diff --git a/src/docket/docket.py b/src/docket/docket.py
index bea3ba1..8ee7441 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -44,6 +44,7 @@ from .execution import (
     Disposition,
     Execution,
     TaskFunction,
+    succeeded_generation,
 )
 from .instrumentation import (
     TASKS_ADDED,
@@ -529,6 +530,7 @@ class Docket(DocketSnapshotMixin):
                 when,
                 attempt=1,
                 function_name=function_name,
+                generation=succeeded_generation.get(),
             )
 
             with tracer.start_as_current_span(
@@ -564,6 +566,10 @@ class Docket(DocketSnapshotMixin):
                 await execution.schedule(replace=True)
                 span.set_attribute("docket.disposition", execution.disposition.value)
 
+            if execution.disposition is Disposition.ALREADY_SCHEDULED:
+                # Only for the successor of a superseded run
+                return execution
+
             TASKS_REPLACED.add(1, {**self.labels(), **execution.general_labels()})
             TASKS_CANCELLED.add(1, {**self.labels(), **execution.general_labels()})
             TASKS_SCHEDULED.add(1, {**self.labels(), **execution.general_labels()})
diff --git a/src/docket/execution.py b/src/docket/execution.py
index bfc7353..05d81fd 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -5,6 +5,7 @@ import inspect
 import json
 import logging
 from contextlib import contextmanager
+from contextvars import ContextVar
 from datetime import datetime, timedelta, timezone
 from typing import (
     TYPE_CHECKING,
@@ -53,6 +54,10 @@ class ExecutionCancelled(Exception):
 TaskFunction = Callable[..., Awaitable[Any]]
 Message = dict[bytes, bytes]
 
+# Set to the generation of a run while its successor is being scheduled (e.g. by
+# ``Perpetual``), which leaves a newer schedule of the same key alone
+succeeded_generation: ContextVar[int] = ContextVar("succeeded_generation", default=0)
+
 
 @redis_script
 async def _schedule(
@@ -176,6 +181,15 @@ async def _schedule(
 
     -- Handle replacement: cancel existing task if needed
     if replace then
+        -- The successor of a finished run (e.g. of a perpetual task) leaves a
+        -- newer schedule of this key alone.
+        if generation > 0 then
+            local current_gen = redis.call('HGET', runs_key, 'generation')
+            if current_gen and tonumber(current_gen) > generation then
+                return 'SUPERSEDED'
+            end
+        end
+
         -- Get stream ID from runs hash (check new location first)
         local existing_message_id = redis.call('HGET', runs_key, 'stream_id')
 
-- 
2.43.0


From 4981f929eadba2e10e7afa4b8b494f4c65127579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 21/69] fix: cron tasks are (re)scheduled from the present, not
 from when they were declared

---
 src/docket/dependencies/_cron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/docket/dependencies/_cron.py b/src/docket/dependencies/_cron.py
index abb99c8..83a9e9a 100644
--- a/src/docket/dependencies/_cron.py
+++ b/src/docket/dependencies/_cron.py
@@ -105,6 +105,9 @@ class Cron(Perpetual):
     @property
     def initial_when(self) -> datetime:
         """Return the next cron time for initial scheduling."""
+        # This may be long after the dependency was declared, when a worker starts
+        # or finds that the task has fallen off the schedule
+        self._iterator = CronSim(self.expression, datetime.now(self.tz))
         return self.next_time()
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
-- 
2.43.0


From e6a0028e188c1b0c385f1976ca08b322d191ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 22/69] fix: clean up cancelled waiters on the in-memory
 backend too

---
 src/docket/dependencies/_concurrency.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 136c4a5..41114fb 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -770,9 +770,10 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         """
         runs_key = f"{docket.prefix}:runs:{task_key}"
         async with docket.redis() as redis:
-            waiter_stream_b, waiter_entry_id_b = await redis.hmget(  # type: ignore[misc]
-                runs_key, "waiter_stream", "waiter_entry_id"
-            )
+            # Not HMGET, which the in-memory backend doesn't have
+            run = await redis.hgetall(runs_key)  # type: ignore[misc]
+            waiter_stream_b = run.get(b"waiter_stream")
+            waiter_entry_id_b = run.get(b"waiter_entry_id")
             if not waiter_stream_b or not waiter_entry_id_b:
                 return
             waiter_stream = waiter_stream_b.decode()
-- 
2.43.0


From 0c269c248d446c3f7583fffd27a1be23d82b027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 23/69] fix: keep watching over parked tasks until they are
 woken

---
 src/docket/dependencies/_concurrency.py | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 41114fb..b03dd1f 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -650,11 +650,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             # ``run_until_finished`` from ever seeing an empty queue.
             # If the runs hash shows we've already been forwarded back to
             # the main stream, cancel the leftover safeguard.
-            async with docket.redis() as redis:
-                state = await redis.hget(  # type: ignore[misc]
-                    execution._redis_key, "state"
-                )
-            if state != b"scheduled":
+            if not await _is_parked(docket, execution.key):
                 await docket.cancel(safeguard_key)
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
@@ -860,6 +856,13 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         return self._concurrency_key
 
 
+async def _is_parked(docket: "Docket", task_key: str) -> bool:
+    """Whether the task is (still) parked on a waiter stream."""
+    async with docket.redis() as redis:
+        run = await redis.hgetall(docket.runs_key(task_key))  # type: ignore[misc]
+    return run.get(b"state") == b"scheduled" and b"waiter_entry_id" in run
+
+
 async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
     """Recover a waiter stream that the normal release path may not reach.
 
@@ -877,10 +880,14 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
 
     This is the dependency-owned recovery for the "burst then idle"
     pathology.  No background loop, no central registry: each park
-    schedules its own backstop.
+    schedules its own backstop, which schedules itself again for as long
+    as its task stays parked, because a holder that is alive now may still
+    die without releasing.
     """
     docket = current_docket.get()
     worker = current_worker.get()
+    safeguard_key = current_execution.get().key
+    task_key = safeguard_key.removeprefix("__safeguard__:")
 
     if not waiter_stream.endswith(":waiters"):  # pragma: no cover
         return
@@ -904,3 +911,13 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
             state_prefix=f"{docket.prefix}:state:",
             parked_prefix=f"{docket.prefix}:",
         )
+
+    if await _is_parked(docket, task_key):
+        await docket.replace(
+            _safeguard_wake,
+            when=datetime.now(timezone.utc) + redelivery_timeout,
+            key=safeguard_key,
+        )(waiter_stream=waiter_stream, max_concurrent=max_concurrent)
+        # As when parking, don't leak it if the task was woken meanwhile
+        if not await _is_parked(docket, task_key):
+            await docket.cancel(safeguard_key)
-- 
2.43.0


From 66a6ca46530c9582553fc9356292ef68a71c1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 24/69] fix: schedule the safeguard before parking, so a crash
 in between can't strand the task

---
 src/docket/dependencies/_concurrency.py | 96 ++++++++++++++-----------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index b03dd1f..c9b1885 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -59,6 +59,7 @@ async def _acquire_or_park(
     worker_group_name: Arg[str],
     state_channel: Arg[str],
     state_payload: Arg[str],
+    may_park: Arg[bool],
     message: Args[dict[bytes, bytes]],
 ) -> int:
     """
@@ -66,7 +67,8 @@ async def _acquire_or_park(
     -- atomically.  Returns 1 if acquired (task should run), 0 if parked
     -- (the inflight stream message has been XACK+XDEL'd and re-XADD'd
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
-    -- so the worker takes no further action), or -1 if it was cancelled.
+    -- so the worker takes no further action), -1 if it was cancelled, -2
+    -- if it has to be parked but may not be yet, or -3 if it was superseded.
 
     -- If this task already has a slot (previous delivery attempt), only a
     -- redelivery with a stale original holder can take it over.  Otherwise we
@@ -96,6 +98,10 @@ async def _acquire_or_park(
         end
     end
 
+    if not may_park then
+        return -2
+    end
+
     -- Park: ACK the main-stream message, re-XADD the payload into the waiter
     -- stream.  Doing this here, atomically with the acquire check, keeps a
     -- concurrent slot release from missing us in the gap between "blocked" and
@@ -111,7 +117,7 @@ async def _acquire_or_park(
     local current_gen = tonumber(redis.call('HGET', runs_key, 'generation') or 0)
     for i = message_start, #ARGV, 2 do
         if ARGV[i] == 'generation' and current_gen > tonumber(ARGV[i + 1]) then
-            return 0
+            return -3
         end
     end
 
@@ -589,8 +595,6 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         message: dict[bytes, bytes] = execution.as_message()
         propagate.inject(message, setter=message_setter)
 
-        current_time = datetime.now(timezone.utc).timestamp()
-        stale_threshold = current_time - redelivery_timeout.total_seconds()
         key_ttl = max(
             MINIMUM_TTL_SECONDS,
             int(redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR),
@@ -604,54 +608,64 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         park_state_payload = json.dumps(
             {"type": "state", "key": execution.key, "state": "scheduled"}
         )
-        async with docket.redis() as redis:
-            result = await _acquire_or_park(
-                redis,
-                slots_key=concurrency_key,
-                waiters_stream=waiters_stream,
-                stream_key=docket.stream_key,
-                runs_key=execution._redis_key,
-                max_concurrent=self.max_concurrent,
-                task_key=execution.key,
-                current_time=current_time,
-                is_redelivery=execution.redelivered,
-                stale_threshold=stale_threshold,
-                key_ttl=key_ttl,
-                message_id=execution.message_id,
-                worker_group_name=docket.worker_group_name,
-                state_channel=f"{docket.prefix}:state:{execution.key}",
-                state_payload=park_state_payload,
-                message=message,
-            )
 
-        if result == -1:
-            await execution.mark_as_cancelled()
-            raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
+        async def acquire_or_park(may_park: bool) -> int:
+            async with docket.redis() as redis:
+                current_time = datetime.now(timezone.utc).timestamp()
+                stale_threshold = current_time - redelivery_timeout.total_seconds()
+                return await _acquire_or_park(
+                    redis,
+                    slots_key=concurrency_key,
+                    waiters_stream=waiters_stream,
+                    stream_key=docket.stream_key,
+                    runs_key=execution._redis_key,
+                    max_concurrent=self.max_concurrent,
+                    task_key=execution.key,
+                    current_time=current_time,
+                    is_redelivery=execution.redelivered,
+                    stale_threshold=stale_threshold,
+                    key_ttl=key_ttl,
+                    message_id=execution.message_id,
+                    worker_group_name=docket.worker_group_name,
+                    state_channel=f"{docket.prefix}:state:{execution.key}",
+                    state_payload=park_state_payload,
+                    may_park=may_park,
+                    message=message,
+                )
 
-        if not bool(result):  # pragma: no branch
-            logger.debug(
-                "⏳ Task %s parked on waiter stream %s",
-                execution.key,
-                waiters_stream,
-            )
+        result = await acquire_or_park(may_park=False)
+
+        if result != 1:
             # Schedule a safeguard task to backstop the normal release path.
             # If a holder releases first, this becomes a no-op when it runs;
             # otherwise it scavenges any stale slots and wakes the waiters.
+            # It comes before parking the task, so that a crash in between
+            # can't leave a parked task that nothing looks after.
             safeguard_key = f"__safeguard__:{execution.key}"
-            await docket.add(
+            await docket.replace(
                 _safeguard_wake,
                 when=datetime.now(timezone.utc) + redelivery_timeout,
                 key=safeguard_key,
             )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
-            # A wake-on-release may have fired between the park script
-            # returning and the docket.add above.  Its safeguard ZREM was a
-            # no-op (the safeguard hadn't been added yet), and we'd leak
-            # the safeguard into the future queue -- preventing
-            # ``run_until_finished`` from ever seeing an empty queue.
-            # If the runs hash shows we've already been forwarded back to
-            # the main stream, cancel the leftover safeguard.
-            if not await _is_parked(docket, execution.key):
+
+            result = await acquire_or_park(may_park=True)
+
+            # Don't leak the safeguard into the future queue -- preventing
+            # ``run_until_finished`` from ever seeing an empty queue -- if the
+            # task wasn't parked after all.
+            if result != 0 and not await _is_parked(docket, execution.key):
                 await docket.cancel(safeguard_key)
+
+        if result == -1:
+            await execution.mark_as_cancelled()
+            raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
+
+        if result != 1:
+            logger.debug(
+                "⏳ Task %s parked on waiter stream %s",
+                execution.key,
+                waiters_stream,
+            )
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
         # Acquired.  Start heartbeating the slot and register the release
-- 
2.43.0


From 3ac783226d888ed697de819bcd35b80b4631619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 25/69] fix: a rate-limited task blocked by another dependency
 gives back its own slot, not another's

---
 src/docket/dependencies/_ratelimit.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 33b5905..348839b 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -110,6 +110,8 @@ class RateLimit(Dependency["RateLimit"]):
         return bound
 
     async def __aenter__(self) -> RateLimit:
+        from ._functional import _Depends
+
         execution = current_execution.get()
         docket = current_docket.get()
 
@@ -141,9 +143,16 @@ class RateLimit(Dependency["RateLimit"]):
         retry_after_ms = result[1]
 
         if action == _ACTION_PROCEED:
-            self._ratelimit_key = ratelimit_key
-            self._member = member
-            return self
+            # Create a NEW instance for this specific task execution.  The
+            # original (the default parameter value) is shared across all
+            # concurrent calls, so it can't remember which slot is whose.
+            admitted = RateLimit(
+                self.limit, per=self.per, drop=self.drop, scope=self.scope
+            )
+            admitted._ratelimit_key = ratelimit_key
+            admitted._member = member
+            _Depends.stack.get().push_async_exit(admitted._free_slot)
+            return admitted
 
         reason = f"rate limit ({self.limit}/{self.per}) on {ratelimit_key}"
 
@@ -162,6 +171,17 @@ class RateLimit(Dependency["RateLimit"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
+        # No-op.  Cleanup is registered on the resolver's AsyncExitStack
+        # against the per-task instance created in __aenter__.
+        pass
+
+    async def _free_slot(
+        self,
+        exc_type: type[BaseException] | None,
+        exc_value: BaseException | None,
+        traceback: TracebackType | None,
+    ) -> None:
+        """Free the slot of a task that another dependency has blocked."""
         if exc_type is not None and self._member is not None:
             if issubclass(exc_type, AdmissionBlocked):
                 assert self._ratelimit_key is not None
-- 
2.43.0


From 9af5dbc09d0e3011808e6026fca70700d64e6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 26/69] fix: a retry gets the arguments as submitted, whatever
 the failed attempt did to them

---
 src/docket/execution.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 05d81fd..60042be 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -520,6 +520,9 @@ class Execution:
         self._function_name = function_name or function.__name__
         self._args = args
         self._kwargs = kwargs
+        # The arguments as they arrived, so that rescheduling this execution
+        # (a retry, say) isn't affected by what the task did to them
+        self._serialized_arguments: tuple[bytes, bytes] | None = None
         self._key = key
 
         # Scheduling metadata
@@ -621,12 +624,16 @@ class Execution:
             yield
 
     def as_message(self) -> Message:
+        args, kwargs = self._serialized_arguments or (
+            cloudpickle.dumps(self.args),
+            cloudpickle.dumps(self.kwargs),
+        )
         return {
             b"key": self.key.encode(),
             b"when": self.when.isoformat().encode(),
             b"function": self.function_name.encode(),
-            b"args": cloudpickle.dumps(self.args),
-            b"kwargs": cloudpickle.dumps(self.kwargs),
+            b"args": args,
+            b"kwargs": kwargs,
             b"attempt": str(self.attempt).encode(),
             b"generation": str(self.generation).encode(),
         }
@@ -662,6 +669,7 @@ class Execution:
             generation=int(message.get(b"generation", b"0")),
             message_id=message_id,
         )
+        instance._serialized_arguments = (message[b"args"], message[b"kwargs"])
         await instance.sync()
         return instance
 
-- 
2.43.0


From b8d49655791583aee22781fd1c405699f0a017e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 27/69] fix: issuing a strike no longer overrides later
 instructions already read from the stream

---
 src/docket/strikelist.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 5550bd7..f5b5476 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -131,6 +131,12 @@ ParameterStrikes = dict[str, set[MinimalStrike]]
 TaskStrikes = dict[str, ParameterStrikes]
 
 
+def _stream_position(message_id: bytes) -> tuple[int, int]:
+    """The position in the strike stream that a message ID stands for."""
+    milliseconds, sequence = message_id.decode().split("-")
+    return int(milliseconds), int(sequence)
+
+
 class StrikeList:
     """A strike list that manages conditions for blocking task execution.
 
@@ -174,6 +180,7 @@ class StrikeList:
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
     _strikes_loaded: asyncio.Event | None
+    _position: tuple[int, int]
     _stack: AsyncExitStack
 
     def __init__(
@@ -202,6 +209,7 @@ class StrikeList:
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
         self._strikes_loaded = None
+        self._position = (0, 0)
 
     @property
     def prefix(self) -> str:
@@ -304,9 +312,12 @@ class StrikeList:
             )
 
         async with self._redis.client() as r:
-            await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
+            message_id = await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
 
-        self.update(instruction)
+        # The monitor may have read this instruction already, and later ones that
+        # it must not override
+        if _stream_position(message_id) > self._position:
+            self.update(instruction)
 
     async def strike(
         self,
@@ -603,6 +614,7 @@ class StrikeList:
         for _, messages in streams:
             for message_id, message in messages:
                 last_id = message_id
+                self._position = _stream_position(message_id)
                 instruction = StrikeInstruction.from_message(message)
                 self.update(instruction)
                 logger.info(
-- 
2.43.0


From d32775c2425a0d12b7e4cd01c146f6c0f6f11ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 28/69] fix: dependencies on a task's argument see its default
 value when it isn't passed

ConcurrencyLimit("customer_id") and TaskArgument() failed the task with a
KeyError when the call relied on the parameter's default.
---
 src/docket/execution.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 60042be..5ee0ae8 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -687,7 +687,16 @@ class Execution:
     def get_argument(self, parameter: str) -> Any:
         signature = get_signature(self.function)
         bound_args = signature.bind(*self.args, **self.kwargs)
-        return bound_args.arguments[parameter]
+        if parameter in bound_args.arguments:
+            return bound_args.arguments[parameter]
+
+        # Not passed, so the function will see the parameter's default value
+        default = signature.parameters[parameter].default
+        if default is inspect.Parameter.empty or isinstance(
+            default, uncalled_for.Dependency
+        ):
+            raise KeyError(parameter)
+        return default
 
     def call_repr(self) -> str:
         arguments: list[str] = []
-- 
2.43.0


From e8538d790c9aec29cbc2e096a34a676bf91ed69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 29/69] fix: annotated dependencies see arguments passed by
 position

Cooldown, Debounce and RateLimit on a parameter used one scope, for the value
None, for all calls that passed the argument by position or left it to its default.
---
 src/docket/dependencies/_resolution.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index e8e28d3..a66cc4a 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -159,6 +159,19 @@ def detect_single_conflicts(
     return conflicts
 
 
+def _annotated_value(
+    execution: Execution, parameter_name: str, arguments: dict[str, Any]
+) -> Any:
+    """The value a parameter gets, whether passed by keyword, by position, or left
+    to its default."""
+    if parameter_name in arguments:
+        return arguments[parameter_name]
+    try:
+        return execution.get_argument(parameter_name)
+    except (KeyError, TypeError):
+        return None
+
+
 @asynccontextmanager
 async def resolved_dependencies(
     worker: Worker, execution: Execution
@@ -208,8 +221,8 @@ async def resolved_dependencies(
 
                 annotations = get_annotation_dependencies(execution.function)
                 for parameter_name, dependencies in annotations.items():
-                    argument_value = execution.kwargs.get(
-                        parameter_name, arguments.get(parameter_name)
+                    argument_value = _annotated_value(
+                        execution, parameter_name, arguments
                     )
                     for dependency in dependencies:
                         bound = dependency.bind_to_parameter(
-- 
2.43.0


From 58b77df06760e6228cd493716f36a2919b079535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 30/69] fix: a task is done only once its dependencies are
 released

A dependency whose release failed turned a run already recorded, and announced, as
completed into a failed or retried one; a dependency that suppressed the
task's error left the run recorded as failed without an error, and ended
a Perpetual.
---
 src/docket/worker.py | 77 +++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 470ad46..25fd08f 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1069,6 +1069,7 @@ class Worker:
             links=execution.incoming_span_links(),
         ) as span:
             try:
+                result: Any = None
                 async with resolved_dependencies(self, execution) as dependencies:
                     dependency_failures = {
                         k: v
@@ -1120,46 +1121,48 @@ class Worker:
                             *execution.args, **final_kwargs
                         )
 
-                    duration = log_context["duration"] = time.time() - start
-                    TASKS_SUCCEEDED.add(1, counter_labels)
+                # Only once the dependencies are released is the task done: releasing
+                # them may still fail it, or suppress the error it raised
+                duration = log_context["duration"] = time.time() - start
+                TASKS_SUCCEEDED.add(1, counter_labels)
 
-                    span.set_status(Status(StatusCode.OK))
+                span.set_status(Status(StatusCode.OK))
 
-                    # Check for completion handler (e.g., Perpetual)
-                    completion_handler = get_single_dependency_of_type(
-                        dependencies, CompletionHandler
-                    )
-                    outcome = TaskOutcome(
-                        duration=timedelta(seconds=duration),
-                        result=result,
-                    )
-                    if completion_handler and await completion_handler.on_complete(
-                        execution, outcome
-                    ):
-                        # Handler took responsibility (rescheduled, logged, recorded metrics)
-                        await execution.mark_as_completed(result_key=None)
-                    else:
-                        # No handler or handler didn't handle - normal completion
-                        result_key = None
-                        if result is not None and self.docket.execution_ttl:
-                            # Serialize and store result
-                            pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
-                            # Base64-encode for JSON serialization
-                            encoded_result = base64.b64encode(pickled_result).decode(
-                                "ascii"
-                            )
-                            result_key = execution.outcome_key
-                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
-                            await self.docket.result_storage.put(
-                                result_key, {"data": encoded_result}, ttl=ttl_seconds
-                            )
-                        await execution.mark_as_completed(result_key=result_key)
-                        logger.info(
-                            "↩ [%s] %s",
-                            format_duration(duration),
-                            call,
-                            extra=log_context,
+                # Check for completion handler (e.g., Perpetual)
+                completion_handler = get_single_dependency_of_type(
+                    dependencies, CompletionHandler
+                )
+                outcome = TaskOutcome(
+                    duration=timedelta(seconds=duration),
+                    result=result,
+                )
+                if completion_handler and await completion_handler.on_complete(
+                    execution, outcome
+                ):
+                    # Handler took responsibility (rescheduled, logged, recorded metrics)
+                    await execution.mark_as_completed(result_key=None)
+                else:
+                    # No handler or handler didn't handle - normal completion
+                    result_key = None
+                    if result is not None and self.docket.execution_ttl:
+                        # Serialize and store result
+                        pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
+                        # Base64-encode for JSON serialization
+                        encoded_result = base64.b64encode(pickled_result).decode(
+                            "ascii"
+                        )
+                        result_key = execution.outcome_key
+                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())
+                        await self.docket.result_storage.put(
+                            result_key, {"data": encoded_result}, ttl=ttl_seconds
                         )
+                    await execution.mark_as_completed(result_key=result_key)
+                    logger.info(
+                        "↩ [%s] %s",
+                        format_duration(duration),
+                        call,
+                        extra=log_context,
+                    )
             except AdmissionBlocked:
                 # Admission control (e.g. ConcurrencyLimit) is a rescheduling
                 # signal, not a task failure. Mark the span OK before re-raising
-- 
2.43.0


From dedc2233c883edeb07f7467fc38ec29c3eb8fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 31/69] fix: workers entered in the same context don't mix up
 dockets and shared dependencies

Worker.__aenter__ sets context variables; when several workers are entered one after
the other, all of them ran with the last one's.  A Perpetual was rescheduled
on the wrong docket, and Shared dependencies were created for, and closed with,
another worker.
---
 src/docket/worker.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 25fd08f..47fc711 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -9,7 +9,7 @@ import signal
 import socket
 import sys
 import time
-from contextlib import AsyncExitStack, contextmanager
+from contextlib import AsyncExitStack, ExitStack, contextmanager
 from dataclasses import dataclass
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -331,6 +331,12 @@ class Worker:
         self._shared_context = SharedContext()
         self._stack.callback(lambda: delattr(self, "_shared_context"))
         await self._stack.enter_async_context(self._shared_context)
+        self._shared_state = (
+            SharedContext.resolved.get(),
+            SharedContext.lock.get(),
+            SharedContext.stack.get(),
+        )
+        self._stack.callback(lambda: delattr(self, "_shared_state"))
 
         return self
 
@@ -542,7 +548,26 @@ class Worker:
             self.docket.strike_list.remove_condition(has_reached_max_iterations)
             self._execution_counts = {}
 
+    @contextmanager
+    def _as_current_worker(self) -> Generator[None, None, None]:
+        """Make this worker, its docket, and its shared dependencies the ambient ones,
+        whichever workers were entered in the same context after it."""
+        resolved, lock, stack = self._shared_state
+        with ExitStack() as tokens:
+            tokens.callback(current_docket.reset, current_docket.set(self.docket))
+            tokens.callback(current_worker.reset, current_worker.set(self))
+            tokens.callback(
+                SharedContext.resolved.reset, SharedContext.resolved.set(resolved)
+            )
+            tokens.callback(SharedContext.lock.reset, SharedContext.lock.set(lock))
+            tokens.callback(SharedContext.stack.reset, SharedContext.stack.set(stack))
+            yield
+
     async def _run(self, forever: bool = False) -> None:
+        with self._as_current_worker():
+            await self._run_as_current(forever)
+
+    async def _run_as_current(self, forever: bool) -> None:
         self._startup_log()
         self._worker_stopping.clear()
         self._worker_done.clear()
-- 
2.43.0


From c7c0f64c460e62e3d7dce03bcec4ed8daf890c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 32/69] fix: a new attempt's progress doesn't start with the
 previous attempt's message

---
 src/docket/execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 5ee0ae8..604a914 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -901,6 +901,8 @@ class Execution:
         self.started_at = started_at
         self.progress.current = 0
         self.progress.total = 100
+        self.progress.message = None
+        self.progress.updated_at = None
 
         return True
 
-- 
2.43.0


From 97b0d9125888bde04fac0d41d14fd3cd88bec2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 33/69] fix: progress incremented in parallel is reported as it
 is stored

---
 src/docket/_execution_progress.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 13cae8d..53ce3f5 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -96,6 +96,9 @@ class ExecutionProgress:
         self.total: int = 1
         self.message: str | None = None
         self.updated_at: datetime | None = None
+        # Increments may be made in parallel; applying one at a time keeps this
+        # view and the published events in step with what is stored.
+        self._incrementing = asyncio.Lock()
 
     @contextmanager
     def _maybe_suppress_instrumentation(self) -> Generator[None, None, None]:
@@ -160,18 +163,19 @@ class ExecutionProgress:
         if amount < 1:
             raise ValueError("Amount must be at least 1")
 
-        updated_at_dt = datetime.now(timezone.utc)
-        updated_at = updated_at_dt.isoformat()
-        async with self.docket.redis() as redis:
-            async with redis.pipeline() as pipe:
-                pipe.hincrby(self._redis_key, "current", amount)
-                pipe.hset(self._redis_key, "updated_at", updated_at)
-                new_current, _ = await pipe.execute()
-        # Update instance attributes using Redis return value
-        self.current = new_current
-        self.updated_at = updated_at_dt
-        # Publish update event with new current value
-        await self._publish({"current": new_current, "updated_at": updated_at})
+        async with self._incrementing:
+            updated_at_dt = datetime.now(timezone.utc)
+            updated_at = updated_at_dt.isoformat()
+            async with self.docket.redis() as redis:
+                async with redis.pipeline() as pipe:
+                    pipe.hincrby(self._redis_key, "current", amount)
+                    pipe.hset(self._redis_key, "updated_at", updated_at)
+                    new_current, _ = await pipe.execute()
+            # Update instance attributes using Redis return value
+            self.current = new_current
+            self.updated_at = updated_at_dt
+            # Publish update event with new current value
+            await self._publish({"current": new_current, "updated_at": updated_at})
 
     async def set_message(self, message: str | None) -> None:
         """Update the progress status message.
-- 
2.43.0


From 2ca8d4aa418062a563c1c10f14c762034527b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 34/69] fix: concurrent runs of a task don't report their
 progress as each other's

---
 src/docket/dependencies/_progress.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_progress.py b/src/docket/dependencies/_progress.py
index 01daed8..73ab668 100644
--- a/src/docket/dependencies/_progress.py
+++ b/src/docket/dependencies/_progress.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import copy
 from typing import TYPE_CHECKING
 
 from ._base import Dependency, current_execution
@@ -34,8 +35,10 @@ class Progress(Dependency["Progress"]):
 
     async def __aenter__(self) -> Progress:
         execution = current_execution.get()
-        self._progress = execution.progress
-        return self
+        # The default instance is shared by all runs of the task, concurrent ones too
+        progress = copy(self)
+        progress._progress = execution.progress
+        return progress
 
     @property
     def current(self) -> int | None:
-- 
2.43.0


From 35297dbfff18151a0245a20d541a969fc2f6fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 35/69] fix: a worker draining after a graceful stop keeps its
 tasks' leases

---
 src/docket/worker.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 47fc711..d55b110 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -805,7 +805,7 @@ class Worker:
                         name=f"{self.docket.name} - scheduler",
                     )
                     infra.create_task(
-                        self._renew_leases(redis, active_tasks),
+                        self._renew_leases(redis, active_tasks, session.stopping),
                         name=f"{self.docket.name} - lease renewal",
                     )
                     self._heartbeat_task = asyncio.create_task(
@@ -873,7 +873,15 @@ class Worker:
             self._heartbeat_task = None
             await self._remove_heartbeat()
             if active_tasks:
-                await asyncio.gather(*active_tasks, return_exceptions=True)
+                # Other workers would run these tasks too if their leases lapsed
+                renewal = asyncio.create_task(
+                    self._renew_leases(redis, active_tasks, asyncio.Event()),
+                    name=f"{self.docket.name} - lease renewal while draining",
+                )
+                try:
+                    await asyncio.gather(*active_tasks, return_exceptions=True)
+                finally:
+                    await cancel_task(renewal, CANCEL_MSG_CLEANUP)
                 await process_completed_tasks()
             if self._processing_session is session:
                 self._processing_session = None
@@ -921,21 +929,18 @@ class Worker:
         self,
         redis: Redis,
         active_messages: dict[asyncio.Task[None], RedisMessageID],
+        stopping: asyncio.Event,
     ) -> None:
         """Periodically renew leases on stream messages.
 
         Calls XCLAIM with idle=0 to reset the message's idle time, preventing
         XAUTOCLAIM from reclaiming it while we're still processing.
         """
-        session = self._processing_session
-        if session is None:
-            return  # pragma: no cover
-
         # Renew leases 4 times per redelivery_timeout period
         renewal_interval = self.redelivery_timeout.total_seconds() / 4
 
-        while not session.stopping.is_set():  # pragma: no branch
-            if await _wait_for_event(session.stopping, renewal_interval):
+        while not stopping.is_set():  # pragma: no branch
+            if await _wait_for_event(stopping, renewal_interval):
                 return
 
             message_ids = list(active_messages.values())
-- 
2.43.0


From 8f911d7fbebb40bab6f78076ed0b4b3d15445229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 36/69] fix: automatic perpetual tasks registered only under
 another name are started

---
 src/docket/worker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index d55b110..3954fb8 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1003,7 +1003,7 @@ class Worker:
                     timeout=AUTOMATIC_PERPETUAL_LOCK_TIMEOUT_SECONDS,
                     blocking=False,
                 ):
-                    for task_function in self.docket.tasks.values():
+                    for name, task_function in list(self.docket.tasks.items()):
                         perpetual = get_single_dependency_parameter_of_type(
                             task_function, Perpetual
                         )
@@ -1019,7 +1019,7 @@ class Worker:
                             if await self._automatic_perpetual_is_live(redis, key):
                                 continue
                             await self.docket.add(
-                                task_function, when=perpetual.initial_when, key=key
+                                name, when=perpetual.initial_when, key=key
                             )()
             except LockError:  # pragma: no cover
                 return
-- 
2.43.0


From ab402238b26503f40aae77931751d76ac4635440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 37/69] fix: clear() doesn't lose tasks submitted meanwhile nor
 let fetched ones run

---
 src/docket/docket.py | 138 ++++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 66 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 8ee7441..f027aaf 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -65,6 +65,67 @@ logger: logging.Logger = logging.getLogger(__name__)
 tracer: trace.Tracer = trace.get_tracer(__name__)
 
 
+@redis_script
+async def _clear_tasks(
+    redis: RedisClient,
+    *,
+    stream_key: Key[str],
+    queue_key: Key[str],
+    docket_prefix: Arg[str],
+    ttl_seconds: Arg[int],
+) -> int:
+    """
+    local cleared = 0
+
+    local function forget(task_key)
+        -- Clear parked data and legacy keys
+        redis.call('DEL',
+            docket_prefix .. ':' .. task_key,
+            docket_prefix .. ':known:' .. task_key,
+            docket_prefix .. ':stream-id:' .. task_key
+        )
+
+        -- Clear scheduling markers so add() can reschedule this key
+        local runs_key = docket_prefix .. ':runs:' .. task_key
+        redis.call('HDEL', runs_key, 'known', 'stream_id')
+
+        -- Set TTL on the run record or delete it.  Either way, a copy that a
+        -- worker has received but not claimed yet is superseded.
+        if ttl_seconds > 0 then
+            redis.call('HINCRBY', runs_key, 'generation', 1)
+            redis.call('EXPIRE', runs_key, ttl_seconds)
+        else
+            redis.call('DEL', runs_key)
+        end
+        cleared = cleared + 1
+    end
+
+    -- Leave out running tasks, whose messages stay until they are done
+    for i, entry in ipairs(redis.call('XRANGE', stream_key, '-', '+')) do
+        local message = {}
+        for j = 1, #entry[2], 2 do
+            message[entry[2][j]] = entry[2][j+1]
+        end
+        local runs_key = docket_prefix .. ':runs:' .. message['key']
+        local generation = redis.call('HGET', runs_key, 'generation') or '0'
+        local superseded = tonumber(generation) > tonumber(message['generation'] or '0')
+        if redis.call('HGET', runs_key, 'state') ~= 'running' and not superseded then
+            -- Delete messages instead of the stream to preserve consumer group
+            redis.call('XDEL', stream_key, entry[1])
+            forget(message['key'])
+        end
+    end
+
+    for i, task_key in ipairs(redis.call('ZRANGE', queue_key, 0, -1)) do
+        forget(task_key)
+    end
+    redis.call('DEL', queue_key)
+
+    return cleared
+    """
+    ...
+
+
 @redis_script
 async def _cancel_task(
     redis: RedisClient,
@@ -881,69 +942,14 @@ class Docket(DocketSnapshotMixin):
             attributes=self.labels(),
         ):
             async with self.redis() as redis:
-                async with redis.pipeline() as pipeline:
-                    # Get counts before clearing
-                    pipeline.xlen(self.stream_key)
-                    pipeline.zcard(self.queue_key)
-                    pipeline.zrange(self.queue_key, 0, -1)
-
-                    stream_count: int
-                    queue_count: int
-                    scheduled_keys: list[bytes]
-                    stream_count, queue_count, scheduled_keys = await pipeline.execute()
-
-                # Get keys from stream messages before deleting them, leaving out
-                # running tasks, whose messages stay until they are done
-                stream_ids: list[RedisMessageID] = []
-                stream_keys: list[str] = []
-                if stream_count > 0:
-                    # Read all messages from the stream
-                    messages = await redis.xrange(self.stream_key, "-", "+")
-                    for message_id, fields in messages:
-                        # Extract the key field from the message
-                        if b"key" in fields:  # pragma: no branch
-                            task_key = fields[b"key"].decode()
-                            state = await redis.hget(self.runs_key(task_key), "state")
-                            if state != b"running":
-                                stream_ids.append(message_id)
-                                stream_keys.append(task_key)
-
-                async with redis.pipeline() as pipeline:
-                    # Clear all data
-                    # Delete messages instead of the stream to preserve consumer group
-                    if stream_ids:
-                        pipeline.xdel(self.stream_key, *stream_ids)
-                    pipeline.delete(self.queue_key)
-
-                    # Clear parked task data and known task keys for scheduled tasks
-                    for key_bytes in scheduled_keys:
-                        task_key = key_bytes.decode()
-                        pipeline.delete(self.parked_task_key(task_key))
-                        pipeline.delete(self.known_task_key(task_key))
-                        pipeline.delete(self.stream_id_key(task_key))
-
-                        # Clear scheduling markers so add() can reschedule this key
-                        task_runs_key = self.runs_key(task_key)
-                        pipeline.hdel(task_runs_key, "known", "stream_id")
-
-                        # Handle runs hash: set TTL or delete based on execution_ttl
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    # Handle runs hash for immediate tasks from stream
-                    for task_key in stream_keys:
-                        task_runs_key = self.runs_key(task_key)
-                        pipeline.hdel(task_runs_key, "known", "stream_id")
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    await pipeline.execute()
-
-                    total_cleared = len(stream_ids) + queue_count
-                    return total_cleared
+                return await _clear_tasks(
+                    redis,
+                    stream_key=self.stream_key,
+                    queue_key=self.queue_key,
+                    docket_prefix=self.prefix,
+                    ttl_seconds=(
+                        int(self.execution_ttl.total_seconds())
+                        if self.execution_ttl
+                        else 0
+                    ),
+                )
-- 
2.43.0


From 6007d323ff33f329ae88f3b3f8491fe43aad0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 38/69] fix: a perpetual task goes on under the name it was
 submitted by

---
 src/docket/dependencies/_perpetual.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 6bebec2..4a8462d 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -122,7 +122,11 @@ class Perpetual(CompletionHandler["Perpetual"]):
 
         token = succeeded_generation.set(execution.generation)
         try:
-            successor = await docket.replace(execution.function, when, execution.key)(
+            # By the name it was submitted under, which other workers know it by
+            function = execution.function
+            if docket.tasks.get(execution.function_name) is function:
+                function = execution.function_name
+            successor = await docket.replace(function, when, execution.key)(
                 *self.args,
                 **self.kwargs,
             )
-- 
2.43.0


From 74f947d1d71db31952477f8f14a0379872bef2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 39/69] fix: an agenda schedules tasks under the names they
 were given by

---
 src/docket/agenda.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/docket/agenda.py b/src/docket/agenda.py
index 2b95f98..d4d27f1 100644
--- a/src/docket/agenda.py
+++ b/src/docket/agenda.py
@@ -189,7 +189,7 @@ class Agenda:
         # Validate and resolve every task first, so an unregistered name fails
         # before we schedule anything.
         planned: list[
-            tuple[TaskFunction, tuple[Any, ...], dict[str, Any], str, datetime]
+            tuple[TaskFunction | str, tuple[Any, ...], dict[str, Any], str, datetime]
         ] = []
         for (task_func, args, kwargs, explicit_key), schedule_time in zip(
             self._tasks, schedule_times
@@ -197,19 +197,17 @@ class Agenda:
             if isinstance(task_func, str):
                 if task_func not in docket.tasks:
                     raise KeyError(f"Task '{task_func}' is not registered")
-                resolved_func = docket.tasks[task_func]
             else:
                 if task_func not in docket.tasks.values():
                     docket.register(task_func)
-                resolved_func = task_func
 
             key = explicit_key if explicit_key is not None else str(uuid7())
-            planned.append((resolved_func, args, kwargs, key, schedule_time))
+            planned.append((task_func, args, kwargs, key, schedule_time))
 
         # Schedule each task; if one fails partway, earlier ones stay scheduled.
         executions: list[Execution] = []
-        for resolved_func, args, kwargs, key, schedule_time in planned:
-            scheduler = docket.add(resolved_func, when=schedule_time, key=key)
+        for task_func, args, kwargs, key, schedule_time in planned:
+            scheduler = docket.add(task_func, when=schedule_time, key=key)
             executions.append(await scheduler(*args, **kwargs))
 
         return executions
-- 
2.43.0


From c2cca9ea09dc4b43dc5107a668228706d62d0d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 40/69] fix: snapshot() names a running task as it was
 submitted

---
 src/docket/_docket_snapshot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index f78497b..d410633 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -41,6 +41,7 @@ class RunningExecution(Execution):
             attempt=execution.attempt,
             trace_context=execution.trace_context,
             redelivered=execution.redelivered,
+            function_name=execution.function_name,
         )
         self.state: ExecutionState = execution.state
         self.started_at: datetime | None = execution.started_at
-- 
2.43.0


From 895171a0e02ffac7c49d16a03189783e070356d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 41/69] fix: snapshot() of an in-memory docket with a running
 task works

---
 src/docket/_docket_snapshot.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index d410633..08714d6 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -168,6 +168,17 @@ class DocketSnapshotMixin:
 
         total_tasks = total_stream_messages + total_schedule_messages
 
+        # The in-memory backend names these fields in bytes
+        pending_messages = [
+            cast(
+                "RedisStreamPendingMessage",
+                {
+                    field.decode() if isinstance(field, bytes) else field: value
+                    for field, value in pending.items()
+                },
+            )
+            for pending in pending_messages
+        ]
         pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {
             pending["message_id"]: pending for pending in pending_messages
         }
-- 
2.43.0


From 49bcc5fc23a5586bf44de07b5ddf85e4b5ab562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 42/69] fix: snapshot() works with tasks this docket doesn't
 know

---
 src/docket/_docket_snapshot.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index 08714d6..1661d38 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -14,6 +14,10 @@ if TYPE_CHECKING:
     from .docket import RedisMessage, RedisMessageID, RedisStreamPendingMessage
 
 
+async def _unregistered(*args: object, **kwargs: object) -> None:
+    """Stands in for the function of a task that isn't registered with the docket."""
+
+
 @dataclass
 class WorkerInfo:
     name: str
@@ -189,7 +193,9 @@ class DocketSnapshotMixin:
         docket = cast(Docket, self)
 
         for message_id, message in stream_messages:
-            execution = await Execution.from_message(docket, message)
+            execution = await Execution.from_message(
+                docket, message, fallback_task=_unregistered
+            )
             if message_id in pending_lookup:
                 worker_name = pending_lookup[message_id]["consumer"].decode()
                 started = now - timedelta(
@@ -200,7 +206,9 @@ class DocketSnapshotMixin:
                 future.append(execution)  # pragma: no cover
 
         for message in queued_messages:
-            execution = await Execution.from_message(docket, message)
+            execution = await Execution.from_message(
+                docket, message, fallback_task=_unregistered
+            )
             future.append(execution)
 
         workers = await self.workers()
-- 
2.43.0


From cc9e7864be1e9cc55828f0adb786dacb7eec8053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 43/69] fix: clear() drops the progress of cleared tasks

---
 src/docket/docket.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index f027aaf..345a30b 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -76,6 +76,7 @@ async def _clear_tasks(
 ) -> int:
     """
     local cleared = 0
+    local kept = {}
 
     local function forget(task_key)
         -- Clear parked data and legacy keys
@@ -97,6 +98,12 @@ async def _clear_tasks(
         else
             redis.call('DEL', runs_key)
         end
+
+        -- Drop the progress that an earlier attempt has left, unless an older
+        -- run of this key is still reporting it
+        if not kept[task_key] then
+            redis.call('DEL', docket_prefix .. ':progress:' .. task_key)
+        end
         cleared = cleared + 1
     end
 
@@ -113,6 +120,8 @@ async def _clear_tasks(
             -- Delete messages instead of the stream to preserve consumer group
             redis.call('XDEL', stream_key, entry[1])
             forget(message['key'])
+        else
+            kept[message['key']] = true
         end
     end
 
-- 
2.43.0


From 947683307c7f60dad54641661e928430a3ca2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 44/69] fix: cancellations work whatever characters the
 docket's name contains

---
 src/docket/dependencies/_concurrency.py | 2 +-
 src/docket/docket.py                    | 8 ++++++++
 src/docket/worker.py                    | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index c9b1885..d2b6301 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -738,7 +738,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         cancelled tasks never run regardless of whether we observe the
         publish.
         """
-        pattern = f"{docket.prefix}:cancel:*"
+        pattern = docket.cancellation_pattern
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
             try:
diff --git a/src/docket/docket.py b/src/docket/docket.py
index 345a30b..1a7c32c 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,6 +1,7 @@
 import importlib
 import json
 import logging
+import re
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -306,6 +307,13 @@ class Docket(DocketSnapshotMixin):
         """
         return f"{self.prefix}:{suffix}"
 
+    @property
+    def cancellation_pattern(self) -> str:
+        """The pattern matching the cancellation channels of this docket, and of
+        no other, whatever characters their names contain."""
+        prefix = re.sub(r"([\\*?\[\]])", r"\\\1", self.prefix)
+        return f"{prefix}:cancel:*"
+
     async def __aenter__(self) -> Self:
         self._stack = AsyncExitStack()
         await self._stack.__aenter__()
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 3954fb8..c107762 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1393,7 +1393,7 @@ class Worker:
         if session is None:
             return  # pragma: no cover
 
-        cancel_pattern = self.docket.key("cancel:*")
+        cancel_pattern = self.docket.cancellation_pattern
         log_context = self._log_context()
         while not session.stopping.is_set():
             try:
-- 
2.43.0


From 5ab7b6de639ca3780f4abbd935ade6aadbc89050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 45/69] fix: a task whose arguments can't be loaded fails
 instead of taking workers down

---
 src/docket/execution.py | 16 ++++++++++++++--
 src/docket/worker.py    |  3 +++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 604a914..9701d0b 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -523,6 +523,7 @@ class Execution:
         # The arguments as they arrived, so that rescheduling this execution
         # (a retry, say) isn't affected by what the task did to them
         self._serialized_arguments: tuple[bytes, bytes] | None = None
+        self._arguments_error: Exception | None = None
         self._key = key
 
         # Scheduling metadata
@@ -655,11 +656,21 @@ class Execution:
                 )
             function = fallback_task
 
+        args: tuple[Any, ...] = ()
+        kwargs: dict[str, Any] = {}
+        arguments_error: Exception | None = None
+        try:
+            args = cloudpickle.loads(message[b"args"])
+            kwargs = cloudpickle.loads(message[b"kwargs"])
+        except Exception as error:
+            # For instance, they refer to a module that isn't installed here
+            args, arguments_error = (), error
+
         instance = cls(
             docket=docket,
             function=function,
-            args=cloudpickle.loads(message[b"args"]),
-            kwargs=cloudpickle.loads(message[b"kwargs"]),
+            args=args,
+            kwargs=kwargs,
             key=message[b"key"].decode(),
             when=datetime.fromisoformat(message[b"when"].decode()),
             attempt=int(message[b"attempt"].decode()),
@@ -670,6 +681,7 @@ class Execution:
             message_id=message_id,
         )
         instance._serialized_arguments = (message[b"args"], message[b"kwargs"])
+        instance._arguments_error = arguments_error
         await instance.sync()
         return instance
 
diff --git a/src/docket/worker.py b/src/docket/worker.py
index c107762..7dc74fe 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1099,6 +1099,9 @@ class Worker:
             links=execution.incoming_span_links(),
         ) as span:
             try:
+                if execution._arguments_error is not None:
+                    raise execution._arguments_error
+
                 result: Any = None
                 async with resolved_dependencies(self, execution) as dependencies:
                     dependency_failures = {
-- 
2.43.0


From a91fa6c813565ff24f4b750f36ae8d0f0489cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 46/69] fix: a task's error is recorded whatever its message
 contains

---
 src/docket/worker.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 7dc74fe..bef317d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -9,7 +9,7 @@ import signal
 import socket
 import sys
 import time
-from contextlib import AsyncExitStack, ExitStack, contextmanager
+from contextlib import AsyncExitStack, ExitStack, contextmanager, suppress
 from dataclasses import dataclass
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -148,6 +148,15 @@ async def default_fallback_task(
     )
 
 
+def _exception_message(error: BaseException) -> str:
+    """The message of an exception, as text that can be stored."""
+    try:
+        message = str(error)
+    except Exception:
+        message = f"<unprintable {type(error).__name__} object>"
+    return message.encode(errors="backslashreplace").decode()
+
+
 logger: logging.Logger = logging.getLogger(__name__)
 tracer: Tracer = trace.get_tracer(__name__)
 
@@ -1219,8 +1228,10 @@ class Worker:
                 duration = log_context["duration"] = time.time() - start
                 TASKS_FAILED.add(1, counter_labels)
 
-                span.record_exception(e)
-                span.set_status(Status(StatusCode.ERROR, str(e)))
+                message = _exception_message(e)
+                with suppress(Exception):  # it may have no readable message
+                    span.record_exception(e)
+                span.set_status(Status(StatusCode.ERROR, message))
 
                 outcome = TaskOutcome(
                     duration=timedelta(seconds=duration),
@@ -1283,7 +1294,7 @@ class Worker:
                         )
 
                     # Mark execution as failed with error message
-                    error_msg = f"{type(e).__name__}: {str(e)}"
+                    error_msg = f"{type(e).__name__}: {message}"
                     await execution.mark_as_failed(error_msg, result_key=result_key)
             finally:
                 TASKS_RUNNING.add(-1, counter_labels)
-- 
2.43.0


From aa6f6ae1372f475129f2ae1ea05ee3e68ec421fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 47/69] fix: a logged argument without a usable repr doesn't
 take workers down

---
 src/docket/annotations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index 03c7380..3e022f9 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -70,6 +70,13 @@ class Logged(Annotation):
         self.length_only = length_only
 
     def format(self, argument: Any) -> str:
+        try:
+            return self._format(argument)
+        except Exception:
+            # What can't be shown mustn't keep the task from running
+            return f"<unprintable {type(argument).__name__} object>"
+
+    def _format(self, argument: Any) -> str:
         if self.length_only:
             if isinstance(argument, (dict, set)):
                 return f"{{len {len(argument)}}}"
-- 
2.43.0


From 7105e786061f4c08b3301f45cfaa3c2980d2afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 48/69] fix: a task that can't be rescheduled fails instead of
 taking workers down

---
 src/docket/worker.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index bef317d..9ad4d79 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -15,6 +15,7 @@ from datetime import datetime, timedelta, timezone
 from types import TracebackType
 from typing import (
     Any,
+    Awaitable,
     Generator,
     Mapping,
     Sequence,
@@ -39,7 +40,7 @@ from ._lua import Arg, Key, redis_script
 from ._redis import RedisClient
 from ._telemetry import suppress_instrumentation
 from redis.asyncio import Redis
-from redis.exceptions import ConnectionError, LockError, ResponseError
+from redis.exceptions import ConnectionError, LockError, RedisError, ResponseError
 from typing_extensions import Self
 
 from .dependencies import (
@@ -1242,8 +1243,8 @@ class Worker:
                 failure_handler = get_single_dependency_of_type(
                     dependencies, FailureHandler
                 )
-                if failure_handler and await failure_handler.handle_failure(
-                    execution, outcome
+                if failure_handler and await self._handled(
+                    failure_handler.handle_failure(execution, outcome), call
                 ):
                     # Handler took responsibility (scheduled retry, logged, recorded metrics)
                     # Don't mark as failed - task is being retried
@@ -1253,8 +1254,8 @@ class Worker:
                     completion_handler = get_single_dependency_of_type(
                         dependencies, CompletionHandler
                     )
-                    if completion_handler and await completion_handler.on_complete(
-                        execution, outcome
+                    if completion_handler and await self._handled(
+                        completion_handler.on_complete(execution, outcome), call
                     ):
                         # Handler took responsibility (rescheduled, logged, recorded metrics)
                         pass
@@ -1301,6 +1302,22 @@ class Worker:
                 TASKS_COMPLETED.add(1, counter_labels)
                 TASK_DURATION.record(duration, counter_labels)
 
+    async def _handled(self, handling: Awaitable[bool], call: str) -> bool:
+        """Whether the handler of a failed task took responsibility for it.
+
+        A handler that fails (for instance, because the task asked it for another
+        run with arguments that can't be serialized) hasn't: the task is over.
+        """
+        try:
+            return await handling
+        except RedisError:
+            raise
+        except Exception:
+            logger.exception(
+                "Unable to reschedule %s", call, extra=self._log_context()
+            )
+            return False
+
     def _startup_log(self) -> None:
         logger.info("Starting worker %r with the following tasks:", self.name)
         for task_name, task in self.docket.tasks.items():
-- 
2.43.0


From 737cc958adde47284e942261da17c8367617e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 49/69] fix: a strike that one member can't read doesn't stop
 it from following the others

---
 src/docket/strikelist.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index f5b5476..ede0230 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -615,7 +615,13 @@ class StrikeList:
             for message_id, message in messages:
                 last_id = message_id
                 self._position = _stream_position(message_id)
-                instruction = StrikeInstruction.from_message(message)
+                try:
+                    instruction = StrikeInstruction.from_message(message)
+                except Exception:
+                    # For instance, its value is of a class that isn't known here.
+                    # The instructions after it are still to be followed.
+                    logger.exception("Unable to read a strike instruction")
+                    continue
                 self.update(instruction)
                 logger.info(
                     "%s %r",
-- 
2.43.0


From 705260019a9240779809602f591c7adb9860a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 50/69] fix: an argument that can't be compared to a strike's
 value isn't stricken

---
 src/docket/strikelist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index ede0230..fe88933 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -452,7 +452,7 @@ class StrikeList:
                     return lower <= value <= upper
                 case _:  # pragma: no cover
                     raise ValueError(f"Unknown operator: {operator}")
-        except (ValueError, TypeError):
+        except Exception:
             # If we can't make the comparison due to incompatible types, just log the
             # error and assume the task is not stricken
             logger.warning(
-- 
2.43.0


From 881b6279cbe61b6bb430f9827d3e1b1abe31a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 51/69] fix: extra positional arguments aren't logged as
 keyword-only parameters

---
 src/docket/execution.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 9701d0b..8c03d58 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -716,10 +716,19 @@ class Execution:
 
         signature = get_signature(self.function)
         logged_parameters = Logged.annotated_parameters(signature)
-        parameter_names = list(signature.parameters.keys())
-
-        for i, argument in enumerate(self.args[: len(parameter_names)]):
-            parameter_name = parameter_names[i]
+        positional: list[str] = []
+        variadic = ""
+        for name, parameter in signature.parameters.items():
+            if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+                variadic = name
+            elif parameter.kind not in (
+                inspect.Parameter.KEYWORD_ONLY,
+                inspect.Parameter.VAR_KEYWORD,
+            ):
+                positional.append(name)
+
+        for i, argument in enumerate(self.args):
+            parameter_name = positional[i] if i < len(positional) else variadic
             if logged := logged_parameters.get(parameter_name):
                 arguments.append(logged.format(argument))
             else:
-- 
2.43.0


From 9c653f9694365567f7ae7c787d44d0c09d6edeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 52/69] fix: a strike that can't be compared doesn't log the
 argument's value

---
 src/docket/strikelist.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index fe88933..3d17b4e 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -455,11 +455,12 @@ class StrikeList:
         except Exception:
             # If we can't make the comparison due to incompatible types, just log the
             # error and assume the task is not stricken
+            # (the value itself may not be for logging)
             logger.warning(
-                "Incompatible type for strike condition: %r %s %r",
+                "Incompatible type for strike condition: %r %s %s",
                 strike_value,
                 operator,
-                value,
+                type(value).__name__,
                 exc_info=True,
             )
             return False
-- 
2.43.0


From f1b51acb960bf8dedbfd50191588040dbe9f7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 53/69] fix: a scheduled task keeps all of its fields, its
 trace context included, when it becomes due

---
 src/docket/worker.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 9ad4d79..536a37b 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -202,15 +202,8 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                local message_id = redis.call('XADD', stream_key, '*',
-                    'key', task['key'],
-                    'when', task['when'],
-                    'function', task['function'],
-                    'args', task['args'],
-                    'kwargs', task['kwargs'],
-                    'attempt', task['attempt'],
-                    'generation', task['generation'] or '0'
-                )
+                -- All of it, including the trace context
+                local message_id = redis.call('XADD', stream_key, '*', unpack(task_data))
                 redis.call('DEL', hash_key)
 
                 -- Set run state to queued, and record where the message is so
-- 
2.43.0


From 784492487a58ba0e53364602c768abafa176fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 54/69] fix: a debounced argument may contain braces on Redis
 Cluster

---
 src/docket/dependencies/_debounce.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_debounce.py b/src/docket/dependencies/_debounce.py
index 3c10695..996d8f4 100644
--- a/src/docket/dependencies/_debounce.py
+++ b/src/docket/dependencies/_debounce.py
@@ -118,9 +118,10 @@ class Debounce(Dependency["Debounce"]):
             hash_tag = execution.function_name
             base_key = f"{scope}:debounce:{hash_tag}"
 
-        # Use a Redis hash tag {…} so both keys land on the same cluster slot
-        winner_key = f"{base_key}:{{{hash_tag}}}:winner"
-        seen_key = f"{base_key}:{{{hash_tag}}}:last_seen"
+        # Use a Redis hash tag {…} so both keys land on the same cluster slot; the
+        # argument's value may contain braces of its own, so it only appears inside
+        winner_key = f"{scope}:debounce:{{{hash_tag}}}:winner"
+        seen_key = f"{scope}:debounce:{{{hash_tag}}}:last_seen"
 
         settle_ms = int(self.settle.total_seconds() * 1000)
         now_ms = int(time.time() * 1000)
-- 
2.43.0


From e8a2161b706e4c4469e2e4d09ffeebf1a2bda75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 55/69] fix: workers reconnect to a cluster that was away, and
 after timeouts

---
 src/docket/worker.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 536a37b..d21ba2b 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -40,7 +40,15 @@ from ._lua import Arg, Key, redis_script
 from ._redis import RedisClient
 from ._telemetry import suppress_instrumentation
 from redis.asyncio import Redis
-from redis.exceptions import ConnectionError, LockError, RedisError, ResponseError
+from redis.exceptions import (
+    ClusterDownError,
+    ConnectionError,
+    LockError,
+    RedisClusterException,
+    RedisError,
+    ResponseError,
+)
+from redis.exceptions import TimeoutError as RedisTimeoutError
 from typing_extensions import Self
 
 from .dependencies import (
@@ -93,6 +101,15 @@ from .instrumentation import (
     metrics_server,
 )
 
+# How the loss of Redis shows: a server that can't be reached, one that doesn't answer
+# in time, and a cluster of which no node can be reached or that is down itself
+DISCONNECTIONS = (
+    ConnectionError,
+    RedisTimeoutError,
+    RedisClusterException,
+    ClusterDownError,
+)
+
 # Delay before retrying a task blocked by admission control (e.g., concurrency limits)
 # Must be larger than redelivery_timeout to ensure atomic reschedule+ACK completes
 # before Redis would consider redelivering the message
@@ -580,7 +597,7 @@ class Worker:
                 try:
                     async with self.docket.redis() as redis:
                         return await self._worker_loop(redis, forever=forever)
-                except ConnectionError:
+                except DISCONNECTIONS:
                     if stopping.is_set():
                         return
                     REDIS_DISRUPTIONS.add(1, self.labels())
@@ -769,7 +786,7 @@ class Worker:
                 if not execution._acked:
                     await execution.mark_as_failed(error=None)
 
-        disconnect: ConnectionError | None = None
+        disconnect: Exception | None = None
         try:
             async with AsyncExitStack() as dependency_stack:
                 # Each Dependency class used by a registered task may declare
@@ -843,7 +860,7 @@ class Worker:
 
                             if not forever and not active_tasks:
                                 has_work = await check_for_work()
-                        except ConnectionError as error:
+                        except DISCONNECTIONS as error:
                             # The worker's own polling read lost its connection --
                             # a failover or a server restart drops a blocked
                             # XREADGROUP this way.  Stop the loop and let _run
@@ -858,8 +875,8 @@ class Worker:
                     session.stopping.set()
 
             # A disconnection in the poll loop above leaves the TaskGroup intact
-            # (no exception escaped it), so re-raise it here as a bare
-            # ConnectionError for _run to catch and reconnect on.
+            # (no exception escaped it), so re-raise it here as it is
+            # for _run to catch and reconnect on.
             if disconnect is not None:
                 raise disconnect
         except asyncio.CancelledError:
-- 
2.43.0


From fe1b3d9807a34bd39530ca1aac8c77aceec040e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 56/69] fix: workers reconnect when the connection is lost as
 they schedule their automatic tasks

---
 src/docket/worker.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index d21ba2b..2e0b609 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -815,7 +815,10 @@ class Worker:
                         session.stopping.set()
                         return
                     if self.schedule_automatic_tasks:
-                        await self._schedule_all_automatic_perpetual_tasks()
+                        try:
+                            await self._schedule_all_automatic_perpetual_tasks()
+                        except DISCONNECTIONS as error:
+                            disconnect = error
                         infra.create_task(
                             self._reseed_automatic_perpetual_tasks_loop(),
                             name=f"{self.docket.name} - automatic perpetual reseed",
@@ -834,8 +837,10 @@ class Worker:
                     )
                     has_work: bool = True
                     while (
-                        forever or has_work or active_tasks
-                    ) and not stopping.is_set():
+                        disconnect is None
+                        and (forever or has_work or active_tasks)
+                        and not stopping.is_set()
+                    ):
                         await process_completed_tasks()
                         available_slots = self.concurrency - len(active_tasks)
                         if available_slots <= 0:
@@ -874,7 +879,7 @@ class Worker:
 
                     session.stopping.set()
 
-            # A disconnection in the poll loop above leaves the TaskGroup intact
+            # A disconnection above leaves the TaskGroup intact
             # (no exception escaped it), so re-raise it here as it is
             # for _run to catch and reconnect on.
             if disconnect is not None:
-- 
2.43.0


From a133221f796b2972e6268dfab58a46bd8d9eecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 57/69] fix: docket watch keeps listening through quiet times

---
 src/docket/cli/_support.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index 9a7e5fd..fd26783 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -35,16 +35,34 @@ async def iterate_with_timeout(
     """
     import asyncio
 
+    async def next_item() -> dict[str, Any]:
+        return await iterator.__anext__()
+
+    # An item that's still awaited when the timeout expires stays awaited:
+    # cancelling it would end the iterator it comes from.
+    upcoming: asyncio.Task[dict[str, Any]] | None = None
+
     try:
         while True:
-            try:
-                yield await asyncio.wait_for(iterator.__anext__(), timeout=timeout)
-            except asyncio.TimeoutError:
+            if upcoming is None:
+                upcoming = asyncio.create_task(next_item())
+
+            done, _ = await asyncio.wait([upcoming], timeout=timeout)
+            if not done:
                 # Yield None to signal timeout, allowing caller to handle polling
                 yield None
+                continue
+
+            finished, upcoming = upcoming, None
+            try:
+                item = finished.result()
             except StopAsyncIteration:
                 break
+            yield item
     finally:
+        if upcoming is not None:
+            upcoming.cancel()
+            await asyncio.wait([upcoming])
         await iterator.aclose()
 
 
-- 
2.43.0


From 45660d3de669a3db44956447fdfc2bbe404df48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 58/69] fix: docket watch ends when the task is cancelled

---
 src/docket/cli/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/docket/cli/__init__.py b/src/docket/cli/__init__.py
index 0683961..a193655 100644
--- a/src/docket/cli/__init__.py
+++ b/src/docket/cli/__init__.py
@@ -678,7 +678,13 @@ def watch(
                 ExecutionState.RUNNING: "blue",
                 ExecutionState.COMPLETED: "green",
                 ExecutionState.FAILED: "red",
+                ExecutionState.CANCELLED: "magenta",
             }
+            terminal_states = (
+                ExecutionState.COMPLETED,
+                ExecutionState.FAILED,
+                ExecutionState.CANCELLED,
+            )
 
             # Load initial snapshot
             await execution.sync()
@@ -755,6 +761,8 @@ def watch(
                     )
                 elif current_state == ExecutionState.FAILED:
                     info_lines.append("[red bold]✗ Task failed[/red bold]")
+                elif current_state == ExecutionState.CANCELLED:
+                    info_lines.append("[magenta bold]✗ Task cancelled[/magenta bold]")
 
                 info_section = "\n".join(info_lines)
 
@@ -776,7 +784,7 @@ def watch(
             layout = create_display_layout()
 
             # If already in terminal state, display once and exit
-            if current_state in (ExecutionState.COMPLETED, ExecutionState.FAILED):
+            if current_state in terminal_states:
                 console.print(layout)
                 return
 
@@ -830,10 +838,7 @@ def watch(
                         live.update(layout)
 
                         # Exit if terminal state reached
-                        if current_state in (
-                            ExecutionState.COMPLETED,
-                            ExecutionState.FAILED,
-                        ):
+                        if current_state in terminal_states:
                             break
 
                     elif event["type"] == "progress":
-- 
2.43.0


From 8bc018ebe260ea0e2ccbd50e8aaa4ecbf708be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 59/69] fix: values with colons can be struck from the command
 line

---
 src/docket/cli/_support.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index fd26783..b7addc6 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -184,10 +184,13 @@ def interpret_python_value(value: str | None) -> Any:
     if value is None:
         return None
 
-    type, _, value = value.rpartition(":")
-    if not type:
+    type, separator, rest = value.partition(":")
+    if not separator or not type:
         # without a type hint, we assume the value is a string
-        return value
+        return rest if separator else value
+
+    # only the first colon separates the type, the value may have its own
+    value = rest
 
     module_name, _, member_name = type.rpartition(".")
     module = importlib.import_module(module_name or "builtins")
-- 
2.43.0


From c5c2e070e059842822d0d137f518f2d39d8be41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 60/69] fix: the command line shows names and messages as they
 are

---
 src/docket/cli/__init__.py | 50 ++++++++++++++++++++++++--------------
 src/docket/cli/_support.py | 11 ++++++---
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/docket/cli/__init__.py b/src/docket/cli/__init__.py
index a193655..3fc0950 100644
--- a/src/docket/cli/__init__.py
+++ b/src/docket/cli/__init__.py
@@ -18,6 +18,7 @@ from rich.progress import (
     TaskID,
 )
 from rich.table import Table
+from rich.text import Text
 
 from docket import __version__, tasks
 from docket.cli._support import (
@@ -567,7 +568,7 @@ def snapshot(
             f"{len(snapshot.running)}/{snapshot.total_tasks} running"
         ),
     ]
-    table = Table(title="\n".join(summary_lines))
+    table = Table(title=Text("\n".join(summary_lines), style="table.title"))
     table.add_column("When", style="green")
     table.add_column("Function", style="cyan")
     table.add_column("Key", style="cyan")
@@ -577,17 +578,17 @@ def snapshot(
     for execution in snapshot.running:
         table.add_row(
             relative(execution.when),
-            execution.function_name,
-            execution.key,
-            execution.worker,
+            Text(execution.function_name),
+            Text(execution.key),
+            Text(execution.worker),
             relative(execution.started),
         )
 
     for execution in snapshot.future:
         table.add_row(
             relative(execution.when),
-            execution.function_name,
-            execution.key,
+            Text(execution.function_name),
+            Text(execution.key),
             "",
             "",
         )
@@ -623,7 +624,7 @@ def snapshot(
                     latest_queued = relative(counts.latest_queued)
 
                 stats_table.add_row(
-                    func_name,
+                    Text(func_name),
                     str(counts.total),
                     str(counts.running),
                     str(counts.queued),
@@ -664,7 +665,10 @@ def watch(
             if not execution:
                 console = Console()
                 console.print(
-                    f"[red]Error:[/red] Task with key '{key}' not found or function not registered",
+                    Text.assemble(
+                        ("Error:", "red"),
+                        f" Task with key '{key}' not found or function not registered",
+                    ),
                     style="bold",
                 )
                 return
@@ -704,7 +708,7 @@ def watch(
             progress_message = execution.progress.message
 
             active_progress = Progress(
-                TextColumn("[bold blue]{task.description}"),
+                TextColumn("{task.description}", style="bold blue", markup=False),
                 BarColumn(bar_width=None),  # Auto width
                 TaskProgressColumn(),
                 TimeElapsedColumn(),
@@ -736,35 +740,45 @@ def watch(
 
                 # Build info lines
                 info_lines = [
-                    f"[bold]Task:[/bold] {key}",
-                    f"[bold]Docket:[/bold] {docket_name}",
+                    Text.assemble(("Task:", "bold"), f" {key}"),
+                    Text.assemble(("Docket:", "bold"), f" {docket_name}"),
                 ]
 
                 # Add state with color
                 state_color = state_colors.get(current_state, "white")
                 info_lines.append(
-                    f"[bold]State:[/bold] [{state_color}]{current_state.value.upper()}[/{state_color}]"
+                    Text.assemble(
+                        ("State:", "bold"),
+                        " ",
+                        (current_state.value.upper(), state_color),
+                    )
                 )
 
                 # Add worker if available
                 if worker_name:  # pragma: no branch
-                    info_lines.append(f"[bold]Worker:[/bold] {worker_name}")
+                    info_lines.append(
+                        Text.assemble(("Worker:", "bold"), f" {worker_name}")
+                    )
 
                 # Add error if failed
                 if error_message:
-                    info_lines.append(f"[red bold]Error:[/red bold] {error_message}")
+                    info_lines.append(
+                        Text.assemble(("Error:", "red bold"), f" {error_message}")
+                    )
 
                 # Add completion status
                 if current_state == ExecutionState.COMPLETED:
                     info_lines.append(
-                        "[green bold]✓ Task completed successfully[/green bold]"
+                        Text("✓ Task completed successfully", style="green bold")
                     )
                 elif current_state == ExecutionState.FAILED:
-                    info_lines.append("[red bold]✗ Task failed[/red bold]")
+                    info_lines.append(Text("✗ Task failed", style="red bold"))
                 elif current_state == ExecutionState.CANCELLED:
-                    info_lines.append("[magenta bold]✗ Task cancelled[/magenta bold]")
+                    info_lines.append(
+                        Text("✗ Task cancelled", style="magenta bold")
+                    )
 
-                info_section = "\n".join(info_lines)
+                info_section = Text("\n").join(info_lines)
 
                 # Build layout without big gaps
                 if progress_task_id is not None:
diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index b7addc6..2ea835b 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -14,6 +14,7 @@ from typing import Any, Collection
 import typer
 from rich.console import Console
 from rich.table import Table
+from rich.text import Text
 
 from docket.docket import DocketSnapshot, WorkerInfo
 
@@ -280,7 +281,9 @@ def print_workers(
 ) -> None:
     sorted_workers = sorted(workers, key=lambda w: w.last_seen, reverse=True)
 
-    table = Table(title=f"Workers in Docket: {docket_name}")
+    table = Table(
+        title=Text(f"Workers in Docket: {docket_name}", style="table.title")
+    )
 
     table.add_column("Name", style="cyan")
     table.add_column("Last Seen", style="green")
@@ -292,14 +295,14 @@ def print_workers(
         time_ago = now - worker.last_seen
 
         tasks = [
-            f"[bold]{task}[/bold]" if task == highlight_task else task
+            Text(task, style="bold" if task == highlight_task else "")
             for task in sorted(worker.tasks)
         ]
 
         table.add_row(
-            worker.name,
+            Text(worker.name),
             f"{time_ago} ago",
-            "\n".join(tasks) if tasks else "(none)",
+            Text("\n").join(tasks) if tasks else "(none)",
         )
 
     console = Console()
-- 
2.43.0


From ea23dbba09405d0906a719428bfc691dfa0baa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 61/69] fix: get_execution() names a task as it was submitted

---
 src/docket/docket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 1a7c32c..b705d3b 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -784,6 +784,7 @@ class Docket(DocketSnapshotMixin):
                 key=key,
                 when=when,
                 attempt=1,
+                function_name=function_name_str,
             )
 
             # Sync with current state from Redis
-- 
2.43.0


From 8d1cb60d734695e2f9320cae71d69138c8a2b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 62/69] fix: a parameter annotated with a bare generic doesn't
 keep workers from starting

---
 src/docket/execution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 8c03d58..c72fbcc 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1293,8 +1293,11 @@ def compact_signature(signature: inspect.Signature) -> str:
         parameter_definition = parameter.name
         if parameter.annotation is not parameter.empty:
             annotation = parameter.annotation
-            if hasattr(annotation, "__origin__"):
-                annotation = annotation.__args__[0]
+            # Bare generics (``List``) and ``tuple[()]`` have no arguments
+            if hasattr(annotation, "__origin__") and (
+                arguments := getattr(annotation, "__args__", ())
+            ):
+                annotation = arguments[0]
 
             type_name = getattr(annotation, "__name__", str(annotation))
             parameter_definition = f"{parameter.name}: {type_name}"
-- 
2.43.0


From 859350e5d72ca1aee16eb35a138e0f39c2147d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 63/69] fix: a parameter with an unhashable default doesn't
 take workers down

---
 src/docket/annotations.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index 3e022f9..91e9453 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -13,10 +13,21 @@ class Annotation(abc.ABC):
     @classmethod
     def annotated_parameters(cls, signature: inspect.Signature) -> Mapping[str, Self]:
         key = (cls, signature)
-        if key in cls._cache:
-            CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
-            return cls._cache[key]
+        try:
+            hash(key)
+        except TypeError:
+            # A parameter's default (``[]``, say) isn't hashable
+            return cls._find_annotated_parameters(signature)
+
+        if key not in cls._cache:
+            cls._cache[key] = cls._find_annotated_parameters(signature)
+        CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
+        return cls._cache[key]
 
+    @classmethod
+    def _find_annotated_parameters(
+        cls, signature: inspect.Signature
+    ) -> Mapping[str, Self]:
         annotated: dict[str, Self] = {}
 
         for param_name, param in signature.parameters.items():
@@ -34,8 +45,6 @@ class Annotation(abc.ABC):
                 elif isinstance(arg_type, type) and issubclass(arg_type, cls):
                     annotated[param_name] = arg_type()
 
-        cls._cache[key] = annotated
-        CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
         return annotated
 
 
-- 
2.43.0


From ae14dbaad01d9794d32efc1760aa57762e4e189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 64/69] fix: strikes on arguments whose comparison has no truth
 value don't fail calls

---
 src/docket/strikelist.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 3d17b4e..1f06106 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -434,22 +434,23 @@ class StrikeList:
     def _is_match(self, value: Any, operator: Operator, strike_value: Any) -> bool:
         """Determines if a value matches a strike condition."""
         try:
+            # Some comparisons (of arrays, say) are neither true nor false
             match operator:
                 case "==":
-                    return value == strike_value
+                    return bool(value == strike_value)
                 case "!=":
-                    return value != strike_value
+                    return bool(value != strike_value)
                 case ">":
-                    return value > strike_value
+                    return bool(value > strike_value)
                 case ">=":
-                    return value >= strike_value
+                    return bool(value >= strike_value)
                 case "<":
-                    return value < strike_value
+                    return bool(value < strike_value)
                 case "<=":
-                    return value <= strike_value
+                    return bool(value <= strike_value)
                 case "between":  # pragma: no branch
                     lower, upper = strike_value
-                    return lower <= value <= upper
+                    return bool(lower <= value <= upper)
                 case _:  # pragma: no cover
                     raise ValueError(f"Unknown operator: {operator}")
         except Exception:
-- 
2.43.0


From 408adfd04a00ad6bad85166939ff3ce6837eb6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 65/69] fix: a task that is over stays as recorded when its
 cancellation arrives late

---
 src/docket/execution.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index c72fbcc..4efbb73 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -412,6 +412,15 @@ async def _terminal(
         end
     end
 
+    -- A task that is over stays as it is, also when it is cancelled while its
+    -- worker waits for the reply to the call that recorded its outcome.
+    if generation > 0 and state == 'cancelled' then
+        local recorded = redis.call('HGET', runs_key, 'state')
+        if recorded == 'completed' or recorded == 'failed' then
+            return 'OK'
+        end
+    end
+
     -- Build HSET args: state + completed_at + any extras
     local hset_args = {'state', state, 'completed_at', completed_at}
     for i = extra_fields_start, #ARGV, 2 do
-- 
2.43.0


From 67d4cd5797c4614d2ac7980dc5f08b22bc7324da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 66/69] fix: a cluster's pub/sub connections use the URL's
 credentials and TLS options

---
 src/docket/_redis.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index 1d15c66..f73879a 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -41,7 +41,7 @@ from urllib.parse import ParseResult, urlparse, urlunparse
 from redis.asyncio import ConnectionPool, Redis
 from redis.asyncio.client import PubSub
 from redis.asyncio.cluster import RedisCluster
-from redis.asyncio.connection import Connection, SSLConnection
+from redis.asyncio.connection import Connection, SSLConnection, parse_url
 
 logger: logging.Logger = logging.getLogger(__name__)
 
@@ -55,6 +55,18 @@ logger: logging.Logger = logging.getLogger(__name__)
 BLOCKING_READ_SOCKET_TIMEOUT: float | None = None
 
 
+# The options of a cluster URL that apply to the pub/sub connection to one of its
+# nodes, along with the ``ssl_`` ones.
+NODE_OPTIONS = (
+    "username",
+    "password",
+    "protocol",
+    "client_name",
+    "socket_connect_timeout",
+    "health_check_interval",
+)
+
+
 # ---------------------------------------------------------------------------
 # Input type aliases (mirror redis-py's type domain)
 # ---------------------------------------------------------------------------
@@ -793,11 +805,17 @@ class RedisConnection:
         if not nodes:
             raise RuntimeError("No primary nodes available in cluster")
         node = nodes[0]
+        # Speak to the node as the cluster client does: the same (unquoted)
+        # credentials and the same TLS and protocol options.
+        options: dict[str, Any] = {
+            name: value
+            for name, value in parse_url(self._normalized_url()).items()
+            if name in NODE_OPTIONS or name.startswith("ssl_")
+        }
         return ConnectionPool(
             host=node.host,
             port=int(node.port),
-            username=self._parsed.username,
-            password=self._parsed.password,
+            **options,
             connection_class=SSLConnection
             if self._parsed.scheme == "rediss+cluster"
             else Connection,
-- 
2.43.0


From 9e9da92150c2c3f9b3938ead429d225db76f8dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 67/69] fix: protocol=3 in a URL doesn't take workers down

---
 src/docket/_redis.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index f73879a..aadbb67 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -546,6 +546,18 @@ class MemoryRedisClient(RedisClient, AsyncCloseable, Protocol):
     """Protocol for the in-process Redis client used by memory:// URLs."""
 
 
+def with_resp2_replies(url: str) -> str:
+    """Drop ``protocol=3`` from a URL's options.
+
+    Asking redis-py for RESP3 explicitly changes the shape of its replies (those of
+    XREAD become dictionaries, for one), while docket reads the RESP2 shapes that
+    redis-py gives by default, whichever protocol it speaks on the wire.
+    """
+    base, mark, query = url.partition("?")
+    options = [option for option in query.split("&") if option != "protocol=3"]
+    return f"{base}{mark}{'&'.join(options)}"
+
+
 async def close_resource(resource: AsyncCloseable, name: str) -> None:
     """Close a resource with error handling.
 
@@ -771,12 +783,14 @@ class RedisConnection:
 
         Returns:
             The URL with +cluster removed from the scheme if cluster mode,
-            otherwise the original URL
+            and without ``protocol=3``
         """
         if not self.is_cluster:
-            return self.url
+            return with_resp2_replies(self.url)
         new_scheme = self._parsed.scheme.replace("+cluster", "")
-        return urlunparse(self._parsed._replace(scheme=new_scheme))
+        return with_resp2_replies(
+            urlunparse(self._parsed._replace(scheme=new_scheme))
+        )
 
     async def _create_cluster_client(self) -> RedisCluster:  # pragma: no cover
         """Create and initialize an async RedisCluster client.
@@ -842,12 +856,12 @@ class RedisConnection:
             from ._redis_sentinel import sentinel_connection_pool
 
             return sentinel_connection_pool(
-                self.url,
+                self._normalized_url(),
                 decode_responses=decode_responses,
                 socket_timeout=BLOCKING_READ_SOCKET_TIMEOUT,
             )
         return ConnectionPool.from_url(  # pyright: ignore[reportUnknownMemberType]
-            self.url,
+            self._normalized_url(),
             decode_responses=decode_responses,
             socket_timeout=BLOCKING_READ_SOCKET_TIMEOUT,
         )
-- 
2.43.0


From 26292c8e6b424d59a4d8ad8f0e1cc61506e2d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 68/69] fix: a Sentinel that's away doesn't keep dockets from
 finding their master

---
 src/docket/_redis_sentinel.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/docket/_redis_sentinel.py b/src/docket/_redis_sentinel.py
index 61895f1..6b3206a 100644
--- a/src/docket/_redis_sentinel.py
+++ b/src/docket/_redis_sentinel.py
@@ -8,6 +8,7 @@ noticed promptly.  ``_redis.py`` only detects the scheme and dispatches here.
 
 from __future__ import annotations
 
+import asyncio
 import logging
 import socket
 from dataclasses import dataclass
@@ -211,6 +212,23 @@ def parse_sentinel_url(url: str) -> SentinelConfiguration:
     )
 
 
+class OrderlySentinel(Sentinel):
+    """A Sentinel manager that looks for one master at a time.
+
+    redis-py moves the Sentinel that answered to the top of its list, while other
+    lookups may be halfway through it: with one Sentinel down, those would ask that
+    one twice, and the others never.
+    """
+
+    def __init__(self, *args: Any, **kwargs: Any) -> None:
+        super().__init__(*args, **kwargs)  # pyright: ignore[reportUnknownMemberType]
+        self._looking = asyncio.Lock()
+
+    async def discover_master(self, service_name: str) -> Any:
+        async with self._looking:
+            return await super().discover_master(service_name)
+
+
 class OwnedSentinelConnectionPool(SentinelConnectionPool):
     """A SentinelConnectionPool that owns its Sentinel manager.
 
@@ -259,7 +277,7 @@ def sentinel_connection_pool(
         A ConnectionPool ready for use with Redis clients.
     """
     config = parse_sentinel_url(url)
-    sentinel = Sentinel(config.sentinels, sentinel_kwargs=config.sentinel_kwargs)
+    sentinel = OrderlySentinel(config.sentinels, sentinel_kwargs=config.sentinel_kwargs)
     # Defaults first so URL query options override them, just as
     # ConnectionPool.from_url lets a socket_timeout in a standalone URL win.
     pool_kwargs: dict[str, Any] = {
-- 
2.43.0


From 25aaafcd6f05cf22dd0814c2bc027ce158759d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 69/69] fix: a snapshot knows since when long tasks have been
 running

---
 src/docket/_docket_snapshot.py | 59 +++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index 1661d38..10eff8b 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -160,33 +160,47 @@ class DocketSnapshotMixin:
                         return await self.snapshot()
                     raise  # pragma: no cover
 
+                # The in-memory backend names these fields in bytes
+                pending_messages = [
+                    cast(
+                        "RedisStreamPendingMessage",
+                        {
+                            field.decode() if isinstance(field, bytes) else field: value
+                            for field, value in pending.items()
+                        },
+                    )
+                    for pending in pending_messages
+                ]
+                pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {
+                    pending["message_id"]: pending for pending in pending_messages
+                }
+
                 for task_key in scheduled_task_keys:
                     pipeline.hgetall(self.parked_task_key(task_key.decode()))
 
+                # A task's lease is renewed while it runs, so the time since its
+                # delivery doesn't tell for how long it has been running.
+                running_task_keys = [
+                    message[b"key"]
+                    for message_id, message in stream_messages
+                    if message_id in pending_lookup
+                ]
+                for task_key in running_task_keys:
+                    pipeline.hgetall(self.runs_key(task_key.decode()))
+
                 # Because these are two separate pipeline commands, it's possible that
                 # a message has been moved from the schedule to the stream in the
                 # meantime, which would end up being an empty `{}` message
+                stored: list[RedisMessage] = await pipeline.execute()
                 queued_messages: list[RedisMessage] = [
-                    m for m in await pipeline.execute() if m
+                    m for m in stored[: len(scheduled_task_keys)] if m
                 ]
+                records: dict[bytes, dict[bytes, bytes]] = dict(
+                    zip(running_task_keys, stored[len(scheduled_task_keys) :])
+                )
 
         total_tasks = total_stream_messages + total_schedule_messages
 
-        # The in-memory backend names these fields in bytes
-        pending_messages = [
-            cast(
-                "RedisStreamPendingMessage",
-                {
-                    field.decode() if isinstance(field, bytes) else field: value
-                    for field, value in pending.items()
-                },
-            )
-            for pending in pending_messages
-        ]
-        pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {
-            pending["message_id"]: pending for pending in pending_messages
-        }
-
         # Import here to avoid circular import
         from .docket import Docket
 
@@ -198,9 +212,16 @@ class DocketSnapshotMixin:
             )
             if message_id in pending_lookup:
                 worker_name = pending_lookup[message_id]["consumer"].decode()
-                started = now - timedelta(
-                    milliseconds=pending_lookup[message_id]["time_since_delivered"]
-                )
+                record = records[message[b"key"]]
+                if (
+                    record.get(b"state") == b"running"
+                    and record.get(b"worker") == worker_name.encode()
+                ):
+                    started = datetime.fromisoformat(record[b"started_at"].decode())
+                else:
+                    started = now - timedelta(
+                        milliseconds=pending_lookup[message_id]["time_since_delivered"]
+                    )
                 running.append(RunningExecution(execution, worker_name, started))
             else:
                 future.append(execution)  # pragma: no cover
-- 
2.43.0

