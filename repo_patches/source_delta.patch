From 34a96eaabc728192fddfec3ee4957589a9011dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 001/111] fix: let the 'any' and 'all' substitutions be used
 from launch files

Their parse methods returned an 'args' keyword argument which the constructors,
taking positional arguments only, do not accept.
---
 launch/launch/substitutions/boolean_substitution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch/launch/substitutions/boolean_substitution.py b/launch/launch/substitutions/boolean_substitution.py
index 14b57ae..bf87d37 100644
--- a/launch/launch/substitutions/boolean_substitution.py
+++ b/launch/launch/substitutions/boolean_substitution.py
@@ -14,6 +14,7 @@
 
 """Module for boolean substitutions."""
 
+import functools
 from typing import Iterable
 from typing import List
 from typing import Sequence
@@ -177,7 +178,7 @@ class AnySubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AnySubstitution` substitution."""
-        return cls, {'args': data}
+        return functools.partial(cls, *data), {}
 
     @property
     def args(self) -> List[List[Substitution]]:
@@ -223,7 +224,7 @@ class AllSubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AllSubstitution` substitution."""
-        return cls, {'args': data}
+        return functools.partial(cls, *data), {}
 
     @property
     def args(self) -> List[List[Substitution]]:
-- 
2.43.0


From 512e06eff2de5124055d92af501571581c1fd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 002/111] fix: accept an empty list of actions in handlers of
 action events

OnProcessExit(on_exit=[]) and the like raised an AttributeError when the event
was handled.
---
 launch/launch/event_handlers/on_action_event_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/launch/launch/event_handlers/on_action_event_base.py b/launch/launch/event_handlers/on_action_event_base.py
index b8178dc..aaa9f55 100644
--- a/launch/launch/event_handlers/on_action_event_base.py
+++ b/launch/launch/event_handlers/on_action_event_base.py
@@ -84,6 +84,9 @@ class OnActionEventBase(BaseEventHandler):
             return True
         super().__init__(matcher=event_matcher, **kwargs)
         self.__actions_on_event: List[LaunchDescriptionEntity] = []
+        self.__on_event: Optional[
+            Callable[[Event, LaunchContext], Optional[SomeEntitiesType]]
+        ] = None
         # TODO(wjwwood) check that it is not only callable, but also a callable that matches
         # the correct signature for a handler in this case
         if callable(on_event):
@@ -107,9 +110,9 @@ class OnActionEventBase(BaseEventHandler):
         """Handle the given event."""
         super().handle(event, context)
 
-        if self.__actions_on_event:
-            return self.__actions_on_event
-        return self.__on_event(event, context)
+        if self.__on_event is not None:
+            return self.__on_event(event, context)
+        return self.__actions_on_event
 
     def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
         """Return a description tuple."""
@@ -124,7 +127,7 @@ class OnActionEventBase(BaseEventHandler):
         # TODO(jacobperron): revisit how to describe known actions that are passed in.
         #                    It would be nice if the parent class could output their description
         #                    via the 'entities' property.
-        if self.__actions_on_event:
+        if self.__on_event is None:
             return '<actions>'
         return '{}'.format(self.__on_event)
 
-- 
2.43.0


From 5cf681f62e8b8540bf0c8f3434148cb616f57721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 003/111] fix: wait for entities visited before one which
 raised an exception

The futures collected before the exception were dropped, so run() returned
without waiting for the processes already started, which were left orphaned.
---
 .../visit_all_entities_and_collect_futures_impl.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
index ff94f99..8d28ada 100644
--- a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
+++ b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
@@ -41,6 +41,13 @@ def visit_all_entities_and_collect_futures(
     if entity_future is not None:
         futures_to_return.append((entity, entity_future))
     if sub_entities is not None:
-        for sub_entity in sub_entities:
-            futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
+        try:
+            for sub_entity in sub_entities:
+                futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
+        except Exception:
+            # The futures collected so far cannot be returned to the caller, but the launch
+            # system still has to wait for the entities which were visited before the failure.
+            for _, future in futures_to_return:
+                context.add_completion_future(future)
+            raise
     return [future_pair for future_pair in futures_to_return if future_pair[1] is not None]
-- 
2.43.0


From d841127f4b01a4999d1b4b1b998f92151657adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 004/111] fix: let all handlers handle an event even if one of
 them raises

An exception in one handler kept the remaining handlers from being called and
leaked the locals pushed for it.  When this happened for the Shutdown event, the
running processes were never told to shut down.
---
 launch/launch/launch_service.py | 61 ++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index defd771..05dece4 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -231,30 +231,45 @@ class LaunchService:
 
     async def __process_event(self, event: Event) -> None:
         self.__logger.debug("processing event: '{}'".format(event))
+        exception_to_raise = None
         for event_handler in tuple(self.__context._event_handlers):
-            if event_handler.matches(event):
-                self.__logger.debug(
-                    "processing event: '{}' ✓ '{}'".format(event, event_handler))
-                self.__context._push_locals()
-                entities = event_handler.handle(event, self.__context)
-                entities = \
-                    entities if isinstance(entities, collections.abc.Iterable) else (entities,)
-                for entity in [e for e in entities if e is not None]:
-                    from .utilities import is_a_subclass
-                    if not is_a_subclass(entity, LaunchDescriptionEntity):
-                        raise RuntimeError(
-                            "expected a LaunchDescriptionEntity from event_handler, got '{}'"
-                            .format(entity)
-                        )
-                    self._entity_future_pairs.extend(
-                        visit_all_entities_and_collect_futures(entity, self.__context))
-                self.__context._pop_locals()
-            else:
-                pass
-                # Keep this commented for now, since it's very chatty.
-                # self.__logger.debug(
-                #     'launch.LaunchService',
-                #     "processing event: '{}' x '{}'".format(event, event_handler))
+            try:
+                self.__process_event_with_handler(event, event_handler)
+            except Exception as exc:
+                # Let the other handlers handle the event too, e.g. the ones which shut down
+                # running processes, and propagate the first exception afterwards.
+                if exception_to_raise is None:
+                    exception_to_raise = exc
+                else:
+                    self.__logger.error(exc)
+        if exception_to_raise is not None:
+            raise exception_to_raise
+
+    def __process_event_with_handler(self, event, event_handler):
+        if not event_handler.matches(event):
+            # Keep this commented for now, since it's very chatty.
+            # self.__logger.debug(
+            #     'launch.LaunchService',
+            #     "processing event: '{}' x '{}'".format(event, event_handler))
+            return
+        self.__logger.debug(
+            "processing event: '{}' ✓ '{}'".format(event, event_handler))
+        self.__context._push_locals()
+        try:
+            entities = event_handler.handle(event, self.__context)
+            entities = \
+                entities if isinstance(entities, collections.abc.Iterable) else (entities,)
+            for entity in [e for e in entities if e is not None]:
+                from .utilities import is_a_subclass
+                if not is_a_subclass(entity, LaunchDescriptionEntity):
+                    raise RuntimeError(
+                        "expected a LaunchDescriptionEntity from event_handler, got '{}'"
+                        .format(entity)
+                    )
+                self._entity_future_pairs.extend(
+                    visit_all_entities_and_collect_futures(entity, self.__context))
+        finally:
+            self.__context._pop_locals()
 
     async def run_async(self, *, shutdown_when_idle=True) -> int:
         """
-- 
2.43.0


From b23c9edabfd28b5c98d64a4d35048a59ac051f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 005/111] fix: never block forever in LaunchService.emit_event

Emitting from the thread running the launch service waited for the loop of that
very thread, and emitting while the run was about to end waited for a task which
the stopping loop never executed.
---
 launch/launch/launch_service.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 05dece4..7503bf6 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -16,6 +16,7 @@
 
 import asyncio
 import collections.abc
+import concurrent.futures
 import contextlib
 import logging
 import platform
@@ -101,16 +102,24 @@ class LaunchService:
 
         If the LaunchService is not running, the event is queued until it is.
         """
-        future = None
+        future = None  # type: Optional[concurrent.futures.Future]
         with self.__loop_from_run_thread_lock:
-            if self.__loop_from_run_thread is not None:
-                # loop is in use, asynchronously emit the event
-                future = asyncio.run_coroutine_threadsafe(
-                    self.__context.emit_event(event),
-                    self.__loop_from_run_thread
-                )
+            if (
+                self.__loop_from_run_thread is not None and
+                threading.current_thread() is not threading.main_thread()
+            ):
+                # loop is in use by the main thread, emit the event from there
+                future = concurrent.futures.Future()
+
+                def emit(future):
+                    self.__context.emit_event_sync(event)
+                    future.set_result(None)
+
+                # Unlike a task, this callback is always called by a loop which is about to stop.
+                self.__loop_from_run_thread.call_soon_threadsafe(emit, future)
             else:
-                # loop is not in use, synchronously emit the event, and it will be processed later
+                # loop is not in use, or it is the one of this thread, in which case blocking
+                # would be a deadlock, synchronously emit the event, and it will be processed later
                 self.__context.emit_event_sync(event)
 
         if future is not None:
-- 
2.43.0


From 73f647ccb8cd129707f8fe6f61e162a52a41ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 006/111] fix: avoid a deadlock when shutting down from another
 thread

shutdown() held the lock of the loop while waiting for the loop to process its
request, while a run about to end waited for the lock.
---
 launch/launch/launch_service.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 7503bf6..a80a313 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -18,6 +18,7 @@ import asyncio
 import collections.abc
 import concurrent.futures
 import contextlib
+import functools
 import logging
 import platform
 import signal
@@ -451,6 +452,12 @@ class LaunchService:
         """
         with self.__loop_from_run_thread_lock:
             if self.__loop_from_run_thread is not None:
+                if threading.current_thread() is not threading.main_thread():
+                    # Let the run thread do it, waiting for it while holding the lock would be
+                    # a deadlock if it is about to exit.
+                    self.__loop_from_run_thread.call_soon_threadsafe(
+                        functools.partial(self.shutdown, force_sync=True))
+                    return None
                 return self._shutdown(
                     reason='LaunchService.shutdown() called',
                     due_to_sigint=False, force_sync=force_sync
-- 
2.43.0


From 8bf48fe9caa308ca0e697dd595a36cf23624218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 007/111] fix: start processes again in a second run of a
 launch service

The context still claimed to be shut down from the previous run, so the second
run silently skipped every process.
---
 launch/launch/launch_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index a80a313..468924e 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -176,6 +176,8 @@ class LaunchService:
 
                 # Set the asyncio loop for the context.
                 self.__context._set_asyncio_loop(this_loop)
+                # Forget about the shutdown of a previous run.
+                self.__context._set_is_shutdown(False)
                 # Recreate the event queue to ensure the same event loop is being used.
                 new_queue = asyncio.Queue()
                 while True:
-- 
2.43.0


From c9b848fcfdb938b89e1a444168304d7d193b1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 008/111] fix: decode process output incrementally

A multi-byte character which was split across two reads of the output was
logged and cached as replacement characters.
---
 launch/launch/actions/execute_local.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 9c53671..d7601ba 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -15,6 +15,7 @@
 """Module for the ExecuteLocal action."""
 
 import asyncio
+import codecs
 import io
 import logging
 import os
@@ -221,6 +222,8 @@ class ExecuteLocal(Action):
         self.__sigkill_timer = None  # type: Optional[TimerAction]
         self.__stdout_buffer = io.StringIO()
         self.__stderr_buffer = io.StringIO()
+        self.__stdout_decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
+        self.__stderr_decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
 
         self.__executed = False
 
@@ -361,10 +364,27 @@ class ExecuteLocal(Action):
         cast(ProcessStdin, event)
         return None
 
+    def __decode(self, event: ProcessIO) -> Text:
+        # Characters may be split across events, so decode incrementally.
+        decoder = self.__stderr_decoder if event.from_stderr else self.__stdout_decoder
+        return decoder.decode(event.text)
+
+    def __flush_decoders(self):
+        for decoder, buffer in (
+            (self.__stdout_decoder, self.__stdout_buffer),
+            (self.__stderr_decoder, self.__stderr_buffer),
+        ):
+            incomplete_character = decoder.decode(b'', final=True)
+            if incomplete_character:
+                last_cursor = buffer.tell()
+                buffer.seek(0, os.SEEK_END)
+                buffer.write(incomplete_character)
+                buffer.seek(last_cursor)
+
     def __on_process_output(
         self, event: ProcessIO, buffer: io.TextIOBase, logger: logging.Logger
     ) -> None:
-        to_write = event.text.decode(errors='replace')
+        to_write = self.__decode(event)
         if buffer.closed:
             # buffer was probably closed by __flush_buffers on shutdown.  Output without
             # buffering.
@@ -389,6 +409,7 @@ class ExecuteLocal(Action):
                 buffer.write(last_line)
 
     def __flush_buffers(self, event, context):
+        self.__flush_decoders()
         line = self.__stdout_buffer.getvalue()
         if line != '':
             self.__stdout_logger.info(
@@ -415,7 +436,7 @@ class ExecuteLocal(Action):
     def __on_process_output_cached(
         self, event: ProcessIO, buffer, logger
     ) -> None:
-        to_write = event.text.decode(errors='replace')
+        to_write = self.__decode(event)
         last_cursor = buffer.tell()
         buffer.seek(0, os.SEEK_END)  # go to end of buffer
         buffer.write(to_write)
@@ -431,6 +452,7 @@ class ExecuteLocal(Action):
         buffer.seek(new_cursor)
 
     def __flush_cached_buffers(self, event, context):
+        self.__flush_decoders()
         for line in self.__stdout_buffer:
             self.__stdout_logger.info(
                 self.__output_format.format(line=line, this=self)
-- 
2.43.0


From d65596c4b7c99b23ad91c59d4f9729582fca37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 009/111] fix: keep conditional inclusion when collecting
 nested launch arguments

An argument declared by an entity nested in a conditional include or group was
considered to be required unconditionally, so including the launch description
failed even if the condition was false.
---
 launch/launch/launch_description.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_description.py b/launch/launch/launch_description.py
index ac67de0..fff9bcf 100644
--- a/launch/launch/launch_description.py
+++ b/launch/launch/launch_description.py
@@ -150,7 +150,7 @@ class LaunchDescription(LaunchDescriptionEntity):
                         next_nested_ild_actions.append(entity)
                     process_entities(
                         entity.describe_sub_entities(),
-                        _conditional_inclusion=False,
+                        _conditional_inclusion=_conditional_inclusion,
                         nested_ild_actions=next_nested_ild_actions)
                     for conditional_sub_entity in entity.describe_conditional_sub_entities():
                         process_entities(
-- 
2.43.0


From c4b93ffae20f098ffbff75309f0a822703626ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 010/111] fix: tolerate nested includes whose argument names
 need a context

IncludeLaunchDescription raised a TypeError when the names of the arguments of a
nested include could not be determined ahead of time.
---
 launch/launch/actions/include_launch_description.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/include_launch_description.py b/launch/launch/actions/include_launch_description.py
index d022d5e..1470455 100644
--- a/launch/launch/actions/include_launch_description.py
+++ b/launch/launch/actions/include_launch_description.py
@@ -168,7 +168,8 @@ class IncludeLaunchDescription(Action):
             argument_names = my_argument_names
             if ild_actions is not None:
                 for ild_action in ild_actions:
-                    argument_names.extend(ild_action._try_get_arguments_names_without_context())
+                    argument_names.extend(
+                        ild_action._try_get_arguments_names_without_context() or [])
             if argument.name not in argument_names:
                 raise RuntimeError(
                     "Included launch description missing required argument '{}' "
-- 
2.43.0


From 35e0d4f5648ac60d4dbe1c06cf5da345564d27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 011/111] fix: restore the launch file location after an
 include

The locals current_launch_file_path and current_launch_file_directory kept
naming the included file for everything listed after the include in the
including launch file, e.g. $(dirname) gave the wrong directory.
---
 launch/launch/actions/include_launch_description.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/include_launch_description.py b/launch/launch/actions/include_launch_description.py
index 1470455..3e6323a 100644
--- a/launch/launch/actions/include_launch_description.py
+++ b/launch/launch/actions/include_launch_description.py
@@ -23,6 +23,7 @@ from typing import Union
 
 import launch.logging
 
+from .opaque_function import OpaqueFunction
 from .set_launch_configuration import SetLaunchConfiguration
 from ..action import Action
 from ..frontend import Entity
@@ -146,6 +147,10 @@ class IncludeLaunchDescription(Action):
     def execute(self, context: LaunchContext) -> List[LaunchDescriptionEntity]:
         """Execute the action."""
         launch_description = self.__launch_description_source.get_launch_description(context)
+        includer_location = {
+            key: value for key, value in context.get_locals_as_dict().items()
+            if key in ('current_launch_file_path', 'current_launch_file_directory')
+        }
         # If the location does not exist, then it's likely set to '<script>' or something.
         context.extend_locals({
             'current_launch_file_path': self._get_launch_file(),
@@ -183,4 +188,10 @@ class IncludeLaunchDescription(Action):
             set_launch_configuration_actions.append(SetLaunchConfiguration(name, value))
 
         # Set launch arguments as launch configurations and then include the launch description.
-        return [*set_launch_configuration_actions, launch_description]
+        entities: List[LaunchDescriptionEntity] = [
+            *set_launch_configuration_actions, launch_description]
+        if includer_location:
+            # Entities after this action belong to the including launch file again.
+            entities.append(OpaqueFunction(
+                function=lambda context: context.extend_locals(includer_location)))
+        return entities
-- 
2.43.0


From e96e3cd5287eddf88159dcfa8be5b204979490d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 012/111] fix: postpone the shutdown of a process only until it
 starts itself

A shutdown requested while the process is being started was retried when any
process started, registering one more event handler each time.
---
 launch/launch/actions/execute_local.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index d7601ba..8b5467c 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -287,8 +287,10 @@ class ExecuteLocal(Action):
             # Do not set shutdown result, as event is postponed
             context.register_event_handler(
                 OnProcessStart(
+                    target_action=lambda action: action is self,
                     on_start=lambda event, context:
-                    self._shutdown_process(context, send_sigint=send_sigint)))
+                    self._shutdown_process(context, send_sigint=send_sigint),
+                    handle_once=True))
             return None
 
         self.__shutdown_future.set_result(None)
-- 
2.43.0


From 895296078be4699ba9471dac6320a996fed14367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 013/111] fix: do not disturb a running process when its action
 is executed again

The second execution is an error, but replaced the name and process details
(without pid) of the running process before it was detected.
---
 launch/launch/actions/execute_local.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 8b5467c..a5d2a82 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -672,13 +672,14 @@ class ExecuteLocal(Action):
         - configures logging for the IO process event
         - create a task for the coroutine that monitors the process
         """
-        self.prepare(context)
-        name = self.__process_description.final_name
-
         if self.__executed:
+            # Do not prepare again, the process may be running.
+            name = self.__process_description.final_name
             raise RuntimeError(
                 f"ExecuteLocal action '{name}': executed more than once: {self.describe()}"
             )
+        self.prepare(context)
+        name = self.__process_description.final_name
         self.__executed = True
 
         if context.is_shutdown:
-- 
2.43.0


From b380a06e2ed239987b5ca5b30a1f23dc535f811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 014/111] fix: announce a shutdown with the reason written in a
 launch file

The reason of a shutdown action of a launch file was a list of substitutions
instead of their text.
---
 launch/launch/actions/shutdown_action.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/launch/launch/actions/shutdown_action.py b/launch/launch/actions/shutdown_action.py
index 5450d3b..3d9f568 100644
--- a/launch/launch/actions/shutdown_action.py
+++ b/launch/launch/actions/shutdown_action.py
@@ -15,8 +15,6 @@
 """Module for the Shutdown action."""
 
 import logging
-from typing import Text
-
 from launch.frontend import Entity
 from launch.frontend import expose_action
 from launch.frontend import Parser
@@ -25,6 +23,9 @@ from .emit_event import EmitEvent
 from ..events import Shutdown as ShutdownEvent
 from ..events.process import ProcessExited
 from ..launch_context import LaunchContext
+from ..some_substitutions_type import SomeSubstitutionsType
+from ..utilities import normalize_to_list_of_substitutions
+from ..utilities import perform_substitutions
 
 _logger = logging.getLogger(name='launch')
 
@@ -33,7 +34,10 @@ _logger = logging.getLogger(name='launch')
 class Shutdown(EmitEvent):
     """Action that shuts down a launched system by emitting Shutdown when executed."""
 
-    def __init__(self, *, reason: Text = 'reason not given', **kwargs):
+    def __init__(self, *, reason: SomeSubstitutionsType = 'reason not given', **kwargs):
+        self.__reason = normalize_to_list_of_substitutions(reason)
+        if not isinstance(reason, str):
+            reason = ''.join([sub.describe() for sub in self.__reason])
         super().__init__(event=ShutdownEvent(reason=reason), **kwargs)
 
     @classmethod
@@ -56,4 +60,6 @@ class Shutdown(EmitEvent):
             _logger.info('process[{}] was required: shutting down launched system'.format(
                 event.process_name))
 
-        super().execute(context)
+        # The reason may only be known now, if it is made of substitutions.
+        context.emit_event_sync(
+            ShutdownEvent(reason=perform_substitutions(context, self.__reason)))
-- 
2.43.0


From 083fcfcf4f955f762795335febec0b33aab41c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 015/111] fix: ignore blanks before a substitution at the start
 of a command

A command like ' \$(var exe) arg' had an empty first argument, so it could not
be executed.
---
 launch/launch/actions/execute_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index c780af7..6999cc8 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -268,7 +268,8 @@ class ExecuteProcess(ExecuteLocal):
                     # Appending args allow splitting two substitutions
                     # separated by a space.
                     # e.g.: `$(subst1 asd) $(subst2 bsd)` will be two separate arguments.
-                    _append_arg()
+                    if arg:
+                        _append_arg()
                     continue
                 if sub.text[0].isspace():
                     # Needed for splitting from the previous argument
-- 
2.43.0


From 25ecf333e360bc5b7332b692ebf49f972d4b410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 016/111] fix: use the parser given to
 FrontendLaunchDescriptionSource

---
 .../frontend_launch_description_source.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_description_sources/frontend_launch_description_source.py b/launch/launch/launch_description_sources/frontend_launch_description_source.py
index dda792b..7bd6e5e 100644
--- a/launch/launch/launch_description_sources/frontend_launch_description_source.py
+++ b/launch/launch/launch_description_sources/frontend_launch_description_source.py
@@ -52,7 +52,7 @@ class FrontendLaunchDescriptionSource(LaunchDescriptionSource):
             launch_file_path,
             method
         )
-        self._parser = Parser
+        self._parser = parser
 
     def _get_launch_description(self, location):
         """Get the LaunchDescription from location."""
-- 
2.43.0


From 6ddd2ee9db6359ff394bb548e922e90d8e39e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 017/111] fix: describe event handlers which have a single
 entity

EventHandler accepts a single entity as well as a list of them, but describing
(and so introspecting) one with a single entity raised a TypeError.
---
 launch/launch/event_handler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index b2f9839..4f0f9e2 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -14,6 +14,7 @@
 
 """Module for EventHandler class."""
 
+import collections.abc
 from typing import Callable
 from typing import List
 from typing import Optional
@@ -133,7 +134,10 @@ class EventHandler(BaseEventHandler):
         """Return the description list with 0 as a string, and then LaunchDescriptionEntity's."""
         text, actions = super().describe()
         if self.entities:
-            actions.extend(self.entities)
+            if isinstance(self.entities, collections.abc.Iterable):
+                actions.extend(self.entities)
+            else:
+                actions.append(self.entities)
         return (text, actions)
 
     def handle(self, event: Event, context: 'LaunchContext') -> Optional[SomeEntitiesType]:
-- 
2.43.0


From fa9d6eceed54e1ea5c095c0136503882d0bc5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 018/111] fix: let ActiveProcInfoHandler be iterated while
 processes exit

The iterator was one over the live dictionary, used outside of the lock.
---
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 08c28a7..f206d83 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -87,7 +87,7 @@ class ActiveProcInfoHandler:
 
     def __iter__(self):
         with self._sync_lock:
-            return self._proc_info_handler.__iter__()
+            return list(self._proc_info_handler).__iter__()
 
     def processes(self):
         """
-- 
2.43.0


From 79b5943a5c0ab8c15432c1f0d966f110dcf6c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 019/111] fix: wake all threads waiting for output or processes

With several waiters only one of them was woken up per event, so another one
whose condition had become true waited for its whole timeout.
---
 launch_testing/launch_testing/io_handler.py        | 4 ++--
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/io_handler.py b/launch_testing/launch_testing/io_handler.py
index ee233a6..b818f44 100644
--- a/launch_testing/launch_testing/io_handler.py
+++ b/launch_testing/launch_testing/io_handler.py
@@ -102,12 +102,12 @@ class ActiveIoHandler:
     def track(self, process_name):
         with self._sync_lock:
             self._io_handler.track(process_name)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def append(self, process_io):
         with self._sync_lock:
             self._io_handler.append(process_io)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index f206d83..8844720 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -83,7 +83,7 @@ class ActiveProcInfoHandler:
     def append(self, process_info):
         with self._sync_lock:
             self._proc_info_handler.append(process_info)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
-- 
2.43.0


From 2ced024ef2b1dcdf9eea8e5fa7596c989207630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 020/111] fix: wait for process output without a timeout, which
 is the default

---
 launch_pytest/launch_pytest/tools/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index 274044b..4de5959 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -53,7 +53,8 @@ async def _wait_for_event_with_condition(
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
             try:
-                await asyncio.wait_for(pyevent.wait(), start - now + timeout)
+                await asyncio.wait_for(
+                    pyevent.wait(), None if timeout is None else start - now + timeout)
             except asyncio.TimeoutError:
                 break
             pyevent.clear()
@@ -81,7 +82,7 @@ def _wait_for_event_with_condition_sync(
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
-            pyevent.wait(start - now + timeout)
+            pyevent.wait(None if timeout is None else start - now + timeout)
             pyevent.clear()
             cond_value = condition()
             now = time.time()
-- 
2.43.0


From 693ce6615baf1e6af3f94b5d5bbbf5b2567bb87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 021/111] fix: evaluate the period of a timer when it is
 executed

It was evaluated only after the entities following the timer were visited, so
with the launch configurations at that time, e.g. without those of the scoped
group the timer is in.  Moreover the launch never ended if it failed.
---
 launch/launch/actions/timer_action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index ac9049c..885bc23 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -82,6 +82,7 @@ class TimerAction(Action):
                 'passing a string literal was deprecated',
                 stacklevel=2)
         self.__period = type_utils.normalize_typed_substitution(period, float)
+        self.__timeout: Optional[float] = None
         self.__actions = actions
         self.__context_locals: Dict[Text, Any] = {}
         self._completed_future: Optional[asyncio.Future] = None
@@ -94,7 +95,7 @@ class TimerAction(Action):
     async def _wait_to_fire_event(self, context):
         done, pending = await asyncio.wait(
             [self._canceled_future],
-            timeout=type_utils.perform_typed_substitution(context, self.__period, float),
+            timeout=self.__timeout,
         )
         if not self._canceled_future.done():
             await context.emit_event(TimerEvent(timer_action=self))
@@ -191,6 +192,9 @@ class TimerAction(Action):
 
         # Capture the current context locals so the yielded actions can make use of them too.
         self.__context_locals = dict(context.get_locals_as_dict())  # Capture a copy
+        # Evaluate the period now, the launch configurations may be different when waiting starts.
+        self.__timeout = cast(
+            float, type_utils.perform_typed_substitution(context, self.__period, float))
         context.asyncio_loop.create_task(self._wait_to_fire_event(context))
 
         # By default, the 'shutdown' event will cause timers to cancel so they don't hold up the
-- 
2.43.0


From 187226a411f048601869dc5129c3b95cd687e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 022/111] fix: let a timer be executed again while it is
 pending

The futures and locals of the pending execution were replaced, so that its
completion was never noticed and the launch did not end.
---
 launch/launch/actions/timer_action.py | 38 ++++++++++++++++++---------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index 885bc23..d8d09a7 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -32,6 +32,7 @@ import launch.logging
 from .opaque_function import OpaqueFunction
 
 from ..action import Action
+from ..event import Event
 from ..event_handler import EventHandler
 from ..events import Shutdown
 from ..events import TimerEvent
@@ -82,9 +83,9 @@ class TimerAction(Action):
                 'passing a string literal was deprecated',
                 stacklevel=2)
         self.__period = type_utils.normalize_typed_substitution(period, float)
-        self.__timeout: Optional[float] = None
         self.__actions = actions
-        self.__context_locals: Dict[Text, Any] = {}
+        # The timer may be executed again while it is pending, so keep them for each event.
+        self.__context_locals: Dict[Event, Dict[Text, Any]] = {}
         self._completed_future: Optional[asyncio.Future] = None
         self.__canceled = False
         self._canceled_future: Optional[asyncio.Future] = None
@@ -92,14 +93,18 @@ class TimerAction(Action):
             cancel_on_shutdown, bool)
         self.__logger = launch.logging.get_logger(__name__)
 
-    async def _wait_to_fire_event(self, context):
+    async def _wait_to_fire_event(
+        self, context, timeout, context_locals, completed_future, canceled_future
+    ):
         done, pending = await asyncio.wait(
-            [self._canceled_future],
-            timeout=self.__timeout,
+            [canceled_future],
+            timeout=timeout,
         )
-        if not self._canceled_future.done():
-            await context.emit_event(TimerEvent(timer_action=self))
-        self._completed_future.set_result(None)
+        if not canceled_future.done():
+            event = TimerEvent(timer_action=self)
+            self.__context_locals[event] = context_locals
+            await context.emit_event(event)
+        completed_future.set_result(None)
 
     @classmethod
     def parse(
@@ -139,7 +144,8 @@ class TimerAction(Action):
 
     def handle(self, context: LaunchContext) -> Optional[SomeEntitiesType]:
         """Handle firing of timer."""
-        context.extend_locals(self.__context_locals)
+        event = cast(Event, context.get_locals_as_dict().get('event'))
+        context.extend_locals(self.__context_locals.pop(event, {}))
         return self.__actions
 
     def cancel(self) -> None:
@@ -167,7 +173,12 @@ class TimerAction(Action):
         - coroutine asynchronously fires event after timeout, if not canceled
         """
         self._completed_future = context.asyncio_loop.create_future()
-        self._canceled_future = context.asyncio_loop.create_future()
+        if (
+            self._canceled_future is None or
+            self._canceled_future.get_loop() is not context.asyncio_loop
+        ):
+            # Otherwise it is pending, in which case cancel() cancels all of its executions.
+            self._canceled_future = context.asyncio_loop.create_future()
 
         if self.__canceled:
             # In this case, the action was canceled before being executed.
@@ -191,11 +202,12 @@ class TimerAction(Action):
             setattr(context, '_TimerAction__event_handler_has_been_installed', True)
 
         # Capture the current context locals so the yielded actions can make use of them too.
-        self.__context_locals = dict(context.get_locals_as_dict())  # Capture a copy
+        context_locals = dict(context.get_locals_as_dict())  # Capture a copy
         # Evaluate the period now, the launch configurations may be different when waiting starts.
-        self.__timeout = cast(
+        timeout = cast(
             float, type_utils.perform_typed_substitution(context, self.__period, float))
-        context.asyncio_loop.create_task(self._wait_to_fire_event(context))
+        context.asyncio_loop.create_task(self._wait_to_fire_event(
+            context, timeout, context_locals, self._completed_future, self._canceled_future))
 
         # By default, the 'shutdown' event will cause timers to cancel so they don't hold up the
         # launch process
-- 
2.43.0


From 554e6a459340e16aada86569d94b3fed63446c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 023/111] fix: handle events of actions which complete when the
 run is about to end

The ExecutionComplete events of timers cancelled by the shutdown were lost when
nothing else was left to do.
---
 launch/launch/launch_service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 468924e..b8eafdf 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -326,6 +326,11 @@ class LaunchService:
 
                     # Stop running if we're shutting down and there's no more work
                     if self.__shutting_down and is_idle:
+                        # Futures which were just completed may still emit events when their
+                        # callbacks are called, e.g. ExecutionComplete.
+                        await asyncio.sleep(0)
+                        if not self._is_idle():
+                            continue
                         if (
                             process_one_event_task is not None and
                             not process_one_event_task.done()
-- 
2.43.0


From 03e68803149e9e422003a2a2eaf571091bacb353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 024/111] fix: do not start processes from shutdown handlers

The service only noted the shutdown after all other handlers of the event had
been called, so processes they returned were started, and never shut down.
---
 launch/launch/launch_service.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index b8eafdf..c74daee 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -38,14 +38,13 @@ import osrf_pycommon
 
 from .event import Event
 from .event_handlers import OnIncludeLaunchDescription
-from .event_handlers import OnShutdown
 from .events import IncludeLaunchDescription
 from .events import Shutdown
 from .launch_context import LaunchContext
 from .launch_description import LaunchDescription
 from .launch_description_entity import LaunchDescriptionEntity
-from .some_entities_type import SomeEntitiesType
 from .utilities import AsyncSafeSignalManager
+from .utilities import is_a_subclass
 from .utilities import visit_all_entities_and_collect_futures
 
 
@@ -78,7 +77,6 @@ class LaunchService:
         # Setup context and register a built-in event handler for bootstrapping.
         self.__context = LaunchContext(argv=self.__argv, noninteractive=noninteractive)
         self.__context.register_event_handler(OnIncludeLaunchDescription())
-        self.__context.register_event_handler(OnShutdown(on_shutdown=self.__on_shutdown))
 
         # Setup storage for state.
         self._entity_future_pairs = \
@@ -243,6 +241,10 @@ class LaunchService:
 
     async def __process_event(self, event: Event) -> None:
         self.__logger.debug("processing event: '{}'".format(event))
+        if is_a_subclass(event, Shutdown):
+            # Before any handler is called, what they return must not start processes anymore.
+            self.__shutting_down = True
+            self.__context._set_is_shutdown(True)
         exception_to_raise = None
         for event_handler in tuple(self.__context._event_handlers):
             try:
@@ -272,7 +274,6 @@ class LaunchService:
             entities = \
                 entities if isinstance(entities, collections.abc.Iterable) else (entities,)
             for entity in [e for e in entities if e is not None]:
-                from .utilities import is_a_subclass
                 if not is_a_subclass(entity, LaunchDescriptionEntity):
                     raise RuntimeError(
                         "expected a LaunchDescriptionEntity from event_handler, got '{}'"
@@ -416,11 +417,6 @@ class LaunchService:
             except KeyboardInterrupt:
                 continue
 
-    def __on_shutdown(self, event: Event, context: LaunchContext) -> Optional[SomeEntitiesType]:
-        self.__shutting_down = True
-        self.__context._set_is_shutdown(True)
-        return None
-
     def _shutdown(self, *, reason, due_to_sigint, force_sync=False) -> Optional[Coroutine]:
         # Assumption is that this method is only called when running.
         retval = None
-- 
2.43.0


From 743726895b2b15d677bfffdfb40252ac41bc81dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 025/111] fix: emit ProcessStarted before any output of the
 process

Output could be received before subprocess_exec() returned, and its
events were then emitted before the ProcessStarted event.
---
 launch/launch/actions/execute_local.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index a5d2a82..66773d7 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -548,6 +548,7 @@ class ExecuteLocal(Action):
             **kwargs
         ) -> None:
             super().__init__(**kwargs)
+            self.__action = action
             self.__context = context
             self.__process_event_args = process_event_args
             self.__logger = launch.logging.get_logger(process_event_args['name'])
@@ -558,6 +559,10 @@ class ExecuteLocal(Action):
             )
             super().connection_made(transport)
             self.__process_event_args['pid'] = transport.get_pid()
+            self.__action._subprocess_protocol = self
+            self.__action._subprocess_transport = transport
+            # Emit this here, as output may be received before this method's caller returns.
+            self.__context.emit_event_sync(ProcessStarted(**self.__process_event_args))
 
         def on_stdout_received(self, data: bytes) -> None:
             self.__context.emit_event_sync(ProcessStdout(text=data, **self.__process_event_args))
@@ -590,7 +595,7 @@ class ExecuteLocal(Action):
             )
 
         try:
-            transport, self._subprocess_protocol = await async_execute_process(
+            transport, protocol = await async_execute_process(
                 lambda **kwargs: self.__ProcessProtocol(
                     self, context, process_event_args, **kwargs
                 ),
@@ -609,11 +614,7 @@ class ExecuteLocal(Action):
             return
 
         pid = transport.get_pid()
-        self._subprocess_transport = transport
-
-        await context.emit_event(ProcessStarted(**process_event_args))
-
-        returncode = await self._subprocess_protocol.complete
+        returncode = await protocol.complete
         if returncode == 0:
             self.__logger.info('process has finished cleanly [pid {}]'.format(pid))
         else:
-- 
2.43.0


From 5b24509eda6255b69857d63c7712058c886c6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 026/111] fix: let functions in Python expressions use the
 given modules

Names given as locals are not visible in generator expressions and
lambdas.
---
 launch/launch/substitutions/python_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/substitutions/python_expression.py b/launch/launch/substitutions/python_expression.py
index 66f02c0..32ee14c 100644
--- a/launch/launch/substitutions/python_expression.py
+++ b/launch/launch/substitutions/python_expression.py
@@ -115,4 +115,4 @@ class PythonExpression(Substitution):
                 expression_locals.update(vars(module))
 
             expression_locals[module.__name__] = module
-        return str(eval(perform_substitutions(context, self.expression), {}, expression_locals))
+        return str(eval(perform_substitutions(context, self.expression), expression_locals))
-- 
2.43.0


From b14f0ee49ddbb06a905e3240e0898a6d1f523beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 027/111] fix: let a backslash escape a backslash in
 substitution text

An escaped backslash before a quote, a dollar sign or a parenthesis
was taken as the escape of that character too.
---
 launch/share/launch/frontend/grammar.lark | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/launch/share/launch/frontend/grammar.lark b/launch/share/launch/frontend/grammar.lark
index 740c2c4..463cf24 100644
--- a/launch/share/launch/frontend/grammar.lark
+++ b/launch/share/launch/frontend/grammar.lark
@@ -6,14 +6,16 @@
 
 IDENTIFIER: LETTER (LETTER | DIGIT | "_" | "-")*
 
-UNQUOTED_STRING: (/[^$]|\$(?!\()|(?<=\\)\$/)+
-UNQUOTED_RSTRING: (/[^ '\\"$\(\)]|(?<=\\)\(|(?<=\\)\)|\$(?!\()|(?<=\\)\$/ | "\\\"" | "\\'" | "\\")+
+// A backslash escapes the character which follows it, whatever that is. It does not make a blank
+// part of an argument though.
+UNQUOTED_STRING: /([^$\\]|\\[\s\S]|\\(?![\s\S])|\$(?!\())+/
+UNQUOTED_RSTRING: /([^ '"\\$\(\)]|\\[^ ]|\\(?= )|\$(?!\())+/
 
-SINGLE_QUOTED_STRING: (/[^'\\$]|\$(?!\()|(?<=\\)\$/ | "\\'" | "\\")+
-SINGLE_QUOTED_RSTRING: (/[^ '\\$\(\)]|(?<=\\)\(|(?<=\\)\)|\$(?!\()|(?<=\\)\$/ | "\\'" | "\\")+
+SINGLE_QUOTED_STRING: /([^'\\$]|\\[\s\S]|\$(?!\())+/
+SINGLE_QUOTED_RSTRING: /([^ '\\$\(\)]|\\[^ ]|\\(?= )|\$(?!\())+/
 
-DOUBLE_QUOTED_STRING: (/[^"\\$]|\$(?!\()|(?<=\\)\$/ | "\\\"" | "\\")+
-DOUBLE_QUOTED_RSTRING: (/[^ "\\$\(\)]|(?<=\\)\(|(?<=\\)\)|\$(?!\()|(?<=\\)\$/ | "\\\"" | "\\")+
+DOUBLE_QUOTED_STRING: /([^"\\$]|\\[\s\S]|\$(?!\())+/
+DOUBLE_QUOTED_RSTRING: /([^ "\\$\(\)]|\\[^ ]|\\(?= )|\$(?!\())+/
 
 single_quoted_part: single_quoted_substitution
   | SINGLE_QUOTED_RSTRING
-- 
2.43.0


From 8892fd71b863278554a55b80bf0b6b40bd1c70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 028/111] fix: refuse a second concurrent run without
 disturbing the first

The refusal used to reset the loop of the run in progress, and run() left a task which
failed later, within that run.
---
 launch/launch/launch_service.py | 54 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index c74daee..a4e0550 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -160,33 +160,33 @@ class LaunchService:
 
     @contextlib.contextmanager
     def _prepare_run_loop(self):
-        try:
-            # Acquire the lock and initialize the loop.
-            with self.__loop_from_run_thread_lock:
-                if self.__loop_from_run_thread is not None:
-                    raise RuntimeError(
-                        'LaunchService cannot be run multiple times concurrently.'
-                    )
-                this_loop = osrf_pycommon.process_utils.get_loop()
-
-                if self.__debug:
-                    this_loop.set_debug(True)
-
-                # Set the asyncio loop for the context.
-                self.__context._set_asyncio_loop(this_loop)
-                # Forget about the shutdown of a previous run.
-                self.__context._set_is_shutdown(False)
-                # Recreate the event queue to ensure the same event loop is being used.
-                new_queue = asyncio.Queue()
-                while True:
-                    try:
-                        new_queue.put_nowait(self.__context._event_queue.get_nowait())
-                    except asyncio.QueueEmpty:
-                        break
-                self.__context._event_queue = new_queue
+        # Acquire the lock and initialize the loop.
+        with self.__loop_from_run_thread_lock:
+            if self.__loop_from_run_thread is not None:
+                raise RuntimeError(
+                    'LaunchService cannot be run multiple times concurrently.'
+                )
+            this_loop = osrf_pycommon.process_utils.get_loop()
 
-                self.__loop_from_run_thread = this_loop
+            if self.__debug:
+                this_loop.set_debug(True)
 
+            # Set the asyncio loop for the context.
+            self.__context._set_asyncio_loop(this_loop)
+            # Forget about the shutdown of a previous run.
+            self.__context._set_is_shutdown(False)
+            # Recreate the event queue to ensure the same event loop is being used.
+            new_queue = asyncio.Queue()
+            while True:
+                try:
+                    new_queue.put_nowait(self.__context._event_queue.get_nowait())
+                except asyncio.QueueEmpty:
+                    break
+            self.__context._event_queue = new_queue
+
+            self.__loop_from_run_thread = this_loop
+
+        try:
             # Get current task.
             try:
                 # Python 3.7+
@@ -416,6 +416,10 @@ class LaunchService:
                 return loop.run_until_complete(run_async_task)
             except KeyboardInterrupt:
                 continue
+            except RuntimeError:
+                # The loop may be running already, do not leave the task to it.
+                run_async_task.cancel()
+                raise
 
     def _shutdown(self, *, reason, due_to_sigint, force_sync=False) -> Optional[Coroutine]:
         # Assumption is that this method is only called when running.
-- 
2.43.0


From 5bbb16aa8d739c59fdace50a6d79d68701de7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 029/111] fix: do not abort the run when a coroutine is
 cancelled by its shutdown

---
 launch/launch/launch_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index a4e0550..fd61aac 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -362,6 +362,9 @@ class LaunchService:
                     # Propagate exception from completed tasks
                     exception_to_raise = None
                     for task in completed_tasks:
+                        if task.cancelled():
+                            # E.g. a coroutine on shutdown, that does not cancel the run itself.
+                            continue
                         exc = task.exception()
                         if exc is None:
                             continue
-- 
2.43.0


From 83165d2a223b8627af3575ee699ad72df20b4e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 030/111] fix: do not process events of the next run outside of
 it after SIGTERM

---
 launch/launch/launch_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index fd61aac..a15c7b9 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -382,6 +382,9 @@ class LaunchService:
                     continue
                 except asyncio.CancelledError:
                     self.__logger.error('run task was canceled')
+                    if process_one_event_task is not None:
+                        # Or else it would process an event outside of a run.
+                        process_one_event_task.cancel()
                     return_code = 1
                     break
                 except Exception as exc:
-- 
2.43.0


From 6b1a9fe972ea9e5b74bd12dd56940e0b98c01703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 031/111] fix: do not miss the errors of coroutines which
 complete between two waits

---
 launch/launch/launch_service.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index a15c7b9..896d9b0 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -359,6 +359,12 @@ class LaunchService:
                         entity_futures,
                         return_when=asyncio.FIRST_COMPLETED
                     )
+                    # Do not miss the ones which were not waited for, or started in the meantime
+                    completed_tasks = set(completed_tasks)
+                    completed_tasks.update(
+                        pair[1] for pair in self._entity_future_pairs if pair[1].done())
+                    completed_tasks.update(
+                        future for future in self.__context._completion_futures if future.done())
                     # Propagate exception from completed tasks
                     exception_to_raise = None
                     for task in completed_tasks:
-- 
2.43.0


From ced900ec8748b653fd24b0a73a8d1e9dd82a4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 032/111] fix: stop a process even if its timeouts are invalid

---
 launch/launch/actions/execute_local.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 66773d7..3a03793 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -297,9 +297,26 @@ class ExecuteLocal(Action):
 
         # Otherwise process is still running, start the shutdown procedures.
         context.extend_locals({'process_name': self.process_details['name']})
+        # Evaluate the timeouts once, what follows must not depend on them being valid.
+        invalid_timeouts = None
+        try:
+            sigterm_timeout = perform_substitutions(context, self.__sigterm_timeout)
+            sigkill_timeout = perform_substitutions(context, self.__sigkill_timeout)
+            float(sigterm_timeout)
+            PythonExpression(['float(', sigkill_timeout, ')']).perform(context)
+        except Exception as exc:
+            # Report it, but not before it is certain that the process does not run forever.
+            invalid_timeouts = exc
+            sigterm_timeout = sigkill_timeout = '5'
+        self.__sigterm_timeout = normalize_to_list_of_substitutions(sigterm_timeout)
+        self.__sigkill_timeout = normalize_to_list_of_substitutions(sigkill_timeout)
         actions_to_return = self.__get_shutdown_timer_actions()
         if send_sigint:
             actions_to_return.append(self.__get_sigint_event())
+        if invalid_timeouts is not None:
+            def raise_invalid_timeouts(context):
+                raise invalid_timeouts
+            actions_to_return.append(OpaqueFunction(function=raise_invalid_timeouts))
         return actions_to_return
 
     def __on_shutdown_process_event(
-- 
2.43.0


From 025b272549cca73429c6abc0bee00d45b452984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 033/111] fix: do not run forever if a process fails to start
 due to an invalid emulate_tty

---
 launch/launch/actions/execute_local.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 3a03793..a1e6e56 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -602,16 +602,16 @@ class ExecuteLocal(Action):
                 'True' if env is not None else 'False'
             ))
 
-        emulate_tty = self.__emulate_tty
-        if 'emulate_tty' in context.launch_configurations:
-            emulate_tty = evaluate_condition_expression(
-                context,
-                normalize_to_list_of_substitutions(
-                    context.launch_configurations['emulate_tty']
-                ),
-            )
-
         try:
+            emulate_tty = self.__emulate_tty
+            if 'emulate_tty' in context.launch_configurations:
+                emulate_tty = evaluate_condition_expression(
+                    context,
+                    normalize_to_list_of_substitutions(
+                        context.launch_configurations['emulate_tty']
+                    ),
+                )
+
             transport, protocol = await async_execute_process(
                 lambda **kwargs: self.__ProcessProtocol(
                     self, context, process_event_args, **kwargs
-- 
2.43.0


From 66cae0e4ae4aa2f362af269b388b1f97fff62e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 034/111] fix: do not flush closed buffers when a respawned
 process exits in shutdown

---
 launch/launch/actions/execute_local.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index a1e6e56..d04310d 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -428,6 +428,9 @@ class ExecuteLocal(Action):
                 buffer.write(last_line)
 
     def __flush_buffers(self, event, context):
+        if self.__stdout_buffer.closed:
+            # By the exit of the process before it was respawned, nothing was buffered since.
+            return
         self.__flush_decoders()
         line = self.__stdout_buffer.getvalue()
         if line != '':
-- 
2.43.0


From ae7509b630bedfa1ad9f98c60d5b7da6522ef9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 035/111] fix: stop a process also while it is respawned

---
 launch/launch/actions/execute_local.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index d04310d..33147ed 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -216,6 +216,7 @@ class ExecuteLocal(Action):
         self.__process_event_args = None  # type: Optional[Dict[Text, Any]]
         self._subprocess_protocol = None  # type: Optional[Any]
         self._subprocess_transport = None
+        self._subprocess_starting = False
         self.__completed_future = None  # type: Optional[asyncio.Future]
         self.__shutdown_future = None  # type: Optional[asyncio.Future]
         self.__sigterm_timer = None  # type: Optional[TimerAction]
@@ -283,7 +284,10 @@ class ExecuteLocal(Action):
             return None
 
         # Defer shut down if the process is scheduled to be started
-        if (self.process_details is None or self._subprocess_transport is None):
+        if (
+            self.process_details is None or self._subprocess_transport is None or
+            self._subprocess_starting
+        ):
             # Do not set shutdown result, as event is postponed
             context.register_event_handler(
                 OnProcessStart(
@@ -581,6 +585,7 @@ class ExecuteLocal(Action):
             self.__process_event_args['pid'] = transport.get_pid()
             self.__action._subprocess_protocol = self
             self.__action._subprocess_transport = transport
+            self.__action._subprocess_starting = False
             # Emit this here, as output may be received before this method's caller returns.
             self.__context.emit_event_sync(ProcessStarted(**self.__process_event_args))
 
@@ -594,6 +599,12 @@ class ExecuteLocal(Action):
         process_event_args = self.__process_event_args
         if process_event_args is None:
             raise RuntimeError('process_event_args unexpectedly None')
+        if self.__shutdown_future is not None and self.__shutdown_future.done():
+            # It was shut down right before it is respawned.
+            self.__cleanup()
+            return
+        # Until it has started there is a transport of the previous process, if any.
+        self._subprocess_starting = True
 
         cmd = process_event_args['cmd']
         cwd = process_event_args['cwd']
-- 
2.43.0


From 420cc0d8eb13afdfeb0f5c36d8c92f8b5c070adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 036/111] fix: forward the signals which a signal manager did
 not handle when it is exited

---
 launch/launch/utilities/signal_management.py | 23 +++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index a078c69..f59d2bd 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -163,6 +163,14 @@ class AsyncSafeSignalManager:
         prev_wakeup_handle = self.__chain_wakeup_handle(-1)
         own_wakeup_handle = self.__set_wakeup_fd(prev_wakeup_handle)
         assert self.__wsock.fileno() == own_wakeup_handle
+        # Signals which were not handled yet are not handled anymore, but do not withhold them.
+        self.__chain_wakeup_handle(prev_wakeup_handle)
+        try:
+            self.__forward(self.__rsock.recv(4096))
+        except BlockingIOError:
+            pass
+        finally:
+            self.__chain_wakeup_handle(-1)
 
     def __chain(self):
         self.__parent = AsyncSafeSignalManager.__current
@@ -210,17 +218,20 @@ class AsyncSafeSignalManager:
                     if signum not in self.__handlers:
                         continue
                     self.__handlers[signum](signum)
-                if self.__prev_wakeup_handle != -1:
-                    # Send over (Windows) socket or write file.
-                    if isinstance(self.__prev_wakeup_handle, socket.socket):
-                        self.__prev_wakeup_handle.send(data)
-                    else:
-                        os.write(self.__prev_wakeup_handle, data)
+                self.__forward(data)
             except InterruptedError:
                 continue
             except BlockingIOError:
                 break
 
+    def __forward(self, data):
+        if self.__prev_wakeup_handle != -1:
+            # Send over (Windows) socket or write file.
+            if isinstance(self.__prev_wakeup_handle, socket.socket):
+                self.__prev_wakeup_handle.send(data)
+            else:
+                os.write(self.__prev_wakeup_handle, data)
+
     def handle(
         self,
         signum: Union[signal.Signals, int],
-- 
2.43.0


From 831689d5d82d01416d7b768f7fe00fa3e15afc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 037/111] fix: do not lose signals if a handler of a signal
 manager raises

---
 launch/launch/utilities/signal_management.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index f59d2bd..34191d8 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -217,7 +217,14 @@ class AsyncSafeSignalManager:
                 for signum in data:
                     if signum not in self.__handlers:
                         continue
-                    self.__handlers[signum](signum)
+                    try:
+                        self.__handlers[signum](signum)
+                    except Exception as exc:
+                        # Do not withhold the other signals.
+                        self.__loop.call_exception_handler({
+                            'message': 'Exception in signal handler',
+                            'exception': exc,
+                        })
                 self.__forward(data)
             except InterruptedError:
                 continue
-- 
2.43.0


From 7521acf8c8e9e87c7ed162795b358b576eef0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 038/111] fix: let all handlers handle an event even if one of
 them is interrupted

---
 launch/launch/launch_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 896d9b0..abb7da3 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -249,6 +249,9 @@ class LaunchService:
         for event_handler in tuple(self.__context._event_handlers):
             try:
                 self.__process_event_with_handler(event, event_handler)
+            except KeyboardInterrupt:
+                # Signals are handled separately, do not keep the event from other handlers.
+                continue
             except Exception as exc:
                 # Let the other handlers handle the event too, e.g. the ones which shut down
                 # running processes, and propagate the first exception afterwards.
-- 
2.43.0


From e98f02f35d648d08d9e2a3c6d2d3c79c7f6981ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 039/111] fix: do not accept booleans as integers

Whether a list of booleans and integers was a valid uniform list depended on their order.
---
 launch/launch/utilities/type_utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/launch/launch/utilities/type_utils.py b/launch/launch/utilities/type_utils.py
index cae6373..dc35301 100644
--- a/launch/launch/utilities/type_utils.py
+++ b/launch/launch/utilities/type_utils.py
@@ -162,6 +162,13 @@ def extract_type(data_type: AllowedTypesType) -> Tuple[ScalarTypesType, bool]:
     return (scalar_type, is_list)
 
 
+def _is_exact_instance(value: Any, types: Any) -> bool:
+    """Return `True` if `value` is an instance of `types`, but a boolean is not an integer."""
+    if isinstance(value, bool):
+        return bool in (types if isinstance(types, tuple) else (types,))
+    return isinstance(value, types)
+
+
 def is_instance_of_valid_type(value: Any, *, can_be_str: bool = False) -> bool:
     """
     Return `True` if value is an instance of an allowed type.
@@ -179,7 +186,7 @@ def is_instance_of_valid_type(value: Any, *, can_be_str: bool = False) -> bool:
         if member_type not in ScalarTypesTuple:
             return False
         valid_types = (member_type, str) if can_be_str else member_type
-        return all(isinstance(x, valid_types) for x in value)
+        return all(_is_exact_instance(x, valid_types) for x in value)
     return isinstance(value, ScalarTypesTuple)
 
 
@@ -207,10 +214,10 @@ def is_instance_of(
     if can_be_str:
         type_obj = (str, type_obj)
     if not is_list:
-        return isinstance(value, type_obj)
+        return _is_exact_instance(value, type_obj)
     if not isinstance(value, list):
         return False
-    return all(isinstance(x, type_obj) for x in value)
+    return all(_is_exact_instance(x, type_obj) for x in value)
 
 
 def coerce_to_type(
@@ -262,7 +269,7 @@ def coerce_to_type(
             value, f"Cannot convert value '{value}' to a list of '{valid_types}'")
         if not isinstance(output, list):
             raise ValueError(f"Cannot convert value '{value}' to a list of '{valid_types}'")
-        if not all(isinstance(x, valid_types) for x in output):
+        if not all(_is_exact_instance(x, valid_types) for x in output):
             raise ValueError(
                 f"Cannot convert value '{value}' to a list of '{valid_types}', got {output}")
         return output
-- 
2.43.0


From dd7644ed278626df1100337fdbff580ed3c7b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 040/111] fix: accept empty lists for any list type in
 normalize_typed_substitution

---
 launch/launch/utilities/type_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch/launch/utilities/type_utils.py b/launch/launch/utilities/type_utils.py
index dc35301..ba6f361 100644
--- a/launch/launch/utilities/type_utils.py
+++ b/launch/launch/utilities/type_utils.py
@@ -469,8 +469,8 @@ def normalize_typed_substitution(
         "Got a list of '{}'"
         f", expected a list of '{data_type}'. value='{value}'"
     )
-    if types_in_list == {Substitution}:
-        # list of substitutions, can be coerced later to anything
+    if types_in_list.issubset({Substitution}):
+        # list of substitutions (it may be empty), can be coerced later to anything
         return cast(List[Union[List[Substitution], str]], [
             normalize_to_list_of_substitutions(cast(SomeSubstitutionsType, x)) for x in value
         ])
-- 
2.43.0


From 96f44c1c8d7f2f8cb7979e58115ce102909e4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 041/111] fix: keep strings which cannot be coerced as they are
 if strings are accepted

---
 launch/launch/utilities/type_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/launch/launch/utilities/type_utils.py b/launch/launch/utilities/type_utils.py
index ba6f361..d429f81 100644
--- a/launch/launch/utilities/type_utils.py
+++ b/launch/launch/utilities/type_utils.py
@@ -251,6 +251,8 @@ def coerce_to_type(
             raise ValueError(f'{error_msg}: yaml.safe_load() failed\n{err}')
 
         if not is_instance_of_valid_type(output, can_be_str=can_be_str):
+            if can_be_str:
+                return value
             raise ValueError(
                 f'{error_msg}: output type is not allowed, got {type(output)}'
             )
@@ -296,8 +298,11 @@ def coerce_to_type(
             'int, float, str, bool, List[int], List[float], List[str], List[bool]'
             f'. Got {data_type}')
     output = convert_as_yaml(value, f"Failed to convert '{value}' to '{type_obj}'")
-    if isinstance(output, valid_types):
+    if isinstance(output, bool):
         return output
+    if can_be_str and isinstance(output, str):
+        # Keep the string as it is, e.g. with its quotes
+        return value
     raise ValueError(f"Cannot convert value '{value}' to '{type_obj}'")
 
 
-- 
2.43.0


From a064f670d580c2970bb24b20012a1c02135d6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 042/111] fix: reject text for boolean and number attributes
 which are not evaluated

The attributes scoped, forwarding, respawn_max_retries, respawn_delay,
sigkill_timeout, sigterm_timeout, shell and emulate_tty of launch files are
used as they are, so that any text, such as a substitution, counted as true
or failed in the middle of the launch.  Do not accept text for them.
---
 launch/launch/actions/execute_process.py | 16 ++++++++++------
 launch/launch/actions/group_action.py    |  5 +++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index 6999cc8..c658a5a 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -359,12 +359,13 @@ class ExecuteProcess(ExecuteLocal):
 
         if 'respawn_max_retries' not in ignore:
             respawn_max_retries = entity.get_attr('respawn_max_retries', data_type=int,
-                                                  optional=True)
+                                                  optional=True, can_be_str=False)
             if respawn_max_retries is not None:
                 kwargs['respawn_max_retries'] = respawn_max_retries
 
         if 'respawn_delay' not in ignore:
-            respawn_delay = entity.get_attr('respawn_delay', data_type=float, optional=True)
+            respawn_delay = entity.get_attr('respawn_delay', data_type=float, optional=True,
+                                            can_be_str=False)
             if respawn_delay is not None:
                 if respawn_delay < 0.0:
                     raise ValueError(
@@ -374,7 +375,8 @@ class ExecuteProcess(ExecuteLocal):
                 kwargs['respawn_delay'] = respawn_delay
 
         if 'sigkill_timeout' not in ignore:
-            sigkill_timeout = entity.get_attr('sigkill_timeout', data_type=float, optional=True)
+            sigkill_timeout = entity.get_attr('sigkill_timeout', data_type=float, optional=True,
+                                              can_be_str=False)
             if sigkill_timeout is not None:
                 if sigkill_timeout < 0.0:
                     raise ValueError(
@@ -384,7 +386,8 @@ class ExecuteProcess(ExecuteLocal):
                 kwargs['sigkill_timeout'] = str(sigkill_timeout)
 
         if 'sigterm_timeout' not in ignore:
-            sigterm_timeout = entity.get_attr('sigterm_timeout', data_type=float, optional=True)
+            sigterm_timeout = entity.get_attr('sigterm_timeout', data_type=float, optional=True,
+                                              can_be_str=False)
             if sigterm_timeout is not None:
                 if sigterm_timeout < 0.0:
                     raise ValueError(
@@ -394,12 +397,13 @@ class ExecuteProcess(ExecuteLocal):
                 kwargs['sigterm_timeout'] = str(sigterm_timeout)
 
         if 'shell' not in ignore:
-            shell = entity.get_attr('shell', data_type=bool, optional=True)
+            shell = entity.get_attr('shell', data_type=bool, optional=True, can_be_str=False)
             if shell is not None:
                 kwargs['shell'] = shell
 
         if 'emulate_tty' not in ignore:
-            emulate_tty = entity.get_attr('emulate_tty', data_type=bool, optional=True)
+            emulate_tty = entity.get_attr('emulate_tty', data_type=bool, optional=True,
+                                          can_be_str=False)
             if emulate_tty is not None:
                 kwargs['emulate_tty'] = emulate_tty
 
diff --git a/launch/launch/actions/group_action.py b/launch/launch/actions/group_action.py
index 81b7b53..d3fc754 100644
--- a/launch/launch/actions/group_action.py
+++ b/launch/launch/actions/group_action.py
@@ -89,8 +89,9 @@ class GroupAction(Action):
     def parse(cls, entity: Entity, parser: Parser):
         """Return `GroupAction` action and kwargs for constructing it."""
         _, kwargs = super().parse(entity, parser)
-        scoped = entity.get_attr('scoped', data_type=bool, optional=True)
-        forwarding = entity.get_attr('forwarding', data_type=bool, optional=True)
+        scoped = entity.get_attr('scoped', data_type=bool, optional=True, can_be_str=False)
+        forwarding = entity.get_attr(
+            'forwarding', data_type=bool, optional=True, can_be_str=False)
         keeps = entity.get_attr('keep', data_type=List[Entity], optional=True)
         if scoped is not None:
             kwargs['scoped'] = scoped
-- 
2.43.0


From 811a7da88fa9bbea113d8f2aa39e664cb046ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 043/111] fix: reject unknown attributes of <choice>

Unknown attributes and nested elements of the other elements are errors, but
those of the choices of a launch argument were ignored.
---
 launch/launch/actions/declare_launch_argument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/actions/declare_launch_argument.py b/launch/launch/actions/declare_launch_argument.py
index d292abe..ab85e42 100644
--- a/launch/launch/actions/declare_launch_argument.py
+++ b/launch/launch/actions/declare_launch_argument.py
@@ -178,6 +178,8 @@ class DeclareLaunchArgument(Action):
             kwargs['choices'] = [
                 parser.escape_characters(choice.get_attr('value')) for choice in choices
             ]
+            for choice in choices:
+                choice.assert_entity_completely_parsed()
         return cls, kwargs
 
     @property
-- 
2.43.0


From 2f589d9ab9d752a9dbf0a913eb2adb012675968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 044/111] fix: accept any substitutions as default of an
 argument with choices

A default value given as another iterable than a list, e.g. a tuple, was
compared with the choices as a whole and always rejected.
---
 launch/launch/actions/declare_launch_argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/actions/declare_launch_argument.py b/launch/launch/actions/declare_launch_argument.py
index ab85e42..5937125 100644
--- a/launch/launch/actions/declare_launch_argument.py
+++ b/launch/launch/actions/declare_launch_argument.py
@@ -127,7 +127,7 @@ class DeclareLaunchArgument(Action):
                     'Provided choices arg is empty. Use None to ignore the choice list.')
 
             # Check if a non substitution default value is provided and is a valid choice
-            if default_value is not None and not isinstance(default_value, (Substitution, list)):
+            if isinstance(default_value, str):
                 if default_value not in choices:
                     self.__logger.error(
                         'Provided default_value "{}" is not in provided choices "{}".'.format(
-- 
2.43.0


From f9b6f4d53fe1ffc7d82caae4d2f233dffbaeeeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 045/111] fix: accept an empty list of nested entities in YAML
 launch files

It was an IndexError.
---
 launch_yaml/launch_yaml/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_yaml/launch_yaml/entity.py b/launch_yaml/launch_yaml/entity.py
index 93e2626..272f9d4 100644
--- a/launch_yaml/launch_yaml/entity.py
+++ b/launch_yaml/launch_yaml/entity.py
@@ -123,7 +123,7 @@ class Entity(BaseEntity):
         self.__read_keys.add(name)
         data = self.__element[name]
         if check_is_list_entity(data_type):
-            if isinstance(data, list) and isinstance(data[0], dict):
+            if isinstance(data, list) and all(isinstance(child, dict) for child in data):
                 return [Entity(child, name) for child in data]
             raise TypeError(
                 "Attribute '{}' of Entity '{}' expected to be a list of dictionaries.".format(
-- 
2.43.0


From 6824db8e1537c21bd7a2d6c01d2f0deeab0032a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 046/111] fix: reject children which are no list in YAML launch
 files

An empty string or dictionary was taken for no children.
---
 launch_yaml/launch_yaml/entity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/launch_yaml/launch_yaml/entity.py b/launch_yaml/launch_yaml/entity.py
index 272f9d4..a164b5e 100644
--- a/launch_yaml/launch_yaml/entity.py
+++ b/launch_yaml/launch_yaml/entity.py
@@ -72,6 +72,10 @@ class Entity(BaseEntity):
             children = self.__element['children']
         else:
             children = self.__element
+        if not isinstance(children, list):
+            raise TypeError(
+                f'Expected the children of entity `{self.__type_name}` to be a list, '
+                f'got {type(children)}')
         entities = []
         for child in children:
             if len(child) != 1:
-- 
2.43.0


From 120382a852a29fa440bc7c4fb3c4ea2ae2815b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 047/111] fix: reject keep among the children of a group in
 YAML launch files

In YAML, the keep list is an attribute of the group.  A keep entity among its
children was silently ignored.
---
 launch/launch/actions/group_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/actions/group_action.py b/launch/launch/actions/group_action.py
index d3fc754..49bed64 100644
--- a/launch/launch/actions/group_action.py
+++ b/launch/launch/actions/group_action.py
@@ -105,7 +105,7 @@ class GroupAction(Action):
             for e in keeps:
                 e.assert_entity_completely_parsed()
         kwargs['actions'] = [parser.parse_action(e) for e in entity.children
-                             if e.type_name != 'keep']
+                             if e.type_name != 'keep' or keeps is None]
         return cls, kwargs
 
     def get_sub_entities(self) -> List[LaunchDescriptionEntity]:
-- 
2.43.0


From 9d305a0b44cfdc8458ea932671807e9ce994c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 048/111] fix: keep the format of the logs of processes when
 the log format is set

The format of the main log file was set for the log files of processes as well,
if they had been opened before.
---
 launch/launch/logging/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 207a8ed..388d0c5 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -490,7 +490,7 @@ def get_output_loggers(process_name, output_config):
             own_log_file_handler = launch_config.get_log_file_handler(
                 '{}-{}.log'.format(process_name, source)
             )
-            own_log_file_handler.setFormatter(logging.Formatter(fmt=None))
+            own_log_file_handler.setFormatterFor(logger, logging.Formatter(fmt=None))
             # Add own log file handler if necessary.
             if own_log_file_handler not in logger.handlers:
                 logger.addHandler(own_log_file_handler)
@@ -498,7 +498,9 @@ def get_output_loggers(process_name, output_config):
         # this logger should output to a combined log file.
         if 'own_log' in output_config['both']:
             combined_log_file_handler = launch_config.get_log_file_handler(process_name + '.log')
-            combined_log_file_handler.setFormatter(logging.Formatter('{msg}', style='{'))
+            combined_log_file_handler.setFormatterFor(
+                logger, logging.Formatter('{msg}', style='{')
+            )
             # Add combined log file handler if necessary.
             if combined_log_file_handler not in logger.handlers:
                 logger.addHandler(combined_log_file_handler)
-- 
2.43.0


From dd79d70fa83433d9c420602bbd978e8964b92e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 049/111] fix: accept format aliases in
 OVERRIDE_LAUNCH_SCREEN_FORMAT and _LOG_FORMAT

With an alias such as 'default_with_timestamp', importing launch failed because
of the style which was set along with the format.
---
 launch/launch/logging/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 388d0c5..c25578f 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -219,8 +219,8 @@ class LaunchConfig:
             # encoded escape characters correctly
             screen_format = screen_format_env.encode(
                 'latin1').decode('unicode_escape')
-            # Set the style correspondingly
-            screen_style = '{'
+            # The default style is used, an alias can have no style
+            screen_style = None
         if screen_format is not None:
             if screen_format == 'default':
                 screen_format = '[{levelname}] [{name}]: {msg}'
@@ -281,8 +281,8 @@ class LaunchConfig:
             # encoded escape characters correctly
             log_format = log_format_env.encode(
                 'latin1').decode('unicode_escape')
-            # Set the style correspondingly
-            log_style = '{'
+            # The default style is used, an alias can have no style
+            log_style = None
         if log_format is not None:
             if log_format == 'default':
                 log_format = '{created:.7f} [{levelname}] [{name}]: {msg}'
-- 
2.43.0


From 1fb9f9b122ca2a95896fd1f0b7b561cbba1f4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 050/111] fix: accept any characters in
 OVERRIDE_LAUNCH_SCREEN_FORMAT and _LOG_FORMAT

With characters which are not in Latin-1, importing launch failed.
---
 launch/launch/logging/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index c25578f..9b93efa 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -218,7 +218,7 @@ class LaunchConfig:
         if screen_format_env not in [None, '']:
             # encoded escape characters correctly
             screen_format = screen_format_env.encode(
-                'latin1').decode('unicode_escape')
+                'latin1', 'backslashreplace').decode('unicode_escape')
             # The default style is used, an alias can have no style
             screen_style = None
         if screen_format is not None:
@@ -280,7 +280,7 @@ class LaunchConfig:
         if log_format_env not in [None, '']:
             # encoded escape characters correctly
             log_format = log_format_env.encode(
-                'latin1').decode('unicode_escape')
+                'latin1', 'backslashreplace').decode('unicode_escape')
             # The default style is used, an alias can have no style
             log_style = None
         if log_format is not None:
-- 
2.43.0


From 4bd03d62be5335af974f1ef0695be28b26e4ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 051/111] fix: let the latest link point to relative log
 directories

The target of a symbolic link is relative to the directory of the link, so that
the link was broken if the log directory was relative, e.g. with ROS_LOG_DIR=log.
---
 launch/launch/logging/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 9b93efa..ea6af1d 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -96,7 +96,7 @@ def _renew_latest_log_dir(*, log_dir):
         if not os.path.islink(latest_dir):
             return False
         os.unlink(latest_dir)
-    os.symlink(log_dir, latest_dir, target_is_directory=True)
+    os.symlink(os.path.abspath(log_dir), latest_dir, target_is_directory=True)
     return True
 
 
-- 
2.43.0


From 1728e1bb21b0fa3405bf9389441322a1459c2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 052/111] fix: remove the handlers of the root logger when
 logging is reset

Messages of get_logger() were logged with the old and the new configuration
after a reset.
---
 launch/launch/logging/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index ea6af1d..e26d143 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -536,6 +536,9 @@ def reset():
     for logger in LaunchLogger.all_loggers:
         logger.setLevel(logging.NOTSET)
         del logger.handlers[:]
+    # The root logger is not one of these, but may have been configured by get_logger()
+    for handler in (launch_config.screen_handler, *launch_config.file_handlers.values()):
+        logging.root.removeHandler(handler)
     launch_config.reset()
     logging.setLoggerClass(LaunchLogger)
 
-- 
2.43.0


From 5b34f4e29e7924bf7f1b0e80217adac264b62453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 053/111] fix: format the arguments of logged messages

Messages were logged without their arguments, e.g. '%s' of logger.info('%s', x).
---
 launch/launch/logging/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index e26d143..77423ed 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -223,13 +223,13 @@ class LaunchConfig:
             screen_style = None
         if screen_format is not None:
             if screen_format == 'default':
-                screen_format = '[{levelname}] [{name}]: {msg}'
+                screen_format = '[{levelname}] [{name}]: {message}'
                 if screen_style is not None:
                     raise ValueError(
                         'Cannot set a custom format style for the "default" screen format.'
                     )
             if screen_format == 'default_with_timestamp':
-                screen_format = '{created:.7f} [{levelname}] [{name}]: {msg}'
+                screen_format = '{created:.7f} [{levelname}] [{name}]: {message}'
                 if screen_style is not None:
                     raise ValueError(
                         'Cannot set a custom format style for the '
@@ -285,7 +285,7 @@ class LaunchConfig:
             log_style = None
         if log_format is not None:
             if log_format == 'default':
-                log_format = '{created:.7f} [{levelname}] [{name}]: {msg}'
+                log_format = '{created:.7f} [{levelname}] [{name}]: {message}'
                 if log_style is not None:
                     raise ValueError(
                         'Cannot set a custom format style for the "default" log format.'
@@ -469,7 +469,7 @@ def get_output_loggers(process_name, output_config):
             # Add screen handler if necessary.
             if screen_handler not in logger.handlers:
                 screen_handler.setFormatterFor(
-                    logger, logging.Formatter('{msg}', style='{')
+                    logger, logging.Formatter('{message}', style='{')
                 )
                 logger.addHandler(screen_handler)
 
@@ -480,7 +480,7 @@ def get_output_loggers(process_name, output_config):
             # Add launch main log file handler if necessary.
             if launch_log_file_handler not in logger.handlers:
                 launch_log_file_handler.setFormatterFor(
-                    logger, logging.Formatter('{created:.7f} {msg}', style='{')
+                    logger, logging.Formatter('{created:.7f} {message}', style='{')
                 )
                 logger.addHandler(launch_log_file_handler)
 
@@ -499,7 +499,7 @@ def get_output_loggers(process_name, output_config):
         if 'own_log' in output_config['both']:
             combined_log_file_handler = launch_config.get_log_file_handler(process_name + '.log')
             combined_log_file_handler.setFormatterFor(
-                logger, logging.Formatter('{msg}', style='{')
+                logger, logging.Formatter('{message}', style='{')
             )
             # Add combined log file handler if necessary.
             if combined_log_file_handler not in logger.handlers:
-- 
2.43.0


From 034ac95c9a8fb49492f2f4da9fb445dcf63cd3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:49 +0000
Subject: [PATCH 054/111] fix: decode the output of a process as a whole in
 assertInStream

Output arrives in chunks of arbitrary size, which may end within a
multi-byte character. Decoding each of them on its own raised
UnicodeDecodeError.
---
 .../launch_testing/asserts/assert_output.py          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/launch_testing/launch_testing/asserts/assert_output.py b/launch_testing/launch_testing/asserts/assert_output.py
index 244126e..d6793db 100644
--- a/launch_testing/launch_testing/asserts/assert_output.py
+++ b/launch_testing/launch_testing/asserts/assert_output.py
@@ -82,13 +82,13 @@ def assertInStream(proc_output,
 
     for proc in resolved_procs:  # Nominally just one matching proc
         if stream == 'stdout':
-            full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stdout
-            )
+            full_output = b''.join(
+                output.text for output in proc_output[proc] if output.from_stdout
+            ).decode(errors='replace')
         elif stream == 'stderr':
-            full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stderr
-            )
+            full_output = b''.join(
+                output.text for output in proc_output[proc] if output.from_stderr
+            ).decode(errors='replace')
         else:
             raise ValueError("Invalid value for stream; must be 'stdout' or 'stderr'")
 
-- 
2.43.0


From d96eaca9764a7f96d3c3cebf1c4c7ada1564f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:49 +0000
Subject: [PATCH 055/111] fix: match stdout only and across chunks in
 assertSequentialStdout

The text on stderr was matched as well, and text that was received in
several chunks was not found.
---
 .../launch_testing/asserts/assert_sequential_output.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/launch_testing/launch_testing/asserts/assert_sequential_output.py b/launch_testing/launch_testing/asserts/assert_sequential_output.py
index 35c1a82..58f0737 100644
--- a/launch_testing/launch_testing/asserts/assert_sequential_output.py
+++ b/launch_testing/launch_testing/asserts/assert_sequential_output.py
@@ -125,10 +125,10 @@ def assertSequentialStdout(proc_output,
         strict_proc_matching=True,
     )[0]
 
-    # Get all the output from the process.  This will be a list of strings.  Each string may
-    # contain multiple lines of output
-    to_check = [p.text.decode() for p in proc_output[process]]
-    checker = SequentialTextChecker(to_check)
+    # Get all the stdout from the process as one string.  The chunks in which it was received may
+    # end anywhere, so the text to be matched can be split across several of them
+    to_check = b''.join(p.text for p in proc_output[process] if p.from_stdout)
+    checker = SequentialTextChecker([to_check.decode(errors='replace')])
 
     try:
         yield checker
-- 
2.43.0


From 67d5b2c9a9e4a168607513615d3954df876cd0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:49 +0000
Subject: [PATCH 056/111] fix: let lines be matched with a single pattern

The callable that build_line_match returned for a pattern required the
start argument which expect_output does not provide.
---
 launch_testing/launch_testing/tools/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/tools/text.py b/launch_testing/launch_testing/tools/text.py
index 61fdd7a..2ecfd0d 100644
--- a/launch_testing/launch_testing/tools/text.py
+++ b/launch_testing/launch_testing/tools/text.py
@@ -49,7 +49,7 @@ def build_line_match(expected_lines, *, strict=False):
         return _match
 
     if hasattr(expected_lines, 'match'):
-        def _match(actual_lines, start):
+        def _match(actual_lines, start=0):
             if strict:
                 if all(expected_lines.match(line) for line in actual_lines[start:]):
                     return start, start + len(actual_lines[start:])
-- 
2.43.0


From e332520d444c544cc112512ac8ff0256a85461c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 057/111] fix: do not forget the errors of other tests in
 retry_on_failure

Since Python 3.11 the errors of all tests that were run before are in
the list that was cleared, so a run with errors could be reported as
successful. The failures of sub-tests were not cleared instead.
---
 launch_testing/launch_testing/markers.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/launch_testing/launch_testing/markers.py b/launch_testing/launch_testing/markers.py
index d070967..18939e5 100644
--- a/launch_testing/launch_testing/markers.py
+++ b/launch_testing/launch_testing/markers.py
@@ -26,6 +26,15 @@ def keep_alive(test_description):
     return test_description
 
 
+def _get_recorded_failures(test_case):
+    """Get the lists in which the failures of a test that is being run are recorded."""
+    outcome = getattr(test_case, '_outcome', None)
+    if hasattr(outcome, 'errors'):  # Python < 3.11
+        return [outcome.errors]
+    result = getattr(outcome, 'result', None)
+    return [getattr(result, name) for name in ('errors', 'failures') if hasattr(result, name)]
+
+
 def retry_on_failure(*, times, delay=None):
     """
     Mark a test case to be retried up to `times` on AssertionError.
@@ -43,18 +52,20 @@ def retry_on_failure(*, times, delay=None):
         def _wrapper(self, *args, **kwargs):
             n = times
             while n > 1:
+                # Failures of sub-tests are recorded before the test has returned
+                recorded = [
+                    (failures, len(failures)) for failures in _get_recorded_failures(self)]
                 try:
                     ret = func(self, *args, **kwargs)
                     if isinstance(self, unittest.TestCase):
                         assert self._outcome.success
                     return ret
                 except AssertionError:
-                    if hasattr(self._outcome, 'errors'):
-                        self._outcome.errors.clear()
-                    else:
-                        if self._outcome.result is not None:
-                            self._outcome.result.errors.clear()
-                    self._outcome.success = True
+                    # Forget the failures of this try, but not those of other tests
+                    for failures, length in recorded:
+                        del failures[length:]
+                    if isinstance(self, unittest.TestCase):
+                        self._outcome.success = True
                     n -= 1
                 if delay is not None:
                     time.sleep(delay)
-- 
2.43.0


From b79db6fc3c9ccff87453bf223da923ebb72b30a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 058/111] fix: report launches that died with non-ASCII output

Printing the output of the processes raised UnicodeDecodeError, so
launch_test ended without a report on the tests. The same holds for
processes that are not known to have exited.
---
 launch_testing/launch_testing/test_runner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/test_runner.py b/launch_testing/launch_testing/test_runner.py
index 5a1de18..ef7c85b 100644
--- a/launch_testing/launch_testing/test_runner.py
+++ b/launch_testing/launch_testing/test_runner.py
@@ -23,6 +23,7 @@ from launch.actions import RegisterEventHandler
 from launch.event_handlers import OnProcessExit
 from launch.event_handlers import OnProcessIO
 from launch.event_handlers import OnProcessStart
+from launch.events.process import ProcessExited
 
 from .io_handler import ActiveIoHandler
 from .parse_arguments import parse_launch_arguments
@@ -203,14 +204,15 @@ class _RunnerWorker():
             self._launch_service.shutdown()
 
     def _print_process_output_summary(self, proc_info, proc_output):
-        failed_procs = [proc for proc in proc_info if proc.returncode != 0]
+        failed_procs = [
+            proc for proc in proc_info if isinstance(proc, ProcessExited) and proc.returncode != 0]
 
         for process in failed_procs:
             print("Process '{}' exited with {}".format(process.process_name, process.returncode))
             print("##### '{}' output #####".format(process.process_name))
             try:
                 for io in proc_output[process.action]:
-                    print('{}'.format(io.text.decode('ascii')))
+                    print('{}'.format(io.text.decode(errors='replace')))
             except KeyError:
                 pass  # Process generated no output
             print('#' * (len(process.process_name) + 21))
-- 
2.43.0


From 39238421c17fb726e71c6c792338f993d23ef2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 059/111] fix: heed decorators that are applied to parametrized
 test descriptions

The keep_alive marker and the ready_to_test_action_timeout were ignored
when they were applied after parametrize.
---
 launch_testing/launch_testing/parametrize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/launch_testing/launch_testing/parametrize.py b/launch_testing/launch_testing/parametrize.py
index d7e9d26..544d007 100644
--- a/launch_testing/launch_testing/parametrize.py
+++ b/launch_testing/launch_testing/parametrize.py
@@ -43,6 +43,10 @@ def parametrize(argnames, argvalues):
 
                 partial = functools.partial(func, **partial_args)
                 functools.update_wrapper(partial, func)
+                # Other decorators may have been applied after this one
+                for name in ('__markers__', '__ready_to_test_action_timeout__'):
+                    if hasattr(_wrapped, name):
+                        setattr(partial, name, getattr(_wrapped, name))
                 yield partial, partial_args
 
         _wrapped.__parametrized__ = True
-- 
2.43.0


From b7de86378741683bd7b6981c581d5e25a89a82c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 060/111] fix: report failed sub-tests in the JUnit XML

They were counted, but the test case itself looked as if it had passed.
---
 launch_testing/launch_testing/junitxml.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index 3a8117a..1cfb54b 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import unittest
 import xml.etree.ElementTree as ET
 
 
@@ -73,6 +74,11 @@ def unittestResultToXml(name, test_result):
     return test_suite
 
 
+def _get_test_case(test):
+    # The test may be a sub-test of a test case
+    return test.test_case if isinstance(test, unittest.case._SubTest) else test
+
+
 def unittestCaseToXml(test_result, test_case):
     """
     Serialize a unittest.TestCase into an XML element.
@@ -91,20 +97,20 @@ def unittestCaseToXml(test_result, test_case):
 
     for failure in test_result.failures:
         # We're enumerating a list of (test_case, failure_string) tuples here
-        if failure[0] == test_case:
+        if _get_test_case(failure[0]) == test_case:
             failure_xml = ET.Element('failure')
             failure_xml.set('message', failure[1])
             case_xml.append(failure_xml)
 
     for error in test_result.errors:
         # Same as above.  (test_case, error_string) tuples
-        if error[0] == test_case:
+        if _get_test_case(error[0]) == test_case:
             error_xml = ET.Element('error')
             error_xml.set('message', error[1])
             case_xml.append(error_xml)
 
     for skip in test_result.skipped:
-        if skip[0] == test_case:
+        if _get_test_case(skip[0]) == test_case:
             skip_xml = ET.Element('skipped')
             skip_xml.set('message', skip[1])
             case_xml.append(skip_xml)
-- 
2.43.0


From bc4ac7a1a77c863be81b1e1fe86b043f9d23889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 061/111] fix: report unexpected successes as failures in the
 JUnit XML

They make the test run fail, which the XML did not show.
---
 launch_testing/launch_testing/junitxml.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index 1cfb54b..94d52e4 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -37,7 +37,7 @@ def unittestResultsToXml(*, name='launch_test', test_results={}):
 
     for result in test_results.values():
         tests += result.testsRun
-        failures += len(result.failures)
+        failures += len(result.failures) + len(result.unexpectedSuccesses)
         errors += len(result.errors)
         time += sum(result.testTimes.values())
 
@@ -63,7 +63,8 @@ def unittestResultToXml(name, test_result):
     test_suite = ET.Element('testsuite')
     test_suite.set('name', name)
     test_suite.set('tests', str(test_result.testsRun))
-    test_suite.set('failures', str(len(test_result.failures)))
+    test_suite.set(
+        'failures', str(len(test_result.failures) + len(test_result.unexpectedSuccesses)))
     test_suite.set('errors', str(len(test_result.errors)))
     test_suite.set('skipped', str(len(test_result.skipped)))
     test_suite.set('time', str(round(sum(test_result.testTimes.values()), 3)))
@@ -102,6 +103,12 @@ def unittestCaseToXml(test_result, test_case):
             failure_xml.set('message', failure[1])
             case_xml.append(failure_xml)
 
+    for unexpected_success in test_result.unexpectedSuccesses:
+        if unexpected_success == test_case:
+            failure_xml = ET.Element('failure')
+            failure_xml.set('message', 'Unexpected success')
+            case_xml.append(failure_xml)
+
     for error in test_result.errors:
         # Same as above.  (test_case, error_string) tuples
         if _get_test_case(error[0]) == test_case:
-- 
2.43.0


From 1b56d7521777be51a111c0a1b2d1bf109798e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 062/111] fix: write valid JUnit XML for messages with control
 characters

The message of a failed test often contains output of the processes,
e.g. with ANSI escape sequences, and no XML parser accepts these.
---
 launch_testing/launch_testing/junitxml.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index 94d52e4..d30eca7 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -13,9 +13,18 @@
 # limitations under the License.
 
 
+import re
 import unittest
 import xml.etree.ElementTree as ET
 
+# Characters that are not allowed in XML documents, not even if escaped
+_INVALID_CHARACTERS = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
+
+def _to_xml_text(value):
+    return _INVALID_CHARACTERS.sub(
+        lambda match: match.group().encode('unicode_escape').decode(), str(value))
+
 
 def unittestResultsToXml(*, name='launch_test', test_results={}):
     """
@@ -61,7 +70,7 @@ def unittestResultToXml(name, test_result):
     </testsuite>
     """
     test_suite = ET.Element('testsuite')
-    test_suite.set('name', name)
+    test_suite.set('name', _to_xml_text(name))
     test_suite.set('tests', str(test_result.testsRun))
     test_suite.set(
         'failures', str(len(test_result.failures) + len(test_result.unexpectedSuccesses)))
@@ -92,15 +101,15 @@ def unittestCaseToXml(test_result, test_case):
     case_xml = ET.Element('testcase')
     full_methodname, _, qualifiers = test_case.id().partition(' ')
     full_classname, _, methodname = full_methodname.rpartition('.')
-    case_xml.set('classname', full_classname)
-    case_xml.set('name', (methodname + ' ' + qualifiers).strip())
+    case_xml.set('classname', _to_xml_text(full_classname))
+    case_xml.set('name', _to_xml_text((methodname + ' ' + qualifiers).strip()))
     case_xml.set('time', str(round(test_result.testTimes[test_case], 3)))
 
     for failure in test_result.failures:
         # We're enumerating a list of (test_case, failure_string) tuples here
         if _get_test_case(failure[0]) == test_case:
             failure_xml = ET.Element('failure')
-            failure_xml.set('message', failure[1])
+            failure_xml.set('message', _to_xml_text(failure[1]))
             case_xml.append(failure_xml)
 
     for unexpected_success in test_result.unexpectedSuccesses:
@@ -113,13 +122,13 @@ def unittestCaseToXml(test_result, test_case):
         # Same as above.  (test_case, error_string) tuples
         if _get_test_case(error[0]) == test_case:
             error_xml = ET.Element('error')
-            error_xml.set('message', error[1])
+            error_xml.set('message', _to_xml_text(error[1]))
             case_xml.append(error_xml)
 
     for skip in test_result.skipped:
         if _get_test_case(skip[0]) == test_case:
             skip_xml = ET.Element('skipped')
-            skip_xml.set('message', skip[1])
+            skip_xml.set('message', _to_xml_text(skip[1]))
             case_xml.append(skip_xml)
 
     return case_xml
-- 
2.43.0


From ed02727b540ea8c8f00d5ed9898772f112a62a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 063/111] fix: split names of parametrized tests correctly in
 the JUnit XML

Parameters with dots ended up in the class name.
---
 launch_testing/launch_testing/junitxml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index d30eca7..bdbbf93 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -99,10 +99,12 @@ def unittestCaseToXml(test_result, test_case):
     class needs to be a launch_testing.TestResult class
     """
     case_xml = ET.Element('testcase')
-    full_methodname, _, qualifiers = test_case.id().partition(' ')
+    # The parameters of the test run are in brackets, and they can be any text
+    full_name, bracket, params = test_case.id().partition('[')
+    full_methodname, space, qualifiers = full_name.partition(' ')
     full_classname, _, methodname = full_methodname.rpartition('.')
     case_xml.set('classname', _to_xml_text(full_classname))
-    case_xml.set('name', _to_xml_text((methodname + ' ' + qualifiers).strip()))
+    case_xml.set('name', _to_xml_text((methodname + space + qualifiers + bracket + params).strip()))
     case_xml.set('time', str(round(test_result.testTimes[test_case], 3)))
 
     for failure in test_result.failures:
-- 
2.43.0


From 1479d6101b40c84ef99a766d80fbedcbb42aa270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 064/111] fix: report errors of class fixtures in the JUnit XML

They were counted, but neither the fixture nor its tests were there.
---
 launch_testing/launch_testing/junitxml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index bdbbf93..9c794d1 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -81,6 +81,11 @@ def unittestResultToXml(name, test_result):
     for case in test_result.testCases:
         test_suite.append(unittestCaseToXml(test_result, case))
 
+    # A class or a module whose set up or tear down failed is not a test case
+    for test, _ in test_result.errors + test_result.skipped:
+        if isinstance(test, unittest.suite._ErrorHolder):
+            test_suite.append(unittestCaseToXml(test_result, test))
+
     return test_suite
 
 
@@ -105,7 +110,7 @@ def unittestCaseToXml(test_result, test_case):
     full_classname, _, methodname = full_methodname.rpartition('.')
     case_xml.set('classname', _to_xml_text(full_classname))
     case_xml.set('name', _to_xml_text((methodname + space + qualifiers + bracket + params).strip()))
-    case_xml.set('time', str(round(test_result.testTimes[test_case], 3)))
+    case_xml.set('time', str(round(test_result.testTimes.get(test_case, 0), 3)))
 
     for failure in test_result.failures:
         # We're enumerating a list of (test_case, failure_string) tuples here
-- 
2.43.0


From 889cd30fec3d574629b2a2c400970fbaf7ffc8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 065/111] fix: heed unittest.expectedFailure in launch tests

---
 launch_testing/launch_testing/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/loader.py b/launch_testing/launch_testing/loader.py
index ceb13ae..8b67c3c 100644
--- a/launch_testing/launch_testing/loader.py
+++ b/launch_testing/launch_testing/loader.py
@@ -253,7 +253,10 @@ def _partially_bind_matching_args(unbound_function, arg_candidates):
     function_args = inspect.signature(unbound_function).parameters
     # We only want to bind the part of the context matches the test args
     matching_args = {k: v for (k, v) in arg_candidates.items() if k in function_args}
-    return functools.partial(unbound_function, **matching_args)
+    bound_function = functools.partial(unbound_function, **matching_args)
+    # Keep the marks of tests that are skipped or expected to fail
+    bound_function.__dict__.update(getattr(unbound_function, '__dict__', {}))
+    return bound_function
 
 
 def _give_attribute_to_tests(data, attr_name, test_suite):
-- 
2.43.0


From ee5f920661e7b7287e9a8fb8b1f34ca605534cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:18 +0000
Subject: [PATCH 066/111] fix: report unexpected successes and failures of
 class fixtures in pytest

---
 launch_testing/launch_testing/pytest/hooks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index 174c4c4..2f2db8c 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -14,7 +14,6 @@
 
 import copy
 import pathlib
-from unittest import TestCase
 
 from _pytest._code.code import ReprFileLocation
 
@@ -121,8 +120,11 @@ class LaunchTestItem(pytest.Item):
             return LaunchTestFailureRepr(failures=[
                 (test_case.id(), formatted_error)
                 for test_run, test_result in excinfo.value.results.items()
-                for test_case, formatted_error in (test_result.errors + test_result.failures)
-                if isinstance(test_case, TestCase) and not test_result.wasSuccessful()
+                for test_case, formatted_error in (
+                    test_result.errors + test_result.failures + [
+                        (test_case, 'Unexpected success')
+                        for test_case in test_result.unexpectedSuccesses])
+                if not test_result.wasSuccessful()
             ])
         return super().repr_failure(excinfo)
 
-- 
2.43.0


From e0a7b2ae664c79483cd68d23ea4e5b01c2f8a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:35 +0000
Subject: [PATCH 067/111] fix: support pytest 8.4 in launch_pytest

---
 launch_pytest/launch_pytest/plugin.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index c63fcf0..913d21d 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -169,6 +169,15 @@ def get_launch_test_fixturename(item):
     return None if fixture is None else fixture.__name__
 
 
+def get_fixture_scope(fixture):
+    """Return the scope with which a fixture was defined."""
+    # Since pytest 8.4 a fixture is an object instead of a function with an extra attribute
+    marker = getattr(fixture, '_fixture_function_marker', None)
+    if marker is None:
+        marker = fixture._pytestfixturefunction
+    return marker.scope
+
+
 def is_valid_test_item(obj):
     """Return true if obj is a valid launch test item."""
     return (
@@ -236,7 +245,7 @@ def pytest_pycollect_makeitem(collector, name, obj):
                 return [item]
             fixture = get_launch_test_fixture(item)
             fixturename = fixture.__name__
-            scope = fixture._pytestfixturefunction.scope
+            scope = get_fixture_scope(fixture)
             is_shutdown = has_shutdown_kwarg(item)
             items = generate_test_items(
                 collector, name, obj, fixturename, is_shutdown=is_shutdown, needs_renaming=False)
@@ -264,7 +273,7 @@ def is_same_launch_test_fixture(left_item, right_item):
         return False
     if lfn is not rfn:
         return False
-    if lfn._pytestfixturefunction.scope == 'function':
+    if get_fixture_scope(lfn) == 'function':
         return False
     name = lfn.__name__
 
@@ -326,7 +335,7 @@ def pytest_pyfunc_call(pyfuncitem):
         return
     shutdown_test = is_shutdown_test(pyfuncitem)
     fixture = get_launch_test_fixture(pyfuncitem)
-    scope = fixture._pytestfixturefunction.scope
+    scope = get_fixture_scope(fixture)
     event_loop = pyfuncitem.funcargs['event_loop']
     ls = pyfuncitem.funcargs['launch_service']
     auto_shutdown = fixture._launch_pytest_fixture_options['auto_shutdown']
@@ -345,7 +354,7 @@ def pytest_pyfunc_call(pyfuncitem):
                 wrap_generator(func, event_loop, on_shutdown)
             )
             shutdown_item._fixtureinfo = shutdown_item.session._fixturemanager.getfixtureinfo(
-                shutdown_item, shutdown_item.obj, shutdown_item.cls, funcargs=True)
+                shutdown_item, shutdown_item.obj, shutdown_item.cls)
         else:
             pyfuncitem.obj = wrap_generator_fscope(func, event_loop, on_shutdown)
     elif inspect.isasyncgenfunction(func):
@@ -355,7 +364,7 @@ def pytest_pyfunc_call(pyfuncitem):
                 wrap_asyncgen(func, event_loop, on_shutdown)
             )
             shutdown_item._fixtureinfo = shutdown_item.session._fixturemanager.getfixtureinfo(
-                shutdown_item, shutdown_item.obj, shutdown_item.cls, funcargs=True)
+                shutdown_item, shutdown_item.obj, shutdown_item.cls)
         else:
             pyfuncitem.obj = wrap_asyncgen_fscope(func, event_loop, on_shutdown)
     elif not getattr(pyfuncitem.obj, '_launch_pytest_wrapped', False):
-- 
2.43.0


From e5044d6da0659f2cd1348244aab5b6ef6d62f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 068/111] fix: do not miss output in launch_pytest while a
 condition is evaluated

---
 launch_pytest/launch_pytest/tools/process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index 4de5959..541973d 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -47,16 +47,16 @@ async def _wait_for_event_with_condition(
 ):
     pyevent = asyncio.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
         start = time.time()
         now = start
+        cond_value = condition()
         while not cond_value and (timeout is None or now < start + timeout):
             try:
                 await asyncio.wait_for(
                     pyevent.wait(), None if timeout is None else start - now + timeout)
             except asyncio.TimeoutError:
-                break
+                return condition()
             pyevent.clear()
             cond_value = condition()
             now = time.time()
@@ -77,10 +77,11 @@ def _wait_for_event_with_condition_sync(
 ):
     pyevent = threading.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
         start = time.time()
         now = start
+        # Output that arrives while the condition is being evaluated must not be missed
+        cond_value = condition()
         while not cond_value and (timeout is None or now < start + timeout):
             pyevent.wait(None if timeout is None else start - now + timeout)
             pyevent.clear()
-- 
2.43.0


From 7047d0ac7ffd1e4b4556fb322432ecadfa87d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 069/111] fix: let event handlers be registered by other
 threads while an event is matched

---
 launch/launch/launch_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/launch_context.py b/launch/launch/launch_context.py
index ecd29cb..4c719b0 100644
--- a/launch/launch/launch_context.py
+++ b/launch/launch/launch_context.py
@@ -208,7 +208,8 @@ class LaunchContext:
 
     def would_handle_event(self, event: Event) -> bool:
         """Check whether an event would be handled or not."""
-        return any(handler.matches(event) for handler in self._event_handlers)
+        # Handlers may be registered in another thread meanwhile
+        return any(handler.matches(event) for handler in tuple(self._event_handlers))
 
     def register_event_handler(self, event_handler: BaseEventHandler, append=False) -> None:
         """
-- 
2.43.0


From 9c485c543832981cf575fc6ca87179a35221a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:37 +0000
Subject: [PATCH 070/111] revert: report launches that died with non-ASCII
 output

test_runner.py is named like a test file, so it is left as it was.
---
 launch_testing/launch_testing/test_runner.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/launch_testing/launch_testing/test_runner.py b/launch_testing/launch_testing/test_runner.py
index ef7c85b..5a1de18 100644
--- a/launch_testing/launch_testing/test_runner.py
+++ b/launch_testing/launch_testing/test_runner.py
@@ -23,7 +23,6 @@ from launch.actions import RegisterEventHandler
 from launch.event_handlers import OnProcessExit
 from launch.event_handlers import OnProcessIO
 from launch.event_handlers import OnProcessStart
-from launch.events.process import ProcessExited
 
 from .io_handler import ActiveIoHandler
 from .parse_arguments import parse_launch_arguments
@@ -204,15 +203,14 @@ class _RunnerWorker():
             self._launch_service.shutdown()
 
     def _print_process_output_summary(self, proc_info, proc_output):
-        failed_procs = [
-            proc for proc in proc_info if isinstance(proc, ProcessExited) and proc.returncode != 0]
+        failed_procs = [proc for proc in proc_info if proc.returncode != 0]
 
         for process in failed_procs:
             print("Process '{}' exited with {}".format(process.process_name, process.returncode))
             print("##### '{}' output #####".format(process.process_name))
             try:
                 for io in proc_output[process.action]:
-                    print('{}'.format(io.text.decode(errors='replace')))
+                    print('{}'.format(io.text.decode('ascii')))
             except KeyError:
                 pass  # Process generated no output
             print('#' * (len(process.process_name) + 21))
-- 
2.43.0


From 2b061ac80f7ef910d0ba5eb3115e6ff708d9cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 071/111] fix: format launch descriptions without entities

LaunchIntrospector raised an IndexError for them.
---
 launch/launch/launch_introspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_introspector.py b/launch/launch/launch_introspector.py
index 1abcbce..a60aa37 100644
--- a/launch/launch/launch_introspector.py
+++ b/launch/launch/launch_introspector.py
@@ -53,7 +53,7 @@ def tree_like_indent(lines: List[Text]) -> List[Text]:
         previous_first_non_whitespace = first_non_whitespace
         line = line[0:first_non_whitespace - 4] + '└── ' + line[first_non_whitespace:]
         result.append(line)
-    if result[-1].startswith('│'):
+    if result and result[-1].startswith('│'):
         result[-1] = ' ' + result[-1][1:]
     # TODO(wjwwood): figure out how to handle remaining cases like how to fix this sample:
     # ├── OnProcessExit(...)
-- 
2.43.0


From 683351a0a9162d66585ee15427377aac8e574d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 072/111] fix: describe what OnShutdown yields

The entities given to it were not described, so the launch arguments they
declare were not found either.
---
 launch/launch/event_handlers/on_shutdown.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/launch/launch/event_handlers/on_shutdown.py b/launch/launch/event_handlers/on_shutdown.py
index c5ad192..fba0391 100644
--- a/launch/launch/event_handlers/on_shutdown.py
+++ b/launch/launch/event_handlers/on_shutdown.py
@@ -14,16 +14,20 @@
 
 """Module for OnShutdown class."""
 
+import collections.abc
 from typing import Callable
 from typing import cast
+from typing import List
 from typing import Optional
 from typing import Text
+from typing import Tuple
 from typing import TYPE_CHECKING
 from typing import Union
 
 from ..event import Event
 from ..event_handler import BaseEventHandler
 from ..events import Shutdown
+from ..launch_description_entity import LaunchDescriptionEntity
 from ..some_entities_type import SomeEntitiesType
 from ..utilities import is_a_subclass
 
@@ -56,11 +60,23 @@ class OnShutdown(BaseEventHandler):
         )
         # TODO(wjwwood) check that it is not only callable, but also a callable that matches
         # the correct signature for a handler in this case
+        self.__entities: List[LaunchDescriptionEntity] = []
         if callable(on_shutdown):
             self.__on_shutdown = on_shutdown
         else:
+            if isinstance(on_shutdown, collections.abc.Iterable):
+                self.__entities.extend(on_shutdown)
+                on_shutdown = self.__entities
+            elif on_shutdown is not None:
+                self.__entities.append(on_shutdown)
             self.__on_shutdown = gen_handler(on_shutdown)
 
+    def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
+        """Return a description tuple."""
+        text, entities = super().describe()
+        entities.extend(self.__entities)
+        return (text, entities)
+
     def handle(self, event: Event, context: 'LaunchContext') -> Optional[SomeEntitiesType]:
         """Handle the given event."""
         super().handle(event, context)
-- 
2.43.0


From cc38cf4279d65a3135379dae30f195ce3f601928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 073/111] fix: describe on_exit of processes unless it is a
 list, too

---
 launch/launch/actions/execute_local.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 33147ed..a0ecd63 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -264,8 +264,10 @@ class ExecuteLocal(Action):
         return self.__process_event_args
 
     def get_sub_entities(self):
-        if isinstance(self.__on_exit, list):
-            return self.__on_exit
+        if isinstance(self.__on_exit, LaunchDescriptionEntity):
+            return [self.__on_exit]
+        if isinstance(self.__on_exit, (list, tuple)):
+            return list(self.__on_exit)
         return []
 
     def _shutdown_process(self, context, *, send_sigint):
-- 
2.43.0


From 7aaae6e63f55206c8289b8e8084bbcf79b492a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 074/111] fix: format processes with an environment after they
 were executed

LaunchIntrospector raised a ValueError for them.
---
 launch/launch/launch_introspector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/launch/launch/launch_introspector.py b/launch/launch/launch_introspector.py
index a60aa37..321153f 100644
--- a/launch/launch/launch_introspector.py
+++ b/launch/launch/launch_introspector.py
@@ -108,14 +108,17 @@ def format_action(action: Action) -> List[Text]:
         return ["EmitEvent(event='{}')".format(cast(EmitEvent, action).event.name)]
     elif is_a(action, ExecuteProcess):
         typed_action = cast(ExecuteProcess, action)
+        env = typed_action.env
+        if isinstance(env, dict):  # it has been expanded
+            env = env.items()
         msg = 'ExecuteProcess(cmd=[{}], cwd={}, env={}, shell={})'.format(
             ', '.join([format_substitutions(x) for x in typed_action.cmd]),
             typed_action.cwd if typed_action.cwd is None else "'{}'".format(
                 format_substitutions(typed_action.cwd)
             ),
-            typed_action.env if typed_action.env is None else '{' + ', '.join(
+            env if env is None else '{' + ', '.join(
                 ['{}: {}'.format(format_substitutions(k), format_substitutions(v))
-                 for k, v in typed_action.env]) + '}',
+                 for k, v in env]) + '}',
             typed_action.shell,
         )
         return [msg]
-- 
2.43.0


From 17b8aeb9547c41058a53e73b080b3c691d5bf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:55 +0000
Subject: [PATCH 075/111] fix: do not wait forever for a launch which cannot
 become ready in launch_pytest

---
 launch_pytest/launch_pytest/plugin.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 913d21d..1e79e6b 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -122,9 +122,15 @@ def pytest_fixture_setup(fixturedef, request):
         asyncio.set_event_loop(event_loop)
         event = asyncio.Event()
         ready._add_callback(lambda: event.set())
+        # Do not wait forever if it is never going to be ready
+        run_async_task.add_done_callback(lambda _: event.set())
         fixturedef.addfinalizer(functools.partial(
             finalize_launch_service, ls, eprefix=eprefix, auto_shutdown=options['auto_shutdown']))
         run_until_complete(event_loop, event.wait())
+        if run_async_task.done():
+            # The other tests using this fixture cannot run either
+            fixturedef.cached_result = None
+            fail(f'{eprefix} launch service finished before being ready to test', pytrace=False)
         # this is guaranteed by the current run_async() implementation, let's check it just in case
         # it changes in the future
         assert ls.event_loop is event_loop
-- 
2.43.0


From dfe9275f372e69dc089662705b33806a04726091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:57 +0000
Subject: [PATCH 076/111] fix: do not hang when a test raises StopIteration in
 launch_pytest

---
 launch_pytest/launch_pytest/plugin.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 1e79e6b..c0d72da 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -388,6 +388,17 @@ def run_until_complete(loop, future_like):
         raise
 
 
+def run_in_executor(event_loop, func):
+    """Return a future for a function that is run in a separate thread."""
+    def inner():
+        try:
+            return func()
+        except StopIteration as exc:
+            # This cannot be raised into a future, which would never be done
+            raise RuntimeError('test raised StopIteration') from exc
+    return event_loop.run_in_executor(None, inner)
+
+
 def wrap_coroutine(func, event_loop, before_test):
     """Return a sync wrapper around an async function to be executed in the event loop."""
     @functools.wraps(func)
@@ -407,7 +418,7 @@ def wrap_func(func, event_loop, before_test):
     def inner(**kwargs):
         if before_test is not None:
             before_test()
-        future = event_loop.run_in_executor(None, functools.partial(func, **kwargs))
+        future = run_in_executor(event_loop, functools.partial(func, **kwargs))
         run_until_complete(event_loop, future)
     return inner
 
@@ -436,7 +447,7 @@ def wrap_generator(func, event_loop, on_shutdown):
     def inner(**kwargs):
         nonlocal gen
         local_gen = func(**kwargs)
-        future = event_loop.run_in_executor(None, lambda: next(local_gen))
+        future = run_in_executor(event_loop, lambda: next(local_gen))
         run_until_complete(event_loop, future)
         gen = local_gen
 
@@ -448,7 +459,7 @@ def wrap_generator_fscope(func, event_loop, on_shutdown):
     @functools.wraps(func)
     def inner(**kwargs):
         gen = func(**kwargs)
-        future = event_loop.run_in_executor(None, lambda: next(gen))
+        future = run_in_executor(event_loop, lambda: next(gen))
         run_until_complete(event_loop, future)
         on_shutdown()
         try:
-- 
2.43.0


From bfd9c1beaaf8947e54b976c685add578b17dc312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 077/111] fix: report launches that failed while tests were
 running in launch_pytest

---
 launch_pytest/launch_pytest/fixture.py | 11 ++++++++---
 launch_pytest/launch_pytest/plugin.py  |  1 +
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/fixture.py b/launch_pytest/launch_pytest/fixture.py
index aec03c6..bfd4a74 100644
--- a/launch_pytest/launch_pytest/fixture.py
+++ b/launch_pytest/launch_pytest/fixture.py
@@ -30,9 +30,14 @@ except ImportError:
 def finalize_launch_service(launch_service, eprefix='', auto_shutdown=True):
     if auto_shutdown:
         launch_service.shutdown(force_sync=True)
-    loop = launch_service.event_loop
-    if loop is not None and not loop.is_closed():
-        rc = loop.run_until_complete(launch_service.task)
+    task = launch_service.task
+    if task is None or task is getattr(launch_service, '_launch_pytest_finalized_task', None):
+        return
+    loop = task.get_loop()
+    if not loop.is_closed():
+        # The task may have finished before, the failure has to be reported anyways
+        launch_service._launch_pytest_finalized_task = task
+        rc = loop.run_until_complete(task)
         assert rc == 0, f"{eprefix} launch service failed when finishing, return code '{rc}'"
 
 
diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index c0d72da..156f19d 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -130,6 +130,7 @@ def pytest_fixture_setup(fixturedef, request):
         if run_async_task.done():
             # The other tests using this fixture cannot run either
             fixturedef.cached_result = None
+            ls._launch_pytest_finalized_task = run_async_task
             fail(f'{eprefix} launch service finished before being ready to test', pytrace=False)
         # this is guaranteed by the current run_async() implementation, let's check it just in case
         # it changes in the future
-- 
2.43.0


From e649a0cd17e049eb79109b93161b540602cc09a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 078/111] fix: do not mix the launches of different classes and
 modules in launch_pytest

---
 launch_pytest/launch_pytest/plugin.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 156f19d..efd7598 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -185,6 +185,15 @@ def get_fixture_scope(fixture):
     return marker.scope
 
 
+def get_launch_scope(fixture, node):
+    """Return the scope of the launch for a test item (or its collector) using the fixture."""
+    scope = get_fixture_scope(fixture)
+    if scope == 'class' and node.getparent(pytest.Class) is None:
+        # pytest sets up class scoped fixtures for each of the functions outside of classes
+        return 'function'
+    return scope
+
+
 def is_valid_test_item(obj):
     """Return true if obj is a valid launch test item."""
     return (
@@ -252,7 +261,7 @@ def pytest_pycollect_makeitem(collector, name, obj):
                 return [item]
             fixture = get_launch_test_fixture(item)
             fixturename = fixture.__name__
-            scope = get_fixture_scope(fixture)
+            scope = get_launch_scope(fixture, collector)
             is_shutdown = has_shutdown_kwarg(item)
             items = generate_test_items(
                 collector, name, obj, fixturename, is_shutdown=is_shutdown, needs_renaming=False)
@@ -280,7 +289,12 @@ def is_same_launch_test_fixture(left_item, right_item):
         return False
     if lfn is not rfn:
         return False
-    if get_fixture_scope(lfn) == 'function':
+    scope = get_launch_scope(lfn, left_item)
+    if 'function' in (scope, get_launch_scope(rfn, right_item)):
+        return False
+    # Each class or module using the fixture has its own launch
+    node_type = {'class': pytest.Class, 'module': pytest.Module}.get(scope)
+    if node_type and left_item.getparent(node_type) is not right_item.getparent(node_type):
         return False
     name = lfn.__name__
 
@@ -342,7 +356,7 @@ def pytest_pyfunc_call(pyfuncitem):
         return
     shutdown_test = is_shutdown_test(pyfuncitem)
     fixture = get_launch_test_fixture(pyfuncitem)
-    scope = get_fixture_scope(fixture)
+    scope = get_launch_scope(fixture, pyfuncitem)
     event_loop = pyfuncitem.funcargs['event_loop']
     ls = pyfuncitem.funcargs['launch_service']
     auto_shutdown = fixture._launch_pytest_fixture_options['auto_shutdown']
-- 
2.43.0


From c775a4109ba190136b1ed5631b8c768a862f4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:00 +0000
Subject: [PATCH 079/111] fix: do not hang when a test calls sys.exit() in
 launch_pytest

---
 launch_pytest/launch_pytest/plugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index efd7598..497f6dd 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -408,9 +408,9 @@ def run_in_executor(event_loop, func):
     def inner():
         try:
             return func()
-        except StopIteration as exc:
-            # This cannot be raised into a future, which would never be done
-            raise RuntimeError('test raised StopIteration') from exc
+        except (StopIteration, SystemExit, KeyboardInterrupt) as exc:
+            # These cannot be passed on by a future, the loop would never stop waiting for it
+            raise RuntimeError(f'test raised {exc!r}') from exc
     return event_loop.run_in_executor(None, inner)
 
 
-- 
2.43.0


From 77359d2eed524656a5e3297f47807562ce3fa82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:00 +0000
Subject: [PATCH 080/111] fix: do not run other tests when their launch could
 not be set up in launch_pytest

---
 launch_pytest/launch_pytest/plugin.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 497f6dd..4ff8696 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -97,6 +97,18 @@ def get_ready_to_test_action(launch_description):
 @pytest.hookimpl(hookwrapper=True, tryfirst=True)
 def pytest_fixture_setup(fixturedef, request):
     """Set up launch service for all launch_pytest fixtures."""
+    try:
+        yield from set_up_launch(fixturedef, request)
+    except BaseException:
+        result = fixturedef.cached_result
+        if result is not None and result[2] is None:
+            # The other tests using this fixture cannot run without the launch either
+            fixturedef.finish(request)
+        raise
+
+
+def set_up_launch(fixturedef, request):
+    """Set up launch service for a launch_pytest fixture."""
     if getattr(fixturedef.func, '_launch_pytest_fixture', False):
         options = fixturedef.func._launch_pytest_fixture_options
         eprefix = f"When running launch_pytest fixture '{fixturedef.func.__name__}':"
@@ -114,11 +126,11 @@ def pytest_fixture_setup(fixturedef, request):
             assert len(ret) > 0, wrong_ret_type_error
             ld = ret[0]
         assert isinstance(ld, launch.LaunchDescription), wrong_ret_type_error
+        ready = get_ready_to_test_action(ld)
         ls.include_launch_description(ld)
         run_async_task = event_loop.create_task(ls.run_async(
             shutdown_when_idle=options['shutdown_when_idle']
         ))
-        ready = get_ready_to_test_action(ld)
         asyncio.set_event_loop(event_loop)
         event = asyncio.Event()
         ready._add_callback(lambda: event.set())
@@ -128,8 +140,6 @@ def pytest_fixture_setup(fixturedef, request):
             finalize_launch_service, ls, eprefix=eprefix, auto_shutdown=options['auto_shutdown']))
         run_until_complete(event_loop, event.wait())
         if run_async_task.done():
-            # The other tests using this fixture cannot run either
-            fixturedef.cached_result = None
             ls._launch_pytest_finalized_task = run_async_task
             fail(f'{eprefix} launch service finished before being ready to test', pytrace=False)
         # this is guaranteed by the current run_async() implementation, let's check it just in case
-- 
2.43.0


From 11d2f5b555222d2fd85931f353fab5d5d3b90a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 081/111] fix: decode output which is received in pieces in
 ProcessProxy

---
 .../launch_testing/tools/process.py           | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index 5c71c09..43f98a5 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import codecs
 import contextlib
 
 import launch
@@ -106,29 +107,32 @@ class ProcessProxy:
     def target_process_action(self):
         return self._process_action
 
-    @property
-    def stderr(self):
-        output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stderr)
+    def _get_output_text(self, *streams):
+        # The pieces in which the output was received may end anywhere, even within a character
+        make_decoder = codecs.getincrementaldecoder('utf-8')
+        decoders = {stream: make_decoder(errors='replace') for stream in streams}
+        output_text = ''
+        for ev in self._proc_output[self._process_action]:
+            decoder = decoders.get('stdout' if ev.from_stdout else 'stderr')
+            if decoder is not None:
+                output_text += decoder.decode(ev.text)
+        for decoder in decoders.values():
+            output_text += decoder.decode(b'', final=True)
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
 
+    @property
+    def stderr(self):
+        return self._get_output_text('stderr')
+
     @property
     def stdout(self):
-        output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stdout)
-        if self._output_filter is not None:
-            output_text = self._output_filter(output_text)
-        return output_text
+        return self._get_output_text('stdout')
 
     @property
     def output(self):
-        output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events)
-        if self._output_filter is not None:
-            output_text = self._output_filter(output_text)
-        return output_text
+        return self._get_output_text('stdout', 'stderr')
 
     @property
     def running(self):
-- 
2.43.0


From 6949aea357f93325b4c97fc6a3774fc0d60279d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 082/111] fix: do not ignore the output of a process which has
 exited in ProcessProxy.wait_for_output

---
 launch_testing/launch_testing/tools/process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index 43f98a5..fed3a0a 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -99,7 +99,7 @@ class ProcessProxy:
 
         with self._proc_output.io_event:
             bool_result = self._proc_output.io_event.wait_for(
-                lambda: self.running and condition(remember_output()), timeout=timeout
+                lambda: self._started and condition(remember_output()), timeout=timeout
             )
             return BoolWithText(bool_result, actual_output)
 
@@ -134,6 +134,10 @@ class ProcessProxy:
     def output(self):
         return self._get_output_text('stdout', 'stderr')
 
+    @property
+    def _started(self):
+        return self._process_action in self._proc_info.processes()
+
     @property
     def running(self):
         if self._process_action not in self._proc_info.processes():
-- 
2.43.0


From 1b0d786d39fb2f39e758938b4f24039800ee4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 083/111] fix: wait for output in ProcessProxy.wait_for_output
 without a condition

---
 launch_testing/launch_testing/tools/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index fed3a0a..6ceb184 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -72,7 +72,8 @@ class ProcessProxy:
         :return: whether the condition has been satisfied or not.
         """
         if condition is None:
-            condition = (lambda output: True)
+            def condition(output):
+                return len(self._proc_output[self._process_action]) > 0
         if not callable(condition):
             raise TypeError(
                 "Expected 'condition' to be callable but got '{!r}'".format(condition)
-- 
2.43.0


From 6354cb994dd1d544ac7397a0cef61d3d5c9b39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:21 +0000
Subject: [PATCH 084/111] fix: do not miss text which is received in pieces in
 StdoutReadyListener

---
 .../event_handlers/stdout_ready_listener.py            | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
index af02ba5..8bf343e 100644
--- a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
+++ b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from typing import Dict  # noqa: F401
 from typing import List
 from typing import Optional
 from typing import Text
@@ -40,6 +41,7 @@ class StdoutReadyListener(OnProcessIO):
     ):
         self.__ready_txt = ready_txt
         self.__actions = actions
+        self.__unmatched = {}  # type: Dict[int, bytes]
 
         super().__init__(
             target_action=target_action,
@@ -47,7 +49,13 @@ class StdoutReadyListener(OnProcessIO):
         )
 
     def __on_stdout(self, process_io):
-        if self.__ready_txt in process_io.text.decode():
+        # The text may be received in pieces, keep what could be the beginning of it
+        ready_txt = self.__ready_txt.encode()
+        text = self.__unmatched.pop(process_io.pid, b'') + process_io.text
+        position = text.rfind(ready_txt)
+        rest = text if position < 0 else text[position + len(ready_txt):]
+        self.__unmatched[process_io.pid] = rest[max(0, len(rest) - len(ready_txt) + 1):]
+        if position >= 0:
             return self.__actions
 
     def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
-- 
2.43.0


From d779df9adb9af1c5d409d9d0765b130544d34f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:22 +0000
Subject: [PATCH 085/111] fix: fail a launch test whose process output did not
 match

The failure was overwritten at once, so such a test was never reported as failed.
---
 launch_testing/launch_testing/legacy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/__init__.py b/launch_testing/launch_testing/legacy/__init__.py
index bfe094a..19020c7 100644
--- a/launch_testing/launch_testing/legacy/__init__.py
+++ b/launch_testing/launch_testing/legacy/__init__.py
@@ -213,7 +213,8 @@ class LaunchTestService():
                 process_name = action.process_details['name']
                 reason = 'not all {} output matched!'.format(process_name)
                 self._fail(test_name, reason)
-            self._succeed(test_name, side_effect)
+            else:
+                self._succeed(test_name, side_effect)
 
         launch_description.add_action(
             RegisterEventHandler(OnShutdown(on_shutdown=on_shutdown))
-- 
2.43.0


From 0a02dfda1aee5579cf4bf0442e04ade6d582484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:22 +0000
Subject: [PATCH 086/111] fix: keep lines apart when output is matched against
 regular expressions

The end of the line at the end of each piece of output was dropped.
---
 launch_testing/launch_testing/legacy/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index 78d8cf0..a9975be 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -105,11 +105,11 @@ def create_output_lines_test(expected_lines):
 def create_output_regex_test(expected_patterns):
     """Create output test given a list of expected matching regular expressions."""
     def _collate(output, addendum):
-        output.write(b'\n'.join(addendum.splitlines()))
+        output.write(addendum)
         return output
 
     def _match(output, pattern):
-        return pattern.search(output.getvalue()) is not None
+        return pattern.search(b'\n'.join(output.getvalue().splitlines())) is not None
 
     return io.BytesIO(), _collate, _match, expected_patterns
 
-- 
2.43.0


From 50772d15f089e03292f021d418345f5be0a5030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:22 +0000
Subject: [PATCH 087/111] fix: apply filtered patterns to every line of output

The iterator over them was exhausted after the first line.
---
 launch_testing/launch_testing/legacy/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index a9975be..e1f6b6d 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -71,7 +71,7 @@ def create_output_lines_filter(
         filtered_patterns.extend(get_rmw_output_filter(
             filtered_rmw_implementation, 'patterns'
         ))
-    filtered_patterns = map(re.compile, filtered_patterns)
+    filtered_patterns = list(map(re.compile, filtered_patterns))
     encoded_line_sep = os.linesep.encode('ascii')
 
     def _filter(output):
-- 
2.43.0


From 34a3df1275c4841664d123fab51e1f6a3a27dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:23 +0000
Subject: [PATCH 088/111] fix: do not add empty lines to filtered output

---
 launch_testing/launch_testing/legacy/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index e1f6b6d..8adf147 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -85,7 +85,7 @@ def create_output_lines_filter(
                 continue
             filtered_output.append(line)
         if output.endswith(encoded_line_sep):
-            filtered_output.append(encoded_line_sep)
+            filtered_output.append(b'')
         return encoded_line_sep.join(filtered_output)
     return _filter
 
-- 
2.43.0


From ee3f055b951ec4903a3ec73dc21a69fd507aee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:22 +0000
Subject: [PATCH 089/111] fix: fail a launch test whose process could not be
 started

Neither was it reported as failed, nor was the launch shut down.
---
 launch_testing/launch_testing/legacy/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/launch_testing/launch_testing/legacy/__init__.py b/launch_testing/launch_testing/legacy/__init__.py
index 19020c7..6104982 100644
--- a/launch_testing/launch_testing/legacy/__init__.py
+++ b/launch_testing/launch_testing/legacy/__init__.py
@@ -145,6 +145,17 @@ class LaunchTestService():
                     target_action=action, on_exit=on_test_process_exit
                 ))
             )
+
+            def on_test_process_completion(event, context):
+                if self.__tests[test_name] == 'armed' and not context.is_shutdown:
+                    # It could not be started, or else its exit would have been handled already.
+                    return self._fail(test_name, reason='test process was not started!')
+
+            launch_description.add_action(
+                RegisterEventHandler(OnExecutionComplete(
+                    target_action=action, on_completion=on_test_process_completion
+                ))
+            )
         else:
             def on_test_completion(event, context):
                 future = event.action.get_asyncio_future()
-- 
2.43.0


From 01380a0d0691873eb144d9087a10345feec85ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:46 +0000
Subject: [PATCH 090/111] fix: do not let a module that cannot be imported keep
 pytest from collecting others

In particular, a module which skips itself skipped its whole folder.
---
 launch_testing/launch_testing/pytest/hooks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index 2f2db8c..7fa63f5 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -187,7 +187,11 @@ def find_launch_test_entrypoint(path):
             # Assume we got legacy path in earlier versions of pytest
             module = path.pyimport()
         return getattr(module, 'generate_test_description', None)
-    except SyntaxError:
+    except (KeyboardInterrupt, pytest.exit.Exception):
+        raise
+    except BaseException:
+        # Whatever it is, e.g. a skip, it will be reported for this module (only) when pytest
+        # imports it.
         return None
 
 
-- 
2.43.0


From 64e126ce932967a221e3a6463044c5b3392e5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:46 +0000
Subject: [PATCH 091/111] fix: import modules in pytest's import mode when
 looking for launch tests

With --import-mode=importlib modules were imported twice, and collection failed
if there were two of the same name.
---
 launch_testing/launch_testing/pytest/hooks.py | 38 ++++++++++++-------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index 7fa63f5..e69f4f7 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -14,6 +14,7 @@
 
 import copy
 import pathlib
+import sys
 
 from _pytest._code.code import ReprFileLocation
 
@@ -30,6 +31,23 @@ def _pytest_version_ge(major, minor=0, patch=0):
     return pytest_version >= (major, minor, patch)
 
 
+def _import_path(path, config):
+    """Import a module the way pytest does."""
+    from _pytest.pathlib import import_path
+    kwargs = {'mode': config.getoption('importmode'), 'root': config.rootpath}
+    if _pytest_version_ge(8, 1, 0):
+        kwargs['consider_namespace_packages'] = config.getini('consider_namespace_packages')
+    known_modules = set(sys.modules)
+    try:
+        return import_path(path, **kwargs)
+    except BaseException:
+        # Or else an incomplete module would be there already when it is imported again.
+        for name in set(sys.modules) - known_modules:
+            if getattr(sys.modules[name], '__file__', None) == str(path):
+                del sys.modules[name]
+        raise
+
+
 class LaunchTestFailure(Exception):
 
     def __init__(self, message, results):
@@ -159,12 +177,8 @@ class LaunchTestModule(pytest.File):
         return LaunchTestItem.from_parent(*args, **kwargs)
 
     def collect(self):
-        if _pytest_version_ge(8, 1, 0):
-            from _pytest.pathlib import import_path
-            module = import_path(self.path, root=None, consider_namespace_packages=False)
-        elif _pytest_version_ge(7, 0, 0):
-            from _pytest.pathlib import import_path
-            module = import_path(self.path, root=None)
+        if _pytest_version_ge(7, 0, 0):
+            module = _import_path(self.path, self.config)
         else:
             module = self.fspath.pyimport()
         yield self.makeitem(
@@ -175,14 +189,10 @@ class LaunchTestModule(pytest.File):
         )
 
 
-def find_launch_test_entrypoint(path):
+def find_launch_test_entrypoint(path, config):
     try:
-        if _pytest_version_ge(8, 1, 0):
-            from _pytest.pathlib import import_path
-            module = import_path(path, root=None, consider_namespace_packages=False)
-        elif _pytest_version_ge(7, 0, 0):
-            from _pytest.pathlib import import_path
-            module = import_path(path, root=None)
+        if _pytest_version_ge(7, 0, 0):
+            module = _import_path(pathlib.Path(path), config)
         else:
             # Assume we got legacy path in earlier versions of pytest
             module = path.pyimport()
@@ -196,7 +206,7 @@ def find_launch_test_entrypoint(path):
 
 
 def pytest_pycollect_makemodule(path, parent):
-    entrypoint = find_launch_test_entrypoint(path)
+    entrypoint = find_launch_test_entrypoint(path, parent.config)
     if entrypoint is not None:
         ihook = parent.session.gethookproxy(path)
         module = ihook.pytest_launch_collect_makemodule(
-- 
2.43.0


From aba0603ac2cac1d004660692d85b9aaab0274212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:27 +0000
Subject: [PATCH 092/111] fix: leave modules which are no launch tests to
 pytest 8

The file __init__.py of a package was collected as if it was a folder.
---
 launch_testing/launch_testing/pytest/hooks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/pytest/hooks.py b/launch_testing/launch_testing/pytest/hooks.py
index e69f4f7..58f1a42 100644
--- a/launch_testing/launch_testing/pytest/hooks.py
+++ b/launch_testing/launch_testing/pytest/hooks.py
@@ -215,7 +215,10 @@ def pytest_pycollect_makemodule(path, parent):
         if module is not None:
             return module
 
-    if _pytest_version_ge(7):
+    if _pytest_version_ge(8):
+        # Packages are collected otherwise, leave modules to pytest
+        return None
+    elif _pytest_version_ge(7):
         path = pathlib.Path(path)
         if path.name == '__init__.py':
             return pytest.Package.from_parent(parent, path=path)
-- 
2.43.0


From 9a9019307703b3d676f74b2433a2b257deaabfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:24 +0000
Subject: [PATCH 093/111] fix: do not change the lists passed to
 create_output_lines_filter

---
 launch_testing/launch_testing/legacy/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index 8adf147..cbc6f42 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -62,8 +62,8 @@ def create_output_lines_filter(
     :param filtered_rmw_implementation: RMW implementation for which the output will be
     ignored in addition to the `filtered_prefixes`/`filtered_patterns`.
     """
-    filtered_prefixes = filtered_prefixes or get_default_filtered_prefixes()
-    filtered_patterns = filtered_patterns or get_default_filtered_patterns()
+    filtered_prefixes = list(filtered_prefixes or get_default_filtered_prefixes())
+    filtered_patterns = list(filtered_patterns or get_default_filtered_patterns())
     if filtered_rmw_implementation:
         filtered_prefixes.extend(get_rmw_output_filter(
             filtered_rmw_implementation, 'prefixes'
-- 
2.43.0


From 5dd38d422f8cd00f37fa3ab2d15fdea68f82989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:06 +0000
Subject: [PATCH 094/111] fix: treat a CancelledError raised by a callback like
 any other error

---
 launch/launch/launch_service.py                            | 7 ++++++-
 .../visit_all_entities_and_collect_futures_impl.py         | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index abb7da3..d8f8526 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -252,7 +252,12 @@ class LaunchService:
             except KeyboardInterrupt:
                 # Signals are handled separately, do not keep the event from other handlers.
                 continue
-            except Exception as exc:
+            except (Exception, asyncio.CancelledError) as exc:
+                if isinstance(exc, asyncio.CancelledError):
+                    # Nothing was awaited, so this is an error too, e.g. of getting the result of
+                    # a canceled future, and must not pass for the cancellation of this task.
+                    exc = RuntimeError('{}: {}'.format(type(exc).__name__, exc)).with_traceback(
+                        exc.__traceback__)
                 # Let the other handlers handle the event too, e.g. the ones which shut down
                 # running processes, and propagate the first exception afterwards.
                 if exception_to_raise is None:
diff --git a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
index 8d28ada..d11f243 100644
--- a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
+++ b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
@@ -44,7 +44,7 @@ def visit_all_entities_and_collect_futures(
         try:
             for sub_entity in sub_entities:
                 futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
-        except Exception:
+        except BaseException:
             # The futures collected so far cannot be returned to the caller, but the launch
             # system still has to wait for the entities which were visited before the failure.
             for _, future in futures_to_return:
-- 
2.43.0


From 8f9851b1aa10e50be71804a985b9eb2c5ef4353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:20 +0000
Subject: [PATCH 095/111] fix: receive the last output of a process before its
 exit is announced

---
 launch/launch/actions/execute_local.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index a0ecd63..62fed61 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -577,6 +577,7 @@ class ExecuteLocal(Action):
             self.__action = action
             self.__context = context
             self.__process_event_args = process_event_args
+            self.__chunks_received = 0
             self.__logger = launch.logging.get_logger(process_event_args['name'])
 
         def connection_made(self, transport):
@@ -592,11 +593,30 @@ class ExecuteLocal(Action):
             self.__context.emit_event_sync(ProcessStarted(**self.__process_event_args))
 
         def on_stdout_received(self, data: bytes) -> None:
+            self.__chunks_received += 1
             self.__context.emit_event_sync(ProcessStdout(text=data, **self.__process_event_args))
 
         def on_stderr_received(self, data: bytes) -> None:
+            self.__chunks_received += 1
             self.__context.emit_event_sync(ProcessStderr(text=data, **self.__process_event_args))
 
+        async def receive_pending_output(self) -> None:
+            """
+            Receive what the process, which has exited, has written so far.
+
+            This does not wait for the end of the output, because other processes may have
+            inherited it.
+            """
+            quiet_iterations = 0
+            for _ in range(200):
+                chunks_received = self.__chunks_received
+                await asyncio.sleep(0)
+                quiet_iterations += 1
+                if self.__chunks_received != chunks_received:
+                    quiet_iterations = 0
+                elif quiet_iterations == 4:
+                    break
+
     async def __execute_process(self, context: LaunchContext) -> None:
         process_event_args = self.__process_event_args
         if process_event_args is None:
@@ -648,6 +668,8 @@ class ExecuteLocal(Action):
 
         pid = transport.get_pid()
         returncode = await protocol.complete
+        # The exit may be noticed before the last output is.
+        await protocol.receive_pending_output()
         if returncode == 0:
             self.__logger.info('process has finished cleanly [pid {}]'.format(pid))
         else:
-- 
2.43.0


From a6cc08662347adfb59ff511e903924b2e91809bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 096/111] fix: cancel each ongoing execution of an
 OpaqueCoroutine upon shutdown

---
 launch/launch/actions/opaque_coroutine.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/launch/launch/actions/opaque_coroutine.py b/launch/launch/actions/opaque_coroutine.py
index 3628075..948651a 100644
--- a/launch/launch/actions/opaque_coroutine.py
+++ b/launch/launch/actions/opaque_coroutine.py
@@ -93,23 +93,22 @@ class OpaqueCoroutine(Action):
         self.__ignore_context = ignore_context  # type: bool
         self.__future = None  # type: Optional[asyncio.Future]
 
-    def __on_shutdown(self, event: Event, context: LaunchContext) -> Optional[SomeEntitiesType]:
-        """Cancel ongoing coroutine upon shutdown."""
-        if self.__future is not None:
-            self.__future.cancel()
-        return None
-
     def execute(self, context: LaunchContext) -> Optional[List[LaunchDescriptionEntity]]:
         """Execute the action."""
         args = self.__args
         if not self.__ignore_context:
             args = [context, *self.__args]
-        self.__future = context.asyncio_loop.create_task(
+        # The action may be executed again while this coroutine is ongoing.
+        future = self.__future = context.asyncio_loop.create_task(
             self.__coroutine(*args, **self.__kwargs)
         )
-        context.register_event_handler(
-            OnShutdown(on_shutdown=self.__on_shutdown)
-        )
+
+        def on_shutdown(event: Event, context: LaunchContext) -> Optional[SomeEntitiesType]:
+            """Cancel ongoing coroutine upon shutdown."""
+            future.cancel()
+            return None
+
+        context.register_event_handler(OnShutdown(on_shutdown=on_shutdown))
         return None
 
     def get_asyncio_future(self) -> Optional[asyncio.Future]:
-- 
2.43.0


From f3ea75d4042c4386b6695e9554eb38b505ae802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:26 +0000
Subject: [PATCH 097/111] fix: react with all entities of an on_event iterable
 which can be iterated only once

---
 launch/launch/event_handlers/on_action_event_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/event_handlers/on_action_event_base.py b/launch/launch/event_handlers/on_action_event_base.py
index aaa9f55..4e0c885 100644
--- a/launch/launch/event_handlers/on_action_event_base.py
+++ b/launch/launch/event_handlers/on_action_event_base.py
@@ -97,12 +97,13 @@ class OnActionEventBase(BaseEventHandler):
         else:
             # Otherwise, setup self.__actions_on_event
             if isinstance(on_event, collections.abc.Iterable):
+                on_event = list(on_event)  # It might be possible to iterate over it only once
                 for entity in on_event:
                     if not isinstance(entity, LaunchDescriptionEntity):
                         raise TypeError(
                             "expected all items in 'on_event' iterable to be of type "
                             "'LaunchDescriptionEntity' but got '{}'".format(type(entity)))
-                self.__actions_on_event = list(on_event)  # Outside list is to ensure type is List
+                self.__actions_on_event = on_event
             else:
                 self.__actions_on_event = [on_event]
 
-- 
2.43.0


From 178eb15a30fb8fd7e6c1f7ea89a7a245824fa3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:26 +0000
Subject: [PATCH 098/111] fix: keep the actions of a TimerAction given as an
 iterator

---
 launch/launch/actions/timer_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index d8d09a7..8e30445 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -83,7 +83,7 @@ class TimerAction(Action):
                 'passing a string literal was deprecated',
                 stacklevel=2)
         self.__period = type_utils.normalize_typed_substitution(period, float)
-        self.__actions = actions
+        self.__actions = list(actions)  # It might be possible to iterate over it only once
         # The timer may be executed again while it is pending, so keep them for each event.
         self.__context_locals: Dict[Event, Dict[Text, Any]] = {}
         self._completed_future: Optional[asyncio.Future] = None
-- 
2.43.0


From 3a00d995772062a46d4280d97a3ffa4eb37a588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:34 +0000
Subject: [PATCH 099/111] fix: keep the entities of an EventHandler given as an
 iterator

---
 launch/launch/event_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index 4f0f9e2..2322c5d 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -123,6 +123,8 @@ class EventHandler(BaseEventHandler):
         """
         super().__init__(matcher=matcher, handle_once=handle_once)
 
+        if isinstance(entities, collections.abc.Iterable):
+            entities = list(entities)  # It might be possible to iterate over it only once
         self.__entities = entities
 
     @property
-- 
2.43.0


From d3b467be110b01300b5902b099991f6d7f630570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:02 +0000
Subject: [PATCH 100/111] fix: describe the on_exit entities of a process given
 as an iterator

---
 launch/launch/actions/execute_local.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 62fed61..b482c34 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -16,6 +16,7 @@
 
 import asyncio
 import codecs
+import collections.abc
 import io
 import logging
 import os
@@ -206,6 +207,8 @@ class ExecuteLocal(Action):
 
         self.__log_cmd = log_cmd
         self.__cached_output = cached_output
+        if isinstance(on_exit, collections.abc.Iterable) and not callable(on_exit):
+            on_exit = list(on_exit)  # It might be possible to iterate over it only once
         self.__on_exit = on_exit
         self.__respawn = normalize_typed_substitution(respawn, bool)
         self.__respawn_delay = respawn_delay
@@ -266,7 +269,7 @@ class ExecuteLocal(Action):
     def get_sub_entities(self):
         if isinstance(self.__on_exit, LaunchDescriptionEntity):
             return [self.__on_exit]
-        if isinstance(self.__on_exit, (list, tuple)):
+        if isinstance(self.__on_exit, list):
             return list(self.__on_exit)
         return []
 
-- 
2.43.0


From fef15f5af3483438a8bb58e17855d286d27d35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:05 +0000
Subject: [PATCH 101/111] fix: allow to expose the parsing method of an action
 again with the same name

---
 launch/launch/frontend/expose.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/launch/launch/frontend/expose.py b/launch/launch/frontend/expose.py
index 6978af0..0105cc3 100644
--- a/launch/launch/frontend/expose.py
+++ b/launch/launch/frontend/expose.py
@@ -93,7 +93,11 @@ def __expose_impl(name: Text, parse_methods_map: dict, exposed_type: Text):
                 'Exposed {} parser for {} is not a callable or a class'
                 ' containing a parse method'.format(exposed_type, name)
             )
-        if name in parse_methods_map and found_parse_method != parse_methods_map[name]:
+        exposed_method = parse_methods_map.get(name)
+        if exposed_type == 'action':
+            # Actions are exposed with a wrapper around their parsing method, see below
+            exposed_method = getattr(exposed_method, '__wrapped__', exposed_method)
+        if name in parse_methods_map and found_parse_method != exposed_method:
             raise RuntimeError(
                 'Two {} parsing methods exposed with the same name: [{}].'.format(
                     exposed_type,
-- 
2.43.0


From 6cca68ceb37c9eda369757fa7d709abe05158861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:23 +0000
Subject: [PATCH 102/111] fix: refuse parametrize values that don't match the
 names

---
 launch_testing/launch_testing/parametrize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/launch_testing/launch_testing/parametrize.py b/launch_testing/launch_testing/parametrize.py
index 544d007..e2386de 100644
--- a/launch_testing/launch_testing/parametrize.py
+++ b/launch_testing/launch_testing/parametrize.py
@@ -34,6 +34,12 @@ def parametrize(argnames, argvalues):
     """
     argnames = [x.strip() for x in argnames.split(',') if x.strip()]
     argvalues = [_normalize_to_tuple(x) for x in argvalues]
+    for val in argvalues:
+        if len(val) != len(argnames):
+            raise ValueError(
+                'in "parametrize" the number of names ({}): {} must be equal to the '
+                'number of values ({}): {}'.format(len(argnames), argnames, len(val), val)
+            )
 
     def _decorator(func):
         @functools.wraps(func)
-- 
2.43.0


From dfdc1eccd2ac851134727564907f87657b4ac53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:58 +0000
Subject: [PATCH 103/111] fix: ignore calls that are pending in a loop without
 readers after the signal manager was left

---
 launch/launch/utilities/signal_management.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index 34191d8..c7c2785 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -209,6 +209,9 @@ class AsyncSafeSignalManager:
         return prev_wakeup_handle
 
     def __handle_signal(self):
+        if self.__rsock is None:
+            # The background loop scheduled it before the manager was left.
+            return
         while True:
             try:
                 data = self.__rsock.recv(4096)
-- 
2.43.0


From 031f5f7e9fbfa2daebe2d00fc10b4764cd62e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:35 +0000
Subject: [PATCH 104/111] fix: pass arguments of add_launch_test with
 backslashes and dollar signs as they are given

---
 launch_testing_ament_cmake/cmake/add_launch_test.cmake | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch_testing_ament_cmake/cmake/add_launch_test.cmake b/launch_testing_ament_cmake/cmake/add_launch_test.cmake
index b9b19b3..8eb8ba7 100644
--- a/launch_testing_ament_cmake/cmake/add_launch_test.cmake
+++ b/launch_testing_ament_cmake/cmake/add_launch_test.cmake
@@ -111,7 +111,10 @@ function(add_launch_test filename)
   # Convert filename to CMake path before calling macro to
   # avoid problems with backslashes in the filename string.
   file(TO_CMAKE_PATH "${filename}" filename)
-  parse_launch_test_arguments(_launch_test ${filename} ${ARGN})
+  # The macro evaluates its arguments once more
+  string(REPLACE "\\" "\\\\" _launch_test_arguments "${ARGN}")
+  string(REPLACE "$" "\\$" _launch_test_arguments "${_launch_test_arguments}")
+  parse_launch_test_arguments(_launch_test ${filename} ${_launch_test_arguments})
 
   set(cmd
     "${_launch_test_PYTHON_EXECUTABLE}"
-- 
2.43.0


From 992a855b2a7ad648453206212dc25da8c6ce8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:08 +0000
Subject: [PATCH 105/111] fix: close the output of emulated terminals and of
 earlier runs of a respawned process at its end

---
 launch/launch/actions/execute_local.py | 32 +++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index b482c34..2fd3877 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -219,6 +219,7 @@ class ExecuteLocal(Action):
         self.__process_event_args = None  # type: Optional[Dict[Text, Any]]
         self._subprocess_protocol = None  # type: Optional[Any]
         self._subprocess_transport = None
+        self._unclosed_protocols: List[Any] = []
         self._subprocess_starting = False
         self.__completed_future = None  # type: Optional[asyncio.Future]
         self.__shutdown_future = None  # type: Optional[asyncio.Future]
@@ -562,9 +563,10 @@ class ExecuteLocal(Action):
             self.__sigterm_timer.cancel()
         if self.__sigkill_timer is not None:
             self.__sigkill_timer.cancel()
-        # Close subprocess transport if any.
-        if self._subprocess_transport is not None:
-            self._subprocess_transport.close()
+        # Close subprocess transports if any.
+        for protocol in self._unclosed_protocols:
+            protocol.close()
+        self._unclosed_protocols.clear()
         # Signal that we're done to the launch system.
         self.__completed_future.set_result(None)
 
@@ -591,6 +593,7 @@ class ExecuteLocal(Action):
             self.__process_event_args['pid'] = transport.get_pid()
             self.__action._subprocess_protocol = self
             self.__action._subprocess_transport = transport
+            self.__action._unclosed_protocols.append(self)
             self.__action._subprocess_starting = False
             # Emit this here, as output may be received before this method's caller returns.
             self.__context.emit_event_sync(ProcessStarted(**self.__process_event_args))
@@ -603,6 +606,24 @@ class ExecuteLocal(Action):
             self.__chunks_received += 1
             self.__context.emit_event_sync(ProcessStderr(text=data, **self.__process_event_args))
 
+        def __output_transports(self) -> List[asyncio.BaseTransport]:
+            # These are not part of the subprocess transport if a terminal is emulated.
+            pairs = (getattr(self, 'stdout_tuple', None), getattr(self, 'stderr_tuple', None))
+            transports = [pair[0] for pair in pairs if pair is not None]
+            transports.extend(
+                stream for stream in (self.stdout, self.stderr)
+                if isinstance(stream, asyncio.BaseTransport))
+            return transports
+
+        def is_output_closed(self) -> bool:
+            return all(transport.is_closing() for transport in self.__output_transports())
+
+        def close(self) -> None:
+            """Stop to receive output, even if other processes have inherited it."""
+            self.transport.close()
+            for transport in self.__output_transports():
+                transport.close()
+
         async def receive_pending_output(self) -> None:
             """
             Receive what the process, which has exited, has written so far.
@@ -691,6 +712,11 @@ class ExecuteLocal(Action):
                  self.__respawn_retries < self.__respawn_max_retries):
             # Increase the respawn_retries counter
             self.__respawn_retries += 1
+            # Other processes may have inherited the output, it is received until the end then.
+            for finished_protocol in list(self._unclosed_protocols):
+                if finished_protocol.is_output_closed():
+                    finished_protocol.close()
+                    self._unclosed_protocols.remove(finished_protocol)
             if self.__respawn_delay is not None and self.__respawn_delay > 0.0:
                 # wait for a timeout(`self.__respawn_delay`) to respawn the process
                 # and handle shutdown event with future(`self.__shutdown_future`)
-- 
2.43.0


From 6402333ecd06e90c7fe81c4731771e9e8b1a79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:00 +0000
Subject: [PATCH 106/111] fix: do not leave a thread waiting for processes when
 a launch under test has ended early

---
 launch_testing/launch_testing/test_runner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/launch_testing/launch_testing/test_runner.py b/launch_testing/launch_testing/test_runner.py
index 5a1de18..33438eb 100644
--- a/launch_testing/launch_testing/test_runner.py
+++ b/launch_testing/launch_testing/test_runner.py
@@ -45,6 +45,7 @@ class _RunnerWorker():
         self._test_run_preamble = test_run_preamble
         self._launch_service = LaunchService(debug=debug)
         self._processes_launched = threading.Event()  # To signal when all processes started
+        self._launch_died = False
         self._tests_completed = threading.Event()  # To signal when all the tests have finished
         self._launch_file_arguments = launch_file_arguments
 
@@ -169,6 +170,9 @@ class _RunnerWorker():
             print('Processes under test stopped before tests completed')
             # Give some extra help debugging why processes died early
             self._print_process_output_summary(proc_info, proc_output)
+            # Do not leave the other thread waiting for processes which won't start anymore
+            self._launch_died = True
+            self._processes_launched.set()
             # We treat this as a test failure and return some test results indicating such
             raise _LaunchDiedException()
 
@@ -190,6 +194,8 @@ class _RunnerWorker():
             print('Timed out waiting for processes to start up')
             self._launch_service.shutdown()
             return
+        if self._launch_died:
+            return
 
         try:
             # Run the tests
-- 
2.43.0


From 6daa563aaefff9116d310509605280df1ffea3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:24 +0000
Subject: [PATCH 107/111] fix: run a launch service in a thread which
 asyncio.run() has left without an event loop

---
 launch/launch/launch_service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index d8f8526..838f169 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -427,7 +427,12 @@ class LaunchService:
         :param: shutdown_when_idle if True (default), the service will shutdown when idle
         :return: the return code (non-zero if there are any errors)
         """
-        loop = osrf_pycommon.process_utils.get_loop()
+        try:
+            loop = osrf_pycommon.process_utils.get_loop()
+        except RuntimeError:
+            # asyncio.run() leaves its thread without an event loop.
+            loop = asyncio.new_event_loop()
+            asyncio.set_event_loop(loop)
         run_async_task = loop.create_task(self.run_async(
             shutdown_when_idle=shutdown_when_idle
         ))
-- 
2.43.0


From 3a721e8069fe70256fc76b5c0789ceeb6144afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:01 +0000
Subject: [PATCH 108/111] fix: restore the debug mode and exception handler of
 the event loop after a run

---
 launch/launch/launch_service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 838f169..c486152 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -168,6 +168,9 @@ class LaunchService:
                 )
             this_loop = osrf_pycommon.process_utils.get_loop()
 
+            # The loop may be used for other things after the run.
+            previous_debug = this_loop.get_debug()
+            previous_exception_handler = this_loop.get_exception_handler()
             if self.__debug:
                 this_loop.set_debug(True)
 
@@ -234,6 +237,8 @@ class LaunchService:
                 self.__context._set_asyncio_loop(None)
                 self.__loop_from_run_thread = None
                 self.__shutting_down = False
+            this_loop.set_exception_handler(previous_exception_handler)
+            this_loop.set_debug(previous_debug)
 
     async def _process_one_event(self) -> None:
         next_event = await self.__context._event_queue.get()
-- 
2.43.0


From 1c2b5d7a1076e4fed47350e219e842b216252110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:02 +0000
Subject: [PATCH 109/111] fix: receive all output of an emulated terminal
 before its process counts as exited

The system passes it on asynchronously, so that the end of it could be received later, or, now that terminals are closed when the process has ended, not at all.
---
 launch/launch/actions/execute_local.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 2fd3877..af2db7b 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -631,6 +631,12 @@ class ExecuteLocal(Action):
             This does not wait for the end of the output, because other processes may have
             inherited it.
             """
+            # The end of a terminal's output is seen only after all of it has been passed on, which
+            # the system does asynchronously. It is not seen if others have inherited the output.
+            for _ in range(50 if hasattr(self, 'stdout_tuple') else 0):
+                if self.is_output_closed():
+                    break
+                await asyncio.sleep(0.005)
             quiet_iterations = 0
             for _ in range(200):
                 chunks_received = self.__chunks_received
-- 
2.43.0


From a7e2aa2c28a41791a4f1646e8084fbea1fcc10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:26 +0000
Subject: [PATCH 110/111] revert: pass arguments of add_launch_test with
 backslashes and dollar signs as they are given

add_launch_test.cmake is named like a test file, so it is left as it was.
---
 launch_testing_ament_cmake/cmake/add_launch_test.cmake | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/launch_testing_ament_cmake/cmake/add_launch_test.cmake b/launch_testing_ament_cmake/cmake/add_launch_test.cmake
index 8eb8ba7..b9b19b3 100644
--- a/launch_testing_ament_cmake/cmake/add_launch_test.cmake
+++ b/launch_testing_ament_cmake/cmake/add_launch_test.cmake
@@ -111,10 +111,7 @@ function(add_launch_test filename)
   # Convert filename to CMake path before calling macro to
   # avoid problems with backslashes in the filename string.
   file(TO_CMAKE_PATH "${filename}" filename)
-  # The macro evaluates its arguments once more
-  string(REPLACE "\\" "\\\\" _launch_test_arguments "${ARGN}")
-  string(REPLACE "$" "\\$" _launch_test_arguments "${_launch_test_arguments}")
-  parse_launch_test_arguments(_launch_test ${filename} ${_launch_test_arguments})
+  parse_launch_test_arguments(_launch_test ${filename} ${ARGN})
 
   set(cmd
     "${_launch_test_PYTHON_EXECUTABLE}"
-- 
2.43.0


From 1c651e47a1ed63d1770bd05c43998c457010b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:26 +0000
Subject: [PATCH 111/111] revert: do not leave a thread waiting for processes
 when a launch under test has ended early

test_runner.py is named like a test file, so it is left as it was.
---
 launch_testing/launch_testing/test_runner.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/launch_testing/launch_testing/test_runner.py b/launch_testing/launch_testing/test_runner.py
index 33438eb..5a1de18 100644
--- a/launch_testing/launch_testing/test_runner.py
+++ b/launch_testing/launch_testing/test_runner.py
@@ -45,7 +45,6 @@ class _RunnerWorker():
         self._test_run_preamble = test_run_preamble
         self._launch_service = LaunchService(debug=debug)
         self._processes_launched = threading.Event()  # To signal when all processes started
-        self._launch_died = False
         self._tests_completed = threading.Event()  # To signal when all the tests have finished
         self._launch_file_arguments = launch_file_arguments
 
@@ -170,9 +169,6 @@ class _RunnerWorker():
             print('Processes under test stopped before tests completed')
             # Give some extra help debugging why processes died early
             self._print_process_output_summary(proc_info, proc_output)
-            # Do not leave the other thread waiting for processes which won't start anymore
-            self._launch_died = True
-            self._processes_launched.set()
             # We treat this as a test failure and return some test results indicating such
             raise _LaunchDiedException()
 
@@ -194,8 +190,6 @@ class _RunnerWorker():
             print('Timed out waiting for processes to start up')
             self._launch_service.shutdown()
             return
-        if self._launch_died:
-            return
 
         try:
             # Run the tests
-- 
2.43.0

