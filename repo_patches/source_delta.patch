From 9220116a037f4d8104bd4237fec8d2cf9dfd6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 01/74] fix: restore the context locals when an event handler
 fails

An exception raised while handling an event left the saved locals on the stack, so
the locals of that event stayed visible to all later events.
---
 launch/launch/launch_service.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index defd771..1385aed 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -236,19 +236,21 @@ class LaunchService:
                 self.__logger.debug(
                     "processing event: '{}' ✓ '{}'".format(event, event_handler))
                 self.__context._push_locals()
-                entities = event_handler.handle(event, self.__context)
-                entities = \
-                    entities if isinstance(entities, collections.abc.Iterable) else (entities,)
-                for entity in [e for e in entities if e is not None]:
-                    from .utilities import is_a_subclass
-                    if not is_a_subclass(entity, LaunchDescriptionEntity):
-                        raise RuntimeError(
-                            "expected a LaunchDescriptionEntity from event_handler, got '{}'"
-                            .format(entity)
-                        )
-                    self._entity_future_pairs.extend(
-                        visit_all_entities_and_collect_futures(entity, self.__context))
-                self.__context._pop_locals()
+                try:
+                    entities = event_handler.handle(event, self.__context)
+                    entities = \
+                        entities if isinstance(entities, collections.abc.Iterable) else (entities,)
+                    for entity in [e for e in entities if e is not None]:
+                        from .utilities import is_a_subclass
+                        if not is_a_subclass(entity, LaunchDescriptionEntity):
+                            raise RuntimeError(
+                                "expected a LaunchDescriptionEntity from event_handler, got '{}'"
+                                .format(entity)
+                            )
+                        self._entity_future_pairs.extend(
+                            visit_all_entities_and_collect_futures(entity, self.__context))
+                finally:
+                    self.__context._pop_locals()
             else:
                 pass
                 # Keep this commented for now, since it's very chatty.
-- 
2.43.0


From ed62b86ac8561af11a6e51d9dc94af30fa408dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 02/74] fix: tolerate one-shot event handlers that are already
 unregistered

A handle_once handler that another handler of the same event had unregistered raised
ValueError from handle(), which also kept the remaining handlers from running.
---
 launch/launch/event_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index b2f9839..b5fe2e9 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -98,7 +98,10 @@ class BaseEventHandler:
         """
         context.extend_locals({'event': event})
         if self.handle_once:
-            context.unregister_event_handler(self)
+            try:
+                context.unregister_event_handler(self)
+            except ValueError:
+                pass  # already unregistered, e.g. by a previous handler of the same event
         return None
 
 
-- 
2.43.0


From a7b0871c28090c8a02eb251ce1a9901d0a915e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 03/74] fix: accept empty and one-pass iterables as actions of
 action event handlers

---
 launch/launch/event_handlers/on_action_event_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/launch/launch/event_handlers/on_action_event_base.py b/launch/launch/event_handlers/on_action_event_base.py
index b8178dc..92c80ab 100644
--- a/launch/launch/event_handlers/on_action_event_base.py
+++ b/launch/launch/event_handlers/on_action_event_base.py
@@ -84,6 +84,8 @@ class OnActionEventBase(BaseEventHandler):
             return True
         super().__init__(matcher=event_matcher, **kwargs)
         self.__actions_on_event: List[LaunchDescriptionEntity] = []
+        self.__on_event: Optional[
+            Callable[[Event, LaunchContext], Optional[SomeEntitiesType]]] = None
         # TODO(wjwwood) check that it is not only callable, but also a callable that matches
         # the correct signature for a handler in this case
         if callable(on_event):
@@ -94,12 +96,13 @@ class OnActionEventBase(BaseEventHandler):
         else:
             # Otherwise, setup self.__actions_on_event
             if isinstance(on_event, collections.abc.Iterable):
-                for entity in on_event:
+                # Outside list is to ensure type is List, and to iterate only once
+                self.__actions_on_event = list(on_event)
+                for entity in self.__actions_on_event:
                     if not isinstance(entity, LaunchDescriptionEntity):
                         raise TypeError(
                             "expected all items in 'on_event' iterable to be of type "
                             "'LaunchDescriptionEntity' but got '{}'".format(type(entity)))
-                self.__actions_on_event = list(on_event)  # Outside list is to ensure type is List
             else:
                 self.__actions_on_event = [on_event]
 
@@ -107,7 +110,7 @@ class OnActionEventBase(BaseEventHandler):
         """Handle the given event."""
         super().handle(event, context)
 
-        if self.__actions_on_event:
+        if self.__on_event is None:
             return self.__actions_on_event
         return self.__on_event(event, context)
 
@@ -124,7 +127,7 @@ class OnActionEventBase(BaseEventHandler):
         # TODO(jacobperron): revisit how to describe known actions that are passed in.
         #                    It would be nice if the parent class could output their description
         #                    via the 'entities' property.
-        if self.__actions_on_event:
+        if self.__on_event is None:
             return '<actions>'
         return '{}'.format(self.__on_event)
 
-- 
2.43.0


From 166308d9989f608e485963a743b9b51af45a390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 04/74] fix: describe event handlers with a single entity

---
 launch/launch/event_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index b5fe2e9..ef23781 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -14,6 +14,7 @@
 
 """Module for EventHandler class."""
 
+import collections.abc
 from typing import Callable
 from typing import List
 from typing import Optional
@@ -135,8 +136,10 @@ class EventHandler(BaseEventHandler):
     def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
         """Return the description list with 0 as a string, and then LaunchDescriptionEntity's."""
         text, actions = super().describe()
-        if self.entities:
+        if isinstance(self.entities, collections.abc.Iterable):
             actions.extend(self.entities)
+        elif self.entities is not None:
+            actions.append(self.entities)
         return (text, actions)
 
     def handle(self, event: Event, context: 'LaunchContext') -> Optional[SomeEntitiesType]:
-- 
2.43.0


From 3dffa40f3707b3ee11e9bd2255a1e73380e4333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 05/74] fix: give each launch argument its own include chain

---
 launch/launch/launch_description.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/launch/launch/launch_description.py b/launch/launch/launch_description.py
index ac67de0..4c806b4 100644
--- a/launch/launch/launch_description.py
+++ b/launch/launch/launch_description.py
@@ -145,9 +145,7 @@ class LaunchDescription(LaunchDescriptionEntity):
                 else:
                     next_nested_ild_actions = nested_ild_actions
                     if isinstance(entity, IncludeLaunchDescription):
-                        if next_nested_ild_actions is None:
-                            next_nested_ild_actions = []
-                        next_nested_ild_actions.append(entity)
+                        next_nested_ild_actions = [*(nested_ild_actions or []), entity]
                     process_entities(
                         entity.describe_sub_entities(),
                         _conditional_inclusion=False,
-- 
2.43.0


From cbaefe3b50839d078b4b425cc8769e31d7ba6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 06/74] fix: check required arguments of an include one
 argument at a time

---
 launch/launch/actions/include_launch_description.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/include_launch_description.py b/launch/launch/actions/include_launch_description.py
index d022d5e..532b44a 100644
--- a/launch/launch/actions/include_launch_description.py
+++ b/launch/launch/actions/include_launch_description.py
@@ -165,11 +165,16 @@ class IncludeLaunchDescription(Action):
         for argument, ild_actions in declared_launch_arguments:
             if argument._conditionally_included or argument.default_value is not None:
                 continue
-            argument_names = my_argument_names
+            argument_names = list(my_argument_names)
+            all_names_known = True
             if ild_actions is not None:
                 for ild_action in ild_actions:
-                    argument_names.extend(ild_action._try_get_arguments_names_without_context())
-            if argument.name not in argument_names:
+                    names = ild_action._try_get_arguments_names_without_context()
+                    if names is None:
+                        all_names_known = False
+                    else:
+                        argument_names.extend(names)
+            if all_names_known and argument.name not in argument_names:
                 raise RuntimeError(
                     "Included launch description missing required argument '{}' "
                     "(description: '{}'), given: [{}]"
-- 
2.43.0


From 8c388b76117e4274bd566b355caffecbefa6f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 07/74] fix: tolerate an already unregistered one-shot handler
 only on its first event

---
 launch/launch/event_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index ef23781..d7c58d6 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -50,6 +50,7 @@ class BaseEventHandler:
         """
         self.__matcher = matcher
         self.__handle_once = handle_once
+        self.__handled_once = False
 
     @property
     def handle_once(self):
@@ -102,7 +103,11 @@ class BaseEventHandler:
             try:
                 context.unregister_event_handler(self)
             except ValueError:
-                pass  # already unregistered, e.g. by a previous handler of the same event
+                # It may have been unregistered since the event was taken, e.g. by a previous
+                # handler of the same event, but it must not be used again after handling one.
+                if self.__handled_once:
+                    raise
+            self.__handled_once = True
         return None
 
 
-- 
2.43.0


From 89aded940ca30aee55c32bcdf3ac439736d52816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 08/74] fix: inherit conditional inclusion when searching for
 launch arguments

---
 launch/launch/launch_description.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_description.py b/launch/launch/launch_description.py
index 4c806b4..4605610 100644
--- a/launch/launch/launch_description.py
+++ b/launch/launch/launch_description.py
@@ -148,7 +148,7 @@ class LaunchDescription(LaunchDescriptionEntity):
                         next_nested_ild_actions = [*(nested_ild_actions or []), entity]
                     process_entities(
                         entity.describe_sub_entities(),
-                        _conditional_inclusion=False,
+                        _conditional_inclusion=_conditional_inclusion,
                         nested_ild_actions=next_nested_ild_actions)
                     for conditional_sub_entity in entity.describe_conditional_sub_entities():
                         process_entities(
-- 
2.43.0


From d75df38fd530add89f5b9e4e805527e12b2770da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 09/74] fix: let any and all substitutions be used in launch
 files

Their parse methods returned the operands as a keyword argument, which the
constructors do not accept, so $(any ...) and $(all ...) always failed.
---
 launch/launch/substitutions/boolean_substitution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/launch/launch/substitutions/boolean_substitution.py b/launch/launch/substitutions/boolean_substitution.py
index 14b57ae..f3e34de 100644
--- a/launch/launch/substitutions/boolean_substitution.py
+++ b/launch/launch/substitutions/boolean_substitution.py
@@ -14,6 +14,7 @@
 
 """Module for boolean substitutions."""
 
+import functools
 from typing import Iterable
 from typing import List
 from typing import Sequence
@@ -177,7 +178,8 @@ class AnySubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AnySubstitution` substitution."""
-        return cls, {'args': data}
+        # The operands are positional, which the keyword arguments returned here cannot express
+        return functools.partial(cls, *data), {}
 
     @property
     def args(self) -> List[List[Substitution]]:
@@ -223,7 +225,8 @@ class AllSubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AllSubstitution` substitution."""
-        return cls, {'args': data}
+        # The operands are positional, which the keyword arguments returned here cannot express
+        return functools.partial(cls, *data), {}
 
     @property
     def args(self) -> List[List[Substitution]]:
-- 
2.43.0


From a7543a847738b1d1b263e40f95e4c666f8c1f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 10/74] fix: expand the default of an environment variable only
 when needed

A variable that is set was not found if its unused default could not be
expanded.
---
 launch/launch/substitutions/environment_variable.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/launch/launch/substitutions/environment_variable.py b/launch/launch/substitutions/environment_variable.py
index 0134714..c32af44 100644
--- a/launch/launch/substitutions/environment_variable.py
+++ b/launch/launch/substitutions/environment_variable.py
@@ -88,14 +88,10 @@ class EnvironmentVariable(Substitution):
     def perform(self, context: LaunchContext) -> Text:
         """Perform the substitution by looking up the environment variable."""
         from ..utilities import perform_substitutions  # import here to avoid loop
-        default_value: Optional[str] = None
-        if self.default_value is not None:
-            default_value = perform_substitutions(context, self.default_value)
         name = perform_substitutions(context, self.name)
-        value = context.environment.get(
-            name,
-            default_value
-        )
+        value = context.environment.get(name)
+        if value is None and self.default_value is not None:
+            value = perform_substitutions(context, self.default_value)
         if value is None:
             raise SubstitutionFailure(
                 "environment variable '{}' does not exist".format(name)
-- 
2.43.0


From 012fa096cb3433c25fa1bb08fd881ce324b88129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 11/74] fix: do not take booleans for integers in typed values

A list of integers could be coerced to contain booleans, and a boolean was
accepted where an integer was requested.
---
 launch/launch/utilities/type_utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/launch/launch/utilities/type_utils.py b/launch/launch/utilities/type_utils.py
index cae6373..83f73d8 100644
--- a/launch/launch/utilities/type_utils.py
+++ b/launch/launch/utilities/type_utils.py
@@ -162,6 +162,13 @@ def extract_type(data_type: AllowedTypesType) -> Tuple[ScalarTypesType, bool]:
     return (scalar_type, is_list)
 
 
+def _is_scalar_instance(value: Any, types: Any) -> bool:
+    """Check like `isinstance` if `value` has one of the types, not taking a `bool` for an `int`."""
+    if isinstance(value, bool):
+        return bool in types if isinstance(types, tuple) else types is bool
+    return isinstance(value, types)
+
+
 def is_instance_of_valid_type(value: Any, *, can_be_str: bool = False) -> bool:
     """
     Return `True` if value is an instance of an allowed type.
@@ -179,7 +186,7 @@ def is_instance_of_valid_type(value: Any, *, can_be_str: bool = False) -> bool:
         if member_type not in ScalarTypesTuple:
             return False
         valid_types = (member_type, str) if can_be_str else member_type
-        return all(isinstance(x, valid_types) for x in value)
+        return all(_is_scalar_instance(x, valid_types) for x in value)
     return isinstance(value, ScalarTypesTuple)
 
 
@@ -207,10 +214,10 @@ def is_instance_of(
     if can_be_str:
         type_obj = (str, type_obj)
     if not is_list:
-        return isinstance(value, type_obj)
+        return _is_scalar_instance(value, type_obj)
     if not isinstance(value, list):
         return False
-    return all(isinstance(x, type_obj) for x in value)
+    return all(_is_scalar_instance(x, type_obj) for x in value)
 
 
 def coerce_to_type(
@@ -262,7 +269,7 @@ def coerce_to_type(
             value, f"Cannot convert value '{value}' to a list of '{valid_types}'")
         if not isinstance(output, list):
             raise ValueError(f"Cannot convert value '{value}' to a list of '{valid_types}'")
-        if not all(isinstance(x, valid_types) for x in output):
+        if not all(_is_scalar_instance(x, valid_types) for x in output):
             raise ValueError(
                 f"Cannot convert value '{value}' to a list of '{valid_types}', got {output}")
         return output
-- 
2.43.0


From 9a387c964f02493ac7a690351d4b2004acd029a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 12/74] fix: reject unread attributes of the root entity of a
 launch file

---
 launch/launch/frontend/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/launch/launch/frontend/parser.py b/launch/launch/frontend/parser.py
index 48b20ed..39bf114 100644
--- a/launch/launch/frontend/parser.py
+++ b/launch/launch/frontend/parser.py
@@ -133,6 +133,7 @@ class Parser:
             raise RuntimeError("Expected 'launch' as root tag")
         deprecated = entity.get_attr('deprecated', optional=True)
         actions = [self.parse_action(child) for child in entity.children]
+        entity.assert_entity_completely_parsed()
         return LaunchDescription(actions, deprecated_reason=deprecated)
 
     @classmethod
-- 
2.43.0


From 3028e5ec27e5798acb7b73ebe6c7617d2c3cb553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 13/74] fix: reject unread attributes and children of a choice

---
 launch/launch/actions/declare_launch_argument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/actions/declare_launch_argument.py b/launch/launch/actions/declare_launch_argument.py
index d292abe..ab85e42 100644
--- a/launch/launch/actions/declare_launch_argument.py
+++ b/launch/launch/actions/declare_launch_argument.py
@@ -178,6 +178,8 @@ class DeclareLaunchArgument(Action):
             kwargs['choices'] = [
                 parser.escape_characters(choice.get_attr('value')) for choice in choices
             ]
+            for choice in choices:
+                choice.assert_entity_completely_parsed()
         return cls, kwargs
 
     @property
-- 
2.43.0


From a80d1d60c3c5591229dedb2667dad03bda20855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 14/74] fix: check every member of a YAML list of entities,
 also of an empty one

---
 launch_yaml/launch_yaml/entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch_yaml/launch_yaml/entity.py b/launch_yaml/launch_yaml/entity.py
index 93e2626..817cfe3 100644
--- a/launch_yaml/launch_yaml/entity.py
+++ b/launch_yaml/launch_yaml/entity.py
@@ -59,7 +59,7 @@ class Entity(BaseEntity):
         self.__children_called = True
         if not isinstance(self.__element, (dict, list)):
             raise TypeError(
-                f'Expected a dict or list, got {type(self.element)}:'
+                f'Expected a dict or list, got {type(self.__element)}:'
                 f'\n---\n{self.__element}\n---'
             )
         if isinstance(self.__element, dict):
@@ -123,7 +123,7 @@ class Entity(BaseEntity):
         self.__read_keys.add(name)
         data = self.__element[name]
         if check_is_list_entity(data_type):
-            if isinstance(data, list) and isinstance(data[0], dict):
+            if isinstance(data, list) and all(isinstance(child, dict) for child in data):
                 return [Entity(child, name) for child in data]
             raise TypeError(
                 "Attribute '{}' of Entity '{}' expected to be a list of dictionaries.".format(
-- 
2.43.0


From cd81d4045e0f3d42b4712c31b315bb30e4ff5d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 15/74] fix: report failed and tolerate cancelled futures of
 actions in the run loop

A future that failed while events were being processed was dropped before
its exception was looked at, and a cancelled one ended the run at once,
leaving processes behind.
---
 launch/launch/launch_service.py | 38 +++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 1385aed..3679778 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -145,6 +145,14 @@ class LaunchService:
                 [f for f in self.__context._completion_futures if not f.done()]
         return len(self.__context._completion_futures)
 
+    def _get_exceptions_of_completed_futures(self):
+        futures = [pair[1] for pair in self._entity_future_pairs]
+        futures.extend(self.__context._completion_futures)
+        return [
+            future.exception() for future in futures
+            if future.done() and not future.cancelled() and future.exception() is not None
+        ]
+
     def _is_idle(self):
         number_of_entity_future_pairs = self._prune_and_count_entity_future_pairs()
         number_of_entity_future_pairs += self._prune_and_count_context_completion_futures()
@@ -289,9 +297,20 @@ class LaunchService:
             process_one_event_task = None
             while True:
                 try:
+                    # Collect exceptions of completed futures before those are pruned
+                    exceptions = self._get_exceptions_of_completed_futures()
+
                     # Check if we're idle, i.e. no on-going entities (actions) or events in
                     # the queue
                     is_idle = self._is_idle()  # self._entity_future_pairs is pruned here
+
+                    # Propagate exception from completed futures
+                    if exceptions:
+                        self.__logger.debug('An exception was raised in an async action/event')
+                        for exc in exceptions[1:]:
+                            self.__logger.error(exc)
+                        raise exceptions[0]
+
                     if not self.__shutting_down and shutdown_when_idle and is_idle:
                         ret = self._shutdown(reason='idle', due_to_sigint=False)
                         if ret is not None:
@@ -328,21 +347,12 @@ class LaunchService:
                         entity_futures,
                         return_when=asyncio.FIRST_COMPLETED
                     )
-                    # Propagate exception from completed tasks
-                    exception_to_raise = None
-                    for task in completed_tasks:
-                        exc = task.exception()
-                        if exc is None:
-                            continue
-
-                        if exception_to_raise is None:
+                    # Propagate exception from processing the event
+                    if process_one_event_task in completed_tasks:
+                        exc = process_one_event_task.exception()
+                        if exc is not None:
                             self.__logger.debug('An exception was raised in an async action/event')
-                            exception_to_raise = exc
-                        else:
-                            self.__logger.error(exc)
-
-                    if exception_to_raise is not None:
-                        raise exception_to_raise
+                            raise exc
 
                 except KeyboardInterrupt:
                     continue
-- 
2.43.0


From a00ef8dd136556bf87390f837f9bd035659e9b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 16/74] fix: a refused concurrent run must not reset the run in
 progress

---
 launch/launch/launch_service.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 3679778..4dccfa2 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -160,13 +160,15 @@ class LaunchService:
 
     @contextlib.contextmanager
     def _prepare_run_loop(self):
+        # Refuse a concurrent run before touching the state of the one that is running.
+        with self.__loop_from_run_thread_lock:
+            if self.__loop_from_run_thread is not None:
+                raise RuntimeError(
+                    'LaunchService cannot be run multiple times concurrently.'
+                )
         try:
             # Acquire the lock and initialize the loop.
             with self.__loop_from_run_thread_lock:
-                if self.__loop_from_run_thread is not None:
-                    raise RuntimeError(
-                        'LaunchService cannot be run multiple times concurrently.'
-                    )
                 this_loop = osrf_pycommon.process_utils.get_loop()
 
                 if self.__debug:
-- 
2.43.0


From 91e0785cb6157a62336311521c564748ab3c395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 17/74] fix: evaluate the period of a timer when it is executed

It was evaluated by the waiting task, after scopes had been popped, and a failure left the timer
uncompleted, so the launch never ended.
---
 launch/launch/actions/timer_action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index ac9049c..58349d5 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -94,7 +94,7 @@ class TimerAction(Action):
     async def _wait_to_fire_event(self, context):
         done, pending = await asyncio.wait(
             [self._canceled_future],
-            timeout=type_utils.perform_typed_substitution(context, self.__period, float),
+            timeout=self.__timeout,
         )
         if not self._canceled_future.done():
             await context.emit_event(TimerEvent(timer_action=self))
@@ -177,6 +177,10 @@ class TimerAction(Action):
                 self._completed_future.set_result(None)
             return None
 
+        # The period is evaluated here and not in the task waiting for it, so that it sees the
+        # configurations in effect now, and a failure to evaluate it is reported.
+        self.__timeout: Any = type_utils.perform_typed_substitution(context, self.__period, float)
+
         # Once per context, install the general purpose OnTimerEvent event handler.
         if not hasattr(context, '_TimerAction__event_handler_has_been_installed'):
             context.register_event_handler(EventHandler(
-- 
2.43.0


From b4aadee1dbe14533f755a672cccfd0f450c5a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 18/74] fix: keep the entities of timers and event handlers
 given as an iterator

They were lost once they had been described or handled the first time.
---
 launch/launch/actions/timer_action.py | 2 +-
 launch/launch/event_handler.py        | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index 58349d5..1f799b5 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -82,7 +82,7 @@ class TimerAction(Action):
                 'passing a string literal was deprecated',
                 stacklevel=2)
         self.__period = type_utils.normalize_typed_substitution(period, float)
-        self.__actions = actions
+        self.__actions = list(actions)  # to iterate only once
         self.__context_locals: Dict[Text, Any] = {}
         self._completed_future: Optional[asyncio.Future] = None
         self.__canceled = False
diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index d7c58d6..0a53366 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -131,6 +131,8 @@ class EventHandler(BaseEventHandler):
         """
         super().__init__(matcher=matcher, handle_once=handle_once)
 
+        if isinstance(entities, collections.abc.Iterable):
+            entities = list(entities)  # to iterate only once
         self.__entities = entities
 
     @property
-- 
2.43.0


From 80e845863589c7ea8a0550dac2a0d0f1ea106201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:21 +0000
Subject: [PATCH 19/74] fix: keep waiting for work started before visiting a
 later entity raised

The futures collected so far were dropped with the exception, so the run ended at once and left
processes started by earlier entities running.
---
 launch/launch/launch_service.py                  |  5 +++--
 ...isit_all_entities_and_collect_futures_impl.py | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 4dccfa2..df8bcc6 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -257,8 +257,9 @@ class LaunchService:
                                 "expected a LaunchDescriptionEntity from event_handler, got '{}'"
                                 .format(entity)
                             )
-                        self._entity_future_pairs.extend(
-                            visit_all_entities_and_collect_futures(entity, self.__context))
+                        # Keeps the futures collected so far even if visiting an entity raises.
+                        visit_all_entities_and_collect_futures(
+                            entity, self.__context, self._entity_future_pairs)
                 finally:
                     self.__context._pop_locals()
             else:
diff --git a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
index ff94f99..9f2e125 100644
--- a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
+++ b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
@@ -16,6 +16,7 @@
 
 import asyncio
 from typing import List
+from typing import Optional
 from typing import Tuple
 
 from ..launch_context import LaunchContext
@@ -24,7 +25,8 @@ from ..launch_description_entity import LaunchDescriptionEntity
 
 def visit_all_entities_and_collect_futures(
     entity: LaunchDescriptionEntity,
-    context: LaunchContext
+    context: LaunchContext,
+    futures: Optional[List[Tuple[LaunchDescriptionEntity, asyncio.Future]]] = None
 ) -> List[Tuple[LaunchDescriptionEntity, asyncio.Future]]:
     """
     Visit given entity, as well as all sub-entities, and collect any futures.
@@ -34,13 +36,17 @@ def visit_all_entities_and_collect_futures(
     continuing on to more sub-entities.
 
     This function may call itself to traverse the sub-entities recursively.
+
+    If a list of futures is given, then the futures are added to it as they are collected, so that
+    none is lost if visiting a later entity raises, and it is returned.
     """
+    if futures is None:
+        futures = []
     sub_entities = entity.visit(context)
     entity_future = entity.get_asyncio_future()
-    futures_to_return = []
     if entity_future is not None:
-        futures_to_return.append((entity, entity_future))
+        futures.append((entity, entity_future))
     if sub_entities is not None:
         for sub_entity in sub_entities:
-            futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
-    return [future_pair for future_pair in futures_to_return if future_pair[1] is not None]
+            visit_all_entities_and_collect_futures(sub_entity, context, futures)
+    return futures
-- 
2.43.0


From f55d596476f75d73abd5a638b4b1d8bbe25d02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 20/74] fix: request shutdown from other threads in the thread
 of the loop

The request raced with the run loop requesting shutdown itself, so that shutdown was announced
twice, and it waited for the loop while holding the lock that the loop needs to end.
---
 launch/launch/launch_service.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index df8bcc6..db80dc6 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -85,7 +85,7 @@ class LaunchService:
         # Used to allow asynchronous use of self.__loop_from_run_thread without
         # it being set to None by run() as it exits.
         self.__loop_from_run_thread_lock = threading.RLock()
-        self.__loop_from_run_thread = None
+        self.__loop_from_run_thread: Optional[asyncio.AbstractEventLoop] = None
         self.__this_task = None
 
         # Used to indicate when shutdown() has been called.
@@ -185,16 +185,16 @@ class LaunchService:
                         break
                 self.__context._event_queue = new_queue
 
-                self.__loop_from_run_thread = this_loop
+                # Get current task.
+                try:
+                    # Python 3.7+
+                    this_task = asyncio.current_task(this_loop)
+                except AttributeError:
+                    this_task = asyncio.Task.current_task(this_loop)
 
-            # Get current task.
-            try:
-                # Python 3.7+
-                this_task = asyncio.current_task(this_loop)
-            except AttributeError:
-                this_task = asyncio.Task.current_task(this_loop)
+                self.__this_task = this_task
+                self.__loop_from_run_thread = this_loop
 
-            self.__this_task = this_task
             # Setup custom signal handlers for SIGINT, SIGTERM and maybe SIGQUIT.
             sigint_received = False
 
@@ -422,8 +422,18 @@ class LaunchService:
                 # If in the thread of the loop.
                 retval = self.__context.emit_event(shutdown_event)
             else:
-                # Otherwise in a different thread, so use the thread-safe method.
-                self.emit_event(shutdown_event)
+                # Otherwise in a different thread, so let the thread of the loop do it, which may
+                # be requesting shutdown itself, unless the run has ended by then.
+                task = self.__this_task
+
+                def shutdown_this_run():
+                    if self.__loop_from_run_thread is not None and self.__this_task is task:
+                        self._shutdown(
+                            reason=reason, due_to_sigint=due_to_sigint, force_sync=True
+                        )
+                assert self.__loop_from_run_thread is not None
+                self.__loop_from_run_thread.call_soon_threadsafe(shutdown_this_run)
+                return None
         self.__shutting_down = True
         self.__context._set_is_shutdown(True)
         return retval
-- 
2.43.0


From 649cca24591d4c4d47811c4c240fb0976711812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 21/74] fix: cancel the event processing task when a run is
 cancelled

It was left waiting for an event and took one that was queued for a later run, which was then processed outside of any run (or not at all).
---
 launch/launch/launch_service.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index db80dc6..112f211 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -323,11 +323,6 @@ class LaunchService:
 
                     # Stop running if we're shutting down and there's no more work
                     if self.__shutting_down and is_idle:
-                        if (
-                            process_one_event_task is not None and
-                            not process_one_event_task.done()
-                        ):
-                            process_one_event_task.cancel()
                         break
 
                     # Collect futures to wait on
@@ -374,6 +369,10 @@ class LaunchService:
                     return_code = 1
                     # keep running to let things shutdown properly
                     continue
+
+            # Do not leave a task behind that would take an event queued for a later run.
+            if process_one_event_task is not None and not process_one_event_task.done():
+                process_one_event_task.cancel()
             return return_code
 
     def run(self, *, shutdown_when_idle=True) -> int:
-- 
2.43.0


From 5398972b328a64c242d12805a084eb4e74c8b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 22/74] fix: emit events of a running service from the thread
 of its loop without deadlock

LaunchService.emit_event (and include_launch_description) waited for the loop to emit the event, also when called by that loop, which then never got to it.
---
 launch/launch/launch_service.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 112f211..c757886 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -103,7 +103,14 @@ class LaunchService:
         """
         future = None
         with self.__loop_from_run_thread_lock:
-            if self.__loop_from_run_thread is not None:
+            try:
+                current_loop = asyncio.get_running_loop()
+            except RuntimeError:
+                current_loop = None
+            if current_loop is not None and current_loop is self.__loop_from_run_thread:
+                # called by the loop that is in use, waiting for that loop would never end
+                self.__context.emit_event_sync(event)
+            elif self.__loop_from_run_thread is not None:
                 # loop is in use, asynchronously emit the event
                 future = asyncio.run_coroutine_threadsafe(
                     self.__context.emit_event(event),
-- 
2.43.0


From 71a57ceefa70cb4a393c79a27bc568dbce094573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:12 +0000
Subject: [PATCH 23/74] fix: let a timer action be executed again while it
 waits

The second execution replaced the futures and locals the first one was using: both waits then completed the second future, the first was never completed and the run hung.
---
 launch/launch/actions/timer_action.py | 35 +++++++++++++++++++--------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index 1f799b5..59f9f4e 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -84,6 +84,7 @@ class TimerAction(Action):
         self.__period = type_utils.normalize_typed_substitution(period, float)
         self.__actions = list(actions)  # to iterate only once
         self.__context_locals: Dict[Text, Any] = {}
+        self.__context_locals_of_events: List[Dict[Text, Any]] = []  # emitted but not handled
         self._completed_future: Optional[asyncio.Future] = None
         self.__canceled = False
         self._canceled_future: Optional[asyncio.Future] = None
@@ -91,14 +92,20 @@ class TimerAction(Action):
             cancel_on_shutdown, bool)
         self.__logger = launch.logging.get_logger(__name__)
 
-    async def _wait_to_fire_event(self, context):
-        done, pending = await asyncio.wait(
-            [self._canceled_future],
-            timeout=self.__timeout,
-        )
-        if not self._canceled_future.done():
-            await context.emit_event(TimerEvent(timer_action=self))
-        self._completed_future.set_result(None)
+    def _wait_to_fire_event(self, context):
+        # Captured here, before the coroutine starts, in case this action is executed again.
+        canceled_future = self._canceled_future
+        completed_future = self._completed_future
+        timeout = self.__timeout
+        context_locals = self.__context_locals
+
+        async def wait():
+            await asyncio.wait([canceled_future], timeout=timeout)
+            if not canceled_future.done():
+                self.__context_locals_of_events.append(context_locals)
+                await context.emit_event(TimerEvent(timer_action=self))
+            completed_future.set_result(None)
+        return wait()
 
     @classmethod
     def parse(
@@ -138,7 +145,10 @@ class TimerAction(Action):
 
     def handle(self, context: LaunchContext) -> Optional[SomeEntitiesType]:
         """Handle firing of timer."""
-        context.extend_locals(self.__context_locals)
+        if self.__context_locals_of_events:
+            context.extend_locals(self.__context_locals_of_events.pop(0))
+        else:
+            context.extend_locals(self.__context_locals)
         return self.__actions
 
     def cancel(self) -> None:
@@ -166,7 +176,12 @@ class TimerAction(Action):
         - coroutine asynchronously fires event after timeout, if not canceled
         """
         self._completed_future = context.asyncio_loop.create_future()
-        self._canceled_future = context.asyncio_loop.create_future()
+        # One future for all executions waiting in the same loop, canceling concerns all of them.
+        if (
+            self._canceled_future is None or
+            self._canceled_future.get_loop() is not context.asyncio_loop
+        ):
+            self._canceled_future = context.asyncio_loop.create_future()
 
         if self.__canceled:
             # In this case, the action was canceled before being executed.
-- 
2.43.0


From e56f4e895677be2a3d9a5ae287673a682efe9baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 24/74] fix: go on with other signals if a signal handler
 raises

An exception in one handler dropped the signals received together with it, and did not forward any of them to the wakeup descriptor set up before.
---
 launch/launch/utilities/signal_management.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index a078c69..ac0bf2e 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -209,7 +209,14 @@ class AsyncSafeSignalManager:
                 for signum in data:
                     if signum not in self.__handlers:
                         continue
-                    self.__handlers[signum](signum)
+                    try:
+                        self.__handlers[signum](signum)
+                    except Exception as exc:
+                        # Report it as any other callback error, but go on with other signals.
+                        self.__loop.call_exception_handler({
+                            'message': 'Exception in handler of signal {}'.format(signum),
+                            'exception': exc,
+                        })
                 if self.__prev_wakeup_handle != -1:
                     # Send over (Windows) socket or write file.
                     if isinstance(self.__prev_wakeup_handle, socket.socket):
-- 
2.43.0


From 81bc04917b55e4ac2d7b1598b0bccd3f532d6565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 25/74] fix: complete the execution of a process if emulate_tty
 cannot be evaluated

The error was raised outside of the block that handles failures to start, so the execution was never completed and the launch did not end.
---
 launch/launch/actions/execute_local.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 9c53671..32de490 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -556,16 +556,16 @@ class ExecuteLocal(Action):
                 'True' if env is not None else 'False'
             ))
 
-        emulate_tty = self.__emulate_tty
-        if 'emulate_tty' in context.launch_configurations:
-            emulate_tty = evaluate_condition_expression(
-                context,
-                normalize_to_list_of_substitutions(
-                    context.launch_configurations['emulate_tty']
-                ),
-            )
-
         try:
+            emulate_tty = self.__emulate_tty
+            if 'emulate_tty' in context.launch_configurations:
+                emulate_tty = evaluate_condition_expression(
+                    context,
+                    normalize_to_list_of_substitutions(
+                        context.launch_configurations['emulate_tty']
+                    ),
+                )
+
             transport, self._subprocess_protocol = await async_execute_process(
                 lambda **kwargs: self.__ProcessProtocol(
                     self, context, process_event_args, **kwargs
-- 
2.43.0


From 1fb511e0c5354d6679f5a4635f9271909cc5ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 26/74] fix: interrupt a process that shutdown finds about to
 be respawned

The interrupt was sent to the process that had exited already, the next one only got SIGTERM after the timeout.
---
 launch/launch/actions/execute_local.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 32de490..eb4e915 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -211,6 +211,7 @@ class ExecuteLocal(Action):
 
         self.__respawn_max_retries = respawn_max_retries
         self.__respawn_retries = 0
+        self.__respawning = False  # the next process is scheduled but not started
 
         self.__process_event_args = None  # type: Optional[Dict[Text, Any]]
         self._subprocess_protocol = None  # type: Optional[Any]
@@ -280,7 +281,11 @@ class ExecuteLocal(Action):
             return None
 
         # Defer shut down if the process is scheduled to be started
-        if (self.process_details is None or self._subprocess_transport is None):
+        if (
+            self.process_details is None or
+            self._subprocess_transport is None or
+            self.__respawning
+        ):
             # Do not set shutdown result, as event is postponed
             context.register_event_handler(
                 OnProcessStart(
@@ -586,6 +591,7 @@ class ExecuteLocal(Action):
 
         pid = transport.get_pid()
         self._subprocess_transport = transport
+        self.__respawning = False
 
         await context.emit_event(ProcessStarted(**process_event_args))
 
@@ -617,6 +623,7 @@ class ExecuteLocal(Action):
                     timeout=self.__respawn_delay
                 )
             if not self.__shutdown_future.done():
+                self.__respawning = True
                 context.asyncio_loop.create_task(self.__execute_process(context))
                 return
         self.__cleanup()
-- 
2.43.0


From e1f037267dbf8f446c4d2d9f35091b732891c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 27/74] fix: decode process output incrementally

A character split between two chunks of output was logged as replacement characters.
---
 launch/launch/actions/execute_local.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index eb4e915..425159f 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -15,6 +15,7 @@
 """Module for the ExecuteLocal action."""
 
 import asyncio
+import codecs
 import io
 import logging
 import os
@@ -222,6 +223,9 @@ class ExecuteLocal(Action):
         self.__sigkill_timer = None  # type: Optional[TimerAction]
         self.__stdout_buffer = io.StringIO()
         self.__stderr_buffer = io.StringIO()
+        # Incremental, a character may be split between two chunks of output.
+        self.__stdout_decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
+        self.__stderr_decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
 
         self.__executed = False
 
@@ -366,10 +370,15 @@ class ExecuteLocal(Action):
         cast(ProcessStdin, event)
         return None
 
+    def __decode(self, data: bytes, buffer: io.TextIOBase, final: bool = False) -> Text:
+        is_stderr = buffer is self.__stderr_buffer
+        decoder = self.__stderr_decoder if is_stderr else self.__stdout_decoder
+        return decoder.decode(data, final)
+
     def __on_process_output(
         self, event: ProcessIO, buffer: io.TextIOBase, logger: logging.Logger
     ) -> None:
-        to_write = event.text.decode(errors='replace')
+        to_write = self.__decode(event.text, buffer, final=buffer.closed)
         if buffer.closed:
             # buffer was probably closed by __flush_buffers on shutdown.  Output without
             # buffering.
@@ -394,13 +403,15 @@ class ExecuteLocal(Action):
                 buffer.write(last_line)
 
     def __flush_buffers(self, event, context):
-        line = self.__stdout_buffer.getvalue()
+        line = self.__stdout_buffer.getvalue() + \
+            self.__decode(b'', self.__stdout_buffer, final=True)
         if line != '':
             self.__stdout_logger.info(
                 self.__output_format.format(line=line, this=self)
             )
 
-        line = self.__stderr_buffer.getvalue()
+        line = self.__stderr_buffer.getvalue() + \
+            self.__decode(b'', self.__stderr_buffer, final=True)
         if line != '':
             self.__stderr_logger.info(
                 self.__output_format.format(line=line, this=self)
@@ -420,7 +431,7 @@ class ExecuteLocal(Action):
     def __on_process_output_cached(
         self, event: ProcessIO, buffer, logger
     ) -> None:
-        to_write = event.text.decode(errors='replace')
+        to_write = self.__decode(event.text, buffer)
         last_cursor = buffer.tell()
         buffer.seek(0, os.SEEK_END)  # go to end of buffer
         buffer.write(to_write)
@@ -436,6 +447,12 @@ class ExecuteLocal(Action):
         buffer.seek(new_cursor)
 
     def __flush_cached_buffers(self, event, context):
+        for buffer in (self.__stdout_buffer, self.__stderr_buffer):
+            cursor = buffer.tell()
+            buffer.seek(0, os.SEEK_END)
+            buffer.write(self.__decode(b'', buffer, final=True))
+            buffer.seek(cursor)
+
         for line in self.__stdout_buffer:
             self.__stdout_logger.info(
                 self.__output_format.format(line=line, this=self)
-- 
2.43.0


From 9c56473b504f4f587c2aa10cebb23d9d50298578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 28/74] fix: log output that arrives after the exit of a
 process line by line

Several lines received together were logged as one message.
---
 launch/launch/actions/execute_local.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 425159f..f42853f 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -382,9 +382,12 @@ class ExecuteLocal(Action):
         if buffer.closed:
             # buffer was probably closed by __flush_buffers on shutdown.  Output without
             # buffering.
-            logger.info(
-                self.__output_format.format(line=to_write, this=self)
-            )
+            for line in io.StringIO(to_write):
+                if line.endswith(os.linesep):
+                    line = line[:-len(os.linesep)]
+                logger.info(
+                    self.__output_format.format(line=line, this=self)
+                )
         else:
             buffer.write(to_write)
             buffer.seek(0)
-- 
2.43.0


From b3cb17c812bbac31a3e797745306c4cd03fc9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 29/74] fix: receive the output left in an emulated tty before
 reporting the exit

---
 launch/launch/actions/execute_local.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index f42853f..1ae0b66 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -552,6 +552,7 @@ class ExecuteLocal(Action):
             self.__context = context
             self.__process_event_args = process_event_args
             self.__logger = launch.logging.get_logger(process_event_args['name'])
+            self.__chunks_received = 0
 
         def connection_made(self, transport):
             self.__logger.info(
@@ -561,11 +562,24 @@ class ExecuteLocal(Action):
             self.__process_event_args['pid'] = transport.get_pid()
 
         def on_stdout_received(self, data: bytes) -> None:
+            self.__chunks_received += 1
             self.__context.emit_event_sync(ProcessStdout(text=data, **self.__process_event_args))
 
         def on_stderr_received(self, data: bytes) -> None:
+            self.__chunks_received += 1
             self.__context.emit_event_sync(ProcessStderr(text=data, **self.__process_event_args))
 
+        async def drain(self) -> None:
+            """Receive what the process left in the emulated tty, which is read piecemeal."""
+            # Limited, because other processes may still be writing.
+            for _ in range(1000):
+                received = self.__chunks_received
+                # Available data has been read when the next iteration of the loop is over.
+                await asyncio.sleep(0)
+                await asyncio.sleep(0)
+                if self.__chunks_received == received:
+                    break
+
     async def __execute_process(self, context: LaunchContext) -> None:
         process_event_args = self.__process_event_args
         if process_event_args is None:
@@ -616,6 +630,8 @@ class ExecuteLocal(Action):
         await context.emit_event(ProcessStarted(**process_event_args))
 
         returncode = await self._subprocess_protocol.complete
+        if emulate_tty:
+            await self._subprocess_protocol.drain()
         if returncode == 0:
             self.__logger.info('process has finished cleanly [pid {}]'.format(pid))
         else:
-- 
2.43.0


From 5ca799fb4661321b6a2e998e403109d9853af161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 30/74] fix: matches_pid() for actions whose process has no pid

---
 launch/launch/events/process/process_matchers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/events/process/process_matchers.py b/launch/launch/events/process/process_matchers.py
index 3549a09..d2792b9 100644
--- a/launch/launch/events/process/process_matchers.py
+++ b/launch/launch/events/process/process_matchers.py
@@ -28,7 +28,8 @@ def matches_pid(pid: int) -> Callable[['ExecuteProcess'], bool]:
         if action.process_details is None:
             # This can happen if the process in the action has not been started.
             return False
-        return action.process_details['pid'] == pid
+        # Nor is there a pid if it could not be started or is about to be.
+        return action.process_details.get('pid') == pid
 
     return matcher
 
-- 
2.43.0


From 20ba2dd9430d5da63b18526ccc60ccf9a2623529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 31/74] fix: read iterable output destinations only once

---
 launch/launch/logging/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 207a8ed..8022ca1 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -402,6 +402,8 @@ def _normalize_output_configuration(config):
                 ).format(source))
             if isinstance(destinations, str):
                 destinations = {destinations}
+            else:
+                destinations = list(destinations)  # to iterate more than once
             for destination in destinations:
                 if destination not in ('screen', 'log', 'own_log'):
                     raise ValueError((
-- 
2.43.0


From 6cfc65333fa34cb38ec88716a70ed0563e000e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:33 +0000
Subject: [PATCH 32/74] fix: match a lone regular expression against output
 lines

---
 launch_testing/launch_testing/tools/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/tools/text.py b/launch_testing/launch_testing/tools/text.py
index 61fdd7a..2ecfd0d 100644
--- a/launch_testing/launch_testing/tools/text.py
+++ b/launch_testing/launch_testing/tools/text.py
@@ -49,7 +49,7 @@ def build_line_match(expected_lines, *, strict=False):
         return _match
 
     if hasattr(expected_lines, 'match'):
-        def _match(actual_lines, start):
+        def _match(actual_lines, start=0):
             if strict:
                 if all(expected_lines.match(line) for line in actual_lines[start:]):
                     return start, start + len(actual_lines[start:])
-- 
2.43.0


From 6272f3c4bf11650223c301e27f5ef879de8cf6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 33/74] fix: decode captured output as a whole instead of chunk
 by chunk

---
 .../launch_testing/asserts/assert_output.py   | 13 +++----
 .../asserts/assert_sequential_output.py       |  3 +-
 .../event_handlers/stdout_ready_listener.py   |  2 +-
 .../launch_testing/tools/process.py           |  7 ++--
 .../launch_testing/util/process_io.py         | 34 +++++++++++++++++++
 5 files changed, 48 insertions(+), 11 deletions(-)
 create mode 100644 launch_testing/launch_testing/util/process_io.py

diff --git a/launch_testing/launch_testing/asserts/assert_output.py b/launch_testing/launch_testing/asserts/assert_output.py
index 244126e..ef194c5 100644
--- a/launch_testing/launch_testing/asserts/assert_output.py
+++ b/launch_testing/launch_testing/asserts/assert_output.py
@@ -24,6 +24,7 @@ from osrf_pycommon.terminal_color import remove_ansi_escape_sequences
 
 from ..tools.text import build_text_match
 from ..util import resolveProcesses
+from ..util.process_io import decode_process_io
 
 
 def assertInStream(proc_output,
@@ -82,13 +83,13 @@ def assertInStream(proc_output,
 
     for proc in resolved_procs:  # Nominally just one matching proc
         if stream == 'stdout':
-            full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stdout
-            )
+            full_output = ''.join(decode_process_io(
+                output for output in proc_output[proc] if output.from_stdout
+            ))
         elif stream == 'stderr':
-            full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stderr
-            )
+            full_output = ''.join(decode_process_io(
+                output for output in proc_output[proc] if output.from_stderr
+            ))
         else:
             raise ValueError("Invalid value for stream; must be 'stdout' or 'stderr'")
 
diff --git a/launch_testing/launch_testing/asserts/assert_sequential_output.py b/launch_testing/launch_testing/asserts/assert_sequential_output.py
index 35c1a82..8aece45 100644
--- a/launch_testing/launch_testing/asserts/assert_sequential_output.py
+++ b/launch_testing/launch_testing/asserts/assert_sequential_output.py
@@ -24,6 +24,7 @@ further reference.
 from contextlib import contextmanager
 
 from ..util import resolveProcesses
+from ..util.process_io import decode_process_io
 
 
 class SequentialTextChecker:
@@ -127,7 +128,7 @@ def assertSequentialStdout(proc_output,
 
     # Get all the output from the process.  This will be a list of strings.  Each string may
     # contain multiple lines of output
-    to_check = [p.text.decode() for p in proc_output[process]]
+    to_check = decode_process_io(proc_output[process])
     checker = SequentialTextChecker(to_check)
 
     try:
diff --git a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
index af02ba5..8623337 100644
--- a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
+++ b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
@@ -47,7 +47,7 @@ class StdoutReadyListener(OnProcessIO):
         )
 
     def __on_stdout(self, process_io):
-        if self.__ready_txt in process_io.text.decode():
+        if self.__ready_txt in process_io.text.decode(errors='replace'):
             return self.__actions
 
     def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index 5c71c09..14f01bd 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -21,6 +21,7 @@ from launch.utilities import ensure_argument_type
 
 from ..io_handler import ActiveIoHandler
 from ..proc_info_handler import ActiveProcInfoHandler
+from ..util.process_io import decode_process_io
 
 
 class ProcessProxy:
@@ -109,7 +110,7 @@ class ProcessProxy:
     @property
     def stderr(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stderr)
+        output_text = ''.join(decode_process_io(ev for ev in output_events if ev.from_stderr))
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
@@ -117,7 +118,7 @@ class ProcessProxy:
     @property
     def stdout(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stdout)
+        output_text = ''.join(decode_process_io(ev for ev in output_events if ev.from_stdout))
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
@@ -125,7 +126,7 @@ class ProcessProxy:
     @property
     def output(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events)
+        output_text = ''.join(decode_process_io(output_events))
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
diff --git a/launch_testing/launch_testing/util/process_io.py b/launch_testing/launch_testing/util/process_io.py
new file mode 100644
index 0000000..2be774c
--- /dev/null
+++ b/launch_testing/launch_testing/util/process_io.py
@@ -0,0 +1,34 @@
+# Copyright 2019 Apex.AI, Inc.
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+import codecs
+
+
+def decode_process_io(process_ios):
+    """
+    Decode the text of consecutive ProcessIO events, where each stream is decoded as a whole.
+
+    A character may be split between two events of a stream: it is then part of the text of the
+    event that completes it.
+
+    :param process_ios: an iterable of launch.events.process.ProcessIO, in order of arrival.
+    :returns: a list with the decoded text of each of the events.
+    """
+    new_decoder = codecs.getincrementaldecoder('utf-8')
+    stdout_decoder, stderr_decoder = new_decoder('replace'), new_decoder('replace')
+    texts = []
+    for process_io in process_ios:
+        decoder = stdout_decoder if process_io.from_stdout else stderr_decoder
+        texts.append(decoder.decode(process_io.text))
+    return texts
-- 
2.43.0


From dcd130baf1a7a11839bcdb1f374b45aa6c41dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 34/74] fix: wake every thread that waits for captured output
 or process events

---
 launch_testing/launch_testing/io_handler.py        | 4 ++--
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/io_handler.py b/launch_testing/launch_testing/io_handler.py
index ee233a6..b818f44 100644
--- a/launch_testing/launch_testing/io_handler.py
+++ b/launch_testing/launch_testing/io_handler.py
@@ -102,12 +102,12 @@ class ActiveIoHandler:
     def track(self, process_name):
         with self._sync_lock:
             self._io_handler.track(process_name)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def append(self, process_io):
         with self._sync_lock:
             self._io_handler.append(process_io)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 08c28a7..7d15a41 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -83,7 +83,7 @@ class ActiveProcInfoHandler:
     def append(self, process_info):
         with self._sync_lock:
             self._proc_info_handler.append(process_info)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
-- 
2.43.0


From 05e82ed61bbe0489bd246726a9a85b72d2f5a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 35/74] fix: iterate over a copy of the process information
 while it is recorded

---
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 7d15a41..8844720 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -87,7 +87,7 @@ class ActiveProcInfoHandler:
 
     def __iter__(self):
         with self._sync_lock:
-            return self._proc_info_handler.__iter__()
+            return list(self._proc_info_handler).__iter__()
 
     def processes(self):
         """
-- 
2.43.0


From cabc0800fbf0c4541dd194e4de854b97ba6c43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 36/74] fix: return the list of all processes when none is
 designated

---
 launch_testing/launch_testing/util/proc_lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/util/proc_lookup.py b/launch_testing/launch_testing/util/proc_lookup.py
index ea9660d..95e6799 100644
--- a/launch_testing/launch_testing/util/proc_lookup.py
+++ b/launch_testing/launch_testing/util/proc_lookup.py
@@ -103,7 +103,7 @@ def resolveProcesses(info_obj, *, process=None, cmd_args=None, strict_proc_match
     """
     if process is None:
         # We want to search all processes
-        all_procs = info_obj.processes()
+        all_procs = list(info_obj.processes())
         if len(all_procs) == 0:
             raise NoMatchingProcessException('No data recorded for any process')
         return all_procs
-- 
2.43.0


From 2dab291eeaaeca0d10b6ce5494e124b914ef64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 37/74] fix: fail the exit code assertion of a process that is
 still running

---
 launch_testing/launch_testing/asserts/assert_exit_codes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch_testing/launch_testing/asserts/assert_exit_codes.py b/launch_testing/launch_testing/asserts/assert_exit_codes.py
index 5d3e73c..ca09759 100644
--- a/launch_testing/launch_testing/asserts/assert_exit_codes.py
+++ b/launch_testing/launch_testing/asserts/assert_exit_codes.py
@@ -47,6 +47,8 @@ def assertExitCodes(proc_info,
     :param iterable proc_info: A list of proc_info objects provided by the test framework to be
     checked
     """
+    allowable_exit_codes = list(allowable_exit_codes)
+
     # Sanity check that the user didn't pass in something crazy for allowable exit codes
     for code in allowable_exit_codes:
         assert isinstance(code, int), 'Provided exit code {} is not an int'.format(code)
@@ -59,6 +61,7 @@ def assertExitCodes(proc_info,
     )
 
     for info in [proc_info[item] for item in to_check]:
+        assert hasattr(info, 'returncode'), 'Proc {} has not exited'.format(info.process_name)
         assert info.returncode in allowable_exit_codes, 'Proc {} exited with code {}'.format(
             info.process_name,
             info.returncode
-- 
2.43.0


From b27fad29f5278c6b523753e65cb8c78abb7839a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 38/74] fix: report the outcome of subtests and of class and
 module fixtures

---
 launch_testing/launch_testing/junitxml.py | 25 ++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index 3a8117a..d9c9b92 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import unittest
 import xml.etree.ElementTree as ET
 
 
@@ -67,12 +68,26 @@ def unittestResultToXml(name, test_result):
     test_suite.set('skipped', str(len(test_result.skipped)))
     test_suite.set('time', str(round(sum(test_result.testTimes.values()), 3)))
 
-    for case in test_result.testCases:
+    # Class and module fixtures are not among the test cases that were started, though they can
+    # have an outcome too
+    cases = list(test_result.testCases)
+    for outcome in test_result.failures + test_result.errors + test_result.skipped:
+        case = _outcomeTestCase(outcome)
+        if case not in cases:
+            cases.append(case)
+
+    for case in cases:
         test_suite.append(unittestCaseToXml(test_result, case))
 
     return test_suite
 
 
+def _outcomeTestCase(outcome):
+    """Get the test case of a (test, message) tuple, where test may be a subtest of a case."""
+    test = outcome[0]
+    return test.test_case if isinstance(test, unittest.case._SubTest) else test
+
+
 def unittestCaseToXml(test_result, test_case):
     """
     Serialize a unittest.TestCase into an XML element.
@@ -87,24 +102,24 @@ def unittestCaseToXml(test_result, test_case):
     full_classname, _, methodname = full_methodname.rpartition('.')
     case_xml.set('classname', full_classname)
     case_xml.set('name', (methodname + ' ' + qualifiers).strip())
-    case_xml.set('time', str(round(test_result.testTimes[test_case], 3)))
+    case_xml.set('time', str(round(test_result.testTimes.get(test_case, 0), 3)))
 
     for failure in test_result.failures:
         # We're enumerating a list of (test_case, failure_string) tuples here
-        if failure[0] == test_case:
+        if _outcomeTestCase(failure) == test_case:
             failure_xml = ET.Element('failure')
             failure_xml.set('message', failure[1])
             case_xml.append(failure_xml)
 
     for error in test_result.errors:
         # Same as above.  (test_case, error_string) tuples
-        if error[0] == test_case:
+        if _outcomeTestCase(error) == test_case:
             error_xml = ET.Element('error')
             error_xml.set('message', error[1])
             case_xml.append(error_xml)
 
     for skip in test_result.skipped:
-        if skip[0] == test_case:
+        if _outcomeTestCase(skip) == test_case:
             skip_xml = ET.Element('skipped')
             skip_xml.set('message', skip[1])
             case_xml.append(skip_xml)
-- 
2.43.0


From 8ae76332e2c69e94759fb7907eab1a854fd38737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 39/74] fix: report an unexpected success as a failure

---
 launch_testing/launch_testing/junitxml.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index d9c9b92..3659fa4 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -37,7 +37,7 @@ def unittestResultsToXml(*, name='launch_test', test_results={}):
 
     for result in test_results.values():
         tests += result.testsRun
-        failures += len(result.failures)
+        failures += len(result.failures) + len(result.unexpectedSuccesses)
         errors += len(result.errors)
         time += sum(result.testTimes.values())
 
@@ -63,7 +63,9 @@ def unittestResultToXml(name, test_result):
     test_suite = ET.Element('testsuite')
     test_suite.set('name', name)
     test_suite.set('tests', str(test_result.testsRun))
-    test_suite.set('failures', str(len(test_result.failures)))
+    test_suite.set(
+        'failures', str(len(test_result.failures) + len(test_result.unexpectedSuccesses))
+    )
     test_suite.set('errors', str(len(test_result.errors)))
     test_suite.set('skipped', str(len(test_result.skipped)))
     test_suite.set('time', str(round(sum(test_result.testTimes.values()), 3)))
@@ -111,6 +113,11 @@ def unittestCaseToXml(test_result, test_case):
             failure_xml.set('message', failure[1])
             case_xml.append(failure_xml)
 
+    if test_case in test_result.unexpectedSuccesses:
+        failure_xml = ET.Element('failure')
+        failure_xml.set('message', 'Unexpected success')
+        case_xml.append(failure_xml)
+
     for error in test_result.errors:
         # Same as above.  (test_case, error_string) tuples
         if _outcomeTestCase(error) == test_case:
-- 
2.43.0


From cfe6ee3766af054fa52cd08c474804c034b8fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 40/74] fix: escape characters that an XML report can't contain

---
 launch_testing/launch_testing/junitxml.py | 26 +++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index 3659fa4..16fff00 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -13,10 +13,22 @@
 # limitations under the License.
 
 
+import re
 import unittest
 import xml.etree.ElementTree as ET
 
 
+# Everything but the characters that an XML document may contain
+_INVALID_XML_CHARACTER = re.compile(
+    '[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]'
+)
+
+
+def _toXmlText(text):
+    """Escape the characters that can't be part of an XML document, e.g. control characters."""
+    return _INVALID_XML_CHARACTER.sub(lambda match: ascii(match.group())[1:-1], text)
+
+
 def unittestResultsToXml(*, name='launch_test', test_results={}):
     """
     Serialize multiple unittest.TestResult objects into an XML document.
@@ -27,7 +39,7 @@ def unittestResultsToXml(*, name='launch_test', test_results={}):
     # launch_test results contain two test suites - one from tests that ran while processes
     # were active, and one from tests that ran after processes were shut down
     test_suites = ET.Element('testsuites')
-    test_suites.set('name', name)
+    test_suites.set('name', _toXmlText(name))
 
     # To get tests, failures, and errors, we just want to iterate the results once
     tests = 0
@@ -61,7 +73,7 @@ def unittestResultToXml(name, test_result):
     </testsuite>
     """
     test_suite = ET.Element('testsuite')
-    test_suite.set('name', name)
+    test_suite.set('name', _toXmlText(name))
     test_suite.set('tests', str(test_result.testsRun))
     test_suite.set(
         'failures', str(len(test_result.failures) + len(test_result.unexpectedSuccesses))
@@ -102,15 +114,15 @@ def unittestCaseToXml(test_result, test_case):
     case_xml = ET.Element('testcase')
     full_methodname, _, qualifiers = test_case.id().partition(' ')
     full_classname, _, methodname = full_methodname.rpartition('.')
-    case_xml.set('classname', full_classname)
-    case_xml.set('name', (methodname + ' ' + qualifiers).strip())
+    case_xml.set('classname', _toXmlText(full_classname))
+    case_xml.set('name', _toXmlText((methodname + ' ' + qualifiers).strip()))
     case_xml.set('time', str(round(test_result.testTimes.get(test_case, 0), 3)))
 
     for failure in test_result.failures:
         # We're enumerating a list of (test_case, failure_string) tuples here
         if _outcomeTestCase(failure) == test_case:
             failure_xml = ET.Element('failure')
-            failure_xml.set('message', failure[1])
+            failure_xml.set('message', _toXmlText(failure[1]))
             case_xml.append(failure_xml)
 
     if test_case in test_result.unexpectedSuccesses:
@@ -122,13 +134,13 @@ def unittestCaseToXml(test_result, test_case):
         # Same as above.  (test_case, error_string) tuples
         if _outcomeTestCase(error) == test_case:
             error_xml = ET.Element('error')
-            error_xml.set('message', error[1])
+            error_xml.set('message', _toXmlText(error[1]))
             case_xml.append(error_xml)
 
     for skip in test_result.skipped:
         if _outcomeTestCase(skip) == test_case:
             skip_xml = ET.Element('skipped')
-            skip_xml.set('message', skip[1])
+            skip_xml.set('message', _toXmlText(skip[1]))
             case_xml.append(skip_xml)
 
     return case_xml
-- 
2.43.0


From 4d1e64e6c865f81ab3ec0d6fdec274b82fe2e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 41/74] fix: report a failed run whose processes wrote text
 that is not ASCII

---
 launch_testing/launch_testing/test_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/test_runner.py b/launch_testing/launch_testing/test_runner.py
index 5a1de18..c01e6ee 100644
--- a/launch_testing/launch_testing/test_runner.py
+++ b/launch_testing/launch_testing/test_runner.py
@@ -210,7 +210,7 @@ class _RunnerWorker():
             print("##### '{}' output #####".format(process.process_name))
             try:
                 for io in proc_output[process.action]:
-                    print('{}'.format(io.text.decode('ascii')))
+                    print('{}'.format(io.text.decode(errors='replace')))
             except KeyError:
                 pass  # Process generated no output
             print('#' * (len(process.process_name) + 21))
-- 
2.43.0


From e772c858648d60fe58769cd17b585100798f3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 42/74] fix: name the cases of parametrized tests correctly in
 the report

---
 launch_testing/launch_testing/junitxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/junitxml.py b/launch_testing/launch_testing/junitxml.py
index 16fff00..ecb4a3a 100644
--- a/launch_testing/launch_testing/junitxml.py
+++ b/launch_testing/launch_testing/junitxml.py
@@ -112,10 +112,11 @@ def unittestCaseToXml(test_result, test_case):
     class needs to be a launch_testing.TestResult class
     """
     case_xml = ET.Element('testcase')
-    full_methodname, _, qualifiers = test_case.id().partition(' ')
+    # Parameters and other qualifiers may contain dots
+    full_methodname, qualifiers = re.match(r'([^ \[]*)(.*)', test_case.id(), re.DOTALL).groups()
     full_classname, _, methodname = full_methodname.rpartition('.')
     case_xml.set('classname', _toXmlText(full_classname))
-    case_xml.set('name', _toXmlText((methodname + ' ' + qualifiers).strip()))
+    case_xml.set('name', _toXmlText((methodname + qualifiers).strip()))
     case_xml.set('time', str(round(test_result.testTimes.get(test_case, 0), 3)))
 
     for failure in test_result.failures:
-- 
2.43.0


From 57455d2f0489d3e26b9d60e585b3b9228330e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:09 +0000
Subject: [PATCH 43/74] fix: reject a keep element among the children of a
 group in YAML

It was dropped without being read.
---
 launch/launch/actions/group_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/actions/group_action.py b/launch/launch/actions/group_action.py
index 81b7b53..bcd6e0f 100644
--- a/launch/launch/actions/group_action.py
+++ b/launch/launch/actions/group_action.py
@@ -104,7 +104,7 @@ class GroupAction(Action):
             for e in keeps:
                 e.assert_entity_completely_parsed()
         kwargs['actions'] = [parser.parse_action(e) for e in entity.children
-                             if e.type_name != 'keep']
+                             if e.type_name != 'keep' or keeps is None]
         return cls, kwargs
 
     def get_sub_entities(self) -> List[LaunchDescriptionEntity]:
-- 
2.43.0


From a499541a23e0ed7c77085a037b5e39d4054c43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:09 +0000
Subject: [PATCH 44/74] Revert "fix: report a failed run whose processes wrote
 text that is not ASCII"

This reverts commit 4d1e64e6c865f81ab3ec0d6fdec274b82fe2e758.
---
 launch_testing/launch_testing/test_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/test_runner.py b/launch_testing/launch_testing/test_runner.py
index c01e6ee..5a1de18 100644
--- a/launch_testing/launch_testing/test_runner.py
+++ b/launch_testing/launch_testing/test_runner.py
@@ -210,7 +210,7 @@ class _RunnerWorker():
             print("##### '{}' output #####".format(process.process_name))
             try:
                 for io in proc_output[process.action]:
-                    print('{}'.format(io.text.decode(errors='replace')))
+                    print('{}'.format(io.text.decode('ascii')))
             except KeyError:
                 pass  # Process generated no output
             print('#' * (len(process.process_name) + 21))
-- 
2.43.0


From 5cdd3472247627bb3617dc512be97d1887ad4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:36 +0000
Subject: [PATCH 45/74] fix: no empty first argument for a command that starts
 with spaces

---
 launch/launch/actions/execute_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index c780af7..72484f6 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -268,7 +268,9 @@ class ExecuteProcess(ExecuteLocal):
                     # Appending args allow splitting two substitutions
                     # separated by a space.
                     # e.g.: `$(subst1 asd) $(subst2 bsd)` will be two separate arguments.
-                    _append_arg()
+                    # There is nothing to split if the command starts with the spaces.
+                    if arg:
+                        _append_arg()
                     continue
                 if sub.text[0].isspace():
                     # Needed for splitting from the previous argument
-- 
2.43.0


From dcdb9fb501d6c087e6754f6c226a98c5e3b941c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:48 +0000
Subject: [PATCH 46/74] fix: FrontendLaunchDescriptionSource loads with the
 parser it was given

---
 .../frontend_launch_description_source.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_description_sources/frontend_launch_description_source.py b/launch/launch/launch_description_sources/frontend_launch_description_source.py
index dda792b..7bd6e5e 100644
--- a/launch/launch/launch_description_sources/frontend_launch_description_source.py
+++ b/launch/launch/launch_description_sources/frontend_launch_description_source.py
@@ -52,7 +52,7 @@ class FrontendLaunchDescriptionSource(LaunchDescriptionSource):
             launch_file_path,
             method
         )
-        self._parser = Parser
+        self._parser = parser
 
     def _get_launch_description(self, location):
         """Get the LaunchDescription from location."""
-- 
2.43.0


From 67a426c7f2663f5f17a26dab246c3b13c1c564a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 47/74] fix: get_launch_description_from_any_launch_file uses
 the parser it was given

---
 .../launch_description_sources/any_launch_file_utilities.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/launch_description_sources/any_launch_file_utilities.py b/launch/launch/launch_description_sources/any_launch_file_utilities.py
index 097d586..ae17837 100644
--- a/launch/launch/launch_description_sources/any_launch_file_utilities.py
+++ b/launch/launch/launch_description_sources/any_launch_file_utilities.py
@@ -14,6 +14,7 @@
 
 """Python package utility functions related to loading Frontend Launch Files."""
 
+from functools import partial
 import os
 from typing import Callable
 from typing import List
@@ -41,7 +42,7 @@ def get_launch_description_from_any_launch_file(
     :raises `ValueError`: Invalid file. The file may not be a text file.
     """
     loaders: List[Callable[[str], LaunchDescription]] =\
-        [get_launch_description_from_frontend_launch_file]
+        [partial(get_launch_description_from_frontend_launch_file, parser=parser)]
 
     launch_file_name = os.path.basename(launch_file_path)
     extension = os.path.splitext(launch_file_name)[1]
-- 
2.43.0


From f6d3218432ee0b5cb19b14f352c0e04789ca5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 48/74] fix: Parser.load accepts paths in bytes and file
 objects without a text name

---
 launch/launch/frontend/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch/launch/frontend/parser.py b/launch/launch/frontend/parser.py
index 39bf114..b0b67c3 100644
--- a/launch/launch/frontend/parser.py
+++ b/launch/launch/frontend/parser.py
@@ -241,6 +241,8 @@ class Parser:
 
         try:
             filename = getattr(fileobj, 'name', '')
+            # The name of a file object is not always a text, e.g. it may be a file descriptor.
+            filename = os.fsdecode(filename) if isinstance(filename, (str, bytes)) else ''
             implementations = cls.get_parsers_from_filename(filename)
             assert cls.frontend_parsers is not None
             implementations += [
-- 
2.43.0


From a6976e5294ac5d20ff4d6345fe7b2dd7fea5e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 49/74] fix: tests marked as expected failures stay so when
 their arguments are bound

---
 launch_testing/launch_testing/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/loader.py b/launch_testing/launch_testing/loader.py
index ceb13ae..bbd202f 100644
--- a/launch_testing/launch_testing/loader.py
+++ b/launch_testing/launch_testing/loader.py
@@ -253,7 +253,9 @@ def _partially_bind_matching_args(unbound_function, arg_candidates):
     function_args = inspect.signature(unbound_function).parameters
     # We only want to bind the part of the context matches the test args
     matching_args = {k: v for (k, v) in arg_candidates.items() if k in function_args}
-    return functools.partial(unbound_function, **matching_args)
+    bound_function = functools.partial(unbound_function, **matching_args)
+    # What decorators noted on the function, e.g. that it is expected to fail, is kept
+    return functools.update_wrapper(bound_function, unbound_function)
 
 
 def _give_attribute_to_tests(data, attr_name, test_suite):
-- 
2.43.0


From c2d2930c80a966e4f4bb248c4858dba043c40680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 50/74] fix: a retried test forgets what its own failed
 attempts recorded, not the errors of other tests

---
 launch_testing/launch_testing/markers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/markers.py b/launch_testing/launch_testing/markers.py
index d070967..4d398fe 100644
--- a/launch_testing/launch_testing/markers.py
+++ b/launch_testing/launch_testing/markers.py
@@ -26,6 +26,12 @@ def keep_alive(test_description):
     return test_description
 
 
+def _problems(test):
+    """Get the lists in which the result of a test run keeps errors and failures."""
+    result = getattr(getattr(test, '_outcome', None), 'result', None)
+    return [getattr(result, name) for name in ('errors', 'failures') if hasattr(result, name)]
+
+
 def retry_on_failure(*, times, delay=None):
     """
     Mark a test case to be retried up to `times` on AssertionError.
@@ -42,6 +48,8 @@ def retry_on_failure(*, times, delay=None):
         @functools.wraps(func)
         def _wrapper(self, *args, **kwargs):
             n = times
+            # What other tests recorded in the result they share is kept
+            recorded = [(x, len(x)) for x in _problems(self)]
             while n > 1:
                 try:
                     ret = func(self, *args, **kwargs)
@@ -52,8 +60,8 @@ def retry_on_failure(*, times, delay=None):
                     if hasattr(self._outcome, 'errors'):
                         self._outcome.errors.clear()
                     else:
-                        if self._outcome.result is not None:
-                            self._outcome.result.errors.clear()
+                        for problems, length in recorded:
+                            del problems[length:]
                     self._outcome.success = True
                     n -= 1
                 if delay is not None:
-- 
2.43.0


From 558f2a2b6b84f09f57105c065a9507bee8a71218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:41 +0000
Subject: [PATCH 51/74] fix: markers and timeouts put on a parametrized test
 description apply to its runs

---
 launch_testing/launch_testing/parametrize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch_testing/launch_testing/parametrize.py b/launch_testing/launch_testing/parametrize.py
index d7e9d26..8af9745 100644
--- a/launch_testing/launch_testing/parametrize.py
+++ b/launch_testing/launch_testing/parametrize.py
@@ -43,6 +43,8 @@ def parametrize(argnames, argvalues):
 
                 partial = functools.partial(func, **partial_args)
                 functools.update_wrapper(partial, func)
+                # Markers may be put on the parametrized function too
+                partial.__dict__.update(_wrapped.__dict__)
                 yield partial, partial_args
 
         _wrapped.__parametrized__ = True
-- 
2.43.0


From cec0880239dfa6e2ce3cbae5079ed73ee08cccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 52/74] fix: a log directory another process has just made is
 never shared

---
 launch/launch/logging/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 8022ca1..8f00d4e 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -75,11 +75,12 @@ def _make_unique_log_dir(*, base_path):
             datetime_str, socket.gethostname(), os.getpid()
         )
         log_dir = os.path.join(base_path, log_dirname)
-        # Check that filename does not exist
-        # TODO(hidmic): fix (unlikely) TOCTTOU race
-        if not os.path.isdir(log_dir):
-            os.makedirs(log_dir, exist_ok=True)
-            return log_dir
+        try:
+            os.makedirs(log_dir)
+        except FileExistsError:
+            # Someone else's, try again with another name
+            continue
+        return log_dir
 
 
 def _renew_latest_log_dir(*, log_dir):
-- 
2.43.0


From 360584e8eea79eff36b087c642876b01a6f74075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 53/74] fix: a relative log directory is resolved where it is
 given, so its latest link and log files are found

---
 launch/launch/logging/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 8f00d4e..4361d4e 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -47,8 +47,8 @@ def _get_logging_directory():
     Use $ROS_LOG_DIR if ROS_LOG_DIR is set and not empty.
     Otherwise, use $ROS_HOME/log, using ~/.ros for ROS_HOME if not set or if empty.
 
-    It also expands '~' to the current user's home directory,
-    and normalizes the path, converting the path separator if necessary.
+    It also expands '~' to the current user's home directory, makes the path absolute
+    and normalizes it, converting the path separator if necessary.
 
     :return: the path to the logging directory
     """
@@ -58,7 +58,7 @@ def _get_logging_directory():
         if not log_dir:
             log_dir = os.path.join('~', '.ros')
         log_dir = os.path.join(log_dir, 'log')
-    return os.path.normpath(os.path.expanduser(log_dir))
+    return os.path.abspath(os.path.expanduser(log_dir))
 
 
 def _make_unique_log_dir(*, base_path):
@@ -169,6 +169,7 @@ class LaunchConfig:
                 ).format(self._log_dir))
             if not os.path.isdir(new_log_dir):
                 raise ValueError('{} is not a directory'.format(new_log_dir))
+            new_log_dir = os.path.abspath(new_log_dir)
         self._log_dir = new_log_dir
 
     @property
-- 
2.43.0


From b98a39f8f7aee689d218db76a05c0d4a36bcd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:42 +0000
Subject: [PATCH 54/74] fix: a format from the environment may contain any
 character

---
 launch/launch/logging/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 4361d4e..9699324 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -220,7 +220,7 @@ class LaunchConfig:
         if screen_format_env not in [None, '']:
             # encoded escape characters correctly
             screen_format = screen_format_env.encode(
-                'latin1').decode('unicode_escape')
+                'latin1', 'backslashreplace').decode('unicode_escape')
             # Set the style correspondingly
             screen_style = '{'
         if screen_format is not None:
@@ -282,7 +282,7 @@ class LaunchConfig:
         if log_format_env not in [None, '']:
             # encoded escape characters correctly
             log_format = log_format_env.encode(
-                'latin1').decode('unicode_escape')
+                'latin1', 'backslashreplace').decode('unicode_escape')
             # Set the style correspondingly
             log_style = '{'
         if log_format is not None:
-- 
2.43.0


From 6ef4d2298bbe62acbaa66101ca389d3c2ae4932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:38 +0000
Subject: [PATCH 55/74] fix: the aliases of formats can be given in the
 environment

---
 launch/launch/logging/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 9699324..4317db4 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -221,8 +221,8 @@ class LaunchConfig:
             # encoded escape characters correctly
             screen_format = screen_format_env.encode(
                 'latin1', 'backslashreplace').decode('unicode_escape')
-            # Set the style correspondingly
-            screen_style = '{'
+            # Use the default style, as aliases do
+            screen_style = None
         if screen_format is not None:
             if screen_format == 'default':
                 screen_format = '[{levelname}] [{name}]: {msg}'
@@ -283,8 +283,8 @@ class LaunchConfig:
             # encoded escape characters correctly
             log_format = log_format_env.encode(
                 'latin1', 'backslashreplace').decode('unicode_escape')
-            # Set the style correspondingly
-            log_style = '{'
+            # Use the default style, as aliases do
+            log_style = None
         if log_format is not None:
             if log_format == 'default':
                 log_format = '{created:.7f} [{levelname}] [{name}]: {msg}'
-- 
2.43.0


From 707a307ac604cbd905bbf608465ee48f32abdcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:15 +0000
Subject: [PATCH 56/74] fix: launch_pytest works with pytest 8

---
 launch_pytest/launch_pytest/fixture.py |  1 +
 launch_pytest/launch_pytest/plugin.py  | 20 ++++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/launch_pytest/launch_pytest/fixture.py b/launch_pytest/launch_pytest/fixture.py
index aec03c6..569e56b 100644
--- a/launch_pytest/launch_pytest/fixture.py
+++ b/launch_pytest/launch_pytest/fixture.py
@@ -140,6 +140,7 @@ def fixture(
         fixture_function._launch_pytest_fixture_options = {
             'shutdown_when_idle': shutdown_when_idle,
             'auto_shutdown': auto_shutdown,
+            'scope': scope,
         }
         return pytest.fixture(*args, **kwargs)(fixture_function)
     if decorated is None:
diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index c63fcf0..8f6dcb8 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -163,6 +163,13 @@ def get_launch_test_fixture(item):
     return mark.kwargs.get('fixture')
 
 
+def get_launch_test_fixture_options(fixture):
+    """Return the options of a launch test fixture."""
+    # Since pytest 8.4, a fixture is an object holding the decorated function.
+    function = getattr(fixture, '_fixture_function', fixture)
+    return function._launch_pytest_fixture_options
+
+
 def get_launch_test_fixturename(item):
     """Return the launch test fixture name, `None` if this isn't a launch test."""
     fixture = get_launch_test_fixture(item)
@@ -236,7 +243,7 @@ def pytest_pycollect_makeitem(collector, name, obj):
                 return [item]
             fixture = get_launch_test_fixture(item)
             fixturename = fixture.__name__
-            scope = fixture._pytestfixturefunction.scope
+            scope = get_launch_test_fixture_options(fixture)['scope']
             is_shutdown = has_shutdown_kwarg(item)
             items = generate_test_items(
                 collector, name, obj, fixturename, is_shutdown=is_shutdown, needs_renaming=False)
@@ -264,7 +271,7 @@ def is_same_launch_test_fixture(left_item, right_item):
         return False
     if lfn is not rfn:
         return False
-    if lfn._pytestfixturefunction.scope == 'function':
+    if get_launch_test_fixture_options(lfn)['scope'] == 'function':
         return False
     name = lfn.__name__
 
@@ -326,10 +333,11 @@ def pytest_pyfunc_call(pyfuncitem):
         return
     shutdown_test = is_shutdown_test(pyfuncitem)
     fixture = get_launch_test_fixture(pyfuncitem)
-    scope = fixture._pytestfixturefunction.scope
+    options = get_launch_test_fixture_options(fixture)
+    scope = options['scope']
     event_loop = pyfuncitem.funcargs['event_loop']
     ls = pyfuncitem.funcargs['launch_service']
-    auto_shutdown = fixture._launch_pytest_fixture_options['auto_shutdown']
+    auto_shutdown = options['auto_shutdown']
     on_shutdown = functools.partial(
         finalize_launch_service,
         ls,
@@ -345,7 +353,7 @@ def pytest_pyfunc_call(pyfuncitem):
                 wrap_generator(func, event_loop, on_shutdown)
             )
             shutdown_item._fixtureinfo = shutdown_item.session._fixturemanager.getfixtureinfo(
-                shutdown_item, shutdown_item.obj, shutdown_item.cls, funcargs=True)
+                shutdown_item, shutdown_item.obj, shutdown_item.cls)
         else:
             pyfuncitem.obj = wrap_generator_fscope(func, event_loop, on_shutdown)
     elif inspect.isasyncgenfunction(func):
@@ -355,7 +363,7 @@ def pytest_pyfunc_call(pyfuncitem):
                 wrap_asyncgen(func, event_loop, on_shutdown)
             )
             shutdown_item._fixtureinfo = shutdown_item.session._fixturemanager.getfixtureinfo(
-                shutdown_item, shutdown_item.obj, shutdown_item.cls, funcargs=True)
+                shutdown_item, shutdown_item.obj, shutdown_item.cls)
         else:
             pyfuncitem.obj = wrap_asyncgen_fscope(func, event_loop, on_shutdown)
     elif not getattr(pyfuncitem.obj, '_launch_pytest_wrapped', False):
-- 
2.43.0


From abd28d6d374392bacfe5385c815d1bed1a9d85f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:34 +0000
Subject: [PATCH 57/74] fix: a launch_pytest test does not hang if the launch
 service finishes before being ready

---
 launch_pytest/launch_pytest/plugin.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 8f6dcb8..ca4304f 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -120,11 +120,15 @@ def pytest_fixture_setup(fixturedef, request):
         ))
         ready = get_ready_to_test_action(ld)
         asyncio.set_event_loop(event_loop)
-        event = asyncio.Event()
-        ready._add_callback(lambda: event.set())
+        # The launch service may finish without executing the ReadyToTest action.
+        is_ready = event_loop.create_future()
+        ready._add_callback(lambda: is_ready.done() or is_ready.set_result(True))
+        run_async_task.add_done_callback(lambda _: is_ready.done() or is_ready.set_result(False))
         fixturedef.addfinalizer(functools.partial(
             finalize_launch_service, ls, eprefix=eprefix, auto_shutdown=options['auto_shutdown']))
-        run_until_complete(event_loop, event.wait())
+        run_until_complete(event_loop, is_ready)
+        if not is_ready.result():
+            fail(f'{eprefix} the launch service finished before being ready to test')
         # this is guaranteed by the current run_async() implementation, let's check it just in case
         # it changes in the future
         assert ls.event_loop is event_loop
-- 
2.43.0


From 4662ded04736acd49115cd91fee3c6372625e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 58/74] fix: launch_pytest shutdown tests run with the fixture
 of their own class or module

---
 launch_pytest/launch_pytest/plugin.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index ca4304f..3f40fee 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -275,7 +275,12 @@ def is_same_launch_test_fixture(left_item, right_item):
         return False
     if lfn is not rfn:
         return False
-    if get_launch_test_fixture_options(lfn)['scope'] == 'function':
+    scope = get_launch_test_fixture_options(lfn)['scope']
+    if scope == 'function':
+        return False
+    # each class or module has a fixture of its own
+    node = {'class': pytest.Class, 'module': pytest.Module, 'package': pytest.Package}.get(scope)
+    if node is not None and left_item.getparent(node) is not right_item.getparent(node):
         return False
     name = lfn.__name__
 
-- 
2.43.0


From f27d90211899cb6c706cc8c7e7330c55b29beeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 59/74] fix: a launch_pytest generator test that does not yield
 fails instead of hanging

---
 launch_pytest/launch_pytest/plugin.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 3f40fee..f2848c3 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -414,6 +414,14 @@ def wrap_func(func, event_loop, before_test):
     return inner
 
 
+def first_step(gen):
+    """Run a generator until it yields."""
+    try:
+        next(gen)
+    except StopIteration:  # cannot be the result of a future
+        raise RuntimeError('launch tests using a generator function must yield once') from None
+
+
 def wrap_generator(func, event_loop, on_shutdown):
     """Return wrappers for the normal test and the teardown test for a generator function."""
     gen = None
@@ -438,7 +446,7 @@ def wrap_generator(func, event_loop, on_shutdown):
     def inner(**kwargs):
         nonlocal gen
         local_gen = func(**kwargs)
-        future = event_loop.run_in_executor(None, lambda: next(local_gen))
+        future = event_loop.run_in_executor(None, first_step, local_gen)
         run_until_complete(event_loop, future)
         gen = local_gen
 
@@ -450,7 +458,7 @@ def wrap_generator_fscope(func, event_loop, on_shutdown):
     @functools.wraps(func)
     def inner(**kwargs):
         gen = func(**kwargs)
-        future = event_loop.run_in_executor(None, lambda: next(gen))
+        future = event_loop.run_in_executor(None, first_step, gen)
         run_until_complete(event_loop, future)
         on_shutdown()
         try:
-- 
2.43.0


From 19f9c4d725d5d427da290c9e9de6c3bdd7531085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:08 +0000
Subject: [PATCH 60/74] fix: waiting for output of a process without a timeout

---
 launch_pytest/launch_pytest/tools/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index 274044b..4de5959 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -53,7 +53,8 @@ async def _wait_for_event_with_condition(
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
             try:
-                await asyncio.wait_for(pyevent.wait(), start - now + timeout)
+                await asyncio.wait_for(
+                    pyevent.wait(), None if timeout is None else start - now + timeout)
             except asyncio.TimeoutError:
                 break
             pyevent.clear()
@@ -81,7 +82,7 @@ def _wait_for_event_with_condition_sync(
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
-            pyevent.wait(start - now + timeout)
+            pyevent.wait(None if timeout is None else start - now + timeout)
             pyevent.clear()
             cond_value = condition()
             now = time.time()
-- 
2.43.0


From 8d485d63b620f02089a0e71c3247bf95223fb7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:08 +0000
Subject: [PATCH 61/74] fix: output that arrives between the check for it and
 the wait is not missed

---
 launch_pytest/launch_pytest/tools/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index 4de5959..64240cb 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -47,8 +47,8 @@ async def _wait_for_event_with_condition(
 ):
     pyevent = asyncio.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
+        cond_value = condition()
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
@@ -77,8 +77,8 @@ def _wait_for_event_with_condition_sync(
 ):
     pyevent = threading.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
+        cond_value = condition()
         start = time.time()
         now = start
         while not cond_value and (timeout is None or now < start + timeout):
-- 
2.43.0


From a78c4e430dd5b4fdda47566a187ce71748f6ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:58 +0000
Subject: [PATCH 62/74] fix: a launch description that launch_pytest rejects is
 not run

---
 launch_pytest/launch_pytest/plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index f2848c3..9f0b505 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -114,11 +114,11 @@ def pytest_fixture_setup(fixturedef, request):
             assert len(ret) > 0, wrong_ret_type_error
             ld = ret[0]
         assert isinstance(ld, launch.LaunchDescription), wrong_ret_type_error
+        ready = get_ready_to_test_action(ld)
         ls.include_launch_description(ld)
         run_async_task = event_loop.create_task(ls.run_async(
             shutdown_when_idle=options['shutdown_when_idle']
         ))
-        ready = get_ready_to_test_action(ld)
         asyncio.set_event_loop(event_loop)
         # The launch service may finish without executing the ReadyToTest action.
         is_ready = event_loop.create_future()
-- 
2.43.0


From 61e325d522f69065dc4073d3b7990f2e96f980e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:22 +0000
Subject: [PATCH 63/74] fix: tests do not run with a launch_pytest fixture
 whose launch failed

---
 launch_pytest/launch_pytest/plugin.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 9f0b505..fd25ee2 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -97,6 +97,17 @@ def get_ready_to_test_action(launch_description):
 @pytest.hookimpl(hookwrapper=True, tryfirst=True)
 def pytest_fixture_setup(fixturedef, request):
     """Set up launch service for all launch_pytest fixtures."""
+    try:
+        yield from set_up_launch_service(fixturedef, request)
+    except BaseException:
+        # If only the launch failed, the other tests cannot use the result that pytest has cached.
+        if fixturedef.cached_result is not None and fixturedef.cached_result[2] is None:
+            fixturedef.cached_result = None
+        raise
+
+
+def set_up_launch_service(fixturedef, request):
+    """Set up launch service around the setup of a launch_pytest fixture."""
     if getattr(fixturedef.func, '_launch_pytest_fixture', False):
         options = fixturedef.func._launch_pytest_fixture_options
         eprefix = f"When running launch_pytest fixture '{fixturedef.func.__name__}':"
-- 
2.43.0


From c93e2f9272584d7e1690359fabbb0e6c4b97e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:23 +0000
Subject: [PATCH 64/74] fix: the second part of a launch_pytest test is skipped
 if the first was not run

---
 launch_pytest/launch_pytest/plugin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index fd25ee2..55094e3 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -352,6 +352,9 @@ def pytest_pyfunc_call(pyfuncitem):
         yield
         return
     shutdown_test = is_shutdown_test(pyfuncitem)
+    if shutdown_test and need_shutdown_test_item(func):
+        # replaced by the second part of the test when its first part is run
+        skip('shutdown test skipped because the test was not run')
     fixture = get_launch_test_fixture(pyfuncitem)
     options = get_launch_test_fixture_options(fixture)
     scope = options['scope']
-- 
2.43.0


From 5758b1df32890cc3969e794de6c4c72f13f4fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:04 +0000
Subject: [PATCH 65/74] fix: reject texts for boolean and numeric options of
 group and executable elements

---
 launch/launch/actions/execute_process.py | 16 ++++++++++------
 launch/launch/actions/group_action.py    |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index 72484f6..b0832ab 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -360,12 +360,13 @@ class ExecuteProcess(ExecuteLocal):
 
         if 'respawn_max_retries' not in ignore:
             respawn_max_retries = entity.get_attr('respawn_max_retries', data_type=int,
-                                                  optional=True)
+                                                  optional=True, can_be_str=False)
             if respawn_max_retries is not None:
                 kwargs['respawn_max_retries'] = respawn_max_retries
 
         if 'respawn_delay' not in ignore:
-            respawn_delay = entity.get_attr('respawn_delay', data_type=float, optional=True)
+            respawn_delay = entity.get_attr('respawn_delay', data_type=float, optional=True,
+                                            can_be_str=False)
             if respawn_delay is not None:
                 if respawn_delay < 0.0:
                     raise ValueError(
@@ -375,7 +376,8 @@ class ExecuteProcess(ExecuteLocal):
                 kwargs['respawn_delay'] = respawn_delay
 
         if 'sigkill_timeout' not in ignore:
-            sigkill_timeout = entity.get_attr('sigkill_timeout', data_type=float, optional=True)
+            sigkill_timeout = entity.get_attr('sigkill_timeout', data_type=float, optional=True,
+                                              can_be_str=False)
             if sigkill_timeout is not None:
                 if sigkill_timeout < 0.0:
                     raise ValueError(
@@ -385,7 +387,8 @@ class ExecuteProcess(ExecuteLocal):
                 kwargs['sigkill_timeout'] = str(sigkill_timeout)
 
         if 'sigterm_timeout' not in ignore:
-            sigterm_timeout = entity.get_attr('sigterm_timeout', data_type=float, optional=True)
+            sigterm_timeout = entity.get_attr('sigterm_timeout', data_type=float, optional=True,
+                                              can_be_str=False)
             if sigterm_timeout is not None:
                 if sigterm_timeout < 0.0:
                     raise ValueError(
@@ -395,12 +398,13 @@ class ExecuteProcess(ExecuteLocal):
                 kwargs['sigterm_timeout'] = str(sigterm_timeout)
 
         if 'shell' not in ignore:
-            shell = entity.get_attr('shell', data_type=bool, optional=True)
+            shell = entity.get_attr('shell', data_type=bool, optional=True, can_be_str=False)
             if shell is not None:
                 kwargs['shell'] = shell
 
         if 'emulate_tty' not in ignore:
-            emulate_tty = entity.get_attr('emulate_tty', data_type=bool, optional=True)
+            emulate_tty = entity.get_attr('emulate_tty', data_type=bool, optional=True,
+                                          can_be_str=False)
             if emulate_tty is not None:
                 kwargs['emulate_tty'] = emulate_tty
 
diff --git a/launch/launch/actions/group_action.py b/launch/launch/actions/group_action.py
index bcd6e0f..3b7b545 100644
--- a/launch/launch/actions/group_action.py
+++ b/launch/launch/actions/group_action.py
@@ -89,8 +89,8 @@ class GroupAction(Action):
     def parse(cls, entity: Entity, parser: Parser):
         """Return `GroupAction` action and kwargs for constructing it."""
         _, kwargs = super().parse(entity, parser)
-        scoped = entity.get_attr('scoped', data_type=bool, optional=True)
-        forwarding = entity.get_attr('forwarding', data_type=bool, optional=True)
+        scoped = entity.get_attr('scoped', data_type=bool, optional=True, can_be_str=False)
+        forwarding = entity.get_attr('forwarding', data_type=bool, optional=True, can_be_str=False)
         keeps = entity.get_attr('keep', data_type=List[Entity], optional=True)
         if scoped is not None:
             kwargs['scoped'] = scoped
-- 
2.43.0


From c73ddf5e9cda9906aaeb472d226846110b9f7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:03 +0000
Subject: [PATCH 66/74] fix: give each execution of an opaque function or
 coroutine all of its arguments

Arguments given by an iterator were only passed to the first execution of
the action.
---
 launch/launch/actions/opaque_coroutine.py | 2 +-
 launch/launch/actions/opaque_function.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/opaque_coroutine.py b/launch/launch/actions/opaque_coroutine.py
index 3628075..5e107e1 100644
--- a/launch/launch/actions/opaque_coroutine.py
+++ b/launch/launch/actions/opaque_coroutine.py
@@ -86,7 +86,7 @@ class OpaqueCoroutine(Action):
         self.__coroutine = coroutine
         self.__args = []  # type: Iterable
         if args is not None:
-            self.__args = args
+            self.__args = list(args)  # to iterate only once
         self.__kwargs = {}  # type: Dict[Text, Any]
         if kwargs is not None:
             self.__kwargs = kwargs
diff --git a/launch/launch/actions/opaque_function.py b/launch/launch/actions/opaque_function.py
index 2c70a06..28e7039 100644
--- a/launch/launch/actions/opaque_function.py
+++ b/launch/launch/actions/opaque_function.py
@@ -65,7 +65,7 @@ class OpaqueFunction(Action):
         self.__function = function
         self.__args = []  # type: Iterable
         if args is not None:
-            self.__args = args
+            self.__args = list(args)  # to iterate only once
         self.__kwargs = {}  # type: Dict[Text, Any]
         if kwargs is not None:
             self.__kwargs = kwargs
-- 
2.43.0


From 9902e833df59b8d26455f4d8f944a6f31cff0c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:18 +0000
Subject: [PATCH 67/74] fix: cancel every execution of an opaque coroutine on
 shutdown

Only the coroutine of the last execution was cancelled, so that a run did
not end before the others had finished.
---
 launch/launch/actions/opaque_coroutine.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/launch/launch/actions/opaque_coroutine.py b/launch/launch/actions/opaque_coroutine.py
index 5e107e1..39cca24 100644
--- a/launch/launch/actions/opaque_coroutine.py
+++ b/launch/launch/actions/opaque_coroutine.py
@@ -93,23 +93,22 @@ class OpaqueCoroutine(Action):
         self.__ignore_context = ignore_context  # type: bool
         self.__future = None  # type: Optional[asyncio.Future]
 
-    def __on_shutdown(self, event: Event, context: LaunchContext) -> Optional[SomeEntitiesType]:
-        """Cancel ongoing coroutine upon shutdown."""
-        if self.__future is not None:
-            self.__future.cancel()
-        return None
-
     def execute(self, context: LaunchContext) -> Optional[List[LaunchDescriptionEntity]]:
         """Execute the action."""
         args = self.__args
         if not self.__ignore_context:
             args = [context, *self.__args]
-        self.__future = context.asyncio_loop.create_task(
+        future = context.asyncio_loop.create_task(
             self.__coroutine(*args, **self.__kwargs)
         )
-        context.register_event_handler(
-            OnShutdown(on_shutdown=self.__on_shutdown)
-        )
+
+        def on_shutdown(event: Event, context: LaunchContext) -> Optional[SomeEntitiesType]:
+            """Cancel ongoing coroutine upon shutdown."""
+            future.cancel()
+            return None
+
+        context.register_event_handler(OnShutdown(on_shutdown=on_shutdown))
+        self.__future = future
         return None
 
     def get_asyncio_future(self) -> Optional[asyncio.Future]:
-- 
2.43.0


From a5374ec744bb3c466865d2f6d5998077306e17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:34 +0000
Subject: [PATCH 68/74] fix: describe a launch description without entities

---
 launch/launch/launch_introspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_introspector.py b/launch/launch/launch_introspector.py
index 1abcbce..a60aa37 100644
--- a/launch/launch/launch_introspector.py
+++ b/launch/launch/launch_introspector.py
@@ -53,7 +53,7 @@ def tree_like_indent(lines: List[Text]) -> List[Text]:
         previous_first_non_whitespace = first_non_whitespace
         line = line[0:first_non_whitespace - 4] + '└── ' + line[first_non_whitespace:]
         result.append(line)
-    if result[-1].startswith('│'):
+    if result and result[-1].startswith('│'):
         result[-1] = ' ' + result[-1][1:]
     # TODO(wjwwood): figure out how to handle remaining cases like how to fix this sample:
     # ├── OnProcessExit(...)
-- 
2.43.0


From 2b34e6d09f7d16f8aee61a6a15a7391bd7b00b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:34 +0000
Subject: [PATCH 69/74] fix: describe OrSubstitution by its own name

---
 launch/launch/substitutions/boolean_substitution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/substitutions/boolean_substitution.py b/launch/launch/substitutions/boolean_substitution.py
index f3e34de..e1c024c 100644
--- a/launch/launch/substitutions/boolean_substitution.py
+++ b/launch/launch/substitutions/boolean_substitution.py
@@ -141,7 +141,7 @@ class OrSubstitution(Substitution):
 
     def describe(self) -> Text:
         """Return a description of this substitution as a string."""
-        return f'AndSubstitution({self.left} {self.right})'
+        return f'OrSubstitution({self.left} {self.right})'
 
     def perform(self, context: LaunchContext) -> Text:
         """Perform the substitution."""
-- 
2.43.0


From d508756f1960ee60581763ee720c9f53ca81bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:34 +0000
Subject: [PATCH 70/74] fix: let a legacy output test fail when not all of its
 output matched

---
 launch_testing/launch_testing/legacy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/__init__.py b/launch_testing/launch_testing/legacy/__init__.py
index bfe094a..19020c7 100644
--- a/launch_testing/launch_testing/legacy/__init__.py
+++ b/launch_testing/launch_testing/legacy/__init__.py
@@ -213,7 +213,8 @@ class LaunchTestService():
                 process_name = action.process_details['name']
                 reason = 'not all {} output matched!'.format(process_name)
                 self._fail(test_name, reason)
-            self._succeed(test_name, side_effect)
+            else:
+                self._succeed(test_name, side_effect)
 
         launch_description.add_action(
             RegisterEventHandler(OnShutdown(on_shutdown=on_shutdown))
-- 
2.43.0


From 5c871cb2d0bea30eea2d0422366bb412fc2125a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:34 +0000
Subject: [PATCH 71/74] fix: filter every line of a legacy test's output by the
 given patterns and keep the other lines as they are

---
 launch_testing/launch_testing/legacy/output.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index 78d8cf0..01cc0f1 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -62,8 +62,8 @@ def create_output_lines_filter(
     :param filtered_rmw_implementation: RMW implementation for which the output will be
     ignored in addition to the `filtered_prefixes`/`filtered_patterns`.
     """
-    filtered_prefixes = filtered_prefixes or get_default_filtered_prefixes()
-    filtered_patterns = filtered_patterns or get_default_filtered_patterns()
+    filtered_prefixes = list(filtered_prefixes or get_default_filtered_prefixes())
+    filtered_patterns = list(filtered_patterns or get_default_filtered_patterns())
     if filtered_rmw_implementation:
         filtered_prefixes.extend(get_rmw_output_filter(
             filtered_rmw_implementation, 'prefixes'
@@ -71,22 +71,19 @@ def create_output_lines_filter(
         filtered_patterns.extend(get_rmw_output_filter(
             filtered_rmw_implementation, 'patterns'
         ))
-    filtered_patterns = map(re.compile, filtered_patterns)
-    encoded_line_sep = os.linesep.encode('ascii')
+    filtered_patterns = [re.compile(pattern) for pattern in filtered_patterns]
 
     def _filter(output):
         filtered_output = []
-        for line in output.splitlines():
+        for line, ended_line in zip(output.splitlines(), output.splitlines(keepends=True)):
             # Filter out stdout that comes from underlying DDS implementation
             # Note: we do not currently support matching filters across multiple stdout lines.
             if any(line.startswith(prefix) for prefix in filtered_prefixes):
                 continue
             if any(pattern.match(line) for pattern in filtered_patterns):
                 continue
-            filtered_output.append(line)
-        if output.endswith(encoded_line_sep):
-            filtered_output.append(encoded_line_sep)
-        return encoded_line_sep.join(filtered_output)
+            filtered_output.append(ended_line)
+        return b''.join(filtered_output)
     return _filter
 
 
-- 
2.43.0


From c6641aec7834105403ea4f453441516d20056641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:34 +0000
Subject: [PATCH 72/74] fix: keep the line ends between pieces of output that a
 legacy test matches

---
 launch_testing/launch_testing/legacy/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index 01cc0f1..6d609de 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -103,6 +103,8 @@ def create_output_regex_test(expected_patterns):
     """Create output test given a list of expected matching regular expressions."""
     def _collate(output, addendum):
         output.write(b'\n'.join(addendum.splitlines()))
+        if addendum.endswith((b'\n', b'\r')):
+            output.write(b'\n')
         return output
 
     def _match(output, pattern):
-- 
2.43.0


From d58fff7046241c6c3afbf1f1a1b6a5e018ce275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:41 +0000
Subject: [PATCH 73/74] fix: describe the environment of a process that was
 executed

---
 launch/launch/launch_introspector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/launch/launch/launch_introspector.py b/launch/launch/launch_introspector.py
index a60aa37..4b2049d 100644
--- a/launch/launch/launch_introspector.py
+++ b/launch/launch/launch_introspector.py
@@ -108,14 +108,18 @@ def format_action(action: Action) -> List[Text]:
         return ["EmitEvent(event='{}')".format(cast(EmitEvent, action).event.name)]
     elif is_a(action, ExecuteProcess):
         typed_action = cast(ExecuteProcess, action)
+        env = typed_action.env
+        if isinstance(env, dict):
+            # Once the process was executed, this is its final environment.
+            env = list(env.items())
         msg = 'ExecuteProcess(cmd=[{}], cwd={}, env={}, shell={})'.format(
             ', '.join([format_substitutions(x) for x in typed_action.cmd]),
             typed_action.cwd if typed_action.cwd is None else "'{}'".format(
                 format_substitutions(typed_action.cwd)
             ),
-            typed_action.env if typed_action.env is None else '{' + ', '.join(
+            env if env is None else '{' + ', '.join(
                 ['{}: {}'.format(format_substitutions(k), format_substitutions(v))
-                 for k, v in typed_action.env]) + '}',
+                 for k, v in env]) + '}',
             typed_action.shell,
         )
         return [msg]
-- 
2.43.0


From 46326e9d800bc7d24dc3035b75c396ed790e43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:26 +0000
Subject: [PATCH 74/74] fix: accept a default of several parts for an argument
 with choices

---
 launch/launch/actions/declare_launch_argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/actions/declare_launch_argument.py b/launch/launch/actions/declare_launch_argument.py
index ab85e42..5937125 100644
--- a/launch/launch/actions/declare_launch_argument.py
+++ b/launch/launch/actions/declare_launch_argument.py
@@ -127,7 +127,7 @@ class DeclareLaunchArgument(Action):
                     'Provided choices arg is empty. Use None to ignore the choice list.')
 
             # Check if a non substitution default value is provided and is a valid choice
-            if default_value is not None and not isinstance(default_value, (Substitution, list)):
+            if isinstance(default_value, str):
                 if default_value not in choices:
                     self.__logger.error(
                         'Provided default_value "{}" is not in provided choices "{}".'.format(
-- 
2.43.0

