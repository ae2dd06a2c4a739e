#!/usr/bin/env python3
"""Writes properties.jsonl (and, through gen_manifest.py, MANIFEST.json) from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'launch/launch/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [],
                     **({'state': state} if state else {}),
                     hook_needed=None)))


NOTEST = ('Only a type-check runs here, and the upstream unit tests sample a handful of concrete '
          'values; ')

prop('C01', 'Scoped launch configurations and environment are restored exactly',
     'Restoring a saved scope of launch configurations (or of environment variables) gives back exactly '
     'the names and values that held when the scope was saved, whatever was set, changed or removed in '
     'between and however deeply scopes nest, and the configurations and the environment never affect one '
     'another. Saving a scope changes nothing visible, resetting the environment gives back the variables '
     'that existed when the launch context was created, and restoring without a saved scope is a '
     'RuntimeError that changes nothing.',
     ['histories', 'inputs'],
     'every starting content of configurations and environment, every sequence of set/unset/clear/append '
     'operations inside the scope, every nesting depth of saved scopes',
     NOTEST + 'the guarantee is over all contents and all operation histories, including aliasing between '
     'a saved copy and the live mapping.',
     [L + 'launch_context.py', L + 'actions/push_launch_configurations.py',
      L + 'actions/pop_launch_configurations.py', L + 'actions/push_environment.py',
      L + 'actions/pop_environment.py', L + 'actions/reset_environment.py'],
     [('copy on save, replace on restore', 'LaunchContext._push_*/_pop_*'),
      ('clear+update of os.environ', 'LaunchContext._pop_environment/_reset_environment')],
     ['LaunchContext.launch_configurations', 'LaunchContext.environment'])

prop('C02', 'Group actions scope, forward and preset launch configurations as documented',
     'A scoped group runs its actions in order between saving and restoring both launch configurations and '
     'environment, so nothing set inside survives it; an unscoped group runs its actions in the surrounding '
     'scope, where its changes persist. With forwarding the preset launch configurations are set inside the scope on top '
     'of the existing ones; without forwarding the environment is reset to the initial one and only the presets, evaluated against '
     'the surrounding configurations before those are cleared, are visible.',
     ['inputs', 'configurations'],
     'every list of actions, every set of preset configurations, all four scoped/forwarding combinations, '
     'every surrounding configuration and environment',
     NOTEST + 'order and completeness of the bracketing must hold for lists and presets of any size.',
     [L + 'actions/group_action.py', L + 'actions/reset_launch_configurations.py'],
     [('bracketing list', 'GroupAction.get_sub_entities'),
      ('evaluate before clear', 'ResetLaunchConfigurations.execute')],
     ['the entities returned when the group is visited'])

prop('C03', 'Context locals: locals override globals, and saved locals are restored',
     'Reading the locals of a launch context always gives the current globals overridden by the current locals, '
     'immediately after any extension of either, with the most recent extension winning. Restoring previously saved '
     'locals gives exactly the locals at the time of saving, while extensions of the globals persist; restoring '
     'without a saved copy is a RuntimeError.',
     ['histories', 'inputs'],
     'every sequence of extend-globals, extend-locals, save, restore and read operations over any names and values',
     NOTEST + 'staleness of the combined view only shows in particular interleavings of reads and writes.',
     [L + 'launch_context.py', L + 'substitutions/local_substitution.py'],
     [('combined view cache', 'LaunchContext._get_combined_locals/_clear_combined_locals_cache'),
      ('locals stack', 'LaunchContext._push_locals/_pop_locals')],
     ['LaunchContext.locals', 'LaunchContext.get_locals_as_dict'])

prop('C04', 'Each event reaches exactly the handlers registered when it was taken, in order',
     'When an event is processed, every handler registered at that moment is asked whether it matches, in registration-list '
     'order, and each matching one is invoked exactly once with that event, regardless of handlers added or removed meanwhile. '
     'All entities a handler returns, whether one entity, none or a sequence, are visited in order before the next handler is asked, '
     'with the context locals restored after each handler; a returned non-entity is a RuntimeError.',
     ['inputs', 'histories', 'programs'],
     'any number of registered handlers, any matching pattern, any handler results and any registrations or '
     'removals made while the event is handled',
     NOTEST + 'the guarantee is over all handler lists and all mutations made during dispatch.',
     [L + 'launch_service.py', L + 'launch_context.py', L + 'event_handler.py'],
     [('snapshot of the handler list and per-handler locals bracket', 'LaunchService.__process_event')],
     ['handler invocations, visited entities, context locals'])

prop('C05', 'Event handler registration order, removal, matching and one-shot handlers',
     'Registering a handler puts it in front of all registered ones, or behind all of them when appending is requested, and '
     'unregistering removes that registration only; a context reports that an event would be handled exactly when some '
     'registered handler matches it. Each kind of handler matches exactly the events of its kind, and only those of its target if it has one. '
     'A handler makes the event visible in the context locals '
     'while it is handled and returns its entities in order, and a one-shot handler unregisters '
     'itself the first time it handles a matching event, so it is invoked at most once.',
     ['histories', 'inputs'],
     'every sequence of registrations and removals and every event',
     NOTEST + 'ordering and one-shot behaviour must hold for every registry content.',
     [L + 'launch_context.py', L + 'event_handler.py', L + 'event_handlers/on_action_event_base.py',
      L + 'actions/register_event_handler.py', L + 'actions/unregister_event_handler.py'],
     [('deque of handlers', 'LaunchContext.register_event_handler/unregister_event_handler/would_handle_event'),
      ('one-shot', 'BaseEventHandler.handle'),
      ('handlers bound to one action', 'OnActionEventBase')],
     ['LaunchContext._event_handlers order, handler results'])

prop('C06', 'Entity trees are visited depth-first in order and no pending work is lost',
     'Visiting an entity visits it once, then its returned sub-entities recursively and in order before any '
     'later sibling. Every asynchronous completion handle reported by any visited entity is returned, paired with that '
     'entity, in visit order and exactly once; a run also waits for those reported before visiting a later entity failed.',
     ['programs', 'inputs'],
     'every finite entity tree, every pattern of completion handles',
     NOTEST + 'the guarantee is over trees of every shape and size.',
     [L + 'utilities/visit_all_entities_and_collect_futures_impl.py', L + 'launch_description.py'],
     [('recursion', 'visit_all_entities_and_collect_futures')],
     ['visit order, returned (entity, future) pairs'])

prop('C07', 'Conditions gate actions, and completion is announced exactly once',
     'An action is executed when it is visited exactly if it has no condition or its condition evaluates to true for the '
     'context, and its result is passed on unchanged. Each execution, even one that raises, announces completion of that action '
     'exactly once, only to interested handlers, immediately if no asynchronous work is pending and otherwise when that work '
     'finishes; an action that is not executed announces nothing.',
     ['inputs', 'schedules'],
     'every action, condition result, execution outcome (result or exception), pending-work state and handler set',
     NOTEST + 'the exceptional and asynchronous paths are combinations tests do not enumerate.',
     [L + 'action.py', L + 'condition.py', L + 'event_handlers/on_execution_complete.py'],
     [('try/finally around execute', 'Action.visit')],
     ['executions, emitted completion events'])

prop('C08', 'Condition expressions accept exactly the documented true/false spellings',
     'A condition expression is expanded, stripped of surrounding white space and lower-cased; true and 1 mean true, false and 0 mean '
     'false and anything else, including the empty string, is an invalid-condition error for both the if and the unless form, which are exact '
     'negations of one another. A launch-configuration comparison condition holds exactly when the configuration is set '
     'and equal to the expanded expected value, or when it is unset and no value is expected, and the not-equals form is its exact negation.',
     ['inputs'],
     'every expression text, every configuration mapping',
     NOTEST + 'the equivalence is over all strings.',
     [L + 'conditions/evaluate_condition_expression_impl.py', L + 'conditions/if_condition.py',
      L + 'conditions/unless_condition.py', L + 'conditions/launch_configuration_equals.py',
      L + 'conditions/launch_configuration_not_equals.py'],
     [('membership in the two literal lists', 'evaluate_condition_expression')],
     ['Condition.evaluate'])

prop('C09', 'Declared launch arguments: given value wins, default otherwise, choices enforced',
     'Executing a declared launch argument leaves an already given value untouched; if none is given it stores the expanded default, and '
     'if there is no default it is an error that stores nothing. If choices are declared, execution succeeds only when the resulting value is one '
     'of them, and a textual default that is not one of the choices is rejected when the argument is declared, as are no choices at all. '
     'The description of an argument is the one given and tells the choices.',
     ['inputs', 'configurations'],
     'every name, default, choice list and prior configuration',
     NOTEST + 'tests sample single values per branch.',
     [L + 'actions/declare_launch_argument.py'],
     [('execute and constructor validation', 'DeclareLaunchArgument')],
     ['LaunchContext.launch_configurations after execution'])

prop('C10', 'Included launch files receive their arguments and required ones are checked',
     'Executing an include sets every given argument, in the given order and with later ones overriding earlier ones, before the '
     'included description is visited, and marks the included file and directory as the current ones. It fails with an error naming the argument if, and only if, the included '
     'description unconditionally declares an argument that has no default and that is given neither explicitly to this include '
     'nor explicitly by an include on the way to that declaration, as far as the names they give are known beforehand.',
     ['inputs', 'configurations', 'programs'],
     'every argument list, every declared-argument set, every nesting of includes, every configuration',
     NOTEST + 'the equivalence is over all argument sets and include structures.',
     [L + 'actions/include_launch_description.py', L + 'launch_description.py', L + 'launch_description_source.py'],
     [('required-argument check and argument actions', 'IncludeLaunchDescription.execute')],
     ['entities returned by the include, RuntimeError'])

prop('C11', 'Actions that change configurations or environment change exactly what they name',
     'Setting, unsetting or appending to a launch configuration or an environment variable affects exactly the named entry, with the expanded name '
     'and value, and leaves every other entry of both mappings as it was; unsetting something absent is harmless. Appending or prepending joins the old and new '
     'value with the separator, using just the new value when there was none, and resetting the launch configurations evaluates the given ones against '
     'the old contents and then leaves exactly those.',
     ['inputs', 'histories'],
     'every mapping content, name, value and separator',
     NOTEST + 'the frame condition (nothing else changes) is over all mapping contents.',
     [L + 'actions/set_launch_configuration.py', L + 'actions/unset_launch_configuration.py',
      L + 'actions/set_environment_variable.py', L + 'actions/unset_environment_variable.py',
      L + 'actions/append_environment_variable.py', L + 'actions/reset_launch_configurations.py'],
     [('execute methods', 'actions/*.py')],
     ['LaunchContext.launch_configurations', 'LaunchContext.environment'])

prop('C12', 'Substitutions evaluate to their documented value for every input',
     'A sequence of substitutions expands to the concatenation of the expansions of its parts in order; launch-configuration, environment-variable '
     'and local look-ups give the current value, else the expanded default, else an error, with an absent entry distinguished from an empty one. Boolean, comparison and '
     'if-else substitutions implement their truth tables over the documented true/false spellings and reject anything else, and path-join joins '
     'its expanded parts in order with the platform separator. An anonymous name is the same one for the same text within a launch and differs for different texts; a command gives its output and fails as its handling of errors says; file content, executables, Python expressions, the log directory and the current launch file are those of the expanded arguments, and what does not exist is an error. A substitution written as $(name arguments) in a launch file has the same value, and a wrong name or number of arguments is an error.',
     ['inputs', 'configurations'],
     'every list of parts, every context content, every operand text',
     NOTEST + 'truth tables and orders must hold for lists of any length and all strings.',
     [L + 'utilities/perform_substitutions_impl.py', L + 'utilities/normalize_to_list_of_substitutions_impl.py',
      L + 'substitutions/launch_configuration.py', L + 'substitutions/environment_variable.py',
      L + 'substitutions/boolean_substitution.py', L + 'substitutions/equals_substitution.py',
      L + 'substitutions/not_equals_substitution.py', L + 'substitutions/if_else_substitution.py',
      L + 'substitutions/path_join_substitution.py', L + 'substitutions/local_substitution.py'],
     [('perform methods', 'substitutions/*.py')],
     ['perform results'])

prop('C13', 'Typed values coming from text have the requested type or are rejected',
     'Coercing text or values to a requested type gives an instance of exactly that type (element-wise for lists, with uniform element type) or raises, never a value '
     'of another type; booleans and numbers are never silently confused. Without a requested type text becomes the int, float, bool or '
     'string that its YAML reading denotes, and coercing a substitution is the same as coercing the text it expands to.',
     ['inputs'],
     'every text and every supported target type or list type',
     NOTEST + 'the type guarantee is over all strings and values.',
     [L + 'utilities/type_utils.py', L + 'frontend/type_utils.py'],
     [('coercion', 'coerce_to_type/get_typed_value/is_instance_of'),
      ('typed substitutions', 'perform_typed_substitution/normalize_typed_substitution')],
     ['returned values'])

prop('C14', 'Launch files with unread attributes or children are rejected',
     'When a launch file is parsed through a frontend, an attribute or child element that nothing consumed makes the parse fail, in XML and in YAML alike, and a '
     'file all of whose attributes and children were consumed is not rejected on that account. Reading an attribute returns '
     'its value with the requested type, returns nothing for an absent optional one, and raises for an absent required one or one of the wrong type.',
     ['inputs', 'programs'],
     'every element with any set of attributes and children and every subset of them read',
     NOTEST + 'the equivalence is over all elements and read subsets.',
     ['launch_xml/launch_xml/entity.py', 'launch_yaml/launch_yaml/entity.py', L + 'frontend/entity.py', L + 'frontend/parser.py'],
     [('read tracking', 'Entity.get_attr/children/assert_entity_completely_parsed'),
      ('calls after parse', 'Parser.parse_action/parse_description/parse_substitution')],
     ['ValueError/AttributeError on parse'])

prop('C15', 'A launch run ends when idle or shut down and reports errors in its return code',
     'A run keeps going while any event is queued or any asynchronous work is unfinished, and ends once it is idle after shutdown was requested; '
     'with shutdown-when-idle it requests shutdown itself as soon as it is idle. The first shutdown request to the service in a run emits one shutdown event, '
     'further requests are ignored, requests outside a run do nothing, and the return code is nonzero exactly if an error occurred or the run was cancelled.',
     ['histories', 'schedules'],
     'every sequence of loop iterations, completions, exceptions and shutdown requests',
     NOTEST + 'the loop invariant is over histories of any length.',
     [L + 'launch_service.py'],
     [('run loop', 'LaunchService.run_async'), ('idle test', 'LaunchService._is_idle'),
      ('shutdown flag', 'LaunchService._shutdown')],
     ['return code, emitted shutdown events'])

prop('C16', 'Emitted events are neither lost, duplicated nor reordered',
     'Events emitted before or during a run, synchronously, asynchronously, by an action or through the service from any thread, are all queued in emission order and are '
     'processed once each in that order, by a run and not outside of one. Starting a run carries over every event that was queued beforehand, in order, onto the queue used '
     'by the run, however the run before it ended.',
     ['histories', 'inputs'],
     'every number of events queued before and during the run',
     NOTEST + 'the guarantee is over queues of any length.',
     [L + 'launch_service.py', L + 'launch_context.py', L + 'actions/emit_event.py'],
     [('queue re-creation', 'LaunchService._prepare_run_loop'), ('emit', 'LaunchContext.emit_event*/LaunchService.emit_event')],
     ['order of processed events'])

prop('C17', 'Process shutdown escalates SIGINT, SIGTERM, SIGKILL and signals only its target',
     'On shutdown an unfinished process gets SIGINT (unless the interrupt already reached it because shutdown came from ctrl-c in an interactive session), then SIGTERM after the '
     'configured SIGTERM timeout and SIGKILL after the further SIGKILL timeout, and both timers are cancelled if the process finishes first. Signals are sent only '
     'to the process that the event targets, only while it is running, and never after it has finished.',
     ['histories', 'inputs', 'schedules'],
     'every process state, shutdown cause, timeout and event history',
     NOTEST + 'the state/event combinations are not enumerated by tests.',
     [L + 'actions/execute_local.py', L + 'event_handlers/on_shutdown.py', L + 'events/process/process_matchers.py'],
     [('shutdown handler', 'ExecuteLocal.__on_shutdown/_shutdown_process/__get_shutdown_timer_actions'),
      ('signal handler', 'ExecuteLocal.__on_signal_process_event')],
     ['signals delivered to the subprocess transport, timers started and cancelled'])

prop('C18', 'Executed processes start, exit and respawn as configured and always complete',
     'Each executed process announces its start before its exit, and its exit exactly once per run with the actual return code, except that nothing is announced for a process '
     'that never started. It is restarted only while respawn is enabled, the launch is not shutting down and the respawn limit is not exceeded, and its completion is reported '
     'exactly once, however the execution ends, including failures to start.',
     ['histories', 'fault_sequences', 'schedules'],
     'every outcome of starting and running the process, every respawn configuration, shutdown at any await',
     NOTEST + 'failure paths and shutdown at arbitrary suspension points are not enumerated by tests.',
     [L + 'actions/execute_local.py'],
     [('coroutine', 'ExecuteLocal.__execute_process'), ('cleanup', 'ExecuteLocal.__cleanup')],
     ['emitted process events, the completion future'])

prop('C19', 'Process output is emitted as whole lines, complete and in order, for any chunking',
     'For every way the operating system splits a process output stream into chunks, the lines logged for stdout and for stderr, concatenated, are exactly '
     'the bytes received on that stream, in order and separately per stream; every logged line is one complete line. '
     'Text after the last newline is logged when the process exits, and nothing is logged twice.',
     ['inputs', 'schedules'],
     'every sequence of chunks on both streams, including empty ones, chunks without newline and many newlines',
     NOTEST + 'the guarantee is over all chunkings.',
     [L + 'actions/execute_local.py'],
     [('line buffering', 'ExecuteLocal.__on_process_output'), ('flush', 'ExecuteLocal.__flush_buffers')],
     ['messages passed to the output loggers'])

prop('C20', 'Timers fire once after their period unless cancelled first, and always complete',
     'An executed timer fires exactly one event after its period unless it was cancelled before, in which case it never fires; either way its completion is reported '
     'exactly once. Cancelling is possible any number of times and at any moment, before, during or after the wait, and shutdown cancels the timer exactly if so configured; when it '
     'fires, its actions run with the context locals captured when it was started.',
     ['histories', 'schedules'],
     'every order of execute, cancel, timeout and shutdown',
     NOTEST + 'all interleavings of cancel and expiry must be covered.',
     [L + 'actions/timer_action.py'],
     [('wait', 'TimerAction._wait_to_fire_event'), ('cancel', 'TimerAction.cancel'), ('start', 'TimerAction.execute')],
     ['emitted timer events, completion future'])

prop('C21', 'Signal handlers are dispatched per signal and restored afterwards',
     'Each received signal that the loop reads while a signal manager is active is passed once to the handler last registered with it for exactly that signal and to no other, even if '
     'other handlers raise, and is forwarded once to the wake-up descriptor set before. Registering returns the handler it replaces. After the manager is left, normally or by an exception, the wake-up descriptor and the signal dispositions it changed are the previous ones.',
     ['histories', 'inputs'],
     'every sequence of registrations, removals and received signal batches',
     NOTEST + 'the guarantee is over all registration histories and batches.',
     [L + 'utilities/signal_management.py'],
     [('wakeup fd protocol', 'AsyncSafeSignalManager')],
     ['handler calls, signal.set_wakeup_fd'])

prop('C22', 'Output configuration routes each process stream to exactly the configured targets',
     'For every supported output configuration a process stream is written to exactly the configured targets, screen, the main log, its own log or the combined log, and to no other. '
     'A preset name or a partial mapping is expanded to its documented meaning, an unspecified stream produces no output beyond what was configured, and an invalid configuration is rejected.',
     ['configurations', 'inputs'],
     'every preset and every mapping of sources to target sets',
     NOTEST + 'tests try single configurations, not the product space.',
     [L + 'logging/__init__.py', L + 'logging/handlers.py'],
     [('normalization', '_normalize_output_configuration'), ('handlers', 'get_output_loggers')],
     ['handlers attached to the returned loggers'])

prop('C23', 'Text matching helpers accept exactly the matching output',
     'Text matchers accept exactly the output that contains, or starts, the expected text in the requested mode: substring, regular expression, whole line or sequence of lines, strict or not. '
     'Sequential assertions succeed only if the expected texts occur in the given order, each after the end of the previous match.',
     ['inputs'],
     'every expected text and every actual text',
     NOTEST + 'the equivalence is over all pairs of texts.',
     ['launch_testing/launch_testing/tools/text.py', 'launch_testing/launch_testing/tools/output.py',
      'launch_testing/launch_testing/asserts/assert_sequential_output.py',
      'launch_testing/launch_testing/asserts/assert_output.py'],
     [('matchers', 'build_text_match/build_line_match'), ('sequential', 'SequentialTextChecker')],
     ['match results, assertion errors'])

prop('C24', 'Process look-up, exit-code assertions and captured output are faithful',
     'A process look-up yields exactly the processes designated by the given name, arguments or action, and reports an error when none or, in strict mode, more than one matches. Exit-code assertions succeed '
     'exactly when every designated process exited with an allowed code; captured output and exit information are returned completely and in arrival order per process, and waiting succeeds exactly when the awaited event has happened.',
     ['inputs', 'histories'],
     'every set of recorded processes and every look-up key',
     NOTEST + 'the equivalence is over all process sets.',
     ['launch_testing/launch_testing/util/proc_lookup.py', 'launch_testing/launch_testing/asserts/assert_exit_codes.py',
      'launch_testing/launch_testing/io_handler.py', 'launch_testing/launch_testing/proc_info_handler.py'],
     [('look-up', 'resolveProcesses'), ('capture', 'IoHandler/ProcInfoHandler')],
     ['returned processes, raised errors'])

prop('C25', 'Test results and readiness are aggregated without losing or inventing any',
     'A combined test result is successful exactly when every part is, and counts every run, failure, error and skip of every part once, and a report written from it contains each case once with its true outcome. '
     'A readiness aggregate signals ready exactly once, when the last of its actions became ready.',
     ['inputs', 'histories'],
     'every collection of results and every order of readiness',
     NOTEST + 'the aggregation must hold for collections of any size.',
     ['launch_testing/launch_testing/test_result.py', 'launch_testing/launch_testing/junitxml.py',
      'launch_testing/launch_testing/ready_aggregator.py'],
     [('aggregation', 'TestResult.append'), ('report', 'unittestResultsToXml'), ('readiness', 'ReadyAggregator')],
     ['TestResult fields, the XML report, callbacks'])

prop('C26', 'Argument discovery lists each declared launch argument of a description',
     'Asking a launch description for its arguments lists each argument declared in it, through nested groups, conditions, '
     'includes that can be loaded beforehand, timers and the entities that event handlers describe, once per name, in order of '
     'first appearance, each with exactly the chain of includes that leads to it, and lists no argument that is not declared. '
     'Entities that follow a reset of the launch configurations in the same list are not searched. A listed declaration is marked '
     'conditionally included exactly if its own condition or a conditional entity around it decides whether it is visited, or the '
     'whole description was said to be included conditionally.',
     ['programs', 'inputs'],
     'every tree of entities with any nesting of includes and conditions',
     NOTEST + 'the guarantee is over trees of every shape.',
     [L + 'launch_description.py', L + 'actions/declare_launch_argument.py'],
     [('collection', 'LaunchDescription.get_launch_arguments_with_include_launch_description_actions')],
     ['returned argument list'])

prop('C27', 'Executables run with exactly the command line, environment, directory and name described',
     'A process is started with the words of its prefix, if one is given or the launch-prefix configuration applies by its filter, followed by each '
     'part of its command and each extra argument expanded as one argument each, all by the configurations at the time it is executed. Its environment is the one '
     'given, else a copy of that of the launch, with the additional variables on top, its directory is the one given, and its '
     'name, the one given or else that of the program, is made unique by a number. A command text in a launch file is split into words as '
     'a shell does, and what a substitution in it gives is never split.',
     ['inputs', 'configurations'],
     'every number of parts and arguments, every configuration and environment, every combination of options',
     NOTEST + 'the command line must be right for any parts, prefixes and configurations, which tests sample once or twice.',
     [L + 'descriptions/executable.py', L + 'actions/execute_process.py', L + 'actions/execute_local.py'],
     [('expansion', 'Executable.prepare'), ('command texts', 'ExecuteProcess._parse_cmdline'), ('start', 'ExecuteLocal.__execute_process')],
     ['final_cmd, final_env, final_cwd, final_name; the arguments of the process started'])

prop('C28', 'Launch files are loaded by the frontend of their format, else by any that accepts them',
     'A launch file is read from its start by the registered frontends one after the other, first those whose extensions the name of the file '
     'ends with, then all others, each group by name, and the first that accepts it gives the entity and the parser. A source for any format tries '
     'Python first for files ending in .py and last for others; one for a specific format or parser uses only that. Only if none accepts the file is an '
     'error raised, one that names every error if the format is known. A file that was opened is closed, a file object that was '
     'given is left open; a Python launch file is run once and what its generate_launch_description returns is the description. A source expands '
     'its location and loads the file when first asked, and only then.',
     ['inputs', 'histories'],
     'every content and name of a file, every set of registered frontends and which of them accept the file',
     NOTEST + 'the order matters only for files that several accept, and rewinding only after a frontend failed half way, which no test samples.',
     [L + 'frontend/parser.py', L + 'launch_description_sources', 'launch_xml/launch_xml/parser.py', 'launch_yaml/launch_yaml/parser.py'],
     [('frontends', 'Parser.load'), ('any format', 'get_launch_description_from_any_launch_file'), ('Python', 'get_launch_description_from_python_launch_file'),
      ('source', 'LaunchDescriptionSource.get_launch_description')],
     ['entity, parser and launch description returned; errors raised'])

prop('C29', 'Every test of a launch test runs in its phase, once per set of parameters, with the arguments it asks for',
     'The tests of a launch test file run once for each set of parameters, with cases of their own: the tests of classes marked as post-shutdown tests after the '
     'shutdown and all others before it, their names ending with the parameters if there are any. The function that describes the launch is called with the '
     'parameters of the run, by name, and its markers and timeout apply to the run. Each test, setUp, tearDown, setUpClass and tearDownClass '
     'gets exactly those of the available values that its parameters name. The tests start when a ReadyToTest action of the description, however deeply '
     'nested, is executed; without one the description is rejected. A test to be retried is attempted until it passes or the given number of times, and only '
     'its last attempt counts, which leaves what other tests recorded alone. An argument <name>:=<value> is split at the first := and the last value of a name '
     'counts; any other argument is an error. launch_test returns 0 exactly if every run succeeded.',
     ['inputs', 'histories'],
     'every set of parameters, every module of tests, every number of attempts and outcome of each, every list of arguments',
     NOTEST + 'attempts and problems recorded before them vary without bound, and tests only fail in the run of the user.',
     ['launch_testing/launch_testing/loader.py', 'launch_testing/launch_testing/parametrize.py', 'launch_testing/launch_testing/markers.py',
      'launch_testing/launch_testing/launch_test.py', 'launch_testing/launch_testing/parse_arguments.py'],
     [('loading', 'LoadTestsFromPythonModule'), ('arguments', 'TestRun.bind'), ('retries', 'retry_on_failure'), ('parameters', 'parametrize'),
      ('command line', 'parse_launch_arguments')],
     ['tests run, arguments they get, results recorded, return code'])

prop('C30', 'Each run logs to a directory of its own, in the configured format and from the configured level',
     'Unless a directory is given, the log files of a run go to a directory the run has made itself, which no other run uses, below $ROS_LOG_DIR, else '
     '$ROS_HOME/log, else ~/.ros/log, empty values counting as unset. Its path is absolute. It is made when first asked for and the same until logging is '
     'reset. The link latest next to it leads to it then; anything else of that name is left as it is, and a link that cannot be renewed is only '
     'warned about. A given directory is used as it is if it exists and rejected otherwise, which changes nothing. Screen and main log are '
     'written in the format last set, an alias standing for its format and taking no style, the one in the environment, with its escape sequences, coming '
     'first, whether or not they were in use before. The level applies to all loggers of launch. A reset brings back the defaults.',
     ['inputs', 'histories', 'schedules'],
     'every environment, every content of the log directory and what other runs do to it at the same moment, every format and style',
     NOTEST + 'other runs, the contents of the log directory and the environment are those of the user.',
     [L + 'logging/__init__.py'],
     [('where', '_get_logging_directory'), ('unique', '_make_unique_log_dir'), ('latest', '_renew_latest_log_dir'), ('once', 'LaunchConfig.log_dir'),
      ('formats', 'LaunchConfig.set_screen_format, set_log_format')],
     ['directories and links made, paths returned, lines written'])

prop('C31', 'A test run by pytest runs in its phase of the launch of its own fixture, and every failure fails it',
     'The tests of a launch_pytest fixture begin once the one ReadyToTest action of its description, however deeply nested, has been executed; one is added if '
     'there is none. With more than one, with a result that is no launch description, or if the launch finishes first, all tests of the fixture error and no '
     'description that is rejected is run. Functions, coroutines, generators and async generators run with their arguments while the launch runs; shutdown tests, '
     'and what follows the yield, once it has finished, in vain unless it finished well; the launch is shut down for it unless the fixture says otherwise. '
     'With a fixture of a class or module the second part is a test of its own, skipped if the first did not pass, and all shutdown tests follow the '
     'other tests of the same launch, tests otherwise keeping their order. A test passes exactly if no part of it raises and a generator yields once. A file with '
     'a launch_test is one test, which passes exactly if all runs do, tells every failure and gets the arguments of the command line.',
     ['inputs', 'histories'],
     'every kind of test, fixture and result, every order of being ready and finishing, every order of the tests',
     NOTEST + 'tests of users fail at any point and their launches end in any order, which the tests of a plugin that pass cannot show.',
     ['launch_pytest/launch_pytest/plugin.py', 'launch_pytest/launch_pytest/fixture.py', 'launch_testing/launch_testing/pytest/hooks.py',
      'launch_testing/launch_testing/actions/ready.py'],
     [('launch of a fixture', 'pytest_fixture_setup'), ('phases', 'pytest_pyfunc_call'), ('order', 'pytest_collection_modifyitems'),
      ('launch_testing', 'LaunchTestItem.runtest')],
     ['outcome of each test, what runs before and after the launch has finished'])

prop('C32', 'Waiting for output, start or exit of a process misses nothing and ends by its timeout',
     'A wait for the output of a process returns or passes as soon as what has been written so far, standard output or standard error as asked for, satisfies the '
     'function given, whenever it is written: before, while the function is asked, or later. No output of the process is missed, and output of others wakes no one. '
     'It is in vain only after the timeout, never waits longer than that however much is written, and without a timeout goes on until it is '
     'satisfied. Errors of the function are raised; with an assertion, AssertionErrors mean not yet, and the last output decides in the end. A wait for the start '
     'or exit tells whether it came within the time. In the end nothing is left registered. This is so in a thread of its own as well as in the loop.',
     ['inputs', 'schedules'],
     'every sequence of outputs and every moment they arrive at, every function of the output, every timeout',
     NOTEST + 'whether output is missed depends on the moment it arrives between two steps of another thread.',
     ['launch_pytest/launch_pytest/tools/process.py'],
     [('threads', '_wait_for_event_with_condition_sync'), ('loop', '_wait_for_event_with_condition'), ('events', '_wait_for_event, _wait_for_event_sync')],
     ['value returned or raised, when, handlers registered'])

prop('C33', 'An element of a launch file means the action that its attributes describe',
     'Each element of a launch file, in XML and in YAML alike, gives the action of its tag as constructed with exactly what its attributes and nested elements '
     'say: texts parsed into substitutions, empty ones included, numbers and truth values unchanged, zero and false included, nested elements '
     'all and in order, children as its actions. What is absent is left to the default of the action. The if or unless attribute is the condition of the action, '
     'whichever action it is. Both together, a text where a number or truth value that takes no substitutions is expected, a negative delay or timeout of a '
     'process and an on_exit other than shutdown are errors.',
     ['inputs'],
     'every element, every combination of its attributes and nested elements, every value, both formats',
     NOTEST + 'a value that is lost only matters when it is empty, zero or false, or given together with another one.',
     [L + 'actions/', L + 'action.py', L + 'frontend/expose.py', 'launch_xml/launch_xml/entity.py', 'launch_yaml/launch_yaml/entity.py'],
     [('attributes', '<action>.parse'), ('conditions', 'Action.parse'), ('construction', 'instantiate_action')],
     ['the action constructed'])

prop('C34', 'Function, coroutine, log and test actions do what they were given at every execution',
     'Each execution of a function action calls its function once, with the context and exactly the arguments it was given, in order, and passes on its result or '
     'error. Each execution of a coroutine action starts its coroutine once, with the context unless it is to be ignored and exactly the arguments given; it '
     'reports it as its pending work, and shutting down cancels every execution that is still running, while nothing else does. A log action logs one line to the '
     'log of the user, the expansion of its message in the context of that moment. A test action runs its command, and shuts its process down when '
     'its timeout has passed, unless the process exited before or no timeout was given. What is no function, no coroutine or no arguments is rejected.',
     ['inputs', 'histories'],
     'every function, every list of arguments, every message, every number of executions',
     NOTEST + 'only a second execution, or arguments of an unusual kind, show a difference.',
     [L + 'actions/opaque_function.py', L + 'actions/opaque_coroutine.py', L + 'actions/log_info.py', 'launch_testing/launch_testing/actions/test.py'],
     [('functions', 'OpaqueFunction.execute'), ('coroutines', 'OpaqueCoroutine.execute'), ('messages', 'LogInfo.execute'), ('tests', 'Test.execute')],
     ['calls and their arguments, tasks and whether they are cancelled, lines of the log'])

prop('C35', 'The description of a launch description lists everything in it, and describing does nothing else',
     'Formatting any launch description, also an empty one or one that has run, gives the description itself and then, in order, a line for each entity; below a '
     'registered event handler come its kind, with the event it waits for, and the entities it yields, in order, indented by their depth. Log messages, emitted events and the '
     'command, working directory, environment and shell flag of processes are given in full, substitutions by their own descriptions, in order and joined '
     'by plus signs. A substitution or a condition says what kind it is; those made of one name, path, command or expression also describe all of its parts. An action with '
     'a condition lists its sub entities as conditional, one without lists them as always included. Describing executes, performs, evaluates and '
     'changes nothing, and gives the same answer again.',
     ['inputs', 'programs'],
     'every tree of entities and handlers, every text and substitution in them',
     NOTEST + 'the description must hold for every tree, and that describing does not use up what is described shows only when it is run afterwards.',
     [L + 'launch_introspector.py', L + 'event_handler.py', L + 'event_handlers/on_action_event_base.py', L + 'action.py', L + 'substitutions/'],
     [('trees', 'LaunchIntrospector.format_launch_description'), ('actions', 'format_action'), ('handlers', 'describe of event handlers'),
      ('substitutions', 'describe of substitutions')],
     ['the formatted text', 'describe, describe_sub_entities, describe_conditional_sub_entities'])

prop('C36', 'The return code of a legacy launch test tells whether a test failed',
     'Running a legacy launch test service gives the return code of the launch if it is not zero, otherwise the code of the first test or fixture process that '
     'failed, otherwise 1 if any other test failed, otherwise 0. A test process fails by a non-zero code and a test action by its exception; either shuts '
     'the launch down at once, and the launch is shut down as well once no test is in progress, not before. A fixture process that exits with a code that is not allowed, '
     'before shutdown, fails the run. An output test passes as soon as each expected line or pattern was found in the filtered output so far, no matter how '
     'the output was cut into pieces, and fails if the launch shuts down before; it may ask for a shutdown when it passes. Output filters drop exactly the '
     'lines that begin with a given prefix or match a given pattern, every time, and leave the lists they were given as they were.',
     ['inputs', 'histories', 'schedules'],
     'every number of tests and fixtures, every return code, every order of their ends, every output and every way it is cut',
     NOTEST + 'the one upstream test passes; what a failure does is not tried at all.',
     ['launch_testing/launch_testing/legacy/__init__.py', 'launch_testing/launch_testing/legacy/output.py'],
     [('states of the tests', 'LaunchTestService._fail/_succeed/_finish/_drop'), ('output', 'LaunchTestService.add_output_test'),
      ('return code', 'LaunchTestService.run'), ('filters and matches', 'legacy/output.py')],
     ['LaunchTestService.run', 'shutdown events'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
