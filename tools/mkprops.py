"""Regenerates properties.jsonl (kept readable here, one P(...) per property)."""
import json
import os
OUT = []
L = 'launch/launch/'


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    OUT.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': None}})


P('C01', 'Each event is processed exactly once, in emission order, by the right handlers',
  'Every event emitted in a launch system is processed exactly once, in the order of emission (events carried over from before a run first), and one event is processed to the end, including visiting every entity its handlers return, before the next one starts. '
  'An event is given to exactly those event handlers that are registered when its processing starts and whose matcher accepts it, most recently registered first (a handler registered with append=True comes last), so a handler registered or unregistered while an event is processed only affects later events. '
  'Each matching handler handles the event once, and a handle_once handler handles one event in its life.',
  ['histories', 'inputs'], 'every program of emissions, registrations, unregistrations (from actions, handlers, timers, several descriptions) and every interleaving of them on one service',
  'tests register one or two handlers and emit one event; ordering, snapshot and exactly-once claims only show with many handlers mutated while events are in flight',
  [L + 'launch_service.py', L + 'launch_context.py', L + 'event_handler.py', L + 'actions/emit_event.py', L + 'actions/register_event_handler.py', L + 'actions/unregister_event_handler.py'],
  [('event queue and one-event-at-a-time task', L + 'launch_service.py:run_async/_process_one_event'), ('snapshot of the handlers', L + 'launch_service.py:__process_event'), ('registration order', L + 'launch_context.py:register_event_handler'), ('handle_once', L + 'event_handler.py:handle')],
  ['handle() of recording event handlers', 'execute() of recording actions'],
  [('event queue', 'events emitted and not processed yet', L + 'launch_context.py'), ('event handlers', 'registered handlers in dispatch order', L + 'launch_context.py')])

P('C02', 'Entities are visited depth-first, in order, once, gated by conditions',
  'Visiting a launch description visits its entities depth-first and in the order listed, each exactly once: what an entity yields is visited completely before the sibling that follows it. '
  'An action with a condition is executed if and only if the condition holds in the state at the moment the action is reached (IfCondition, UnlessCondition and the launch-configuration conditions; only true/1/false/0, ignoring case and surrounding blanks, are booleans and anything else is an error), and an action that is not executed has no effect of its own and yields nothing. '
  'For each executed action exactly one ExecutionComplete event is delivered to handlers registered for it, after its asynchronous work, if any, is over; none is delivered for an action that was not executed.',
  ['programs', 'inputs'], 'every tree of descriptions, groups, includes, opaque functions and conditioned actions, and every launch-configuration state the conditions can meet',
  'tests execute single actions by hand; nothing checks the whole trace of a nested description with conditions that depend on what earlier entities did',
  [L + 'utilities/visit_all_entities_and_collect_futures_impl.py', L + 'action.py', L + 'launch_description.py', L + 'conditions/evaluate_condition_expression_impl.py', L + 'actions/group_action.py', L + 'actions/opaque_function.py', L + 'event_handlers/on_execution_complete.py'],
  [('recursive visit', L + 'utilities/visit_all_entities_and_collect_futures_impl.py'), ('condition and ExecutionComplete', L + 'action.py:visit'), ('boolean expressions', L + 'conditions/')],
  ['execute() of recording actions', 'ExecutionComplete handlers', 'condition evaluation'])

P('C03', 'Targeted event handlers react to exactly their target and event',
  'OnProcessStart, OnProcessIO, OnProcessExit and OnExecutionComplete handlers with a target action (or matcher callable) react to every event of their kind that stems from that target and to no other event; without a target they react to every event of their kind. '
  'OnProcessIO calls the callback of the stream the event came from and no other, OnShutdown reacts to Shutdown events only, OnIncludeLaunchDescription to inclusion events only, and the process matchers (matches_action, matches_pid, matches_name, matches_executable) accept exactly the processes they describe. '
  'The actions given to such a handler (none, one, a list, or what its callable returns) are visited each time it handles an event.',
  ['programs', 'inputs'], 'every set of targets, handlers, and event sequences over them', 'tests use one process and one handler',
  [L + 'event_handlers/on_action_event_base.py', L + 'event_handlers/on_process_io.py', L + 'event_handlers/on_process_exit.py', L + 'event_handlers/on_process_start.py', L + 'event_handlers/on_execution_complete.py', L + 'event_handlers/on_shutdown.py', L + 'events/process/process_matchers.py'],
  [('event matcher built from class and action', L + 'event_handlers/on_action_event_base.py'), ('stream dispatch', L + 'event_handlers/on_process_io.py')],
  ['callbacks and actions of the handlers'])

P('C04', 'Context locals are scoped to the event being handled',
  'While the entities of an event handler are visited, the context locals contain the event being handled and whatever was added by actions of that handling; when the handling ends, normally or by an error, the locals are exactly what they were before it, for every later handler and event. '
  'Globals stay visible from everywhere and are shadowed by locals of the same name, and locals are read-only attributes. '
  'The actions of a timer see the locals captured when the timer was executed.',
  ['histories', 'programs'], 'every nesting of handlers, includes, timers and exceptions', 'tests check one push and one pop by hand',
  [L + 'launch_context.py', L + 'launch_service.py', L + 'event_handler.py', L + 'actions/timer_action.py', L + 'substitutions/local_substitution.py'],
  [('push/pop around each handler', L + 'launch_service.py:__process_event'), ('combined cache', L + 'launch_context.py:_get_combined_locals'), ('captured locals', L + 'actions/timer_action.py')],
  ['context.locals / get_locals_as_dict() / LocalSubstitution read inside recording actions'],
  [('locals stack', 'saved locals', L + 'launch_context.py'), ('combined locals cache', 'cached view of globals and locals', L + 'launch_context.py')])

P('C05', 'A scoped group leaves configurations and environment untouched outside',
  'After a scoped GroupAction has been visited, every launch configuration and every environment variable has exactly the value (or absence) it had before the group, whatever the group contained (balanced push and pop actions included); an unscoped group behaves as if its actions were listed in its place. '
  'Inside the group the given launch_configurations are set first; with forwarding=False the group sees exactly those given configurations, resolved against the surrounding launch configurations, and the environment the launch system started with. '
  'The same holds for every nesting of groups and includes.',
  ['programs', 'inputs'], 'every tree of groups (scoped, forwarding) whose leaves set, unset and append configurations and environment variables', 'tests cover a handful of fixed two-level trees',
  [L + 'actions/group_action.py', L + 'actions/push_launch_configurations.py', L + 'actions/pop_launch_configurations.py', L + 'actions/push_environment.py', L + 'actions/pop_environment.py', L + 'actions/reset_launch_configurations.py', L + 'actions/reset_environment.py', L + 'launch_context.py'],
  [('push and pop actions around the group content', L + 'actions/group_action.py:get_sub_entities'), ('stacks', L + 'launch_context.py')],
  ['context.launch_configurations and context.environment (and os.environ of child processes) at probe actions'],
  [('configuration stack', 'saved configurations', L + 'launch_context.py'), ('environment stack', 'saved environments', L + 'launch_context.py')])

P('C06', 'Configuration and environment actions change exactly what they name',
  'SetLaunchConfiguration, UnsetLaunchConfiguration, SetEnvironmentVariable, UnsetEnvironmentVariable and AppendEnvironmentVariable (with its prepend and separator options) change the one variable they name to the documented value, evaluated at execution time, and nothing else; reading through LaunchConfiguration and EnvironmentVariable substitutions and in child processes gives that value. '
  'Push and Pop actions for configurations and environment restore the complete state saved by the matching push, ResetEnvironment restores the environment the launch system was created with, and ResetLaunchConfigurations leaves exactly the given configurations, resolved before anything is cleared. '
  'A pop without a push is an error.',
  ['histories', 'inputs'], 'every sequence of these actions and arbitrary names and values', 'tests run fixed sequences of two or three actions',
  [L + 'actions/set_launch_configuration.py', L + 'actions/unset_launch_configuration.py', L + 'actions/set_environment_variable.py', L + 'actions/unset_environment_variable.py', L + 'actions/append_environment_variable.py', L + 'actions/reset_launch_configurations.py', L + 'actions/reset_environment.py', L + 'launch_context.py'],
  [('stack machine of configurations and environment', L + 'launch_context.py')],
  ['state probes after every action, child process environment'])

P('C07', 'Launch arguments reach included descriptions, or the launch fails loudly',
  'A declared launch argument keeps the value it was given and otherwise takes its default; a declared argument with neither, a value outside its choices, or an include that does not supply a required argument of the included description makes the launch fail instead of continuing. '
  'IncludeLaunchDescription sets the given arguments (resolved one after the other, in order, against the configurations of the including scope) before visiting the included entities as if they were listed in its place, and while they are visited the current launch file path and directory are those of the included file, and afterwards those of the including launch file again. '
  'LaunchDescription.get_launch_arguments (and the printed listing of arguments) reports every declaration reachable unconditionally or conditionally, and arguments which nested includes supply themselves are not demanded from an outer include.',
  ['programs', 'inputs'], 'every tree of includes, declarations (defaults, choices, conditions) and argument values', 'tests include one description once or twice',
  [L + 'actions/declare_launch_argument.py', L + 'actions/include_launch_description.py', L + 'launch_description.py', L + 'launch_description_source.py'],
  [('declaration checks', L + 'actions/declare_launch_argument.py:execute'), ('required-argument check', L + 'actions/include_launch_description.py:execute'), ('argument collection', L + 'launch_description.py')],
  ['launch configurations and locals at probe actions', 'return code', 'get_launch_arguments()'])

P('C08', 'A timer fires exactly once, after its period, unless cancelled',
  'The actions of a TimerAction are visited exactly once, not earlier than its period after it was executed and in order of expiry among timers, unless it is cancelled first, in which case they are never visited. '
  'TimerAction.cancel() works before execution, while waiting, and does nothing afterwards; on shutdown every pending timer is cancelled except those created with cancel_on_shutdown=False, and the launch system does not become idle while a timer is pending. '
  'The period may be a number or a substitution evaluated when the timer is executed.',
  ['schedules', 'histories', 'programs'], 'every set of timers, periods, cancellation points and shutdown moments', 'tests use one or two timers with real sleeps',
  [L + 'actions/timer_action.py', L + 'events/timer_event.py'],
  [('wait, cancel flag and timer event', L + 'actions/timer_action.py')],
  ['execution of the timer actions on a virtual clock', 'the timer future'])

P('C09', 'Shutdown is announced once and leaves nothing running',
  'Whatever triggers it (a Shutdown action or event, LaunchService.shutdown(), idleness, SIGINT, or an error), shutting down delivers one Shutdown event carrying the reason given to every shutdown handler (a further one only if a Shutdown action is executed again), and run() then returns in bounded time with every process it started terminated and reaped, and every pending timer and coroutine cancelled. '
  'No process is started after shutdown was announced, an idle service announces shutdown itself exactly once unless asked not to, and does so only when no event, action or process is outstanding. '
  'run() returns 0 if nothing went wrong.',
  ['schedules', 'programs', 'histories'], 'every moment at which shutdown can arrive: before, during and after processes start, exit, respawn, timers fire, several triggers at once', 'tests shut down one idle or one sleeping process',
  [L + 'launch_service.py', L + 'actions/execute_local.py', L + 'actions/shutdown_action.py', L + 'actions/opaque_coroutine.py', L + 'actions/timer_action.py', L + 'event_handlers/on_shutdown.py'],
  [('_shutdown and idle detection', L + 'launch_service.py'), ('shutdown handlers of running actions', L + 'actions/execute_local.py:__on_shutdown')],
  ['Shutdown events at a handler', 'child processes observed from outside (/proc)', 'return value of run()'])

P('C10', 'Termination escalates SIGINT, SIGTERM, SIGKILL only as far as needed',
  'A process being shut down is sent SIGINT (unless the shutdown came from a terminal SIGINT it already received, in interactive mode), then SIGTERM once sigterm_timeout seconds have passed, then SIGKILL after a further sigkill_timeout seconds, each exactly once, never earlier, and no later signal after it has exited. '
  'ShutdownProcess and SignalProcess events reach exactly the running processes their matcher selects, and the signal delivered is the one named. '
  'The timeouts may be substitutions or come from the launch configurations sigterm_timeout and sigkill_timeout.',
  ['schedules', 'inputs', 'fault_sequences'], 'processes that obey, delay or ignore each signal, any timeouts, several processes at once', 'the one escalation path is exercised with a single process in tests of another package',
  [L + 'actions/execute_local.py', L + 'events/process/shutdown_process.py', L + 'events/process/signal_process.py', L + 'events/process/process_matchers.py'],
  [('timer-driven escalation', L + 'actions/execute_local.py:_shutdown_process/__get_shutdown_timer_actions'), ('signal delivery', L + 'actions/execute_local.py:__on_signal_process_event')],
  ['signals logged with timestamps by the child processes themselves', 'exit codes'])

P('C11', 'Each process yields one start, then its output, then one exit event',
  'For every process that is started exactly one ProcessStarted and, when it ends, exactly one ProcessExited event is emitted, in that order, carrying the process name, command, working directory, environment, the true pid and the true return code (negative signal number when killed), with all its output events in between. '
  'on_exit actions are visited once per exit, process_details and return_code agree with the events, and the action counts as complete (for idleness and ExecutionComplete) only after the exit event. '
  'A command that cannot be started yields neither event, is reported, and does not block the launch; executing the same action twice is an error that does not disturb the running process.',
  ['schedules', 'inputs', 'programs'], 'any mix of quick, crashing, killed, unstartable, talkative, concurrent processes', 'tests run one process at a time and look at one of the events',
  [L + 'actions/execute_local.py', L + 'actions/execute_process.py', L + 'events/process/'],
  [('subprocess protocol and completion', L + 'actions/execute_local.py:__execute_process')],
  ['process events at handlers', 'a journal each child writes itself'])

P('C12', 'Process output is captured completely, in order, line by line',
  'The texts of the ProcessStdout (ProcessStderr) events of a process, concatenated, are exactly the bytes it wrote to that stream, however the writes are split. '
  'Each line of each stream is logged exactly once, in order, formatted with output_format, without its line end, an unterminated last line included when the process exits; text in UTF-8 is never damaged, and undecodable bytes only become replacement characters. '
  'With cached_output=True, get_stdout() and get_stderr() return the decoded output, and without it they raise.',
  ['inputs', 'schedules'], 'every byte sequence and every way of chunking it over time, both streams, several processes', 'tests print one or two complete short lines',
  [L + 'actions/execute_local.py', L + 'events/process/process_io.py'],
  [('line buffering and flush', L + 'actions/execute_local.py:__on_process_output/__flush_buffers')],
  ['ProcessIO events', 'records reaching a logging handler', 'get_stdout()/get_stderr()'])

P('C13', 'Respawn restarts a process as often and as late as configured',
  'A process with respawn enabled is started again each time it exits, not before respawn_delay seconds after the exit, until respawn_max_retries restarts were made (no limit when negative), each restart emitting its own start and exit events and output; a process without respawn is started once. '
  'respawn may be a substitution. '
  'Once shutdown was requested (for the launch or for that process) no further restart happens, a pending delay is not waited for, and a restart in progress is shut down too.',
  ['schedules', 'inputs'], 'every retry limit, delay, exit pattern and shutdown moment', 'tests cover two retry limits with fixed sleeps',
  [L + 'actions/execute_local.py'], [('respawn decision', L + 'actions/execute_local.py:__execute_process')],
  ['child journals (start times, pids)', 'process events'])

P('C14', 'The child runs with the command, directory and environment described',
  'The started program receives exactly the arguments that result from performing each element of cmd, after the words of the prefix (shell-split, applied only if launch-prefix-filter matches the program), in the given working directory. '
  'Its environment is the environment of the launch context at that moment, replaced by env if given and extended by additional_env. '
  'Each process gets a name unique in the launch run, made of its given name or the basename of its program and a serial number, the same in events, logs and output prefix.',
  ['inputs', 'programs'], 'arbitrary argument text (blanks, quotes, unicode, empty), substitutions, prefixes and environments', 'tests compare a few fixed commands without running them',
  [L + 'descriptions/executable.py', L + 'actions/execute_process.py', L + 'actions/execute_local.py'],
  [('Executable.prepare', L + 'descriptions/executable.py')],
  ['argv, cwd and environ as the child itself reports them', 'process events'])

P('C15', 'The launch service can be driven from any thread without loss or deadlock',
  'emit_event, include_launch_description and shutdown may be called from any thread at any moment before, during and after a run, also from inside the run itself: each call returns, and every event or description whose call returned is processed exactly once, in per-thread order, in this run or, if it came too late, in the next one. '
  'shutdown() makes the run end, and does nothing when the service is not running. '
  'A second concurrent run is refused with an error and does not disturb the first.',
  ['schedules', 'histories'], 'every interleaving of caller threads with the run loop, in particular around the start and end of a run', 'thread races around start-up and exit cannot be sampled by a unit test',
  [L + 'launch_service.py', L + 'launch_context.py'],
  [('loop lock and thread-safe emission', L + 'launch_service.py:emit_event/_prepare_run_loop/shutdown')],
  ['call and return times at the callers', 'handled events'],
  [('loop from run thread', 'loop of the current run or None', L + 'launch_service.py')])

P('C16', 'An error never goes unnoticed and never leaves processes behind',
  'If an action, event handler, condition, substitution, timer or coroutine raises during a run, run() reports it, shuts the launch down, and returns a non-zero code; it does not raise and does not hang. '
  'All processes started before the error, including those started by entities visited just before the one that raised, are terminated before run() returns, and shutdown handlers still run, each being called even if another one raises. '
  'The service can be used again afterwards.',
  ['fault_sequences', 'programs'], 'a fault at every entity, handler, substitution or coroutine of arbitrary programs, with processes and timers alive', 'tests raise once in an otherwise empty launch',
  [L + 'launch_service.py', L + 'utilities/visit_all_entities_and_collect_futures_impl.py', L + 'action.py', L + 'actions/opaque_coroutine.py', L + 'actions/execute_local.py'],
  [('exception handling of the run loop', L + 'launch_service.py:run_async'), ('futures of visited entities', L + 'utilities/visit_all_entities_and_collect_futures_impl.py')],
  ['return code', 'child processes observed from outside', 'shutdown handlers'])

P('C17', 'OS signals stop the launch cleanly and prior handlers are restored',
  'SIGINT during a run triggers exactly one orderly shutdown (due_to_sigint set) and further SIGINTs are ignored; SIGTERM or SIGQUIT, if the program handles them (by default the kernel ends it), ends the run promptly with a non-zero code. '
  'After the run the signal handlers, wakeup descriptor and behaviour that were in place before are back, however the run ended and however often runs follow each other. '
  'AsyncSafeSignalManager calls the handler registered for a signal in the event loop thread for each delivery, supports nesting and unregistering, forwards all signals to outer managers and the wakeup descriptor, and never calls a handler outside its context.',
  ['schedules', 'fault_sequences', 'histories'], 'signals delivered at any moment of a run, once or many times, in any order', 'tests send one signal to an idle loop',
  [L + 'utilities/signal_management.py', L + 'launch_service.py'],
  [('wakeup fd and chained handlers', L + 'utilities/signal_management.py'), ('handlers installed by the run', L + 'launch_service.py:_prepare_run_loop')],
  ['return code, Shutdown events', 'signal.getsignal before and after'])

P('C18', 'Substitutions evaluate to their documented value, at the time of use',
  'Every substitution evaluates to its documented result for the state at the moment it is performed, and performing it has no other effect: text, launch configuration (with default), environment variable (with default), local, path join, if-else, equals and not-equals (booleans and numbers compared as such), not, and, or, any, all, Python expression, command output, file content, executable lookup, anonymous name, current launch file and directory. '
  'A list of substitutions concatenates the results in order, and nested substitutions are resolved innermost first. '
  'A missing value without default, or an operand that is not a boolean where one is needed, fails with an error instead of producing text; Command honours its on_stderr policy and fails on a non-zero exit.',
  ['inputs', 'programs'], 'every expression tree and state', 'tests evaluate a few fixed substitutions each',
  [L + 'substitutions/', L + 'utilities/perform_substitutions_impl.py', L + 'utilities/normalize_to_list_of_substitutions_impl.py'],
  [('perform methods', L + 'substitutions/')],
  ['result of performing generated expression trees, twice and under changed state'])

P('C19', 'Substitution text parses to what was written',
  'Text with embedded $(name arg ...) expressions in a launch file parses to literal text and substitutions that perform to what was written: literals are preserved character by character, escapes (\\$, \\", \\\') and quoting work as documented, arguments are split at blanks outside quotes, and substitutions nest to any depth. '
  'Every substitution the frontends expose can be written this way and equals the one constructed in Python with the same arguments. '
  'Malformed text or an unknown substitution name is rejected with an error.',
  ['inputs'], 'every text the grammar derives, and malformed mutations of it', 'tests parse some dozens of fixed strings',
  [L + 'frontend/parse_substitution.py', 'launch/share/launch/frontend/grammar.lark', L + 'frontend/expose.py', L + 'substitutions/'],
  [('grammar and transformer', L + 'frontend/parse_substitution.py')],
  ['performed value of parsed text versus an independently generated expression'])

P('C20', 'Values are coerced to a type exactly when they are valid for it',
  'Coercing text to a type (int, float, bool, str, lists of them, or "try all") yields the value of that type which the text denotes (Python syntax for a single int or float, the YAML rules otherwise, also 0 and 1 for bool) and fails when it denotes none, with the same outcome whether it comes from an XML attribute, a typed substitution or the coercion functions, and already typed values are accepted exactly when they are of the type. '
  'A list is uniform: all its elements have one type (a boolean is not an integer); where text may stay text it is kept unchanged if it denotes no value of the type. '
  'Performing a normalized typed substitution gives the coerced value of its text.',
  ['inputs'], 'every text and every target type', 'tests enumerate a few values per type',
  [L + 'utilities/type_utils.py', L + 'frontend/type_utils.py'],
  [('coercion', L + 'utilities/type_utils.py')],
  ['results of the coercion functions against an independent model'])

P('C21', 'The same launch file in XML, YAML or Python behaves the same',
  'A launch description expressed in XML, in YAML, or directly with the Python API produces the same behaviour when launched: same actions with the same arguments, conditions, order and scoping, same results. '
  'The format is recognized by file extension or, failing that, by content, and included files of another format work the same. '
  'Parsing a file never depends on files parsed before.',
  ['programs', 'inputs'], 'every description built from the exposed actions, attributes and substitutions', 'tests parse one file per action in each format and check some attributes',
  [L + 'frontend/', 'launch_xml/launch_xml/', 'launch_yaml/launch_yaml/', L + 'actions/', L + 'launch_description_sources/'],
  [('Entity interface and parse methods', L + 'frontend/entity.py'), ('format dispatch', L + 'frontend/parser.py')],
  ['execution traces (log messages, configurations, environment, processes) of the three variants'])

P('C22', 'Malformed launch files are rejected, never partially accepted',
  'A launch file with an unknown tag, an unknown or misspelled attribute or child, a missing required attribute, a value of the wrong type, contradictory conditions (if and unless together), or broken syntax is rejected with an error when it is parsed, in every format; nothing of it is executed. '
  'A well-formed file of the exposed vocabulary is accepted. '
  'The error does not leave the parser unable to parse other files.',
  ['inputs'], 'every mutation of valid launch files', 'tests have a few fixed bad files',
  [L + 'frontend/parser.py', L + 'frontend/entity.py', 'launch_xml/launch_xml/entity.py', 'launch_yaml/launch_yaml/entity.py', L + 'frontend/expose.py'],
  [('completeness check', L + 'frontend/entity.py:assert_entity_completely_parsed'), ('typed attributes', 'launch_xml/launch_xml/entity.py:get_attr')],
  ['outcome of parsing mutated files'])

P('C23', 'Log output goes to exactly the configured destinations',
  'For every output configuration (screen, log, both, own_log, full, or per-stream dictionaries of these) each message of a process stream reaches exactly the destinations named (the screen, the main log file, the log files of the process) exactly once, with no other destination receiving it, for any number of loggers. '
  'Invalid configurations are rejected. '
  'The log directory is unique to the run, linked as `latest` beside it, all log files are in it, and resetting the configuration takes effect for later loggers; OVERRIDE_LAUNCH_PROCESS_OUTPUT and launch-configured formats are honoured.',
  ['configurations', 'inputs'], 'every combination of stream, destination and number of processes', 'tests check a handful of combinations on one logger',
  [L + 'logging/__init__.py', L + 'logging/handlers.py', L + 'actions/execute_local.py'],
  [('get_output_loggers and handler attachment', L + 'logging/__init__.py')],
  ['content of the screen stream and of every file in the log directory'])

P('C24', 'launch_testing handlers record every event and wake every waiter',
  'ActiveIoHandler and ActiveProcInfoHandler return, per process and overall, exactly the output and process events recorded so far in order of arrival, while other threads keep appending; iterating or listing them concurrently never fails or shows a torn state. '
  'A wait (assertWaitFor, waitFor, assertWaitForShutdown, assertWaitForStartup) succeeds if and only if its condition is or becomes true before its timeout, for any number of concurrent waiters, and returns promptly once it does. '
  'A failing wait raises or returns False rather than blocking.',
  ['schedules', 'histories'], 'every interleaving of appending and waiting threads', 'tests use one waiter',
  ['launch_testing/launch_testing/io_handler.py', 'launch_testing/launch_testing/proc_info_handler.py', 'launch_testing/launch_testing/util/proc_lookup.py'],
  [('condition variable', 'launch_testing/launch_testing/io_handler.py'), ('condition variable', 'launch_testing/launch_testing/proc_info_handler.py')],
  ['recorded appends versus what readers and waiters observe'])

P('C25', 'Output and exit-code assertions pass exactly when the output satisfies them',
  'assertInStream, assertInStdout, assertInStderr and expect_output pass if and only if the output recorded for a selected process on that stream (ANSI escapes stripped unless told otherwise, output_filter applied), however it was split into chunks, contains the expected text, list of texts in order or pattern; assertSequentialStdout passes only for texts found on its stdout in the asserted order. '
  'Process selection by action, name substring and arguments selects exactly the matching processes, and reports none or ambiguity as an error. '
  'assertExitCodes passes exactly when every selected process exited with an allowed code.',
  ['inputs', 'histories'], 'every recorded output, chunking, expectation and set of processes', 'tests check a few fixed outputs',
  ['launch_testing/launch_testing/asserts/', 'launch_testing/launch_testing/tools/text.py', 'launch_testing/launch_testing/util/proc_lookup.py'],
  [('text matchers', 'launch_testing/launch_testing/tools/text.py'), ('process lookup', 'launch_testing/launch_testing/util/proc_lookup.py'), ('sequential checker', 'launch_testing/launch_testing/asserts/assert_sequential_output.py')],
  ['pass or fail of the assertions against an independent model'])

P('C26', 'launch_test reports every test exactly once and never hides a failure',
  'A launch_testing run executes every pre-shutdown test only after the system signalled ready and while it runs, and every post-shutdown test only after all its processes have exited, once per parametrization; each test is reported exactly once with its true outcome. '
  'The run is successful if and only if every executed test passed and the launch itself neither failed nor died early; when the system never becomes ready or dies before the tests finish, this is reported as a failure instead of being hidden or blocking. '
  'The JUnit XML contains every test of every run with the same counts and outcomes.',
  ['programs', 'fault_sequences'], 'every combination of passing, failing, erroring, skipped tests, parametrizations, early death and missing readiness', 'tests run a few example files',
  ['launch_testing/launch_testing/test_runner.py', 'launch_testing/launch_testing/loader.py', 'launch_testing/launch_testing/junitxml.py', 'launch_testing/launch_testing/test_result.py', 'launch_testing/launch_testing/ready_aggregator.py', 'launch_testing/launch_testing/parametrize.py'],
  [('test thread and launch service', 'launch_testing/launch_testing/test_runner.py'), ('result and XML', 'launch_testing/launch_testing/junitxml.py')],
  ['journals written by generated tests and processes', 'TestResult objects', 'JUnit XML'])

P('C27', 'launch_pytest waits and assertions tell the truth about the process',
  'The launch_pytest process tools (wait_for_output, wait_for_stderr, assert_output, assert_stderr, wait_for_start, wait_for_exit, each in asynchronous and synchronous form) report success if and only if the condition holds for the output of the given process, or the start or exit waited for happens, before the timeout, no matter when, in how many pieces and relative to which other process the output arrives, with or without a timeout. '
  'They leave no event handler behind and never block beyond their timeout. '
  'Assertions raise the error of the validation function when it is not satisfied in time.',
  ['schedules', 'inputs'], 'every timing of output, start and exit relative to the wait', 'tests wait for one line of one process',
  ['launch_pytest/launch_pytest/tools/process.py'], [('temporary event handlers', 'launch_pytest/launch_pytest/tools/process.py')],
  ['results of the waits versus the journal of the process'])

P('C28', 'Introspecting a launch description has no side effects and misses nothing',
  'Describing or formatting any launch description (LaunchIntrospector, describe, describe_sub_entities, describe_conditional_sub_entities) succeeds without executing any action, starting any process, evaluating any substitution (locations of included files apart) or changing the description, and the described (conditional) sub-entities together reach every entity that launching the description could visit, those under a condition only as conditional ones; the formatted text mentions every entity listed in it and what its event handlers yield. '
  'Launching the description afterwards behaves as if it had not been introspected.',
  ['programs'], 'every description built from the provided actions', 'tests introspect a few fixed descriptions',
  [L + 'launch_introspector.py', L + 'launch_description_entity.py', L + 'action.py', L + 'launch_description.py', L + 'event_handler.py'],
  [('introspector', L + 'launch_introspector.py')],
  ['text produced, execution traces with and without introspection'])

P('C29', 'launch_pytest runs each part of a test in the right state of its own launch',
  'pytest runs every launch_pytest test exactly once per parameter set, with a launch of its own per scope of the launch fixture: the parts before shutdown when that launch is ready to test and, unless it ends by itself, while it is running, in the loop of the launch (coroutines) or in a thread while that loop is running (functions), and the parts after shutdown (shutdown=True tests, what follows the yield of a generator) only after all of the former, with the launch shut down and over. '
  'pytest reports a failure for each part that fails, a launch that cannot be set up or that fails, and for nothing else, and a skip or expected failure as such. '
  'No test can make pytest hang, and no process outlives its launch.',
  ['programs', 'schedules'], 'every module of launch fixtures and tests pytest can collect', 'tests run about ten fixed modules',
  ['launch_pytest/launch_pytest/plugin.py', 'launch_pytest/launch_pytest/fixture.py', 'launch_pytest/launch_pytest/actions/ready_to_test.py'],
  [('test wrappers and order of items', 'launch_pytest/launch_pytest/plugin.py'), ('launch_service fixtures', 'launch_pytest/launch_pytest/fixture.py')],
  ['log of fixtures, launches, processes and tests, pytest reports'])

P('C30', 'Process proxy, ready listener and Test actions tell the truth about a process',
  'A ProcessProxy (and launch_process) of launch_testing, used from any thread, reports running, terminated, exit code, stdout, stderr and output as they are, wait_for_output and wait_for_shutdown return true if and only if the condition held (or any output was there, the process ended) before their timeout, and leaving launch_process shuts down the process unless it had ended, in which case it is left alone. '
  'A StdoutReadyListener performs its actions when a process it is for has printed the ready text, in however many pieces, and not otherwise. '
  'A Test action (also GTest, PyTest) is shut down if and only if it runs longer than its timeout, and one which ends earlier leaves nothing pending.',
  ['schedules', 'inputs'], 'every timing and splitting of output, start and exit', 'tests start one process and append whole lines',
  ['launch_testing/launch_testing/tools/process.py', 'launch_testing/launch_testing/event_handlers/stdout_ready_listener.py', 'launch_testing/launch_testing/actions/test.py', 'launch_testing/launch_testing/actions/gtest.py', 'launch_testing/launch_testing/actions/pytest.py'],
  [('waits on the io and process conditions', 'launch_testing/launch_testing/tools/process.py'), ('timer of a Test', 'launch_testing/launch_testing/actions/test.py')],
  ['answers of the proxies versus the recorded process events, journals of the children'])

P('C31', 'LaunchTestService ends a launch when, and as, its tests ask for',
  'A launch run by LaunchTestService of launch_testing.legacy is shut down at the moment the last test has ended, a test failed, a fixture exited with a code it may not exit with, or a test with that side effect passed, and not before. '
  'The result is that of the launch if it is not zero, else that of the first fixture or test process that failed, else non-zero if and only if a test action failed or the output of a process did not match what was expected of it. '
  'Output is matched as received in total, in however many pieces, without the lines (and only those) a filter is to leave out.',
  ['schedules', 'inputs'], 'every interleaving of output, exits, failures and shutdowns', 'tests use one process and output in whole lines',
  ['launch_testing/launch_testing/legacy/__init__.py', 'launch_testing/launch_testing/legacy/output.py'],
  [('LaunchTestService', 'launch_testing/launch_testing/legacy/__init__.py'), ('create_output_* functions', 'launch_testing/launch_testing/legacy/output.py')],
  ['events recorded in the launch, the moment of the shutdown, the result of run'])
P('C32', 'The pytest plugin runs launch tests and leaves everything else to pytest',
  'With the pytest plugin of launch_testing, modules that are no launch tests (ordinary, broken, skipping themselves) are collected, run and reported as without it, in every import mode. '
  'Each module with a marked generate_test_description is one item, run as often as it is parametrized with the given launch arguments, that fails if and only if one of its tests failed, had an error or succeeded unexpectedly, names exactly the failed ones, and honours the marks (skip, xfail, ...) of the function.',
  ['inputs'], 'every mix of modules, folders, marks, options and outcomes', 'tests collect single, well-formed launch test modules',
  ['launch_testing/launch_testing/pytest/hooks.py', 'launch_testing/launch_testing/pytest/hookspecs.py'],
  [('pytest_pycollect_makemodule', 'launch_testing/launch_testing/pytest/hooks.py'), ('LaunchTestItem.runtest and repr_failure', 'launch_testing/launch_testing/pytest/hooks.py')],
  ['reports of pytest with and without the plugin, journal written by the launch tests'])

P('C33', 'Objects of the Python API take what is documented, tell it, and leave it be',
  'Every class of the Python API (actions, conditions, event handlers, events, substitutions, descriptions) accepts each documented form of its arguments (texts, substitutions, lists, tuples, iterators of them), and its properties tell what was given, or the documented default, also after the object was described or launched. '
  'An argument whose type or value the constructor is documented to check (what has to be a substitution, a callable, an event, a signal, a target action, iterable, one of the choices) is refused with an error when the object is created. '
  'Neither creating, describing, extending nor launching an object modifies the containers it was given, and a deprecated description warns once, with its reason, each time it is visited.',
  ['inputs'], 'every class, every combination of argument forms, every wrong type of a checked argument', 'tests construct a few classes with one form of arguments each',
  [L + 'utilities/ensure_argument_type_impl.py', L + 'utilities/normalize_to_list_of_substitutions_impl.py', L + 'utilities/class_tools_impl.py', L + 'utilities/type_utils.py', L + 'launch_description.py', L + 'actions/', L + 'event_handlers/on_action_event_base.py', L + 'events/', L + 'substitutions/', L + 'conditions/'],
  [('type checks of arguments', L + 'utilities/ensure_argument_type_impl.py'), ('normalization', L + 'utilities/normalize_to_list_of_substitutions_impl.py'), ('copies of what is given', L + 'launch_description.py:__init__')],
  ['exceptions of constructors', 'properties of the objects', 'the given containers', 'log records'])

P('C34', 'Installed extensions of the launch frontends are found, used and isolated',
  'Actions, substitutions and parsers that installed packages provide by entry points are available in launch files of every format without being imported by the user, each module being imported once; what an extension exposes can be used under its name, and names that are taken already stay with their owner. '
  'An extension or parser that cannot be loaded is reported by a warning that names it and affects nothing else. '
  'A file is given to the parsers whose extensions its name ends with, in the order of their names, then to the others, until one accepts it; if none does, it is refused.',
  ['inputs'], 'every set of installed packages, broken or not, and every launch file using them', 'tests run with the two parsers of the repository only',
  [L + 'frontend/parser.py', L + 'frontend/expose.py', L + 'launch_description_sources/any_launch_file_utilities.py', L + 'launch_description_sources/frontend_launch_file_utilities.py'],
  [('entry points', L + 'frontend/parser.py:load_launch_extensions/load_parser_implementations'), ('registry of parse methods', L + 'frontend/expose.py'), ('choice of parsers', L + 'frontend/parser.py:load/get_parsers_from_filename')],
  ['journal of imports, parsers and actions', 'warnings', 'return values and exceptions'])

T5 = 'launch_testing/launch_testing/'
P('C35', 'A misconfigured launch test is refused before anything is launched',
  'launch_test ends with a non-zero exit code and a message that names what is wrong, without a launch or a test of the run concerned, when its file is missing or cannot be loaded, has no callable generate_test_description, this does not take exactly the parameters it is given (or a set of parameter values does not match their names), does not return a LaunchDescription (and optional context) with a ReadyToTest action, or a launch argument is malformed. '
  'Every well-formed test is run, wherever its ReadyToTest action is, however its function is decorated and named and with or without verbose output, with the launch arguments given (the last one of a name counts, everything after the first := is the value); showing the arguments prints every declared one with its description and default and launches nothing. '
  'Helpers of launch_testing refuse arguments of a wrong type when called, and an aggregated ready function is called exactly once, with the last of the calls it waits for, from whatever threads they come.',
  ['inputs', 'schedules'], 'every well-formed or misconfigured launch test file and command line', 'tests use a few example files',
  [T5 + 'launch_test.py', T5 + 'loader.py', T5 + 'test_runner.py', T5 + 'parse_arguments.py', T5 + 'parametrize.py', T5 + 'print_arguments.py', T5 + 'ready_aggregator.py', T5 + 'decorator.py', T5 + 'util/__init__.py'],
  [('validation', T5 + 'test_runner.py:LaunchTestRunner.validate'), ('normalized description', T5 + 'loader.py:_normalize_ld'), ('command line', T5 + 'launch_test.py')],
  ['exit code and messages of the command line', 'journal of what was described, launched and tested'])
P('C36', 'add_launch_test of CMake registers exactly the launch tests it is given',
  'Each add_launch_test call registers one test that runs launch_test on the given file, found by absolute path or from the calling folder, with the python given (or the default one) and the launch arguments exactly as written, whatever other calls, folders and earlier configurations there are; a file that is not found fails the configuration, naming it. '
  'The test is called as its TARGET, or else after the path of its file within the project, so that files with the same name in different folders do not collide; result and output files are named after it; the timeout, labels and further options given to it apply to it alone (by default 60 s and the label launch_test). '
  'When it is executed, the launch test gets these arguments, the outcome of ctest is that of the launch test, and the result file reports it.',
  ['inputs', 'histories'], 'every project, set of calls and arguments, every sequence of configurations', 'not tested: no test configures a CMake project',
  [ 'launch_testing_ament_cmake/cmake/add_launch_test.cmake'],
  [('arguments', 'launch_testing_ament_cmake/cmake/add_launch_test.cmake:parse_launch_test_arguments'), ('the test', 'launch_testing_ament_cmake/cmake/add_launch_test.cmake:add_launch_test')],
  ['tests, commands and properties listed by ctest', 'journal of executed launch tests and their arguments'])
P('C37', 'A launch leaves its program as it found it, and able to launch again',
  'Once a launch has ended, however it was run (run, run_async in a loop of its own, LaunchTestService, LaunchTestRunner) and however it ended (by itself, by shutdown from any thread, by a signal, by an error), the program is as before: no child process, thread, pending task, temporary file or descriptor of the launch is left (not even for output which orphaned processes have inherited), and its environment, directory, signal handlers, blocked signals, hooks and streams are untouched, as are debug mode and exception handler of its event loop. '
  'The service, its context, its description and entities are let go once the program lets go of them, nothing gets more and more with each launch apart from loggers and log files (which go with launch.logging.reset()), and neither asyncio nor the interpreter complains about something unclosed, unawaited, pending or unretrieved. '
  'The same launch, done again in the same program, does the same again, also after asyncio.run() was used.',
  ['inputs', 'histories', 'faults'], 'every sequence of launches in one process, however they are run and end', 'tests run a launch once each and do not look at what is left',
  [L + 'launch_service.py', L + 'actions/execute_local.py', L + 'actions/timer_action.py', L + 'actions/opaque_coroutine.py', L + 'utilities/signal_management.py', L + 'logging/__init__.py', T5 + 'test_runner.py', T5 + 'legacy/__init__.py'],
  [('end of a run', L + 'launch_service.py:LaunchService.run_async'), ('end of a process', L + 'actions/execute_local.py:ExecuteLocal.__cleanup'), ('test thread', T5 + 'test_runner.py:_RunnerWorker.run')],
  ['/proc/self/fd and children, threading.enumerate(), signal.getsignal()', 'weak references and a census of living objects', 'warnings, sys.unraisablehook and the asyncio logger'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for o in OUT:
            f.write(json.dumps(o, ensure_ascii=False) + '\n')
