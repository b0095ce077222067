NA = {}
VIRTUAL = 'on an event loop with virtual time and simulated processes'
TECH = {
    'C01': 'runtime monitoring: recorded traces of random event programs compared with a sequential model '
           'of queue and handlers, ' + VIRTUAL,
    'C02': 'runtime monitoring: visits of random entity trees compared with a recursive model, ' + VIRTUAL,
    'C03': 'runtime monitoring: reactions of targeted handlers compared with a catch-all recording, ' + VIRTUAL,
    'C04': 'runtime monitoring: snapshots of context locals compared with a model of scopes, ' + VIRTUAL,
    'C05': 'runtime monitoring: state before and after scopes, and a model of both stacks, ' + VIRTUAL,
    'C06': 'runtime monitoring: reads of configuration and environment against a reference model, ' + VIRTUAL,
    'C07': 'runtime monitoring: launches of generated trees of launch files against a model of arguments',
    'C08': 'runtime monitoring: exact firing times against a discrete event model, ' + VIRTUAL,
    'C09': 'runtime monitoring with fault injection: histories of shutdowns against a discrete event '
           'simulation, ' + VIRTUAL + '; real processes with journals',
    'C10': 'runtime monitoring with fault injection: signals and their exact times against a discrete event '
           'simulation, ' + VIRTUAL + '; real processes with journals',
    'C11': 'runtime monitoring: process events checked against what simulated and real processes did, '
           'online ordering automaton per process',
    'C12': 'runtime monitoring: bytes written by simulated and real processes conserved in events, screen '
           'and files',
    'C13': 'runtime monitoring: starts and their exact times against a discrete event simulation, ' + VIRTUAL,
    'C14': 'runtime monitoring: argv, directory and environment recorded by children, against a reference '
           'evaluation',
    'C15': 'runtime monitoring: stress of real threads with delays injected between lines (trace function), '
           'exactly-once and order checks over recorded histories, watch dog for deadlocks',
    'C16': 'runtime monitoring with fault injection at recorded calls, invariants over the history, ' + VIRTUAL,
    'C17': 'runtime monitoring: real signals against delivery counts and saved dispositions',
    'C18': 'runtime monitoring: values of random substitutions against a reference evaluator, with state '
           'comparison',
    'C19': 'runtime monitoring: written texts evaluated and compared with what was meant; damaged texts',
    'C20': 'runtime monitoring: coercions through every entry point against a model of the rules',
    'C21': 'runtime monitoring: differential, the same program launched from XML, YAML, Python and mixtures',
    'C22': 'runtime monitoring: mutated launch files, error and no effect required from every loader',
    'C23': 'runtime monitoring: bytes of screen and log files after random histories against a model',
    'C24': 'runtime monitoring: threads on recording handlers, linearizability of an append-only log',
    'C25': 'runtime monitoring: verdicts of assertions against independent matchers on random outputs',
    'C26': 'runtime monitoring: journals, reports and return codes of generated launch tests with faults',
    'C27': 'runtime monitoring: concurrent waits on real processes judged by recorded events',
    'C28': 'runtime monitoring: introspected and plain copy of a description launched and compared',
    'C29': 'runtime monitoring: ordered log of generated pytest modules against a model of items',
    'C30': 'runtime monitoring: answers and reactions on real processes judged by recorded events',
    'C31': 'runtime monitoring in virtual time: an offline checker derives shutdown and result from the recorded events',
    'C33': 'runtime monitoring: constructions from random argument forms and wrong types against a table of '
           'what is documented; snapshots of the given containers around describing and launching',
    'C35': 'runtime monitoring with fault injection: generated launch test files and command lines, exit codes, '
           'messages and journals against a model',
    'C37': 'runtime monitoring: soak of repeated real launches with leak monitors (descriptors, threads, children, '
           'handlers, weak references, object census, interpreter complaints)',
    'C36': 'runtime monitoring: real cmake and ctest on generated projects, configured again and again; '
           'the registered tests and their executions against a model',
    'C34': 'runtime monitoring with fault injection: generated packages with entry points, broken ones among '
           'them, journal of imports, parsers and actions against a model',
    'C32': 'runtime monitoring: differential pytest runs with and without the plugin, reports and journals compared',
}
