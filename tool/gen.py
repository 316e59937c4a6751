#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'PTN_Engine/'
NA = [
    ('C27', 'A distribution over unboundedly many runs of a random generator is a runtime quantity; what can be decided from the source (a fresh shuffle from a '
            'non-deterministic seed on every path) is claimed as C25.'),
    ('C28', 'Durations depend on the scheduler, on the load and on the functions of the user, which no static argument in reach bounds; the structural part (no sleeping with a lock '
            'held, wake-up on every event and on stop) is claimed as C13.'),
    ('C29', 'Termination depends on the net and on the functions of the user, which are runtime data; the structural part (a round is repeated only after one in which something '
            'fired, no deadlock of the locks) is claimed as C20 and C03.'),
]


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=()):
    return dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note,
                state=state, observe=observe)


TRUST = ('Trusts clang\'s parse of the tree, the models of the standard library and pugixml in sa/models.py, and the loop summaries of sa/core.py. '
         'An idiom the analysis does not understand is reported as inconclusive in the evidence, not as held. ')

PROPS = [
    prop('C01', 'The engine has no data races',
         'Whatever operations of one or several engines are called by any number of threads, while event loops and actions run, no two threads access the '
         'same state at the same time with one of them modifying it, unless that state is atomic.',
         ['schedules', 'programs'], 'all interleavings of all public operations, the event loop thread, the job queue worker and detached actions',
         'The tests run a handful of schedules; a race needs a particular interleaving and usually goes unnoticed when it happens.',
         ['PTN_EngineImpProxy.cpp', 'PTN_EngineImp.cpp', 'Place.cpp', 'Transition.cpp', 'PlacesManager.cpp', 'TransitionsManager.cpp', 'EventLoop.cpp', 'JobQueue/JobQueue.cpp'],
         [('engine mutex', 'PTN_EngineImpProxy.cpp'), ('place mutex', 'Place.cpp'), ('transition mutex', 'Transition.cpp'), ('job queue mutex', 'JobQueue/JobQueue.cpp')],
         'interprocedural lockset analysis over all thread roots',
         'Lock sets are computed for every access on every path of every thread root; a pair without a common lock is a race if the paths can overlap. '
         'Assumes construction and destruction are not concurrent with use, and that user callbacks synchronise their own data.'),
    prop('C02', 'Public operations are indivisible and reach the engine',
         'Each public operation takes effect exactly once, with the arguments the caller gave and answering what the engine answered, as one indivisible '
         'step: an operation that changes the engine never overlaps any other operation.',
         ['schedules', 'programs'], 'all operations, all arguments, all interleavings of callers',
         'Tests call operations from one or two threads and cannot see a lock that is shared instead of exclusive or given up half-way.',
         ['PTN_Engine.cpp', 'PTN_EngineImpProxy.cpp'], [('one lock hold per public operation', 'PTN_EngineImpProxy.cpp')],
         'path-sensitive lock-hold and delegation analysis with interprocedural effects',
         'Every path of every public operation is enumerated; the required lock mode follows from the composed write effects of everything it calls.'),
    prop('C03', 'No deadlocks',
         'No combination of public operations, event loop and running actions can block forever: locks are always acquired in a consistent order, never '
         'twice by one thread, and always released; no thread waits, holding a lock, for another thread that needs this lock, and no operation waits for '
         'a user action while it keeps other operations out.',
         ['schedules', 'programs'], 'all interleavings of operations, loop and actions (actions may call the engine when they run on threads of their own)',
         'A deadlock needs two threads at particular points at the same time; a passing test run says nothing about the other schedules.',
         ['PTN_EngineImpProxy.cpp', 'PTN_EngineImp.cpp', 'Place.cpp', 'Transition.cpp', 'JobQueue/JobQueue.cpp', 'EventLoop.cpp'],
         [('lock hierarchy engine > managers > transition > place > job queue', 'PTN_EngineImp.cpp'), ('polling without the place mutex', 'Place.cpp'),
          ('executor destroyed after unlocking', 'PTN_EngineImpProxy.cpp')],
         'lock-order graph with gate locks, release-on-all-exits, join/lock and poll/lock dependency analysis',
         'Assumes conditions, and actions run by the thread that fires, do not call the engine, and that an action does not replace or destroy its own executor.'),
    prop('C04', 'Asynchronous actions run with no engine lock held',
         'With the job queue or with detached threads, an action runs on another thread than the one that fires the transition and no lock of the engine '
         'is held while it runs, so it may take as long as it wants and may use the engine.',
         ['schedules', 'configurations'], 'all paths from a firing to an action in both asynchronous modes',
         'Tests use short actions; an action run in the wrong place only shows when it is slow or calls back.',
         ['JobQueue/JobQueue.cpp', 'Executor/JobQueueExecutor.cpp', 'Executor/DetachedExecutor.cpp'],
         [('unlock around the job', 'JobQueue/JobQueue.cpp'), ('hand-over', 'Executor/JobQueueExecutor.cpp')],
         'lockset at callback sites of the action threads; who-may-call analysis for the hand-over',
         'All paths of the thread bodies and of the hand-over functions are covered.'),
    prop('C05', 'A transition fires exactly when it is enabled',
         'A transition whose turn comes fires if and only if it is enabled: every activation place has at least the weight of its arc in tokens, every inhibitor place has no token, every '
         'additional condition answers true, and, where the transition requires it, no action of an activation place is still in execution. A '
         'transition that can fire is never left out of the transitions that get a turn.',
         ['inputs', 'programs'], 'all nets, all markings over the full range of the counters, all answers of conditions, all counts of running actions',
         'Tests use a few small nets; the definition ranges over any number of arcs, weights, inhibitors and conditions at once.',
         ['Transition.cpp', 'Place.cpp'], [('isEnabled / execute', 'Transition.cpp'), ('token test', 'Place.cpp')],
         'path conditions of isEnabled/execute with loop summaries, compared to the definition on a finite decision table',
         'Loops over arcs are summarised as quantifiers; the table enumerates all combinations of present/absent arcs of each kind and boundary values of weight and count.'),
    prop('C06', 'Firing moves exactly the tokens of the arcs',
         'When a transition fires, each activation place loses exactly the weight of its arc, each destination place gains exactly the weight of its arc, no '
         'other place changes, and all tokens are taken before any is put. When it is not enabled no place changes. The caller is told truthfully whether it fired.',
         ['inputs', 'programs'], 'all nets, all weights, all paths through a firing',
         'Tests look at a few nets with weights of mostly one; the property is about every arc of every net.',
         ['Transition.cpp', 'Place.cpp'], [('execute', 'Transition.cpp'), ('enterPlace / exitPlace', 'Place.cpp')],
         'effect analysis of the firing path: each token movement is tied to the loop over arcs and the weight it uses',
         'An overflow in the middle of a firing (a destination with 2^64-1 tokens) is outside the property.'),
    prop('C07', 'Token counts change by exactly what enters and leaves',
         'The number of tokens of a place changes only by the exact number of tokens that enter or leave it, and never wraps around. Entering no tokens, '
         'entering more than can be counted, or taking more than there are is refused with an error that leaves the count as it was and starts no action.',
         ['inputs', 'schedules'], 'all token counts and amounts over the full range of the counter, all paths',
         'Tests sample a few small counts; the boundary cases span the whole 64-bit range.',
         ['Place.cpp', 'PlacesManager.cpp'], [('increase/decrease of the count', 'Place.cpp'), ('input event', 'PlacesManager.cpp')],
         'extraction of path conditions and values, tabulated over all boundary values (decision table)',
         'The comparisons are linear in count and amount, so the boundary values cover all orderings; expressions outside that form are inconclusive.'),
    prop('C08', 'Every movement of tokens starts the right action exactly once',
         'Whenever tokens enter a place its on-enter action is started exactly once, and whenever tokens leave a place its on-exit action is started exactly once, '
         'after the count changed; places without such an action start none, refused movements start none, and nothing else starts an action.',
         ['inputs', 'programs'], 'all places, all amounts of tokens, all paths of a movement and all operations of the engine',
         'Tests count the calls of a few mock actions; a second or missing start on a rare path goes unseen.',
         ['Place.cpp'], [('enterPlace / exitPlace', 'Place.cpp')],
         'path-sensitive call-multiplicity and argument analysis',
         'Which member holds which action is derived from the constructor, not from names.'),
    prop('C09', 'Actions in execution are counted exactly',
         'The count of actions in execution of a place, which holds back transitions that require none, goes up by one before an action starts and down by one after '
         'it ended, in every thread option, also when the action throws or no thread can be started; each started action runs once.',
         ['fault_sequences', 'schedules', 'configurations'], 'all executors, all normal and exceptional paths, also those of the deferred work on other threads',
         'A leaked count stops transitions forever, but only after an action throws or a thread fails to start, which tests do not provoke.',
         ['Executor/SingleThreadExecutor.cpp', 'Executor/DetachedExecutor.cpp', 'Executor/JobQueueExecutor.cpp', 'Executor/ActionInExecution.h', 'Place.cpp'],
         [('counting guard', 'Executor/ActionInExecution.h'), ('count looked at', 'Place.cpp')],
         'balance (typestate) analysis over all paths, following closures into the thread that runs them and to their destruction',
         'Closures and shared ownership are followed symbolically; a closure that is stored in an unknown container is inconclusive.'),
    prop('C10', 'A firing keeps other firings away from its places and always lets go',
         'While a transition fires, the activation places whose actions it watches are blocked from the moment before it judges them until after its tokens moved, so that no action of '
         'theirs can start in between; and however the firing ends, also with an exception, they are unblocked again.',
         ['schedules', 'fault_sequences'], 'all paths of a firing including every exceptional exit',
         'The window is a few instructions wide, and an exception at exactly this point is needed for a place to stay blocked for good.',
         ['Transition.cpp', 'Place.cpp'], [('block/unblock around a firing', 'Transition.cpp')],
         'typestate analysis of the block flag over all normal and exceptional paths',
         'Which places are blocked is read off the loops and path conditions; exceptions are considered at every call that may throw.'),
    prop('C11', 'Work left for another thread owns what it uses',
         'An action that is deferred to another thread, and every thread of the engine, only uses data that outlives it: it owns what it uses, or the object it uses '
         'waits for it before it is destroyed. Places and executors may go away while actions are still running.',
         ['schedules', 'programs'], 'all deferred closures, all started threads and all objects they refer to',
         'Use after free needs an action that outlives its place; tests keep their nets alive until all is done.',
         ['Executor/DetachedExecutor.cpp', 'Executor/JobQueueExecutor.cpp', 'JobQueue/JobQueue.h', 'EventLoop.h', 'PTN_EngineImp.cpp'],
         [('shared ownership of the counter', 'Place.h'), ('order of members', 'JobQueue/JobQueue.h'), ('stop in the destructor', 'PTN_EngineImp.cpp')],
         'ownership/escape analysis of closures and thread arguments; member-order and join-before-destroy analysis',
         'Assumes that streams and callbacks handed in by the user live as long as the engine uses them.'),
    prop('C19', 'Actions run the way the thread option says',
         'With each thread option actions are run the way the option names: at once by the firing thread (SINGLE_THREAD, EVENT_LOOP), one after another by a worker '
         '(JOB_QUEUE), each on a thread of its own (DETACHED). Setting an option affects all places, present and future, is what is answered afterwards, '
         'and is refused while the event loop runs; the names of the options in files identify them.',
         ['configurations', 'programs'], 'all options, also values out of range, all sequences of setting the option and creating places',
         'Tests combine few options with few nets; a place left with the old executor only shows in the other mode.',
         ['Executor/ActionsExecutorFactory.cpp', 'PTN_EngineImp.cpp', 'PlacesManager.cpp', 'ImportExport/ActionsThreadOptionConversions.cpp'],
         [('factory', 'Executor/ActionsExecutorFactory.cpp'), ('setActionsThreadOption', 'PTN_EngineImp.cpp'), ('names', 'ImportExport/ActionsThreadOptionConversions.cpp')],
         'exhaustive decision table over the options; value-flow of the executor to all places',
         'The kind of an executor (inline, queue, thread) is read off its paths.'),
    prop('C12', 'Queued actions run one at a time, in order, each once, none is left behind',
         'With JOB_QUEUE, the actions handed over run one at a time in the order they were handed over, each exactly once, and every action that was handed over is run: '
         'as long as there are any, a worker is at work, however adding an action and the end of the worker interleave, and also after a worker could not be started.',
         ['schedules', 'histories', 'fault_sequences'], 'all interleavings of additions with the rounds and the end of the worker; all paths including the failure to start a thread',
         'The window between the worker seeing the queue empty and saying so is a few instructions; a lost action shows only if an addition falls in it and no other follows.',
         ['JobQueue/JobQueue.cpp', 'JobQueue/JobQueue.h', 'Executor/JobQueueExecutor.cpp'], [('addJob / launch / run', 'JobQueue/JobQueue.cpp')],
         'lock-region (same hold) and typestate analysis of queue and worker flag over all paths of the adders and of the worker',
         'The roles of queue, mutex and flag are found from what addJob does; another design (e.g. a permanent worker) is inconclusive. Dropping jobs when the engine or the executor is destroyed is not judged.'),
    prop('C13', 'The event loop keeps up with the net and misses neither input nor stop',
         'The event loop examines the net again at once after something fired, otherwise after the sleep duration or as soon as an input event or a stop request arrives; neither '
         'can be missed, whenever it arrives, and while the loop sleeps it keeps nobody else from using the engine.',
         ['schedules', 'histories'], 'all points at which input or a stop request can arrive relative to a round and its wait',
         'A lost wake-up needs the event to fall between two instructions of the loop, and then only shows as a delay.',
         ['EventLoop.cpp', 'PTN_EngineImp.cpp'], [('run', 'EventLoop.cpp'), ('input event', 'PTN_EngineImp.cpp')],
         'analysis of the loop body, truth table of the wait predicate, order and lock-region analysis of announcement and notification',
         'No bound on scheduling or on the duration of a round is claimed. Design assumed: one condition variable, one announcement flag.'),
    prop('C14', 'Starting and stopping the event loop is reliable',
         'execute is refused without effect while the loop runs, otherwise it starts the loop or reports that it could not (SINGLE_THREAD alone executes on the calling thread, without a loop); the engine says it runs exactly from then '
         'until the loop has ended; after stop returns to any other thread the loop has ended and can be started again; stop may be called by the loop thread itself.',
         ['histories', 'fault_sequences', 'schedules'], 'all paths of execute, stop and the loop thread, including the failure to start a thread',
         'Failing thread creation and a stop that overlaps the end of the loop do not occur in tests.',
         ['EventLoop.cpp', 'PTN_EngineImp.cpp'], [('start / stop / run', 'EventLoop.cpp'), ('execute / stop', 'PTN_EngineImp.cpp')],
         'typestate analysis of the running flag and the loop thread over all normal and exceptional paths',
         'Concurrent calls of execute and stop are excluded by the engine lock (C02). An exception on the loop thread ends the program and is not judged.'),
    prop('C20', 'Execution goes on until nothing is enabled',
         'In the modes without a loop thread execute returns only after a round in which no transition fired, and goes on as long as one does. A round tries every transition of '
         'the net that was found enabled exactly once and answers truthfully whether one fired.',
         ['programs', 'inputs'], 'all nets, all rounds and all answers of the transitions',
         'Tests run small nets in which one round usually fires at most one transition.',
         ['PTN_EngineImp.cpp', 'TransitionsManager.cpp', 'EventLoop.cpp'], [('executeInt', 'PTN_EngineImp.cpp'), ('collecting', 'TransitionsManager.cpp')],
         'loop summaries (quantifiers over the collection of transitions) and path conditions of the exits of the loops',
         'That execution ends at all depends on the net and is not claimed.'),
    prop('C25', 'Conflicts are resolved at random, not by a fixed order',
         'Every round tries all enabled transitions in a freshly shuffled order whose source of randomness is seeded non-deterministically, so that no transition in conflict '
         'is always preferred.',
         ['programs', 'inputs'], 'all nets and all rounds, on every path between collecting and firing',
         'A test cannot tell a fixed order from a random one that happened to come out the same, nor a constant seed from a good one.',
         ['TransitionsManager.cpp', 'PTN_EngineImp.cpp'], [('shuffle', 'TransitionsManager.cpp')],
         'value-flow analysis from the collection of enabled transitions through the shuffle and its seed to the firing loop',
         'Only the construction is judged, not the statistics of its outcome.'),
    prop('C15', 'The net is not cleared, rewired or switched while the loop runs',
         'While the event loop of an engine runs, clearing the net, adding or removing arcs and changing how actions are executed are refused with a PTN_Exception and have no effect '
         'at all; while it does not run they do what they are asked to do.',
         ['programs', 'inputs'], 'all nets, all requests, all states of the loop',
         'A test has to have a running loop at the right moment, and cannot show that a refused operation changed nothing in every net.',
         ['PTN_EngineImp.cpp'], [('refusal while running', 'PTN_EngineImp.cpp')],
         'decision tables of the operations over small nets, extracted path by path, against an oracle',
         'Nets of up to two places and one transition; the code treats the elements alike, which the evaluation checks for the shapes listed.'),
    prop('C16', 'Names identify exactly one place, transition, action or condition',
         'Places, transitions, actions and conditions are found under exactly the name they were created or registered with: empty or existing names are refused and leave the '
         'registry as it was, unknown names are refused with a PTN_Exception, an existing entry is never replaced or renamed, and an input event reaches exactly the input place of that name.',
         ['inputs', 'histories'], 'all names and all histories of registrations',
         'A registry must treat all names and all orders of registration alike; tests register a few names once.',
         ['ManagedContainer.h', 'PlacesManager.cpp', 'TransitionsManager.cpp', 'PTN_EngineImp.cpp'], [('registries', 'ManagedContainer.h')],
         'decision tables of the registries over small sets of names, extracted path by path, plus a write analysis of the name fields',
         'Sets of up to two names.'),
    prop('C17', 'Building and rewiring a net does exactly what was asked, or nothing',
         'createPlace, createTransition, addArc and removeArc change exactly the named place, transition and kind of arc as requested - bidirectional arcs are both an activation and a '
         'destination arc - and a request that names something unknown, adds an arc or name twice, gives an activation, destination or inhibitor arc of a new transition (or a destination arc) '
         'the weight 0, or has an unknown type is refused with a PTN_Exception and leaves the net as it was.',
         ['inputs', 'histories'], 'all requests in all nets, arcs listed in any order and number',
         'The combinations of known and unknown names, duplicates, weights and types are many; the tests sample some of them.',
         ['PTN_EngineImp.cpp', 'Transition.cpp', 'TransitionsManager.cpp', 'PlacesManager.cpp'],
         [('arc lists', 'Transition.cpp'), ('createTransition', 'PTN_EngineImp.cpp')],
         'decision tables of the operations over small nets and requests, extracted path by path with everything they call, against an oracle',
         'Lists of up to two (thorough: three) arcs. Whether addArc refuses weight 0 for activation and inhibitor arcs is left open.'),
    prop('C18', 'What is exported is what is imported',
         'Exporting a net and importing the file into an empty engine gives the same net: places with their tokens, input flags, names of actions, transitions with condition names and the '
         'no-actions flag, arcs with kinds and weights, and how actions are executed. An exporter can be used again without mixing nets; a file that cannot be written, cannot be read or '
         'holds values that are no numbers, kinds or options, or a net that the engine refuses, is reported with an exception and never read as something else.',
         ['inputs', 'fault_sequences'], 'all nets and all names, token counts and weights; all texts of the values in the file',
         'The tests round-trip one net with small numbers and no special cases.',
         ['ImportExport/IFileExporter.cpp', 'ImportExport/IFileImporter.cpp', 'ImportExport/XML/src/XML/XML_FileExporter.cpp',
          'ImportExport/XML/src/XML/XML_FileImporter.cpp', 'PTN_EngineImp.cpp'],
         [('export order and completeness', 'ImportExport/IFileExporter.cpp'), ('strict reading', 'ImportExport/XML/src/XML/XML_FileImporter.cpp')],
         'abstract interpretation of exporter and importer over a symbolic document tree, composed, and compared with the net that went in',
         'Nets of up to two (thorough: three) elements of each kind with extreme token counts and weights; the XML library itself is modelled from its documentation. '
         'Unnamed functions have no name to export and are outside; import of half a file may leave half a net.'),
    prop('C22', 'What the engine reports is what the net is',
         'The number of tokens, the properties of places and transitions, the printed state and the log show exactly the places, tokens, arcs, weights, types, conditions and flags the net '
         'has, each once and under its name; the log is printed exactly when it was asked for, on the stream that was given; the sleep duration answered is the one last set.',
         ['inputs', 'histories'], 'all nets and all markings',
         'Tests compare the reports of a few nets.',
         ['PTN_EngineImp.cpp', 'PlacesManager.cpp', 'TransitionsManager.cpp', 'Place.cpp', 'Transition.cpp'],
         [('printState', 'PTN_EngineImp.cpp'), ('getTransitionProperties', 'TransitionsManager.cpp')],
         'value-flow evaluation of the observers over small nets, extracted path by path, against the net itself',
         'Nets of up to two places and two transitions; the layout of the text is free as long as names and tokens can be told apart.'),
    prop('C23', 'An operation that fails leaves the engine as it was',
         'When an operation of the engine other than the execution of the net fails with an exception, places, tokens, transitions, arcs, registered functions and settings are as they '
         'were before the call.',
         ['fault_sequences', 'inputs'], 'all operations, all reasons to fail, all nets',
         'The failing paths are many, tests check that the exception is thrown but not that nothing else changed.',
         ['PTN_EngineImp.cpp', 'Transition.cpp', 'Place.cpp', 'ManagedContainer.h'], [('checks before changes', 'PTN_EngineImp.cpp')],
         'path-sensitive effect analysis: state before and after on every path that ends in an exception',
         'Exceptions out of memory allocation and import of half a file are outside; execution itself is covered by C05 to C07 and C14.'),
    prop('C24', 'Each public operation performs the operation of the same name',
         'Every public operation of PTN_Engine performs, exactly once and on its own net, the operation it names, with the arguments it was given, each in its place, and gives back its '
         'result; it changes nothing else.',
         ['programs', 'inputs'], 'all public operations with all arguments',
         'An interchanged argument or a dropped result shows only for some values.',
         ['PTN_Engine.cpp', 'PTN_EngineImpProxy.cpp'], [('delegation', 'PTN_Engine.cpp')],
         'path-sensitive delegation analysis through the facade and the synchronised layer',
         'Every path of every public operation is enumerated.'),
    prop('C21', 'Failures are reported as PTN_Exception and nothing missing is used',
         'Whatever goes wrong in a public operation of the engine, an exporter or an importer is reported with an exception derived from PTN_Exception - unless a function of the user '
         'threw it or a resource of the system (thread, memory) was not to be had - and no operation calls an empty function, dereferences a null pointer or the end of a collection, or '
         'depends on a variable without a value.',
         ['inputs', 'programs'], 'all public operations, all arguments, all nets',
         'Each failure needs its own input; tests check some of the messages and never the one nobody thought of.',
         ['PTN_Engine.cpp', 'PTN_EngineImp.cpp', 'PlacesManager.cpp', 'TransitionsManager.cpp', 'ManagedContainer.h', 'Transition.cpp', 'Place.cpp', 'include/PTN_Engine/PTN_Exception.h'],
         [('exception types', 'include/PTN_Engine/PTN_Exception.h'), ('lookups', 'ManagerBase.h')],
         'exception analysis over the call graph with path-sensitive pruning, plus use analysis of null, end and uninitialised values',
         'Exceptions of memory allocation are outside.'),
    prop('C26', 'A new engine is empty, stopped and set up as asked',
         'A new engine has no places, transitions or functions, its loop does not run and it executes actions the way the caller asked for; every field of built-in type of every '
         'object of the engine and of the properties passed to it has a definite value from construction on.',
         ['programs'], 'all constructors of all classes, all options',
         'A field without a value usually happens to be zero in a test.',
         ['PTN_Engine.cpp', 'PTN_EngineImp.cpp', 'EventLoop.h', 'include/PTN_Engine/PTN_Engine.h', 'Place.h', 'Transition.h', 'JobQueue/JobQueue.h'],
         [('defaults', 'include/PTN_Engine/PTN_Engine.h'), ('constructors', 'PTN_EngineImp.cpp')],
         'definite-initialisation analysis of all constructors and default member initialisers; the constructor of the engine with everything inlined',
         'Every field of every class of the library is an obligation.'),
    prop('C27', 'Every transition in conflict is chosen with equal probability',
         'Among the transitions enabled at the start of a round each order of trying them is equally likely, round after round.',
         ['histories', 'schedules'], 'all nets, long runs',
         'A statistical property over unboundedly many runs; tests see single outcomes.',
         ['TransitionsManager.cpp'], [('shuffle', 'TransitionsManager.cpp')], '', ''),
    prop('C28', 'An input event is acted upon within a bounded time',
         'When the loop runs, the transitions an input event enables fire within the configured sleep duration plus the time the work takes, however busy the engine is.',
         ['schedules', 'histories'], 'all nets, loads and schedules',
         'Bounds on time depend on the scheduler and the load.',
         ['EventLoop.cpp', 'PTN_EngineImp.cpp'], [('loop', 'EventLoop.cpp')], '', ''),
    prop('C29', 'Execution comes to an end when the net does',
         'execute returns, and stop and the destruction of the engine complete, in every net that reaches a marking in which nothing is enabled.',
         ['programs', 'inputs'], 'all nets and all functions of the user',
         'Termination over all nets; tests run nets that do.',
         ['PTN_EngineImp.cpp', 'EventLoop.cpp'], [('executeInt', 'PTN_EngineImp.cpp')], '', ''),
]


def main(extra_na=()):
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            a = {'files': [P + f for f in p['files']], 'mechanism': [{'name': n, 'where': P + w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': P + w} for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = list(p['observe'])
            a['hook_needed'] = None
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    na = {n[0]: n[1] for n in NA}
    m = {'version': 1, 'setup_cmd': 'bash tool/build.sh',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': TRUST + p['note']}
                    for p in PROPS if p['id'] not in na],
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
         'notes': 'Static analysis only: the sources are parsed by a libTooling tool (tool/extract.cpp) and interpreted abstractly (sa/); nothing of ptn-engine is executed. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
