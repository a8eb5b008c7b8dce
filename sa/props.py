"""Which rule groups decide which property, in which configurations."""

CONFIGS = {
    'release': ((), ()),
    'debug': (('-DDEBUG',), ()),
    'nonuma': ((), ('SYNCH_NUMA_SUPPORT',)),
    'emulated': (('-DSYNCH_EMULATE_FAA', '-DSYNCH_EMULATE_SWAP'), ()),
    'padded': ((), ('SYNCH_COMPACT_ALLOCATION',)),
    'norecycle': (('-DSYNCH_POOL_NODE_RECYCLING_DISABLE',), ()),
    'nobackoff': (('-DSYNCH_DISABLE_BACKOFF',), ()),
    'emudebug': (('-DDEBUG', '-DSYNCH_EMULATE_FAA', '-DSYNCH_EMULATE_SWAP'), ()),
}

Q = ['release']
T = ['release', 'debug', 'nonuma', 'padded']
COMB = ['cc', 'dsm', 'hsynch', 'osci', 'oyama', 'fc']
LOCKS = ['mcs', 'clh']
SIM = ['sim', 'simstack', 'simqueue']
QS = ['ccqueue', 'dsmqueue', 'hqueue', 'osciqueue', 'fcqueue']
SS = ['ccstack', 'dsmstack', 'hstack', 'oscistack', 'fcstack']
LF = ['lfstack', 'lfuobject', 'msqueue']
CINIT = ['ccinit', 'dsminit', 'oyinit', 'fcinit', 'osciinit', 'hinit']
TS = 'path-sensitive typestate/data-flow analysis of %s over LLVM IR (abstract interpretation, custom rules)'

PROPS = {
    'C01': dict(groups=COMB + CINIT, quick=Q, thorough=T, technique=TS % 'the request nodes',
                rule='Typestate rules over every abstract path of each ApplyOp: a request is filled before it is announced, '
                'applied with its own content by the given function, its result stored before it is completed, and read '
                'back by its owner only after that.'),
    'C02': dict(groups=COMB + CINIT + ['waitdsm', 'waitosci', 'waitfc'], quick=Q, thorough=T, technique=TS % 'the combiner role',
                rule='Typestate rules over every abstract path of each ApplyOp: operations are applied only after the path '
                'saw the right to combine, and every path that has it passes it on or frees the object exactly once, after '
                'the last application.'),
    'C03': dict(groups=LOCKS + ['clhinit', 'waitlocks'], quick=Q, thorough=T, technique=TS % 'lock ownership',
                rule='Typestate rules over every abstract path of Lock and Unlock: enqueue by one swap of the own node after '
                'it was marked, wait for the predecessor, hand over to the successor exactly once.'),
    'C04': dict(groups=QS + ['msqueue', 'simqueue', 'siminit', 'lcrq'] + COMB, quick=Q, thorough=T, technique=TS % 'the queue operations',
                rule='Sequential-effect rules over every abstract path of the combined enqueue and dequeue functions and '
                'their wrappers, and step rules over the lock-free queues.'),
    'C05': dict(groups=SS + ['lfstack', 'simstack', 'siminit'] + COMB, quick=Q, thorough=T, technique=TS % 'the stack operations',
                rule='Sequential-effect rules over every abstract path of the combined push and pop functions and their '
                'wrappers, and step rules over the lock-free stack.'),
    'C06': dict(groups=QS + SS + LF + ['simstack', 'simqueue', 'lcrq'], quick=Q, thorough=T, technique=TS % 'argument and result values',
                rule='Value-flow rules: the 64-bit argument reaches the node unchanged, the value handed back is the one the removed node '
                'holds, and the documented empty or push value is returned in exactly the documented cases.'),
    'C07': dict(groups=['clhhash', 'dsmhash', 'clh', 'clhinit', 'dsm'], quick=Q, thorough=T, technique=TS % 'the hash table operations',
                rule='Sequential-effect rules over every abstract path of the serial table operations (bucket choice, list '
                'search, insertion, unlinking of exactly the matching node) and of the wrappers that run them under the lock '
                'or combiner of their bucket.'),
    'C08': dict(groups=QS + SS + LF + ['pool', 'simstack', 'simqueue', 'siminit'], quick=['release', 'norecycle'], thorough=T + ['norecycle'], technique=TS % 'node ownership',
                rule='Ownership rules over every abstract path: a node is taken from the caller\'s pool, linked once, and given back only '
                'after it was unlinked by the same operation and is no longer the guard of the queue; failed operations give nothing back.'),
    'C09': dict(groups=['pool'], quick=['release', 'norecycle'], thorough=T + ['norecycle'], technique=TS % 'pool blocks and objects',
                rule='Effect rules over every abstract path of the pool functions: which entry is handed out, which counters move '
                'by how much, how blocks are linked, how recycled objects are chained, and that all blocks are released.'),
    'C10': dict(groups=SIM + ['siminit'], quick=Q, thorough=T, technique=TS % 'the operations of the Sim objects',
                rule='Rules over every abstract path of an operation: the request is announced, the own bit toggled once, and each attempt '
                'applies exactly the requests whose bit differs between the copied record and the toggles it installs, once each, with the '
                'announced argument and the result stored for its thread; an operation returns only after it was applied.'),
    'C11': dict(groups=SIM + ['siminit'], quick=Q, thorough=T, technique=TS % 'the private records and the switch of the Sim objects',
                rule='Ownership rules over every abstract path: only the own next record is written and never after it was published, the copy '
                'is complete, place for place, and validated before it is used, and the switch is one CAS from the validated value to the '
                'prepared record with the next stamp.'),
    'C12': dict(groups=LF, quick=['release', 'nobackoff'], thorough=T + ['nobackoff', 'emulated'], technique=TS % 'one attempt of a lock-free operation',
                rule='Step rules over every abstract path of the lock-free operations: one successful CAS per operation, from a state read in '
                'the same attempt and with a node prepared after that read, and no visible effect of a failed attempt.'),
    'C13': dict(groups=['lcrq'], quick=Q, thorough=T + ['emulated'], technique=TS % 'the rings and cells of LCRQ',
                rule='Step rules over every abstract path of one attempt: which accesses may change a ring, a cell or the queue, from which '
                'values that the same attempt read, and what the attempt must have seen before it ends, leaves a cell or leaves a ring.'),
    'C14': dict(groups=['barrier'], quick=Q, thorough=T, technique=TS % 'barrier rounds',
                rule='Typestate rules over every abstract path of arrival and departure: each counter is moved once per thread, the last one '
                'of a phase resets the other counter before it opens the phase, and waiting threads watch the flag of their phase.'),
    'C15': dict(groups=['threads', 'uthreads'], quick=Q, thorough=T, technique=TS % 'starting and joining threads and fibers',
                rule='Effect rules over every abstract path: thread and fiber i gets id i from loops that provably cover 0..N-1, runs the '
                'function once with it, leaves the barrier of the join after it returned, and the join waits for the barrier and for each handle.'),
    'C16': dict(groups=['uthreads'], quick=Q, thorough=T, technique=TS % 'the fiber table and the running fiber',
                rule='Typestate rules over every abstract path of creating, yielding and finishing a fiber: slots seen free or active before '
                'use, the state saved in the own slot, the next active slot in turn continued, stacks released once and by another fiber.'),
    'C17': dict(groups=['atoms'], quick=['release', 'debug', 'emulated'], thorough=['release', 'debug', 'emulated', 'emudebug', 'nonuma'],
                technique='effect analysis of the atomic wrappers over LLVM IR (symbolic values without a solver, custom rules)',
                rule='Every path of each atomic wrapper contains exactly one effective atomic instruction, on the whole of the given '
                'location, with sequentially consistent ordering or a memory clobber, computes the documented new value and returns '
                'the documented result; a failing path writes nothing.'),
    'C18': dict(groups=['mem', 'hinit', 'threads', 'uthreads'], quick=['release', 'nonuma'], thorough=T,
                technique='effect analysis of the allocation functions over LLVM IR (custom rules)',
                rule='On every path of the allocation functions the underlying request covers the size and alignment, failure ends the '
                'program with a report, and the block is released by the function of the same family with the same size.'),
    'C19': dict(groups=CINIT + QS + SS + LF + LOCKS + ['clhinit', 'clhhash', 'dsmhash', 'pool', 'tvec', 'lcrq', 'threads', 'uthreads'] + SIM + ['siminit'],
                quick=Q, thorough=T, technique='symbolic size and index analysis of initialisation and operations over LLVM IR (custom rules)',
                rule='Every array that an operation indexes by a thread, fiber, node, bucket or bit is a block of its own whose size, as a symbolic '
                'expression of the parameters, covers the largest index used; the parts of different threads do not overlap.'),
    'C20': dict(groups=['tvec'] + SIM + ['siminit'], quick=Q, thorough=T, technique='effect and index analysis of the toggle-vector functions over LLVM IR (custom rules)',
                rule='Each function touches exactly the word, bit and range of words that its documentation names, and computes the documented '
                'bitwise combination; vectors have a word for every bit.'),
    'C21': dict(groups=['placement', 'threads'], quick=['release', 'nonuma'], thorough=T, technique='path-sensitive range and divisor analysis of the placement functions (custom rules)',
                rule='On every path the result is a remainder by, or known below, the number of cores or nodes, every divisor is known positive, '
                'and the policy used and reported is the one set, within the supported ones.'),
    'C22': dict(groups=['cli'], quick=Q, thorough=['release', 'debug'],
                technique='table extraction and path-sensitive effect analysis of the argument parser (custom rules)',
                rule='The documented options are extracted from the help text and compared with the option tables; on every path of the '
                'parser each option stores its converted value to exactly its setting, and the derived settings are computed as documented.'),
    'C23': dict(groups=['rand', 'backoff'], quick=['release', 'nobackoff'], thorough=['release', 'nobackoff', 'debug', 'padded'],
                technique='interval and bit-mask abstract interpretation (custom domains)',
                rule='Interval rules over the random number functions, and an inductive bit-mask invariant over the functions that change '
                'a back-off.'),
    'C24': dict(groups=['waitcc', 'waitdsm', 'waith', 'waitosci', 'waitoyama', 'waitfc', 'waitlocks', 'waitlf', 'waitprims', 'waitsim', 'threads',
                        'uthreads', 'barrier'],
                quick=Q, thorough=T, technique='liveness of loop rounds in a frozen memory: path-sensitive analysis over LLVM IR (custom rules)',
                rule='With the memory frozen, every loop round that repeats without end reads the awaited location again by an access that the '
                'compiler must keep, and calls the scheduler; the scheduler gives the core to the next fiber or thread.'),
    'C25': dict(groups=COMB + LOCKS + LF + SIM + ['lcrq', 'barrier', 'atoms'] + QS + SS +
                ['waitcc', 'waitdsm', 'waith', 'waitosci', 'waitoyama', 'waitfc', 'waitlocks', 'waitlf', 'waitprims'], order=COMB + LOCKS + LF + SIM + ['lcrq', 'barrier'] + QS,
                rules=('announce', 'serve', 'fresh-node', 'publish', 'observe', 'wait', 'link', 'handover', 'argument', 'own-node', 'copy', 'read'),
                quick=Q, thorough=T, technique='order analysis of plain, volatile and atomic accesses on every path over LLVM IR (custom rules)',
                rule='On every path of the operations data is written before, and read after, the access that hands it over; no plain store is '
                'pending when a volatile store publishes, no plain load of changing data follows a volatile load that it does not depend on '
                'without a compiler barrier, and awaited locations are read by accesses that the compiler must keep.'),
    'C26': dict(groups=CINIT + QS + SS + LF + LOCKS + ['clhinit', 'clhhash', 'dsmhash', 'pool', 'tvec', 'lcrq', 'threads', 'uthreads', 'barrier', 'backoff'] + SIM + ['siminit'],
                quick=Q, thorough=T, technique='must-define analysis of the initialisation functions over LLVM IR (custom rules)',
                rule='On every path of an initialisation each member, element and record that an operation reads before it writes it is defined, with the '
                'value that an empty object has.'),
    'C27': dict(groups=['globals'] + CINIT + QS + SS + LF + LOCKS + ['clhhash', 'dsmhash', 'pool', 'lcrq'] + SIM + ['siminit'], quick=Q, thorough=T,
                technique='escape and write analysis of global and thread-local variables, value-flow of instance pointers over LLVM IR (custom rules)',
                rule='No function of an object writes or hands out a variable that instances share, except a pool of free nodes through the pool '
                'functions; every operation and initialisation works on the instance, thread state and blocks it was given.'),
    'C28': dict(groups=['stats'], quick=['debug', 'emudebug'], thorough=['debug', 'emudebug'],
                technique='effect counting over every path of the instrumented primitives (custom rules)',
                rule='On every path of each atomic wrapper the counters grow by exactly the primitives executed and failed; totals are '
                'added atomically from the thread-local counters; each reported value is the documented combination of totals.'),
}

Q3 = ['release', 'debug', 'nonuma']
for _p in PROPS.values():
    if _p['quick'] == Q:
        _p['quick'] = Q3


def _imp(pid, groups, tags):
    d = PROPS[pid].setdefault('implied', {})
    for g in groups:
        d[g] = d.get(g, frozenset()) | frozenset(tags)


# A rule of one property whose violation also breaks another one: a queue that runs on a combiner that loses
# operations loses elements, and so on.
C12 = ('C01', 'C02', 'C10', 'C11', 'C12', 'C13')
_imp('C04', QS + ['msqueue', 'simqueue', 'lcrq'] + COMB, C12 + ('C06', 'C08'))
_imp('C05', SS + ['lfstack', 'simstack'] + COMB, C12 + ('C06', 'C08'))
_imp('C07', ['dsm'], ('C01', 'C02'))
_imp('C07', ['clh'], ('C03',))
_imp('C10', SIM, ('C11', 'C20'))
_imp('C12', LF, ('C04', 'C05', 'C06'))

NA = {
    'C29': 'It quantifies over whole concurrent histories of unbounded length; a static argument would need a per-object '
           'linearization proof. The step-local conditions that static analysis can decide are claimed as C01-C13 instead.',
    'C30': 'It bounds steps over all schedules, a liveness property of the interleaving; no static rule on the source decides '
           'it (the fixed number of attempts of the Sim objects is part of C10).',
    'C31': 'The only processors that the fences matter for (SPARC, ARM) cannot be targeted by the build here, and the order of '
           'visible effects under a weak memory model is a property of executions; compiler-level order is claimed as C25.',
    'C32': 'Throughput and cache misses are quantities measured at run time; nothing in the source decides them.',
}
