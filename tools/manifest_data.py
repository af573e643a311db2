NOTES = "Every check is one rule set of the analyzer in /verif/analyzer: it loads, type-checks and builds SSA of /repo's current tree and decides from that alone."
CHECKS = {
 'C02': ('interprocedural typestate analysis over SSA (path-sensitive, summaries, fixpoint): saved states per context',
         'Decided for all paths of all entry points and host functions, up to the abstraction: values other than nil, booleans and small constants are unknown.'),
 'C03': ('interprocedural typestate analysis over SSA, correlated with the returned error and output code',
         'Decided for all paths of the nested execution entry points; what the push/pop implementations do is C01.'),
 'C01': ('field-sensitive interprocedural data-flow (points-to with deep-copy tracking) over SSA of the Push/Pop/Init implementations',
         'Decided for every field of every context: what push stores and pop puts back, independence of copies from the live state, reset at top level. Method bodies only; aliasing through other packages is not followed.'),
 'C04': ('interprocedural typestate analysis over SSA with crash edges: reset, release and answer of top-level executions',
         'Decided for all paths of the top-level entry points; a crash is injected at every call that leaves the host package.'),
 'C05': ('interprocedural lock typestate over SSA with crash edges, plus guarded-by obligations',
         'Decided for all paths of all operations of the VM and of the VM driver; one VM and one driver are considered.'),
 'C16': ('type-level cross-check of import tables, cgo export declarations and Go implementations',
         'Decided for every entry of every import table; cgo declarations are read from the preamble of the same file.'),
 'C06': ('interprocedural typestate analysis over SSA with tracking of values computed from the gas schedule: paid before used',
         'Decided for all paths of every host function and its helpers; amounts are not bounded, only that a schedule entry was charged first.'),
 'C09': ('taint analysis plus demand-driven bounds proof (ABCD style) over SSA',
         'Decided for every selection that depends on an integer a contract chooses or on the number of its arguments; other selections are outside the property.'),
 'C07': ('backward slice of gas amounts plus demand-driven no-overflow proof over SSA; saturation of the math package by path conditions',
         'Decided for every addition, subtraction, multiplication and conversion whose result reaches a gas amount, a cost or a byte count that is charged; arithmetic of the engine itself is outside.'),
 'C08': ('typestate analysis over SSA (path-sensitive, interprocedural): failed operations until they are answered; unused-error analysis',
         'Decided for all paths of every host function with its helpers, and for the error answers of every function of the contexts and the host.'),
 'C10': ('interprocedural typestate analysis over SSA: changes of the result only where the mode was found not to be read-only; mode typestate',
         'Decided for all paths of every host function into the host and the contexts; transfers are taken to move something, which is why the recorded findings exist.'),
 'C11': ('interprocedural typestate analysis over SSA with crash edges: keys compared with reserved prefixes before a write, protection flag, storage in use; provenance of keys and addresses',
         'Decided for every write to storage updates, all paths of all storage operations and host functions.'),
 'C12': ('path-sensitive typestate over balance changes, provenance of transferred amounts and accounts, call-graph reachability of the credit',
         'Amounts are compared as symbolic identities; big integers are assumed not to be changed in place between the comparison and the use; the protocol functions\' own outputs are trusted.'),
 'C20': ('object-sensitive label flow (key, message, signature) plus path-sensitive typestate over parsing, form checks and verification',
         'All paths of every scheme and of the host functions; the libraries\' own verification is trusted.'),
 'I01': ('cross-checking of the protocol tables (kinds, decoders, names, handlers) against the types messages are built, decoded and asserted as; path-sensitive exploration of both message loops for every kind',
         'Every kind a message is built with is checked; both loops are explored once per kind.'),
 'I02': ('inter-procedural label data flow from each question through the request, the handler of its kind on the other side and the answer back; path-sensitive exploration of failure paths',
         'Argument and answer parts are followed field by field across the process boundary; assumes the marshalizers carry exported fields unchanged.'),
 'I03': ('inter-procedural label data flow of inputs, results and accounts through both conversions; syntactic completeness of the copying loops; type query for texts that JSON cannot carry',
         'Followed to the leaves of the types; assumes the marshalizers carry exported fields unchanged.'),
 'I04': ('path-sensitive typestate exploration of the driver, the messenger, the receiver and both loops with failing calls',
         'Message numbers and times are explored at representative values (equal, one off, far off, wrapped).'),
 'M01': ('field-and-name correspondence between readers and writers of the scenario format, by data flow over SSA (which name each model field is read under and written under); path-sensitive exploration of the presence flags',
         'Decided for every field of every structure of the scenario model; that a written value is interpreted as the same bytes is M05, that files are otherwise well-formed JSON is assumed.'),
 'M03': ('path-sensitive typestate exploration of every scenario transaction with crash-free failing calls: snapshot, commit or rollback exactly once, before any use of the world',
         'All paths of the transaction executor with every callee either succeeding or failing; what rollback restores is W01.'),
 'M04': ('path-sensitive typestate exploration over SSA of every reader of the scenario format: entries of objects until their name is recognised, pieces of JSON until their kind is checked, failed steps until they are reported; exploration of the JSON reader per character',
         'Decided for all paths of every reader, with every call succeeding and failing; objects are identified by the value they are read from.'),
 'M02': ('path-sensitive typestate exploration over SSA of the scenario executor: each expectation of each structure stays open until it is compared with its counterpart in the world or the result (table) or the author left it open; differences stay pending until they are reported; loops take up every part; symbolic reading of the comparison methods',
         'Decided for all paths of all checking functions, by summaries per parameter; the counterparts are a table by field, a helper or a loop may be written in any way.'),
 'M05': ('symbolic templates of the texts written for values, computed over SSA across function calls, compared with the notations extracted from the source of the interpreter (prefixes, skipped lengths, widths, separators, layout of addresses); dataflow comparison of the source of a text with the source of its value',
         'texts put together in ways the template evaluation does not follow (e.g. a strings.Builder filled in a loop) are counted but not judged; the arithmetic of the number notations is taken as the standard library has it'),
 'W01': ('label data flow from the account to its clone and aliasing of what the clone holds, over SSA; every-iteration and every-path obligations on the loops that clone, remove, bring back and reload accounts; provenance of the snapshot list',
         'Decided for every field of an account and of the world, and all paths of taking, returning to and dropping snapshots; the simulated blockchain puts back storage and existence only, which is recorded as findings for the parts built-in functions change.'),
 'C15': ('path-sensitive typestate over the SSA of the host: every failing step of every execution path, every declared stop condition, and the error-to-code table evaluated symbolically from the source',
         'all paths of the seven entry points with every external step succeeding or failing; asynchronous handling is one step that succeeds or fails; two genuine defects listed as known findings'),
 'C13': ('path-sensitive typestate over the SSA (validated -> initialised -> deployed, permission before upgrade), per-iteration obligations of the validation loops, effect analysis of the writes of code',
         'all paths of the four ways to deploy and of starting an instance; two genuine defects listed as known findings'),
 'C14': ('path-sensitive typestate over the SSA, once per function name, call type and permission; effect analysis of the inputs the VM makes',
         'all combinations of four classes of names, all call types and both permissions; two genuine defects listed as known findings'),
 'C18': ('path-sensitive typestate of loading and applying a schedule; enumeration of all costs, names, opcode numbers and published schedules',
         'every section decoded under its own name, zero-checked and stored on every accepting path; the zero check judged over symbolic fields; every opcode given its own cost; numbering of opcodes pinned to data/opcodes.txt; all published schedules complete; a schedule is put into use for API calls, opcodes and answers together or not at all'),
 'C19': ('ownership typestate: abstract execution of the runtime context over every kind of entry state (what is current, on the stack, kept for reuse), of the host with failures and crashes injected, and of the native handles',
         'Every path of StartWasmerInstance, CleanWasmerInstance, ResetWarmInstance and the pushes and pops of the runtime context is explored over abstract entry states: each instance is held or released at exit, released at most once, never used after that, the caller never loses its own, and none is created at the maximum. The host entry points are explored with every start and run failing or crashing. Native handles of the wasmer package are released or handed over on every path. That an overwritten warm instance leaks is a known finding (warm mode is never enabled here).'),
 'C21': ('symbolic evaluation of the functions that register, make, send and answer asynchronous calls into terms over what the contract asked for, once for each answer of the questions they ask (shard, code, built-in, gas, result); trace and terms compared with what the property demands',
         'every exit of the functions concerned; promise lists decided for up to two contexts with two calls; storage of pending promises not analysed'),
 'C17': ('effect and commutativity analysis of every loop over a map that a call to the VM can reach (call graph over the SSA form), plus reachability of every source of chance or time (clock, random numbers, environment, goroutines, select, addresses as numbers), plus error-flow analysis for errors whose text depends on map order',
         'all map loops reachable from the exported methods of vmHost and from NewArwenVM; the wasmer library itself, whose source is not in the repository, is assumed to be deterministic (N02)'),
 'C22': ('symbolic evaluation of each function into decisions (what is found on the way, what is written, what is answered, as terms over its arguments), compared pairwise with a table of what each function means',
         'all big-integer and small-integer functions without loops and the handle table; math/big and twos-complement are trusted; gas is left out (C06, C25)'),
 'C23': ('symbolic evaluation of each function into decisions (questions on the way, effects in order, answer, as terms over its arguments and what the blockchain says), compared pairwise with a table of what each function means',
         'the functions without loops over arguments (12 functions that load lists of arguments are decided by C09, C12, C13 and C21 instead); gas is left out'),
 'C24': ('symbolic evaluation of the storage context and of the storage functions into decisions over the recorded updates and the values of the blockchain, compared pairwise with a table of what each function means',
         'all ways through the storage functions; maps are followed by key term; the storage of the node behind GetStorageData is not part of the repository'),
 'C25': ('symbolic evaluation of the metering context into sums over the amounts involved, compared pairwise with a table of what each function means',
         'every function of the metering context except the loop over the used gas of accounts; terms are over unbounded integers, wrapping is C07'),
}
NA = {
 'N01': 'The sum ranges over gas amounts computed at run time by the execution engine and over call trees of any depth; a static argument would have to bound the engine\'s own counter, which is native code outside the repository. The parts that can be decided from the source are C06 (paid first), C07 (no wrap), C01/C03 (bookkeeping restored) C21 (gas taken from the caller) and C25 (the sums of the meter).',
 'N02': 'The engine that executes and meters WebAssembly is a prebuilt native library (wasmer/libwasmer_*) whose source is not in the repository, and the Linux build of it is missing here; only the Go side that hands it the costs is in reach and is C18.',
 'N04': 'Progress under arbitrary behaviour and timing of another operating-system process (scheduling, pipes, signals) is a liveness property over run-time schedules; what the source decides of it (each failure ends the dialogue, loops are bounded by the timeout check) is I04.',
}
