HEAD = '''
# Deciding the properties of arwen-wasm-vm by static analysis

## Approach

All checks are one Go program, `/verif/analyzer`. `check.sh ID` builds it, loads `/repo`'s current working
tree with `go/packages` (type-checked, cgo processed, no network), builds the SSA form with a copy of
`golang.org/x/tools/go/ssa` and decides one property. Nothing of `/repo` is executed, no path is handed to a
solver. Every violation names a function and a position; `evidence/ID.json` lists the functions and
obligations that were analysed and the rule that was applied. Every rule set ends in *floors*: a minimal
number of constructs that must have been found (host functions, readers, loops, kinds of messages ...), so
that a rule whose subject has disappeared from the code is an alarm and not silence.

The parts the rules are made of:

* `engine.go`: path-sensitive, interprocedural typestate exploration of SSA (worklist over abstract states,
  function summaries, fixpoint over loops, deferred functions, injected crashes, correlation of results and
  branches; nil, booleans and small constants are tracked, everything else may go either way).
* `flow.go`: field-sensitive label data flow and points-to (what comes from where, copied or shared).
* `prove.go`: demand-driven proofs of bounds and of the absence of wrapping (ABCD style), in the function or
  in its callers.
* `terms.go`: symbolic evaluation into terms over the inputs of a function, used where the question is
  "which value is put here" (C21, M05), and as *decisions* - everything a function finds, does and answers on each way through it - for
  the functions offered to contracts and the contexts behind them (C22-C25, `checks_meaning.go`). A way of the
  current code and a way of the table that can be taken on the same occasion (their questions do not contradict
  each other) must do the same; questions put in unknown words only count where the known ones are answered too.
* `load.go`, `third_party/tools/go/ssa/inline_verif.go`, `normal_verif.go`: before the rules look at the SSA
  form, it is brought into a form that does not depend on how the code is written: calls of functions that
  are not in `data/functions.txt` (the names of the functions of the tree the rules were written for) are
  inlined, also closures that are called at once and bound method values, with several returns and deferred
  calls; constants go to the right of comparisons, negated conditions and `if !x` are turned around,
  comparisons on branches become `<`, `>` or `==`, temporaries of `&&`/`||` are threaded. A helper that is
  extracted, or a condition that is written the other way round, so leaves the rules where they were.
  `VERIF_NOINLINE=1` switches this off.
* Tables that are pinned because the repository has no other statement of them: `data/charges.txt` (which
  entry of the gas schedule each host function charges first; used by C06 to notice exchanged entries),
  `data/meaning.txt` (what each function offered to contracts means, written as decisions; reviewed line by
  line, one of them against the code, which was wrong: `getCallValueTokenName`; C22-C25),
  `data/opcodes.txt` (the numbering of WebAssembly instructions, which the binary engine assumes; C18).

## How the checks are tested

* *Planted bugs* (`seeded/`, table below): each with a demonstration that runs the real code. Most packages of
  the VM cannot be linked here, because `wasmer/libwasmer_linux_amd64.so` is not in the repository (which is
  why only 23 tests pass); the demonstrations link against a stand-in library whose functions do nothing
  (`demo.sh` makes it), or use only packages that need no wasmer.
* *Trial mutations* (`tools/mut.py`): several hundred small edits in a scratch copy, each run through its
  check; the numbers are given with each property. Misses were followed up until only edits without effect
  on behaviour were left.
* *Refactorings*: `tools/refactor` rewrites the whole repository without changing its behaviour, in 26 kinds
  (conditions turned around or negated, De Morgan, `switch` for `if` and the reverse, `else` inverted, early
  returns nested, loops rewritten, arguments, receivers and results through temporaries, bodies, tails and
  blocks extracted into helpers, functions wrapped, deferred functions named, declarations reordered, locals
  renamed); `tools/refall.sh KIND` runs every check on the result. All checks are quiet on all kinds (one
  exception: with *every* method call turned into a method value, M04 no longer recognises one crash guard).
  Besides, each property had its own set of hand-made refactorings.

## Defects: repaired or recorded

A defect was repaired ("fix:" commits in /repo) when the repair is local and does not change what the chain
computes: the process boundary, the scenario tools, the simulated blockchain, leaks, rejected schedules.
A defect whose repair changes gas or results of contracts that are already on the chain needs an activation
epoch; such a repair is not small and safe, so these are in `known_findings.txt` by function and effect, and
another violation of the same property is still reported. The mode with warm instances
(`UseWarmInstance`) is never switched on in this repository; its defects are recorded.
'''
ORACLE = {
 'C22': 'data/meaning.txt, in terms of math/big operations and of their operands.',
 'C23': 'data/meaning.txt.',
 'C24': 'data/meaning.txt.',
 'C25': 'data/meaning.txt.',
 'C01': 'the fields of the types themselves: whatever a context declares as its state must be saved and put back.',
 'C06': 'the gas schedule (config package) and data/charges.txt.',
 'C16': 'the three independent statements of each host function: import table, cgo preamble, Go signature.',
 'C18': 'the published schedules (config/*.toml maps in the source), the fields of the cost structures, data/opcodes.txt.',
 'I01': 'the tables of kinds, names and decoders against the types at the places messages are built and read.',
 'M01': 'the reader is the oracle of the writer: every field that can be read must be written under the same name.',
 'M05': 'the interpreter of values is the oracle of everything that writes values.',
 'W01': 'the fields of the account type.',
 'C15': 'the list of breakpoint values and the error-to-return-code table in the source.',
}
TRIALS = {
 'C22': 'with C23-C25: about 42 mutations written by hand, all caught; 22 refactorings written by hand and 20 kinds of refactoring of the whole repository quiet.',
 'C17': '19 mutations all caught; 11 refactorings quiet.',
 'C21': '36 mutations all caught; 17 refactorings quiet.',
 'C19': '31 mutations, one (without effect on behaviour) missed; 12 refactorings quiet.',
 'C18': '32 mutations, two (without effect) missed; 14 refactorings quiet; a table-driven rewrite of CreateGasConfig raises an alarm.',
 'C15': '26 mutations, all caught except `>` for `>=` in checkFinalGasAfterExit and one that is C13\'s; 10 refactorings quiet.',
 'C13': 'with C14: 46 mutations, one (no violation) missed; 17 refactorings quiet.',
 'C14': 'see C13.',
 'W01': '28 mutations caught; 12 refactorings quiet.',
 'M05': '34 mutations caught; 14 refactorings quiet.',
 'M01': 'all mutations caught except a writer that puts "logs":"" for "*"; 8 refactorings quiet.',
 'M04': '18 mutations caught, 1 tolerable miss; 8 of 9 refactorings quiet.',
 'M02': '36 mutations caught; 14 refactorings quiet.',
}
FALSE_ALARMS = '''
* C15: getters of errors and steps inside yes/no questions are no steps that fail; calling a nil callback
  function is a crash, which the recovery (C04) reports.
* C19: the caller's GasLeft after returning to it is legitimate; release through a local variable, an inlined
  `HasMemory`, `host == nil` tests in other forms.
* C17: functions that execution cannot reach (GetReserved), errors of the validator (replaced by
  ErrContractInvalid), lists of imports that are looked up by name, deferred closures that only take the time
  for the log.
* C08/M04: an error of Close in a deferred closure.
* C12: an amount of zero does not need a payable account; asynchronous calls are exempt by design.
* C09: built-in functions that succeeded have checked their arguments.
* Many alarms on extracted helpers and on conditions written the other way round, corrected by the inlining
  and normalisation described above, not by exceptions in the rules.
'''
NOSEED = {}
TAIL = '''
## Limits

* Rules look up the functions they are about by name (`p.fn`), and a function that is renamed or removed
  makes the floor of its rule fail. Renaming a private function that is an anchor is therefore an alarm; a
  new helper is not.
* The WebAssembly engine is a binary that is not even present here (N02); the third-party marshalizers and
  cryptographic libraries are trusted.
* Checks have one depth: the quick and the thorough command are the same, since each explores all paths of
  its abstraction (M01 takes about a minute, all others a few seconds).
* A sample of mechanical mutations (negated conditions, deleted statements, swapped arguments) of arwen/host and
  arwen/contexts was begun and cut short: 84 were reported by some C check, 32 by none. Those 32 include log lines,
  equivalent changes and changes of behaviour no property here states, but also gaps not closed: the state of the
  runtime set up for a call (`runtime.InitStateFromContractCallInput` left out in execution.go), the price of an
  execution's start left out (`metering.DeductInitialGasForExecution`), the token data put into a call after a
  built-in function (`esdtTransfer.ESDTTokenName`, `ESDTValue`), the size test for the extra price of a storage
  write (storage.go), the transfers merged from two outputs (`mergeOutputAccounts`), and the call data appended
  to a token transfer (`TransferESDT`).
'''
