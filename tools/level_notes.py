BASE = 'Seeded sampling of simulated executions of the real code, not enumeration: a clean batch is evidence, not proof. '
TECH = {
 'C01': 'deterministic simulation: seeded thread scheduler, solo-run oracle',
 'C02': 'deterministic simulation: session simulator with interrupts and failing callbacks, argument-integrity invariant',
 'C03': 'deterministic simulation: session simulator with interrupts, fresh-process oracle',
 'C04': 'deterministic simulation: simulated clocks and terminal with faults',
 'C05': 'deterministic simulation: simulated disk with short/slow I/O and interleaved writers, reference model',
 'C06': 'deterministic simulation: crash, power-loss and disk-error injection, old-or-new-or-error oracle',
 'C07': 'deterministic simulation: stop/crash/resume of the solver, uninterrupted-run oracle',
 'C08': 'deterministic simulation: disturbed solver runs, independent reference model of the circuit equation',
 'C09': 'deterministic simulation: step-budgeted solver runs with callback and clock faults',
 'C10': 'deterministic simulation: setting histories with failures and interrupts, reference model',
 'C11': 'deterministic simulation: simulated instrument channel with delivery faults, clean-delivery oracle',
 'C12': 'deterministic simulation: simulated instrument channel with delivery faults, clean-delivery oracle',
 'C13': 'deterministic simulation: simulated processes interleaved at file operations on a simulated disk',
 'C14': 'deterministic simulation: disk faults and crashes at every kind of operation, undisturbed-export oracle',
 'C15': 'deterministic simulation: table re-use histories with interrupts and threads, direct-calculation oracle',
 'C16': 'deterministic simulation: coordinator/worker message simulator with loss, duplication, delay, crashes',
 'C17': 'deterministic simulation: plotting sessions with other open figures, failing disks and interrupts, fresh-program oracle',
}
A = {
 'C01': 'Threads are preempted at QMix statement (sometimes bytecode) boundaries only; races inside NumPy/numba C code are not scheduled.',
 'C02': 'Interrupts arrive at QMix statement boundaries. Private attributes of objects are not part of their contents.',
 'C03': 'The oracle is the same call in a pristine fork of the interpreter, so it detects history dependence, not wrong formulas.',
 'C04': 'Printed times are checked to the printed precision.',
 'C05': 'The simulated disk implements POSIX semantics for the calls QMix makes.',
 'C06': 'Crash model: process loss keeps all completed writes; power loss keeps, per file, a prefix of the unsynced operations.',
 'C07': 'Interrupts arrive at QMix statement boundaries.',
 'C08': 'Errors within 1e-6 relative of the target may be reported either way.',
 'C09': 'Cost per iteration is calibrated on an undisturbed run of the same tree.',
 'C10': 'Interrupts arrive at QMix statement boundaries.',
 'C11': 'The oracle is the clean delivery of the same samples on the same tree.',
 'C12': 'The oracle is the clean delivery of the same samples on the same tree.',
 'C13': 'Processes are simulated in one interpreter and switched at file operations.',
 'C14': 'File contents are compared by a digest of what was drawn or written.',
 'C15': 'The oracle is the direct calculation in a pristine process.',
 'C16': 'Most workers are simulated in one interpreter (some in pristine processes); messages are pickled for real.',
 'C17': 'Pictures are compared by a digest of axes, lines, collections, texts and legends, not by pixels.',
}
NOTE = {k: BASE + v for k, v in A.items()}
