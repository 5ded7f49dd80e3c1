"""Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=hook)))
HB, QT, CC, RF = 'qmix/harmonic_balance.py', 'qmix/qtcurrent.py', 'qmix/circuit.py', 'qmix/respfn.py'
ED, IV, IF, CL, PA, IR = ['qmix/exp/%s.py' % n for n in ('exp_data', 'iv_data', 'if_data', 'clean_data', 'parameters', 'if_response')]
MF = ['qmix/mathfn/filters.py', 'qmix/mathfn/ivcurve_models.py', 'qmix/mathfn/kktrans.py', 'qmix/mathfn/misc.py']

prop('C01', 'Calculations running in several threads at once do not influence each other',
     "When several threads of one program run QMix calculations at the same time - tunnelling currents, harmonic balance, response functions, experimental data import and analysis - each call returns exactly what it would have returned running alone, under every interleaving of the threads. This includes threads that share the same circuit, response function or measured data, and threads whose neighbours fail or are killed half way.",
     ['schedules', 'fault_sequences', 'inputs'], 'all interleavings of 2-4 caller threads at any statement boundary of QMix, all mixes of operations and argument sets, with neighbours that raise or are killed at any point',
     'The tests run every call alone in one thread; no schedule with two calls in flight is ever executed.',
     [HB, QT, RF, CC, ED, IV, IF, CL, *MF], [('every function works on locals and fresh arrays; no module-level caches or scratch buffers', 'whole package'), ('circuit is only read by the solver (vt copied)', HB)],
     [('params', 'process-wide default parameters, deep-copied per import', PA), ('VINIT', 'shared read-only voltage grid', RF)], ['return values of every public call'])
prop('C02', 'Calculations leave the data the caller passed in untouched, even when cut short',
     "A calculation never modifies the objects handed to it - circuits, response functions, voltage/current arrays, measured data, option dictionaries and lists - and their contents are bit-identical afterwards. This holds when it succeeds, when it raises, and when it is interrupted (Ctrl-C, out of memory, failing response function, failing terminal) at any point.",
     ['inputs', 'crash_points', 'fault_sequences'], 'every public calculation, every argument shape and option, every statement at which the call may be interrupted and every failing callback or write',
     'Tests compare outputs, not inputs, never re-check arguments after a failure, and never interrupt a call.',
     [HB, QT, RF, ED, IV, IF, CL, IR, *MF], [('work on copies of vt / vj / measured arrays', 'harmonic_balance, _load_if, _load_iv'), ('kwargs merged into a deep copy of the defaults', ED)],
     [('cct.vt/zt/freq/vb', 'caller-owned circuit arrays', CC)], ['bytes of every caller-owned object before/after'])
prop('C03', 'Results depend only on the arguments, never on what ran before',
     "Every calculation gives the same result in a long-lived session as in a fresh interpreter, whatever calls came before it in whatever order, including calls that raised or were interrupted at any point, and whatever the caller did to earlier results and to its own objects since. No call changes process-wide state: default parameters, NumPy error handling, warning filters, plot defaults, the working directory or the random state.",
     ['histories', 'crash_points', 'fault_sequences', 'inputs'], 'all sequences of public calls mixed with in-place edits of arguments and of returned arrays, object destruction and re-use of addresses, failures and interruptions',
     'Each test starts from a fresh state and calls a function once or twice; no history of mixed calls is compared with a fresh run.',
     [HB, QT, RF, CC, ED, IV, IF, PA, *MF], [('no memoisation; all intermediate values local', 'whole package'), ('np.errstate instead of np.seterr', MF[1])],
     [('params', 'default import parameters', PA), ('np.geterr()', 'NumPy floating point error handling', 'process')], ['return values', 'process-wide settings'])
prop('C04', 'Clock behaviour and terminal reporting never change results or lie about time',
     "Numerical results do not depend on the clock or the terminal: they are the same with reporting on or off and when the wall clock stalls, jumps forwards or backwards, or when the terminal is slow. The elapsed time that harmonic balance and the tunnelling current calculation report equals the time the calculation really took (to the printed precision) whatever the wall clock does, and its progress indicator only moves forward and ends at 100 %.",
     ['schedules', 'fault_sequences', 'inputs'], 'every latency pattern of the response function and terminal, every wall-clock step (NTP jumps, stalls, backward steps), reporting on/off',
     'Tests never control the clock nor check any reported time or progress line.',
     [HB, QT, 'qmix/misc/progbar.py', 'qmix/misc/terminal.py'], [('monotonic default_timer', HB), ('reporting code only formats', HB), ('progress_bar', 'qmix/misc/progbar.py')],
     None, ['stdout text', 'return values'])
prop('C05', 'A saved circuit is restored exactly',
     "After any history of creating, editing, saving, overwriting and loading circuit files, reading a file gives the circuit that was last saved to it: the same number of tones and harmonics and bit-identical frequencies, Thevenin voltages and impedances for every signal, for every finite value. Saving does not change the circuit, and neither do short writes, slow disks or several saves and loads interleaved by threads on different files.",
     ['histories', 'inputs', 'schedules'], 'all circuit sizes and finite values (tiny, huge, negative, complex), all sequences of edit/save/overwrite/load over several files, partial writes by the disk, interleavings of threads on different files',
     'The single round-trip test uses one circuit whose values happen to survive rounding to 4 and 2 decimals.',
     [CC], [('save_info writes full precision', CC), ('read_circuit', CC)], [('circuit file', 'text file, one block per signal', CC)], ['read_circuit(path)', 'file content'])
prop('C06', 'An interrupted or failed circuit save is never read back as a wrong circuit',
     "If saving a circuit is cut short - crash, power loss, kill, full disk, I/O error - at any point, then reading that file afterwards either gives exactly the circuit being saved or the one that was there before, or raises an error; it never silently returns a different circuit. A save that could not be completed because of a disk error raises an error, and a later successful save to the same path makes it readable again.",
     ['crash_points', 'fault_sequences', 'histories'], 'every write boundary and byte at which the save can be torn, lost or zero-filled; ENOSPC/EIO on open, write, flush or close; every number of tones/harmonics',
     'No test ever reads a damaged file or injects an I/O error.',
     [CC], [('reader validates the header and one complete block per signal', CC), ('errors of open/write/close propagate', CC)], [('circuit file', 'durable state', CC)], ['read_circuit(path) after restart'])
prop('C07', 'Harmonic balance can be stopped and resumed without changing the answer',
     "Stopping harmonic balance after any number of iterations and resuming later from the returned junction voltages - in the same session or in a new one after a crash, from a saved copy - follows the same iteration sequence as an uninterrupted run: the same junction voltages, the same convergence status and the same total number of iterations. This holds for every split of the iteration budget, including splits forced by interruptions after which only the last stored checkpoint survives.",
     ['crash_points', 'histories', 'inputs'], 'all splits of the iteration budget into segments, crashes inside segments (restart from last checkpoint), all circuit sizes, dampings and output modes',
     'Tests run the solver once from scratch; vj_initial is only used to seed it once and never compared with an uninterrupted run.',
     [HB], [('vj_initial replaces the initial guess and nothing else carries state', HB), ('correction applied to vj only', HB)], [('vj', 'junction voltage, the only solver state', HB)], ['vj, iteration count, converged flag'])
prop('C08', 'Harmonic balance tells the truth about convergence',
     "When harmonic balance reports convergence, the junction voltages it returns satisfy the circuit equation V_T - Z_T I(V_J) = V_J to the requested relative error for every signal and bias point, with I the multi-tone tunnelling current computed independently; when it reports non-convergence, at least one point does not, and the per-bias-point mask is true exactly where all signals do. This holds however the run was cut short or disturbed: exhausted iteration budgets, bad or corrupted warm starts, any damping, and a response function that returns garbage (NaN, spikes) at some of its points.",
     ['fault_sequences', 'inputs', 'configurations'], 'every iteration budget, warm start (including NaN/huge/zero corruption), damping, target, circuit with 1-4 tones, and corrupted response data',
     'Tests check converged runs of well-behaved circuits; the budget-exhausted, NaN and boundary cases are not examined.',
     [HB, QT], [('max_rel_error / finished_points bookkeeping', HB), ('qtcurrent', QT)], None, ["return values of mode 'o', 'x' and 'm'", 'check_hb_error'])
prop('C09', 'Harmonic balance always stops within its iteration budget',
     "Harmonic balance returns (or raises) after at most the allowed number of Newton iterations and never reports more iterations than allowed, for every budget including zero, whatever the response function does (errors, NaN, non-reproducible noise, latency), whatever the clock does and however bad the starting point is. It stops at the first iteration that meets the target.",
     ['fault_sequences', 'inputs', 'schedules'], 'all budgets, targets (including unreachable ones), disturbed response functions, clock faults and corrupted starting points; progress counted in simulated steps',
     'The tests use one budget and converging circuits, so a loop that ignores the budget would go unnoticed.',
     [HB], [('for iteration in range(max_it + 1) with early exit', HB)], None, ['iteration count', 'number of simulated steps until return'])
prop('C10', 'A circuit holds exactly what was set, and failed settings change nothing',
     "Through every sequence of settings - frequency, available power, drive level, names, direct element edits, lock and unlock - a circuit holds exactly the values a simple reference model predicts in every unit, and reading a value back in any unit agrees with what was set. A setting that fails (bad unit, missing gap or resistance, missing impedance or frequency, locked circuit, bad index) or is interrupted leaves every other value untouched and is either fully applied or not at all; the frequencies, voltages, impedances and bias sweep of a locked circuit never change, but it can still be used in calculations.",
     ['histories', 'crash_points', 'fault_sequences'], 'all sequences of circuit operations with valid and invalid arguments, lock/unlock, interruptions and calculations in between',
     'Tests exercise single set/get pairs and two failing units; no sequence, no lock, no interruption.',
     [CC, HB], [('validate before assigning; a single array assignment per setter', CC), ('writeable flags', CC)], [('freq, vt, zt, vb, comment', 'circuit state', CC)], ['attributes and available_power in all units'])
prop('C11', 'I-V import is unaffected by how the instrument delivered the samples',
     "Importing a measured DC or pumped I-V curve gives the same curve and the same junction properties (gap voltage, normal and sub-gap resistance, offset) no matter how the same samples were delivered: with dropped-out (NaN) readings inserted anywhere, repeated readings, sweeps up or down, round trips starting at zero in either direction, in any supported unit (up to the reproducibility of the numerical offset and gap search), column memory layout or array subtype. A sweep without any usable data is rejected with an error instead of giving made-up properties.",
     ['fault_sequences', 'inputs'], 'all patterns of drop-outs, repeats, sweep directions, unit scalings and array layouts applied by a simulated acquisition channel to the same underlying samples',
     'Tests import two recorded files and one synthetic sweep as they are.',
     [IV, CL, ED], [('remove_nans_xy / _take_one_pass / sort_xy / remove_doubles_xy', IV)], None, ['dciv_curve, iv_curve, DCData, PumpedData, clean_xy, clean_matrix'])
prop('C12', 'IF import and noise analysis are unaffected by how the samples were delivered',
     "Importing IF power measurements (no LO, hot load, cold load) and IF spectra gives the same power curves, noise temperature, gain, IF noise and best bias point no matter how the same samples were delivered: readings dropped (NaN), repeated or reordered, the hot and cold sweeps recorded in different orders, in any supported unit or array layout. Hot and cold data are never mixed up or shifted against each other by such faults.",
     ['fault_sequences', 'inputs'], 'all patterns of drop-outs, repeats, reorderings, unit scalings and array layouts applied by a simulated acquisition channel to the same underlying samples',
     'Tests import one recorded hot/cold pair as it is.',
     [IF, IR, CL, ED], [('remove_nans_matrix / argsort / remove_doubles_matrix / common voltage grid', IF)], None, ['dcif_data, if_data, if_response, PumpedData'])
prop('C13', 'Several processes can export results into the same folder at the same time',
     "When several processes or scripts plot and export results into one results folder at the same time, all of them succeed, every folder and file of the documented layout exists at the end, and every file holds the complete output of one of its writers - under every interleaving of their file operations, and also when exporters are killed or hit a disk error and are started again. Files of different measurements never replace each other.",
     ['schedules', 'configurations'], 'all interleavings of the file-system operations of 2-4 exporters (DC plots, pumped plots, overall results, directory setup), on empty and partly existing folders, custom and default layouts',
     'The plotting and export code is excluded from the test-suite altogether (pragma: no cover).',
     [ED], [('os.makedirs(exist_ok=True)', ED), ('one file name per measurement frequency', ED)], [('results folder', 'shared by all exporters', ED)], ['directory tree and file contents'])
prop('C14', 'A finished export is complete, a failed one is reported and can be re-run',
     "An export that nothing disturbs succeeds, and one that returns normally has written every file of the documented layout completely and with the values of the data it was given, and has not changed that data. If anything cannot be written (full disk, I/O error, missing permission) it raises an error instead of reporting success, and after a crash or failure at any point re-running the same export leaves every file a first undisturbed run would have left, with exactly that content and nothing stale or half-written, also when the data changed in between.",
     ['crash_points', 'fault_sequences', 'histories'], 'every file-system operation of the export at which a crash, torn write or error can occur, followed by a re-run with the same or different data',
     'The export code is not covered by the test-suite, and no test injects a fault.',
     [ED], [("files opened with mode 'w' and closed by with-blocks", ED), ('figures saved unconditionally', ED)], [('results folder', 'durable state', ED)], ['directory tree and file contents'])
prop('C15', 'Pre-interpolating the response function never changes the currents',
     "Computing the tunnelling current with a response function that was interpolated beforehand gives the same currents as letting the calculation do it, for every later change of the junction voltages, Thevenin voltages or impedances, however often the table is re-used, including after calls that failed or were interrupted and when it is shared by several threads. Re-using a table leaves it unchanged; a table that covers more harmonics than needed works just as well, and one that is too small or made for another number of bias points is rejected.",
     ['histories', 'schedules', 'crash_points', 'inputs'], 'all histories of table creation, re-use, circuit edits (which do not touch frequencies or bias), failures and interleavings, for 1-4 tones and uniform or per-tone summation limits',
     'One test compares a single call with and without the table.',
     [QT, HB], [('interpolate_respfn', QT), ('resp_matrix argument', QT)], [('resp_matrix', 'caller-held table', QT)], ['qtcurrent, interpolate_respfn'])
prop('C16', 'A parameter sweep can be distributed over worker processes',
     "A sweep farmed out to worker processes gives the same results as computing it serially, for every placement, duplication, loss, delay and reordering of tasks and every crash and restart of workers. To that end circuits, response functions and imported measurements survive serialisation and deep copying: the copies give identical results and are independent of the originals.",
     ['schedules', 'fault_sequences', 'inputs'], 'all schedules of a simulated coordinator/worker cluster with message loss, duplication, delay, reordering, worker crashes (mid-calculation) and restarts',
     'No test pickles or copies an object or runs calculations in more than one process.',
     [RF, CC, ED, HB, QT], [('plain attribute state, picklable splines and named tuples', RF)], [('task and result messages', 'pickled objects', 'callers')], ['task results'])
prop('C17', 'Plots appear only where they were asked for, whatever else is open',
     "Every plotting method draws one complete picture exactly where it was told to: into the axes passed by the caller (also axes of figures made without pyplot), into one new figure that it returns, or into a file, after which none of its figures stays open. The picture is the same as in a fresh program, whatever figures are open, whichever of them is current and whatever was plotted before, including plots that failed or were interrupted. No other figure, plot default or current-figure setting is ever changed, and a plot that could not be saved raises an error.",
     ['histories', 'fault_sequences', 'crash_points', 'configurations'], 'all sequences of plots to axes, new figures and files mixed with user figures, changes of the current figure and of plot defaults, failing saves and interruptions',
     'The plotting code is excluded from the test-suite (pragma: no cover); no test has two figures open.',
     [ED, RF], [('fig, ax taken from the arguments; fig.savefig and plt.close(fig)', ED), ('plot, plot_interpolation', RF)], [('pyplot figure registry', 'process-wide list of open figures and the current one', 'matplotlib')], ['open figures', 'saved files', 'returned axes'])

NAQ = ['inputs']
def na(id, title, statement, why, files, mech): prop(id, title, statement, ['inputs'], 'all inputs', why, files, mech)
na('C20', 'Tunnelling currents agree with Tucker theory', 'For one strong tone (and for the small-signal limit of further tones) the calculated DC and AC tunnelling currents agree with the closed-form Tucker-theory expressions for every frequency, drive level and bias.', 'Tests compare a handful of frequencies and drive levels.', [QT], [('qtcurrent', QT)])
na('C21', 'Adding unexcited tones or relabelling tones does not change the currents', 'Adding a tone or harmonic without voltage, or permuting tones, changes none of the tunnelling currents beyond the permutation.', 'Tests compare a few circuits.', [QT], [('_current_N_tones', QT)])
na('C22', 'The response function is the analytic continuation of the I-V curve', 'The real part of the response function is the Kramers-Kronig transform of the imaginary part, with even/odd symmetry and interpolation error below the stated bound, for every I-V model.', 'Tests check a few models.', [RF, *MF], [('kk_trans, _setup_interpolation', RF)])
na('C23', 'I-V curve models have the right limits', 'Every I-V model is odd, has the given sub-gap resistance below and the given normal resistance above the gap.', 'Tests check sample points.', [MF[1]], [('models', MF[1])])
na('C24', 'Noise temperature and gain follow the Y-factor formula', 'Noise temperature, gain and shot-noise calibration equal the Callen-Welton / Y-factor / 5.8 K/mV formulas for every power curve.', 'Tests check one data set.', [IF, IR], [('_find_tn_gain, _find_if_noise', IF)])
na('C25', 'Impedance recovery inverts the simulation', 'Recovering the embedding circuit from a pumped I-V curve simulated with a known embedding circuit returns that circuit.', 'One test checks one circuit.', [ED], [('_recover_zemb', ED)])
na('C26', 'Junction properties of an I-V curve are recovered from synthetic data', 'For an I-V curve with known gap voltage, normal resistance and offset the import returns these values within the noise.', 'Tests check a few values.', [IV], [('_find_gap_voltage, _find_normal_resistance, _correct_offset', IV)])
na('C27', 'Derivatives and filters reproduce their analytic definitions', 'Slope, n-point slope and Gaussian convolution reproduce derivative and smoothing of known functions and preserve constants.', 'Tests check sample functions.', MF, [('slope, gauss_conv', MF[0])])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
