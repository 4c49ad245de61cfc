"""Writes properties.jsonl and MANIFEST.json (from the texts below, and from the checks that exist)."""
import importlib
import json
import os
import sys

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)


def P(id, title, statement, over, text, tests, files, mechanism, state=(), observe=()):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': tests,
            'anchors': {'files': files,
                        'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                        'observe_at': list(observe), 'hook_needed': None}}


PROPS = [
    P('C01', 'Saved tables survive crashes, power losses and disk errors',
      'Whatever happens to a program that saves a table (generating, expanding, joining or cleaning one) - a crash, a '
      'power loss, Ctrl-C, no memory, a full or failing disk, at any moment - every table file that is there afterwards '
      'is complete and can be loaded, and holds exactly what the program meant to save under that name. Tables that it '
      'does not save are unchanged, byte for byte. A program that ended normally has saved its table, and it is still '
      'there after a crash of any later program.',
      ['crash_points', 'fault_sequences', 'histories'],
      'For every history of sessions that save tables, every point of each of them (every operation on the disk, every '
      'part of a write), and every fault that may happen there, alone or twice.',
      'The tests save and load one table, in an undisturbed process, on a disk that never fails.',
      ['utils.py', 'main.py', 'join_hashtables.py', 'fix_hashtable_filter_init_b_root.py', 'decimal_hashtable.py'],
      [('atomic saving (temporary file, fsync, rename)', 'utils.py: save_pickle'),
       ('a new version for each saved table', 'configfile.py: _gen_hashtable_filename')],
      [('table file', 'a pickled search object and its hashtable', 'the configured hashtable_file')],
      ['the files on the (simulated) disk after each session and crash', 'loading each table in a new process']),
    P('C02', 'What a table holds does not depend on the way it was built',
      'A table of a search space (type of polynomials, interlaces, ranges of coefficients, post-process functions, depth, '
      'precision) holds an entry for each pair of coefficients and post-process function of the space whose continued '
      'fraction can be evaluated, under the digits of the fractional part of its value, and no other entry and none '
      'twice. So it is if it is built in one go, by expanding in any order, in the same or in new processes, with '
      'overlapping or repeated pieces, and with steps that failed or were interrupted and then repeated.',
      ['inputs', 'histories', 'fault_sequences'],
      'For every search space, every way to divide it to steps and processes, and every interruption of the steps.',
      'The tests build a few small tables of one type in one go, and look for a single entry.',
      ['enum_params.py', 'enum_poly_params.py', 'cont_fracs.py', 'decimal_hashtable.py', 'postprocfuncs.py', 'main.py'],
      [('enumeration of pairs, without zero and integer roots of b', 'enum_poly_params.py: polys_generator'),
       ('skipping of entries that are there', 'enum_params.py: _iter2hashtalbe, build_hashtable')],
      [('hashtable', 'digits -> list of ((a, b), post-process function)', 'enum_params.py: MITM.hashtable')],
      ['the saved tables', 'the table of the object in memory after each step']),
    P('C03', 'A distributed run makes the same table as a single one',
      'The parts that a config is distributed to are disjoint and together are the whole space; they may be run in any '
      'order, at the same time, and be killed or fail and be run again, each on its own or by the launcher. The tables '
      'of the parts, joined in any order, hold exactly the entries that a single session makes, and joining does not '
      'alter them, does not replace an existing file, and may be repeated after a failure.',
      ['schedules', 'inputs', 'fault_sequences', 'crash_points'],
      'For every config and number of parts, every interleaving of the sessions of the parts, and every set of them that '
      'fail at every point and are repeated.',
      'The tests do not distribute, run several processes or join.',
      ['distribute_run.py', 'join_hashtables.py', 'run_distributed_configs.py', 'configfile.py', 'main.py',
       'decimal_hashtable.py'],
      [('halving of the longest range', 'distribute_run.py: split_params'),
       ('a table name per part', 'distribute_run.py: main'),
       ('concatenation of lists of entries', 'decimal_hashtable.py: append_dict')],
      [('distribution directory', 'a config file for each part', 'distribute_run.py: main')],
      ['the saved configs', 'the tables of the parts', 'the joined table']),
    P('C04', 'The newest version of a table is loaded, and the next one is saved',
      'Of the versions of a table in its directory, a session that uses or expands a table loads the newest, numbers '
      'being compared as numbers and other files, however similar their names, being ignored. A session that generates '
      'or expands a table saves it under the next version, so that no existing file is ever overwritten. This holds also '
      'beside sessions on other tables and after sessions that crashed or failed, which leave at most versions that are '
      'complete.',
      ['histories', 'inputs', 'crash_points', 'schedules'],
      'For every content of the directory, every form of the configured name, and every history of sessions and crashes.',
      'The tests do not use versions of tables at all.',
      ['configfile.py', 'main.py'],
      [('looking for the versions in the directory', 'configfile.py: _gen_hashtable_filename')],
      [('version', 'the number in the name of the file', 'base_vN.pkl')],
      ['the files on the disk', 'the name that the session prints', 'the pairs that a loaded table is seen to have']),
    P('C05', 'Interrupting the refining still exports complete and true results',
      'Once a session says that refining can be cancelled, Ctrl-C at any moment of the refining makes it skip what is '
      'left of it, and end normally with its export: the tables of results, the PDF and the config. Every exported row '
      'is a match to the accuracy that was already reached, with its own left hand side, and no row that the same '
      'session exports without being interrupted is missing. The saved table is as if there was no interrupt.',
      ['crash_points', 'inputs', 'histories'],
      'For every search and every line of the refining at which the interrupt may come.',
      'The tests never interrupt anything.',
      ['main.py', 'enum_params.py', 'lhs_evaluators.py', 'cont_fracs.py'],
      [('KeyboardInterrupt handler around the refinement', 'main.py: main'),
       ('replacing of the list of results at the end of each stage', 'enum_params.py')],
      [('results so far', 'pairs, left hand sides, convergence', 'enum_params.py: MITM.filtered_params')],
      ['the exported CSV, LaTeX and config', 'the printed report']),
    P('C06', 'Exported results are true, complete and do not depend on the history',
      'Each exported result is an equality that holds to the accuracy of the search, between the named function of the '
      'continued fraction of the row, and the named expression of the constant; the LaTeX document says the same. Each '
      'match of the search space, of good convergence, is exported. Searching in a saved, expanded or joined table, '
      'repeating, resuming after a failure, or running beside other sessions gives the same results as one new session.',
      ['histories', 'inputs', 'schedules', 'fault_sequences'],
      'For every search space and constant, and every history of sessions by which the table came into being.',
      'The tests run the pipeline for a few known fractions, in one process, and look for one result.',
      ['enum_params.py', 'lhs_evaluators.py', 'main.py', 'postprocfuncs.py', 'latex.py', 'gen_consts.py'],
      [('meeting in the middle', 'enum_params.py: find_clicks'), ('refinement', 'enum_params.py: _refine_clicks'),
       ('export', 'enum_params.py: export_to_csv, get_results_as_eqns')],
      [('results', 'rows of pairs, left hand side and convergence', 'results/<date>/results.csv')],
      ['the exported CSV and LaTeX']),
    P('C07', 'Saved configs say what was run, and can be run again',
      'The config that is saved with the results, and the configs that a distribution saves, have every parameter of the '
      'search with the value that was used (the distributed range and the names of the tables aside), also those that '
      'were left to their defaults. A program that is started with a saved config does the same work: the same table and '
      'the same results; and saves a config that is equivalent to it, through any chain of such programs.',
      ['histories', 'inputs', 'fault_sequences'],
      'For every config, in every notation, and every chain of programs of saved configs.',
      'The tests parse config files, but no config that was saved.',
      ['configfile.py', 'main.py', 'distribute_run.py'],
      [('parsing and printing of values', 'configfile.py: get_config, set')],
      [('config', 'the parameters of a session', 'config.ini, results/<date>/config.ini')],
      ['the saved configs, read by a new process', 'what a session that is started with them does']),
    P('C08', 'Each search has a results directory of its own; earlier results are kept',
      'Each search that finds something saves all its files to one directory that no other search writes to, however many '
      'searches run at the same time or within the same minute, and wherever the clock jumps. The files that earlier '
      'searches saved are never changed or removed. Each directory of a search that ended normally is complete: results, '
      'document and config, of that search.',
      ['schedules', 'fault_sequences', 'histories'],
      'For every number of concurrent searches, every interleaving of their operations, every behaviour of the clock, '
      'and crashes of some of them.',
      'The tests do not run the session, hence never save results.',
      ['main.py', 'latex.py', 'enum_params.py'],
      [('exclusive creation of a directory named by the time', 'main.py: main')],
      [('results directory', 'results/<date and time>', 'main.py')],
      ['the directories and files on the disk during and after the sessions']),
    P('C09', 'A normal end means that the work was done; a failed program can be repeated',
      'A program that ends normally has made all its outputs, and they are those of an undisturbed run, whatever errors '
      'the operating system or the LaTeX compiler returned to it. A program that was hit by such an error either does '
      'so, or fails visibly. Repeated when the error is gone, it makes the same outputs as an undisturbed run.',
      ['fault_sequences', 'inputs'],
      'For every program, every operation of it that may fail, every error there, transient or lasting.',
      'The tests have no failing operation.',
      ['main.py', 'utils.py', 'distribute_run.py', 'join_hashtables.py', 'fix_hashtable_filter_init_b_root.py',
       'enum_params.py', 'latex.py', 'configfile.py'],
      [('exceptions are not swallowed', 'main.py'), ('no half-made state is left', 'utils.py: save_pickle')],
      [],
      ['the way the program ends', 'its outputs on the disk, compared with those of an undisturbed run']),
    P('C10', 'A continued fraction has the same value however its iterations are run',
      'After any sequence of operations on continued fraction objects (generating from scratch, adding iterations in '
      'chunks of any size, replacing coefficients, estimating the convergence, copying and saving), some of which fail '
      'at a zero partial denominator, are interrupted or run out of memory, the number of iterations and the value of '
      'each object are those of the recurrence to that depth, to the working precision. An operation that fails at a '
      'zero partial denominator leaves the object as it was or with no iterations, and after an operation that was '
      'interrupted, generating anew gives the right value. Objects do not influence each other, and a copied or reloaded '
      'one goes on like the original.',
      ['histories', 'fault_sequences', 'inputs'],
      'For every interleaving of operations on several objects, every coefficients, and every failure in between.',
      'The tests evaluate a few fractions from scratch in one go.',
      ['cont_fracs.py', 'basic_representation_types.py'],
      [('the product of matrices of the iterations', 'basic_representation_types.py: add_iterations'),
       ('p and q', 'cont_fracs.py: iteration_algorithm, finalize_iterations')],
      [('state', 'matrix, depth and value', 'basic_representation_types.py: BasicRecursiveConstRepresenter')],
      ['get_result, get_num_of_executed_iters, compare_result, is_result_valid']),
    P('C11', 'The table of numbers behaves as a map on the leading digits, at every precision',
      'A table of numbers is a map: after any sequence of storing, looking up, testing, deleting, merging, changing its '
      'precision and saving and loading, a number finds exactly what was last stored under its leading digits, and names '
      '(which are not numbers) find what was stored under them. What was stored in an earlier precision is found by the '
      'digits of that precision. Operations that are refused or fail, also by an interrupt or by an error in saving, do not '
      'alter the table (at most, an interrupted storing in a table of several precisions loses the number being stored).',
      ['histories', 'inputs', 'fault_sequences'],
      'For every sequence of operations on one or more tables, numbers near the borders of the digits, and failures.',
      'The tests store and look up two keys.',
      ['decimal_hashtable.py'],
      [('truncation of keys', 'decimal_hashtable.py: _manipulate_key'),
       ('precision history', 'decimal_hashtable.py: update_accuracy, __getitem__')],
      [('accuracy_history', 'earlier precisions', 'decimal_hashtable.py')],
      ['the public operations of a map, in memory and through saving and loading']),
    P('C12', 'A stage of a search that was interrupted can be repeated',
      'When a stage of a search (finding, refining, filtering, exporting) is interrupted at any line, by Ctrl-C or by an '
      'error, the search object keeps the results of the stages before it, each with the left hand side it had. '
      'Repeating the stage and going on gives the same results as a search that was not interrupted.',
      ['crash_points', 'inputs', 'histories'],
      'For every stage, every line of it, and every sequence of interrupted and repeated stages.',
      'The tests never interrupt a stage.',
      ['enum_params.py', 'lhs_evaluators.py', 'cont_fracs.py'],
      [('the new list replaces the old one at the end of the stage', 'enum_params.py')],
      [('results so far', 'pairs, left hand sides, convergence', 'enum_params.py: MITM.filtered_params')],
      ['get_filtered_params and the exported rows after each stage']),
    P('C13', 'Searches in one process do not influence each other',
      'A search makes the same table and results in a process that has already run other searches - of other constants, '
      'precisions, types and post-process functions, completed, failed or interrupted - as in a new process. So do the '
      'other programs, in any order in one process.',
      ['histories', 'fault_sequences', 'inputs'],
      'For every sequence of programs in one process, and failures of some of them.',
      'Each test makes its own objects; none runs a session after another.',
      ['main.py', 'gen_consts.py', 'enum_poly_params.py', 'configfile.py', 'enum_params.py', 'decimal_hashtable.py'],
      [('the precision is set anew by each session', 'main.py, gen_consts.py'),
       ('defaults are not altered by a session', 'configfile.py')],
      [('global precision', 'of mpmath', 'gen_consts.py: set_precision')],
      ['the tables and exported results of each program, compared with a new process']),
    P('C14', 'Reported times are the times that passed',
      'The stopwatch reports, after any sequence of starting and reading, the time that passed since the last start or '
      'reading, and the total since the start; and the times that a session prints for its stages are the times that '
      'these stages took by the clock, whatever stalls and delays happened in them.',
      ['schedules', 'histories', 'fault_sequences'],
      'For every sequence of operations of the stopwatch and every behaviour of the clock, and every stall of a session.',
      'The tests do not look at times.',
      ['utils.py', 'main.py'],
      [('time of the last reading', 'utils.py: MeasureRuntime')],
      [('times', 'start and last reading', 'utils.py: MeasureRuntime')],
      ['the values of the stopwatch', 'the printed times of the stages, and the simulated clock']),
    P('C15', 'Cleaning a table removes exactly the entries whose b vanishes',
      'The cleaning tool writes a new table beside the given one, that holds all its entries except those in which one of '
      'the polynomials of b has a non-negative integer root, in the same precision and with the same post-process '
      'functions, which can be used, expanded, joined and cleaned again. The given table is left as it is, and a tool '
      'that fails or is killed leaves no partial table under the name of the new one and may be run again.',
      ['inputs', 'crash_points', 'histories', 'fault_sequences'],
      'For every table (old ones with such entries too), every point of failure, and every history before and after.',
      'The tests do not run the tool.',
      ['fix_hashtable_filter_init_b_root.py', 'enum_poly_params.py', 'utils.py'],
      [('the same test for integer roots as the enumeration', 'enum_poly_params.py: _does_have_integer_roots')],
      [('cleaned table', '<table>_fixed.pkl', 'fix_hashtable_filter_init_b_root.py')],
      ['both files on the disk', 'sessions that use the cleaned table']),
]

PURE = 'a pure function of its input: no schedule, clock, fault or history in it, so there is nothing to simulate'
NA = [
    (P('N01', 'Constants are right to the working precision',
       'Each built-in constant is right to every digit of the precision that it is asked in.', ['inputs'],
       'For every constant and precision.', 'The tests compare a few digits.', ['gen_consts.py'],
       [('mpmath constants and literals', 'gen_consts.py')]),
     PURE + ' (that another session in the same process does not spoil the precision is a part of C13)'),
    (P('N02', 'The classification of convergence is right',
       'A continued fraction is classified as converging exponentially, faster or polynomially exactly if it does so.',
       ['inputs'], 'For every polynomials.', 'The tests classify a few fractions.', ['cont_fracs.py'],
       [('linear fit of the logarithms of the differences', 'cont_fracs.py: estimate_approach_type_and_params')]),
     PURE + '; moreover it is a heuristic with no exact specification'),
    (P('N03', 'Reduction of a rational function of the constant keeps its value',
       'Bringing the left hand side to lowest terms, testing two of them for equivalence and telling degenerate ones are '
       'right for all coefficients.', ['inputs'], 'For all integer coefficients.', 'The tests try a few.',
       ['lhs_evaluators.py'], [('sympy gcd', 'lhs_evaluators.py: canonalize_params, is_degenerate')]),
     PURE + ' (rows with wrong or degenerate left hand sides in the export are a part of C06)'),
    (P('N04', 'LaTeX of a continued fraction typesets to that fraction',
       'The LaTeX source of an expression is valid and means the expression.', ['inputs'], 'For every result.',
       'The tests do not compile LaTeX.', ['latex.py', 'enum_params.py'],
       [('pylatex document', 'latex.py: generate_latex')]),
     PURE + ' (and no LaTeX is installed here; that the exported source agrees with the exported rows is a part of C06)'),
    (P('N05', 'Legacy results are converted and analysed rightly',
       'The legacy tools convert an old CSV of results to a document and plot the errors of its fractions.', ['inputs'],
       'For every old CSV.', 'There are no tests of it.', ['process_and_compare.py', 'gen_errors_for_nips.py'],
       [('plots', 'process_and_compare.py')]),
     'the file calls itself legacy, "left here solely to be rewritten", calls functions that are commented out, and '
     'needs an interface (MITM(postproc_funcs=...)) that is no more; scripts of plots without state to fail or recover'),
]


def main():
    exist = [p for p in PROPS if os.path.exists(os.path.join(D, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
        for p in exist + [p for p, _ in NA]:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in exist:
        m = importlib.import_module('checks.' + p['id'].lower())
        pid = p['id']
        checks.append({
            'property': pid, 'quick_cmd': './check %s --tier quick' % pid,
            'thorough_cmd': './check %s --tier thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'deterministic simulation with fault injection: ' + m.TECH,
            'level': m.LEVEL,
            'level_note': m.NOTE})
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': r} for p, r in NA],
           'notes': 'No hooks in /repo: the simulator replaces open/os/time/subprocess/... from outside, and loads the '
                    'modules of /repo fresh for each simulated process. See DESIGN.md.'}
    with open(os.path.join(D, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
