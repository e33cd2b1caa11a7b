#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
I='source/include/firefly/'
S='source/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

prop('C01','Prime-field scalar arithmetic is exact and canonical',
 'For every supported prime and every operands, addition, subtraction, negation, multiplication, division, inversion, integer powers and comparison of field elements return the mathematically exact residue. Every element - however it was built (signed or unsigned machine integer, decimal string, big integer, in-place operator, stream) - is represented by its unique residue in [0,p), so equal residues compare equal. The built-in prime table holds distinct primes that fit the arithmetic.',
 ['inputs','configurations'],'all residues of small primes; all tuples over a boundary alphabet for the 63-bit primes; arithmetic back ends default and FLINT',
 'The tests never compare a field operation with an independent oracle; they only see arithmetic through complete reconstructions at random points of a few 63-bit primes, where boundary operands (0, p-1, multiples of p, negative integers) never occur.',
 [S+'FFInt.cpp',I+'FFInt.hpp',I+'ReconstHelper.hpp',S+'ReconstHelper.cpp'],
 [('modular add/sub/mul/inverse','FFInt.hpp operators, mod_mul/mod_inv'),('canonicalising constructors','FFInt(T), FFInt(std::string), FFInt(mpz_class), parse_longint'),('prime table','ReconstHelper primes()')],
 [('p','current prime','FFInt.hpp'),('n','canonical residue','FFInt.hpp')],['value of the element after each operation'])

prop('C02','Vectorised field arithmetic equals the scalar arithmetic in every lane',
 'For every bunch size and every arithmetic operation offered on bunches of field elements (including mixed operations with a scalar or integer on either side, in-place forms, powers, equality and element access), the i-th lane of the result equals the scalar operation applied to the i-th lanes. Lanes never influence one another.',
 ['inputs'],'bunch sizes 1,2,4,...,128; every lane; operand tuples over boundary alphabets',
 'The bunch test runs three whole reconstructions with a black box using a handful of operators; mixed-order forms, powers and lane positions are never compared with the scalar result.',
 [I+'FFIntVec.hpp',S+'FFIntVec.cpp'],[('lane loops','FFIntVec.hpp operators'),('mixed operators','operator+,-,*,/ with FFInt / integer operands')],None,['lane values'])

prop('C03','Exact rationals, CRT and rational reconstruction are sound',
 'Rational-number arithmetic is exact, leaves its operands unchanged and always yields the reduced fraction with positive denominator. Combining residues for coprime moduli yields the unique residue congruent to both modulo the product. Rational reconstruction returns the unique fraction within its bound whenever one exists and never reports success with a fraction that is not congruent to the given residue.',
 ['inputs'],'all fractions with |numerator|, denominator up to a bound; all residues of all small moduli; all pairs of small coprime moduli; multi-prime moduli built from the 63-bit table',
 'The tests only see lifting for the coefficients of four functions; uniqueness, failure reporting and sign/zero handling for every residue are never sampled.',
 [S+'RationalNumber.cpp',I+'RationalNumber.hpp',S+'ReconstHelper.cpp'],[('run_chinese_remainder','ReconstHelper.cpp'),('get_rational_coef / get_rational_coef_mqrr','ReconstHelper.cpp'),('gcd normalisation','RationalNumber.cpp')],None,['returned fraction / residue / success flag'])

prop('C04','The expression parser computes the value of the expression',
 'For every expression in the documented input grammar (integers, rationals, variables, + - * / ^, parentheses, unary sign, integer exponents below 2^31 (signed ones in parentheses), whitespace and line breaks), every documented way of evaluating it - plain, precomputed, scalar or bunched - returns the value that ordinary operator precedence and associativity give in the current prime field. Collections of expressions are returned in input order with one value per expression, independent of where expressions come from (file, string, list).',
 ['inputs','programs'],'all expression trees up to a size bound over a small alphabet, rendered with minimal/full parentheses and spacing variants, evaluated at a separating set of points over small and 63-bit primes',
 'The tests parse three fixed files; precedence, unary minus, negative exponents, big literals and the agreement of the evaluators on every shape are not enumerated.',
 [S+'ShuntingYardParser.cpp',I+'ShuntingYardParser.hpp',S+'ParserUtils.cpp'],[('shunting-yard conversion','ShuntingYardParser::parse'),('evaluate','ShuntingYardParser.hpp'),('precompute_tokens / evaluate_pre','ShuntingYardParser.cpp/.hpp')],[('functions','RPN token list per expression','ShuntingYardParser.hpp'),('precomp_tokens','tokens specialised to the prime','ShuntingYardParser.hpp')],['evaluated values'])

prop('C05','Parser results do not depend on the history of parser operations',
 'After any sequence of adding expressions, re-reading, precomputing, changing the prime field, reserving, moving and trimming, evaluating a parser returns for every retained expression exactly what a freshly built parser over the same expressions returns in the current prime field. Duplicate-detection, file checks and caching are only optimisations and never change a value or its position.',
 ['histories','inputs'],'all operation sequences up to a depth over a small expression alphabet including duplicates and constant sub-expressions',
 'The tests build each parser once, precompute once per prime and never add, trim or re-order afterwards.',
 [S+'ShuntingYardParser.cpp',I+'ShuntingYardParser.hpp'],[('precompute_tokens','ShuntingYardParser.cpp'),('add_otf / trim / move_rpn','ShuntingYardParser.cpp')],None,['evaluated values after each history'])

prop('C06','Malformed expressions are rejected loudly, never evaluated to something else',
 'Every token string the documented grammar excludes because it has no meaning - unbalanced parentheses, undeclared variables, missing operands, adjacent operators other than the documented sign combinations, implicit multiplication, unknown characters - is rejected with an error and a non-zero exit status before any value is returned. It never hangs, crashes or silently yields a value.',
 ['inputs','programs'],'all token strings up to a length bound over {variable, undeclared variable, number, + - * / ^ ( )} outside the grammar',
 'No existing test feeds a malformed expression.',
 [S+'ShuntingYardParser.cpp',S+'ParserUtils.cpp'],[('validate / error exits','ShuntingYardParser.cpp validate, parse')],None,['exit status and diagnostics'])

prop('C07','Reconstruction returns exactly the black-box function',
 'For every vector of rational functions over the rationals supplied as a black box, reconstruction terminates and returns for each entry a function equal to the black-box entry, in the same order, normalised and in lowest terms - including the zero function, constants, polynomials, functions without constant terms, huge rational coefficients and entries of very different complexity.',
 ['inputs','programs'],'all rational functions with bounded degrees and coefficients from a small set, in one to four variables, plus vectors combining them',
 'Each test reconstructs the same three or four hand-picked functions from random points; no other coefficient pattern, support or degree shape is ever run.',
 [S+'RatReconst.cpp',S+'PolyReconst.cpp',S+'FFThieleInterpolator.cpp',I+'Reconstructor.hpp',I+'DenseSolver.hpp'],[('univariate Thiele + homogenised multivariate interpolation','RatReconst::feed/interpolate'),('racing Newton/Ben-Or-Tiwari and Zippel','PolyReconst'),('rational lifting and termination test','RatReconst::combine_primes/check_if_done/test_guess')],[('result','reconstructed function','RatReconst.hpp')],['Reconstructor::get_result'])

prop('C08','Options and resources never change the result',
 'For a fixed black box, the reconstructed functions are identical for every combination of thread count, maximum bunch size, shift scan, factor scan, safe interpolation, state saving, verbosity and user-supplied anchor points or shifts. Options only change how many probes are needed and in which form they are requested.',
 ['configurations','inputs'],'the full product of option values over a set of black boxes chosen so each option takes a different path',
 'The tests fix three option combinations for one set of functions, and FLINT-only factor scan only where it is compiled in.',
 [I+'Reconstructor.hpp',S+'RatReconst.cpp',S+'HornerGenerator.cpp',S+'Polynomial.cpp'],[('scan_for_shift','Reconstructor.hpp'),('scan_for_factors / variable reordering','Reconstructor.hpp'),('bunch queueing','Reconstructor.hpp queue_probes/compute_probe')],None,['Reconstructor::get_result'])

prop('C09','Reconstruction is correct and terminates under every thread schedule',
 'Under every interleaving of the main thread and the worker threads, a reconstruction terminates without deadlock, lost wake-up or starvation of needed probes and returns the same correct functions. No schedule makes two threads access shared state without ordering between them.',
 ['schedules'],'all schedules up to a preemption bound at every lock, condition, thread and atomic operation, for black boxes with 1-3 functions, 1-3 worker threads, over several primes',
 'A test run samples one OS schedule; orderings such as a result arriving between the emptiness test and the wait, or a prime change while a stale job runs, need a specific preemption.',
 [I+'Reconstructor.hpp',I+'ThreadPool.hpp',S+'RatReconst.cpp',S+'PolyReconst.cpp',S+'BaseReconst.cpp'],[('job_control / feed_control / future_control / mutex_probe_queue','Reconstructor.hpp'),('condition_future, condition_feed','Reconstructor.hpp run_until_done/get_probe/interpolate_job'),('mutex_status, mutex_statics','RatReconst.cpp')],[('jobs_finished / feeding_jobs / interpolate_jobs','counters deciding whether more probes are coming','Reconstructor.hpp'),('computed_probes','finished probes not yet fed','Reconstructor.hpp')],['termination, get_result, data races'])

prop('C10','The thread pool runs every task exactly once and never loses a wake-up',
 'Under every interleaving, each task or packaged task handed to the thread pool runs exactly once on a pool thread, priority tasks are taken before ordinary ones, waiting returns only once the queue is empty and all tasks have finished, and dropping queued work removes it without touching tasks already running. Destroying the pool completes all accepted work and joins all threads.',
 ['schedules','histories'],'all schedules (preemption-bounded and unbounded for small configurations) of client operation sequences up to a depth with 1-3 pool threads, tasks that themselves submit tasks',
 'No test exercises the pool directly, and reconstruction runs only sample a schedule.',
 [I+'ThreadPool.hpp'],[('task queue under a mutex with condition variables','ThreadPool.hpp')],[('tasks','pending work','ThreadPool.hpp'),('state','running / stopped','ThreadPool.hpp')],['task execution counts, return from wait and destructor'])

prop('C11','A crash at any point never makes a resumed reconstruction wrong',
 'If a state-saving reconstruction is killed at any file-system operation - including in the middle of a write - then restarting it with resumption terminates and either returns exactly the functions of the uninterrupted run or stops with an explicit error; it never returns a different function, hangs or crashes. The same holds when the resumed run is killed again.',
 ['crash_points','histories'],'every file operation of the run as crash point, torn writes at block and byte granularity, and second crashes during the resumed run, for several black boxes and options',
 'The save/read tests stop at one fixed number of probes at a point where nothing is being written.',
 [I+'Reconstructor.hpp',S+'RatReconst.cpp',S+'PolyReconst.cpp',S+'BaseReconst.cpp',S+'gzstream.cpp'],[('write to ff_save/tmp then rename','RatReconst::save_state, Reconstructor reset_new_prime'),('validation point','Reconstructor::validate / ff_save/validation.gz'),('probe files','RatReconst::write_food_to_file, ff_save/probes')],[('ff_save/states','state of each function per prime','RatReconst.cpp'),('ff_save/probes','probes of the current prime','RatReconst.cpp')],['result or diagnostics of the resumed run'])

prop('C12','Stopping after any number of probes and resuming gives the same result',
 'If a state-saving reconstruction is interrupted after any number of black-box evaluations and resumed - possibly several times and with different thread count or bunch size - it finishes with exactly the functions an uninterrupted run returns, and functions that were already complete are not reconstructed again. Resuming with a black box that differs at the stored validation point, or for which the stored data cannot belong, is refused with an error.',
 ['crash_points','configurations','histories'],'every interruption index of the run (and pairs of indices), all option sets with saved state, black boxes that differ in value or number of functions',
 'test_save_write/test_save_read throw after one fixed probe count for one function set.',
 [I+'Reconstructor.hpp',S+'RatReconst.cpp',I+'RatReconst.hpp'],[('start_from_saved_file / read_in_probes','RatReconst.cpp'),('resume_from_saved_state, validation','Reconstructor.hpp')],None,['result of the resumed run, exit status'])

prop('C13','The black box is called exactly as its contract promises',
 'Every black-box evaluation receives as many values as there are variables, all from the current prime field, as a scalar point or a bunch whose size is a power of two not exceeding the configured maximum; the black box is told about a prime field before the first evaluation in it, never while an evaluation runs, and never sees an evaluation of an older field afterwards. Results are matched to the points they were computed for, and every computed value of every lane is used for its own point only.',
 ['schedules','configurations'],'all option/bunch/thread combinations of a bounded family, with every schedule up to a preemption bound for the small ones',
 'The test black boxes do not record how they are called.',
 [I+'BlackBoxBase.hpp',I+'Reconstructor.hpp',I+'ThreadPool.hpp'],[('prime_changed_internal','BlackBoxBase.hpp'),('kill_all before prime change','Reconstructor.hpp reconstruct/scan_*'),('compute_bunch_size','utils/Reconstructor')],None,['arguments, order and concurrency of black-box calls'])

prop('C14','Distributed reconstruction is correct and deadlock-free',
 'With the black box evaluated on worker processes, for every number of workers and threads, every message arrival order and both eager and synchronous message delivery, the reconstruction terminates on all processes and returns the same functions as the serial run. Every probe handed to a worker is evaluated in the prime field it was requested for, and every result is attributed to its own request; results of an abandoned field are discarded.',
 ['schedules','configurations'],'all interleavings up to a preemption/delay bound of master main thread, communication thread, worker processes and their threads; 1-2 workers; factor and shift scans on and off',
 'The MPI tests run two processes once, on one machine, with one message timing.',
 [I+'Reconstructor.hpp',I+'MPIWorker.hpp'],[('mpi_communicate / send_first_jobs / mpi_setup','Reconstructor.hpp'),('communicate','MPIWorker.hpp')],[('empty_nodes','workers waiting for work','Reconstructor.hpp'),('requested_probes','probes not yet handed out','Reconstructor.hpp')],['termination on all ranks, get_result'])

prop('C15','Linear and Vandermonde solvers return the solution of their system',
 'For every regular square system over the field the solvers return its unique solution, inverse and determinant exactly; a singular system is reported, never answered with an arbitrary vector. This holds alike for scalar and bunched arithmetic, where every lane is solved as if alone or the bunch is refused with an error, and for the transposed (shifted) Vandermonde systems used in interpolation.',
 ['inputs'],'all matrices up to 3x3 over small primes and all right-hand sides; all Vandermonde node sets over small primes; bunches of all pairs from a matrix set',
 'The solvers are only exercised on random, almost surely regular systems inside a reconstruction.',
 [I+'DenseSolver.hpp',S+'RatReconst.cpp',S+'PolyReconst.cpp',S+'ReconstHelper.cpp'],[('Gauss and LU with pivoting','DenseSolver.hpp'),('solve_transposed_vandermonde','PolyReconst/ReconstHelper')],None,['solution vectors, determinant, inverse'])

prop('C16','Printed results denote the reconstructed function',
 'For every polynomial or rational function, with and without attached factors, the plain and the Horner text produced for arbitrary variable names is valid parser input and evaluates everywhere to the same value as the function object itself. Zero, one, negative, fractional and huge coefficients, single terms and absent variables are all rendered correctly.',
 ['inputs'],'all polynomials / rational functions with bounded number of terms, exponents and coefficients from a boundary set, in 1-3 variables, with 0-2 factors',
 'The tests never look at the printed text.',
 [S+'Polynomial.cpp',S+'RationalFunction.cpp',S+'Monomial.cpp',S+'HornerGenerator.cpp',S+'PolynomialFF.cpp',S+'RationalFunctionFF.cpp'],[('to_string / generate_horner','Polynomial.cpp, RationalFunction.cpp, HornerGenerator.cpp')],None,['text output'])

prop('C17','Polynomial algebra and univariate interpolation over the field are exact',
 'Sums, differences, products, scalar multiples, homogenisation, shifts, variable insertion and evaluation of sparse polynomials and rational functions commute with evaluation at every point. The univariate rational interpolator, fed with the values of any rational function at distinct points in general position, stops only with a function that reproduces all the values and equals the original.',
 ['inputs','histories'],'all sparse polynomials with bounded support over small primes and all pairs of them; all univariate rational functions of bounded degree over a small prime with all feeding orders from a set',
 'Only indirectly sampled through reconstruction of a few functions.',
 [S+'PolynomialFF.cpp',S+'RationalFunctionFF.cpp',S+'Poly.cpp',S+'FFThieleInterpolator.cpp',S+'Polynomial.cpp'],[('operator+,-,*, mul, add_shift, homogenize, calc','PolynomialFF.cpp'),('add_point / get_result','FFThieleInterpolator.cpp')],None,['evaluation at points'])

prop('C18','Accidental zeros modulo a prime never corrupt the result',
 'Functions whose coefficients, numerator or denominator vanish or coincide modulo one or several of the leading primes, including the normalising coefficient, are still reconstructed exactly in the safe interpolation mode, provided that numerator and denominator have no common factor in these prime fields. When a prime has to be skipped or a function is zero in it, reconstruction continues with the next prime and ends with the correct function (a function which is zero at its first probe in the first three prime fields counts as zero). Without the safe mode this holds for coefficients of polynomials which vanish in other prime fields than the first.',
 ['inputs','configurations'],'all assignments of "coefficient divisible by prime k" patterns for the coefficients of a family of functions and the first primes, in safe mode',
 'The safe-mode test uses one function with two such coincidences.',
 [S+'RatReconst.cpp',I+'Reconstructor.hpp'],[('set_safe_interpolation, div_by_zero, zero_counter','RatReconst.cpp'),('combined_primes_ni/di','RatReconst.cpp')],None,['Reconstructor::get_result'])

prop('C19','Early results are complete, correct and delivered exactly once',
 'While or after a reconstruction runs, each completed function is handed out by the early-result interface exactly once, with the right name and value, and never before it is complete; functions left over are returned by the final result in order. Any polling history leaves the final set of functions and attached factors correct.',
 ['histories','schedules'],'all polling patterns at all interruption indices of runs with up to 4 functions, with and without factors, under bounded schedules',
 'No test calls the early-result interface.',
 [I+'Reconstructor.hpp'],[('get_early_results / get_result','Reconstructor.hpp'),('clean mutex and DELETED status','Reconstructor.hpp')],None,['returned names and functions'])

prop('C20','Interpolation is independent of the order in which probes arrive',
 'For a fixed function, an interpolation object that is fed its requested probes in any order, in any grouping, with surplus or stale probes in between, and with the interpolation step run at any time, reaches the same final function. It keeps reporting what it still needs until it is done and asks for nothing afterwards.',
 ['histories','inputs'],'all permutations and groupings of each batch of probes up to a size, all interleavings of feed and interpolate calls with a deviation bound, stale-prime probes injected at every position',
 'The tests take whatever order the OS schedule yields.',
 [S+'RatReconst.cpp',S+'PolyReconst.cpp',S+'BaseReconst.cpp',I+'RatReconst.hpp'],[('queue / saved_ti','RatReconst.cpp feed, interpolate'),('is_interpolating, is_new_prime status','BaseReconst.cpp')],None,['get_result, get_needed_feed_vec, is_done'])

prop('C21','The insertion tool preserves the expression it is given',
 'For every amplitude and set of replacement tables in the documented format, the expression produced - reconstructed, factored, unsimplified or merged, with any option set - equals the input expression after applying the replacements: every basis function appears with the sum of all contributions to it, and nothing else appears. Replacements are applied once to the names in the amplitude. Malformed input is refused with an error. A run that continues saved states after a kill either ends with the same expression or refuses to continue with an error.',
 ['inputs','programs','configurations'],'all amplitudes with bounded terms over two function families and small coefficient set, all replacement tables of bounded size, all command-line modes',
 'ff_insert and the amplitude parser have no tests at all.',
 [S+'AmplitudeParser.cpp','ff_insert.cpp',I+'AmplitudeParser.hpp'],[('parse_string','AmplitudeParser.cpp'),('build_black_box','AmplitudeParser.cpp')],None,['files out_*, coefficients_*, *_merged.out'])

prop('C22','Reconstruction from stored probes equals direct reconstruction',
 'With probes supplied from files instead of a live black box, every run either finishes with the functions the probes belong to or writes down probes that are still missing, each at the point which belongs to its order, anchor points and shift (naming a missing or empty file of probes); supplying what was requested, round after round, in any order and with surplus probes, ends with the correct functions. The user-given anchor points and shifts are honoured.',
 ['histories','inputs','configurations'],'all functions of a bounded family driven round by round to completion, all orders / surplus variants of the supplied probe file lines up to a bound',
 'The firefly executable and precomputed probes have no tests.',
 ['firefly.cpp',I+'Reconstructor.hpp'],[('load_precomputed_probes / requested_probes.gz','Reconstructor.hpp')],None,['result.m, requested_probes.gz'])

prop('C23','Factor scan removes genuine factors and restores them',
 'With the factor scan enabled, the univariate factors found divide the function exactly, the optimised variable order is undone in every result, and result times factors equals the black-box function for every function with any factor pattern - none, in every variable, in numerator, denominator or both, repeated, or the whole function. Stopping after the scan reports the same factors.',
 ['inputs','configurations'],'all products of factors from a small set over 1-3 variables with bounded exponents, all vectors of two such functions from a subset',
 'Only one factor pattern set is tested, and only in the FLINT build.',
 [I+'Reconstructor.hpp',S+'RatReconst.cpp',S+'RationalFunction.cpp'],[('scan_for_factors','Reconstructor.hpp'),('calc_factors / get_canonical_factors','RatReconst.cpp')],None,['get_result, get_factors_string'])

prop('C24','Compressed streams reproduce exactly the bytes written',
 'For every sequence of writes, flushes, opens, closes and reads on the compressed file streams, reading returns exactly the bytes written in order, end-of-file is reported exactly at the end, opening a missing file or double opening is reported as failure and never corrupts other files.',
 ['histories','inputs'],'all operation sequences up to a depth with chunk sizes around the internal buffer size',
 'State-file sizes in the tests never reach the buffer boundary.',
 [S+'gzstream.cpp',I+'gzstream.hpp'],[('overflow/underflow/flush_buffer','gzstream.cpp')],None,['bytes read back, stream state'])

prop('C25','Results over the first prime field are the images of the functions',
 'When a reconstruction is limited to one prime field, the functions it offers over that field are, for every black-box entry in order, exactly the image of the entry modulo that prime, whatever the schedule, thread count, bunch size, shift scan, safe mode or state saving; asking again gives the same functions, results over the rationals that are already complete are right, and with saved states a later run resumes from there and ends with the exact functions.',
 ['inputs','configurations','schedules'],'all functions of a bounded family x options stopped after one prime field, and every bounded schedule of small ones',
 'No test uses get_result_ff or a limited reconstruction.',
 [I+'Reconstructor.hpp',S+'RatReconst.cpp',S+'RationalFunctionFF.cpp'],[('get_result_ff','RatReconst.cpp'),('run_until_done(prime_counter)','Reconstructor.hpp')],None,['Reconstructor::get_result_ff, get_result'])

prop('C26','Reconstructions in one process do not influence each other',
 'Any sequence of reconstructions in one process, with different black boxes, numbers of variables, threads and options, each finished, limited to some prime fields, stopped after the factor scan, saved or resumed, and separated by the documented reset of the static data, returns for each of them exactly what it returns as the first one in a fresh process: the exact functions.',
 ['histories','configurations'],'all sequences of up to 3 (4) reconstructions over a set of 20',
 'Each test runs a fixed short sequence.',
 [S+'RatReconst.cpp',S+'BaseReconst.cpp',S+'PolyReconst.cpp',I+'Reconstructor.hpp'],[('RatReconst::reset and the static members','RatReconst.cpp'),('static rand_zi, seed','BaseReconst.cpp')],None,['Reconstructor::get_result'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
