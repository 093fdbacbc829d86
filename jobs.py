# Jobs per property: harness, compile flags, time budgets, stated bounds, reachability witnesses that must be hit.
J = {}
def job(name, harness, bounds, **k): J[name] = dict(name=name, harness=harness, bounds=bounds, **k); return J[name]
strings = job('strings', 'strings.cpp', 'texts of 0..6 arbitrary bytes (comparison: two texts of 0..4 bytes, transitivity three of 0..2); thorough: 0..9 and 0..6',
    flags=[], tflags=['-DHN=9', '-DHM=6'], qtime=25, ttime=300, covers=['blank', 'text', 'three tokens', 'find', 'less', 'greater', 'equal', 'trans', 'rblank'])
numbers = job('numbers', 'numbers.cpp', 'texts of 0..4 arbitrary bytes for int16/int32/uint8/uint64/float/double; decimal texts within +-1 digit of every integer limit (int16,int32,int64,uint32,uint64) with 2-3 symbolic trailing digits; reals of up to 6/7 symbolic digits with dyadic fraction; values around the largest float/double',
    qtime=60, ttime=300, tflags=['-DHN=5'], covers=['invalid', 'range', 'value', 'big', 'limit ok', 'neg unsigned', 'rinvalid', 'rvalue', 'rint', 'dyadic', 'limits'], assumes=['the character after the end of a view is not part of a number (views end at a blank or the terminator, as in the file parsers)'])
fix = job('fix', 'fix.cpp', 'every structure with 3 rows x 4 columns (one fixing, every non-empty column list in both orders) and 3 x 3 (up to three successive fixings); ColFixing on every structure 2 x 3 (two calls) and 3 x 3 with symbolic dyadic costs and multipliers; thorough: 4 x 4, 3 x 4',
    qtime=60, ttime=400, tflags=['-DHM=4', '-DHX=1'], covers=['one fixing', 'chained', 'all rows fixed', 'some fixed', 'all fixed'])
price = job('price', 'price.cpp', 'every structure 2 x 4 and (reused pricer and core) 3 x 3, symbolic costs and multipliers in multiples of 2^-12; one row x 6 columns all costs symbolic; 2 rows x 8 columns and 2 x 13 (more than 5 columns per row, once with a row whose columns may all be cut off) with 4 symbolic costs; thorough: 3 x 4, 7 columns, 5 symbolic costs',
    qflags=['-DHS=4'], tflags=['-DHM=3', '-DHS=5', '-DHV=7'], qtime=80, ttime=500, covers=['bound', 'negative'])
price7 = dict(price, covers=['bound', 'negative', 'dropped column', 'wide dropped', 'limited', 'row restored'])
greedy = job('greedy', 'greedy.cpp', 'greedy on every structure 3 x 3 and 2 x 3 with symbolic dyadic costs, multipliers, cutoff, size limit and initial columns (tied and untied scores), 2 x 2 in multiples of 2^-12; three structures with 8 rows and 9-10 columns with 3 symbolic costs (window of good scores); redundancy removal on every structure 3 x 3 and 2 x 4 with symbolic costs and cutoff, and on 12-13 column solutions (heuristic removal) with 2 symbolic costs; thorough: 2 x 4, 3 x 4, 2 x 5, 4 x 3, 4 symbolic costs',
    qflags=['-DHS=3', '-DHR=2'], tflags=['-DHS=4', '-DHR=3', '-DHX=1'], qtime=90, ttime=600, covers=['fine', 'several picks', 'solution', 'cutoff', 'partial solution', 'full', 'optimal', 'none below cutoff', 'heuristic', 'heuristic cost', 'cascade'])
containers = job('containers', 'containers.cpp', 'sorted arrays of capacity 1..4 with up to 5 symbolic keys, counters with every sequence of up to 5 cover/uncover operations on 4 elements, sort/nth/filter/minimum on every array of up to 6 symbolic values, sparse matrices of every structure 3 x 3 (larger in the thorough tier)',
    qflags=['-DHX=1'], tflags=['-DHX=2'], qtime=90, ttime=500, covers=['dropped', 'sorted array', 'counters', 'uncovered', 'any state', 'filter', 'matrix', 'long range', 'sort', 'nth', 'transpose', 'scalars', 'range_min', 'counters reset'])
rand = job('random', 'random.cpp', 'generators: every 64-bit seed (3 outputs; thorough 5) and every internal state (2 steps); canonical draws: every 32/64-bit draw for float/double, the extreme draws for long double; rnd_real: every 32/64-bit draw for 4 ranges (thorough 9) and the extreme draws for ranges up to the limits of float/double; roll_dice: every draw for spans 1..10 (some up to 1000) at the bottom, middle and top of int16/int32/int64/uint8 and for ranges as wide as the type; coin_flip: every draw with probability 0, 1, 0.5, 0.25/0.75',
    qtime=120, ttime=600, tflags=['-DHX=1'], covers=['sequence', 'state', 'canonical', 'canonical edge', 'real range', 'real edge', 'dice', 'faces', 'wide', 'coin', 'coin mid'])
refine = job('refine', 'refine.cpp', 'the real run() (outer refinement) around a three-phase step that returns any cover and bound: structures of 2-4 rows and 3-6 columns, symbolic dyadic costs (some chosen among 2 values), symbolic bounds, warm start, expiry of the clock at any inner call or clock reading, up to 2 rounds with free answers (then the incumbent), parameters alpha/beta/min_fixing at several values; thorough: more symbolic costs and rounds',
    qtime=90, ttime=600, tflags=['-DHX=1'], covers=['optimal', 'round without fixing', 'all fixed', 'round with fixing', 'improved unfixed', 'improved fixed', 'time out'])
threephase = job('threephase', 'threephase.cpp', 'the real ThreePhase, ColFixing, Greedy and Pricer around a subgradient phase that returns any multipliers, bound and improving cover: every feasible structure 2 x 3 and eight structures up to 7 rows x 7 columns, symbolic dyadic costs and multipliers, up to 2 rounds with free answers, expiry at any inner call or clock reading, object reuse, costs up to 2^25 (rounding); thorough: more symbolic costs, free multipliers in every round',
    qtime=90, ttime=600, tflags=['-DHX=1'], covers=['first iteration', 'later iteration', 'bound reached', 'all fixed', 'improved', 'time out', 'improved with fixed columns'])
subgrad = job('subgrad', 'subgrad.cpp', 'the real Subgradient (bound and heuristic phase) around a pricing step that returns any bound and core, and a greedy that returns any cover below its cutoff or a discarded one: every feasible structure 2 x 3 and seven structures up to 4 x 5 and 32 x 12, symbolic dyadic costs, multipliers and cutoff for 1-2 heuristic iterations, for 20 bound iterations with step 0 and with steps that drive the multipliers to their limits; up to 3 heuristic and 320 bound iterations with pinned costs; epsilon 0, 0.25, 0.999, 1; costs up to 2^25; thorough: more symbolic costs and free answers',
    qtime=90, ttime=600, tflags=['-DHX=1'], covers=['better cover', 'cover within epsilon', 'discarded', 'core changed', 'priced', 'improved', 'not improved', 'time out', 'bound', 'bound time out', 'bound without pricing', 'bound meets the cutoff'])
managers = job('managers', 'managers.cpp', 'step size rule: up to 4 periods of up to 20 iterations, the highest and the lowest bound at any iteration of the period with any dyadic value (positive, near the 1% and 0.1% limits, negative), from steps at and near both limits; exit rule: up to 3 (thorough 4) periods with symbolic bounds; pricing rule: up to 5 updates with symbolic bounds for caps 0..40 and 1000; bounds of exactly 0 excluded',
    qtime=60, ttime=300, tflags=['-DHX=1'], covers=['halved', 'enlarged', 'kept', 'stop', 'absolute improvement', 'relative improvement', 'gap closed', 'gap small', 'gap medium', 'gap large'])
anyfile = job('parse_any', 'parse.cpp', 'every file of up to 4 (thorough 5) arbitrary bytes for RAIL, SCP, CVRP, MPS and solution files; three well-formed files per format with up to 2 (thorough 3) consecutive bytes replaced by or extended with arbitrary bytes or removed, or cut off, anywhere; MPS files of up to 3 (thorough 4) lines from a vocabulary of 20; initial solutions with columns of up to 6 digits',
    flags=['-DHT=sx_pin(sx_int("test",0,22))', '-DTMAP=1'], qtime=100, ttime=400, tflags=['-DHX=1'], covers=['accepted', 'rejected'])
numfile = job('parse_num', 'parse.cpp', 'RAIL, CVRP and SCP files whose row, column, size, index and initial-solution fields are numbers of 1-2 arbitrary digits with sign, or any last digit next to the limits of the 8, 16, 32 and 64 bit types',
    flags=['-DLO=20', '-DHI=28'], qtime=80, ttime=300, tflags=['-DHX=1'], covers=['accepted', 'rejected'])
narrow = job('parse_narrow', 'parse.cpp', 'with 8-bit row indices: MPS files with one less, as many as, and more rows than the type holds (and than its unsigned range), RAIL columns longer than the unsigned range',
    flags=['-DLO=32', '-DHI=33', '-DCFT_RIDX_TYPE=int8_t'], qtime=30, ttime=60, covers=['accepted', 'rejected'])
wellformed = job('wellformed', 'parse.cpp', 'well-formed RAIL, SCP, CVRP and MPS files of every structure with up to 3 rows and 3 columns, five layouts (blanks, tabs, CR LF, no final newline, wrapped lines, markers, comments, one or two entries per line, any position of the objective), costs of 1-2 (thorough 3) arbitrary digits with fraction or sign; through parse_inst_and_initsol with unit costs and with solution files',
    flags=['-DLO=40', '-DHI=53'], qtime=180, ttime=600, tflags=['-DHX=1'], covers=['rail', 'scp', 'cvrp', 'mps', 'unit costs', 'initial solution', 'whole'])
roundtrip = job('roundtrip', 'parse.cpp', 'solutions of 0-2 (thorough 3) columns with arbitrary indices of 1-4 digits or next to the 32-bit limits, costs of 1-3 (thorough 4) arbitrary digits with sign and binary fraction, 18 costs at the limits of float; onto a new or an existing longer file',
    flags=['-DLO=60', '-DHI=65'], qtime=60, ttime=300, tflags=['-DHX=1'], covers=['columns', 'no columns'], assumes=['fmt prints the shortest decimal text that reads back as the same number (checked concretely on 18 reals)'])
cli = job('cli', 'cli.cpp', 'command lines of up to 2 (thorough 3) flags out of all 14 in short and long form with 8 kinds of values (numbers of 1-2 arbitrary digits, fractions, negative, the largest 64-bit number, texts, texts that look like flags), with the instance first, between or last; the same flag three times; every sequence of 3 (thorough 4) words out of 10; texts of 0..3 arbitrary bytes and every flag with a byte replaced, inserted or removed; instance paths of 1..4 (thorough 5) arbitrary bytes; the whole program main() around a solver that returns any solution, with valid and invalid arguments and files',
    flags=['-DLO=0', '-DHI=8'], qtime=120, ttime=500, tflags=['-DHX=1'], covers=['accepted', 'default name', 'no instance', 'unit costs', 'bad number', 'program', 'program fails'], assumes=['default values are those of a freshly constructed Environment'])
program = job('program', 'cli.cpp', 'the whole program main() around a solver that returns any solution of 0..2 of 3 columns with cost 0..12, three formats, with and without output path, initial solution, unit costs, invalid arguments and files',
    flags=['-DLO=7', '-DHI=7'], qtime=60, ttime=100, covers=['program', 'program fails'])
bindings = job('bindings', 'bindings.cpp', 'the functions that _bindings.cpp registers, called through a model of pybind11 (argument conversion with range checks): up to 3 (thorough 3 larger) sets of 0..3 symbolic items between -1 and 5 with symbolic or negative or infinite cost, prepared in between and at the end, copied; with 8-bit row indices all item ranges around the largest index',
    flags=['-DLO=0', '-DHI=7'], qtime=60, ttime=300, tflags=['-DHX=1'], covers=['added', 'rejected', 'prepared', 'not prepared'], assumes=['pybind11 converts arguments and results as documented'])
bindings8 = dict(bindings, name='bindings8', flags=['-DLO=3', '-DHI=3', '-DCFT_RIDX_TYPE=int8_t'], qtime=30)
pyresults = dict(bindings, name='results', flags=['-DLO=4', '-DHI=5'], qtime=30, covers=['results', 'environment'], bounds='results of 0..3 columns and rows with symbolic values seen through every registered attribute and copy; every parameter set to a symbolic value, including the seed and the generator it seeds')
facade = job('facade', 'facade.py', 'SetCoverSolver executed symbolically (z3) around a model of the bindings with the names registered by _bindings.cpp: 13 (thorough 17) histories of up to 5 (6) calls of add_set, solve, from_file with symbolic elements and costs (negative, too large, NaN, empty sets), any solution as solver result, every parameter of solve',
    names='bindings.cpp', functions=['SetCoverSolver.__init__', 'SetCoverSolver.add_set', 'SetCoverSolver.from_file', 'SetCoverSolver.solve', 'SetCoverSolver.get_solution', 'SetCoverSolver.get_cost', 'SetCoverSolver.get_lower_bound', 'SetCoverSolver.get_dual_multipliers'], qtime=120, ttime=600, tenv='FACADE_DEEP=1', covers=['added', 'solved', 'warm start', 'rejected', 'from file', 'unreadable'], assumes=['the bindings behave as the model of harness/facade.py (decided for the real _bindings.cpp by the bindings jobs)'])
twice = job('twice', 'twice.cpp', 'greedy, pricing and column fixing on every structure 3 x 3 (2 x 3, 2 x 4) with symbolic costs, multipliers, cutoff, and initial columns: a work object used before in four ways against a new one; the real three-phase algorithm and the complete solver on 4-7 column instances with every choice of 3-4 costs out of 3, before and after other runs with equal seeds and clock readings',
    qtime=120, ttime=600, tflags=['-DHX=1'], covers=['greedy', 'price', 'fix', 'phases', 'whole'])
subgrad19 = dict(subgrad, flags=['-DREPLAY'], covers=['priced', 'improved', 'time out', 'bound time out', 'bound'], bounds='the tests of subgrad.cpp that repeat a phase with the same answers on a new object')
refine19 = dict(refine, flags=['-DREPLAY'], covers=['replayed', 'round without fixing', 'round with fixing', 'improved fixed'], bounds='run() twice in a process with the same scripted answers of the three-phase step (structures 3 x 4, 6 x 6 and 2 x 3)')
threephase19 = dict(threephase, flags=['-DREPLAY'], covers=['replayed', 'later iteration', 'all fixed'], bounds='the three-phase algorithm with scripted answers on a reused and a new object (structures 2 x 3, 3 x 4 and 1 x 7), equal random state')
priceU = dict(price7, covers=['wide dropped', 'limited', 'row restored'], qtime=40)
fixU = dict(fix, qtime=30)
colfix = dict(fix, flags=['-DHT=sx_pin(sx_int("test",2,3))'], covers=['all fixed', 'some fixed'], qtime=30)
JOBS = {
 'C01': [refine, threephase, subgrad, greedy, priceU, fixU],
 'C02': [refine, threephase, subgrad, greedy, priceU, fixU],
 'C03': [refine, threephase, subgrad],
 'C04': [refine, threephase, subgrad, price],
 'C05': [refine, threephase, subgrad, fix],
 'C06': [fix],
 'C07': [price7],
 'C08': [greedy],
 'C09': [greedy],
 'C10': [wellformed],
 'C11': [anyfile, numfile, narrow],
 'C12': [roundtrip, program],
 'C13': [numbers],
 'C14': [cli],
 'C15': [refine, threephase, subgrad],
 'C16': [rand],
 'C17': [containers],
 'C18': [bindings, bindings8],
 'C19': [subgrad19, threephase19, refine19, twice],
 'C20': [strings],
 'C21': [managers],
 'C22': [facade, pyresults],
 'C23': [refine, threephase, subgrad, colfix],
}
NOTE = {}
NA = {}
