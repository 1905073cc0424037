"""Catalogue of properties (source of properties.jsonl and MANIFEST.json)."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None,
         note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [
             {'name': n, 'where': w} for n, w in mech]}}
    P.append((d, technique, note, na))


T = 'ABXpy/task.py'
D = 'ABXpy/distances/distances.py'
VG = 'static analysis: value-graph (gated SSA) dataflow over the source'

prop('C01', 'Every generated triplet has the ABX roles the task asked for',
     'In every row of the triplet table of a by level, A and X agree on the '
     '"on" attribute, B disagrees with X on it, A and B agree on every across '
     'attribute and X disagrees with them on every one of them, and the three '
     'items belong to that by level. Columns are always stored in the order A, '
     'B, X, and A, B and X are never the same item.',
     ['inputs', 'configurations'],
     'every item file and every on / across / by / filter / threshold choice',
     'The tests use a handful of 3-10 row item files with one column layout; '
     'a wrong role for two across columns or for unbalanced cells passes them.',
     [T], [('cell pools', T + ':Task.on_across_triplets'),
           ('by frames', T + ':Task.generate_triplets')],
     VG + '; the item pools of the three columns are abstracted to Venn '
     'regions of the on/across attributes')

prop('C02', 'Without a threshold every valid triplet is generated exactly once',
     'When no threshold and no filter is given, the triplet table of a by '
     'level contains each (A, B, X) satisfying the roles of the task exactly '
     'once. Every on/across cell that has a candidate for each of the three '
     'roles contributes its full product, and no cell is visited twice or '
     'skipped.',
     ['inputs', 'configurations'],
     'every item file and every on / across / by choice',
     'Tests compare counts on a few symmetric corpora; a dropped cell or a '
     'repeated pairing needs particular cell sizes to show.',
     [T], [('cartesian product', T + ':Task.on_across_triplets'),
           ('loop over cells', T + ':Task.generate_triplets')],
     VG + '; mixed-radix decoding of row numbers proves the product is hit '
     'exactly once per cell')

prop('C03', 'Announced task statistics equal what is generated',
     'Before generation a task announces, per by level, the number of items, '
     'of on/across blocks, of triplets, and the maximum block sizes. For every '
     'database with at most one across column and no filter these announced '
     'numbers equal the numbers found in the generated table (with two or more '
     'across columns, the number of triplets does).',
     ['inputs', 'configurations'],
     'every item file and every on / across / by choice without filters',
     'Tests assert statistics for fixed tiny corpora only; the announced '
     'numbers size the output datasets, so an error corrupts or aborts '
     'generation for other corpora.',
     [T], [('statistics', T + ':Task.compute_statistics'),
           ('levels', T + ':Task.compute_nb_levels')],
     VG + '; per-cell counts compared with the generated pools region by '
     'region')

prop('C04', 'Filters keep exactly what every filter accepts',
     'With any list of filters, a triplet is in the task exactly when every '
     'filter accepts it; filters on plain columns are applied to each of its '
     'three items. The result does not depend on the order of the filters nor '
     'on which of them are combined, and the evaluation of one filter never '
     'changes the columns another one sees.',
     ['inputs', 'configurations'],
     'every list of filters of every kind, every item file',
     'The tests use at most one filter at a time; lazily narrowed contexts '
     'only matter when several filters of one kind are combined.',
     ['ABXpy/sideop/filter_manager.py',
      'ABXpy/sideop/side_operations_manager.py'],
     [('lazy conjunction',
       'ABXpy/sideop/filter_manager.py:vectorial_filter'),
      ('contexts', 'ABXpy/sideop/side_operations_manager.py:'
       'SideOperationsManager')],
     VG + '; the extracted filter sequence is evaluated for all small '
     'combinations of abstract filters and acceptance tables')

prop('C05', 'A column suffix denotes the item it names',
     'In filters and regressors, a column name with suffix _A, _B or _X is '
     'the column of that item, _AX and _AB the value shared by these two '
     'items, _1 and _2 the shared and the differing value of an on or across '
     'column, and by columns have the value of the by level whatever the '
     'suffix. A use that has no meaning (such as _AX for a column not '
     'determined by on, or a bare column mixed with suffixes) is refused.',
     ['inputs', 'configurations'],
     'every column, every suffix, every filter or regressor over several of '
     'them',
     'The tests use two suffixes on one corpus; a swapped item still gives a '
     'plausible task.',
     ['ABXpy/sideop/side_operations_manager.py',
      'ABXpy/sideop/filter_manager.py',
      'ABXpy/sideop/regressor_manager.py', 'ABXpy/dbfun/dbfun_column.py'],
     [('classification', 'ABXpy/sideop/side_operations_manager.py:'
       'SideOperationsManager.add'),
      ('contexts', 'ABXpy/sideop/side_operations_manager.py:'
       'SideOperationsManager.set_A_B_X_context')],
     VG + '; every column and suffix (and pairs of them) evaluated on the '
     'extracted classification and contexts')

prop('C06', 'Regressor rows describe the triplet of the same row',
     'Row i of the regressor table of a by level gives the attributes of the '
     'triplet in row i of the triplet table of that by level: the A columns '
     'describe its A item, the B columns its B item, the X columns its X item. '
     'This holds after filtering, after sampling by a threshold and for every '
     'on/across block, and both tables always have the same number of rows.',
     ['inputs', 'configurations'],
     'every item file and every on / across / by / regressor / filter / '
     'threshold choice',
     'Tests never compare regressor rows with triplet rows; misalignment '
     'leaves all shapes and counts right.',
     [T, 'ABXpy/sideop/regressor_manager.py'],
     [('regressor evaluation', T + ':Task._compute_regressors'),
      ('regressor store', 'ABXpy/sideop/regressor_manager.py')],
     VG + '; row provenance of the triplet and regressor writes compared '
     'column by column')

prop('C07', 'A threshold caps every regressor group and only caps',
     'With a threshold t, each group of triplets of a block that share all '
     'regressor values is reduced to exactly min(t, size of the group) '
     'triplets. The kept triplets are distinct members of that group, and '
     'groups not larger than t are kept whole.',
     ['inputs', 'configurations'],
     'every group-size profile, every threshold',
     'The threshold tests use one corpus where all groups have the same size.',
     [T], [('threshold', T + ':Task.sort_and_threshold'),
           ('sampling', 'ABXpy/sampling/sampler.py')],
     VG + '; run-length abstract domain over the sorted regressor keys')

prop('C08', 'The pair table holds exactly the pairs the triplets need',
     'For every by level the table of unique pairs contains every pair (A, X) '
     'and (B, X) of its triplets exactly once and nothing else, sorted, at the '
     'offsets recorded for that by level. Each stored key decodes to one pair '
     'of items only, and by levels without triplets are handled.',
     ['inputs', 'configurations'],
     'every triplet table, every chunking of the read buffer, every number of '
     'by levels',
     'A duplicate spanning two read buffers, a by level without triplets, or a '
     'key collision needs tables larger than the ones of the tests.',
     [T, D], [('pair generation', T + ':Task._generate_pairs'),
              ('pair sort', T + ':Task.sort_pairs'),
              ('decoding', D + ':run_distance_job')],
     VG + '; loop-carried chunk simulation in small finite models of the value '
     'graph')

prop('C09', 'Distance jobs partition the pairs whatever the number of cpus',
     'For every number of cpus, the jobs together cover every row of the pair '
     'table of every by level exactly once, and each row is read from and its '
     'distance written to the same row. All created jobs are run.',
     ['inputs', 'configurations', 'schedules'],
     'every number of pairs per by level, every number of cpus',
     'The tests run one or two cpus on a few pairs; a block lost or repeated '
     'at a job boundary needs particular sizes.',
     [D], [('partition', D + ':create_distance_jobs'),
           ('row ranges', D + ':run_distance_job'),
           ('dispatch', D + ':compute_distances')],
     VG + '; exhaustive evaluation of the partition term over small sizes')

prop('C10', 'Parallel jobs access the shared files only under one lock',
     'When several jobs run, every opening of the pair file and of the '
     'distance file happens while the lock shared by all the jobs is held. '
     'The lock is released on every path including failures, and no job '
     'acquires it while it holds it already.',
     ['schedules', 'fault_sequences'],
     'every interleaving of the jobs and every operation that can fail',
     'A race or a deadlock after an error shows only under particular '
     'interleavings or faults.',
     [D], [('critical sections', D + ':run_distance_job'),
           ('lock creation', D + ':compute_distances')],
     'static analysis: typestate analysis of the lock over all branch '
     'valuations, with exceptional exits')

prop('C11', 'A distance file says done only when all distances are computed',
     'A distance file is marked not done when it is prepared and is marked '
     'done only after every job has returned without error. When a job fails '
     'or the run is interrupted the mark stays false, and after a successful '
     'run, with one or several cpus, it is true.',
     ['fault_sequences', 'crash_points', 'schedules'],
     'every failing job, every interruption point, every number of cpus',
     'The tests never fail a job nor look at the mark; it matters exactly in '
     'the runs the tests do not make.',
     [D], [('marker', D + ':compute_distances'),
           ('preparation', D + ':create_distance_jobs')],
     'static analysis: typestate of the marker on the value graph and the '
     'exception flow around the job calls')

prop('C12', 'Scores compare d(A,X) with d(B,X) for the right triplet',
     'The score stored in row i is +1 when the A item of triplet i is strictly '
     'closer to its X item than its B item, -1 when it is strictly farther, '
     'and 0 on a tie, infinite distances included. Every triplet of every by '
     'level gets exactly one score, in triplet order, computed from the '
     'distances of its own by level.',
     ['inputs', 'configurations'],
     'every task file, every distance file, every way the rows are chunked',
     'The tests score one tiny task; ties, infinities, several by levels and '
     'tables larger than one read buffer are not exercised.',
     ['ABXpy/score.py'], [('score loop', 'ABXpy/score.py:score')],
     VG + '; comparison interpreted over the weak orderings of two distances')

prop('C13', 'The analysis reports every group of triplets with its mean and size',
     'The result file has one header line naming the regressors, by, score and '
     'n, and then exactly one line for each by level and each combination of '
     'regressor levels that occurs among its triplets. The line carries those '
     'levels, the mean of the scores of the group mapped from [-1, 1] to [0, 1], '
     'and the number of its triplets; if the combinations cannot be numbered '
     'in 64 bits the analysis fails rather than mixing groups.',
     ['inputs'],
     'every task file and score file',
     'The tests run the analysis on one small corpus without checking the '
     'lines; confusing two groups needs particular numbers of levels.',
     ['ABXpy/analyze.py'],
     [('group keys', 'ABXpy/analyze.py:collapse'),
      ('decoding of keys', 'ABXpy/analyze.py:npdecode'),
      ('means and sizes', 'ABXpy/analyze.py:unique')],
     VG + ', evaluated over finite models of the regressor table with '
     'type-exact integers')

prop('C14', 'No stored integer wraps around',
     'Item numbers, positions of blocks and by levels, keys of pairs, keys of '
     'groups of triplets and numbers of regressor levels are computed and '
     'stored in integer types chosen from the size of the data; whatever the '
     'sizes, every value is kept exactly, or the program fails rather than '
     'storing another value.',
     ['inputs'],
     'every number of items, block size, by level position and number of '
     'regressor levels, in particular on both sides of every type limit',
     'Wrapping needs data sizes beyond a type limit (128, 256, 32768, 65536 '
     'and so on) in the one place whose type is too small; the tests use a '
     'few dozen items.',
     ['ABXpy/misc/type_fitting.py', 'ABXpy/task.py', 'ABXpy/score.py',
      'ABXpy/analyze.py', 'ABXpy/h5tools/h5io.py',
      'ABXpy/distances/distances.py'],
     [('smallest type', 'ABXpy/misc/type_fitting.py:fit_integer_type'),
      ('block rows', 'ABXpy/task.py:Task.on_across_triplets'),
      ('tables and by positions', 'ABXpy/task.py:Task.generate_triplets'),
      ('pair keys', 'ABXpy/task.py:Task._generate_pairs'),
      ('keys looked up', 'ABXpy/score.py:score'),
      ('group keys', 'ABXpy/analyze.py:collapse'),
      ('level numbers', 'ABXpy/h5tools/h5io.py:H5IO')],
     VG + ', with the array types kept in the terms; evaluated with exact '
     'machine arithmetic at the limits of the integer types')

prop('C15', 'Rows written through the buffered hdf5 writers are read back in order',
     'After any sequence of writes of any sizes, a dataset holds exactly the '
     'rows written, in order, once its writer is closed; a dataset announced '
     'with a number of rows that was not filled exactly makes the close fail. '
     'Successive reads of a dataset or of a range of its rows return the rows '
     'of that range in order, each once, and then signal the end.',
     ['inputs', 'histories'],
     'every buffer size and every sequence of write and read sizes',
     'The tests write and read one or two large arrays; losing rows needs a '
     'piece that ends exactly at, or straddles, a buffer boundary.',
     ['ABXpy/h5tools/np2h5.py', 'ABXpy/h5tools/h52np.py'],
     [('buffered write', 'ABXpy/h5tools/np2h5.py:NP2H5buffer.write'),
      ('flush and completeness', 'ABXpy/h5tools/np2h5.py:NP2H5.__exit__'),
      ('buffered read', 'ABXpy/h5tools/h52np.py:H52NPbuffer.read')],
     VG + '; row identities are tracked through the buffer for every size '
     'relation of piece, buffer and dataset (small-scope abstract domain)')

prop('C16', 'The time-warped distance is the cost of a cheapest alignment',
     'The alignment cost of two sequences is the minimum, over all monotone '
     'alignments of their frames, of the summed frame distances. With '
     'normalization it is that minimum divided by the number of steps of a '
     'cheapest alignment. Every provided distance applies its own frame '
     'distance to the two sequences in order and honours the requested '
     'normalization, for every pair of a run.',
     ['inputs'],
     'every pair of non-empty sequences, every matrix of frame distances',
     'The tests use one constant and one diagonal pattern; errors of the '
     'recurrence or of the path length need particular cost patterns.',
     ['ABXpy/distances/metrics/dtw/dtw.pyx', 'ABXpy/distance.py',
      'ABXpy/distances/example_distances.py'],
     [('recurrence and path', 'ABXpy/distances/metrics/dtw/dtw.pyx:_dtw'),
      ('default distance', 'ABXpy/distance.py:default_distance')],
     VG + '; the recurrence and the path length of the extracted graph '
     'compared with the optimum for all small matrices of frame distances')

prop('C17', 'Items without frames are at distance zero or infinity',
     'Two representations without any frame are at distance zero; one without '
     'and one with frames are at distance plus infinity, for every provided '
     'distance between items. Neither case raises an error.',
     ['inputs'],
     'every combination of empty and non-empty representations, every '
     'provided distance',
     'No test computes the distance of an empty representation.',
     ['ABXpy/distance.py', 'ABXpy/distances/example_distances.py'],
     [('default distance', 'ABXpy/distance.py:default_distance'),
      ('edit distance', 'ABXpy/distance.py:edit_distance')],
     VG + '; the extracted graph evaluated for each combination of empty and '
     'non-empty representations')

prop('C18', 'Computing a distance does not change the features',
     'No provided distance between items or frames modifies the arrays it is '
     'given, nor does the lookup of the features of an item; a second '
     'computation with the same arrays starts from the same values.',
     ['inputs', 'histories'],
     'every provided distance, every way an array can be changed in place '
     '(directly, through a view, through a called function)',
     'Tests use each array once; a changed array falsifies the later pairs '
     'that contain the same item.',
     ['ABXpy/distances/metrics/cosine.py',
      'ABXpy/distances/metrics/kullback_leibler.py', 'ABXpy/distance.py', D],
     [('normalizations', 'ABXpy/distances/metrics/kullback_leibler.py:'
       'kl_divergence'),
      ('features of items', D + ':Features_Accessor.get_features_from_raw')],
     'static analysis: flow-sensitive interprocedural may-alias and mutation '
     'analysis')

prop('C19', 'Item features are the frames of its file within the interval',
     'The features of an item are exactly the frames of its own file whose '
     'time t satisfies onset <= t <= offset, in time order and with all '
     'their dimensions.',
     ['inputs'],
     'every item interval relative to the frame times, every set of files, '
     'byte or text file names',
     'The tests use intervals far from the frame times of one or two files.',
     [D], [('window', D + ':Features_Accessor.get_features_from_raw')],
     VG + '; the window evaluated for every weak ordering of frame time, '
     'onset and offset')

prop('C20', 'Distances use the features of the very items of the triplets',
     'The item number stored in a triplet or a pair designates the same line '
     'of the item file when the triplets are built and when its features are '
     'looked up. This holds when lines with missing values are dropped, when '
     'generic filters remove items and for every by level.',
     ['inputs', 'configurations'],
     'every item file, including lines with missing values; every generic '
     'filter; every by level',
     'Test item files have no missing values and consecutive lines, where '
     'labels and positions coincide.',
     [T, D, 'ABXpy/database/database.py'],
     [('by level tables', T + ':Task._init_prepare_database'),
      ('loading', 'ABXpy/database/database.py:load'),
      ('feature lookup', D + ':run_distance_job')],
     VG + '; row identities followed through the frame operators in small '
     'models of labelled tables')

prop('C22', 'Temporary files are made where asked and never left behind',
     'Every temporary file or directory made while a task is generated lies '
     'in the temporary directory the caller gave. All of them are removed '
     'when the operation ends, also when it fails half way, and their '
     'descriptors are closed.',
     ['fault_sequences', 'configurations'],
     'every operation that can fail between creation and removal, every '
     'choice of temporary directory',
     'No test makes an operation fail half way or looks at the temporary '
     'directory.',
     ['ABXpy/task.py', 'ABXpy/h5tools/h5_handler.py'],
     [('pairs', 'ABXpy/task.py:Task._generate_pairs'),
      ('sort', 'ABXpy/h5tools/h5_handler.py:H5Handler.sort'),
      ('context', 'ABXpy/h5tools/h5_handler.py:H5TMP.__exit__')],
     'static analysis: typestate of temporary paths over the event graph, '
     'with exceptional edges (finalizers and context managers)')

prop('C25', 'A failure while working on data makes the command fail',
     'An error raised while reading features, computing a distance, running a '
     'parallel job, or reading or writing a data file reaches the caller: no '
     'handler, finalizer or context manager on the way discards it. Errors of '
     'parallel jobs are collected by the parent.',
     ['fault_sequences'],
     'every operation on data that can fail and every handler around it',
     'Tests exercise successful runs; a swallowed error leaves a complete '
     'looking file with wrong content.',
     [D, 'ABXpy/h5tools/np2h5.py', 'ABXpy/h5tools/h52np.py', 'ABXpy/score.py'],
     [('handlers', D + ':run_distance_job'),
      ('buffers', 'ABXpy/h5tools/np2h5.py:NP2H5.__exit__')],
     'static analysis: interprocedural exception-flow and effect analysis of '
     'handlers, finalizers and context managers')

prop('C29', 'Frame distances follow their definitions',
     'For sequences of any lengths, entry (i, j) of a matrix of frame '
     'distances is the documented distance of frame i of the first and frame '
     'j of the second sequence: angle divided by pi, Kullback-Leibler '
     'divergence with its thresholding, symmetrization and normalization '
     'options, Jensen-Shannon divergence and its root, Hellinger distance.',
     ['inputs', 'configurations'],
     'every pair of non-degenerate sequences, one or several frames, every '
     'combination of options',
     'No test evaluates a frame distance; only whole runs with one distance '
     'are compared with themselves.',
     ['ABXpy/distances/metrics/cosine.py',
      'ABXpy/distances/metrics/kullback_leibler.py'],
     [('cosine', 'ABXpy/distances/metrics/cosine.py:cosine_distance'),
      ('divergences', 'ABXpy/distances/metrics/kullback_leibler.py:'
       'kl_divergence')],
     VG + '; identity testing of the extracted formula against the '
     'definition with 60 digit arithmetic at generic points')

prop('C30', 'Null and parallel frames have a defined distance',
     'The cosine distance of two null frames is 0, of a null and another '
     'frame 1, of parallel frames 0 and of opposite frames 1, wherever these '
     'frames are in their sequences and whatever rounding does. Equal '
     'distributions are at distance 0 for the other frame distances.',
     ['inputs'],
     'every placement of null, parallel and opposite frames in the two '
     'sequences',
     'Test features contain no null frames, and parallel frames exceed a '
     'cosine of one by rounding only sometimes.',
     ['ABXpy/distances/metrics/cosine.py',
      'ABXpy/distances/metrics/kullback_leibler.py'],
     [('conventions', 'ABXpy/distances/metrics/cosine.py:cosine_distance')],
     VG + '; the extracted graph evaluated for the placements of degenerate '
     'frames, with norms rounded down')

prop('C33', 'Sorting on disk gives sorted files and loses nothing',
     'Sorting datasets by a key dataset leaves the keys in increasing order '
     'and every other dataset permuted like the keys, with no row lost or '
     'repeated, whatever the number of rows, the ties between keys, the '
     'memory allowed and the number of chunks this takes. The questions the '
     'merge asks a reading buffer (its last row, how many rows are not above '
     'a value, whether rows are left) are answered for the rows it holds.',
     ['inputs', 'configurations'],
     'every file, every buffer size for reading and writing',
     'The tests sort files that fit in one chunk; merging starts above the '
     'memory limit, and goes wrong only for particular distributions of the '
     'keys over chunks and buffers.',
     ['ABXpy/h5tools/h5_handler.py', 'ABXpy/h5tools/h52np.py'],
     [('merge', 'ABXpy/h5tools/h5_handler.py:H5Handler.sort'),
      ('chunks', 'ABXpy/h5tools/h5_handler.py:H5Handler.extract_chunk'),
      ('questions', 'ABXpy/h5tools/h52np.py:H52NPbuffer.nb_lower_than')],
     VG + '; the extracted event graph of the merge interpreted over models '
     'of files with abstract buffers')

prop('C34', 'Uniform time warping aligns frames by their relative position',
     'The uniformly warped distance of two sequences sums, over the frames '
     'of the longer one, the distance to the frame of the shorter one at the '
     'same relative position; a position exactly between two frames counts '
     'half of each. It depends neither on the order of the arguments nor on '
     'the direction of time.',
     ['inputs'],
     'every pair of lengths, every frame distance that is symmetric',
     'There is no test; positions between two frames occur for particular '
     'pairs of lengths, and rounding hides some of them.',
     ['ABXpy/distances/metrics/utw.py'],
     [('coordinates', 'ABXpy/distances/metrics/utw.py:distance_coordinates')],
     VG + '; the extracted graph evaluated with abstract frame distances for '
     'all small lengths, and a rule on equality of rounded quotients')

prop('C35', 'Regressor values stay attached to their name and row',
     'The regressors stored with a task are a list of names, a list of levels '
     'for each name and a table of level numbers with one row per triplet. '
     'Reading the level of a name in a row gives the level that was computed '
     'for it, in whatever order names and level lists were declared and in '
     'however many pieces the rows were written.',
     ['inputs', 'histories'],
     'every order of declaration of the regressors and their level lists, '
     'every history of writes, new and existing groups',
     'Names and level lists are usually declared in the same order, and no '
     'test reads a regressor back.',
     ['ABXpy/h5tools/h5io.py'],
     [('names and level lists', 'ABXpy/h5tools/h5io.py:H5IO.__init__'),
      ('rows', 'ABXpy/h5tools/h5io.py:H5IO.write')],
     VG + ', evaluated over a model of the file for all orders of declaration '
     'and histories of writes')

prop('C27', 'Sampling without replacement is exact, complete and fair',
     'A sample without replacement has exactly the requested number of '
     'distinct positions of the population, in increasing order, and every '
     'set of that size is equally likely. Read in chunks of any sizes, an '
     'incremental sampler samples exactly the requested total over the '
     'population, iteration covers the population once, and the positions of '
     'a chunk lie in that chunk, counted from its start or from the start of '
     'the population as asked.',
     ['inputs', 'histories', 'schedules'],
     'every population and sample size, every sequence of chunk sizes, every '
     'outcome of the random draws',
     'One test compares two small samples; errors appear for particular '
     'draws, at the borders of chunks, or as probabilities that a test '
     'cannot measure.',
     ['ABXpy/sampling/sampler.py'],
     [('samples', 'ABXpy/sampling/sampler.py:sample_without_replacement'),
      ('number of items in a chunk',
       'ABXpy/sampling/sampler.py:hypergeometric_sample'),
      ('chunks', 'ABXpy/sampling/sampler.py:IncrementalSampler.sample')],
     VG + '; every random draw is a nondeterministic choice of the graph, '
     'whose paths are enumerated with their probabilities for small '
     'populations, and function summaries for the samplers of large ones')

prop('C23', 'The same seed gives the same task, in any process and any order',
     'Generating the triplets twice from the same item file, specification, '
     'threshold and seed gives the same triplets and the same regressors, in '
     'the same order. The result depends neither on the clock, the process or '
     'the order in which names hash in it, nor on the tasks generated or the '
     'numbers drawn before, whatever the seed, zero included.',
     ['inputs', 'configurations', 'histories'],
     'every item file, specification, threshold and seed; every hash seed of '
     'the interpreter; every history of the process',
     'A test compares runs of one process, with one hash seed and one history, '
     'where an unseeded draw, a stale cache or an order of names cannot show.',
     [T, 'ABXpy/sampling/sampler.py', 'ABXpy/dbfun/dbfun_column.py',
      'ABXpy/sideop/regressor_manager.py'],
     [('seeding', T + ':Task.generate_triplets'),
      ('draws', 'ABXpy/sampling/sampler.py:sample_without_replacement'),
      ('codes of the levels', 'ABXpy/dbfun/dbfun_column.py:DBfun_Column'),
      ('order of the regressors',
       'ABXpy/sideop/regressor_manager.py:RegressorManager.__init__')],
     VG + '; taint of the sources of chance, and comparison of the value '
     'graphs under opposite orders of the sets of names and after other tasks')

prop('C24', 'Command lines do what the equivalent library calls do',
     'Every argument and option of the command-line programs, in the place '
     'and under the flags documented, reaches the library parameter it names, '
     'with its type and with the documented default when it is left out; '
     'chosen distance functions are the ones named. A call that is rejected '
     'for its arguments or a missing input reports failure and leaves every '
     'file alone; otherwise only the output being replaced is removed.',
     ['inputs', 'configurations'],
     'every command line, every set of files present',
     'Tests call the library; the programs are run in one example with one '
     'set of options.',
     ['ABXpy/task.py', 'ABXpy/distance.py', 'ABXpy/score.py',
      'ABXpy/analyze.py', 'ABXpy/verify.py',
      'ABXpy/misc/any2h5features.py'],
     [('task', 'ABXpy/task.py:main'),
      ('distance', 'ABXpy/distance.py:main'),
      ('choice of the distance function', 'ABXpy/distance.py:run'),
      ('score', 'ABXpy/score.py:main'),
      ('analyze', 'ABXpy/analyze.py:main')],
     VG + ' of the entry points; the options read off it make a parser of the '
     'standard library, and the graph is evaluated for the namespaces of a '
     'family of command lines')

prop('C26', 'The item table says what the item file and its tables say',
     'Loading an item file gives one item for every line whose attributes are '
     'all known, in order, with the name of its file as written, its onset '
     'and offset, the values of its columns and, at any depth, those the '
     'auxiliary files give for them; attributes and locations of an item '
     'carry the same label. Lines with missing information are left out of '
     'every table and listed in the file of removed items; malformed headers '
     'and auxiliary files that are ambiguous or about another column are '
     'refused. The hierarchy of the attributes holds every attribute once, '
     'below the one that determines it.',
     ['inputs'],
     'every item file, every set of auxiliary files',
     'The tests load generated item files without auxiliary files, missing '
     'values or odd names, so rows that slip against each other never show.',
     ['ABXpy/database/database.py'],
     [('item file', 'ABXpy/database/database.py:load'),
      ('auxiliary files', 'ABXpy/database/database.py:load_aux_dbs'),
      ('text tables', 'ABXpy/database/database.py:read_table')],
     'abstract interpretation of the loader over a domain of tables that '
     'keeps rows, labels and columns apart, with the documented meaning of '
     'the library operations, for a family of model files')

prop('C31', 'Verification passes exactly the consistent inputs',
     'The verification of an item file against a features file succeeds '
     'exactly when the header has the documented form and the source of '
     'every item, wherever it stands, is one of the sources of the features; '
     'blank lines, and whether progress is printed, do not matter.',
     ['inputs'],
     'every item file and every features file, in both versions of the '
     'features format',
     'A test tries a few files; a line that is skipped or a name that is only '
     'compared in part shows for particular files.',
     ['ABXpy/verify.py'],
     [('verification', 'ABXpy/verify.py:check')],
     'abstract interpretation of the script on model files (lines with a '
     'reading position, groups of names), for a family with every kind of '
     'header and every position of an unknown source')

prop('C32', 'Conversion writes every file once under its own name',
     'Converting a folder writes the times and the features of each of its '
     'files exactly once, under the name of the file without its extension, '
     'to the group of the output asked for, with the loader asked for, '
     'whatever the number of files and the size of the batches.',
     ['inputs', 'configurations'],
     'every folder, every batch size, every loader',
     'No test converts more files than a batch holds, where files can be '
     'dropped or repeated.',
     ['ABXpy/misc/any2h5features.py'],
     [('batches', 'ABXpy/misc/any2h5features.py:any_to_h5features'),
      ('folder', 'ABXpy/misc/any2h5features.py:convert')],
     'abstract interpretation of the converter on model folders whose files '
     'are tokens, recording the lists handed to the writer, for every number '
     'of files and batch size up to the bound')

prop('C21', 'Every step only reads what it is given and refuses to overwrite',
     'Making a task, computing distances, scoring, analysing, verifying and '
     'loading an item table open the files they are given for reading only, '
     'and never remove, rename or replace them; what they write lies in the '
     'output asked for, in files named after it or after the item file, or in '
     'temporary files. Making a task and scoring refuse an output that exists '
     'before anything is written to it, whatever the file is.',
     ['inputs', 'configurations', 'schedules'],
     'every call of the steps, with one or several processes, and every state '
     'of the files they are given and of their output',
     'A test sees its output, not what was done to the input; inputs that may '
     'only be read, that another process reads at the same time, or outputs '
     'that exist with some other content do not occur in them.',
     ['ABXpy/score.py', 'ABXpy/analyze.py', D, T,
      'ABXpy/database/database.py', 'ABXpy/h5tools/h52np.py'],
     [('scores', 'ABXpy/score.py:score'),
      ('analysis', 'ABXpy/analyze.py:analyze'),
      ('distances', D + ':run_distance_job'),
      ('task', T + ':Task.generate_triplets'),
      ('reader', 'ABXpy/h5tools/h52np.py:H52NP.__enter__')],
     'static effect analysis: interprocedural symbolic interpretation that '
     'collects every access to a file with its path as a term over the '
     'arguments and its mode, and the conditions known before it')

prop('C36', 'Showing the progress changes nothing',
     'A task made with the progress shown has the same statistics, triplets, '
     'regressors and pairs as one made without, draws the same random numbers '
     'and is refused in the same cases. The progress itself is shown for '
     'every kind of standard input, missing or closed ones included, and '
     'gives for each of its counters what was done and the total.',
     ['inputs', 'configurations'],
     'every task, verbose or not, with and without a threshold, every kind of '
     'standard input',
     'The tests compare no verbose task with a silent one, and run with the '
     'standard input of the test runner.',
     [T, 'ABXpy/misc/progress_display.py'],
     [('task', T + ':Task.generate_triplets'),
      ('statistics', T + ':Task.compute_statistics'),
      ('display', 'ABXpy/misc/progress_display.py:ProgressDisplay')],
     'static information flow analysis: the verbosity is a symbol, which must '
     'not occur in the terms and conditions of any effect; abstract '
     'interpretation of the display for every kind of standard stream')

prop('C28', 'Specifications without a meaning are refused',
     'A task is refused with an error when its item file is missing, when on '
     'is not the name of one attribute, when an on, across or by attribute '
     'is not a column of the item table, or when any column of the item file '
     'or of its auxiliary files has an underscore or a # in its name; every '
     'other choice of on, across and by is accepted. Generating a task '
     'without any possible triplet gives a warning and makes no file.',
     ['inputs', 'configurations'],
     'every item table with its auxiliary files, every choice of on, across '
     'and by',
     'The tests define three valid tasks; a column name that the suffixes '
     'make ambiguous is accepted without any sign and denotes another item.',
     ['ABXpy/task.py', 'ABXpy/database/database.py'],
     [('checks', 'ABXpy/task.py:Task._init_check_database'),
      ('empty tasks', 'ABXpy/task.py:Task.generate_triplets')],
     VG + '; the constructor is interpreted on model item files with the '
     'documented meaning of the pandas operations, the generation with an '
     'announced total of zero')

prop('C37', 'A filter or regressor script means what Python says',
     'A script given as text or as the name of a .py file yields the value of '
     'its last expression, after every statement before it was executed once '
     'and in order, in one fresh namespace that holds its imports, its '
     'variables and the columns, also for the functions it defines. The '
     'columns it reads from the table are exactly those it names. A script '
     'that does not end with an expression is refused.',
     ['programs', 'inputs'],
     'every script made of Python statements, every set of columns, every '
     'sequence of evaluations',
     'The tests use one-line expressions only; a script whose parts are '
     'reordered, dropped or evaluated in another namespace still works for '
     'those.',
     ['ABXpy/dbfun/dbfun_compute.py'],
     [('parsing', 'ABXpy/dbfun/dbfun_compute.py:DBfun_Compute.parse'),
      ('evaluation', 'ABXpy/dbfun/dbfun_compute.py:DBfun_Compute.evaluate'),
      ('names', 'ABXpy/dbfun/dbfun_compute.py:nameVisitor')],
     'static analysis: abstract interpretation of the evaluator on model '
     'scripts, with compile, exec and eval modelled on syntax trees: the '
     'sequence of statements executed, the returned expression and the '
     'namespaces')

prop('C38', 'Distances are accurate to rounding, whatever the features',
     'The distance of two items differs from the exact value of its formula '
     'by no more than the rounding errors of double precision, for features '
     'of any magnitude and sequences of any length. In particular no distance '
     'overflows, loses all its digits to cancellation or becomes nan when its '
     'exact value is an ordinary number.',
     ['inputs'], 'every finite feature matrix of any magnitude and length',
     'The error depends on the magnitudes and the order of the additions; '
     'the tests compare a handful of small matrices.',
     ['ABXpy/distances/metrics/cosine.py', 'ABXpy/distances/metrics/dtw.pyx'],
     [('frame distances', 'ABXpy/distances/metrics/cosine.py'),
      ('alignment', 'ABXpy/distances/metrics/dtw.pyx')],
     na='Rounding errors are a matter of the magnitudes at run time and of '
     'the summation order inside numpy and BLAS, which are not in the source '
     'analysed; an interval analysis of the formulas without bounds on the '
     'features proves nothing. The formulas themselves are decided over exact '
     'arithmetic (C16, C29, C30, C34).')

prop('C39', 'Memory stays within the buffers whatever the size of the task',
     'Generating the triplets, sorting the pairs, computing the distances and '
     'scoring use memory in proportion to the buffers, the items and the '
     'largest block, never to the number of triplets of the task. A task '
     'larger than the memory of the machine is therefore still processed.',
     ['inputs', 'configurations'], 'every task and machine',
     'The tests only hold tasks of a few hundred triplets.',
     ['ABXpy/h5tools/np2h5.py', 'ABXpy/h5tools/h5_handler.py'],
     [('buffers', 'ABXpy/h5tools/np2h5.py:NP2H5'),
      ('external sort', 'ABXpy/h5tools/h5_handler.py:H5Handler')],
     na='How much memory numpy, pandas and hdf5 allocate for an operation, '
     'and how large the largest block and group are, are runtime quantities; '
     'no static bound on them is in reach, and some steps (scoring, '
     'collapsing the results) hold whole by levels by design. What the source '
     'does decide, that the buffers hold and lose nothing, is C15 and C33.')

prop('C40', 'A run with several jobs ends, whatever the schedule',
     'Computing the distances with any number of jobs ends, also when a '
     'worker process is killed while it holds a lock. No schedule of the '
     'workers leaves the parent waiting for ever.',
     ['schedules', 'fault_sequences'],
     'every number of jobs, every schedule, every death of a worker',
     'A test sees a single schedule, in which no worker dies.',
     ['ABXpy/distances/distances.py'],
     [('jobs', 'ABXpy/distances/distances.py:run_distance_job')],
     na='Whether a pool of processes notices a killed worker and whether a '
     'lock it held is released is decided inside the standard library and '
     'the operating system, not in the source analysed. Taking and releasing '
     'the lock in the source is decided by C10, failures that are raised by '
     'C11 and C25.')
