'''What is said about each check, shared by the generators of MANIFEST.json and DESIGN.md.'''

# id: (technique, oracle, why it reaches what tests cannot)
CHECKS = {
'P01': ('reference-model monitor over random operation histories on region objects',
        'numpy arrays and index arithmetic kept next to the region; the source is compared bit for bit after every operation',
        'the iterator is hidden state of the object and slices may alias: histories (repeated passes, slices of slices, clusters of scaled regions) are what tests never build'),
'P02': ('call-log monitor: recording functions inside function regions',
        'the log of (point, data) calls must be exactly the member points once; the result is recomputed per point',
        'locality and exactly-once are statements about every call, observed from inside the applied functions'),
'P03': ('reference-model monitor (label matrix) over random query histories',
        'a label matrix; disjointness, sizes, merges and intersections are recomputed by brute force',
        'all label layouts (singletons, bands, any list order), not two fixed ones'),
'P04': ('geometry monitor over an exhaustive small grid of requests plus random large ones',
        'the rectangles are rebuilt from the labels and compared with the divisors search',
        'every (x, y, k) of the grid is requested'),
'P05': ('reference-model monitor over random histories of scaled regions',
        'per-point affine maps kept next to the region',
        'nesting of slices, intervals, clusters and descaling is a history property'),
'P06': ('result auditor with an independent distance matrix and a replay of the update rule',
        'all labels, costs, swaps recomputed from a textbook DTW (or an arbitrary symmetric matrix)',
        'ties, duplicates and local optimality quantify over all data'),
'P07': ('differential monitor (serial, parallel, loaded, textbook DTW) with delay injection in the workers',
        'a textbook DTW in pure Python; the completion orders of the workers are recorded as distinct interleavings',
        'the schedule of the workers is outside the reach of tests'),
'P08': ('reference-model monitor over centroids and costs',
        'brute-force sums over an independent distance matrix',
        'clusters, slices and all measures'),
'P09': ('reference-model monitor over synthetic cost tables and end-to-end runs',
        'second differences per seed, exact rational ties kept exact',
        'several seeds, unordered and uneven k'),
'P10': ('history monitor with crash injection (kernel kills the writer at a random byte, SIGKILL at random times) and file damage; concurrent requests',
        'every answer is compared with the same request computed without saved files',
        'quantifies over crash points, histories and interleavings'),
'P11': ('round-trip and enumeration monitor',
        'the parameters that built each description; results files parsed back',
        'pairwise distinctness over all parameter combinations'),
'P12': ('call-log monitor: recording trainers, fault injection in training',
        'the exact multiset of expected training calls; perturbation of the test samples must change nothing',
        'leaks of test data are observed at the training function itself'),
'P13': ('reference-model monitor over forecasts',
        'mean, exhaustive window search, closed forms and a separate statsmodels fit',
        'every point has its own series, ties and missing models'),
'P14': ('reference-model monitor over errors',
        'textbook formulas in pure Python',
        'region kinds, scaling, missing forecasts, any order of requests on one object'),
'P15': ('schedule-perturbing differential monitor (1-7 workers, random delays)',
        'the error formulas per forecast; recorded worker orders',
        'schedules'),
'P16': ('history monitor over one analysis object',
        'recomputation from the latest training only',
        'leaks between calls need histories'),
'P17': ('reference-model monitor over query histories of real solvers',
        'partition, forecasts, descaling and errors recomputed per point',
        'all rectangles, kinds of model and measure, query orders'),
'P18': ('differential monitor: saved solver vs the same solver loaded in forked and new processes, with kills while saving',
        'bit-for-bit equality of answers plus the independent model of P17',
        'persistence across processes, other solvers in the same directories, crash points'),
'P19': ('trace checker over accessors, text and CSV output',
        'a field with a known value at every physical point',
        'offsets and partial rectangles expose swapped coordinates'),
'P20': ('brute-force choice oracle and row tracing of the real programs\' files',
        'all clusterings searched; every row is mapped back to the point that has that series',
        'ties, quotas and shared medoids'),
'P21': ('reference-model monitor with a stand-in network of known scores',
        'scores, labels, solver, forecast and error recomputed per point',
        'the original network cannot be built here; label routing and caching is what the property is about'),
'P22': ('reference-model monitor over windows',
        'direct slices', 'all window lengths and label layouts'),
'P23': ('history monitor over dataset requests with cache damage and kills while caching',
        'a calendar and a known value at every sample and point of a real HDF5 file',
        'the real dataset is not available; histories of cached files'),
'P24': ('reference-model monitor over coordinates and file names',
        'offset arithmetic; a dataset that holds its own coordinates; pairwise distinct locations',
        'all rectangles and pairs of metadata'),
'P25': ('reference-model monitor (row-major scan)',
        'scan with NaN skipping', 'ties, infinities, masks'),
'P26': ('definition oracle for memberships, masks and the fuzzy run',
        'ratio form of the FCM memberships, exact threshold comparisons, retried swaps',
        'thresholds equal to occurring differences, hostile distance tables'),
'P27': ('distance-tracing monitor with hooks on the plotted data',
        'distance tables whose entries identify their pair',
        'no existing test covers the module'),
'P28': ('definition oracle over analyses with cached, damaged and fresh partitions',
        'double-loop silhouettes', 'ties, histories'),
'P29': ('round-trip monitor over save/load histories, also across processes and interrupted saves',
        'a probe of everything observable before and after',
        'sequences of saves and loads of all region kinds'),
'P30': ('differential monitor over reruns of the real driver',
        'files parsed and compared with independently computed partitions',
        'cached, damaged and fresh state'),
'P31': ('output monitor over histories of program runs',
        'printed text and files parsed and compared with a model computed from the arguments alone',
        'interleaved trainings and queries of several settings that differ in one argument'),
'P32': ('output monitor over program runs with injected model-fit faults',
        'every row recomputed from data, labels and statsmodels fits',
        'suites of clusterings and orders, failed models (also of medoids), reruns over saved files'),
'P33': ('output monitor over sequences of program runs with injected model-fit faults',
        'every row recomputed from positions, distance matrix and the statsmodels fit of the medoid',
        'offset and scaled regions, several test lengths and errors in a row over the same files'),
'P34': ('output and file-system monitor over histories of program runs',
        "textbook DTW of each region; everything else recomputed from that region's saved matrix",
        'several regions of the same shape in one process, arbitrary matrices, missing matrices'),
'P35': ('invariant monitor on averaging steps and generated series',
        'textbook DTW, brute-force medoid, cost monotonicity, lines recomputed from labels',
        'work matrices that hold garbage, ties, different lengths, sampled candidates'),
'P36': ('monitor over command-line histories of the classifier pipeline',
        'independent clusterings, medoid forecasts, label scores and errors for every printed and written answer',
        'decoy solvers, out-of-sample regions, two networks, untrained labels, interleaved steps'),
'P37': ('monitor that repeats every requested run and reads the figures that are shown',
        'textbook DTW and silhouette of every combination of k and seed; colours and bands of the plots',
        'several regions per process, interleaved steps, left-over distance files, both modes, given medoids'),
'P38': ('process-level monitor of script runs (output, exit status, files) and walks of the real catalogues',
        'names parsed independently; DTW, partitions, forecasts and errors recomputed from the named data',
        'short datasets that differ per year, decoy names of the same region, missing steps, other directories'),
}

NOTE = ('Held on every execution explored (seeded random workloads with hostile shapes, ties, histories and '
        'faults, counted in the evidence file); nothing is claimed for inputs that were not run. Trusts the '
        'small independent oracle in /verif/harness, Python, numpy{}.')
EXTRA = {'P13': ' and statsmodels', 'P17': ' and statsmodels', 'P18': ' and statsmodels', 'P21': ' and statsmodels',
         'P28': '', 'P30': '', 'P31': ' and statsmodels', 'P32': ' and statsmodels', 'P33': ' and statsmodels', 'P36': ' and statsmodels', 'P38': ' and statsmodels'}

NOT_APPLICABLE = {}
