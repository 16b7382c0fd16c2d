"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
AX='nimble/core/data/axis.py'; DH='nimble/core/data/_dataHelpers.py'; BA='nimble/core/data/base.py'
LI='nimble/core/data/list.py'; LA='nimble/core/data/listAxis.py'
p('C01','Point and feature names label each axis one to one',
 'After any sequence of naming and structural operations every name on an axis belongs to exactly one index, every index carries at most one name, and looking a name up and reading the name at that index agree. Renaming one vector frees its previous name; names of other vectors never change as a side effect. An assignment that would give two vectors one name, name a vector that does not exist, or supply the wrong number of names is rejected.',
 ['inputs','histories'],'every axis length, every set of current names (including unnamed vectors) and every list, dictionary or single (re)naming, and every history of renaming and structural operations',
 'the tests name a handful of 3x3 objects once each; nothing relates the two directions of the name table over arbitrary earlier names and histories.',
 [AX,DH],[('setNames in all its forms','nimble/core/data/axis.py:Axis._setNames'),('two-way name table','nimble/core/data/axis.py:Axis._getIndexByName'),('names kept through insertion','nimble/core/data/axis.py:Axis._setInsertedCountAndNames'),('names of a selection','nimble/core/data/axis.py:Axis._getStructuralNames')],
 [('names','index -> name or unnamed','axis.py'),('namesInverse','name -> index','axis.py')],['getNames, getName, getIndex, hasName'])
p('C02','Identifiers resolve to exactly the vectors they denote',
 'A non-negative index, a negative index, a name, a slice (inclusive at both ends, for names and indices alike, with either sign of the step), a boolean mask or a list of these selects exactly the vectors denoted, in the order given. Identifiers that denote no vector (out of range, unknown name, wrong type, wrong mask length) are rejected and never silently select something else.',
 ['inputs'],'every axis length, name assignment and identifier of every accepted kind',
 'tests use fixed small objects and a few positive indices; boundary positions (-n, n, empty slices, masks) over arbitrary lengths are not covered.',
 [AX,DH],[('single identifiers','nimble/core/data/axis.py:Axis._getIndex'),('slices, masks and lists','nimble/core/data/axis.py:Axis._processMultiple'),('lists of identifiers','nimble/core/data/_dataHelpers.py:constructIndicesList'),('ranges','nimble/core/data/axis.py:_validateStartEndRange')])
p('C03','Structural selection partitions vectors without loss',
 'copy, extract, delete, retain and count by identifiers, range, number or condition agree on which vectors are selected: extract returns exactly the selected vectors with their names and values and leaves exactly the others, delete leaves the same, retain leaves the selected ones, count is how many there are. Selected and remaining vectors keep their values, names and relative order (a list of identifiers gives that order).',
 ['inputs','histories'],'every object content and type, every target kind (identifiers, start/end, number, predicate, query string) on either axis',
 'each call is tested on a few literals per type; agreement among the five operations over arbitrary targets is not tested.',
 [AX,LA,'nimble/core/data/matrixAxis.py','nimble/core/data/dataframeAxis.py','nimble/core/data/sparseAxis.py'],
 [('shared front end','nimble/core/data/axis.py:Axis._genericStructuralFrontend'),('per type back ends','nimble/core/data/listAxis.py:ListAxis._structuralBackend_implementation'),('names of the result','nimble/core/data/axis.py:Axis._getStructuralNames')])
p('C04','Reordering and growing keep every vector with its name',
 'permute and sort apply one permutation of the axis to values and names together (sort orders stably by the requested key and direction); insert and append place the new vectors contiguously at the requested position without disturbing the others; repeat and replace yield exactly the documented copies. Values stay attached to their point and feature names throughout.',
 ['inputs','histories'],'every content, order, insertion point, key and number of copies, on either axis and in each data type',
 'the tests check example permutations and insert points, not that values and names move together for arbitrary ones.',
 [AX,LA,'nimble/core/data/sparseAxis.py'],[('permute','nimble/core/data/axis.py:Axis._permute'),('sort','nimble/core/data/axis.py:Axis._sort'),('insert and append','nimble/core/data/axis.py:Axis._insert'),('repeat','nimble/core/data/axis.py:Axis._repeat')])
p('C05','A view is a read-only faithful window of its source',
 'For every window of points and features a view reports the shape, values and names of that window of its source at all times, and reading through it, including whole-object reads, statistics and copies, gives what an independent copy of the window would give. No operation on a view changes the source or succeeds in changing the view.',
 ['inputs','histories'],'every source, window (contiguous ranges on both axes, empty allowed) and read operation',
 'the test base class reads views in a few fixed windows; windows crossing every boundary and nested views are not explored.',
 ['nimble/core/data/views.py',LI,'nimble/core/data/sparse.py','nimble/core/data/base.py'],[('view construction','nimble/core/data/base.py:Base.view'),('name translation','nimble/core/data/views.py:AxisView'),('list window','nimble/core/data/list.py:ListView'),('sparse window','nimble/core/data/sparse.py:SparseView')])
p('C06','The four data types are observationally equal',
 'For the same content, List, Matrix, DataFrame and Sparse objects answer every read, comparison and conversion alike, and the same sequence of operations leaves them with the same values and names. Converting to another type and back loses nothing.',
 ['inputs','histories'],'every content (numeric, missing, text, zero heavy) and every operation sequence run in lockstep on the four types',
 'each type is tested against its own expected literals; long operation sequences that build up internal caches (for example the ordering of a sparse object) are never run in lockstep.',
 [LI,'nimble/core/data/matrix.py','nimble/core/data/dataframe.py','nimble/core/data/sparse.py'],[('element read','nimble/core/data/sparse.py:Sparse._getitem_implementation'),('sorted cache','nimble/core/data/sparse.py:Sparse._sortInternal'),('conversion','nimble/core/data/base.py:Base._copy_outputAs'),('equality','nimble/core/data/base.py:Base.isIdentical')])
p('C07','Merging objects aligns vectors by identity, losing and inventing none',
 'Merging two objects under strict, union, intersection or left rules yields exactly the points and features that rule selects, each cell coming from the operand that owns it, missing where neither does; cells present in both must agree or the merge is refused. Names of combined objects come from whichever operand is named, a named operand winning over an unnamed one, and conflicting names are refused.',
 ['inputs'],'every pair of operands, names, rules on either axis and key feature',
 'the merge tests enumerate selected literal pairs; alignment for arbitrary name overlaps and orders is not covered.',
 [BA,DH],[('merge','nimble/core/data/base.py:Base.merge'),('name reconciliation','nimble/core/data/_dataHelpers.py:mergeNames'),('conflict detection','nimble/core/data/_dataHelpers.py:inconsistentNames'),('binary operation names','nimble/core/data/_dataHelpers.py:binaryOpNamePathMerge')])
p('C08','Reshaping rearranges cells and loses none',
 'flatten lists every cell once in the requested point or feature order and unflatten restores the original shape, values and names; transpose exchanges the axes and is its own inverse. Replacing a rectangle of cells changes exactly the cells in the rectangle to the given values and nothing else.',
 ['inputs'],'every shape, content, order and rectangle',
 'tests flatten and replace a few small literals; index arithmetic over arbitrary shapes is not settled by them.',
 [BA,LI],[('flatten','nimble/core/data/list.py:List._flatten_implementation'),('unflatten','nimble/core/data/list.py:List._unflatten_implementation'),('transpose','nimble/core/data/list.py:List._transpose_implementation'),('rectangle','nimble/core/data/list.py:List._replaceRectangle_implementation')])
p('C09','Element-wise operations act on every cell and only as documented',
 'Arithmetic, comparison and logical operators, element and vector calculations and transformations apply the scalar operation to every (selected) cell at its own position, in place or not as documented, keep names as documented, and leave operands of non in-place forms unchanged. Shape or name mismatches are refused.',
 ['inputs'],'every operand pair or function, selected points and features, and data type',
 'operators are tested on a few random matrices against numpy; the sparse shortcuts, limits and zero handling per operator are sampled only at a few points.',
 [BA,DH,'nimble/core/data/sparse.py'],[('binary operators','nimble/core/data/base.py:Base._genericBinaryOperations'),('element function wrapper','nimble/core/data/_dataHelpers.py:validateElementFunction'),('transform','nimble/core/data/base.py:Base.transformElements'),('sparse arithmetic','nimble/core/data/sparse.py:Sparse._genericMul_implementation')])
p('C10','Filling replaces exactly the matching elements',
 'A fill changes only elements that match, puts in them the documented value (constant, column statistic of the non matching elements, last earlier or next later non matching element, linear interpolation between the neighbours) and leaves every other element, the length and the order untouched. A vector with no usable source element is refused or left as documented.',
 ['inputs'],'every vector, match condition and fill, including runs of matches at either end',
 'the fill tests have a handful of vectors; gaps at ends, consecutive gaps and all-matching vectors over arbitrary lengths are not covered.',
 ['nimble/fill/fill.py',AX],[('constant','nimble/fill/fill.py:constant'),('forward','nimble/fill/fill.py:forwardFill'),('backward','nimble/fill/fill.py:backwardFill'),('interpolate','nimble/fill/fill.py:interpolate'),('mean, median, mode','nimble/fill/fill.py:factory'),('application to data','nimble/core/data/axis.py:Axis._fillMatching')])
p('C11','Match predicates and query strings select exactly what they say',
 'Each match predicate (missing, numeric, zero, positive, true/false, ... and its any/all vector forms) is true of exactly the values its definition names, and a query string selects exactly the elements or vectors for which its comparison holds. anyX holds of an object iff some element is X, allX iff every element is.',
 ['inputs'],'every scalar value (None, nan, numbers, booleans, text), vector and query text',
 'tests list example values; the predicates as total functions over all value kinds and their quantified forms are not.',
 ['nimble/match/match.py','nimble/match/query.py'],[('predicates','nimble/match/match.py:missing'),('any/all forms','nimble/match/match.py:anyAllFuncBackend'),('query','nimble/match/query.py:QueryString')])
p('C12','Writing to CSV and reading back preserves data',
 'Data written to a CSV file and read back has the same values, point names and feature names, for text with separators, quotes and spaces, missing values and numbers alike. When reading, a column is numeric exactly when all its non missing cells are numbers; no cell moves to another row or column and ignored blank lines and selected points or features do not shift the others.',
 ['inputs'],'every table of numbers, missing values and text, with or without names, and every choice of selected points and features',
 'tests write and read literal files; arbitrary quoting, blank lines, missing first values and selections are not explored.',
 ['nimble/core/_createHelpers.py',BA],[('column typing','nimble/core/_createHelpers.py:_csvColTypeTracking'),('cell conversion','nimble/core/_createHelpers.py:_intFloatOrString'),('python reader','nimble/core/_createHelpers.py:_loadcsvUsingPython'),('quoting','nimble/core/data/_dataHelpers.py:csvCommaFormat')])
p('C13','Constructing an object keeps the source data and never alters it',
 'An object built from a list of lists, list of dictionaries, dictionary, array, data frame or sparse matrix holds the same values at the same positions, with names taken from the first row, first column or given names exactly as asked, limited to the requested points and features in the requested order. The source passed in is never modified and later changes to the object do not show in it.',
 ['inputs'],'every raw source kind, content, name option and selection',
 'construction tests use fixed literals per source type and do not compare the source before and after for all combinations.',
 ['nimble/core/create.py','nimble/core/_createHelpers.py'],[('entry','nimble/core/create.py:data'),('name extraction','nimble/core/_createHelpers.py:extractNamesFromRawList'),('selection','nimble/core/_createHelpers.py:getKeepIndexValues'),('name validation','nimble/core/_createHelpers.py:_namesDictToList')])
p('C14','Cross validation folds partition the points',
 'The folds of k-fold validation are k disjoint index sets covering every point once, with sizes differing by at most one; group folds keep all points of a group in one fold, one fold per group. In each iteration training and testing sets are complementary, points keep their pairing with their labels, and the source data is unchanged.',
 ['inputs'],'every number of points, folds and group assignment',
 'tests check a few sizes; divisibility edge cases and the partition property over all sizes are not covered.',
 ['nimble/core/tune.py'],[('k folds','nimble/core/tune.py:KFoldIterator.makeFoldList'),('group folds','nimble/core/tune.py:GroupFoldIterator.makeFoldList'),('splitting','nimble/core/tune.py:FoldIterator.__next__')])
p('C15','Hyperparameter tuning tries its candidates and reports the best',
 'Brute force tuning evaluates every combination of the given candidate values exactly once; consecutive and iterative tuning evaluate only given or permitted values. The reported best arguments are a candidate actually evaluated whose score no other evaluated candidate beats in the direction the performance function declares, and all reported results pair each argument set with its own score, best first.',
 ['inputs','histories'],'every candidate grid, score assignment (ties included) and optimisation direction',
 'tests run a few grids with one performance function; arbitrary score landscapes and directions are not covered.',
 ['nimble/core/tune.py'],[('selection loop','nimble/core/tune.py:Tuning.tune'),('brute force','nimble/core/tune.py:BruteForce'),('consecutive','nimble/core/tune.py:Consecutive'),('iterative','nimble/core/tune.py:Iterative'),('candidate values','nimble/core/tune.py:Tune')])
p('C16','Randomness is reproducible and isolated',
 'Setting a seed makes every later random operation repeat exactly, and running code under a temporary seed leaves the surrounding random streams exactly as they were, whether the code finishes or fails. Random data honours its requested shape, sparsity and element type.',
 ['inputs','histories','fault_sequences'],'every seed and every interleaving of nested temporary seeds, draws and failures',
 'tests seed and draw a few times; nesting and failing inside a temporary seed are not explored.',
 ['nimble/random/randomness.py'],[('temporary seed','nimble/random/randomness.py:alternateControl'),('global seed','nimble/random/randomness.py:setSeed'),('saved state','nimble/random/randomness.py:_saveState')])
p('C17','Configuration: the session overrides the file, and only saving persists',
 'Reading an option gives the value last set in the session, else the saved value, else the default. Setting an option changes only that option and reaches the file only when saved; saving writes exactly the changed options and leaves the others in the file as they were. Reading a section or option that nothing defines is refused.',
 ['histories','inputs'],'every sequence of set, get, save and reload over any options and default file content',
 'tests do a few single set/save calls; sequences mixing overriding, restoring and partial saves are not covered.',
 ['nimble/core/configuration.py'],[('session layer','nimble/core/configuration.py:SessionConfiguration'),('file layer','nimble/core/configuration.py:SessionConfiguration.saveChanges')])
p('C18','Performance functions equal their mathematical definitions',
 'Error, accuracy, squared, absolute and binary-classification measures (precision, recall, specificity, F1, ...), confusion matrices equal their textbook definition on every pair of known and predicted labels, count each point exactly once and respect the declared best direction. Mismatched shapes or missing values are refused as documented.',
 ['inputs'],'every pair of label vectors of equal length, label alphabet and positive label',
 'tests compare a few literal vectors; degenerate inputs and arbitrary label sets are not covered.',
 ['nimble/calculate/loss.py','nimble/calculate/binary.py','nimble/calculate/utility.py','nimble/calculate/matrix.py'],[('error loop','nimble/calculate/loss.py:_computeError'),('confusion matrix','nimble/calculate/similarity.py:confusionMatrix'),('binary measures','nimble/calculate/binary.py:_getBinaryConfusionMatrix')])
p('C19','Statistics and normalisation equal their definitions, ignoring missing values',
 'Each per-vector statistic (mean, median, mode, min, max, sum, unique count, proportions, deviations, quartiles) equals its definition over the non missing elements of that vector, in every data type. Normalisations map each feature to the documented scale with training parameters only and do so identically on a second object.',
 ['inputs'],'every numeric or mixed vector, with missing values anywhere, and every data type',
 'tests compare a few literals; positions and numbers of missing values, ties and type differences are not covered.',
 ['nimble/calculate/statistic.py','nimble/calculate/normalize.py',AX],[('statistics','nimble/calculate/statistic.py'),('percentile','nimble/calculate/statistic.py:_interpPercentile'),('normalisation','nimble/calculate/normalize.py')])
p('C20','Class scores are attributed to the right labels',
 'One-vs-one and one-vs-all decision values are attributed to the pair or label they belong to, every label gets its own score, and the winning label is one whose score no other label exceeds. Training one-vs-one tries every unordered pair of labels once, one-vs-all every label once, and predictions are the labels with most votes or the best score.',
 ['inputs'],'every number of labels, score vector and vote distribution',
 'tests use three labels; the packed pair index and its sign over arbitrary label counts are not settled.',
 ['nimble/core/interfaces/_interface_helpers.py','nimble/core/_learnHelpers.py'],[('pair lookup','nimble/core/interfaces/_interface_helpers.py:valueFromOneVOneData'),('scores per label','nimble/core/interfaces/_interface_helpers.py:calculateSingleLabelScoresFromOneVsOneScores'),('winner','nimble/core/_learnHelpers.py:extractWinningPredictionLabel')])
p('C21','Train/test splitting and learning leave the data intact',
 'Splitting into training and testing (and label) sets distributes every point exactly once, keeps each point with its labels and names, gives the requested test fraction, and selects the requested label features. Training, applying and testing a learner never modify the data, labels or argument objects passed in.',
 ['inputs','histories'],'every data content, test fraction, label selection and order option',
 'tests check fixed sizes; pairing of points with labels for arbitrary fractions and orders is not covered.',
 ['nimble/core/data/base.py','nimble/core/learn.py','nimble/core/interfaces/universal_interface.py'],[('split','nimble/core/data/base.py:Base.trainAndTestSets'),('argument merging','nimble/_utility.py:mergeArguments'),('label handling','nimble/core/interfaces/custom_learner.py')])
p('C22','A refused operation changes nothing',
 'When an operation on a data object is refused because of its arguments, the object and its argument objects still have the values, shape and names they had before the call.',
 ['inputs','fault_sequences'],'every mutating operation with every kind of invalid argument, including failures raised by user functions part way through',
 'tests assert that the exception is raised but not that the object is unchanged afterwards.',
 [AX,BA],[('name assignment','nimble/core/data/axis.py:Axis._setNames'),('validation before mutation','nimble/core/data/axis.py:Axis._insert'),('rectangle validation','nimble/core/data/base.py:Base.replaceRectangle')])
p('C23','Printed tables show the right cells within the limits',
 'The text form of an object shows for each displayed position the value and names of that position, keeps within the maximum width and rows asked for, and marks omitted points and features. Points and features shown are the leading and trailing ones, in order, none twice.',
 ['inputs'],'every shape, width and height limit and value length',
 'tests print selected sizes; which indices are shown and dropped is not checked for arbitrary sizes and limits.',
 [BA,DH],[('index selection','nimble/core/data/_dataHelpers.py:indicesSplit'),('table layout','nimble/core/data/_dataHelpers.py:arrangeFinalTable')])
p('C24','Every logged call is recorded once with its arguments',
 'With logging on, each top-level logged call appends exactly one entry to the session log, nested calls append none, and with logging off nothing is written; entries read back in the order written with the arguments given. A call that fails leaves the logging state as it was.',
 ['histories','fault_sequences'],'every sequence and nesting of logged calls, failures and enable/disable switches',
 'tests log single calls; nesting depth after failures is not covered.',
 ['nimble/core/logger/session_logger.py','nimble/core/data/_dataHelpers.py'],[('depth counter','nimble/core/logger/session_logger.py:SessionLogger'),('decorator','nimble/core/data/_dataHelpers.py:prepLog')])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open('properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80, x['id']
        f.write(json.dumps(x)+'\n')
