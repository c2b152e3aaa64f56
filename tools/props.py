"""The properties: statement, anchors, how each is decided."""

NOTES = ('Every check is one run of check.py: it parses the current source of /repo/la with ast (Python 2 syntax is '
         'parsed by the parser of Python 2), evaluates it abstractly, and compares the abstract results '
         'with the property. Nothing of /repo is imported or executed.')

TRUST = ('Trusted: the hand-written models of the Python 2, NumPy, Bottleneck and h5py operations the package uses '
         '(lastatic/models.py, npmodels.py). Ranks and option values are enumerated, everything else is abstract; '
         'a value the models do not know is never reported, it is counted as undecided in the evidence. ')

D, F, L = 'la/deflarry.py', 'la/flarry.py', 'la/flabel.py'

PROPS = [
 dict(id='C01', title='Operations that are not in-place never modify their arguments',
  statement='No public operation of the package changes the data, the labels or the shape of any argument (larrys, '
            'arrays, label lists, index lists, option lists), whatever the inputs, options and alignment of the '
            'arguments. The documented in-place operations (fill, set, item assignment, lix assignment, shuffle, '
            'shufflelabel, flipaxis/maplabel with copy=False) change only the documented part of the receiver.',
  quant='all public operations, all arguments, option values and degrees of alignment of the arguments',
  why='Tests check a few inputs with assert on the result; whether some branch (already aligned inputs, no missing '
      'values, a view that came back from a slice) writes through an alias depends on the input.',
  files=[D, F, L, 'la/farray/normalize.py', 'la/farray/move.py', 'la/farray/group.py', 'la/farray/misc.py'],
  mech=[('copies before in-place writes', D + ': larry.merge, larry.push, larry.lag, larry.nan_replace ...'),
        ('view flags of the low-level alignment', F + ': align_raw, align, binaryop')],
  technique='effect and alias analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'Every write reached on any abstract path is attributed to the memory it reaches; a write that '
       'reaches memory owned by an argument is a violation.'),
 dict(id='C02', title='Results share no memory with arguments unless documented',
  statement='No data buffer or label list inside the result of a public operation is the memory of an argument or of '
            'another part of the same result, so that a later in-place change of one never shows in the other. '
            'Documented exceptions are basic indexing, lix indexing, getx(copy=False), getlabel(copy=False), A, the '
            'data of pull, squeeze, and the lists handed to the constructor and the creation functions; the view '
            'flags returned by the low-level alignment are true for every array that is a view.',
  quant='all public operations, all arguments, option values and degrees of alignment of the arguments',
  why='Sharing is invisible until somebody writes; tests compare values and check references only for a few inputs.',
  files=[D, F, L],
  mech=[('copylabel/copyx/deep copies on return', D), ('undone view flags', F + ': align_raw, align')],
  technique='alias analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'Every heap object reachable from a result carries the identity of the object it came from.'),
 dict(id='C03', title='Data stays with its label',
  statement='In every larry returned by a public operation, the label of position i along an axis is the label its '
            'data had in the operand (or is derived from it, as documented): labels and data are always reordered, '
            'selected, transposed, inserted and dropped together, and no operation mixes up elements of different '
            'coordinates.',
  quant='all public operations, all shapes, label orders, index forms and option values',
  why='Depends on the order of the labels and the form of the index; tests fix a handful of small examples, often '
      'with sorted labels or square shapes where a mix-up does not show.',
  files=[D, F, L],
  mech=[('labels and data indexed with the same index', D + ': larry.__getitem__, take, morph, sortaxis, swapaxes'),
        ('listmap', L)],
  technique='dimension-name dataflow analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'Array axes carry the symbolic label sequence naming their coordinates; it must equal the label list '
       'stored with the result on every abstract path. lag has its own label rule and is not in scope here.'),
]

N, MV, G, MI, R, IO = ('la/farray/normalize.py', 'la/farray/move.py', 'la/farray/group.py', 'la/farray/misc.py',
                       'la/util/resample.py', 'la/io.py')

PROPS += [
 dict(id='C12', title='Every documented option has its effect',
  statement='Every option of a public operation (axis, window, q, ddof, decay, order, norm, join, cast, missone, '
            'misstwo, reverse, exact, update, vacuum, mode, keyword arguments passed on to a user function ...) reaches the '
            'outcome: it is never dropped or overwritten on the way through the layers, and two different values of an '
            'enumerated option, or two different axes, do not have the same outcome for every input.',
  quant='all public operations with options, all values of the options, all inputs',
  why='An option lost between two layers only shows for inputs where the default gives another answer; most options '
      'are tested with one value or none.',
  files=[D, F, N, MV, MI],
  mech=[('keyword pass-through from methods to farray functions', D + ': move_func, ranking, quantile, lastrank'),
        ('defaults', 'la/farray/*.py')],
  technique='dependence analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'Dependence is syntactic in the abstract result: an option that occurs in the result term but is '
       'mathematically irrelevant to it counts as honoured.'),
 dict(id='C13', title='Undocumented option values are rejected, before anything changes',
  statement='An option value outside the documented set (join, norm, op, method, mode, order, axis out of range, '
            'window or number of quantiles below one, operands of unsupported type, larrys of different dimensions in a '
            'binary function) raises an exception on every path, and no argument has been modified before that.',
  quant='all public operations with a documented set of values for an option, all other arguments',
  why='A missing else branch falls through to a wrong answer or returns None only for that value and state.',
  files=[D, F, N, MV, R],
  mech=[('else: raise branches', 'la/flarry.py: align, align_raw; la/deflarry.py: keep_label, keep_x, flatten')],
  technique='must-raise analysis on all abstract paths of the syntax tree',
  note=TRUST + 'One representative value stands for all values outside the documented set (the code can only compare '
       'it with literals).'),
 dict(id='C21', title='A negative axis means the same as the positive axis',
  statement='For every operation that takes an axis, axis=k-ndim does exactly what axis=k does: the same result, the '
            'same labels, the same in-place effect, the same exceptions.',
  quant='all operations with an axis argument, all axes, all inputs',
  why='Negative axes break list based bookkeeping (label.pop(axis), range(ndim), slicing by axis+1) silently; tests '
      'rarely use them.',
  files=[D, F, N, MV, G, MI],
  mech=[('axis normalisation', D + ': larry.insertaxis, swapaxes, vacuum, cut_missing, lag; ' + F + ': sortby, align_axis')],
  technique='sibling comparison of abstract results (dataflow) over the syntax tree',
  note=TRUST + 'Two contexts are compared by the sets of (path condition, abstract outcome).'),
]

PROPS += [
 dict(id='C04', title='Only cells with equal labels are ever combined',
  statement='Wherever the data of two larrys meets in one operation (arithmetic and comparison operators, add, '
            'subtract, multiply, divide, binaryop, merge, stack, group operations, assignment of a larry), a cell of one '
            'is only ever combined with, or written to, the cell of the other that has the same label along every axis.',
  quant='all operations on two larrys, all labels and all degrees of overlap of the labels, all join methods',
  why='Tests use small examples; whether the alignment covers every axis, order of labels and overlap (equal, disjoint, '
      'permuted, nested) is a statement about all label lists.',
  files=[D, F, G],
  mech=[('alignment before the operation', D + ': larry.__add__ ... (__align); ' + F + ': binaryop, align, align_raw'),
        ('labels compared on assignment', D + ': larry.__setitem__, Lix.__setitem__')],
  technique='dimension-name dataflow analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'Every elementwise operation on a returning path must have operands whose axes carry equal label '
       'sequences.'),
 dict(id='C05', title='Joins produce exactly the documented set of labels',
  statement='The labels of a join are, axis by axis, exactly the intersection (inner), the union (outer), the labels of '
            'the left or of the right operand; skipped axes and axes not named keep their labels. Intersections and '
            'unions are sorted unless both operands have the same list. This holds for the operators, binaryop, add, '
            'subtract, multiply, divide, align, align_raw, align_axis, merge, morph, morph_like, stack, union and '
            'intersection.',
  quant='all joining operations, all label lists and overlaps, all join methods per axis',
  why='Depends on the overlap and the order of the label lists on each axis; tests fix a handful.',
  files=[D, F, L],
  mech=[('set algebra on labels', F + ': align_raw, align_axis, union, intersection'), ('morph', D + ': larry.morph')],
  technique='set-algebra abstract domain for label lists, by abstract interpretation of the syntax tree',
  note=TRUST + 'Label lists are terms over set operations; equality of sets is decided on normal forms under the '
       'conditions of the path.'),
 dict(id='C06', title='Exactly the absent cells of a join are marked missing',
  statement='When a join, a morph, a merge or a stack gives an operand labels it does not have, exactly the cells with '
            'those labels are marked missing: cells with a label of the operand keep their value, no cell is left '
            'uninitialised or filled with data of another label. The marker is that of the data type (NaN, empty '
            'string, None); integer and boolean data is cast to float, or the call raises, never truncated.',
  quant='all joining operations, all label lists and overlaps, all data types',
  why='The set of absent labels depends on the overlap of each axis and the early exits taken (nothing absent, all '
      'absent, same labels); tests sample few of them.',
  files=[D, F, L, 'la/missing.py'],
  mech=[('fill of absent positions', D + ': larry.morph; ' + F + ': align_raw'), ('markers', 'la/missing.py: missing_marker')],
  technique='region (index set) dataflow analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'The positions overwritten with a marker are symbolic index sets, compared with the set of absent '
       'labels under the conditions of the path.'),
 dict(id='C10', title='Missing values never spread in reductions and scans',
  statement='In the reductions, the cumulative, moving-window, centring, ranking and grouping methods a missing value '
            'only affects its own cell (or window): no sum, mean, sort, rank or other accumulating operation that lets '
            'NaN spread is applied to data that can hold a missing value, and results with the shape of the input are '
            'missing where the input is.',
  quant='all reductions and scans, all positions of missing values',
  why='Tests place NaN at a few positions; whether every branch (no missing value, all missing, some rows) uses the '
      'NaN-aware operation is a property of all inputs.',
  files=[D, N, MV, G, MI, 'la/func.py'],
  mech=[('nan-aware reductions', D + ': larry.sum ... (bottleneck)'), ('masking before scans', D + ': larry.cumsum, cumprod')],
  technique='taint analysis (missing values) by abstract interpretation of the syntax tree',
  note=TRUST + 'Reductions are terms; a NaN-spreading head over content that may hold an input missing value on a '
       'returning path is a violation. any and all follow numpy and are out of scope, and so are user functions.'),
 dict(id='C22', title='Operators and named methods compute the documented operation',
  statement='Each operator and each named elementwise, reducing, cumulative, centring and moving-window method computes '
            'its documented operation on its documented operands in their order, along the documented axis, on every '
            'path (labels equal or not, scalar, array or larry operand, axis given or not, with or without missing '
            'values): x - y is not y - x, a reflected operator swaps its operands, true division never rounds.',
  quant='all operators and named methods, all inputs, axes and paths',
  why='Each method has separate branches for aligned, unaligned, scalar and array operands; a wrong operation or order '
      'in one of them only shows for inputs that take that branch.',
  files=[D, F, N, MV, MI],
  mech=[('operator methods', D + ': larry.__add__ ... larry.__rdiv__'), ('reductions', D + ': larry.sum ... larry.std')],
  technique='global value numbering of the abstract results against the documented formula',
  note=TRUST + 'Formulas are compared after algebraic normalisation; what is not understood counts as undecided.'),
]

PROPS += [
 dict(id='C07', title='Every returned larry has valid labels',
  statement='Every larry returned or left behind by a public operation is valid: one label list per axis of the data, '
            'each as long as that axis, a list (not a tuple or array) without duplicate labels. This holds for every '
            'result of an operation on valid larrys, in particular those that build new label lists (merge, flatten, '
            'insertaxis, align, reshaping, stack, group by) and for in-place label changes.',
  quant='all public operations, all valid inputs, option values and paths',
  why='A result with duplicate or too few labels is only noticed by a later operation; tests check the labels of a few '
      'small results.',
  files=[D, F, L, MI],
  mech=[('constructor validation', D + ': larry.__init__ (validate)'), ('copies without validation', D + ': larry.copy')],
  technique='length and uniqueness dataflow analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'The length and the distinctness of a label list are decided from its term and the path condition.'),
 dict(id='C24', title='Indexing and label access address exactly the cells named',
  statement='Reading or writing by position or label (get, set, pull, indexing with integers, slices, lists, boolean '
            'arrays and their tuples, item assignment, lix, labelindex, fill) addresses exactly the cells named: the '
            'result holds those cells and labels in the order asked for, an assignment changes those cells to the '
            'values given and no other, and labelindex gives the index of the label (exact) or of the nearest smaller '
            'one, else the smallest greater one.',
  quant='all indexing and label access operations, all labels, positions and forms of index',
  why='Depends on the form of each index and their combination and on the order of the labels; tests use a few forms '
      'on small, mostly sorted larrys.',
  files=[D],
  mech=[('index translation', D + ': larry.__getitem__, __setitem__, Getitemlabel.__getitem__, __setitem__, slicemaker'),
        ('label lookup', D + ': larry.labelindex, get, set, pull')],
  technique='region and term comparison by abstract interpretation of the syntax tree',
  note=TRUST + 'The cells read or written are symbolic positions per axis, compared with those the index names.'),
 dict(id='C27', title='Results carry the documented labels in the documented order',
  statement='Selecting, sorting, cutting and rearranging methods (keep_label, keep_x, cut_missing, vacuum, squeeze, '
            'take, morph, sortaxis, flipaxis, transpose, swapaxes, insertaxis, lag, flatten, reductions, elementwise, '
            'cumulative and moving methods, group methods) return larrys whose label lists are exactly the documented '
            'ones, in the documented order; selection keeps exactly the labels that satisfy the documented condition, '
            'and methods that only select or rearrange leave each cell the input cell of that label (lag: of the '
            'label nlag positions earlier).',
  quant='all selecting and rearranging methods, all labels, data and option values',
  why='Tests use small sorted examples in which a wrong comparison, an off-by-one or a dropped axis is invisible.',
  files=[D, F],
  mech=[('label bookkeeping next to each data operation', D + ': larry.keep_label, vacuum, lag, sortaxis, flipaxis, '
         'cut_missing, insertaxis, flatten')],
  technique='label-sequence term comparison by abstract interpretation of the syntax tree',
  note=TRUST + 'Label lists are terms (slices, reversals, filters with their predicate) over the input labels, equal '
       'when their normal forms are.'),
]

MIS = 'la/missing.py'
PROPS += [
 dict(id='C08', title='Invalid labels are rejected',
  statement='The larry constructor (validating, with or without dtype), the creation functions (lrange, empty, ones, zeros, '
            'rand, randn) and the operations that could make a larry invalid (maplabel, take, indexing and morph with '
            'a repeated label or index) raise an exception, before any argument is modified, whenever the labels are '
            'invalid: not one label list per axis, a list of another length than its axis, a duplicate label anywhere in '
            'a list, a tuple or other container instead of a list, a 0d array. Valid labels are never rejected.',
  quant='all ways of being invalid, all axes, all positions of the duplicate',
  why='A validation that looks at the first axis, neighbouring labels or the total number of labels passes the few '
      'invalid examples of the tests and lets others through.',
  files=[D, F],
  mech=[('validation', D + ': larry.__init__'), ('label mapping', D + ': larry.maplabel, take, morph')],
  technique='must-raise analysis on all abstract paths of the syntax tree',
  note=TRUST + 'Shapes up to 2x3x4, some with four and five axes and axes of 12, 40 and 130 labels stand for all '
       'shapes; every kind and position of a defect in the labels is enumerated for the small ones.'),
 dict(id='C09', title='There is one definition of missing per data type',
  statement='missing_marker, ismissing and nans agree on what a missing value is for every data type: NaN for floating '
            'point and complex, the empty string for str, None for object data; bool and int (and other) data has no '
            'missing value (NotImplemented marker, nothing is missing, nans raises TypeError). ismissing marks exactly '
            'the cells that hold the marker and returns a mask of the shape of its argument, for larrys and arrays.',
  quant='all data types, shapes and values',
  why='The three tables are separate code; a dtype branch that disagrees only shows when all three meet.',
  files=[MIS],
  mech=[('dtype tables', MIS + ': missing_marker, ismissing, nans')],
  technique='dtype-kind case analysis by abstract interpretation of the syntax tree'  ,
  note=TRUST + 'Every dtype kind is enumerated, the values are abstract; the masks are decided by truth tables.'),
 dict(id='C23', title='A call that raises has changed nothing',
  statement='When a call of a public operation, in-place ones included, raises an exception out of the code of the '
            'package, no argument has been modified before: no data, no label list and no shape of an argument is left '
            'half updated.',
  quant='all public operations, arguments and option values, all exceptions raised by the package',
  why='Needs an exception at a particular point after the first write (the second axis, a later list element); tests '
      'check that it raises, not what is left behind.',
  files=[D, F, N, MV, G, MI],
  mech=[('checks before writes', D + ': larry.maplabel, fill, set, __setitem__, merge, flipaxis, shuffle')],
  technique='effect analysis of raising paths by abstract interpretation of the syntax tree',
  note=TRUST + 'Exceptions that NumPy would raise where the models raise them are included; running out of memory and '
       'exceptions in user functions are not.'),
 dict(id='C30', title='missone and misstwo replace exactly the documented cells',
  statement='In binaryop, add, subtract, multiply and divide a cell missing in (or absent from) one operand only is '
            'replaced by missone before the operation, a cell missing in both operands by misstwo, every other cell '
            'keeps its value, in both operands, with each join and for operands with and without missing values; '
            'without the option nothing is replaced.',
  quant='all binary functions, join methods, combinations of missone and misstwo, all positions of missing values and '
        'labels',
  why='The states of a cell in the two operands, its axis and the shortcuts taken when no cell is missing multiply; '
      'tests sample few combinations.',
  files=[F, MIS],
  mech=[('masks of missing cells', F + ': binaryop')],
  technique='cell-state truth tables over abstract results of the syntax tree',
  note=TRUST + 'The value computed from a cell in each combination of states is read off the abstract result and '
       'compared with the documented one.'),
 dict(id='C31', title='Results are never truncated to the data type of an operand',
  statement='For operands of integer or bool dtype no operation stores a fractional value or a missing marker in integer or '
            'bool memory or casts one to it, unless the caller named the dtype: real-valued operations (mean, median, '
            'std, log, division, demean, zscore, ranking, quantile, moving statistics) have floating point results, and '
            'operations that only select or rearrange keep the dtype.',
  quant='all public operations, all combinations of integer, bool and floating point operands',
  why='Most tests use float data; an in-place operation or a buffer made with the dtype of the operand silently rounds '
      'only for integers.',
  files=[D, F, N, MV, MI, MIS],
  mech=[('float copies before in-place arithmetic', N + ': ranking, quantile; ' + D + ': larry.demean ...')],
  technique='dtype-kind dataflow analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'Dtypes are tracked as kinds (bool, int, floating, str, object), not as widths.'),
]

H5 = ('Trusted: the model of h5py files, groups, datasets and attributes and of the file system in '
      'lastatic/h5model.py (a symbolic overlay over an archive of unknown content). At most one h5py or operating '
      'system call fails per run of an operation; concurrent processes are out of scope. ')

PROPS += [
 dict(id='C14', title='Archive files are closed on every exit',
  statement='Every HDF5 file that a function or method of la.io opens is closed again on every exit, normal or '
            'exceptional, including when any h5py or operating system call on the way fails; an h5py.File passed in by '
            'the caller is left open (repack returns a new one); no IO or archived-larry object keeps a reference to '
            'an open file or dataset.',
  quant='all public functions and methods of la.io, keys, archive contents and points of failure',
  why='Which call fails, and what the archive holds under the key, decides whether a close is skipped; tests run '
      'the success paths, and a leaked handle shows only in a later call.',
  files=[IO],
  mech=[('try/finally around every open', IO + ': save, load, delete, repack, IO, lara'), ('_openfile', IO)],
  technique='typestate analysis of file handles by abstract interpretation of the syntax tree with fault edges',
  note=H5 + 'Every modelled call has a normal and a failing edge; the handles open at each exit are compared with '
       'those open at entry.'),
 dict(id='C15', title='A failed archive operation leaves the archive as it was',
  statement='When save, io[key] = larry, delete, del io[key] or assignment to (part of) an archived larry raises, '
            'because the input is rejected or because an h5py call fails, the archive holds exactly what it held before: '
            'nothing is lost, replaced or left over under the key.',
  quant='all keys, archive contents, label types and points of failure (except a failing creation of a group)',
  why='Needs a failure in the middle of an update, and an archive that already holds something under the key.',
  files=[IO],
  mech=[('input checked before writing', IO + ': save, _list2array'), ('old larry deleted last', IO + ': IO.__setitem__')],
  technique='effect analysis of raising paths (symbolic overlay of the archive) by abstract interpretation',
  note=H5 + 'The net effect of every raising path on the overlay must be empty.'),
 dict(id='C16', title='repack never loses the archive',
  statement='At every step of repack and IO.repack, also when a step fails, some file on disk holds every item of '
            'the archive; when it returns, the archive path holds the whole archive, including items that are not '
            'larrys, and no temporary file remains; a repack that cannot copy leaves the archive and the directory '
            'as they were.',
  quant='all archive contents; failure or interruption after every step',
  why='A crash between two renames cannot be sampled by a test; the order of copy, close, rename and remove decides.',
  files=[IO],
  mech=[('copy, rename, rename, remove', IO + ': repack')],
  technique='event-order analysis over a model file system by abstract interpretation of the syntax tree',
  note=H5 + 'After each step the set of modelled files holding a complete, flushed copy is computed.'),
 dict(id='C17', title='What is saved is what is loaded',
  statement='For a larry whose labels along each axis are of one type (str, int, float, bool, datetime.date, naive '
            'datetime.time or naive datetime.datetime), load and io[key][:] after save or io[key] = larry return the '
            'same labels in the same order along each axis, with their type, and the same data, also when the axis is '
            'empty; labels of mixed types along one axis are refused, not saved in another form.',
  quant='all such label types, keys, numbers of axes (1 and 2) and label values',
  why='Encoding and decoding are two separate functions that must agree element by element for each type.',
  files=[IO],
  mech=[('label encoding', IO + ': _list2array, datetime2tuple, time2tuple'),
        ('label decoding', IO + ': _load_label, tuple2datetime, tuple2time')],
  technique='abstract composition of encoder and decoder by abstract interpretation of the syntax tree',
  note=H5 + 'That HDF5 returns the bytes it was given is assumed, not shown.'),
 dict(id='C18', title='Archive operations touch exactly what they are about',
  statement='An operation on a key changes only what is stored under that key: saving creates data, labels and marker '
            'under the key, replacing and deleting apply only to archived larrys, reading operations change nothing. '
            'Listing, length, membership and iteration consist of exactly the archived larrys of the file, and '
            'is_archived_larry answers accordingly. clear deletes every archived larry.',
  quant='all keys (nested ones included) and archive contents',
  why='What else an archive holds (foreign groups, datasets, nested larrys) is arbitrary; tests use two or three items.',
  files=[IO],
  mech=[('guards before delete and replace', IO + ': delete, IO.__setitem__'), ('marker test', IO + ': _is_archived_larry'),
        ('listing', IO + ': archive_directory')],
  technique='effect analysis (symbolic overlay of the archive) by abstract interpretation of the syntax tree',
  note=H5 + 'Net effects of every returning path are compared with the nodes the operation is about; deleting a '
       'larry also removes what is nested under its key, as HDF5 groups do.'),
]

PROPS += [
 dict(id='C19', title='No hidden state between calls',
  statement='What an operation returns depends only on its arguments (and, for the documented random functions, on '
            'the random generator; for archives, on the file): no public operation stores anything in a module, a '
            'default argument, a class or a function, none returns an object the package itself keeps, and none leaves '
            'the error settings of NumPy or a setting of the process changed, on normal and exceptional exits.',
  quant='all public operations, arguments, option values and histories of calls',
  why='Shows only in a later call; each test makes its own first call.',
  files=[D, F, L, N, MV, G, MI, R, IO, 'la/util/misc.py'],
  mech=[('no module-level mutable state', 'la: every module'), ('lazy import', N + ': ranking')],
  technique='effect analysis by abstract interpretation plus a syntactic scan of every function',
  note=TRUST + 'Objects created while the modules load are marked; any write that reaches one is a violation. The '
       'syntactic part also covers functions that are not entry points (plotting, downloads).'),
 dict(id='C20', title='Random only where documented, otherwise repeatable',
  statement='Only shuffle, shufflelabel, rand, randn, cross_validation and bootstrap draw random numbers; they draw from '
            "NumPy's global generator (so that seeding it repeats the result), or from nothing but the generator passed by the caller. No "
            'operation seeds the global generator, reads the clock, or returns labels or data in the iteration order of '
            'a set.',
  quant='all public operations, arguments and option values',
  why='A result in hash order, or drawn from a second generator, agrees with the expected one in most runs.',
  files=[D, F, L, MI, R],
  mech=[('sorted label unions and intersections', F + ': align_raw, align_axis, union, intersection'),
        ('generator arguments', R + ': cross_validation, bootstrap; ' + F + ': rand, randn')],
  technique='effect analysis by abstract interpretation of the syntax tree',
  note=TRUST + 'Set iteration is tracked through every label list. Names of temporary files of archives are exempt.'),
]

PROPS += [
 dict(id='C29', title='Cross-validation folds partition; a bootstrap tests what it left out',
  statement='cross_validation(n, k) yields k pairs whose test indices are disjoint slices of one permutation of '
            'range(n) that together cover it, none of them empty, each pair of train and test being '
            'complementary. bootstrap(n, m) yields m pairs: train is n draws from range(n), test is every index not '
            'drawn, and a pair with nothing to test is drawn again. split returns the train and the test elements of '
            'the array at those positions, in that order.',
  quant='all n, k, number of bootstraps, and generator states',
  why='Index arithmetic with remainders: a fold that loses one element or trains on a test element shows for some n, k only.',
  files=[R],
  mech=[('fold boundaries', R + ': cross_validation'), ('redraw while test set is empty', R + ': bootstrap'),
        ('positions', R + ': split')],
  technique='abstract interpretation of the syntax tree with polynomial normal forms of the slice bounds',
  note='Slice bounds are compared as polynomials in quotient, remainder and fold number, n being quotient*k + '
       'remainder. random.shuffle and numpy.random.randint are modelled, not analysed. Forms of code outside the rule '
       'are reported as undecided in the evidence, never as violations.'),
]

PROPS += [
 dict(id='C11', title='Label mappings give the positions, in Cython as in Python',
  statement='For list1 without duplicates, listmap(list1, list2) returns for each element of list2, in order, its position '
            'in list1; it raises KeyError if one is not there, or leaves these out if asked to. listmap_fill gives fill for '
            'these and lists their positions in list2. The Cython and the Python version agree. flattenlabel lists every '
            'tuple of labels once, the last label varying fastest (order C) or the first (order F). list2index returns '
            'the distinct elements and positions that give back the list.',
  quant='all lists of hashable labels, fill values and orders',
  why='Only one of the two versions is active in any installation, so tests see the other one never or on samples.',
  files=['la/flabel.py', 'la/src/cflabel.pyx'],
  mech=[('Cython versions', 'la/src/cflabel.pyx: listmap, listmap_fill'),
        ('Python versions', 'la/flabel.py: listmap, listmap_fill'), ('flattened labels', 'la/flabel.py: flattenlabel')],
  technique='abstract interpretation of the Python and the Cython syntax tree; identity test on the resulting terms',
  note=TRUST + 'C declarations of the Cython file are dropped (a check for counters too small for a position remains); the '
       'generated C and the Cython compiler are trusted. A result in another normal form is compared with the '
       'specification at 160 points of the abstract domain: a difference at a feasible point is a violation.'),
]
PROPS += [
 dict(id='C25', title='Flattening and conversion keep each element with its labels',
  statement='flatten(order), totuples, tolist, todict and tocsv give each element exactly once with its tuple of labels, in '
            'C order (order F for flatten on request). unflatten, fromtuples, fromlist, fromdict and fromcsv put each '
            'value in the cell named by its labels; along each axis the labels are those that occur, and a cell without '
            'value is missing. Rows skipped by fromcsv are the first ones. tofile writes, for one axis, a line per label with the '
            'label and its value; for two axes, a line with the labels of the second axis after an empty field, then a line per '
            'label of the first axis with the label and its values, all separated by the delimiter. Files opened for the '
            'call are closed afterwards.',
  quant='all shapes up to three axes, label lists, and rows with distinct tuples of labels (for unflatten and the from '
        'functions: at least one row)',
  why='Order and alignment of two parallel lists; an error in one cancels in a round trip with the other.',
  files=[D, 'la/flabel.py', 'la/util/misc.py'],
  mech=[('flattened labels and data', D + ': flatten; la/flabel.py: flattenlabel'),
        ('rebuilding', 'la/util/misc.py: fromlists; ' + D + ': unflatten, fromtuples, fromlist, fromdict, fromcsv'),
        ('text table', D + ': tofile')],
  technique='abstract interpretation of the syntax tree; the resulting terms are compared at points of the abstract domain',
  note=TRUST + 'The result is one term per path, for all inputs; it is evaluated at 60 points (label lists of up to four '
       'labels, up to six rows) that satisfy the path condition, and compared cell by cell with the specification. '
       'The csv module and numbers turned into text and back are trusted.'),
]

PROPS += [
 dict(id='C26', title='Windows, ranks and statistics use exactly the documented cells',
  statement='In the moving functions (move_sum, move_mean, move_std, move_min, move_max, move_median, move_ranking, move_func '
            'with both methods, movingsum, movingsum_forward) the cell at position i is the documented function of exactly '
            'the cells i-window+1..i (shifted by skip; forward: i+skip..i+skip+window-1), the positions without a full '
            'window are missing, a window from 1 to the length of the axis is accepted and any other rejected. push fills a '
            'missing cell with the last value at most n positions before. cumsum, cumprod, demean, demedian, zscore, '
            'ranking, lastrank (with decay), quantile, correlation, geometric_mean and covMissing give the documented value '
            'of the present cells along the documented axis.',
  quant='all shapes up to three axes, axes, windows, skips, decays, norms, and positions of missing cells and ties',
  why='Off-by-one errors and wrong treatment of ties or missing cells show only for some window, position and pattern of '
      'missing cells; tests compare a few small arrays.',
  files=[MV, N, MI, D],
  mech=[('window bounds', MV + ': move_func_loop, move_func_strides, movingsum, movingsum_forward'),
        ('ranks, ties and decay', N + ': ranking, lastrank, quantile'), ('filling', N + ': push'),
        ('pairs of present cells', MI + ': correlation, covMissing')],
  technique='value numbering by abstract interpretation of the syntax tree, identity testing of the resulting terms',
  note=TRUST + 'The content of a result is one term per path over the cells of the operand; it is compared with the '
       'documented formula at 120 (thorough: 400) points of the abstract domain that satisfy the path condition. push, '
       'quantile and the loop method of the moving functions are followed step by step for axes of one to four (six) '
       'elements. The gaussian norm is out of reach (ndtri), as is rounding: values are compared to seven digits.'),
]

PROPS += [
 dict(id='C33', title='Queries answer from exactly the labels and cells they ask about',
  statement='isaligned is true exactly if the label lists of the axis (without axis: of all axes, and as many axes) are equal '
            'element by element, in order. maxlabel and minlabel give the largest and smallest label of the axis or of all '
            'axes; shape, size, ndim and dtype describe the data; nx counts the finite elements; copyx, getx, copylabel and '
            'getlabel give the data and labels unchanged; labelindex the position of the label. unique gives the distinct '
            'elements with, on request, first positions and inverse in C order. sortby reorders the other axis so that the '
            'named row or column ascends (reverse: descends), keeps every label, and refuses an unknown element.',
  quant='all shapes up to three axes, label lists in any order, elements (missing and infinite ones included), axes, options',
  why='A query that looks at one axis too few, at sorted labels or at a part of the data is right on the small examples of a test.',
  files=[F, D],
  mech=[('label queries', F + ': isaligned; ' + D + ': maxlabel, minlabel, labelindex, getlabel, copylabel'),
        ('counts', D + ': nx, size, shape, ndim'), ('order', F + ': unique, sortby')],
  technique='abstract interpretation of the syntax tree; the resulting terms are compared at points of the abstract domain',
  note=TRUST + 'The answer is one term per path, for all inputs; it is evaluated at 120-160 (thorough: 400) points that satisfy '
       'the path condition and compared with the definition. The order of ties and of missing elements in sortby is open.'),
 dict(id='C34', title='Creation functions make the labels, shape, type and cells asked for',
  statement='lrange, empty, zeros, ones, rand and randn return a larry with the given labels, or with the given shape and the '
            'labels 0..n-1 along each axis, and of the given dtype (float where the documentation says so). Every cell of zeros '
            'is 0, of ones 1; cell k of lrange, counted in C order, is start + step*k. rand and randn use the function given. '
            'larry(array) has the labels 0..n-1. nans gives an array of the shape and type filled with its missing marker and '
            'refuses types without one. Valid input is not refused.',
  quant='all shapes and label lists up to three axes, start, step, dtype, order',
  why='Tests create a few small square or one-dimensional larrys; a mix-up of axes, order or step shows only for others.',
  files=[F, D, 'la/missing.py'],
  mech=[('shape or labels', F + ': empty, lrange, rand, randn'), ('content', F + ': lrange, ones, zeros; la/missing.py: nans'),
        ('default labels', D + ': larry.__init__')],
  technique='abstract interpretation of the syntax tree; the resulting terms are compared at points of the abstract domain',
  note=TRUST + 'Labels are compared as terms, contents at 60 points of the abstract domain. np.arange, np.random and dtype '
       'conversion are trusted. The values of random numbers are not looked at.'),
 dict(id='C35', title='Test assertions pass exactly when the larrys agree',
  statement='assert_larry_equal returns only if the label lists of every axis are equal in order, the data equal (to 13 decimals '
            'if one of them is inexact, exactly otherwise), the dtypes equal unless dtype=False, and, if original is given, '
            'the result is a copy (iscopy=False: a view) of it; it raises AssertionError only if one of these fails, and always '
            'if only one argument is a larry. assert_iscopy raises exactly if the data share memory or a label list is the same '
            'object; assert_isview exactly if the data or a label list are not shared; noreference and nocopy likewise.',
  quant='all pairs of larrys up to three axes, sharing any part of data and label lists, of any dtypes, and all options',
  why='The assertions decide every other test; one that silently stops to compare something keeps all tests green.',
  files=['la/util/testing.py'],
  mech=[('comparisons', 'la/util/testing.py: assert_larry_equal'), ('sharing', 'la/util/testing.py: assert_iscopy, assert_isview, '
        'noreference, nocopy')],
  technique='path analysis by abstract interpretation: each outcome is held against the comparisons made on its path',
  note=TRUST + 'numpy.testing.assert_equal and assert_almost_equal are modelled as comparisons that raise AssertionError exactly '
       'if they fail (and TypeError for data without arithmetic); np.may_share_memory is taken to be exact.'),
 dict(id='C36', title='An archived larry answers like the larry that was saved',
  statement='After io[key] = lar, shape, ndim, size, dtype, maxlabel, minlabel, getlabel and labelindex of io[key] answer what those '
            'of lar answer. Whenever io[key][index] returns, it returns the data and labels that lar[index] returns; whenever '
            'io[key][index] = value returns, for a scalar or an aligned larry, loading the key gives lar after lar[index] = value: '
            'the cells named are changed in the archive, and no other.',
  quant='all larrys up to three axes, all labels, all documented index forms (integers, slices with steps, lists, their tuples)',
  why='A write that ends in a copy of the dataset is lost without a sign; tests sample a few index forms.',
  files=['la/io.py', 'la/deflarry.py'],
  mech=[('archived larry', 'la/io.py: lara'), ('indexing', 'la/deflarry.py: larry.__getitem__, larry.__setitem__, splitindex')],
  technique='abstract interpretation over a model of h5py; the term of each answer is compared with that of the larry itself',
  note=TRUST + 'h5py is a model (lastatic/h5model.py): reading a dataset gives a copy, writing to it changes the file, axes stay '
       'in order. Index forms that h5py refuses raise and are not compared. The answer of the larry itself is decided by C24 and C33.'),
]

PROPS += [
 dict(id='C28', title='Archived bytes survive a crash and another HDF5 reader',
  statement='After save returns, or a process stops at any point, the archive file can be opened and every larry saved before '
            'is in it with the same bits (floats with NaN payloads, strings with their encoding, dates at full resolution).',
  quant='all data types, values, library versions and points at which the process may stop',
  why='Tests reopen a file in the same process after an orderly close.',
  files=['la/io.py'], mech=[('writing of data sets and attributes', 'la/io.py: save, IO.__setitem__, archive')],
  na='The bytes are written, buffered and flushed by libhdf5 (compiled code outside this repository); la/io.py never calls '
     'flush, and the file format gives no guarantee that its source could be held against. C14-C18 decide the part that '
     'la/io.py is responsible for.'),
 dict(id='C32', title='Statistics are numerically accurate',
  statement='Sums, means, variances, moving sums, correlations and the gaussian rank norm are correct to a small multiple of '
            'the rounding error of float64, for cells of any magnitude, and finite where the exact result is finite.',
  quant='all cell values, including very large, very small and infinite ones',
  why='Tests use a handful of well-conditioned values.',
  files=['la/deflarry.py', 'la/farray/move.py', 'la/farray/normalize.py', 'la/farray/misc.py'],
  mech=[('reductions', 'la/deflarry.py: larry.__reduce; Bottleneck and NumPy'),
        ('running sums', 'la/farray/move.py: movingsum (cumulative sums)'), ('gaussian norm', 'la/farray/normalize.py: ranking')],
  na='Rounding depends on the values and on the order of additions inside NumPy, Bottleneck and SciPy; no rule over the source '
     'of la bounds it. C26 and C22 decide that the right formula is applied to the right cells, over the reals.'),
]
