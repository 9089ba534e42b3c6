import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None):
    d={'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
       'anchors':{'files':['strictpp/'+f for f in files],'mechanism':[{'name':a,'where':'strictpp/'+b} for a,b in mech]}}
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
T='The unit tests index a handful of small fixed arrays; '
p('C01','Checked element access returns exactly the addressed element or rejects',
  'For every 1-D or 2-D array, slice view or lazy expression, checked access (subscript, call, at) with an index in range, given either as an integer or as an offset from the end (last - k), yields exactly the element at that position in row-major order, and writing through it changes that element and no other. An index below zero or at/after the extent (of the size, or of either dimension) is rejected with an error and nothing is read or changed.',
  ['inputs'],'all extents, all index values (in and out of range, from the front or from the end), all stored values',
  T+'they never quantify over extents and index values, and boundary or negative indexes of the second dimension are sampled at one or two points.',
  ['derived1D.hpp','derived2D.hpp','ArrayCommon/index_helper.hpp','ArrayCommon/valid.hpp','array_base1D.hpp','array_base2D.hpp','fixed_array_base1D.hpp','fixed_array_base2D.hpp'],
  [('valid_index / valid_row / valid_col','ArrayCommon/valid.hpp'),('index_helper, Last','ArrayCommon/index_helper.hpp'),('operator[], operator(), at','derived1D.hpp, derived2D.hpp')])
p('C02','Linear slices denote exactly the described subsequence',
  'A 1-D slice built from start/size/stride, first/last/stride, all, even, odd, reverse, skip-n, first-n or last-n has exactly the size its description implies and its k-th element is the described element of the underlying array, for reading and for writing, including slices of slices. Assigning to a slice changes exactly the addressed elements. A descriptor that is malformed or that addresses any position outside the array is rejected with an error before anything is read or written.',
  ['inputs'],'all array sizes, all descriptor parameters (start, size, stride, first, last, n), all element values',
  T+'slice tests use a few literal descriptors on arrays of length about 10.',
  ['slice.hpp','slicearray_base1D.hpp','derived1D.hpp'],
  [('seqN, seq, place::skipN/firstN/lastN','slice.hpp'),('SliceWrapper::get','slice.hpp'),('SliceArrayWrapper::map','slice.hpp'),('SliceArrayBase1D::un','slicearray_base1D.hpp')])
p('C03','Index-list, complement and conditional selections pick exactly those elements',
  'Selecting with an explicit list of indexes yields exactly the listed elements in the listed order (repetitions allowed), and selecting with the complement of a strictly increasing list yields exactly the remaining elements in increasing order; selecting by a condition or by an open/closed value range yields exactly the elements satisfying it, in order. Writing through such a selection changes exactly the selected elements. Lists with an out-of-range index, and complement lists that are not strictly increasing and in range, are rejected with an error.',
  ['inputs'],'all array sizes, all index lists (any length, any order, duplicates, out-of-range entries), all conditions over all values',
  T+'a few literal index lists are tried; duplicates, unsorted complements and edge positions are not enumerated.',
  ['slice.hpp','ArrayCommon/valid.hpp','array_ops.hpp','slicearray_base1D.hpp','slicearray_base2D.hpp'],
  [('complement_index_vector','ArrayCommon/valid.hpp'),('valid_complement_index_vector','ArrayCommon/valid.hpp'),('valid_slice_vector','ArrayCommon/valid.hpp'),('in_cond_range','array_ops.hpp')])
p('C04','2-D views and attached memory alias exactly the described elements',
  'Row, column, (shifted) diagonal, block, row/column-slice, flattened and reshaped views of a 2-D (or flat) array, and arrays attached to external memory, have exactly the described shape, and each of their elements is the described element of the underlying storage in row-major order, for reading and for writing. Writing through a view changes exactly the addressed elements. A row, column, diagonal, block, slice or reshape that does not fit the array is rejected with an error.',
  ['inputs'],'all shapes, all row/column/diagonal/block positions and extents inside and outside the array, all element values',
  T+'views are exercised on square or nearly square literals, so transposed index arithmetic and off-by-one extents on other shapes go unseen.',
  ['derived2D.hpp','slicearray_base2D.hpp','attach1D.hpp','attach2D.hpp','slice.hpp'],
  [('row, col, diag, block, blockN, rows, cols','derived2D.hpp'),('SliceArrayBase2D::un','slicearray_base2D.hpp'),('view2D, convert2D, attach2D','attach2D.hpp')])
p('C05','1-D insertion places the new elements and shifts the rest, or rejects',
  'Inserting a value or an array (or view or expression, also one that reads the array itself) at position p with 0 <= p <= size gives an array whose size grew by the number of inserted elements, whose elements before p are unchanged, whose elements at p.. are the inserted ones in order, and whose remaining elements are the old ones in order. Front and back insertion are insertion at 0 and at size. Any other position is rejected with an error and leaves the array unchanged.',
  ['inputs'],'all sizes, all positions, all inserted lengths, all element values, inserted source distinct from or aliasing the array',
  T+'insertion is tested at two or three positions of one array; aliasing sources and the empty array are barely touched.',
  ['array_base1D.hpp'],[('insert, insert_front, insert_back','array_base1D.hpp'),('copyn','ArrayCommon/algorithm.hpp')])
p('C06','1-D removal keeps exactly the surviving elements in order, or rejects',
  'Removing count > 0 consecutive elements starting at a valid position, from the front, from the back, relative to the end (last - k), or at a strictly increasing list of valid indexes, leaves exactly the other elements in their order and reduces the size accordingly. Any block or list not lying inside the array (or with a non-positive count, or unordered or repeated indexes) is rejected with an error and leaves the array unchanged. An empty index list removes nothing.',
  ['inputs'],'all sizes, all positions and counts, all index lists, all element values',
  T+'removal is tested on a few positions of arrays of length about 5 to 10.',
  ['array_base1D.hpp','ArrayCommon/valid.hpp'],[('remove, remove_front, remove_back','array_base1D.hpp'),('complement_index_vector','ArrayCommon/valid.hpp')])
p('C07','Resize keeps the common block, zero-fills the rest, gives exactly the new size',
  'Resizing a 1-D or 2-D dynamic array gives exactly the requested extents; with preservation (the default) every element whose index is valid both before and after keeps its value at the same index, and all other elements are zero. Resize-and-assign from an array or expression gives exactly the extents and values of the source, even when the source reads the array being assigned. Negative extents, and 2-D extents of which exactly one is zero, are rejected with an error and leave the array unchanged.',
  ['inputs'],'all old and new extents (growing, shrinking, one dimension each way, zero), all element values, aliasing sources',
  T+'resize is tested with one growth and one shrink per dimension; mixed grow/shrink of the two dimensions and self-referencing sources are not.',
  ['array_base1D.hpp','array_base2D.hpp'],[('resize, resize_and_assign','array_base1D.hpp, array_base2D.hpp')])
p('C08','2-D insertion of rows or columns places them and keeps the rest, or rejects',
  'Inserting one or several rows (columns) at position p, 0 <= p <= number of rows (columns), yields exactly the old rows (columns) before p, then the inserted ones in order, then the remaining old ones, with every element in its place; front and back insertion are insertion at the two ends, and inserting into an empty array yields exactly the inserted content. A position out of range or a source whose length/width does not match is rejected with an error and leaves the array unchanged.',
  ['inputs'],'all shapes, positions, inserted counts, element values, including the empty array and sources aliasing the array',
  T+'a handful of literal insertions into one or two shapes.',
  ['array_base2D.hpp','ArrayCommon/algorithm.hpp'],[('insert_row, insert_rows, insert_col, insert_cols','array_base2D.hpp'),('copy_rows, copy_cols','ArrayCommon/algorithm.hpp')])
p('C09','2-D removal of rows or columns keeps exactly the survivors in place, or rejects',
  'Removing count > 0 consecutive rows (columns), one row (column) addressed from the front or from the end (last - k), a front or back group, or a strictly increasing list of rows (columns), leaves exactly the other rows (columns) in order with every element in its place; removing all of them leaves an empty 0 x 0 array. Anything not lying inside the array is rejected with an error and leaves the array unchanged.',
  ['inputs'],'all shapes, positions, counts, index lists, element values',
  T+'a handful of literal removals; removal relative to the end with a non-zero offset is not tested at all.',
  ['array_base2D.hpp','ArrayCommon/algorithm.hpp'],[('remove_row(s), remove_col(s)','array_base2D.hpp'),('copy_rows, copy_cols','ArrayCommon/algorithm.hpp')])
p('C10','Construction, copy, move, swap and assignment keep values and shape consistent',
  'Every way of creating a dynamic or fixed-size array (size, size and value, list, iterators, copy, another array type, view or expression) yields exactly the specified extents and values (zeros when none are given), copies are independent of their source, a moved-from dynamic array is empty and the target holds its former content, and swap exchanges contents. Assignment requires equal extents, then makes every element equal to the corresponding source element, provided the source does not read other elements of the target (overlapping shifted views are outside the contract); self-assignment by copy or move changes nothing; with different extents, or ragged 2-D lists, it is rejected and the target is unchanged. In every reachable state of a 2-D array, size equals rows times columns and both dimensions are zero or both are positive.',
  ['inputs','histories'],'all extents and values; all sequences of construct/copy/move/swap/assign operations on arrays',
  T+'constructors are checked on literals; self-move and ragged lists are not quantified over.',
  ['array_base1D.hpp','array_base2D.hpp','fixed_array_base1D.hpp','fixed_array_base2D.hpp','ArrayCommon/valid.hpp'],
  [('constructors, operator=, swap','array_base1D.hpp, array_base2D.hpp'),('same_size','ArrayCommon/array_auxiliary.hpp'),('semi_valid_row_col_sizes, valid_list2D','ArrayCommon/valid.hpp')])
p('C11','Element-wise expressions and compound assignments are right at every index',
  'For every pair of operands with equal extents (arrays, views, nested expressions, scalars), each arithmetic, bitwise, comparison-selecting or mathematical element-wise operation yields at every index exactly the scalar operation applied to the operands at that index, with operands in the written order, and a compound assignment updates every element to exactly that value and nothing else. Operands with different extents are rejected with an error and the target is unchanged.',
  ['inputs','programs'],'all extents, all operand values, all element-wise operations and their scalar-array, array-scalar and array-array forms, nested',
  T+'expression tests use constant-filled arrays for which swapped operands or shifted indexes give the same result.',
  ['Expr/binary.hpp','Expr/unary.hpp','Expr/functors.hpp','Expr/types.hpp','derived_base.hpp'],
  [('BinaryExpr, UnaryExpr','Expr/types.hpp'),('functors','Expr/functors.hpp'),('Operands_CRTP','derived_base.hpp')])
p('C12','Generated and combined arrays have exactly the defined elements',
  'merge (of arrays and values), horizontal/vertical merge, exclude, sequence, linspace, index ranges, unit vector, identity, constants, transpose, broadcast, row/column reduction and tensor product have exactly the defined extents and, at every index, exactly the value their definition gives (exclude relative to the end honours the offset; linspace starts at the given start). Arguments outside their domain (negative sizes, positions out of range, mismatching extents) are rejected with an error.',
  ['inputs'],'all sizes, positions, counts, parameters and element values',
  T+'each generator is tested for one or two literal sizes.',
  ['Expr/special.hpp','Expr/types.hpp','Expr/binary.hpp'],
  [('merge, exclude, sequence, linspace, e_unit, identity, transpose','Expr/special.hpp'),('SequenceExpr1D, IndexExpr2D, BroadCastExpr, ReduceExpr, TensorExpr','Expr/types.hpp')])
p('C13','Sums, products, means and norms fold every element exactly once in order',
  'sum, prod, dot product, mean, the 1-, 2- and infinity norms (plain and scaled) and polynomial evaluation over any non-empty array, view or expression equal the defining left-to-right fold over all elements, each used exactly once (with the scalar division, square root or absolute value of the definition applied). Over an empty array they return the caller-supplied default. Dot product of operands with different extents is rejected with an error.',
  ['inputs'],'all lengths and shapes, all element values, default values',
  T+'reductions are tested on constant or arithmetic sequences of one length.',
  ['array_ops.hpp'],[('sum, prod, dot_prod, mean, norm1, norm2, norm_inf, polynomial','array_ops.hpp')])
p('C14','Minimum/maximum and their indexes are the true extrema, first occurrence',
  'min and max of a non-empty 1-D or 2-D array return a value that is contained in it and that no element beats; min_index and max_index return that value together with the position (row and column in 2-D) of its first occurrence in row-major order. Over an empty array the caller-supplied default is returned.',
  ['inputs'],'all lengths and shapes, all element values (integers and non-NaN floating point), ties',
  T+'the extremum is at one fixed place without ties in the tests.',
  ['array_ops.hpp'],[('min, max, min_index, max_index','array_ops.hpp')])
p('C15','Quantified predicates and array equality are decided over all elements',
  'all_of, any_of and none_of (by value, by unary or by binary predicate) and the sign/zero/finite/NaN/infinity queries return exactly whether the predicate holds for all, some or none of the elements; array == and != decide equality of extents and of every element. Over an empty array the predicates return their documented default or the one given by the caller; binary predicates over different extents are rejected with an error.',
  ['inputs'],'all lengths and shapes, all element values, all predicates',
  T+'tests use arrays where all elements agree, so a wrong first/last iteration is invisible.',
  ['array_ops.hpp','ArrayCommon/array_auxiliary.hpp'],[('any_of, all_of, none_of, has_zero, all_pos ...','array_ops.hpp'),('operator==','ArrayCommon/array_auxiliary.hpp')])
p('C16','Strict scalars compute what the built-in type computes and reject undefined ones',
  'For strict integer, floating-point and boolean values every arithmetic, bitwise, comparison, logical and conversion operation gives bit for bit the result of the same built-in operation on the wrapped values, and compound assignments, increment and decrement store exactly that result. Integer division or modulo by zero, and shifts of or by a negative value, are rejected with an error and leave the operand unchanged. clamp, min, max, absolute value, square, cube, inverse and open/closed interval tests return exactly their mathematical definition on the values given (the absolute value of a zero is +0).',
  ['inputs'],'all operand values for which the built-in operation is defined, and all zero divisors and negative shift operands',
  T+'scalar operators are only exercised indirectly through array tests.',
  ['StrictCommon/strict_val.hpp','StrictCommon/strict_math.hpp','StrictCommon/strict_val_ops.hpp'],[('Strict<T> operators','StrictCommon/strict_val.hpp'),('maxs, mins, abss, squares, clamps','StrictCommon/strict_math.hpp, strict_val_ops.hpp')])
p('C17','Factorial, binomial coefficient and integer power equal their definitions',
  'factorial(n) and the binomial coefficient return exactly the mathematical value whenever all intermediate products fit the integer type, and reject negative n, negative k and k > n with an error. Fast integer power returns one for exponent zero, the base for exponent one, the product obtained by repeated squaring for larger exponents, and the reciprocal of it for negative exponents.',
  ['inputs'],'all arguments for which the exact result and intermediates are representable; all rejected arguments',
  T+'no test exercises the larger arguments.',
  ['StrictCommon/strict_val_ops.hpp'],[('factorial, binom_coeff, fast_pows_int','StrictCommon/strict_val_ops.hpp')])
p('C18','Iterators traverse exactly the elements (rows, columns) in order',
  'Forward, constant and reverse iterators over arrays, views and expressions visit every element exactly once in (reverse) row-major order, row and column iterators visit every row/column view in order, and iterator arithmetic, distance and comparisons agree with positions. Dereferencing at a position outside the range, or using an iterator that points nowhere, or comparing iterators of different arrays, is rejected with an error.',
  ['inputs'],'all extents, all positions and offsets, all element values',
  T+'iterator tests run the standard algorithms on one array.',
  ['iterator.hpp','derived1D.hpp','derived2D.hpp'],[('Iterator, ConstIterator','iterator.hpp'),('begin/end/rbegin/rend, row_begin, col_begin','derived1D.hpp, derived2D.hpp, iterator.hpp')])
p('C19','Error-free transforms are exact and compensated reductions use every element',
  'two_sum and two_prod return the rounded sum/product together with the exact rounding error whenever nothing overflows or underflows. Compensated sum, mean, dot product, product, norms and polynomial evaluation over any non-empty array agree with the exact result to within a few units in the last place of the condition-scaled result, using every element exactly once (the semi-stable sum and dot product sum blocks of 64 plainly, and the general p-norm ends in the power function of the library, each adding its own error); over an empty array they return the caller-supplied default, and operands of different extents are rejected with an error.',
  ['inputs'],'all finite operand values without overflow/underflow, all lengths',
  T+'two inputs are tried per routine.',
  ['StrictCommon/strict_val_ops.hpp','array_stable_ops.hpp'],[('two_sums, two_prods, pow_prods','StrictCommon/strict_val_ops.hpp'),('stable_sum, semi_stable_sum, stable_dot_prod, stable_prod','array_stable_ops.hpp')])
p('C20','Tolerance and error measures equal their definitions over all elements',
  'Absolute/relative tolerance tests and error measures on scalars equal their definitions |x - y| <= tol, |x - y| / max(|x|,|y|) <= tol unless both are near zero, |approx - exact| and |approx - exact| / |exact| (undefined if either is zero). On arrays the tests hold exactly if they hold at every index, and the error measures are the maximum over all elements (none of them NaN); different extents, or a negative tolerance that is compared with, are rejected with an error. Empty arrays give the documented or caller-supplied default whatever the tolerances.',
  ['inputs'],'all values, tolerances, lengths and shapes',
  T+'tests compare two or three literal pairs.',
  ['Util/error_tools.hpp'],[('within_tol_abs, within_tol_rel, abs_error, rel_error, max_abs_error, max_rel_error','Util/error_tools.hpp')])
p('C21','Semi-random values lie in the requested interval and honour not-zero',
  'Every value produced by the semi-random scalar, array-filling and generator functions for an interval [low, high] (whose width, and for integers number of values, is representable) lies in it, filled arrays keep their extents, and the not-zero variants never produce zero. An empty interval (low > high), and a not-zero request for the interval [0, 0], is rejected with an error.',
  ['inputs'],'all seeds, all intervals, all lengths and shapes',
  T+'one seed and one interval per function.',
  ['Util/semi_random.hpp'],[('SemiGenerator','Util/semi_random.hpp')])
p('C22','No operation touches memory outside its arrays, leaks, or leaves partial state',
  'In any sequence of array operations (creation, access, slicing, insertion, removal, resizing, assignment, moves, also with rejected arguments in between) no operation reads or writes outside the live storage of the arrays involved or reads uninitialised elements, and every allocation is released exactly once. After every operation each array equals the abstract sequence or matrix obtained by applying the same operations to a mathematical sequence or matrix; operations rejected for their arguments change nothing (an integer division by zero met while an expression is being assigned element by element ends that assignment where it is met).',
  ['inputs','histories'],'all finite histories of operations with all arguments',
  T+'tests run a few fixed short histories.',
  ['array_base1D.hpp','array_base2D.hpp','ArrayCommon/algorithm.hpp'],[('every member function restores: data size = size(), rows*cols = size()','array_base1D.hpp, array_base2D.hpp')])
p('C23','Raw storage exposure is contiguous, complete and aligned',
  'data() and blas_data() of a non-empty array point to storage whose k-th entry is the k-th element in row-major order (null when empty) and that honours the alignment requested in the type; blas_array returns a copy with exactly the elements of its argument in order. Writing through data() changes exactly the corresponding element.',
  ['inputs'],'all extents, element values and alignments offered by the library',
  T+'pointers are compared on one array; alignment is not tested after resizing operations.',
  ['array_base1D.hpp','array_base2D.hpp','array_ops.hpp','ArrayCommon/alignment.hpp'],[('data, blas_data','array_base1D.hpp'),('blas_array','array_ops.hpp')])
p('C24','Sorting and shuffling permute in place; sorting orders',
  'Sorting any array or writable view of ordered values, increasing, decreasing or by a strict weak order, leaves the same multiset of values in the requested order and changes nothing outside the view; shuffling leaves the same multiset.',
  ['inputs'],'all lengths, shapes and values without NaN',
  T+'one literal array is sorted.',
  ['array_ops.hpp'],[('sort, sort_increasing, sort_decreasing, shuffle','array_ops.hpp')])
p('C25','Text output and input of arrays round-trip',
  'Reading back what was written by the library preserves extents and, up to the printed precision, values.',
  ['inputs'],'all extents and values','IO tests do not exist.',['array_IO.hpp','StrictCommon/strict_IO.hpp'],[('operator<<, ArrayIO','array_IO.hpp')])
p('C26','Ill-typed or dangling uses are rejected at compile time',
  'Implicit mixing of numeric types in strict arithmetic, narrowing conversions, and expressions or views over temporary arrays that own their data do not compile.',
  ['programs'],'all programs using the library','Run-time tests only contain programs that compile.',
  ['StrictCommon/strict_val.hpp','derived1D.hpp','derived2D.hpp','Expr/binary.hpp'],[('deleted overloads, concepts','derived1D.hpp, Expr/*.hpp')])
p('C27','Parallel-free random generators stay in range',
  'Values produced by the hardware-seeded random functions lie in the requested interval, and the not-zero variants never produce zero.',
  ['inputs','schedules'],'all intervals and all generator states','Tests sample a few draws.',
  ['Util/random.hpp'],[('rands, random','Util/random.hpp')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    if len(d['title'])>80: print(d['id'],len(d['title']))
print(len(P))
