"""What the driver and the manifest need to know about each check."""

REF = ('Cases are generated per function and per type loop by seeded, function-specific generators (ordinary, boundary and special '
       'values; random loop shapes, broadcasting, layouts, axes, signatures and output arrays); an oracle judges every core slice of '
       'the observed result. A case is non-trivial and distinct when the oracle judged it and its (function, type, input bytes) was '
       'not seen before in the run; ')
TRUST = ['NumPy, CPython and the compiler are trusted',
         'the reference models in vlib/specs_*.py are written from the documentation and the mathematical definitions, '
         'independently of the implementation']


def ref(extra, note, **kw):
    return dict(rule=REF + extra, technique='runtime monitoring: online oracle over generated calls', note=note,
                assumptions=TRUST + kw.pop('assumptions', []), **kw)


META = {
 'C01': dict(
    variants=['asan', 'plain'],
    rule='Calls of every function and loop with valid and hostile values on the AddressSanitizer + UBSan build and, on the plain build, with '
         'arrays placed against guard pages and surrounded by canaries; methods (reduce, accumulate, outer, at), large, odd and malformed calls. '
         'Distinct: (function, loop, shapes, layout, kind) of calls that executed.',
    technique='AddressSanitizer + UBSan, guard pages and canaries',
    note='Any sanitizer report, guard page fault or changed canary is a violation. Explored calls only; accesses that stay inside the same array are left to C02-C04.',
    assumptions=['clang ASan/UBSan detect the access; NumPy itself is not instrumented'],
    require=['gendot', 'inspector']),
 'C02': dict(
    rule='The same call repeated with different junk in outputs, in free heap blocks and with other calls in between; the bits of all outputs '
         'are compared. Distinct: (function, loop, argument bytes).',
    technique='differential monitor: repeated calls under memory perturbation',
    note='An element that is not written or depends on leftover memory differs with the junk; crashes and hangs are observed by the parent process through the journal.',
    assumptions=['a dependence on memory shows up in one of the junk patterns used'],
    require=['gendot', 'raised', 'returned']),
 'C03': dict(
    rule='Calls on randomly laid out, batched and broadcast arguments are compared slice by slice with calls on fresh contiguous slices. Distinct: '
         '(function, loop, layouts, shapes).',
    technique='metamorphic monitor: sliced re-execution',
    note='Bitwise comparison, except linear_interp1d, where a documented fast path may round differently.',
    assumptions=['the contiguous call on one slice is judged by the other checks']),
 'C04': dict(
    rule='Calls with snapshots of every byte around inputs and outputs, random overlaps of out and inputs in one buffer, where= masks. Distinct: (function, loop, offsets, layouts).',
    technique='memory snapshot monitor and overlap differential',
    note='Every byte of the buffers that hold inputs and outputs is compared before and after.',
    assumptions=[], require=['overlapping', 'inputs in read-only pages']),
 'C05': dict(
    env={'PYTHONMALLOC': 'malloc', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0'},
    rule='Calls on instrumented objects that log every operation and raise at a chosen one; reference counts and live objects are compared; '
         'heap size and reference counts after repeated calls. Distinct: (function, loop, mode, failing operation, arguments).',
    technique='instrumented objects with fault injection, heap monitor',
    note='Every operation index can be chosen for the fault; leaks of less than 8 bytes per call are not detected.',
    assumptions=['mallinfo2 accounts for all heap memory in use (PYTHONMALLOC=malloc, tcache off)'],
    require=['mode:raise', 'mode:bool', 'mode:truthy', 'heap:ufunc_inspector', 'heap:gendot']),
 'C06': dict(
    variants=['plain', 'tsan'], shards=3,
    rule='2 to 7 threads, released together by a barrier, make calls of one function on different arrays (every loop), of different functions, of gendot '
         'functions shared or made in the threads, of object loops that give up the GIL, and the first use of all lazily loaded names; results are compared bit for bit '
         'with serial calls. Distinct: (function, arguments, order in which the threads started each round).',
    technique='ThreadSanitizer and serial/concurrent differential',
    note='Overlap of calls is measured and recorded. TSan reports any pair of unsynchronised accesses of the observed executions whatever their timing.',
    assumptions=['libm is not instrumented (lgamma writes the global signgam)', 'NumPy and CPython are not instrumented'],
    require=['overlapping pairs of calls', 'lazy import', 'gendot', 'mixed', 'objects']),
 'C07': ref('all comparison codes and every position of the deciding element are reachable.', 'Exact oracle in Python integers, fractions and objects.'),
 'C08': ref('ties, nan positions and extreme integers are generated on purpose.', 'Exact oracle.'),
 'C09': ref('sorted arrays with repeats, infinities and nans.', 'Oracle: linear scan with the NumPy order.'),
 'C10': ref('all kinds, ties.', 'Oracle: exact rational counting.'),
 'C11': dict(
    rule='Histories of 1-3 calls into the same output (gufuncs) and of wrapper calls with axis, weights, m and out of various layouts and types; every bin is compared with an exact model of the '
         'history. Distinct: (function, loop, x bytes, layout).',
    technique='offline history checker with exact accounting', note='Exact conservation of counts and weights (weights chosen so that sums are exact).', assumptions=TRUST,
    require=['wrapper', 'repeated', 'rejected']),
 'C12': ref('wrapper calls add axis, out and integer argument variants.', 'Exact integer oracle.', require=['wrapper:convert_to_base', 'wrapper:one_hot:out', 'rejected:one_hot']),
 'C13': ref('bit patterns around all borders of the formats.', 'Exact oracle from rational arithmetic and raw bits.', require=['wrapper:nextn_greater', 'wrapper:nextn_less:out']),
 'C14': ref('lengths 1 to hundreds, powers of all kinds, special values.', 'Oracle: mpmath with 60 digits or more; tolerance from a forward error analysis of the documented formula.'),
 'C15': ref('offsets, ties, magnitudes, special values, all flags and orders.', 'Oracle: exact rational or mpmath evaluation; tolerance from forward error bounds.'),
 'C16': ref('cancelling and mixed-magnitude sequences, lengths up to 3000.', 'Oracle: exact rational sum; error bound of Neumaier summation.'),
 'C17': ref('weight on interval borders.', 'Oracle: mpmath with 40 digits or more.'),
 'C18': ref('every Chebyshev subinterval of erfcx, both tails.', 'Oracle: mpmath.'),
 'C19': ref('points next to |1+z| = 1, tiny and cancelling values.', 'Oracle: mpmath, per part.'),
 'C20': ref('all magnitudes up to overflow.', 'Oracle: mpmath.'),
 'C21': ref('arguments equal or adjacent to breakpoints.', 'Oracle: exact rational evaluation of the pieces.'),
 'C22': ref('sequences, states, splits into pieces.', 'Oracle: exact state machine in rational arithmetic with running error bounds.'),
 'C23': ref('nan patterns, interval positions, magnitudes.', 'Oracle: rational arithmetic and mpmath with error bounds.'),
 'C26': dict(
    rule='Calls with valid, empty and invalid combinations of core dimensions, axes, keepdims, outputs and argument counts of every function. Distinct: (function, kind, shapes, keywords).',
    technique='runtime monitoring: contract monitor over generated valid and invalid calls',
    note='Shape, dtype and identity of results; exception types; outputs and inputs of refused calls are compared byte for byte; the next valid call must still work.',
    assumptions=TRUST + ['the shape errors that NumPy itself raises are trusted to be right']),
 'C27': dict(
    rule='The loop table of every function, and calls with random combinations of argument types, Python scalars and lists, signatures, casting modes and output types, compared with the '
         'explicit loop on explicitly converted arguments. Distinct: (function, argument types).',
    technique='runtime monitoring: differential against explicit conversion',
    note='The loop that must be chosen comes from the recorded tables and numpy.can_cast; bitwise comparison.',
    assumptions=TRUST + ['the tables in vlib/loops.json, recorded from the tree as given, are the documented ones'],
    require=['tables', 'resolved', 'refused', 'lists', 'Python scalars', 'out types', 'casting refused']),
 'C28': dict(
    rule='Histories of attribute accesses, from-imports, star imports, unknown names and threads in fresh interpreters; every public name; every operation code; the examples of every docstring; ufunc_inspector on every '
         'ufunc of the library and of NumPy. Distinct: histories, names, ufuncs.',
    technique='runtime monitoring: history checker over fresh interpreters, metadata oracle',
    note='Identity of the objects of one history, exceptions of unknown names, signature, docstring, pickling, and the text printed by ufunc_inspector against the attributes of the ufunc.',
    assumptions=TRUST, require=['histories', 'names', 'codes', 'inspected', 'user loops', 'examples']),
 'C25': dict(
    rule='Every pair of supported ufuncs: the loop table, and calls of every loop with random lengths, layouts, axes and outputs compared with an explicit composition; histories of making, '
         'calling and dropping functions; rejected arguments. Distinct: (pair, loop, vectors).',
    technique='runtime monitoring: composition oracle over generated programs',
    note='Bitwise comparison (nan equal to nan, zeros of either sign equal) with one-element calls of the sum function; date and object loops are left out.',
    assumptions=TRUST, require=['tables', 'calls', 'empty without identity', 'empty with identity', 'rejected', 'histories']),
 'C29': dict(
    rule='Calls of every function and Python wrapper on finite arguments under an errstate whose handler records every report; judged when the results are finite too. '
         'Distinct: (function, argument bytes).',
    technique='runtime monitoring: floating point status monitor',
    note='NumPy reads the floating point status flags of the CPU after the loops; the handler records what it reports. No claim for nan or infinite arguments or results.',
    assumptions=TRUST + ['the flags that NumPy reads belong to the call'], require=['control', 'base 0', 'control settings compared']),
 'C30': dict(
    hang=400, shards=3,
    rule='Calls with more than 2**31 (thorough: also 2**32) elements along a core or loop dimension, in virtual arrays that map one block of memory over and over; the values of the '
         'tail are random. Distinct: (function, dimension, length, type).',
    technique='runtime monitoring: closed form and tail oracle over huge virtual arrays',
    note='Only the end of an input and of an output is specific to the case; the rest is constant. mad, gini, the geometric and power means, multivariate_logbeta and the object loops are not run at this size.',
    assumptions=TRUST, require=['elements']),
 'C31': dict(
    rule='The generator in tools/uwrap is run on the installed package; every wrapper is called with random arguments of the ufunc given by position, by keyword or left out (defaults), with out, casting, '
         'order, dtype, subok, where, axis and axes, and compared with the ufunc. Distinct: (function, way of calling, argument bytes).',
    technique='runtime monitoring: differential between generated wrappers and ufuncs',
    note='Bitwise comparison of results and out arrays, and of the kind of exception; for axis=None and tuples with the flattened argument (rounding may differ with the order of summation).',
    assumptions=TRUST, require=['generated', 'wrappers', 'positional', 'keywords', 'mixed', 'defaults', 'axis none', 'axis left out', 'axis tuple', 'axis int']),
 'C32': dict(
    shards=8, hang=400,
    rule='Random definitions of modules (names, core dimensions, type signatures, templates, docstrings, nonzero_coredims, process_core_dims_func, extra functions and sources) go through the '
         'generators of tools/cxxgen; the generated code is compiled with core functions that compute a number from all arguments, imported and called. Distinct: (function, signature, loop, dimensions, loop shape).',
    technique='runtime monitoring: generated definitions executed against a model',
    note='A wrong pointer, stride, dimension, type or order of arguments changes the computed number; names, types, signature, docstrings and refusals are compared with the definition.',
    assumptions=TRUST, require=['gufunc modules', 'ufunc modules', 'calls', 'zero dimension refused', 'loops that set the floating point status', 'core functions that fail']),
 'C33': dict(
    rule='Random templates with nested repeat blocks, several names, repeated and grouped values, exclusions, continuation lines and included files are expanded by the tool and compared line by line with '
         'an expansion of the same structure that never parses the text. Distinct: template texts.',
    technique='runtime monitoring: generated programs against a structural model',
    note='Lines are compared without white space at their ends; #line directives must name the line of the template on which the repeated text starts.',
    assumptions=['CPython is trusted'], require=['loops', 'excluded', 'command line', 'refused', 'included']),
 'C34': dict(
    shards=8, hang=400,
    rule='The generator scripts of debye1 and erfcx write C code for random lists of intervals, orders, bounds and numbers of terms, and for the committed ones; the code is compiled and run at random '
         'points, at the ends of every piece and beyond. Distinct: pieces, polynomials, points.',
    technique='runtime monitoring: generated code executed against high-precision references',
    note='The tolerance is the error of the best polynomial for the piece (computed by the check) plus the rounding of the evaluation; the integrals of the debye1 script are sampled, and replaced by a closed '
         'form where their number would cost minutes.',
    assumptions=TRUST + ['mpmath and gcc are trusted'], require=['script:erfcx', 'script:debye1', 'interval lists', 'subintervals', 'polynomials', 'quadrature', 'erfcx:f', 'erfcx:d', 'erfcx:g']),
 'C24': ref('integer wraparound, cancelling components, degenerate and needle triangles.', 'Oracle: exact rational arithmetic and mpmath square roots.'),
}
