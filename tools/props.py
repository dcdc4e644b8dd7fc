"""One entry per property: text for properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, technique=None, state=None, observe=None, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, technique=technique, state=state, observe=observe, na=na, hook=hook))


V = 'include/vif/'
prop('C01', 'Indexing a vector of any dimension yields exactly the addressed elements',
     'For a vector of any number of dimensions, stored with the last index varying fastest, indexing with any combination per axis of an integer, a negative integer counting from the end, the full range, an open or closed range, or a vector of indices, through the one-dimensional or the multi-dimensional access, on the vector, on a view of it or on a constant one, gives exactly the elements at the addressed positions with the documented shape. An index outside the axis (not below the negative size, which is unspecified) is always rejected with an error and never reads other memory.',
     ['inputs'], 'every shape, every mix of index kinds, every index value, vectors, constant vectors and views, every element type',
     'tests index a few small vectors with in-range indices; the space of shapes x index kinds x out-of-range values is not enumerated, and an error terminates the program',
     [V + 'core/vec.hpp', V + 'core/bits/access.hpp', V + 'core/range.hpp', V + 'core/bits/helpers.hpp'],
     [('index conversion and bounds checks', V + 'core/vec.hpp to_idx'), ('flat and multi-dimensional access', V + 'core/bits/access.hpp'),
      ('ranges', V + 'core/range.hpp')],
     'every recorded access equals the row-major addressing function of VecIndex.tla; shapes up to 5 per axis, 1-4 dimensions, all index kinds, plus bounds errors under AddressSanitizer')
prop('C02', 'Assigning through views writes exactly the selected elements, as if by copy',
     'Assigning a scalar, a vector or another view to a view or a vector, plainly or with a compound operator, changes exactly the elements the left side designates, to the values the right side had before the assignment started, even when both sides (or the scalar operand) alias the same storage. Every other element of every vector keeps its value, and a right side with a different number of elements is rejected with an error leaving the target unchanged.',
     ['inputs', 'histories'], 'every pair of index selections on the same or different vectors, every assignment operator, every history of such assignments',
     'tests use a couple of hand-picked overlapping selections; correctness must hold for every overlap pattern and order',
     [V + 'core/vec.hpp', V + 'core/bits/access.hpp'],
     [('view assignment and aliasing detection', V + 'core/vec.hpp assign_ / view_same'), ('view construction', V + 'core/bits/access.hpp')],
     'histories of assignments on shared storage replayed against the snapshot semantics of VecAssign.tla, all overlapping selections of small vectors')
prop('C03', 'Construct, copy, move, resize, push and clear keep shape and content consistent',
     'After any history of construction from lists, sizes or other vectors, copy, move, swap, resize, appending an element or a row, and clearing, the number of stored elements equals the product of the reported dimensions. A copy equals its source and is independent of it, a moved-from vector is empty, appending adds exactly the given element or row at the end and keeps the rest, and appending a row of another shape is rejected leaving the vector unchanged.',
     ['histories', 'inputs'], 'every sequence of the operations on several vectors of 1 to 4 dimensions and several element types',
     'tests check single operations from a fresh vector; the invariant is over all operation sequences, including after moves and failed appends',
     [V + 'core/vec.hpp', V + 'core/bits/initializer_list.hpp'],
     [('constructors, assignment, push_back, resize, clear', V + 'core/vec.hpp'), ('list initialisation', V + 'core/bits/initializer_list.hpp')],
     'random histories replayed as behaviours of the VecLife.tla state machine; the complete state of all vectors is compared after every step')
prop('C04', 'Operators between vectors and scalars act element by element',
     'Arithmetic, comparison and logical operators between any mix of vectors, temporaries, views and scalars return a vector of the same dimensions whose every element is the operator applied to the elements at the same position (a scalar counting as the same value everywhere) and computed as it would be for two single values of these types, and functions made to act on vectors behave the same way. Operands that are not temporaries are unchanged, and operands of different dimensions are rejected with an error, also when they hold the same number of elements.',
     ['inputs'], 'every operator, every combination of operand kinds and element types, every shape, equal or different',
     'each operator has separate implementations per operand kind (temporaries are reused in place); tests cover a handful of combinations',
     [V + 'core/bits/operators.hpp', V + 'core/bits/vectorize.hpp', V + 'core/vec.hpp'],
     [('operator templates', V + 'core/bits/operators.hpp'), ('function vectorisation', V + 'core/bits/vectorize.hpp')],
     'all operators x 13 operand-kind combinations recorded and compared with VecOps.tla Apply; operands that are not whole numbers and of mixed types, and operations in place, with Frac and InPlace')
U = T = V + 'utility/bits/'
prop('C05', 'Searching positions and converting indices agree with the elements',
     'For a boolean vector or view of any shape, the list of true positions, the first, the last, and the complement of a list of distinct positions are exactly right and in increasing order (the first and last being a distinguished value if there is none). Converting a flat position to indices and back is the identity for every shape, invalid indices are rejected, stepping an index list visits the positions in order and wraps, and the nearest true pixel found in a map is really one at the smallest distance along the axes.',
     ['inputs'], 'every boolean vector and map, every shape and position, vectors and views',
     'tests use two or three hand-written vectors; the functions must be right for all contents, including none or all true',
     [U + 'generic-find.hpp', U + 'generic-indices.hpp'], [('where, complement, astar_find', U + 'generic-find.hpp'), ('mult_ids, flat_id', U + 'generic-indices.hpp')],
     'every recorded result equals the set-theoretic definition in Find.tla')
prop('C06', 'Sorting, unique values, matching, sets and bounds agree with their definitions',
     'For any vector or view: sorting gives the stable increasing permutation, not-a-number values last; sortedness, unique values (and the first position of each), membership, and the pairs of positions of equal values of two vectors (in order of the first vector, first occurrence in the second) are exact; the intersection and union of two lists keep multiplicities and are sorted. On a sorted vector the lower bound is the last element not above the value, the upper bound the first above it, and the equal range exactly the elements equal to the value, absent ones being reported as such. Inputs are unchanged.',
     ['inputs'], 'every content including duplicates, not-a-number and infinite values, every size (small and large vectors use different algorithms), vectors and views',
     'tests check one example each; the algorithms switch implementation with the size and have special cases for ties and empty input',
     [U + 'generic-rearrange.hpp', U + 'generic-find.hpp'], [('sort and comparators', U + 'generic-rearrange.hpp'), ('match, unique, bounds, sets', U + 'generic-find.hpp'), ('order of NaN', V + 'core/meta.hpp')],
     'recorded results compared with the definitions of Order.tla, whose consistency is model-checked for all small vectors')
prop('C07', 'Rearranging a vector moves every element to its documented place',
     'Reversing, rotating by any amount, transposing, replicating along new axes, flattening, giving another shape, removing rows, and appending or prepending along any axis place every element exactly where documented, for all shapes, and lose or invent none. Reversed, flattened or reshaped views still designate the same elements. Incompatible shapes, invalid positions and duplicate positions to remove are rejected, and arguments passed by value or constant reference are unchanged.',
     ['inputs'], 'every shape up to three dimensions, axis, rotation amount, list of rows, vectors and views, empty vectors included',
     'tests check one shape per function; errors hide in non-square shapes, wrap-around, empty vectors and runs of consecutive rows',
     [U + 'generic-rearrange.hpp', U + 'generic-dims.hpp', U + 'generic-sequences.hpp'], [('shift, transpose, replicate, remove, append, prepend', U + 'generic-rearrange.hpp'), ('flatten, reform', U + 'generic-dims.hpp')],
     'recorded results compared with index formulas of Rearr.tla, whose algebraic laws are model-checked on all small shapes')
prop('C14', 'FITS tables give back the columns that were written',
     'In every session on a FITS file, through any mix of handles (input, output, read-write, tables or generic files), orientations, HDUs and re-openings: after any history of writing, updating, allocating and removing columns and elements, each column of each table has exactly the name, type, shape and values last given to it, other columns and HDUs are untouched, and reading a column (into its type or a wider one, with any reading options), its description or any of its elements returns just that. Missing columns, narrowing types, wrong numbers of dimensions, out-of-range elements, and columns of another number of rows in a row-oriented table are reported as failures and change nothing. The same holds for tables written by other programs, with types the library itself never writes (32-bit, unsigned or logical values, tables in text form), undefined integers being read as NaN by floating point types.',
     ['inputs', 'histories'], 'every column type, shape, value (NaN and infinities included) and sequence of operations',
     'tests write one table and read it again; they do not replace, remove or interleave',
     [V + 'io/fits/table.hpp', V + 'io/fits/base.hpp'], [('column read and write', V + 'io/fits/table.hpp'), ('HDU of the table', V + 'io/fits/table.hpp create_table_')],
     'sessions of 4 to 18 calls on real files replayed in Fits.tla, whose state is the whole file; the closed file is read again with plain CFITSIO and must be that state; the transitions of Fits.tla are model-checked')
prop('C15', 'FITS images, extensions and keywords form a consistent file',
     'In every session on a FITS file: moving to an extension, adding missing ones, removing one, writing, updating and reading images (whole, any rectangular part, or one pixel), and setting, adding, reading, testing and removing keywords or copying a header act on the current extension only, and everything else in the file stays as it was; what is read is what was last written, with its dimensions and type, whether with the same handle, after the handle is moved, or after closing and opening again. The primary extension cannot be removed, existing data are not overwritten by write(), extensions beyond the end are only created with write access, reading with a wrong number of dimensions, a narrower type or outside of the image fails, and a failed or missing keyword leaves the variable alone. The same holds for files written by other programs, with 32-bit or unsigned images, undefined integer pixels being read as NaN by floating point types.',
     ['inputs', 'histories'], 'every image type, shape and value, keyword and sequence of operations',
     'tests only write one image and read it',
     [V + 'io/fits/base.hpp', V + 'io/fits/image.hpp', V + 'io/fits.hpp'], [('extensions and keywords', V + 'io/fits/base.hpp'), ('image subsets', V + 'io/fits/image.hpp make_indices_')],
     'sessions of 6 to 24 calls on real files replayed in Fits.tla, whose state is the whole file; the closed file is read again with plain CFITSIO and must be that state; the transitions of Fits.tla are model-checked')
prop('C19', 'The lock-free queue is a FIFO under any interleaving of producer and consumer',
     'With one producer and one consumer thread, under every interleaving, the consumer receives exactly the pushed elements, each once and in the order pushed, and is told the queue is empty only if at some moment of the call it was. The size seen by the consumer never exceeds what was pushed and not yet popped, nor misses elements whose push had completed; clearing or destroying the queue releases everything, no element is leaked and no released memory is touched.',
     ['schedules', 'histories'], 'every interleaving of one producer and one consumer, every sequence of push, pop, size, empty and (alone) clear',
     'there is no test of the queue, and a test only sees the schedules the machine happens to produce',
     [T + 'thread-queue.hpp'], [('linked list with dummy node', T + 'thread-queue.hpp')],
     'TLC proves the node-level algorithm refines the FIFO for bounded operation counts; the real code is run under a controlled scheduler (all schedules up to a preemption bound, then random ones) with AddressSanitizer, and on real threads with ThreadSanitizer, and TLC checks every distinct observed history',
     state=[('first/dummy/last', 'ends of the list: owned by producer, consumer, producer')])
prop('C20', 'A background worker runs every pushed job once, in order, before wait returns',
     'Under every schedule, jobs pushed to a background worker are executed one at a time on its own thread, each exactly once, in the order pushed. When waiting for the worker, or destroying it, returns, every job pushed before has finished; the worker accepts jobs again afterwards, and waiting always terminates.',
     ['schedules', 'histories'], 'every interleaving of the owner and the worker thread, every sequence of pushes and waits',
     'there is no test; losing a job needs a particular timing between the last push, the stop request and the worker going to sleep',
     [T + 'thread-worker.hpp', T + 'thread-queue.hpp'], [('consume loop and stop flag', T + 'thread-worker.hpp')],
     'as C19: bounded-exhaustive and random schedules of the real code on a controlled scheduler plus ThreadSanitizer runs, histories judged by TLC; WorkerMC.tla model-checked including termination')
prop('C21', 'A worker pool processes every item once, on its worker, before join returns',
     'Under every schedule, an item given to a pool of workers is processed at most once, by one worker at a time and by the designated worker if one was named, each worker taking its items in the order given and using only its own workspace. If the owner waits for consumption and then joins (or restarts) the pool, every item given has been completely processed when that returns, nothing is processed afterwards, the number reported as remaining is consistent, and waiting, joining and restarting always terminate.',
     ['schedules', 'histories'], 'every interleaving of the owner and the workers, every sequence of the pool operations',
     'there is no test; loss or duplication depends on the timing of shutdown against the last items',
     [T + 'thread-worker-pool.hpp', T + 'thread-queue.hpp'], [('per-worker queue, polling and shutdown flag', T + 'thread-worker-pool.hpp')],
     'as C19, with PoolMC.tla model-checked including termination. Items left when joining without waiting for consumption are unspecified')
prop('C22', 'A parallel loop calls its function exactly once for every index of the range',
     'For any range, number of worker threads (including none), and chunk size, under every schedule, a parallel loop calls the function exactly once for every index from the first (included) to the last (excluded), and for no other index. All calls have returned when the loop returns, and the same object can run further loops.',
     ['schedules', 'inputs', 'configurations'], 'every schedule of the workers, every first and last index, worker count and chunk size',
     'there is no test; the splitting into chunks depends on all parameters and the workers race for the chunks',
     [T + 'thread-parallel-for.hpp', T + 'thread-thread.hpp'], [('chunk distribution under a lock', T + 'thread-parallel-for.hpp')],
     'as C19, with PforMC.tla model-checked for all small ranges, worker counts and chunk sizes')
M = V + 'math/'
prop('C08', 'Reductions give the exact statistic of the values, whole or along any axis',
     'For any vector or view of any shape, the total, count, (weighted, optimal) mean, fraction, median, (weighted) percentiles, median deviation, dispersion, minimum and maximum with their positions, clipping mask and element-wise extremes equal their definition. Order statistics ignore not-a-number values and return not-a-number only if there is nothing else; sums do not overflow the element type; empty input to an order statistic and mismatched shapes are rejected. Reducing along an axis applies the function to exactly the slices along it, in order, and the input keeps its values and order.',
     ['inputs'], 'every content (ties, not-a-number values, extremes of narrow types), shape, axis, percentile, vectors and views',
     'tests use single examples with well separated values; ties, NaN, the last percentile and non-square shapes are not sampled',
     [M + 'reduce.hpp', M + 'base.hpp'], [('order statistics and sums', M + 'reduce.hpp'), ('slices along an axis', M + 'reduce.hpp run_index_ / run_dim_final_')],
     'every recorded statistic compared with the definitions of Reduce.tla (fixed point, one unit), whose laws are model-checked')
prop('C09', 'Histograms and bins account for every value exactly once',
     'Bins are intervals closed below and open above. Building bins from limits, edges or centers, testing membership (also with open end bins), and counting, weighting or listing the values of one- or two-dimensional disjoint bins put every value in exactly the bin that contains it; values in no bin and not-a-number values are never counted. Cumulated sums from either end are exact, and generated sequences contain both ends with the documented number of points and steps.',
     ['inputs'], 'every data and weight vector, every set of disjoint bins in any order and with gaps, every range and step',
     'tests count a few values away from the edges; values on edges, gaps, unordered bins and early exit when data is exhausted are not sampled',
     [M + 'histogram.hpp', M + 'base.hpp'], [('partition of the data by bin', M + 'histogram.hpp'), ('rgen, rgen_step, rgen_log', M + 'base.hpp')],
     'recorded counts compared with Hist.tla; the partition law is model-checked for all small data and bins')
prop('C10', 'Interpolation and integration agree with the underlying curve everywhere',
     'Linear interpolation (and its extrapolation and error), bilinear interpolation and regridding equal the piecewise (bi)linear function of the data at every position, including nodes and outside. Cubic spline interpolation passes through the data, is a cubic per interval with continuous slope and curvature, has no curvature at the ends and continues as a straight line. Integrals over the whole or any part of the range, hinted or not, of points or bins, and cumulated integrals equal the exact area under that function; strict variants return the default outside, and mismatched or too small input is rejected.',
     ['inputs'], 'every increasing (irregular) grid, every data, every position and integration range, including ranges inside one interval and ending at nodes',
     'tests evaluate a handful of interior points on regular grids',
     [M + 'interpolate.hpp', M + 'reduce.hpp'], [('interval lookup and formula', M + 'interpolate.hpp'), ('range integrals', M + 'reduce.hpp integrate / integrate_hinted')],
     'recorded values compared in fixed point with Interp.tla, which characterises the natural spline by its smoothness conditions; additivity of the integral is model-checked')
prop('C11', 'String functions return exactly the documented text',
     'For every string (or vector, matrix or view of strings, element by element): taking or erasing characters from either end, searching, replacing and splitting by a non-empty pattern, splitting by characters, cutting into pieces, joining, trimming, padding, changing case, measuring distance and extracting the n-th word give exactly the documented text; splitting then joining restores the string and no character is lost. Wrapping keeps every word, fills lines greedily and respects the width. Blocks and regular-expression matches are found from left to right without overlap, passed to the function with their components, and only they are replaced. Absent prefixes, missing words, unterminated blocks and invalid expressions are rejected.',
     ['inputs'], 'every string, pattern, width, count and regular expression made of repeated character sets, groups and anchors',
     'tests use one or two sentences per function; errors hide in overlapping patterns, patterns at the ends, empty pieces and several blocks in one string',
     [T + 'string-base.hpp', T + 'string-split.hpp', T + 'string-find-replace.hpp', T + 'string-format.hpp', T + 'string-regex.hpp'],
     [('split, cut, wrap, collapse', T + 'string-split.hpp'), ('find, replace, trim, words, blocks', T + 'string-find-replace.hpp'), ('matching', T + 'string-regex.hpp')],
     'recorded results compared with Str.tla, which defines matching, wrapping and blocks from scratch; inverse laws model-checked on all short strings. Empty separators and regular expressions that match the empty string are unspecified')
prop('C12', 'Numbers survive conversion to and from text',
     'Integers are written in plain decimal, booleans as 0 or 1, and real numbers rounded to the requested significant digits (six by default) or decimals, in general, scientific or fixed notation; vectors as the list of their elements, or one string per element with the same shape. Reading accepts exactly the decimal numbers (blanks around allowed, and the names of not-a-number and infinities for real types) that fit the type, gives their value, and reports failure for anything else, element by element for vectors. Writing a real number with enough digits and reading it back gives the same bits.',
     ['inputs'], 'every number, notation and precision, every string given to every numeric type, vectors included',
     'tests print a few values; rounding that carries, exponents at the switch of notation, type limits and malformed text are not sampled',
     [V + 'core/string_conversion.hpp'], [('to_string, format tags, from_string', V + 'core/string_conversion.hpp')],
     'texts compared with Conv.tla, a digit-level model of decimal formatting and reading whose round trip is model-checked for all small numbers. Negative text given to unsigned types is unspecified')
prop('C13', 'Text tables are written and read back cell by cell',
     'Writing any set of columns (numbers, strings, matrices, interleaved groups, formatted numbers) in any layout produces one line per row, with every cell in its column, padded to the width of the layout, separated by the delimiter, after the header if there is one; columns or headers that do not match are rejected. Reading any text file gives each requested column the value of its field in every data line, whatever the line endings, blank lines, comments, skipped lines, ignored columns, grouped columns, additional fields and kind of delimiter (empty fields included); missing files, missing fields and text that is not a value of the type are rejected.',
     ['inputs', 'configurations'], 'every table, file content and layout option',
     'tests write one table and read a few well-formed files with default options',
     [V + 'io/ascii.hpp'], [('line splitting and conversion', V + 'io/ascii.hpp read_table'), ('column layout', V + 'io/ascii.hpp write_table')],
     'files compared byte by byte, and values read cell by cell, with Ascii.tla (built on the text and number models of C11 and C12), whose write/read round trip is model-checked')
prop('C17', 'Files: copies, moves, removals, listings and paths do what they report',
     'For every history of creating directories, copying, moving, removing, reading and listing files: an operation that reports success has had exactly its effect on the directory tree (parents created, contents copied byte for byte, nothing else touched), one that reports failure has changed nothing, success is reported whenever the operation is possible (removing what does not exist succeeds), and a full disk or a file in the way is reported. Listings and explorers give each visible entry matching the pattern once, with its kind and size (not a directory, size zero, if it has gone in the meantime), also while entries come and go, and can be closed and opened again at any time. Path functions (base name, directory, extension, trailing slash, absolute) agree with each other for every path.',
     ['inputs', 'histories'], 'every history of file operations on every directory tree, and every path',
     'tests touch a couple of fixed files',
     [V + 'io/filesystem.hpp'], [('file operations', V + 'io/filesystem.hpp copy(), remove(), move(), mkdir()'), ('directory listing', V + 'io/filesystem.hpp explorer'), ('paths as text', V + 'io/filesystem.hpp get_basename(), get_directory()')],
     'operations run as an unprivileged user in a scratch directory, the tree listed independently after each and compared with the directory-tree model of Fs.tla')
prop('C18', 'Program arguments and environment set exactly the variables they name',
     'For every list of program arguments and every set of variables: a variable takes the value of the last argument written name=value, -name=value or --name=value (a bare name meaning 1; vectors as [a,b,c] or a single value; blanks and quotes around values ignored), whatever the other arguments are; an argument that cannot be converted leaves its variable as it was and does not affect the others; arguments that name no variable are reported, each once, and no others; the arguments written back (serialize, write, merge) give the same values when read again. Environment variables likewise give their value when they exist and convert, and the default otherwise; commands report the success of the process.',
     ['inputs', 'histories'], 'every list of arguments, set of variables, and sequence of reads, writes and merges',
     'tests read no argument at all',
     [V + 'utility/argv.hpp', V + 'utility/os.hpp'], [('matching and conversion', V + 'utility/argv.hpp read_args_impl_(), read_args_()'), ('environment', V + 'utility/os.hpp system_var()')],
     'sessions on program_arguments objects replayed on the argument list model of Argv.tla (number texts from the model of C12); round trip, independence and ownership laws model-checked')
prop('C16', 'FITS headers as text: keys are found, set and parsed without disturbing others',
     'For every FITS header (a text of 80-character cards): getkey finds the first card of exactly that name and gives its value, strings without their quotes and with doubled quotes undone, whatever characters (slashes, quotes, equal signs) they contain, and reports absent or unconvertible values; setkey replaces or adds (before the END card) exactly one card of 80 characters whose name, value and comment read back the same, keeps the previous comment if none is given, leaves every other card as it was, and refuses without any change what does not fit; parsing a header gives every card once with its name, value and comment (strings continued over several cards joined), serialising it back says the same; filtering keeps exactly the coordinate-system cards, once each and in order.',
     ['inputs', 'histories'], 'every header and every history of setting, reading, parsing, serialising and filtering',
     'tests set and read one or two plain keys',
     [V + 'io/fits/base.hpp', V + 'astro/wcs.hpp'], [('getkey, setkey', V + 'io/fits/base.hpp getkey(), setkey()'), ('parse and serialise', V + 'io/fits/base.hpp parse_header(), serialize_header()'), ('filter', V + 'astro/wcs.hpp filter_wcs()')],
     'histories replayed on the card-sequence model of Hdr.tla (own definition of quoted values and continuation); set/get laws model-checked on all short histories')
prop('C23', 'Cross-matching finds the nearest neighbours',
     'For any two catalogues of positions (on the sky, whatever the right ascension convention, or on a plane) or one catalogue against itself, any requested number of neighbours, number of threads and search algorithm: each source gets its nearest sources of the other catalogue, nearest first, each once and never itself in a self-match, with their separations, and the missing ones are marked when the other catalogue is too small; the reverse match gives, for each source of the second catalogue, its nearest one in the first. Selecting the one-to-one pairs keeps exactly the sources that are each other\'s nearest and reports the others as lost. Saving and restoring a match gives it back. Invalid coordinates are rejected.',
     ['inputs', 'configurations'], 'every pair of catalogues, field geometry and set of options',
     'the repository has no test of cross-matching',
     [V + 'astro/qxmatch.hpp', V + 'astro/astro.hpp'], [('bucket search', V + 'astro/qxmatch.hpp qxmatch(), depth_cache'), ('one-to-one pairs', V + 'astro/qxmatch.hpp xmatch_clean_best()')],
     'results compared with the definition of nearest neighbours in Xmatch.tla (separations on the plane computed in the specification, on the sky measured by the driver); the ring-by-ring bucket search model-checked on all small catalogues. The distance of a missing neighbour, ties, and the reverse match of a self-match are unspecified')
prop('C24', 'Sky coordinates, photometric units and cosmological distances are consistent',
     'For all positions: the angular separation is the angle between the two directions, symmetric, whatever the right ascension convention, for one position or vectors of any shape; the "closer than" test agrees with it; normalising gives the same direction with coordinates in the standard ranges; small moves change the coordinates by the requested angle; rotations around the origin keep all separations, and rotating by minus the angle of a position brings it to the equator. Sexagesimal text (sign included, also for -0) is read as its value in degrees and anything else is reported; writing degrees as text gives two-digit minutes and seconds below 60 with that value. Flux, magnitude and luminosity conversions undo each other and have the documented zero points. Cosmological distances, times, sizes and volumes agree with the closed forms where these exist, increase with redshift, and are the same for vectors as for single values. Mismatching dimensions are rejected.',
     ['inputs'], 'every position, angle, text, flux and redshift, alone or in vectors',
     'one pair of coordinates is converted in the tests',
     [V + 'astro/astro.hpp'], [('separations', V + 'astro/astro.hpp angdist(), angdist_less()'), ('coordinates', V + 'astro/astro.hpp normalize_coordinates(), move_ra_dec(), angrot_vernal()'), ('text', V + 'astro/astro.hpp sex2deg(), deg2sex()'), ('units, cosmology', V + 'astro/astro.hpp uJy2mag(), lumdist()')],
     'results compared with Sky.tla in integer units of 2 mas (separations exact on meridians, equator and poles, elsewhere measured by the driver from the directions; own reading of the text). move_ra_dec() is checked where the cosine of the declination is rational; infinite coordinates are unspecified')
prop('C25', 'Image operations move, resample, filter and segment exactly the right pixels',
     'For all images, also empty, with one row or column, not square, and for all amounts: enlarging, shrinking, cutting a region, flipping, shifting (periodically), translating and recentring put each pixel at its new place and the default value where there is none; fractional translation, scaling and rotation by quarter turns interpolate bilinearly inside the image and give the default outside; a circular mask holds the covered fraction of the pixel corners and the radial profile is the mean over such rings; inflating a mask reaches exactly the pixels within the distance. Convolution (direct, by Fourier transform, with a prepared kernel, through an object used for several images, periodic or not) centres the kernel on each pixel and preserves the normalisation; boxcar filters see each pixel of the box once. Segmentation gives one identifier to each group of pixels that touch by a side, drops those below the minimum area, and its list of areas, origins and centres describes that map; visiting segments gives each of their pixels once; deblended segments are connected with areas and fluxes that match; growing segments attributes each pixel to the segment pixel of its distance map. Even kernels and a first identifier of zero are reported.',
     ['inputs'], 'every image size and content, shift, region, kernel and mask',
     'the tests have no image operation beyond a few fixed cases',
     [V + 'astro/image.hpp', V + 'math/fourier.hpp'], [('geometry', V + 'astro/image.hpp enlarge(), shrink(), subregion(), shift(), translate(), recenter()'), ('filters', V + 'astro/image.hpp convolve2d(), convolver2d, boxcar(), mask_inflate()'), ('segmentation', V + 'astro/image.hpp segment(), foreach_segment(), segment_deblend(), segment_distance()')],
     'results compared with Image.tla on small images of integers (values between pixels in sixteenths). Not covered: bicubic variants, transition kernels, the last row and column when interpolating, kernels of even size with the FFT, periodic kernels larger than the image, empty images in convolutions, reversed regions')
prop('C26', 'Matrix algebra, linear systems, least squares and FFT satisfy their equations',
     'For all matrices of compatible sizes, owned or wrapped around a vector: sums, products with matrices and vectors, transposes, diagonals, identity, scaling, rotation and translation matrices are those of linear algebra, and incompatible sizes are rejected. With or without LAPACK: the determinant is right; inverting or solving a regular system, by whichever function or decomposition (LU with or without pivoting, Cholesky, symmetric, in place), succeeds and satisfies the equation, and one with a null row or column reports failure, also when an object is used for several systems; Cholesky, singular value and eigenvalue decompositions multiply back to the matrix, with ordered values and orthonormal vectors. Linear fits (single, packed, batch with models replaced in between) give the weighted least-squares solution with its covariance and chi2 or report failure when a model is null; non-negative fits give non-negative parameters and do not end worse than they start; mpfit reaches the best parameters within the limits, leaves frozen ones alone and gives their errors; BFGS reaches the minimum. Fourier transforms are the sum of their definition, and the inverse undoes the real one.',
     ['inputs', 'configurations'], 'every matrix, right-hand side, data, set of limits and number of models',
     'tests invert and solve a few fixed matrices, and the build has a single LAPACK setting',
     [V + 'math/matrix.hpp', V + 'math/linfit.hpp', V + 'math/mpfit.hpp', V + 'math/optimize.hpp', V + 'math/fourier.hpp'], [('matrices and decompositions', V + 'math/matrix.hpp decompose_lu, decompose_cholesky, solve(), invert()'), ('least squares', V + 'math/linfit.hpp linfit_do_(), linfit_batch_t'), ('constrained minimisation', V + 'math/mpfit.hpp mpfit()')],
     'recorded results on integer matrices checked against LinAlg.tla (exact fractions by determinants and adjugates, optimality conditions for fits with limits), whose laws are model-checked over all small matrices; two drivers, with LAPACK and without. Singular matrices without a null row, indefinite matrices with a null leading minor, starting points outside of the limits, the optimum of non-negative fits with several models and relative derivative steps at zero are unspecified')
prop('C27', 'Convex hulls, field areas and region masks contain exactly the right points',
     'For any set of points (none, one, aligned, duplicated, of integer or real coordinates) the convex hull is the closed counter-clockwise polygon of the extreme points. For any closed convex polygon, however oriented, wherever it starts and also with vertices along its sides, or modified in between: a point is inside exactly when it is on the inner side of all edges, borders included, and the signed distance is the distance to the nearest edge, positive inside; polygons that are open, too small or inconsistent are rejected. The area of a field is that of its hull on the sphere (zero for fewer than three or aligned sources, never an error), and that of the occupied cells for uniform fields. Reading a region file gives exactly the circles and boxes with well-formed parameters, in the coordinate system, colour and text in force at that line; writing regions and reading them back gives them again; masks get exactly the pixels covered by the regions and keep those already set.',
     ['inputs', 'histories'], 'every set of points, polygon, region file and mask',
     'the tests build a few hulls of random points',
     [V + 'math/convex_hull.hpp', V + 'astro/astro.hpp', V + 'astro/ds9.hpp'], [('hulls', V + 'math/convex_hull.hpp build_convex_hull(), in_convex_hull(), convex_hull_distance()'), ('areas', V + 'astro/astro.hpp field_area_hull(), field_area_h2d()'), ('regions', V + 'astro/ds9.hpp read_regions(), mask_region(), write_regions_physical()')],
     'recorded results compared with the definitions of Hull.tla on integer coordinates; the monotone chain is model-checked over all small sets of points, membership against triangles of the points. Unspecified: membership in flat hulls, pixels on the border of rotated boxes, fields across the origin of right ascension, text with blanks, whether colours and texts are written')
prop('C28', 'World coordinates follow the header, whatever the order and number of axes',
     'For any valid header (images and cubes, right ascension before or after declination, other axes before, between or after them, scale given by CDELT and PC or by CD, units spelled in any accepted form, with keywords in any order) pixel positions convert to the sky positions the header describes and back to themselves, for scalars and vectors of any numeric types and shapes, also after moving the object; pixel size and rotation are those of the header; positions along other axes are given in the unit asked, and units that do not suit the axis, or axes that do not exist, are errors. Headers without coordinates give an invalid object, and using it is an error. Headers made from simple parameters hold exactly the parameters given (the last value of each), or are left untouched if any parameter is malformed. Regions converted to the sky and back, in memory or through files, are the same regions.',
     ['inputs', 'histories'], 'every header, position, axis and unit',
     'the tests convert a few positions with one header',
     [V + 'astro/wcs.hpp', V + 'astro/ds9.hpp'], [('coordinates', V + 'astro/wcs.hpp ad2xy(), xy2ad(), wcs, get_pixel_size(), get_image_rotation()'), ('axes', V + 'astro/wcs.hpp x2w(), w2x(), build_axis(), valid_unit()'), ('headers', V + 'astro/wcs.hpp make_wcs_header()'), ('regions', V + 'astro/ds9.hpp physical_to_wcs(), wcs_to_physical(), write_regions_wcs()')],
     'recorded results compared with the definitions of Wcs.tla in integers (gnomonic projection near its reference at declinations 0 and +-60, 3-4-5 rotations and reflections); the definitions are model-checked (invertible, isometric, consistent axes). Unspecified: positions far from the reference, values along sky axes, units on axes of unknown kind, other projections and distortions')
prop('C29', 'Images put on another grid, cut out or stacked keep flux, position and identity',
     'Drizzling an image or a cube onto another grid, for any two grids (size, reference pixel, orientation, pixel size) and pixel fraction, shares the flux of each source pixel by the overlap of the areas, and the weight of each destination pixel is the covered fraction of it; interpolating gives at each destination pixel the value of the source image at that position on the sky, scaled by pixel area if flux is to be conserved, and not-a-number outside of the source. Cutouts hold the pixels around each source of the first images that cover it, the default value elsewhere, with a header that puts the source where it is. Stacks hold one cutout per kept source (of images with degenerate axes as well), with the index of the source, the offset to the pixel centre and the section it comes from, all in step, for single and sectioned images, with and without weights; means weigh as told, and bootstraps draw whole sources.',
     ['inputs', 'histories'], 'every pair of grids, image, list of sources and options',
     'no test covers these functions',
     [V + 'astro/wcs.hpp', V + 'astro/image.hpp', V + 'astro/qstack.hpp'], [('regridding', V + 'astro/wcs.hpp regrid_drizzle(), regrid_interpolate()'), ('cutouts', V + 'astro/image.hpp cutout_extractor; astro/wcs.hpp filter_wcs()'), ('stacking', V + 'astro/qstack.hpp qstack(), qstack_mean(), qstack_bootstrap()')],
     'recorded results compared with the definitions of Regrid.tla, in exact integers (pixels that are multiples of a unit, right-angled orientations, reference pixels in quarters); the definitions are model-checked (areas conserved, symmetric, identity on equal grids, interpolation between its neighbours, cutouts centred). Unspecified: NaN pixels in drizzling, ties and exact borders, cubic interpolation near borders, several images with a finite default value, distortions')
prop('C30', 'Random draws are reproducible and follow the requested distribution',
     'For any seed, shape and parameters: integers are drawn from the whole of the requested range, ends included and whatever its sign or size, and nothing else; uniform numbers lie in [0,1); normal ones, coins, weighted picks and numbers following a tabulated density follow their distribution, never give what has no chance, always give what is certain; neighbouring draws are unrelated. Vectors have the requested shape. Shuffling gives a permutation, every order as likely, in place or leaving the argument (also a view) untouched. The same calls from equal seeds give equal results, and a seed is advanced by every call.',
     ['inputs', 'histories'], 'every seed, range, shape and distribution, and every sequence of calls',
     'the tests look at one coin and one shuffle',
     [V + 'math/random.hpp'], [('draws', V + 'math/random.hpp randomu(), randomn(), randomi(), random_coin()'), ('densities', V + 'math/random.hpp random_pdf(), random_pdf_discrete()'), ('shuffling', V + 'math/random.hpp shuffle(), inplace_shuffle()')],
     'recorded draws compared with the chances defined in Random.tla (support exactly, frequencies of each value and of equal neighbours within 7 standard deviations); the definitions are model-checked (every value and order with the right chance, wrong chances noticed). Unspecified: which sequence a seed gives, scalar against vector draws')
prop('C31', 'Hashes of argument lists are stable and tell different values apart',
     'The hash of any list of arguments is a string of 40 lower-case hexadecimal digits, the SHA-1 digest of the arguments, for any length; it is the same for the same types and values, whether they are variables, constants or temporaries; lists that differ in a value (any digit of a number, any character), in a type, in the shape of a vector, in the order or number of arguments, or in the way texts are split between elements have different hashes.',
     ['inputs'], 'every list of arguments',
     'no test covers this function',
     [V + 'utility/bits/string-hash.hpp'], [('hash', V + 'utility/bits/string-hash.hpp hash(), impl::sha1::calc(); doc/sphinx/string-hash.rst')],
     'recorded hashes of lists of numbers compared with SHA-1 as specified in Sha1.tla (checked against the known answers of the standard and the documented examples), and equality of hashes against equality of arguments. Unspecified: the digest of texts and vectors, which depends on compiler names')

