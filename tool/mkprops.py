"""Source of properties.jsonl (kept as Python so that it stays readable)."""
import json, os
C = 'eisvogel/core/impl/'
P = []
def p(id, title, statement, over, text, why, files, mech, **k):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(k)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('P01', 'Stored metadata reads back exactly as it was written, in network byte order',
  'Every scalar, vector, array, string, map, coordinate vector, chunk description and Green\'s-function description that is written to a stream is read back, field by field and element by element, with the value that was written. Multi-byte numbers are stored in network byte order, and reading consumes exactly the bytes that writing produced.',
  ['inputs'], 'all values of every serialisable type, any container length',
  'The tests write a few arrays through one code path; a swapped field, a missed element at the internal block boundary or a native-order write is invisible to them.',
  [C + 'DefaultSerializationTraits.hxx', C + 'Serialization.hxx', C + 'DistributedNDVecArray.hxx', C + 'GreensFunction.hxx', C + 'Vector.hh'],
  [('pairs of serialize/deserialize specialisations', C + 'DefaultSerializationTraits.hxx'), ('chunk and Green\'s function metadata traits', C + 'DistributedNDVecArray.hxx, ' + C + 'GreensFunction.hxx')])
p('P02', 'Zero-run compression is lossless and stays within its buffer bound',
  'Encoding an array densely or with zero-run suppression and decoding the result yields the original elements at their original positions for every array content, including all-zero, no-zero and alternating content. The announced size of the output buffer is never smaller than what encoding writes, and decoding consumes exactly what encoding produced.',
  ['inputs'], 'all arrays, all placements of zero elements',
  'Tests compress a few random arrays; run boundaries at the first or last element and alternating patterns are sampled, not covered.',
  [C + 'NDVecArraySerialization.hh'], [('dense and null-suppressed encode/decode', C + 'NDVecArraySerialization.hh')])
p('P03', 'A streamed array carries what is needed to read it back in the same layout',
  'Writing an array or a view to a stream and reading it from the same position restores shape and every element for every array shape, piece size and encoding, wherever in the stream the array starts. Each stored piece is preceded by a header that states its encoding and its payload length, the reader interprets every encoding the writer can produce and places each piece in the region from which it was taken, and the stream position after reading is the end of the array. Piece sizes that are unlimited along every axis are refused, and neither writing nor reading leaves the buffer it uses.',
  ['inputs', 'configurations'], 'all array shapes, piece sizes and encodings',
  'Only one piece size/encoding per test; ragged last pieces, mixed encodings and header drift are not exercised.',
  [C + 'NDVecArrayStreamer.hxx', C + 'NDVecArrayStreamer.hh', C + 'NDVecArraySerialization.hh'],
  [('serialize / deserialize of arrays and of single pieces', C + 'NDVecArrayStreamer.hxx')])
p('P04', 'Appending to a stored array is all-or-nothing in its preconditions and complete',
  'Appending a slice to a stored array is refused, before anything is written, if the stored array was closed to modification, if the shapes do not match along every other axis, or if the stored pieces of array and slice would not line up (an axis before the appending one is divided into pieces, or the array ends with a partial piece). Otherwise the slice is added after the existing content, reading gives the concatenation, the stored shape is updated in place at the array\'s start position, and existing pieces and whatever is stored in front of the array are not touched. Closing an array changes nothing but its access mode.',
  ['inputs', 'histories'], 'all stored arrays, slices and axes, any sequence of appends',
  'Tests append compatible slices along one axis only; refused appends and the position at which metadata is rewritten are never looked at.',
  [C + 'NDVecArrayStreamer.hxx'], [('append_slice, mark_as_final, metadata header', C + 'NDVecArrayStreamer.hxx')])
p('P05', 'Unsaved chunk data never leaves the chunk cache without being written out',
  'Whenever a cached chunk with outstanding changes is displaced, flushed, moved, cleared, destroyed, or the cache operates without memory, the outstanding write or append is performed on the chunk\'s own file before its slot can be reused. A chunk with nothing outstanding is never written, and a chunk requested from the cache is brought fully up to date before it is handed out.',
  ['histories'], 'all sequences of register / append / retrieve / replace / remove / flush / move operations and all cache sizes',
  'A lost write needs a particular eviction at a particular moment of the history; tests run one or two histories with one cache size.',
  [C + 'DistributedNDVecArray.hxx', C + 'Cache.hxx'], [('chunk cache insert, evict, flush, synchronise', C + 'DistributedNDVecArray.hxx')])
p('P06', 'The bounded cache evicts least-recently-used first and never loses an entry',
  'A cache entry that is inserted can be looked up by its key until it is evicted, every lookup or insertion makes it the most recently used, and eviction from a full cache returns exactly the least recently used entry. The number of entries never exceeds the capacity, all entries stay reachable in recency order in both directions, and an evicted slot is the next one to be reused.',
  ['histories'], 'all sequences of cache operations, all capacities',
  'Recency-list corruption shows only after specific orders of hits, evictions and inserts that the tests do not produce.',
  [C + 'Cache.hxx', C + 'Cache.hh'], [('recency list relinking and key map', C + 'Cache.hxx')])
p('P07', 'Chunk updates in memory are combined with the correct stored data',
  'Replacing, appending to or re-reading a chunk acts on the chunk with that identity: a slice appended to a chunk ends up exactly once behind the content it was appended to, whichever of the states (not cached, cached in sync, cached unsaved, cached with pending appends along the same or another axis) the chunk is in, and the chunk\'s description grows by exactly the slice\'s extent. A removed chunk is gone from the cache and from disk, and no other chunk is affected. Slices whose shape does not match, and combinations that are not supported, are refused with an error before the description or the data changes.',
  ['histories', 'inputs'], 'all histories of appends to one chunk interleaved with evictions and reads',
  'Tests append along a single axis with one cache size; the state-dependent branches are mostly not taken.',
  [C + 'DistributedNDVecArray.hxx'], [('append, replace and retrieve in the chunk cache', C + 'DistributedNDVecArray.hxx')])
p('P08', 'Chunks get unique identities and fresh file names',
  'No two chunks that are part of the same array ever share an identity or a backing file, also after an index was saved and loaded again, rebuilt from disk, imported from another array, or after chunks were removed.',
  ['histories'], 'all sequences of register / import / reload / rebuild operations',
  'Needs a reload followed by new registrations; tests never continue to write into a reloaded array.',
  [C + 'DistributedNDVecArray.hxx'], [('identity counter and file naming in the chunk index', C + 'DistributedNDVecArray.hxx')])
p('P09', 'The chunk index describes the chunks that exist and survives a reload',
  'The reported start and end of a distributed array always equal the bounding region of its current chunks, and the reported shape its extent (or zero while the chunks leave gaps in it), for any sequence of registering, growing, removing, importing and axis swapping. Saving the index and loading it again yields the same set of chunk descriptions, and swapping two axes swaps them in every per-axis quantity of every chunk description.',
  ['histories', 'inputs'], 'all sequences of index operations, any number of chunks and dimensions',
  'Stale cached bounds show up only for particular operation orders; the tests query the shape at one point.',
  [C + 'DistributedNDVecArray.hxx', C + 'DistributedNDVecArray.hh'], [('chunk index bookkeeping', C + 'DistributedNDVecArray.hxx')])
p('P10', 'Spatial index boxes always enclose what lies below them',
  'After any sequence of insertions or rebuilds, the bounding box stored for every node of the spatial index encloses the boxes of all its children, every inserted element remains reachable from the root exactly once, and no node exceeds its capacity. Box union and growth never exclude previously covered points.',
  ['histories', 'inputs'], 'all insertion sequences and element extents',
  'Too-small boxes only matter for queries near the missing part; tests query a few random layouts.',
  [C + 'RStarTree.hxx', C + 'RStarTree.hh'], [('insert, split, reinsert, rebuild, bounding-box update', C + 'RStarTree.hxx')])
p('P11', 'Spatial queries return every element they should, also on an empty index',
  'A point query returns an element containing the point if and only if one exists; a region query returns all elements that overlap the region and no others. Queries and rebuilds on an empty index are well defined and return nothing.',
  ['inputs', 'histories'], 'all query points/regions, all index contents',
  'Off-by-one containment and pruning errors depend on touching or degenerate boxes that random tests rarely produce.',
  [C + 'RStarTree.hxx'], [('search by point and region, containment and overlap predicates', C + 'RStarTree.hxx')])
p('P12', 'No reference into a growing pool is used after the pool may have grown',
  'References to nodes, entries, cache slots or chunk descriptions that live in growable storage are not used after an operation that may have grown or reordered that storage. Slots handed out by the pool are distinct from all slots in use, and a freed slot is returned to the pool exactly once.',
  ['histories'], 'all insertion sequences, in particular those that cross a growth boundary',
  'Dangling references work by accident unless the reallocation happens at exactly that point and memory is reused.',
  [C + 'RStarTree.hxx', C + 'RStarTree.hh'], [('memory pool allocation and growth, index structures built on it', C + 'RStarTree.hxx')])
p('P13', 'Rebuilding or moving a chunked array never destroys the only copy of data',
  'Rechunking, moving, importing and deleting only remove or overwrite files of the original array after every chunk of the replacement has been written out completely. Files that are not part of the array are left alone.',
  ['histories', 'inputs'], 'all rebuild / move / import / delete operations and chunk layouts',
  'The order of writing and deleting is invisible in a test that looks only at the final result of a successful run.',
  [C + 'DistributedNDVecArray.hxx'], [('rebuild, move, import, clear, delete', C + 'DistributedNDVecArray.hxx')])
p('P14', 'Regions copied out of or rebuilt from chunks land where they came from',
  'Filling an array from a region of a distributed array, and rechunking, put every element of the requested region at the position that corresponds to its global index, whatever the chunk layout, the position of the region, the chunk kinds involved and the overlap. Elements outside the chunks keep their value when an array is filled and are zero or supplied by the boundary rule when chunks are rebuilt, and nothing outside the requested region is touched.',
  ['inputs', 'configurations'], 'all regions, chunk layouts, overlaps and chunk kinds',
  'Offset errors cancel when regions start at the origin or coincide with chunk borders, which is what the tests use.',
  [C + 'DistributedNDVecArray.hxx', C + 'NDVecArray.hxx'], [('region mapping between global, chunk-local and destination indices', C + 'DistributedNDVecArray.hxx')])
p('P15', 'Signal contributions add up, and are proportional to charge',
  'Adding the signal of a current segment changes only the requested signal samples, adds to what they already contain, and is proportional to the charge and to the length of the segment. Splitting a segment in two collinear segments or adding segments in any order gives the sum of their contributions (up to rounding), and no contribution is added before the Green\'s function starts.',
  ['inputs', 'histories'], 'all segments, sampling windows, Green\'s function contents and orders of accumulation',
  'The physics tests accumulate a fixed trajectory into one zeroed buffer.',
  [C + 'GreensFunction.hxx', C + 'SignalCalculator.hxx'], [('inner-product accumulation', C + 'GreensFunction.hxx')])
p('P16', 'Every output sample takes its own value whatever kind of chunk serves it',
  'When Green\'s-function samples are evaluated at a run of times, sample number k always corresponds to time start + k times step, irrespective of how many chunks the run crosses and of whether chunks are stored or all-zero. Locations for which no chunk exists are treated by the selected out-of-bounds policy (ignored or reported), never by using absent data, and stencil accesses never leave the data a chunk provides including its overlap.',
  ['inputs', 'configurations'], 'all sampling windows, chunk layouts and chunk kinds',
  'Needs a zero chunk or a hole in the middle of a run of samples; tests never produce one.',
  [C + 'GreensFunction.hxx'], [('sample walk over chunks', C + 'GreensFunction.hxx')])
p('P17', 'Interpolation kernels reproduce sampled and constant data exactly',
  'For every fractional position the weights of each interpolation kernel sum to one, reproduce the sampled value exactly at the sample positions, and the linear and cubic kernels reproduce linear functions. The support that a kernel declares covers every index with non-zero weight.',
  ['inputs'], 'all fractional positions in [0, 1)',
  'Tests compare interpolation results with a tolerance on smooth data at sampled positions.',
  [C + 'Interpolation.hxx', C + 'Interpolation.hh'], [('kernel weights and support', C + 'Interpolation.hxx')])
p('P18', 'Interpolation evaluates the full stencil around the requested position',
  'An interpolated value is the sum over all stencil points of sample value times the product of the per-axis kernel weights, with each weight belonging to the offset of its stencil point, for any dimensionality and for every position in a run of equidistant positions. One value is produced per requested position. The contributions are added to the output buffer, so every caller hands over a buffer that holds zeros.',
  ['inputs'], 'all positions, array contents and dimensionalities',
  'Smooth symmetric test data hide swapped axes, and a reused output buffer is not tested.',
  [C + 'Interpolation.hxx', C + 'NDVecArray.hxx'], [('interpolate', C + 'Interpolation.hxx')])
p('P19', 'Trapezoidal quadrature weights integrate linear functions exactly',
  'The weights used to integrate along a track are one for interior samples and one half for the two end samples, for every number of samples from two upwards, so that sums weighted with them times the step are exact for linear integrands.',
  ['inputs'], 'all sample counts', 'One sample count is used by the physics tests with loose tolerance.',
  [C + 'Quadrature.hh', C + 'GreensFunction.hxx'], [('weight filling', C + 'Quadrature.hh')])
p('P20', 'Named coordinates always address the component of that name',
  'Accessing or assigning x, y, z, r or t of a position, field, or index, in any storage order, reads or writes the component at the place that the constructors, the views and the axis order of that type use. Converting Cartesian to cylindrical coordinates gives the distance from the axis as r and leaves z and t unchanged, and the projection of a vector keeps its z component and its component along r.',
  ['inputs'], 'all values of every vector type',
  'A transposed accessor cancels against the same transposition elsewhere for symmetric tests.',
  [C + 'Vector.hh', C + 'VectorView.hh', C + 'GreensFunction.hxx'], [('component accessors, coordinate conversions', C + 'Vector.hh')])
p('P21', 'Vector arithmetic is element-wise and exact in its operands',
  'Addition, subtraction, multiplication, division, scalar variants, compound assignments, comparisons, minimum, maximum, inner product, length, rounding and volume of fixed-length vectors act on every component with the operator of that name and leave their other operands unchanged.',
  ['inputs'], 'all vectors of all lengths and element types',
  'Only some operators are used by the tests, and many combinations (views, scalars on the left, compound forms) are never called.',
  [C + 'Vector.hh', C + 'Vector.hxx'], [('vector operators and utilities', C + 'Vector.hh')])
p('P22', 'Array copies are faithful and independent',
  'Copying or assigning a (non-empty) in-memory array or a region view of it yields an array with the same shape and the same element at every index, which shares no storage with the source unless a view was asked for. Operations that would change shape or storage of a view are refused, and concatenation puts the elements of the second array behind those of the first along the chosen axis. Copying a region of one array into another writes every element of that region to its shifted (for the axis-swapping copy: swapped) position in the destination and nothing else.',
  ['inputs', 'histories'], 'all shapes, regions and axes', 'Tests copy whole small arrays; views, partial regions and all axes are not covered.',
  [C + 'NDVecArray.hh', C + 'NDVecArray.hxx'], [('copy, assignment, view, append', C + 'NDVecArray.hxx')])
p('P23', 'Every index maps to its own storage location',
  'Distinct in-range indices of an array address distinct elements inside the storage, which is filled in row-major order without gaps and has room for exactly the elements of the array, a region view addresses the same elements as the parent array shifted by the region start, and bounds-checked accesses reject exactly the out-of-range indices. The loops over an array or a region of it hand every element together with its own index to the worker, exactly once, and the null tests are true exactly when every component of the element, or of all elements, is zero.',
  ['inputs'], 'all shapes, regions, indices', 'A finite set of shapes is tested.',
  [C + 'NDVecArray.hh', C + 'NDVecArray.hxx'], [('stride computation, flat index, views', C + 'NDVecArray.hxx')])
p('P24', 'Index iteration visits every index of a region exactly once',
  'Looping over a region calls the worker exactly once for every index from start (inclusive) to end (exclusive) in every dimension, and not at all for an empty region. Looping over pieces covers the region with disjoint boxes of at most the requested size that end at the region end.',
  ['inputs'], 'all regions and piece sizes in all dimensionalities', 'Only a few regions are iterated by tests.',
  [C + 'IteratorUtils.hh', C + 'NDVecArray.hxx'], [('index loops', C + 'IteratorUtils.hh')])
p('P25', 'A current segment with non-increasing times is refused',
  'A line current segment can only be created with an end time that lies strictly after its start time; every other combination is reported as an error. The accepted segment keeps positions, times and charge as given.',
  ['inputs'], 'all pairs of times', 'No test passes bad times.', [C + 'Current.hxx', 'eisvogel/core/Current.hh'], [('segment constructor', C + 'Current.hxx')])
p('P26', 'Downsampling keeps exactly the elements on the coarse grid',
  'Downsampling a non-empty array with a start offset and a factor per axis copies exactly those elements whose global index is a multiple of the factor counted from the origin of the grid, each to its coarse position, and the announced shape and start position match the elements copied.',
  ['inputs'], 'all shapes, offsets and factors', 'Tests use a few factors with aligned starts.',
  [C + 'NDVecArrayOperations.hxx'], [('downsampling', C + 'NDVecArrayOperations.hxx')])
p('P27', 'The cylindrical-symmetry boundary mirrors the field across the axis',
  'A value requested at negative radius is the value that the chunk stores at the mirrored positive radius and the same z and t, all components unchanged; every other element outside the stored region is zero and its evaluation does not abort. Reads stay inside the chunk that is mirrored, and the chunk itself is not modified.',
  ['inputs'], 'all indices outside the stored region', 'Only positions near the axis are exercised.',
  [C + 'Symmetry.hxx', C + 'Symmetry.hh'], [('boundary evaluator', C + 'Symmetry.hxx')])
p('P28', 'The analytic dipole Green\'s function is causal and covers the requested region',
  'The analytic Green\'s function is zero before the light-travel time from the antenna to the observation point in the given medium, scales inversely with distance in its radiation part, and is stored on a grid whose spacing and extent honour the requested coverage and sampling. Grid sample positions used for evaluation correspond to the coordinates under which the samples are later looked up.',
  ['inputs', 'configurations'], 'all media, distances, sampling choices', 'One configuration is tested.',
  [C + 'AnalyticGreensFunctionCalculator.hxx'], [('sample evaluation and chunk grid', C + 'AnalyticGreensFunctionCalculator.hxx')])
p('P29', 'A shower current follows the requested profile, direction and scaling',
  'The track of a shower starts at its start position and moves at the speed of light along the direction given by its zenith and azimuth angles; sample k is taken at time k times the step. The charge of a sample is the profile, linearly interpolated at the traversed depth (density times path length; before the first profile point the first value), times the scaling of the shower, and the track ends where the traversed depth reaches the last profile point. Segment k of the current joins samples k and k+1. A shower is created from the stored profile kind and the stored energy closest to the requested one, scaled with the ratio of the energies; a requested profile number selects exactly that profile, a drawn one is a stored one, and numbers outside the stored range are refused. Profiles are read from the file in file order, and nothing is registered at its end.',
  ['inputs', 'configurations'], 'all showers, profiles, angles and profile files', 'No test covers the shower code.',
  ['extern/shower_profile/shower_1D/shower_1D.cpp', 'extern/shower_profile/shower_creator/shower_creator.cpp'], [('profile sampling', 'extern/shower_profile/shower_1D/shower_1D.cpp')])
p('P30', 'The signal calculators pass requests through unchanged',
  'The signal calculator front ends evaluate exactly the segment, start time, sampling interval and number of samples they are given on the Green\'s function they were opened with, and accumulate into the buffer of the caller.',
  ['inputs'], 'all requests', 'The front ends are exercised with one setup.',
  [C + 'SignalCalculator.hxx', 'extern/corsika/impl/C8SignalCalculator.hxx'], [('forwarding', C + 'SignalCalculator.hxx')])
p('P31', 'Text written into fixed-size buffers fits',
  'Every C-string that a library call writes into a local buffer, including its terminating zero, fits into that buffer for every value it can have.',
  ['inputs'], 'all call sites that fill fixed-size buffers', 'The overflow is one byte and silent.',
  [C + 'DistributedNDVecArray.hxx', 'extern/shower_profile'], [('calls that fill local character buffers', C + 'DistributedNDVecArray.hxx')])
p('P32', 'Exported signals list every sample with its own time',
  'Exporting a signal writes one line per sample, in order, with the sample\'s own time and value, for any number of samples, and refuses or never reads beyond mismatching inputs.',
  ['inputs'], 'all signal lengths', 'No test exports.', [C + 'SignalExport.hxx'], [('export', C + 'SignalExport.hxx')])
p('P33', 'Special functions are accurate on their whole domain',
  'The incomplete gamma function used for analytic results is numerically accurate for every positive argument.',
  ['inputs'], 'all real arguments', 'Only a few arguments are reached.', [C + 'MathUtils.hxx'], [('series and continued fraction', C + 'MathUtils.hxx')])
p('P34', 'Separate arrays, Green\'s functions and calculators share no mutable state',
  'The library keeps no mutable state outside of the objects it hands out: no writable global, static member or function-local static (unless thread-local or synchronised), and no change of settings of the whole process such as the current directory or the locale. Objects of one\'s own can therefore be used from different threads at the same time, and what one object does never influences the results of another.',
  ['schedules', 'histories'], 'all interleavings of threads that use separate objects', 'Tests are single-threaded.', [C + 'GreensFunction.hxx', C + 'NDVecArrayStreamer.hxx', C + 'DistributedNDVecArray.hxx', C + 'Interpolation.hxx'], [('no objects with static storage duration that change', C + 'GreensFunction.hxx'), ('buffers belong to the object that uses them', C + 'NDVecArrayStreamer.hxx')])
p('P35', 'Stored arrays survive a crash at any point of an update',
  'After a crash during an update the array on disk is either the old or the new one.',
  ['crash_points'], 'every crash point', 'Tests never crash.', [C + 'DistributedNDVecArray.hxx'], [('in-place update of index and chunk files', C + 'DistributedNDVecArray.hxx')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
    assert all(len(x['title']) <= 90 for x in P), [x['title'] for x in P if len(x['title']) > 80]
    for x in P:
        if len(x['title']) > 80: print(len(x['title']), x['id'], x['title'])
