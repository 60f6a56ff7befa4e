import json
import os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
ST='graphrox-rs/src/graph/standard.rs'; CO='graphrox-rs/src/graph/compressed.rs'; AM='graphrox-rs/src/matrix/csr_adjacency_matrix.rs'; SM='graphrox-rs/src/matrix/csr_square_matrix.rs'; UT='graphrox-rs/src/util/mod.rs'; TR='graphrox-rs/src/graph/mod.rs'
C='graphrox-c/src/lib.rs'; H='graphrox-c/gphrx.h'; PY='graphrox-py/graphrox/__init__.py'; SC='scripts/generate_graph.py'
p('P01','A graph always equals the edge set its history of edits describes',
 'After any sequence of adding vertices (with or without edges), adding edges and deleting edges, starting from an empty graph or from one obtained from a matrix, bytes, decompression or approximation, a graph holds exactly the edges that were added and not deleted since, each once. Every view agrees on that set: edge existence, edge count, iteration, in- and out-edge lists and in- and out-degrees. The vertex count is one more than the highest vertex ID ever mentioned by an addition, and never shrinks or grows through deletions or queries.',
 ['histories','inputs'],'all edit histories over all vertex IDs below 2^64-1, directed and undirected, all starting points',
 'The unit tests replay about a dozen short fixed histories on IDs below 1,000; deletions followed by re-additions, emptied columns, self loops and far-apart IDs are hardly reached.',
 [ST,AM,TR],[('add_vertex/add_edge/delete_edge update the column table and counters',ST),('set_entry/zero_entry keep entry_count and dimension',AM),('iterator skips emptied columns',AM)],
 ['graphrox::Graph public API'],[dict(name='edges_table',meaning='column -> set of rows',where=AM),dict(name='entry_count',meaning='cached number of edges',where=AM),dict(name='dimension',meaning='cached vertex count',where=AM)])
p('P02','Undirected graphs stay symmetric whatever produced them',
 'In every undirected graph, however it was obtained (edits, loading from bytes, conversion from a matrix, approximation, compression and decompression), an edge from x to y exists if and only if the edge from y to x exists, and in-edges equal out-edges for every vertex. Converting a matrix to an undirected graph succeeds exactly when the matrix is symmetric, and otherwise fails with an invalid-format error; a directed graph never gains reversed edges.',
 ['histories','inputs'],'all edit histories, all matrices, all derivation chains',
 'Tests check mirroring on a handful of edges and two matrices; symmetry after mixed deletes and through derived graphs is not sampled.',
 [ST,CO],[('mirrored set_entry/zero_entry when undirected',ST),('undirected_from scan',ST),('decompress re-adds edges in an undirected graph',CO)],['graphrox::Graph, CompressedGraph public API'])
p('P03','Copies and derived objects are independent, and queries change nothing',
 'Cloning a graph, compressed graph or matrix, also over an existing one, yields an equal object, and editing either of the two afterwards never shows in the other; the same holds for the source and the result of compressing, decompressing, approximating, average pooling and serialising. No query, conversion or serialisation changes what any later query on the same object returns, and repeating one gives the same answer.',
 ['histories'],'all interleavings of edits, copies, derivations and queries over several live objects',
 'Tests use one object at a time and never interleave edits of a copy with reads of the original.',
 [ST,CO,AM,SM],[('derived Clone over owned tables',AM),('&self receivers',TR)],['public API of the Rust crate'])
p('P04','Graphs survive serialisation and the byte format is fixed',
 'Serialising any graph and loading the bytes yields a graph with the same direction, vertex count and exact edge set, including isolated vertices. The bytes are always the version 1 big-endian layout: magic 0x7ae71ffd, version, vertex count (8 bytes), edge count (8 bytes), direction flag, zero weight flag, then one (from, to) pair of 8-byte IDs for each edge, with nothing missing or extra. Files written in this layout by earlier releases, such as the shipped sample graph, load to the graph they describe.',
 ['inputs','histories'],'all reachable graphs, any edit history before serialising, any order of the edges in the bytes',
 'Tests round-trip three small graphs and pin one byte string; large IDs, deleted edges, isolated trailing vertices and large edge counts are not covered.',
 [ST,'sample-graphs/ca-HepPh.gphrx'],[('to_bytes writer',ST),('TryFrom<&[u8]> reader',ST)],['Graph::to_bytes, Graph::try_from'])
p('P05','Loading a graph from arbitrary bytes is total, exact and bounded',
 'For any byte string, loading a graph either returns the invalid-format error or a graph that is exactly the one the bytes describe: header vertex count, edge count and direction, every listed edge and no other (mirrored when undirected), all edges within the vertex count. Wrong magic or version, unknown flags, wrong total length, edges outside the vertex count and edge counts that disagree with the header are all rejected. It never panics, and the memory it allocates is bounded by a constant multiple of the input length whatever the header claims.',
 ['inputs'],'all byte strings',
 'Tests try about ten hand-written corruptions; the space of malformed headers, truncations and inconsistent counts is unbounded.',
 [ST],[('header and length validation before the edge loop',ST),('edge bounds check',ST),('final edge count comparison',ST)],['Graph::try_from(&[u8])'])
p('P06','Compressed graphs survive serialisation and their byte format is fixed',
 'Serialising any compressed graph and loading the bytes yields one with the same direction, vertex count, edge count, compression level and matrix entries, and which decompresses to the same graph. The bytes are always the version 2 big-endian layout: magic 0x71ff7aed, version, block-matrix dimension, entry count, edge count, vertex count (8 bytes each), direction flag, compression level, then one (block bits, column, row) triple of 8-byte values for each non-zero block. Files of the older version 1 layout, such as the shipped samples, are rejected rather than misread.',
 ['inputs','histories'],'all graphs and compression levels, and all blocks with every bit pattern',
 'Tests round-trip a few small graphs; the full-block bit, vertex counts around multiples of eight, and huge IDs are rarely or never hit.',
 [CO,'sample-graphs/ca-AstroPh.cgphrx','sample-graphs/ca-HepPh.cgphrx'],[('to_bytes writer',CO),('TryFrom<&[u8]> reader',CO)],['CompressedGraph::to_bytes, CompressedGraph::try_from'])
p('P07','Loading a compressed graph from arbitrary bytes is total, exact and bounded',
 'For any byte string, loading a compressed graph either returns the invalid-format error or a compressed graph that is exactly the one the bytes describe, whose edge count, vertex count, edge queries and decompression all agree with each other. Wrong magic or version, unknown flags, levels outside 1..64, wrong total length, a dimension that does not fit the vertex count, zero, duplicate or out-of-range blocks, bits beyond the vertex count, a wrong edge count, and an undirected flag on asymmetric blocks are all rejected. It never panics, and its memory use is bounded by a constant multiple of the input length.',
 ['inputs'],'all byte strings',
 'Tests try a dozen hand-written corruptions one at a time; combinations, duplicates and boundary dimensions are not covered.',
 [CO],[('header validation',CO),('validate_compressed_entry_bounds',CO),('edge count comparison',CO)],['CompressedGraph::try_from(&[u8])'])
p('P08','Compression keeps exactly the blocks dense enough, bit for bit',
 'Compressing a graph at a level (clamped to 1..64) keeps an 8x8 block of the adjacency matrix if and only if it contains at least that many edges; a kept block is encoded exactly (bit 8*row+column set for each edge in the block) and every other block reads as zero. The result reports the graph\'s vertex count and direction, the clamped level, and as edge count the number of edges in the kept blocks.',
 ['inputs'],'all graphs, every block population from 0 to 64, all levels 0..255, vertex counts at and around multiples of eight',
 'Tests compress a few fixed graphs at a few levels; each (population, level) boundary and the 64th bit is a separate case the threshold arithmetic must get right.',
 [ST,CO,UT],[('threshold with floating-point slack',ST),('bit packing loop',ST),('clamp_compression_level',UT)],['Graph::compress, CompressedGraph queries'])
p('P09','Decompression restores exactly the edges a compressed graph holds',
 'Decompressing a compressed graph gives a graph with the same vertex count and direction whose edges are exactly those of the blocks that were kept; at compression level 1 this is the original graph. For every pair of vertices, asking the compressed graph whether the edge exists gives the same answer as asking the decompressed graph, and both report the same edge count. Decompressing and compressing again at the same level changes nothing.',
 ['inputs','histories'],'all graphs, all levels, all vertex pairs',
 'Tests compare a few small graphs; the identity must hold for every block position and bit.',
 [CO,ST],[('bit unpacking in decompress',CO),('bit lookup in does_edge_exist',CO)],['CompressedGraph::decompress, does_edge_exist, edge_count'])
p('P10','Average pooling reports the exact edge density of every block',
 'The average pool matrix of a graph for a block dimension b (treated as 1 when 0 and as the vertex count when larger) has dimension equal to the vertex count divided by b rounded up, and each entry equals the number of edges in that b x b block divided by b squared, with blocks at the border padded by zeros. Entries lie between 0 and 1, a completely full block is exactly 1, empty blocks are not stored, and the pool of an empty graph is empty.',
 ['inputs'],'all graphs and all block dimensions 0..2^64-1, including ones that do not divide the vertex count and ones whose square exceeds 64 bits',
 'Tests pool two small graphs with a few block sizes.',
 [ST,SM],[('block index division and counting',ST),('division by block area',ST),('minimum dimension',ST)],['Graph::find_avg_pool_matrix'])
p('P11','Approximation keeps exactly the blocks that reach the threshold',
 'Approximating a graph with block dimension b and threshold t gives a graph of the same direction with one vertex per block (vertex count divided by b, rounded up), having an edge exactly where the average of the block, as the average pool matrix reports it, is greater than or equal to t, where t is clamped to the range 10^-18..1. With b of 0 or 1, or at most one vertex, the result equals the original graph whatever the threshold; a b above the vertex count acts as the vertex count. Raising the threshold never adds edges.',
 ['inputs'],'all graphs, block dimensions and non-NaN thresholds, including thresholds exactly equal to a block average and thresholds outside the range',
 'Tests approximate a few graphs at a few thresholds; equality at the boundary and clamping are tested at single points.',
 [ST,UT],[('clamp_threshold',UT),('entry >= threshold',ST),('dimension via add_vertex',ST)],['Graph::approximate'])
p('P12','The adjacency matrix behaves as a set of coordinates',
 'After any sequence of setting and zeroing entries, an adjacency matrix reads 1 exactly at the coordinates last set to a non-zero value and 0 elsewhere; setting zero overwrites. Entry count, iteration, column and row vectors and column and row counts all describe that same set, each entry once, in whatever way an iteration is consumed. The dimension is one more than the largest coordinate ever passed to a set, and zeroing never changes it.',
 ['histories','inputs'],'all operation sequences over all coordinates below 2^64-1',
 'Tests use short fixed sequences and never overwrite an entry with zero.',
 [AM],[('set_entry/zero_entry',AM),('sparse vectors and counts',AM)],['CsrAdjacencyMatrix public API'])
p('P13','The square matrix behaves as a sparse map for every numeric type',
 'After any sequence of setting, zeroing and incrementing entries, a square matrix reads at each coordinate the last value written there plus later increments, and zero elsewhere, for every supported numeric type. Entry count and iteration, however it is consumed, describe exactly the non-zero entries, each once, including after overwrites with zero and increments that reach zero. The dimension is one more than the largest coordinate ever set or incremented, and zeroing never changes it.',
 ['histories','inputs'],'all operation sequences, coordinates below 2^64-1, all twelve numeric types, values whose increments do not overflow',
 'Tests exercise a few types with short sequences; overwriting with zero and increments through zero are not covered.',
 [SM,UT],[('set_entry/zero_entry/increment_entry',SM),('Numeric implementations',UT)],['CsrSquareMatrix<T> public API'])
p('P14','A graph\'s matrix text shows exactly its adjacency matrix',
 'The text of an adjacency matrix or graph has one line per to-vertex, separated by CR LF with no trailing separator, each of the form "[ a, b, ... ]" with one 0 or 1 per from-vertex, and a 1 exactly where the edge exists; a graph without vertices gives an empty text. It is a pure function of the edges and the vertex count.',
 ['inputs','histories'],'all graphs small enough to render, after any edit history',
 'Tests compare a few fixed strings up to dimension about ten.',
 [AM,ST],[('try_to_string',AM)],['Graph::matrix_string, CsrAdjacencyMatrix::try_to_string and Display'])
p('P15','Square-matrix text shows every entry aligned and to the asked precision',
 'The text of a square matrix has one line per row, separated by CR LF with no trailing separator, each of the form "[ a, b, ... ]", where every cell shows the value at that column and row rounded to the requested number of decimals (integers get that many zeros after the point, and no point when none are asked for), right-aligned to the width of the widest cell and no wider. This holds for every numeric type, sign, magnitude and number of decimals, for the default text (two decimals for fractional types, none for integers) and for a compressed graph\'s text; an empty matrix gives an empty text.',
 ['inputs'],'all matrices of finite values small enough to render, all numeric types, all decimal counts up to tens of thousands',
 'Tests print a few positive matrices; negative values, values that gain a digit by rounding, very large values and matrices without entries are not covered.',
 [SM,UT,CO],[('to_string_with_precision',SM),('Display',SM)],['CsrSquareMatrix::to_string_with_precision, Display, CompressedGraph::matrix_string'])
p('P16','Extreme IDs and sizes never panic and cost memory only per edge',
 'Every operation accepts every vertex ID, block dimension, compression level, threshold and coordinate, up to the largest 64-bit value, without panicking or overflowing, and leaves counters and contents consistent. Memory used by a graph, and by pooling, approximating, compressing, decompressing and serialising it, is proportional to the number of edges and never to the vertex count. Where a result cannot be represented in memory, such as the matrix text of a graph with billions of vertices, the operation returns the capacity error.',
 ['inputs','histories'],'all IDs and parameters up to 2^64-1, all sparse graphs of up to 2^64-1 vertices',
 'Tests reach one or two large IDs; a computation that overflows only for specific magnitudes goes unseen.',
 [ST,CO,AM,SM],[('checked_add on coordinates',AM),('checked size computations with try_reserve',AM),('sparse iteration',ST)],['public API of the Rust crate with a counting allocator'])
p('P17','The compressed-graph builder yields exactly the graph of its entries',
 'A compressed graph made with the builder reports the given direction and vertex count, the level clamped to 1..64, every added block at its coordinate and zero elsewhere, and an edge count equal to the total number of set bits, whether bit counts are supplied or computed. Each vertex pair has an edge exactly when the bit of its block is set, and serialising, loading and decompressing agree with that.',
 ['inputs','histories'],'all sequences of distinct in-range blocks with arbitrary bit patterns, all vertex counts and levels',
 'Tests build three fixed graphs.',
 [CO],[('CompressedGraphBuilder::new dimension arithmetic',CO),('add_compressed_matrix_entry',CO)],['builder::CompressedGraphBuilder'])
p('P18','The C interface behaves exactly as the model of the graph library',
 'For any sequence of calls through the published C header on live handles, every returned count, flag, list, text, byte buffer and matrix value is the one the same operations give on a set-of-edges model, every length out-parameter equals the number of items returned, and handles behave independently of each other. Null handles come back only where the documented operation fails.',
 ['histories','inputs'],'all call sequences over several live graph, compressed-graph and matrix handles, all 64-bit arguments',
 'The C tests call each function a few times with fixed arguments and check few results jointly.',
 [C,H],[('handle to reference conversion',C),('boxed slices with length out-parameters',C)],['libgraphrox.so through gphrx.h'])
p('P19','C memory ownership is exact: no leak, double free or overrun',
 'For any valid call sequence through the C interface, every handle, list, text and byte buffer returned stays valid and unchanged until it is released with its matching function, whatever happens to other objects, including release of the object it came from. Once all are released, no memory obtained by the library remains allocated; no call frees memory twice, frees memory it does not own, or writes or reads outside its own or the caller\'s buffers.',
 ['histories'],'all call and release orders over several live objects, including empty lists, zero-length inputs and failed loads',
 'Tests free what they use in one fixed order and cannot see leaks or overruns.',
 [C],[('Box::into_raw / Box::from_raw pairs',C),('CString::into_raw / from_raw',C)],['libgraphrox.so under an instrumented allocator and guard pages'])
p('P20','The C interface tolerates null in every argument',
 'Any C function given a null handle, a null release target, a null input array or buffer, or a null out-parameter returns normally: null handles give null, zero or false, length outputs are set to zero, a null array with a non-zero length changes nothing, and an omitted out-parameter does not change the result. No other live object is affected.',
 ['inputs','histories'],'every function, every combination of null arguments, interleaved with any history on live objects',
 'Tests cover a subset of the functions with one null at a time.',
 [C],[('as_ref/as_mut on raw pointers',C),('is_null guards',C)],['libgraphrox.so through gphrx.h'])
p('P21','C loading of arbitrary bytes sets the error flag exactly on failure',
 'For any byte buffer, the C load functions for graphs and compressed graphs either return a non-null handle to exactly the object the bytes describe and set the error output to 0, or return null and set it to the invalid-format code; the error output is overwritten either way. They never crash, never read outside the given buffer, never keep a reference to it, and leave no memory allocated after a failure.',
 ['inputs'],'all byte buffers and lengths, with and without an error output, at page boundaries',
 'Tests load one valid and one or two invalid buffers.',
 [C,ST,CO],[('gphrx_from_bytes, gphrx_compressed_graph_from_bytes',C)],['libgraphrox.so through gphrx.h'])
p('P22','The Python classes behave exactly as the model of the graph library',
 'For any sequence of method calls on Python graphs, compressed graphs and matrices, every returned count, boolean, list, text, number and byte string is the one the same operations give on a set-of-edges model, including for 64-bit vertex IDs. Duplicates, copies made by the copy module and derived objects equal their source and are independent of it.',
 ['histories','inputs'],'all method call sequences over several live objects, all vertex IDs below 2^64-1, all levels, block dimensions and thresholds',
 'The Python tests repeat a few fixed examples.',
 [PY],[('ctypes argument and result declarations',PY),('wrapper classes',PY)],['graphrox Python package on the real library'])
p('P23','Python result lists are faithful sequences',
 'Edge lists, neighbour lists and matrix entry lists report their length, support any number of independent and nested iterations, each of which can be iterated further from where it is, and indexing from the front gives the same items as iterating; index -k gives the k-th item from the end for k below the length, and an index at or past the length raises IndexError, as does every index into an empty list. Their contents are a snapshot: they stay valid and unchanged after later edits of the graph, and iterators and lists stay usable after every other reference to the list or its graph is dropped.',
 ['histories','inputs'],'all lists, indices, interleavings of iterators with edits, and deletion orders of the objects involved',
 'The Python tests index and iterate a few fixed lists and drop no references.',
 [PY],[('__getitem__/__iter__/__len__ of the list classes',PY),('iterator holds a list reference',PY)],['graphrox Python package with poisoning of released memory'])
p('P24','Python loading from bytes is exact and rejects bad bytes with ValueError',
 'For any bytes-like object, building a Python graph or compressed graph either gives exactly the object the bytes describe, independent of the source buffer, or raises ValueError; nothing else is raised and the process never crashes. Bytes produced by Python equal the documented format and load to an equal object, across the Python, C and Rust interfaces.',
 ['inputs'],'all bytes objects, valid, corrupted and arbitrary',
 'The Python tests only load valid bytes.',
 [PY],[('from_bytes error handling',PY),('__bytes__',PY)],['Graph.from_bytes, CompressedGraph.from_bytes, bytes()'])
p('P25','Python releases every native resource exactly once',
 'Whatever Python code does with graphs, compressed graphs, matrices, lists, texts and bytes, each native object is released exactly once, with the right function and length, after its last use, and once all Python references are gone nothing remains allocated. Failed constructions, copies and abandoned iterators do not leak or release twice.',
 ['histories'],'all creation, use, reference drop and garbage-collection orders, including failures in between',
 'The Python tests never observe native releases.',
 [PY],[('__del__ methods',PY),('explicit frees after copying texts and bytes',PY)],['every call crossing from Python into the native library'])
p('P26','The text converter keeps every listed edge and its checker tells the truth',
 'Converting an edge-list text file (comments, blank and malformed lines ignored) writes an undirected graph with one vertex per distinct ID in the file, numbered in increasing ID order, and exactly the listed edges between them. The accompanying validation reports a missing edge for a listed pair if and only if the graph file lacks it, and file compression writes exactly the compressed form of the graph.',
 ['inputs'],'all edge-list files with non-negative IDs, including IDs that appear only as targets, repeated pairs and self loops',
 'No test covers the scripts.',
 [SC],[('graph_from_text_file, validate_graph, compress_gphrx_file',SC)],['scripts/generate_graph.py run on generated files'])
p('P27','Values of the Rust crate can be shared and moved between threads',
 'Graphs, compressed graphs, matrices and builders can be sent to and shared between threads. Any number of threads may query, serialise, compress, pool, approximate, clone or load from the same value at the same time, each getting the answers it would get alone, and what a thread does to values of its own (clones and derived values included) shows in no other thread. A value handed from thread to thread behaves as if one thread had used it throughout, and no use of separate or only-read values can block threads on one another for good.',
 ['schedules','histories'],'all interleavings of any number of threads over shared read-only values and values of their own, and all ways to pass a value on',
 'The tests use one thread for one object; nothing ever runs two operations of the library at the same time.',
 [ST,CO,AM,SM,UT],[('no state outside the values: no statics, no interior mutability',TR),('owned hash tables in every value',AM)],['public API of the Rust crate from several threads'])
p('P28','The C interface can be called from several threads',
 'Several threads may call the C interface at once on handles of their own, and may call the functions that take a const handle on the same handle at once: every call returns what it would return alone, every length out-parameter belongs to its own call, and each returned list, text or buffer is owned by the caller alone. A handle passed from thread to thread behaves as if one thread had used it throughout, including being released by a thread other than its creator.',
 ['schedules','histories'],'all interleavings of calls by several threads on shared const handles and on handles of their own',
 'The C tests call each function from a single thread.',
 [C,H],[('lengths and results travel through arguments only',C),('each handle is its own heap object',C)],['libgraphrox.so through gphrx.h, from several threads'])
p('P29','Python threads can share graphs and use their own side by side',
 'Several Python threads may query the same graph, compressed graph, matrix or list at once, and create, change, convert and drop objects of their own, while native calls run outside the interpreter lock. Every answer is the one the thread would get alone, and native objects are still released exactly once, after their last use by any thread.',
 ['schedules','histories'],'all interleavings of Python threads over shared, only-read objects and objects of their own',
 'The Python tests run in one thread.',
 [PY,C],[('results and lengths held in locals of each call',PY),('native calls release the interpreter lock (ctypes)',PY)],['public API of the Python package from several threads'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
