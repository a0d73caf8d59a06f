"""Which harness, with which bounds, decides which property."""
PROPS = {}


def prop(pid, bounds, cases, outside="", assumptions=()):
    PROPS[pid] = dict(bounds=bounds, cases=cases, outside=outside, assumptions=list(assumptions))


def case(harness, fn, quick, thorough=None, covers=(), **kw):
    c = dict(harness=harness, fn=fn, covers=list(covers), **kw)
    if quick is not None:
        c["quick"] = quick
    c["thorough"] = thorough if thorough is not None else quick
    return c


OPS = "every sequence of add_edge / delete_edge / add_vertex (no list, empty list, one or two neighbours) on a new directed or undirected graph, all ids full 64-bit symbolic"
G3 = ["add_edge", "delete_edge", "add_vertex none"]
G6 = G3 + ["add_vertex one", "add_vertex two", "add_vertex empty"]


MANY = "; %d edges of fixed ids (four shapes, some removed again)%s"


def graph_cases(fn, fill, after, **more):
    return [case("graph", fn, dict(ops=2, **more), covers=G6),
            case("graph", fn, dict(ops=3, kinds=3), dict(ops=4, kinds=3), covers=G3),
            case("graph", fn, dict(fill=fill, ops=0), soft=True), case("graph", fn, dict(fill=after, ops=1, kinds=3), covers=G3, soft=True)]


prop("G01", OPS + "; 2 operations of all kinds and 3 of the first three (thorough: 4)" + MANY % (70, " and 10 before 1 operation of the first three"), graph_cases("h_edges", 70, 10, reserved=1))
prop("G02", OPS + "; 2 operations of all kinds and 3 of the first three (thorough: 4)" + MANY % (300, " and 18 before 1 operation of the first three"), graph_cases("h_counts", 300, 18))
prop("G03", OPS + "; 2 operations of all kinds and 3 of the first three (thorough: 4)" + MANY % (90, " and 10 before 1 operation of the first three"), graph_cases("h_symmetry", 90, 10))
prop("G04", OPS + "; 2 operations of all kinds and 3 of the first three (thorough: 4)" + MANY % (70, " (400 for three vertices) and 10 before 1 operation of the first three"), graph_cases("h_adjacency", 70, 10) + [case("graph", "h_adjacency", dict(fill=400, ops=0, known=1), soft=True)])
prop("G05", OPS + "; 2 operations of all kinds and 3 of the first three (thorough: 4)" + MANY % (300, " and 18 before 1 operation of the first three"), graph_cases("h_iter", 300, 18))
prop("G06", "1 operation (thorough: 2) of any kind on a new graph, clone, 1 further operation of any kind on either; ids full 64-bit symbolic" + MANY % (6, " cloned, with 1 operation of the first three after, and 200 with 1 operation on known vertices"),
     [case("graph", "h_clone", dict(ops=1), dict(ops=2), covers=G6), case("graph", "h_clone", dict(fill=6, ops=0, kinds=3), covers=G3, soft=True), case("graph", "h_clone", dict(fill=200, ops=0, known=1), soft=True)])
prop("B01", OPS + "; 2 operations of all kinds, 3 of the first three; graphs written, bytes compared with the layout and read back" + MANY % (70, ", and 400"),
     [case("bytes", "h_roundtrip", dict(fill=70, ops=0), soft=True), case("bytes", "h_roundtrip", dict(fill=400, ops=0, known=1), soft=True), case("bytes", "h_roundtrip", dict(ops=2), covers=G6), case("bytes", "h_roundtrip", dict(ops=3, kinds=3), dict(ops=4, kinds=3), covers=G3)])
prop("B02", "byte strings of every length 0..=60 with every byte arbitrary, and header plus 0..=2 edges (thorough: 3) with every field arbitrary and every direction byte; 20 edges of fixed ids with any one field replaced",
     [case("bytes", "h_parse_many", dict(edges=20), covers=["accepted", "rejected"], soft=True), case("bytes", "h_parse_any", dict(len=60), covers=["accepted", "rejected"]), case("bytes", "h_parse_edges", dict(edges=2), dict(edges=3), covers=["accepted", "rejected"])])
SIZES = ["no vertices", "fewer than eight vertices", "whole blocks", "partial blocks"]
prop("B03", "0..=1 blocks of any bits at any position (mirrored or diagonal ones for undirected graphs) in a graph of any vertex count and level, written, compared with the layout, and read back; 20 fixed blocks (40 mirrored ones) in a graph of any vertex count that holds them",
     [case("blocks", "h_many", dict(blocks=20), soft=True), case("blocks", "h_roundtrip", dict(blocks=1), dict(blocks=2), covers=["diagonal", "mirrored", "directed"])])
prop("B04", "byte strings of every length 0..=68 with every byte arbitrary, and header plus 0..=2 blocks with every field arbitrary; 12 fixed blocks (24 mirrored ones) with any one field replaced",
     [case("blocks", "h_parse_many", dict(blocks=12), covers=["accepted", "rejected"], soft=True), case("blocks", "h_parse_any", dict(len=68), dict(len=92), covers=["accepted", "rejected"]), case("blocks", "h_parse_blocks", dict(blocks=2), covers=["accepted", "rejected"])])
prop("C01", "2 edges anywhere in graphs of 0, 1, 2, 3, 5, 7, 8, 9 and 16 vertices (thorough: 17 sizes up to 24); a block pre-filled with 0, 1, 32, 63 or 64 edges with one edge added or removed anywhere in it; one edge between any two 64-bit ids; decompression of one or two edges of a block at any position; 70 fixed edges in three patterns",
     [case("comp", "h_lossless_many", dict(edges=70), soft=True), case("comp", "h_lossless", dict(edges=2), dict(edges=2, sizes=16), covers=SIZES), case("comp", "h_lossless_dense", dict(), covers=["nearly full block"]),
      case("comp", "h_lossless_far", dict(), dict(edges=2)), case("comp", "h_back", dict(), covers=["two edges"])])
prop("C02", "every level 0..=255: 2 edges anywhere in graphs of 0, 1, 2, 3, 5, 7, 8, 9 and 16 vertices (thorough: 17 sizes up to 24), and one edge between any two 64-bit ids; a block pre-filled with 0, 1, 32, 63 or 64 edges with one edge added or removed anywhere in it, at the four levels around its fill; 70 fixed edges in three patterns at every level",
     [case("comp", "h_level_many", dict(edges=70), soft=True), case("comp", "h_level", dict(edges=2), dict(edges=2, sizes=16), covers=SIZES), case("comp", "h_level_dense", dict(), covers=["nearly full block"]), case("comp", "h_level_far", dict(), dict(edges=2))])
prop("C03", "lookup and block access: 0..=2 blocks (thorough: 3) of arbitrary bits at arbitrary positions, every queried pair; decompression: one block (and its mirror image) at any position of a graph of any vertex count, with any one bit and one of 3 others (thorough: 6) set; 3 fixed blocks decompressed",
     [case("blocks", "h_many_back", dict(blocks=3), soft=True), case("blocks", "h_lookup", dict(blocks=2), dict(blocks=3)), case("blocks", "h_decompress", dict(others=3, orders=1), dict(others=6), covers=["directed", "undirected"])])
prop("C04", "0..=3 blocks (thorough: 5) of arbitrary bits at arbitrary distinct positions, inside or outside the graph, any vertex count and level",
     [case("blocks", "h_build", dict(blocks=3), dict(blocks=5))])
W = "every sequence of writes (any 8-bit value) and clears at any 64-bit positions on a new adjacency matrix"
prop("G07", "directed_from / undirected_from / undirected_from_unchecked of matrices left by " + W + "; 3 operations (thorough: 4), or 1 (thorough: 2) after a mirrored pair of writes; 70 fixed mirrored pairs in four patterns (some cleared again), and 6 such before 1 operation",
     [case("matrix", "h_from_matrix", dict(fill=70, both=1, ops=0), covers=["symmetric"], soft=True), case("matrix", "h_from_matrix", dict(fill=6, both=1, ops=1), covers=["symmetric", "asymmetric"], soft=True), case("matrix", "h_from_matrix", dict(ops=3), dict(ops=4), covers=["symmetric", "asymmetric"]), case("matrix", "h_from_pair", dict(ops=1), dict(ops=2), covers=["symmetric", "asymmetric"])])
M3 = ["set", "set to zero", "zero"]
prop("M01", W + "; 4 operations (vectors: 3; thorough: 5 and 4); 70 (iteration: 300, vectors of three rows: 400) writes at fixed positions in four patterns, some cleared again, and 10 such before 1 operation",
     [case("matrix", "h_adj_cells", dict(fill=70, ops=0), soft=True), case("matrix", "h_adj_vectors", dict(fill=70, ops=0), soft=True), case("matrix", "h_adj_iter", dict(fill=300, ops=0), soft=True), case("matrix", "h_adj_vectors", dict(fill=400, ops=0, known=1), soft=True), case("matrix", "h_adj_cells", dict(fill=10, ops=1), covers=M3, soft=True),
      case("matrix", "h_adj_cells", dict(ops=4), dict(ops=5), covers=M3), case("matrix", "h_adj_vectors", dict(ops=3), dict(ops=4), covers=M3), case("matrix", "h_adj_iter", dict(ops=4), dict(ops=5), covers=M3)])
N3 = ["set", "increment", "zero"]
prop("M02", "every sequence of writes, increments (below the type's maximum) and clears at any 64-bit positions on a new numeric matrix: 3 operations with any values for i8, u64 and i128; for f64, 2 operations with any value but NaN and 3 with values -0, -1, 2.5, infinity (thorough: 3 of any value); 2 operations (thorough: 3) with any values for the other types (u8, u16, i16, u32, i32, i64, f32; u128 multiples of 2^64 and values below); 70 writes at fixed positions in four patterns, some incremented or cleared, and 10 such before 1 operation",
     [case("matrix", "h_num_i8", dict(fill=70, ops=0), soft=True), case("matrix", "h_num_f64", dict(fill=70, ops=0), soft=True), case("matrix", "h_iter_f64", dict(fill=70, ops=0), soft=True), case("matrix", "h_num_i8", dict(fill=10, ops=1), covers=N3, soft=True)] +
     [case("matrix", "h_num_" + t, dict(ops=3), covers=N3) for t in ("i8", "u64", "i128")] +
     [case("matrix", "h_num_" + t, dict(ops=2), dict(ops=3), covers=N3) for t in ("u8", "u16", "i16", "u32", "i32", "i64", "u128", "f32")] +
     [case("matrix", "h_num_f64", dict(ops=2), dict(ops=3), covers=N3), case("matrix", "h_num_f64", dict(ops=3, some=1), covers=N3),
      case("matrix", "h_iter_i8", dict(ops=3), covers=N3), case("matrix", "h_iter_u64", None, dict(ops=3), covers=N3), case("matrix", "h_iter_f64", dict(ops=3, some=1), dict(ops=3), covers=N3)])
PS = ["limited", "ragged", "exact"]
PB = "2 edges anywhere in graphs of 1, 2, 3, 4, 7, 8, 12 and 16 vertices with block sizes 0, 1, 2, 3, 5, 8, one below, at and above the vertex count and the largest 64-bit value; 1 edge and 1 deletion (thorough: 2 edges) in graphs of 2^40 to 2^64-1 vertices with block sizes from 0 to the largest; any vertex count with any block size without edges; a block of side 3 with 1, 4, 8 or 9 edges and one added or removed anywhere in it; a block of side 20 with 255, 256, 257 or 400 edges; 40 fixed edges in three patterns (61 vertices by blocks of 7, 20 by 5, 1000 by 64)"
prop("P01", PB, [case("pool", "h_pool_many", dict(edges=40, most=40), soft=True), case("pool", "h_pool", dict(edges=2), dict(edges=2, deletes=1), covers=PS), case("pool", "h_pool_big", dict(edges=1, deletes=1), dict(edges=2)),
                 case("pool", "h_pool_dim", dict(), covers=["vertices", "empty"]), case("pool", "h_pool_dense", dict()), case("pool", "h_pool_full", dict(), soft=True)])
prop("P02", PB + "; every 64-bit pattern as threshold", [case("pool", "h_approx_many", dict(edges=40, most=40), covers=["approximated"], soft=True), case("pool", "h_approx", dict(edges=2), dict(edges=2, deletes=1), covers=PS + ["unchanged", "approximated"]), case("pool", "h_approx_big", dict(edges=1, deletes=1), dict(edges=2), covers=["approximated"]),
                 case("pool", "h_approx_dim", dict(), covers=["vertices", "empty"]), case("pool", "h_approx_dense", dict(), covers=["exact", "ragged"]), case("pool", "h_approx_full", dict(), soft=True)])
prop("T01", "graphs of 0..=3 vertices (thorough: 4) with 2 edges (thorough: 3) added anywhere and one perhaps removed; adjacency matrices of dimension 1..=3 with 2 writes (thorough: 3) of any value anywhere, as text and displayed; graphs of 12 vertices with 1 edge anywhere and one perhaps removed, matrices of dimension 20 with 1 write anywhere; one matrix of dimension 258",
     [case("text", "h_wide", dict(), soft=True), case("text", "h_graph", dict(size=12, edges=1), covers=["not empty"], soft=True), case("text", "h_adj", dict(size=20, writes=1), soft=True), case("text", "h_graph", dict(dim=3, edges=2), dict(dim=4, edges=3), covers=["empty", "not empty"]), case("text", "h_adj", dict(dim=3, writes=2), dict(dim=4, writes=3))],
     outside="larger matrices")
DISP = ["displayed"]
prop("T02", "matrices of dimension 1 and 2 (thorough: 3) with 0 to 3 decimals: 2 entries at every pair of cells, the first of any i8 or u8 value and the second extreme; dimension 1 with one entry of any u64 or i64 value; one u8 or f64 entry with 5 to 70000 decimals (10 listed numbers); 2 entries of extreme or awkwardly rounding i64, u64, i128, f32 and f64 values; one listed u16, i16, u32, i32 or u128 entry; dimension 17 with one i8 entry of any value, or listed i32 or f64 entries, near its edges; one i64 and one f64 matrix of dimension 258. Floating-point and 128-bit entries are listed values (their formatting is not encodable for symbolic values)",
     [case("text", "h_i8", dict(any=1, entries=2, dim=2, decimals=3), dict(any=1, entries=3, dim=3, decimals=3), covers=DISP), case("text", "h_u8", dict(any=1, entries=2, dim=2, decimals=2), dict(any=1, entries=3, dim=3, decimals=3), covers=DISP),
      case("text", "h_u64", dict(any=1, entries=1, dim=1, decimals=1), dict(any=1, entries=1, dim=2, decimals=2), covers=DISP), case("text", "h_i64", dict(any=1, entries=1, dim=1, decimals=1), dict(any=1, entries=1, dim=2, decimals=2), covers=DISP)] +
     [case("text", "h_" + t, dict(entries=2, dim=2, decimals=4), dict(entries=2, dim=3, decimals=4), covers=DISP) for t in ("u64", "i64", "i128", "f64", "f32")] +
     [case("text", "h_" + t, dict(entries=1, dim=2, decimals=2), dict(entries=2, dim=3, decimals=4), covers=DISP) for t in ("u16", "i16", "u32", "i32", "u128")] +
     [case("text", "h_i8", dict(size=17, entries=1, any=1, decimals=1), soft=True), case("text", "h_i32", dict(size=17, entries=2, decimals=1), soft=True), case("text", "h_f64", dict(size=17, entries=1, decimals=3), soft=True)] +
     [case("text", "h_wide", dict(numbers=1), soft=True), case("text", "h_u8", dict(any=1, entries=1, dim=1, wide=10), covers=[]), case("text", "h_f64", dict(entries=1, dim=1, wide=10), covers=[])],
     outside="dimensions above 2 (thorough 3), 4 decimals and more other than those listed, floating-point and 128-bit values other than those listed", assumptions=["core's formatting of a single number is trusted: it is executed on both sides of the comparison"])
prop("T03", "every dimension from 40000 to 2^64-1 of graphs, adjacency matrices, integer and floating-point matrices with up to 2 decimals; matrices of up to 3 with any number of decimals from 5 * 2^30 to 2^64-1; compressed graphs of 320000 vertices and more; seven dimensions from 2^32 to 2^64-1 (whose text exceeds 2^64 bytes) also where allocations up to 28 GiB succeed",
     [case("text", "h_huge", dict(), covers=["graph", "adjacency", "integers", "floats", "compressed"]), case("text", "h_huge", dict(vast=28), soft=True), case("text", "h_decimals", dict(), covers=["decimals of integers", "decimals of floats"])], outside="dimensions and decimals whose text fits below 4.8 GB, where the outcome depends on the machine's memory", assumptions=["allocations of 4 GiB and more fail"])
C6 = ["add_edge", "delete_edge", "add_vertex null", "add_vertex one", "add_vertex two", "add_vertex empty"]


def ccase(fn, quick, thorough=None, covers=(), **kw):
    return case("capi", fn, quick, thorough, covers, c=True, **kw)


COPS = "every sequence of gphrx_add_edge / gphrx_delete_edge / gphrx_add_vertex (null, empty, one or two neighbours) on a new graph, all ids full 64-bit symbolic"
prop("X01", COPS + ": 2 operations of all kinds (duplicates: 2 of the first three; thorough: 3) against the specified edges, counts, degrees, neighbour and edge arrays; graphs of 1, 2, 3 and 9 vertices with 1 or 2 edges (thorough: one more) against the library's bytes, text, pooling, approximation, compression and decompression; bytes read back; graphs of 2^40+5 and 2^64-1 vertices with 1 edge anywhere: averages and approximation in blocks of 2^16 to 2^63 vertices with every threshold, compression at every level, bytes, and no text; 270 edges of fixed ids in five shapes: every array and the bytes (compression: 40 edges)",
     [ccase("h_many", dict(edges=270), covers=["edges", "vertices", "bytes", "entries", "compressed", "queries"], soft=True), ccase("h_queries", dict(ops=2), covers=C6), ccase("h_lists", dict(ops=2), covers=C6), ccase("h_duplicate", dict(ops=2, kinds=3), dict(ops=2), covers=C6[:3]),
      ccase("h_queries", None, dict(ops=3, kinds=3)), ccase("h_lists", None, dict(ops=3, kinds=3)),
      ccase("h_derived", dict(edges=1), dict(edges=2), covers=["bytes", "text", "approximation", "averages", "compressed"], merge=0), ccase("h_derived_far", dict(), covers=["bytes", "approximation", "averages", "compressed"], merge=0), ccase("h_texts", dict(), covers=["averages", "compressed"])])
prop("X02", "every exported function with a null handle and every argument value, with and without a length or error location; null buffers of every length; missing neighbour lists of every length; byte strings of every length 0..=42 (graphs) and 0..=58 (compressed graphs) with every byte arbitrary (thorough: 66), and written graphs with any one byte replaced",
     [ccase("h_null_graph", dict()), ccase("h_null_others", dict()), ccase("h_null_len", dict()), ccase("h_parse_null", dict()), ccase("h_parse_changed", dict(), covers=["accepted", "rejected", "accepted compressed", "rejected compressed"]),
      ccase("h_parse_graph", dict(len=42), dict(len=58), covers=["accepted", "rejected"]), ccase("h_parse_compressed", dict(len=58), dict(len=66), covers=["accepted", "rejected"])])
prop("X03", COPS + ": 1 operation of all kinds and 2 of the first three (thorough: 2 and 3), duplication, release in either order around every use of the other; every object derived from graphs of 1, 3 and 9 vertices with no or 1 edge, used and released after its source; every array, text and byte buffer read over its whole length after its source is released. Every memory access and every release (address, size, at most once) is checked, and all memory is released at the end",
     [ccase("h_lifecycle", dict(ops=1, text=2), dict(ops=2, text=2), covers=C6), ccase("h_lifecycle", dict(ops=2, kinds=3, text=2), dict(ops=3, kinds=3, text=0), covers=C6[:3]),
      ccase("h_offspring", dict(edges=0), merge=0), ccase("h_offspring", dict(), covers=["approximation", "averages", "compressed", "decompressed", "bytes"], merge=0), ccase("h_outlive", dict(), covers=["edges", "vertices", "bytes", "text", "entries"])])


def pcase(fn, quick, thorough=None, covers=(), **kw):
    return case("pywrap", fn, quick, thorough, covers, **kw)


C6P = ["add_edge", "delete_edge", "add_vertex", "add_vertex []", "add_vertex [a]", "add_vertex (a, b)"]
PYT = "symbolic execution of the Python wrapper's source over the C library's specification, branches and assertions decided by Z3 (SMT) within bounds"
PYA = ["the C library behaves as properties G, B, C, P, M, T and X decide it does: it is replaced by its specification, derived objects by uninterpreted functions of what they derive from",
       "ctypes behaves as modelled (conversions by argtypes and restype, pointers, structures, arrays, buffers); paths are replayed with the real ctypes and library",
       "numbers are integers, fractions and byte strings; other Python types are out of scope except where a TypeError is specified", "one thread"]
PYO = "every sequence of add_edge / delete_edge / add_vertex (no, empty, one or two neighbours below 2^64-1) on a new directed or undirected Graph, all ids full 64-bit symbolic"


def pprop(pid, bounds, cases, **kw):
    prop(pid, bounds, cases, assumptions=PYA, **kw)
    PROPS[pid].update(run="pyrun.py", technique=PYT, note="Bounded: %s. Every path of the wrapper's Python source is executed over symbolic inputs and decided by Z3; counterexamples are replayed with the real ctypes and library, or with one answering as the model did, before they are reported. Trusted: our model of ctypes (cross-checked by replays), Z3." % bounds)


pprop("Y01", PYO + ": 2 operations (thorough: 3), duplicates after them; any approximation, compression level (any integer), block dimension, and everything derived from that, of graphs of 13 and 2^40 vertices with 2 edges; any byte string of up to 4 bytes (thorough: 12), whether the library accepts it or not; wrong types; 17 and 300 neighbours, 65626 bytes read, 66000 bytes and characters returned (of fixed content)",
      [pcase("h_queries", dict(ops=2), dict(ops=3), covers=C6P), pcase("h_duplicate", dict(ops=1), dict(ops=2), covers=C6P), pcase("h_derived", dict(size=12), covers=["approximation", "compressed", "text", "bytes", "averages"]),
       pcase("h_derived", dict(size=1 << 40, text=0), covers=["approximation", "compressed", "bytes", "averages"]),
       pcase("h_from_bytes", dict(len=4), dict(len=12), covers=["accepted", "rejected"]), pcase("h_written", dict(), covers=["accepted", "rejected"]), pcase("h_types", dict(), covers=["refused"]),
       pcase("h_big", dict(), covers=["neighbours", "long bytes accepted", "long bytes rejected", "long bytes", "long text"], soft=True, replay=8)])
pprop("Y02", PYO + ": lists after 1 operation (thorough: 2), indexed by any integer; lists of 70000 elements of any value indexed by any integer from -70000, lists of 300 (thorough: 3000) iterated; entry lists of up to 2 entries; texts of averages with 0, 1, 2 and 5 decimals",
      [pcase("h_lists", dict(ops=1), dict(ops=2), covers=C6P + ["indexed", "index error", "iterated"]), pcase("h_lists", dict(ops=2, kinds=2), None, covers=["indexed", "index error", "iterated"]),
       pcase("h_matrix", dict(), covers=["str", "default", "decimals", "entries"]), pcase("h_long", dict(), dict(iterated=3000), covers=["indexed", "index error", "iterated"], soft=True, replay=8)])
pprop("Y03", PYO + ": 1 operation (thorough: 2) or a graph with 2 edges; every kind of object and list derived from it, used, iterated and dropped in every order; texts and bytes of 66000 characters and lists of 66000 elements, too",
      [pcase("h_release", dict(ops=1), dict(ops=2), covers=["used to the end", "released"]), pcase("h_release_long", dict(), covers=["released"], soft=True, replay=8)])
