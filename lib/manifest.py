#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the cases in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD, CMP = "graphrox-rs/src/graph/standard.rs", "graphrox-rs/src/graph/compressed.rs"
ADJ, SQ, UTIL = "graphrox-rs/src/matrix/csr_adjacency_matrix.rs", "graphrox-rs/src/matrix/csr_square_matrix.rs", "graphrox-rs/src/util/mod.rs"
C, PY = "graphrox-c/src/lib.rs", "graphrox-py/graphrox/__init__.py"
TEXT = {}


def p(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    TEXT[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))


H, I = ["histories", "inputs"], ["inputs"]
p("G01", "A graph holds exactly the edges its history left in it",
  "After any sequence of adding edges, deleting edges and adding vertices (with or without neighbour lists), an edge exists in the graph if and only if the last operation that mentioned it added it. No operation affects any other edge, whatever the vertex ids, and the reserved largest 64-bit id is ignored rather than stored.",
  H, "every sequence of edge and vertex operations, every 64-bit vertex id, directed and undirected, every queried pair", "the tests run a handful of fixed sequences over small consecutive ids; aliasing between ids, the largest ids and re-adding after deletion at arbitrary positions are never explored",
  [STD, ADJ], [("edge insertion, deletion and vertex growth", STD), ("row/column index maps", ADJ)], [("edges by column and row", "the adjacency relation", ADJ)], ["edge lookup"])
p("G02", "Vertex and edge counts agree with the history",
  "The edge count always equals the number of distinct directed edges present (an undirected edge between two vertices counts in both directions, a self-loop once), and the vertex count is one more than the largest vertex id ever mentioned by an add. Deleting an edge never changes the vertex count, and repeating an operation never changes either count.",
  H, "every sequence of operations, every 64-bit id", "counters are maintained incrementally next to the maps; tests check them after a few hand-picked sequences without duplicates, self-loops in undirected graphs or extreme ids in combination",
  [STD, ADJ], [("entry counter", ADJ), ("dimension update", ADJ)], [("entry counter and dimension", "cached sizes", ADJ)], ["edge and vertex counts"])
p("G03", "Undirected graphs stay symmetric and keep their direction",
  "In an undirected graph, an edge from one vertex to another exists exactly when the reverse edge exists, and in- and out-neighbours of every vertex agree, after every history. A graph never changes between directed and undirected.",
  H, "every history of an undirected graph, every pair of 64-bit ids", "needs every interleaving of additions and deletions in either orientation; tests check a few pairs",
  [STD, ADJ], [("mirrored insertion and deletion", STD)], [], ["edge lookup in both directions, in/out lists"])
p("G04", "Neighbour lists and degrees are exactly the edges of a vertex",
  "For every vertex, the list of out-neighbours contains each target of an edge from it once and nothing else, the list of in-neighbours each source of an edge to it once and nothing else, and the out- and in-degrees are the lengths of these lists. This holds for vertices without edges and for ids beyond the graph.",
  H, "every history, every queried 64-bit vertex", "row and column indexes are separate structures that must agree after every history; tests compare them on fixed small graphs",
  [STD, ADJ], [("row and column vectors", ADJ), ("degree queries", STD)], [("row index and column index", "two views of the same relation", ADJ)], ["neighbour lists, degrees"])
p("G05", "Iterating a graph yields every edge exactly once",
  "Iterating over a graph yields each of its directed edges exactly once as (source, target), and nothing else, whatever history produced the graph.",
  H, "every history; every iteration order the underlying map may produce in the explored orders", "the iterator walks nested maps left in arbitrary states by deletions (emptied rows and so on); tests iterate only freshly built graphs",
  [STD, ADJ], [("nested iterator", ADJ)], [], ["iteration"])
p("G06", "Cloned graphs are independent equals",
  "A clone of a graph has the same edges, counts and direction as the original, and changing either one afterwards never changes the other.",
  H, "every history before and one further operation after the clone, every id", "tests never mutate a clone next to its original",
  [STD, ADJ], [("derived clone of the maps", ADJ)], [], ["edge lookup and counts on both graphs"])
p("G07", "An undirected graph is built from exactly the symmetric matrices",
  "Building an undirected graph from an adjacency matrix succeeds exactly when the matrix is symmetric, and reports an error otherwise; building a directed graph always succeeds. The resulting graph has exactly the edges, edge count and dimension of the matrix, and matrix accesses respect the column-to-row orientation of edges.",
  I, "every matrix made of a bounded number of writes with arbitrary 64-bit positions", "tests try one symmetric and one asymmetric matrix",
  [STD, ADJ], [("symmetry test", STD)], [], ["construction result, edges"])
p("B01", "Graph bytes round-trip and have the documented layout",
  "Writing any graph to bytes yields the documented header (identification, version, vertex count, edge count, direction) followed by each edge exactly once, and reading those bytes gives back a graph with the same edges, counts and direction.",
  H, "every graph a bounded history can produce, all 64-bit ids", "tests round-trip a few fixed graphs; byte order, edge order and extreme ids are not covered",
  [STD], [("writer and reader", STD)], [], ["written bytes, graph read back"])
p("B02", "Graph parsing is total: valid bytes accepted, all others rejected as invalid",
  "For every byte string, reading a graph either yields exactly the graph the bytes describe or reports an invalid-format error: never a panic, hang, or a graph whose counts contradict its edges. Every well-formed byte string is accepted.",
  I, "every byte string up to the bound: every length, every byte", "tests corrupt a few chosen bytes; the space of truncated, extended or inconsistent headers cannot be sampled",
  [STD], [("header, length, range and count checks", STD)], [], ["result of reading bytes"])
p("B03", "Compressed graph bytes round-trip and have the documented layout",
  "Writing a compressed graph to bytes yields the documented header (identification, version, dimension, block count, edge count, vertex count, direction, level) followed by each stored block exactly once, and reading those bytes gives back a compressed graph with the same blocks, counts, direction and level.",
  H, "every compressed graph obtainable from bounded block sets, all ids and bit patterns symbolic", "tests round-trip a few fixed graphs",
  [CMP], [("writer and reader", CMP)], [], ["written bytes, graph read back"])
p("B04", "Compressed parsing is total: valid bytes accepted, others rejected",
  "For every byte string, reading a compressed graph either yields exactly the blocks, counts, direction and level the bytes describe, or reports an invalid-format error; bytes whose blocks are empty, repeated, out of range for the vertex count, inconsistent with the edge count or asymmetric in an undirected graph are rejected. Every well-formed byte string is accepted, and none makes reading panic or hang.",
  I, "every byte string up to the bound: every length, every byte", "tests corrupt a few chosen fields of one sample; cross-field consistency is a property over all headers and blocks at once",
  [CMP], [("header, bounds, popcount, duplicate and symmetry checks", CMP)], [], ["result of reading bytes"])
p("C01", "Compression at the lowest level loses nothing",
  "Compressing a graph at level zero or one gives a compressed graph with the same edges, edge count, vertex count and direction, and decompressing that gives back the original graph, for graphs of every size including fewer than eight vertices and sizes that are not multiples of eight.",
  H, "every graph a bounded history can produce", "tests compress a few fixed graphs; which edges share a block and where its borders fall depends on arbitrary ids",
  [STD, CMP], [("block threshold and packing", STD), ("unpacking", CMP)], [], ["edge lookup on the compressed and decompressed graph"])
p("C02", "Compression keeps exactly the blocks that reach the level, whole",
  "Compressing at a level (limited to the range 1 to 64) keeps every edge of each 8-by-8 block holding at least that many edges and drops every edge of all other blocks; the edge count is the number of edges kept, and the vertex count, direction and reported level are preserved.",
  H, "every level 0..255, sparse graphs from bounded histories with arbitrary ids, and dense blocks one symbolic edit away from each threshold", "the threshold is compared in floating point against an average; tests use two or three levels on fixed graphs",
  [STD, SQ], [("average-pool threshold", STD)], [], ["edge lookup, counts and level of the compressed graph"])
p("C03", "Decompression and block access agree with edge lookup",
  "For every compressed graph, looking up an edge, reading the 64-bit block that contains it and decompressing and looking it up there all give the same answer, with each edge at the documented bit of its block. Decompression preserves vertex count, edge count and direction, and queries outside the graph answer no or zero.",
  I, "every block position, bounded numbers of blocks, block patterns built from arbitrary bits", "bit addressing involves 64 positions per block at arbitrary block positions; tests check few bits",
  [CMP], [("bit addressing in lookup, packing, unpacking", CMP)], [], ["edge lookup, block access, decompression"])
p("C04", "A built compressed graph is exactly the blocks given to the builder",
  "A compressed graph built block by block has exactly the given blocks, an edge count equal to the number of set bits, the requested vertex count, direction and (limited) level; adding a block at a position outside the graph's dimension extends it consistently.",
  H, "bounded sequences of distinct blocks with symbolic positions and contents", "tests build two fixed graphs",
  [CMP], [("builder", CMP)], [], ["block access, counts"])
p("P01", "Average pooling counts each block's edges exactly",
  "The average-pool matrix of a graph has one entry per block of the given size, equal to the number of edges in that block divided by the block's full area, with the matrix dimension the number of blocks needed to cover the graph. Block sizes of zero or beyond the graph are limited to the graph's size, and an empty graph gives an empty matrix; no size panics.",
  ["histories", "inputs", "configurations"], "every graph a bounded history can produce, every block size", "block borders, ragged last blocks and large sizes interact with arbitrary ids; tests use one graph and few sizes",
  [STD, SQ], [("pooling", STD), ("increment and scaling", SQ)], [], ["entries and dimension of the pooled matrix"])
p("P02", "Approximation has an edge exactly where the average reaches the threshold",
  "Approximating a graph gives a graph over the blocks with an edge exactly where the block's average is at least the (limited) threshold and never where a block is empty; it has as many vertices as there are blocks per side and the original's direction. Block sizes of at most one, or graphs of at most one vertex, give back the original graph.",
  ["histories", "inputs", "configurations"], "every graph a bounded history can produce, every block size, every threshold including NaN, negative and infinite values", "thresholds are arbitrary floating-point numbers compared with rounding averages; tests use a few",
  [STD], [("threshold limiting and comparison", STD), ("limits", UTIL)], [], ["edges, counts of the approximation"])
p("M01", "The adjacency matrix is a map from positions to zero or one",
  "After any sequence of writes, clears and reads, each position of an adjacency matrix holds whether the last write to it was nonzero; the entry count is the number of ones, the dimension is one more than the largest index ever written, and row and column vectors and their counts list exactly the ones. Iteration yields each one exactly once.",
  H, "bounded sequences of operations with arbitrary 64-bit positions and 8-bit values", "tests use fixed small sequences; overwriting and clearing at arbitrary positions are not covered",
  [ADJ], [("index maps and counters", ADJ)], [], ["entries, counts, vectors, iteration"])
p("M02", "The numeric matrix is a map from positions to the last value",
  "After any sequence of writes, increments and clears, each position of a numeric matrix holds the last value written plus later increments, reading never-written or cleared positions gives zero, the entry count is the number of nonzero positions, the dimension is one more than the largest index ever written, and iteration yields each nonzero entry exactly once with its value.",
  H, "bounded sequences of operations with arbitrary 64-bit positions and values, for integer and floating-point entries", "tests use fixed small sequences; increments to zero, zero writes and overwriting are not covered",
  [SQ, UTIL], [("map of rows and counter", SQ), ("numeric trait", UTIL)], [], ["entries, counts, iteration"])
p("T01", "Text of an adjacency matrix shows every cell at its place",
  "The text of a graph or adjacency matrix has one row per vertex and one column per vertex, each cell showing one exactly where the edge exists, in the documented bracket-and-comma layout. Decoding the text gives back exactly the matrix.",
  H, "every history over small vertex ids, every cell", "tests compare one fixed string",
  [ADJ, STD], [("cell offset arithmetic", ADJ)], [], ["matrix text"])
p("T02", "Text of a numeric matrix shows every value in its cell",
  "The text of a numeric matrix has one row and one column per index, every cell showing its entry as that number is written with the requested number of decimals, right-aligned to a common width, and zero where there is no entry. No entry is cut, shifted or merged into a neighbour.",
  H, "matrices over small indices with integer entries of every sign and magnitude", "cell width is derived from the extreme entries; tests use small positive entries only",
  [SQ], [("width and offset arithmetic", SQ)], [], ["matrix text"])
p("T03", "Matrix text too large to hold is an error, not a crash",
  "Asking for the text of a graph or matrix whose dimension or number of decimals makes the text larger than memory can hold reports an error, whatever the dimension and the number; it never panics, overflows or writes out of place.",
  I, "every dimension up to the largest 64-bit value", "tests try one or two huge dimensions; the arithmetic can wrap at other values",
  [ADJ, SQ, STD, CMP], [("checked size arithmetic", ADJ), ("checked size arithmetic", SQ)], [], ["result of the text functions"])
p("X01", "The C interface behaves as the library does",
  "Every function of the C interface gives the results the corresponding library operation gives for the same history: edges, counts, neighbour arrays with their lengths, byte arrays, text, pooling, approximation, compression and decompression.",
  H, "bounded histories through the C interface, all ids symbolic", "tests of the C interface use fixed small graphs",
  [C], [("exported functions", C)], [], ["C function results"])
p("X02", "The C interface tolerates null handles and reports errors",
  "Passing a null handle to any function of the C interface returns the documented neutral value (zero, false or null) with lengths set to zero, and never crashes; unparseable bytes give a null handle with the error flag set, and success clears the flag.",
  I, "every exported function, every argument value, every byte string up to the bound", "tests call few functions with null; error flags on all byte strings cannot be sampled",
  [C], [("null checks, error out-parameters", C)], [], ["C function results"])
p("X03", "Memory crossing the C interface is owned, valid and freed exactly once",
  "Every object, array and string the C interface hands out is readable over its whole reported length, stays valid until its own free function is called, and freeing it releases all of its memory; no call reads or writes memory outside the live objects it was given.",
  H, "bounded histories through the C interface including creation and release of every kind of object", "needs every history checked for use-after-free, double free, leaks and out-of-bounds access; tests observe only values",
  [C], [("ownership transfer and free functions", C)], [], ["memory accesses and live allocations"])
p("Y01", "The Python classes give the library's answers",
  "Every operation of the Python Graph, CompressedGraph and CsrSquareMatrix classes gives what the C library gives for the same arguments and history, over the whole 64-bit range, as the documented Python types; compression levels outside 1 to 64 are limited to that range. Bytes the library does not accept raise ValueError, others never do, and constructing an object from something of the wrong type raises TypeError.",
  ["histories", "inputs"], "bounded histories through the Python classes, every argument, every answer the library can give", "tests of the wrapper use fixed small graphs and expect fixed answers",
  [PY], [("ctypes declarations and wrapper classes", PY)], [], ["Python results and exceptions"])
p("Y02", "Lists returned to Python have exactly the library's elements",
  "Edge, vertex and matrix-entry lists returned by the Python classes have the length and elements the library reports: iteration gives each element once and independently per iterator, any valid index gives its element, negative indices count from the end, and an index at or beyond the end, or any index into an empty list, raises IndexError.",
  ["histories", "inputs"], "bounded histories, every integer as index", "tests index a few positions of fixed lists",
  [PY], [("list and iterator classes", PY)], [], ["list elements and exceptions"])
p("Y03", "The Python wrapper never uses or leaks released memory",
  "Everything the C library hands to the Python wrapper is released exactly once, with the matching function and length, when the Python objects that need it are gone; lists, iterators, copies, texts and byte strings stay usable after the objects they came from are deleted, in every order of deletion.",
  H, "every kind of object, every order of use and deletion, after bounded histories", "needs every order of deletion checked for use after release, double release and leaks; tests observe only values",
  [PY], [("finalizers, list references, buffer releases", PY)], [], ["library calls with released objects, live objects at the end"])

TECH = "symbolic execution of the compiler's LLVM IR, assertions decided by Z3 (SMT) within bounds"
NOTE = "Bounded: %s. Within the bounds every path is enumerated and each assertion decided by the solver; counterexamples are replayed on natively compiled code before they are reported. Trusted: rustc's IR, our executor and hash-map stand-in (both cross-checked by native replay of explored paths), Z3."
NA = {}


def main():
    for pid in list(TEXT):
        if pid not in PROPS and pid not in NA:
            del TEXT[pid]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for t in TEXT.values():
            f.write(json.dumps(t, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    for pid in TEXT:
        if pid in PROPS:
            m["checks"].append(dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
                                    technique=PROPS[pid].get("technique", TECH), level="model_checking", level_note=PROPS[pid].get("note") or NOTE % PROPS[pid]["bounds"]))
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    for pid in PROPS:
        assert pid in TEXT, pid


if __name__ == "__main__":
    main()
