"""The properties: one place for properties.jsonl and MANIFEST.json. `claim` is None (not claimed: `na` says why) or (technique, level note)."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  state=state, observe=observe, claim=claim, na=na))


NOTE = ("Static: decided from the MIR of the current tree by the rule in the evidence file, for all inputs the rule quantifies over. "
        "Trusts rustc's MIR construction, the driver and engine in /verif, and the listed assumptions. ")

T = "trellis/src/"

prop("D01", "Computations perform no input or output",
     "No operation of the library or the DOT lexer reads or writes files, standard streams, the network, the environment or the clock, or starts threads or processes. "
     "Diagnostics leave it only through the logging facade or a writer the caller passed in.",
     ["inputs", "programs"], "every public operation, every input, every log configuration",
     "A test sees the output of the paths it runs; the guarantee is about every path of every function, and prints on rare branches do not fail any test.",
     [T + "disjoint.rs", T + "topo_sort.rs", T + "find_chains.rs", "dot_parser/src/lexer.rs"],
     [("all diagnostics use the log macros", T + "disjoint.rs"), ("error text goes to the caller's fmt::Write", "dot_parser/src/lexer.rs")],
     claim=("who-may-call effect analysis over resolved callees", NOTE + "core, alloc and bit_vec are trusted not to do I/O."))

prop("D02", "Results depend on the arguments only",
     "Calling an operation twice with equal arguments gives equal results, in any process. "
     "No result depends on the iteration order of a hash table, on addresses, allocation sizes, time, randomness, environment or thread identity.",
     ["inputs", "histories"], "every operation, every input, every hash seed and address layout",
     "Tests compare one run's result; a dependence on hash order or addresses shows only on some seeds or layouts.",
     [T + "testing.rs", T + "vec_option.rs"],
     [("GraphBuilder sorts the hash map's entries by vertex before building", T + "testing.rs: GraphBuilder::build")],
     claim=("taint/dataflow analysis of unordered iteration and nondeterminism sources", NOTE + "User-supplied closures and trait impls are assumed deterministic."))

prop("D03", "No state is shared between calls",
     "The library keeps no state of its own between calls: it has no mutable, lazily initialised or thread-local globals and changes no process-wide setting. "
     "What one call does can affect another only through the values passed to both.",
     ["histories", "schedules"], "every sequence and interleaving of calls",
     "Unit tests run one call at a time on fresh values; hidden state shows only across calls or threads.",
     [T + "common/ellipse.rs", T + "lib.rs", "dot_parser/src/lexer.rs"],
     [("all statics are immutable coefficient tables", T + "common/ellipse.rs")],
     claim=("global-state effect analysis", NOTE))

prop("D04", "Unchecked memory access is confined to the optional-item vector",
     "Only the optional-item vector performs operations the compiler cannot check for memory safety, and none of them is exposed as an unsafe public function. "
     "Every other part of both crates is entirely within the checked language, so no input to it can corrupt memory.",
     ["inputs", "programs"], "every input, every safe calling program",
     "Memory errors need not change any result a test compares.",
     [T + "vec_option.rs", T + "pathplan/array2.rs", T + "ortho/shortest_path.rs"],
     [("all other modules use bounds-checked indexing", T)],
     claim=("unsafe-capability confinement over HIR and MIR", NOTE + "Safety of the unsafe code inside the optional-item vector is the subject of V01 to V05."))

prop("G09", "Shared values can be read from many threads at once",
     "Operations that take a value by shared reference never change it, and every value the library hands out may be sent to and shared between threads whenever the items it holds may. "
     "So any number of threads can query one graph, table, vector or visibility configuration at the same time.",
     ["schedules"], "every interleaving of readers",
     "The tests are single-threaded, and a hidden cache or shared cell would still pass them.",
     [T + "graph.rs", T + "ramp_table.rs", T + "vec_option.rs", T + "pathplan/vis.rs", "dot_parser/src/lexer.rs"],
     [("no interior mutability or raw pointers in any type", T)],
     claim=("type-structure analysis (auto-trait and interior-mutability walk)", NOTE))

prop("U01", "Every public operation can complete",
     "For every public operation there is some input on which it returns normally. "
     "None of them is a stub, or a path that always ends in a panic or an endless loop.",
     ["inputs"], "some input for each of all operations",
     "Operations without a test are never called at all.",
     [T + "layering.rs", T + "pathplan/route.rs", T + "pathplan/shortest.rs"],
     [("every function has a path to its return", T)],
     claim=("interprocedural reachability of the normal return", NOTE + "One known finding: create_proper_graph."))

REALS = "Exact over the reals: rounding, overflow and NaN are outside it. "

prop("B01", "Box predicates and updates are the set relations they name",
     "A point is inside a box exactly when it lies in the closed box; two boxes overlap exactly when the closed boxes share a point; one contains another exactly when the other lies within it. "
     "Expanding a box by a point or a box gives the smallest box enclosing both, and clipping by a box gives their common part, each changing only the box it is applied to.",
     ["inputs"], "all points and boxes (as real numbers)",
     "The statement is about all relative positions of two boxes on four sides; no test calls these functions at all.",
     [T + "common/geom.rs"],
     [("INSIDE, OVERLAP, CONTAINS", T + "common/geom.rs"), ("EXPANDBP, EXPANDBB, CLIPBB", T + "common/geom.rs")],
     claim=("abstract interpretation with linear-inequality facts, compared with the set definitions", NOTE + REALS))

prop("B02", "Comparison, selection, rounding and unit helpers equal their definitions",
     "MIN and fmin return the smaller argument, MAX and fmax the greater; SQR and sqr square, AVG is the mean, SGN is -1 below zero and 1 otherwise, CMP orders two values as -1, 0 or 1, BETWEEN is a <= b <= c. "
     "ROUND rounds to the nearest integer with halves away from zero; inches and points convert at 72 per inch in both directions, and degrees and radians are inverse with 180 degrees equal to pi.",
     ["inputs"], "all arguments (as real numbers)",
     "Each helper is defined for every argument, signs and ties included; no test calls them.",
     [T + "common/arith.rs", T + "common/geom.rs", T + "math.rs"],
     [("MIN, MAX, AVG, SGN, CMP, SQR, BETWEEN, ROUND, RADIANS, DEGREES", T + "common/arith.rs"), ("POINTS, INCH2PS, PS2INCH", T + "common/geom.rs"), ("sqr, fmin, fmax", T + "math.rs")],
     claim=("abstract interpretation with affine value numbering, compared with the definitions case by case", NOTE + REALS))

prop("B03", "Vector operations, conversions and distances are componentwise exact",
     "Adding, subtracting, scaling and dividing two-dimensional vectors acts on each component, vectors compare equal exactly when both components do, and converting to and from pairs keeps the components. "
     "Lengths and distances are the Euclidean ones (or their squares where named so), the approximate comparisons accept exactly differences below the tolerance, and point and box conversions keep or round each coordinate.",
     ["inputs"], "all vectors, points and boxes (as real numbers)",
     "These are algebraic identities over all reals; a swapped component agrees on symmetric test data.",
     [T + "vec2.rs", T + "common/geom.rs"],
     [("Add, Sub, Mul, Div, From, Into, PartialEq of Vec2", T + "vec2.rs"), ("LEN, LEN2, DIST, DIST2, APPROXEQPT, P2PF, PF2P, B2BF, BF2B", T + "common/geom.rs")],
     claim=("abstract interpretation with polynomial value numbering, compared with the algebraic definitions", NOTE + REALS))

prop("P07", "Visibility predicates are the orientation relations they name",
     "The turn of three points is the sign of their doubled signed area, with a dead zone of 0.0001. A point is between two others when it lies strictly inside their span; "
     "two segments intersect when one has an endpoint collinear with and between the other's ends, or when each separates the other's endpoints; "
     "a point is in the cone of a vertex when it is on the inner side of both edges (convex vertex) or of either (reflex vertex).",
     ["inputs"], "all points, every combination of left, right and straight turns",
     "The predicates branch on up to four orientation signs, 81 combinations with their degenerate cases; none is tested.",
     [T + "pathplan/visibility.rs"],
     [("area2, wind, inBetween, intersect, in_cone, dist, dist2", T + "pathplan/visibility.rs")],
     claim=("abstract interpretation with polynomial value numbering, exhaustive split on orientation signs", NOTE + REALS))

prop("P08", "Bezier basis and route vector helpers are their defining polynomials",
     "B0 to B3 are the cubic Bernstein polynomials and B01 and B23 their partial sums; converting four control values to coefficients gives the same cubic in power form. "
     "The route vector helpers add, subtract, scale, take dot products and (squared) distances componentwise, and normalise to unit length unless the squared length is at most 1e-6.",
     ["inputs"], "all control values, parameters and vectors (as real numbers)",
     "Polynomial identities hold for all reals; a wrong coefficient only bends curves slightly.",
     [T + "pathplan/route.rs"],
     [("B0, B1, B2, B3, B01, B23, points2coeff, normv, add, sub, scale, dot, dist, DISTSQ", T + "pathplan/route.rs")],
     claim=("abstract interpretation with polynomial value numbering: coefficients compared as polynomial identities", NOTE + REALS))

LEX = "dot_parser/src/lexer.rs"
LNOTE = NOTE + ("The text is an uninterpreted sequence of characters with increasing byte offsets; std's CharIndices, Peekable, Vec, String and character classes are modelled; "
                "allocation failure is out of scope. ")

prop("L01", "Lexer: white space is skipped and punctuation is recognised",
     "At every position of every text the lexer skips the longest run of Unicode white space. A brace, square bracket, equals sign, comma or semicolon then gives its own token and one character is "
     "consumed; '->' gives Arrow and two are consumed. A '-' without '>' and any character that starts no token (not white space, not an ASCII letter, digit, underscore, quote or punctuation) "
     "gives an error and no token, with one character consumed. Only at the end of the text is there neither a token nor an error. Lexing never panics.",
     ["inputs"], "every text, every position in it",
     "Tests lex a few fixed snippets; the guarantee is about every character at every position, including multi-byte ones.",
     [LEX], [("one match on the next character", LEX + ": Lexer::next")],
     state=[("chars", "where the stream stands in the text", LEX + ": Lexer")], observe=["Lexer::next", "Lexer as Iterator", "Lexer::new"],
     claim=("abstract interpretation over an uninterpreted character sequence, with quantified loop invariants", LNOTE))

prop("L02", "Lexer: an identifier token is the whole run of identifier characters",
     "When the next character after white space is an ASCII letter or underscore the lexer returns an identifier token, and in no other case. Its text is exactly the characters from there to the end "
     "of the longest run of ASCII letters, ASCII digits and underscores, in order, and the stream stops right after that run.",
     ["inputs"], "every text, every position, every length of identifier",
     "A dropped, duplicated or extra character can depend on length or on a neighbouring character that no test uses.",
     [LEX], [("push the peeked character, then advance", LEX + ": Lexer::parse_ident")],
     observe=["Token::Ident", "Lexer::next"],
     claim=("abstract interpretation over an uninterpreted character sequence, with quantified loop invariants", LNOTE))

prop("L03", "Lexer: a quoted string token is the decoded text between its quotes",
     "When the next character is a double quote, the string runs to the first double quote that is not the second character of a backslash pair. The token's text is the characters in between, with "
     "\\n, \\t and \\r replaced by newline, tab and carriage return and every other pair kept as it is, backslash included. If the text ends before the closing quote there is exactly one error and no token.",
     ["inputs"], "every text, every string content and length, every mix of escapes",
     "Escapes at the end, doubled backslashes and escaped quotes interact; a test samples a few contents.",
     [LEX], [("loop over characters with a nested match on the escaped one", LEX + ": Lexer::parse_quoted_string")],
     observe=["Token::String", "Lexer::next", "Lexer::errors"],
     claim=("abstract interpretation against a recursive definition of string items, with quantified loop invariants", LNOTE))

prop("L04", "Lexer: a number token is the value its longest digit run spells",
     "When the next character is an ASCII digit the lexer consumes the longest run of digits and of points directly followed by a digit. With a point in it the token is the float, otherwise the signed "
     "64-bit integer, that exactly this text parses to in Rust; if the text does not parse there is exactly one error and no token. A point that no digit follows is left in the stream.",
     ["inputs"], "every text, every number of any length",
     "Look-ahead by a cloned iterator and two nested loops: the boundary cases (trailing point, repeated points, overflow, end of text) are many and tests sample few.",
     [LEX], [("clone the stream to look past a point", LEX + ": Lexer::parse_number")],
     observe=["Token::Integer", "Token::Float", "Lexer::next", "Lexer::errors"],
     claim=("abstract interpretation over an uninterpreted character sequence, with quantified loop invariants", LNOTE + "str::parse and str::contains are uninterpreted functions of the text."))

prop("L05", "Lexer: each failed step adds one error with its range, and lexing progresses",
     "Every step either consumes at least one character of a token or is at the end of the text, so lexing any text ends. A step that returns no token before the end of the text appends exactly one error "
     "whose range starts at the first byte of the offending token and ends at the byte where the stream stands (the text's length at its end); a step that returns a token adds none. "
     "Earlier errors are kept in order, errors() lists them all and has_errors() says whether there are any.",
     ["inputs", "histories"], "every text, every position, every sequence of steps",
     "Byte offsets and character positions differ only on multi-byte text, and ends only at the end of the text.",
     [LEX], [("add_error peeks for the end of the range", LEX + ": Lexer::add_error")],
     state=[("errors", "the errors so far", LEX + ": Lexer")], observe=["Lexer::errors", "Lexer::has_errors", "Lexer::next"],
     claim=("abstract interpretation of every outcome of a lexer step", LNOTE))

VONOTE = NOTE + "Items are opaque values (an item's own Clone is taken to copy it); Vec, BitVec and raw pointers are modelled. "
VF = T + "vec_option.rs"

prop("V01", "VecOption reads and writes behave as on Vec<Option<T>>",
     "For every index in range, get_ref, get_mut, get_copy and get_clone give the item of that slot or None; set and replace (with their _some and _none forms) store the given item or emptiness in that slot "
     "only, replace returning what was there before; swap exchanges two slots' contents, occupied or empty. No other slot and not the length changes; len and is_empty count all slots.",
     ["inputs", "histories"], "every vector, every pattern of occupied slots, every index in range",
     "Items and occupancy live in two separate arrays behind raw pointers; a slip in one of them shows only on some occupancy patterns.",
     [VF], [("present bit and item written together", VF)],
     state=[("vec, present", "items, and which slots hold one", VF + ": VecOption")],
     observe=["get_*", "set*", "replace*", "swap", "len"],
     claim=("abstract interpretation of every operation, compared slot by slot with the operation on Vec<Option<T>>", VONOTE))

prop("V02", "VecOption grows and shrinks as Vec<Option<T>> does",
     "new, with_capacity, from_vec, new_repeat_none and collecting an iterator of options give a vector with exactly those slots; push (and push_some, push_none) and extend add slots at the end in order; "
     "pop removes the last slot and returns what it held, or None when the vector is empty; reserve changes no slot. Every other slot is as it was, and the stored occupancy is always as long as the vector.",
     ["inputs", "histories"], "every vector, every iterator, every history of operations",
     "The two parallel arrays can drift apart by a slot, which shows only in a later operation.",
     [VF], [("vec.len() == present.len()", VF)],
     state=[("vec, present", "items, and which slots hold one", VF + ": VecOption")],
     observe=["new*", "from_vec", "from_iter", "push*", "extend", "pop", "reserve"],
     claim=("abstract interpretation of every operation, compared slot by slot with the operation on Vec<Option<T>>", VONOTE + "The iterator handed to extend or collect is one that stays at its end."))

prop("V06", "VecOption iterators visit every slot, item or run once, in order",
     "iter, iter_mut and into_iter give every slot, occupied or not, from first to last; iter_some_index, iter_some_index_mut and into_some_iter give exactly the occupied slots in order, the first two with their index; "
     "iter_runs and iter_runs_mut give the maximal runs of neighbouring occupied slots in order as slices of the items. Each stops right after the last one.",
     ["inputs"], "every vector, every pattern of occupied slots",
     "Runs that touch either end, and stretches of empty slots, take different paths through the search loops.",
     [VF], [("find_next_run and the next methods", VF)], observe=["iter*", "into_iter", "into_some_iter"],
     claim=("abstract interpretation of every iterator's stepping loop with a ghost position and quantified invariants", VONOTE + "Each iterator is stepped from its first item to its end by next; size hints and other provided methods are not covered."))

prop("V09", "Compacting keeps exactly the occupied items, in order",
     "compact moves the occupied items to the front in their order, makes them the whole vector and returns them as a slice; some_into_vec gives the same items as a Vec. "
     "pop_some removes the empty slots at the end and the last occupied one and returns its item, or empties the vector and returns None when nothing is occupied; the slots before are as they were.",
     ["inputs"], "every vector, every pattern of occupied slots",
     "Items are moved through raw pointers past empty slots; an item copied or left behind is dropped twice or lost only on some patterns.",
     [VF], [("compact", VF + ": VecOption::compact")], observe=["compact", "some_into_vec", "pop_some"],
     claim=("abstract interpretation with a rank function as ghost state and quantified loop invariants", VONOTE))

prop("V07", "VecOption::drain gives the range's slots and then removes them",
     "drain panics, before changing anything, unless the range lies within the vector; stepped, it gives the slots of the range, occupied or not, from first to last, and None from then on. "
     "Dropped after any number of steps, it leaves the slots before the range followed by those after it, in order and with their items, and nothing else.",
     ["inputs"], "every vector, every range with either kind of bound or none, every number of items taken before the drop",
     "Half-consumed drains and the shift of both the item storage and the presence bits are reached only by particular ranges; off by one at either loses or duplicates an item.",
     [VF], [("drain and the drop of Drain", VF + ": Drain")], observe=["drain"],
     claim=("abstract interpretation of the drain's stepping loop and destructor with quantified invariants", VONOTE + "A drain leaked without its drop is not covered."))

prop("V03", "VecOption drops each item it stops holding once, and no other",
     "Dropping a vector drops the items of its occupied slots once each, in order, having first made sure that a panic in one of those drops cannot drop an item twice; set, set_some and set_none drop the old item of that slot and nothing else; "
     "replace*, swap, push*, pop*, reserve, compact, some_into_vec and making an iterator drop no item. into_iter, into_some_iter and drain, dropped after any number of steps, drop exactly the items not given out.",
     ["inputs", "fault_point"], "every vector, every pattern of occupied slots, every number of steps before an iterator's drop",
     "The storage is a Vec whose empty slots are uninitialised: a drop too many is undefined behaviour and a drop too few is a leak, and neither shows in a value comparison.",
     [VF], [("the item storage's length is set to 0 before items are dropped", VF + ": Drop")], observe=["drop"],
     claim=("abstract interpretation with every drop watched against a ghost position", VONOTE + "Items are assumed to need dropping."))

prop("V08", "VecOption reads an item only where one is stored, and loses none",
     "In every operation, and between any two steps of its iterators, memory of a slot is read, borrowed, moved out or dropped only while it holds an item, an item is stored only over memory that holds none, "
     "and afterwards exactly the occupied slots hold one: no read of uninitialised memory, no item in two places, none overwritten without a drop.",
     ["inputs"], "every vector, every pattern of occupied slots, every index, range and number of steps",
     "A read of an empty slot through a raw pointer, or an item copied and left, gives the right values in most runs and is undefined behaviour in all.",
     [VF], [("the unsafe blocks", VF)], observe=["unsafe code"],
     claim=("abstract interpretation with slot ownership as ghost typestate", VONOTE + "Leaks by a panic part-way through compact are not covered."))

prop("V05", "VecOption: an index out of range panics and changes nothing",
     "get_*, set*, replace* and swap panic when an index is at or beyond the length, on every path and before anything in the vector has changed; "
     "in particular no raw read or write happens first.",
     ["inputs"], "every vector, every index at or beyond its length",
     "Out of range access behind raw pointers is undefined behaviour that tests cannot see reliably, and spare capacity hides it.",
     [VF], [("the bit vector's bounds check comes first", VF)], observe=["panics of get_*, set*, replace*, swap"],
     claim=("abstract interpretation of every operation's panicking paths", VONOTE))


RNOTE = NOTE + "Offsets are stored in 32 bits, so a table holds fewer than 2^32 values; items are opaque and Clone is taken to copy. "
RF = T + "ramp_table.rs"

prop("R01", "Ramp table operations behave as on a list of lists",
     "A RampTable acts as a list of entries plus values not yet filed: new, default, with_capacity and clear give the empty table, push_value adds an unfiled value, finish_key files the unfiled values as the next entry and returns its key, "
     "push_entry_copy, push_entry_clone and push_entry_extend append the given values and file them, and len, num_keys, is_empty, num_values, all_values report what the table holds. "
     "Every operation keeps the index starting at 0, never decreasing and within the values.",
     ["inputs", "history"], "every well-formed table, every argument",
     "Every graph and chain result is stored in these tables; a wrong offset after one unusual operation order silently files values under other keys.",
     [RF], [("entry k is values[index[k] .. index[k + 1]]", RF + ": RampTable")], observe=["all operations"],
     claim=("abstract interpretation of each operation, quantified comparison with a list of lists", RNOTE))

prop("R02", "Ramp table views and iterators show each entry once, in key order",
     "For every key k, entry_values, entry_values_mut, entry_values_range and indexing give exactly the values from index[k] to index[k + 1], and panic for any larger key. "
     "iter and iter_mut yield the entries of all keys, empty ones included, once each in key order; iter_pairs and iter_pairs_manual yield each filed value once, in order, paired with its key. No view changes the table.",
     ["inputs"], "every well-formed table, every key, every number of iterator steps",
     "Empty entries at the start, at the end or in a row, and values not yet filed, are where an index walk goes wrong, and few tests have them.",
     [RF], [("index windows and the running key", RF + ": iter, iter_mut, iter_pairs, iter_pairs_manual")], observe=["iteration"],
     claim=("abstract interpretation of every iterator's stepping loop with inductive loop invariants", RNOTE))

prop("R03", "A built ramp table files every pair under its key, in the order given",
     "RampTableBuilder::push and extend append the (key, value) pairs given. finish returns a well-formed table with keys 0 up to the largest key given (none when there were no pairs), holding every value given once, "
     "each within the entry of its own key, and the values of one key in the order they were given.",
     ["inputs"], "every sequence of pairs, keys in any order and repeated",
     "Gaps between keys, repeated keys and a missing last key meet in one loop; an order that depends on an unstable sort shows only on large inputs.",
     [RF], [("a stable sort by key, then entries closed up to each key", RF + ": RampTableBuilder::finish")], observe=["RampTableBuilder"],
     claim=("abstract interpretation for an arbitrary pair, with loop invariants proved inductive and the sort's key function interpreted", RNOTE + "slice::sort_by_key is trusted to be a stable sort."))

LF = T + "lib.rs"
GNOTE = NOTE + "Counters narrower than 32 bits are analysed with their exact range; wider ones are taken not to wrap. The count of a vertex is a ghost function defined by recursion over the list. "

prop("H01", "Vertex degrees are exact and saturate",
     "add_degree adds to every vertex's degree the number of times the vertex occurs in the list, held at the largest value a degree can have, never panics when every vertex has a degree slot, and returns true exactly when some degree would have exceeded "
     "that value. find_degree returns one degree per vertex counted the same way from zero.",
     ["inputs"], "every vertex list, every starting degrees, every vertex; counts beyond the range of a degree",
     "Saturation needs more than 65535 occurrences, and every vertex of every list has to be right.",
     [LF], [("one addition per occurrence, held when it would overflow", LF + ": add_degree, find_degree")], observe=["add_degree", "find_degree"],
     claim=("abstract interpretation with a ghost count function for an arbitrary vertex and inductive loop invariants", GNOTE))

prop("H02", "Source, sink and reference marks are exact",
     "find_referenced_edges marks exactly the vertices that occur in the list. find_sources marks exactly the vertices no edge leads to (a self loop is an edge), find_sinks exactly the vertices with no edge out; each gives one mark per vertex and never panics "
     "on lists and graphs whose vertices are in range.",
     ["inputs"], "every list, every well-formed graph, every vertex", "A vertex reached only by a self loop, a duplicate edge or the last vertex is easily missed by samples.",
     [LF], [("one pass that marks what it meets", LF + ": find_referenced_edges, find_sources, find_sinks")], observe=["find_sources", "find_sinks", "find_referenced_edges"],
     claim=("abstract interpretation with a ghost count function for an arbitrary vertex and inductive loop invariants", GNOTE))

GF = T + "graph.rs"
TF = T + "topo_sort.rs"
prop("G05", "A transposed graph has the right room for every vertex",
     "Graph::transpose gives a well-formed graph with the same number of vertices and of edges, in which every vertex has exactly as many edges as lead to it in the original, vertices with none included.",
     ["inputs"], "every well-formed graph and every vertex", "Duplicate edges, self loops and trailing vertices with no inbound edge are easily missed by samples.",
     [GF], [("in-degrees are counted and summed into the index table", GF + ": transpose")], observe=["Graph::transpose"],
     claim=("abstract interpretation with count and prefix-sum functions as ghost state and inductive loop invariants", GNOTE + "Which vertex each of those edges leads to is not covered. "))

prop("G01", "A topological order respects every edge",
     "When topo_sort_reverse returns an order, then for every edge of the graph both ends are in it and the target comes before the source; no vertex is in it twice and every entry is a vertex of the graph. topo_sort returns such an order the other way round, and an error exactly when "
     "topo_sort_reverse does. So a graph with a cycle, a self loop included, never gets an order.",
     ["inputs"], "every well-formed graph and every edge of it", "Which vertex is finished first depends on the numbering, on what was reached before and on how paths meet.",
     [TF], [("depth-first search with a work stack; a vertex is put into the order when its edges are done", TF + ": topo_sort_reverse, topo_sort")], observe=["topo_sort_reverse", "topo_sort"],
     claim=("abstract interpretation of the search for an arbitrary edge, with each vertex's place in the order as ghost state; invariants of the work stack (stored iterators included), the marks and the order", GNOTE))

prop("G11", "Only a graph with a cycle is refused",
     "topo_sort_reverse reports FoundCycle only for a graph that has a cycle: a graph with a rank that falls along every edge, which is what having no cycle means, is never refused.",
     ["inputs"], "every well-formed acyclic graph", "Diamonds, duplicate edges and paths that meet again look like cycles to a wrong search only in particular shapes.",
     [TF], [("a vertex is marked while it is the current one or on the work stack", TF + ": topo_sort_reverse")], observe=["topo_sort_reverse"],
     claim=("abstract interpretation of the search on a graph with a rank function, for an arbitrary marked vertex: the outcome that reports a cycle is contradictory", GNOTE))

prop("G02", "Every edge points to a lower layer",
     "create_layer_map returns an error only when there is no topological order. Otherwise every vertex has a layer, the source of every edge is in a higher layer than its target, a vertex with no edge out is in layer 0, and every layer is below num_layers.",
     ["inputs"], "every well-formed graph, every edge and every vertex", "A layer is wrong only when a vertex's highest target is not the first or last one looked at.",
     [T + "layering.rs"], [("vertices in topological order, one above the highest target", T + "layering.rs: create_layer_map")], observe=["create_layer_map"],
     claim=("abstract interpretation with the order's contract (which G01 shows) in place of topo_sort_reverse, and an arbitrary edge", GNOTE))

prop("G07", "A depth-first traversal yields every entry before its children",
     "traverse_depth_first_preorder starts in front of the start's list. Every step yields the next entry of the deepest list that is not finished, then goes into the list of that entry; the lists further out keep their place. It ends exactly when all lists are finished and never panics.",
     ["inputs", "histories"], "every well-formed graph, every start and every state of the traversal, whatever its depth", "What comes after a finished level depends on how many levels end together.",
     [LF], [("a stack of list iterators", LF + ": traverse_depth_first_preorder")], observe=["traverse_depth_first_preorder"],
     claim=("abstract interpretation of one step from an arbitrary stack of stored iterators, with an inductive loop invariant", GNOTE))

prop("A01", "Two-dimensional arrays keep their cells apart",
     "Array2::new and allocArray give an array of the size asked for, extra columns included, with the default value everywhere. For every row below rows and every column below cols plus extra, reading and writing refer to the same cell and never panic, and two "
     "different positions never share a cell.",
     ["inputs"], "every size and every pair of positions", "A wrong stride shows only with extra columns and only between particular rows.",
     [T + "pathplan/array2.rs"], [("row-major place computed from the row size", T + "pathplan/array2.rs: Index, IndexMut, new, allocArray")], observe=["Array2", "allocArray"],
     claim=("abstract interpretation: a cell's place as a symbolic term, shown injective for arbitrary positions", NOTE + "The size of the storage is taken not to overflow. "))

QF = T + "priority_queue.rs"
prop("Q01", "The priority queue hands out a greatest item",
     "After every insert and remove of a PQ no item in the heap is greater than its parent; neither operation panics. remove returns nothing exactly when the queue is empty, and otherwise an item that is not smaller than any other in the queue.",
     ["inputs", "histories"], "every heap contents and size, every item, every history of operations (each operation from every heap)",
     "Which child moves up depends on the size and the contents; a heap is wrong only for particular shapes.",
     [QF], [("an item moves up or down until it is in order", QF + ": insert, remove")], observe=["PQ::insert", "PQ::remove"],
     claim=("abstract interpretation with quantified loop invariants (heap order but for one place) and an induction step for the root", NOTE + "The item type's comparison is taken to be a total order, as Ord requires. "))

prop("Q02", "The priority queue neither loses nor invents items",
     "PQ::insert adds exactly the item given, remove takes out exactly the item it returns, and every other item stays in the queue, however the two rearrange them. new and with_capacity give an empty queue and clear empties it.",
     ["inputs", "histories"], "every heap contents and size, every item, equal items included", "A lost or doubled item shows only for particular sizes, contents or equal items.",
     [QF], [("items move only by swapping two places", QF + ": insert, remove")], observe=["PQ::insert", "PQ::remove", "PQ::clear"],
     claim=("abstract interpretation with the origin of every item as ghost state that changes only together with a swap", NOTE + "The item type's comparison is taken to be a total order, as Ord requires. "))
