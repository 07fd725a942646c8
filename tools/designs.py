"""DESIGN.md: what each check decides and how, in more detail than the property statement."""
D = {
'F01': 'All public functions of the font module are started with arbitrary arguments (the font: any bytes). Every path to a panic '
 '(overflow and bounds assertions of the MIR, `unwrap`, slicing, explicit panics) must have contradictory facts, and every raw or '
 'unaligned read must lie in the bytes it was derived from. Loops: inductive inequalities between counters, positions and lengths.',
'F02': 'Each accessor is run symbolically; its result term on every accepting path is decomposed into reads at `table offset + k` '
 'of width w and compared with a table of the OpenType fields written down from the specification (head, hhea, hmtx, maxp, OS/2, '
 'name, cmap), including the clamp to the last longHorMetric and the division by unitsPerEm. The table offset must be the one '
 'found under the right tag.',
'F03': 'The terms of `glyph_id` and of what the enumeration callback receives are compared, as polynomials over the fields of the '
 'segment (mod 2^16 where the format says so), with format 4 and 12; the branch facts must imply that the character is in the '
 'segment; for enumeration, the loop bounds are checked by induction to cover first to last inclusive and all segments.',
'F04': 'On every path, loop exits of the searches over records are examined: normal exhaustion has to have visited every record '
 'address (start, stride and end compared with the table header), and the facts under which a record is skipped must exclude '
 'each supported combination.',
'P01': 'The bytes written are a term stream; a ghost length is maintained through all writes, through the counting writer and '
 'across loops, so that "offset stored for an object = bytes before it" is an equation between linear forms on every path. The '
 'xref entry format, count, startxref, Size and the numbering of reserved objects are matched in the same stream.',
'P02': 'All dictionaries written are reconstructed per path as terms (keys, values, references). References are compared with '
 'the numbers returned when the objects were reserved; page list, Count, Parent, Length, MediaBox, Resources have to be the '
 'right terms; every reserved object has to be written exactly once on successful paths.',
'P03': 'The serialiser\'s output term is evaluated for all 256 byte values per escaping branch (a table, not a run of the code) and '
 'has to read back as that byte by PDF syntax; container loops cover all elements (induction); number formatting is decided '
 'by which formatting routine can be reached with which value range.',
'P04': 'For each operation of a page, the bytes appended on each path are tokenised symbolically and run through the grammar of '
 'PDF content streams (operator, operand count and kinds, text-object state, path painted).',
'P05': 'Every call whose result is an I/O Result is followed: on a path where the operation failed (fact), the entry function has '
 'to return an error; buffered writers have to be flushed with the result checked before success.',
'P06': 'Operands of `cm`, `re`, `Td`, `Tf` and MediaBox as polynomials over the arguments are compared exactly with the '
 'transformation px→pt, y downwards.',
'P07': 'The font objects and the ToUnicode stream are reconstructed like P02; the per-font identity (key of the map), the loops '
 'over all glyphs and all character pairs, the block counts (at most 100 with the right count) and the hex text of glyph runs '
 'are checked by induction over the loops.',
'P08': 'Inductive invariant: remembered colour/alpha = state selected in the stream. Every operation is run from an arbitrary '
 'state satisfying it; on each path the operators written and the new remembered state must agree and be what was asked for.',
'R01': 'A table of the ownership contract of each C function (returns new reference, consumes, borrows, may be null) is applied to '
 'all paths of all functions, with the drop glue the MIR contains: acquired pointers must be released exactly once or be '
 'returned in exactly one owner, not used after release, and not be leaked on error paths; the owners have no Clone/Copy.',
'R02': 'On every path returning success, the facts known must contain "status of X == success", queried after the last '
 'operation on X, for each surface/context/document/file used; errors returned must carry the status found.',
'R03': 'The extern "C" callbacks are analysed with every call to user code also panicking: no unwinding path may leave the '
 'callback, errors and panics must be in the state returned to the caller, and SUCCESS is returned to cairo only with the '
 'fact that all bytes were transferred; after an error the stream is not called again.',
'R04': 'The arguments of `from_raw_parts` are decomposed; pointer provenance (get_data after flush), length = width*height, '
 'format ∈ {RGB24, ARGB32}, stride = 4*width and non-null must follow from the facts of the path.',
'R05': 'Witness programs, each with exactly one misuse, must be rejected by the compiler for the lifetime or trait reason '
 '(error codes checked), and their twins without the misuse must compile: the guarantee is then one of the types for every '
 'program.',
'R06': 'Arguments of the C calls and the range state of the iterator on each path, compared with linear arithmetic.',
'R07': 'Symbolic arguments of the cairo/Poppler calls, in order, on each path, compared as polynomials/ceil terms.',
'R08': 'The extern blocks of the crate are translated to C prototypes and checked with clang (`_Generic`/type-compatibility '
 'static assertions) against the installed headers; constants and layouts by `_Static_assert`.',
'R09': 'Every conversion of a number that flows to a C function is examined: range facts on the path must imply that the '
 'conversion is exact; NaN and infinities are values of the floating-point atom.',
'S01': '`parse_value` is run symbolically with an arbitrary block, the parser of each property being any function that satisfies '
 'a contract (success: at least one declaration and its phases; failure: nothing) which is then proved for the parser of '
 'every property in the table. On each path the block afterwards is compared with before: appended declarations, flags, ORed '
 'summaries, calls that look at the end of the value and for `!important` and their order. The assertions of `DeclarationBlock::parse` '
 'must contradict that.',
'S02': 'Every implementation of `Parse` is run on an abstract token stream: `r#try`, `next` and the other calls of cssparser are '
 'opaque, and the facts on each path say which token, identifier or unit was seen. Paths that accept are compared with a table of '
 'the grammar (keyword or unit to value), those that refuse must have excluded all of it, and alternatives must start where the value starts.',
'S03': 'The lookup tables built by the macros are evaluated from their constants: name to parser and longhands, longhand to '
 'discriminant, phase, initial value. Each parser and cascade arm is run; which declaration variant it pushes and which field of the '
 'computed values it writes has to be the property of that name.',
'S04': '`style_for_element` and what it calls are run with all collections symbolic. Loops have to visit all of their sequence in order '
 '(induction on the loop); the order of the resulting events (collect, sort, cascade of an origin and importance, phases, fixups) is '
 'compared with the order of CSS.',
'S05': 'Conversions are run per variant of declaration and path, and the stored term is normalised and compared with the one '
 'written down from CSS. The fixups are run with symbolic computed values; each path\'s facts about display, float, position '
 'and border styles determine what each field must be afterwards, all others must be the term they were.',
'S06': 'The methods are run on a symbolic document in which `document[id]` is a node term. Loops over siblings, children and '
 'attributes must start at the right link, follow that link, skip only what does not satisfy the condition, and end only '
 'at the end or with a hit (induction); either form of loop is recognised. Atoms in comparisons are decoded to their strings.',
'D01': 'Each operation of the TreeSink is interpreted on every abstract shape the surroundings of its nodes can have: child lists with zero, one or two '
'known neighbours on each side and "some more" where there may be others, each link outside being an unknown of its own. Afterwards the links of '
'each node touched are compared with those of the required tree; a write to a node that should not change shows up as a changed link. Because only '
'neighbours matter, these shapes stand for all documents; only reparent_children, which loops, is bounded (lists of up to four).',
'D02': 'The walks (iterators included: successors, filter_map, and loops) are interpreted on every ordered forest up to five nodes and on a few '
'of a few dozen nodes, deep, wide and slanted, with all contents symbolic; the nodes handed out must be the required ones in preorder. Per-node '
'conditions are analysed over names, namespaces, attribute lists and kinds. Going through children for the box tree is analysed on all '
'lists of up to two children of every kind (three of the usual ones), forking on their display and on being replaced.',
'D03': 'Each method is interpreted with symbolic data; the node at the end of the vector must hold exactly that data and be unlinked, and its id must be '
'the one returned. Text is put at each place after each kind of node. The sink must answer the questions asked about nodes from their data.',
'D04': 'parse_xml is interpreted with an abstract event reader that gives every prefix-closed sequence of up to four events (and selected long ones) with symbolic names, '
'texts and attributes, with and without prefixes and namespaces; the vector of nodes at the end is compared with a tree built by the check.',
'G02': 'BlockLevelBox::layout is interpreted for every combination of the kinds of width, margins (all of CSS 2.1 10.3.3), heights and offsets, with '
'computed values whose amounts are symbols. The numbers in the resulting fragment and in the containing block given to the contents are normalised to '
'polynomials over the symbols, with max and min as atoms, and must equal the ones written down from CSS; where they differ syntactically, a case split '
'over max/min and the path facts with Fourier-Motzkin elimination decides.',
'G03': 'The way of a box is interpreted end to end, without looking at the intermediate values: construction from every combination of kinds of values, '
'raising of its static position through blocks, layout against a containing block of symbolic size. Lists of up to three boxes go through the function for positioned boxes, '
'the list of blocks (sequential, parallel in one piece, parallel in single pieces) and the page; each must come out once, in order, at the polynomial CSS gives.',
'G04': 'Lists of boxes with height, collapsed through, and out of the flow are placed by the interpreted code with symbolic margins (a positive and a negative part each); '
'tops, total height and the margins at both ends must be those of an independent formulation of 8.3.1 over sets of adjoining margins. The margins of a block are '
'checked for all combinations of zero and non-zero padding and border, own formatting contexts and kinds of height.',

'G01': 'Every conversion and operation of geom.rs and length.rs is interpreted with symbolic lengths (generic ones for lengths) for each writing mode and direction and each kind '
'of value; the polynomial of each result must be the one of a table of CSS Writing Modes 6.4 and of the definitions of the operations.',
'G05': 'Painting of each kind of fragment with zero to four children is interpreted with symbolic places, sides, colours and sizes: on each path the operations on the page and the '
'children painted are listed with the values behind their arguments, which must be those the style and place define; to_pdf_bytes must paint all fragments of the layout '
'between adding the page and dropping it, before the document is written.',
'B01': 'Contents are enumerated (everything in a row, blocks finished on several threads, nested inline boxes around blocks, deep chains, all short texts in pairs of contexts). For each, BlockContainer::construct is interpreted '
'with the traversal replaced by a script that calls the handler as the traversal would; characters are symbols that only have a class. The resulting tree of boxes, the styles in it, what is recorded '
'for elements and the floats are decoded on every path and compared with those of a specification of CSS 2.1 9.2 and 16.6.1 written in the check.',
'B02': 'The construction of a block container is interpreted on enumerated documents with concrete links and symbolic data, the handler and the cascade stopped: the calls to the handler, their arguments by identity, '
'the parents of the styles computed and the boxes kept in every element afterwards must be those required. The root element is analysed for every display, position and float.',
'T01': 'Inline contents are enumerated (texts of words, inline boxes that start or end on other fragments, nesting, boxes out of the flow, relative positions, percentages). For each, the inline layout is interpreted '
'with one symbol for the width of each character, down to the shaping of single characters. On every path, a specification of line breaking replays the content with the answers to comparisons the path has (compared as '
'linear inequalities of polynomials, with widths not negative): lines, parts, glyphs, positions, sizes and edges must be equal as polynomials; a path that breaks a line without knowing whether the text fits is reported.',
'T02': 'The layout of plain text is interpreted with scripted break opportunities and symbolic style, glyph widths and ascender; euclid operations are modelled on numbers. On every path, the pages added and the texts shown, with the '
'values behind their arguments, must be those of greedy breaking replayed with the answers of the path. The errors of glyph lookup and of showing text are injected at each point and must be returned.',
'X01': 'Every call of every body of the crate is looked at with the resolved types of its callee (MIR), wherever it stands and whether or not a rendering reaches it. Forbidden are: clocks, the environment, processes, random numbers, thread '
       'identities and counts, atomics, locks and channels; walking a hash table, except to ask any, all, count, max or min, or to collect into a table again, and printing or extending from one; operations of rayon whose result depends on '
       'how work is divided (find_any, fold, reduce, sums of floats, ...), as opposed to those that keep the order of their input (map, enumerate, zip, collect, par_extend), and for_each whose closures write to shared cells; casts of '
       'addresses to numbers outside Hash and PartialEq; mutable or interior-mutable statics. That the closures that merge what mapfold_reduce_into splits do not depend on the split is decided in B01, G03 and G04, whose '
       'model interprets both the sequential and the divided order.',
}
