"""The properties: single source of properties.jsonl and MANIFEST.json (see gen.py)."""

TECH = {
    'vf': 'path-sensitive interprocedural value-flow analysis (abstract interpretation) of the MIR',
    'panic': 'abstract interpretation of the MIR: panic-freedom and raw-read bounds, linear inequality domain',
    'shape': 'shape analysis: abstract interpretation of the MIR over abstract document trees (unknown nodes, symbolic contents)',
    'poly': 'abstract interpretation of the MIR over symbolic numbers; results compared as polynomials with max/min (case split, Fourier-Motzkin)',
    'types': 'type-level compile-fail witnesses with compiling twins',
    'ctypes': 'type checking of the foreign declarations against the C headers by the clang front end',
    'items': 'queries over the type-checked item tables (rustdoc JSON) and MIR',
}

F = 'victor/src/fonts/'
W = 'victor/src/pdf/'
L = 'lester/src/'
Y = 'victor/src/style/'
LY = 'victor/src/layout/'
PROPS = [
 dict(id='F01', title='Reading an untrusted font never panics or reads out of bounds',
  statement='For every byte string given as a font file, parsing it, looking up characters, enumerating its character map '
  'and asking for its metrics either succeeds or returns an error value. It never panics (no index, arithmetic overflow or '
  'unwrap failure) and never reads memory outside of the given bytes.',
  over=['inputs'], q='all byte strings as font files; all characters and glyph identifiers asked for',
  why='The tests parse a handful of well-formed fonts; offsets, counts and segment bounds of hostile files (up to 2^32 each) '
  'are never exercised.',
  files=[F+'mod.rs', F+'parsing.rs', F+'cmap.rs', F+'tables.rs'],
  mech=[('checked slicing and saturating positions', F+'parsing.rs'), ('error values', F+'mod.rs: FontError')],
  tech='panic', note='Every MIR path of every public entry point, callees inlined, loops over-approximated with inductive '
  'linear invariants. Trusts the models of std and that other std functions do not panic.'),
 dict(id='F02', title='Font metrics come from the fields OpenType defines for them',
  statement='For every accepted font, the glyph count, ascent, descent, bounding box, units-per-em scale, advance widths and '
  'PostScript name are the big-endian values at the offsets that the OpenType specification assigns to them, within the '
  'table found under the specified tag. The character map used is a platform 3 subtable: encoding 1 in format 4, or encoding '
  '10 in format 12.',
  over=['inputs'], q='all accepted font files, all glyph identifiers',
  why='The few test fonts exercise one value per field; a field read at a wrong offset that happens to hold a similar value, '
  'or a clamp off by one in the last metrics record, stays invisible.',
  files=[F+'mod.rs', F+'tables.rs', F+'parsing.rs', 'proc-macros/src/lib.rs'],
  mech=[('derived field offsets', F+'tables.rs'), ('table directory search', F+'mod.rs: find_table')],
  tech='vf', note='Symbolic result of every accessor on every accepting path is compared with the format\'s definition; '
  'binary-search completeness of the table directory is not part of it.'),
 dict(id='F03', title='Character lookup and enumeration agree with the cmap format',
  statement='For every accepted font, the glyph returned for a character and the glyph reported for it when the character map '
  'is enumerated are the ones the subtable format (4 or 12) defines for the segment containing it, and glyph 0 is returned '
  'only if the character is outside of every segment of a sorted map or its glyph is missing. The enumeration goes through all segments, from the '
  'first to the last character of each inclusive, and skips only unmapped characters and surrogates.',
  over=['inputs'], q='all accepted fonts, all characters',
  why='Test fonts have few segments and mostly format 4 with idDelta; idRangeOffset arithmetic, wrap-around, format 12 '
  'truncation and last characters of segments are not sampled.',
  files=[F+'cmap.rs', F+'mod.rs'], mech=[('format 4 and 12 decoders', F+'cmap.rs')],
  tech='vf', note='Decides the mapping arithmetic, segment bounds and enumeration coverage on all paths; that a lookup '
  'finds the segment of a character in a sorted map is decided for maps of up to four segments.'),
 dict(id='F04', title='All records of a font table are considered, with the right preference',
  statement='A font is rejected for lack of a PostScript name or of a character map only after all records of the respective '
  'table were looked at, and a record is passed over only if it is not one of the supported combinations of platform, '
  'encoding and name or format. Among several supported character maps the one listed last (full Unicode) is preferred.',
  over=['inputs'], q='all font files, any number and order of records',
  why='Bundled and test fonts have their usable records at fixed places; first and last records are never the only usable ones.',
  files=[F+'mod.rs', F+'cmap.rs', F+'parsing.rs'], mech=[('record iterators', F+'parsing.rs: SliceIter')],
  tech='vf', note='Decided on all loop paths from the symbolic record addresses and path facts.'),

 # ------------------------------------------------------------------ PDF writing
 dict(id='P01', title='The PDF file layout is consistent: xref offsets, counts and startxref',
  statement='For every document, every successfully written PDF starts with a header, contains each indirect object exactly '
  'once, and ends with a cross-reference table of exactly twenty-byte entries that gives, in order of object number and '
  'without gap, the exact byte offset of each object, with the count in its header and in Size. The number startxref gives '
  'is the offset of that table, and the number handed out for an object is the one it is written with.',
  over=['inputs', 'histories'], q='all documents: any number of pages, fonts, graphics states and objects of any size',
  why='Tests look at a few rendered pages of small documents, and the PDF library reading them repairs broken '
  'cross-reference tables silently.',
  files=[W+'syntax.rs', W+'object.rs', W+'convert.rs'],
  mech=[('counting writer', W+'syntax.rs: CountingWrite'), ('object ids', W+'syntax.rs: PdfFile')],
  tech='vf', note='Deduced by linear arithmetic and loop induction over all paths of the MIR; trusts the lengths of itoa and '
  'padding as documented. Write errors are P05; offsets over 10 digits are out of reach.'),
 dict(id='P02', title='Document structure: page tree, links and stream lengths agree',
  statement='In every PDF written, the trailer leads to the catalog and information dictionaries, the page tree lists exactly '
  'the pages made in order with their right count and parent, and every page has the content, resources and media box it was '
  'given. Every reference in an object that is written resolves to an object of the file, and Length of every stream is the '
  'length of the bytes written for it.',
  over=['inputs', 'histories'], q='all sequences of pages and drawing operations',
  why='A dangling or swapped reference in a rarely used combination of fonts and graphics states is tolerated by viewers or '
  'simply draws nothing.',
  files=[W+'syntax.rs', W+'convert.rs', W+'object.rs', 'victor/src/fonts/mod.rs'],
  mech=[('page tree', W+'syntax.rs'), ('page objects', W+'convert.rs: impl Drop for Page')],
  tech='vf', note='Terms of all dictionaries on all paths of the document writer and of every page operation.'),
 dict(id='P03', title='PDF objects are serialised so that they read back as the same values',
  statement='Names, literal and hexadecimal strings, numbers, arrays, dictionaries and references written to a PDF are, for '
  'every value, read back by the syntax of PDF as the same value: every byte is escaped where needed, numbers are never '
  'written in exponential notation nor as inf or NaN, and all elements appear in order, separated.',
  over=['inputs'], q='all objects: all 256 byte values in names and strings, all f32',
  why='Only the few names, strings and numbers of the reference tests are ever serialised; special bytes and very small or '
  'large numbers are not.',
  files=[W+'object.rs', W+'syntax.rs'], mech=[('object serialisation', W+'object.rs: impl Object')],
  tech='vf', note='Output terms of the serialiser evaluated for every byte value; loop coverage by induction; number formats '
  'from the ranges proved. Non-finite numbers may be replaced by a finite one.'),
 dict(id='P04', title='Content streams only hold well-formed sequences of PDF operators',
  statement='Every drawing operation appends to the content stream a sequence of known operators, each with the number and '
  'kinds of operands PDF requires, separated by white space. Text operators only appear within a text object that is closed '
  'again, and every path constructed is painted.',
  over=['inputs', 'histories'], q='all sequences of drawing operations with all arguments',
  why='An operator missing an operand or separator on one path makes viewers skip the rest of the page; the tests only draw '
  'with a few colours, fonts and rectangles.',
  files=[W+'convert.rs', W+'syntax.rs'],
  mech=[('operator macro', W+'convert.rs'), ('page operations', W+'convert.rs')],
  tech='vf', note='The bytes are reconstructed per path of every operation and validated against the operator table of PDF.'),
 dict(id='P06', title='Geometry: CSS pixel arguments become the right PDF coordinates',
  statement='For all arguments, the page matrix maps CSS px with y downwards to PDF points (1 px = 0.75 pt) such that the '
  'media box is the image of the page rectangle. Rectangles are painted with operands in the order x, y, width, height, and '
  'text is set upright at its origin in its font size.',
  over=['inputs'], q='all page sizes, rectangles, origins and font sizes',
  why='The tests compare a few renderings at pixel precision, where many errors of sign, order or scale cancel out (square '
  'pages, zero origins, one font size).',
  files=[W+'convert.rs', 'victor/src/primitives.rs', 'victor/src/pdf/mod.rs'],
  mech=[('initial transform', W+'convert.rs: Page::new')],
  tech='vf', note='Operands as polynomials over the arguments compared exactly; rounding of f32 is not part of it.'),
 dict(id='P08', title='Colour and alpha of a page follow the operations asked for',
  statement='Whenever something is painted, the colour and alpha last selected in the content stream are the ones asked for: '
  'operators are left out only when the state remembered equals the one asked for, and the state remembered changes exactly '
  'with the operators written. Every graphics state name selected is in the resources with the alpha asked for, different '
  'alphas having different names.',
  over=['inputs', 'histories'], q='all histories of colours and alphas of all pages of a document',
  why='A stale cached colour only shows for particular sequences of colours across operations; the tests use few.',
  files=[W+'convert.rs'], mech=[('current graphics state', W+'convert.rs: InProgressPage')],
  tech='vf', note='All paths of every operation, as an inductive invariant between remembered and written state; alpha up to '
  'the rounding to 1/65535.'),
 dict(id='P05', title='Errors of the output stream are reported by the PDF writer',
  statement='Whenever an operation of the output fails while a PDF is written to a stream or file, at whichever of the calls, '
  'writing returns the error. In particular success is only reported after all buffered bytes have been flushed, and errors '
  'never become panics.',
  over=['fault_sequences', 'inputs'], q='all documents, an error at any call on the output',
  why='Tests write to memory or to a disk that is not full; errors never happen in them.',
  files=[W+'mod.rs', W+'syntax.rs', W+'object.rs'],
  mech=[('result propagation', W+'syntax.rs'), ('flush', W+'mod.rs: write_to_pdf_file')],
  tech='vf', note='All paths of all functions returning I/O results; short writes of Write::write are reported where used directly.'),
 dict(id='P07', title='Fonts are embedded once, with true metrics, glyph codes and characters',
  statement='For every font used, exactly one font object is added per document, which embeds its bytes, PostScript name, '
  'bounding box, ascent, descent and the widths of all its glyphs in thousandths of an em, and a ToUnicode map that lists '
  'every pair of its character map in blocks of at most a hundred with their right count. Text is shown as the two-byte, '
  'big-endian glyph identifiers of the run, in order, in the font of the run, through a name unique to that font.',
  over=['inputs', 'histories'], q='all fonts, texts and orders of using fonts',
  why='Test fonts are few; the flush of a full block, fonts with an exact multiple of hundred characters, glyphs above 255 or '
  'several fonts in one document are not exercised or not looked at.',
  files=[W+'convert.rs', 'victor/src/fonts/mod.rs'], mech=[('font embedding', W+'convert.rs: add_font')],
  tech='vf', note='Accessors of the font are atoms (their meaning is F02 and F03). Flags, StemV and other values that are '
  'arbitrary in the code are not checked.'),

 # ------------------------------------------------------------------ rasterization (lester)
 dict(id='R01', title='Every cairo, Poppler and glib object is released exactly once',
  statement='Each object that lester obtains from cairo, Poppler or glib is released exactly once by the matching function, on '
  'every path including all errors and the dropping of results, and is not used afterwards. Until then it has exactly one '
  'owner, which cannot be duplicated, and null results are neither released nor kept.',
  over=['inputs', 'fault_sequences', 'histories'], q='all calls of the API in any order, with any failure of the C libraries',
  why='A leak or double release on an error path only shows when the C library fails at that point; the tests see successes.',
  files=[L+'cairo.rs', L+'poppler.rs', L+'errors.rs'], mech=[('Drop of the owning types', L+'cairo.rs, poppler.rs, errors.rs')],
  tech='vf', note='All MIR paths of all functions callable from outside, against a table of the ownership contract of each C function.'),
 dict(id='R02', title='Success of a cairo, Poppler, glib or file operation is checked before reported',
  statement='A lester function returns success only if the status of each cairo surface and context used, after the last '
  'operation on it, of PNG encoding, of opening a document and of each file operation was success. Errors returned hold the '
  'status that was found, and a file is flushed before success is returned.',
  over=['fault_sequences'], q='all failures of the C libraries and of files at any call',
  why='cairo remembers errors silently; only a failure injected at the right call would tell a missing check.',
  files=[L+'cairo.rs', L+'poppler.rs', L+'errors.rs'], mech=[('CairoError::check', L+'errors.rs'), ('check_status', L+'cairo.rs')],
  tech='vf', note='Decided from the facts known on every successful path.'),
 dict(id='R03', title='PNG stream callbacks never unwind into C and lose no error or panic',
  statement='Reading or writing PNG through a user-given stream never unwinds through C code, whatever the stream does. Every '
  'error or panic of the stream is given to the caller, the stream is not used after an error, and cairo is told success '
  'only if exactly the requested bytes were transferred.',
  over=['inputs', 'fault_sequences'], q='all implementations of Read and Write, failing or panicking at any call',
  why='Tests use streams that work; short reads, errors and panics inside the callback are undefined behaviour or lost if mishandled.',
  files=[L+'cairo.rs'], mech=[('with_c_callback!', L+'cairo.rs')],
  tech='vf', note='The callbacks are analysed with every call to user code also panicking.'),
 dict(id='R04', title='The pixel view of a surface is exactly its memory',
  statement='The slice of pixels given for a surface lies exactly over its flushed, aligned memory of width times height words, '
  'in a format and stride for which that is right, and the width and height given are its own. A surface without pixels, '
  'whose memory may be null, gives an empty slice.',
  over=['inputs'], q='all surfaces: created, read from PNG, rendered; all sizes and formats',
  why='Tests use two small images; unusual formats (8-bit, 1-bit PNG), strides or empty surfaces would read out of bounds.',
  files=[L+'cairo.rs'], mech=[('ImageSurface::pixels', L+'cairo.rs')],
  tech='vf', note='Conditions proved on every returning path from the guards in the code.'),
 dict(id='R05', title='Memory of documents and surfaces cannot be used after it is gone',
  statement='A program in which a document or page outlives the bytes it was opened from, an iterator its document, pixels their '
  'surface or text its string, or which aliases the pixels of a surface, does not compile. Nor does one that shares '
  'documents or pages between threads or duplicates an owner.',
  over=['programs'], q='all safe programs using the API',
  why='No test can show that a program does not compile; the misuse would be undefined behaviour that mostly works.',
  files=[L+'poppler.rs', L+'cairo.rs'], mech=[('lifetime parameters and PhantomData', L+'poppler.rs'), ('Argb32Pixels', L+'cairo.rs')],
  tech='types', note='One witness for each kind of misuse, with a twin that compiles.'),
 dict(id='R06', title='A document and its page iterator give the pages asked for',
  statement='A document is opened from exactly the bytes given, its page iterator goes over pages 0 to the page count, and next, '
  'nth and next_back give the page at the start of what remains, n after it, or at its end, and go on after or before it. '
  'The reported length is that of what remains, and strings come from the document or page asked.',
  over=['inputs', 'histories'], q='all documents and all sequences of iterator calls from both ends',
  why='The tests iterate over documents with very few pages, only forwards.',
  files=[L+'poppler.rs'], mech=[('PagesIter', L+'poppler.rs')],
  tech='vf', note='Index and remaining range are proved with linear arithmetic on every path; nth_back and last are the defaults of std.'),
 dict(id='R07', title='Pages are rendered at the size, scale and backdrop asked for',
  statement='A page is rendered to a surface whose size is the ceiling of its size in px (points times 96/72) times the resolution '
  'of each axis, scaled by exactly that, by the function for screen or printing as asked. With the white backdrop the surface '
  'is RGB24 and painted white first; otherwise it is ARGB32 and not painted; the default resolution is 1.',
  over=['inputs'], q='all page sizes, resolutions per axis, backdrops and modes',
  why='Tests render square or symmetric cases: swapped axes, fractional sizes and combinations of options are not sampled.',
  files=[L+'poppler.rs'], mech=[('render_with_options', L+'poppler.rs')],
  tech='vf', note='Symbolic arguments of the C calls in order on each path, compared as polynomials.'),
 dict(id='R08', title='Declarations of C functions and types agree with the C libraries',
  statement='Each C function that lester declares has the parameter and result types of the installed headers of cairo, Poppler '
  'and glib. The constants have the values of those headers, and the C struct that is accessed has their layout.',
  over=['programs'], q='all declared functions, constants and fields',
  why='A wrong declaration is undefined behaviour that often works on one platform; the compiler of Rust cannot see it.',
  files=[L+'cairo_ffi.rs', L+'poppler_ffi.rs'], mech=[('extern blocks', L+'cairo_ffi.rs, poppler_ffi.rs')],
  tech='ctypes', note='Types up to compatibility in C; pointers to the opaque types by name.'),
 dict(id='R09', title='Sizes and lengths are never changed by conversions for the C libraries',
  statement='A number is given to cairo or Poppler, or returned from them, only converted to a type that can represent it; '
  'otherwise the call fails without using another value. This includes sizes that are not numbers (NaN) or infinite.',
  over=['inputs'], q='all widths, heights, lengths and resolutions',
  why='Truncation only shows above 2^31 bytes or pixels, NaN only for unusual resolutions.',
  files=[L+'convert.rs', L+'cairo.rs', L+'poppler.rs'], mech=[('TryInto', L+'convert.rs')],
  tech='vf', note='Range facts on each path of the conversions and at each call of a C function.'),
 # ------------------------------------------------------------------ style
 dict(id='S01', title='A CSS declaration takes effect as a whole or not at all',
  statement='For every input, a declaration that fails to parse (unknown property, bad value, trailing tokens) leaves the '
  'declarations, importance flags and summaries of its block as they were, and cannot make the parser panic. One that parses '
  'has all of its value consumed, adds each longhand once, as many importance flags that say whether !important followed the '
  'value, and marks the phases of its longhands in the summary of that importance. So the '
  'assertions of the block parser always hold.',
  over=['inputs'], q='all style sheets and style attributes, as any sequence of valid and invalid declarations',
  why='The tests use a few valid declarations; invalid ones after several valid ones, or trailing garbage after shorthands, are '
  'never combined with importance.',
  files=[Y+'declaration_block.rs', Y+'properties/macros.rs', Y+'properties/definitions.rs'],
  mech=[('LonghandDeclarationParser', Y+'declaration_block.rs'), ('property table', Y+'properties/macros.rs')],
  tech='vf', note='Trusts the cssparser crate (its r#try rewinds on errors).'),
 dict(id='S02', title='Value parsers accept what CSS defines, with the value it means',
  statement='For every token sequence, the parsers of property values accept exactly the keywords of the supported grammar, in '
  'any case, the units px and em and unitless 0, percentages and colours, and give the value CSS assigns to them; everything '
  'else is refused. Shorthands of four sides and of borders distribute 1 to 4 values, or parts in any order, each at most once.',
  over=['inputs'], q='all token sequences given as property values',
  why='There are hundreds of keyword, property and arity combinations; the tests use a few.',
  files=[Y+'values/'+x for x in ('mod.rs', 'length.rs', 'border.rs', 'box_.rs', 'generic.rs', 'color.rs', 'background.rs',
                                'fonts.rs', 'writing_modes.rs')] + ['proc-macros/src/style.rs'],
  mech=[('impl Parse', Y+'values/'), ('derive(Parse)', 'proc-macros/src/style.rs')],
  tech='vf', note='Trusts the tokenizer and colour parser of cssparser. Whether a property should take percentages or negative '
  'numbers is not part of it. One known finding: the order of four values.'),
 dict(id='S03', title='Every property name reaches its own computed value, initial value and keywords',
  statement='Each supported property name, in any case, is parsed with its own grammar into declarations of exactly the longhands '
  'CSS assigns to it, whose cascade sets that computed value and no other. CSS-wide keywords give each longhand its own initial value '
  'or the value of the parent style, as CSS defines for inherited and other properties.',
  over=['inputs'], q='all properties, keywords and values',
  why='The table is made by macros; two swapped entries among tens of properties show only for a document that sets just these.',
  files=[Y+'properties/definitions.rs', Y+'properties/macros.rs', Y+'properties/mod.rs'],
  mech=[('properties! macro', Y+'properties/macros.rs'), ('definitions', Y+'properties/definitions.rs')],
  tech='vf', note='Compared with a table of the properties of CSS written down in the check.'),
 dict(id='S04', title='The cascade order: origin, importance, specificity, source order',
  statement='For every element, the declarations of all matching rules and of the style attribute are applied in the order user '
  'agent normal, author normal, author important, user agent important; within an origin by specificity, then source order, the style '
  'attribute last. Early properties are computed before late ones; inherited properties start from the parent\'s '
  'computed value, others from the initial value.',
  over=['inputs'], q='all documents, style sheets and elements',
  why='Reference tests have a few rules each; combinations of importance, specificity and origins are not sampled.',
  files=[Y+'cascade.rs', Y+'rules.rs', Y+'declaration_block.rs', Y+'properties/mod.rs'],
  mech=[('MatchingDeclarations::cascade', Y+'cascade.rs'), ('StyleSetBuilder::finish', Y+'cascade.rs')],
  tech='vf', note='Specificity itself is computed by the selectors crate, which is trusted.'),
 dict(id='S05', title='Computed values are those CSS defines, including the final fixups',
  statement='Each declared value is converted to the computed value that CSS defines: em lengths times the element\'s font size '
  '(for font-size, the parent\'s), colours, keywords and percentages as they are, and the used colour resolves currentcolor to '
  'the color property. The fixups set border widths to 0 exactly where the style is none, blockify display exactly '
  'for floating and absolutely positioned elements, and change nothing else.',
  over=['inputs'], q='all declared values and combinations of the properties that the fixups look at',
  why='Each fixup depends on three or four properties; only few of the combinations occur in tests.',
  files=[Y+'properties/mod.rs', Y+'values/length.rs', Y+'values/border.rs', Y+'values/box_.rs', Y+'values/color.rs', 'proc-macros/src/style.rs'],
  mech=[('post_cascade_fixups', Y+'properties/mod.rs'), ('FromSpecified', Y+'values/mod.rs')],
  tech='vf', note='Products and sums are compared as terms; floating-point rounding is not considered.'),
 dict(id='S06', title='Selectors see the document as it is',
  statement='For every document and element, what the selectors crate is told is true of the document: parent and sibling elements '
  '(over text and comments), root, emptiness, name, namespace, links, and whether some attribute, class or id matches. Nothing '
  'asked about an element panics.',
  over=['inputs'], q='all documents, elements and selectors',
  why='Tests match a few simple selectors; classes separated by several blanks, namespaced attributes or comments between siblings do not occur.',
  files=[Y+'selectors.rs', 'victor/src/dom/mod.rs'], mech=[('impl selectors::Element for NodeRef', Y+'selectors.rs')],
  tech='vf', note='Matching itself is done by the selectors crate, which is trusted.'),
 dict(id='D01', title='Every change to the tree keeps its links a tree',
  statement='For every document and every place in it, appending a node, inserting one before another, taking one out and moving '
  'all children leave parent, sibling and first/last child links exactly those of the changed tree, with all other nodes where they were. '
  'A node that was elsewhere is taken out of there first.',
  over=['inputs', 'histories'], q='all documents and positions of the nodes involved',
  why='Which links change depends on which neighbours exist; mis-nested HTML reaches combinations that no test has.',
  files=['victor/src/dom/mod.rs', 'victor/src/dom/html.rs'],
  mech=[('detach, append, insert_before', 'victor/src/dom/mod.rs'), ('reparent_children', 'victor/src/dom/html.rs')],
  tech='shape', note='Trusts html5ever to hand out nodes of this document and never to put a node below itself. Lists of children '
  'moved together are taken up to a length of four.'),
 dict(id='D02', title='Walks over the document find every node, once, in tree order',
  statement='For every document, the link elements handed out and the style sheets collected are those of all html link elements '
  'with rel and href, and of all CSS style elements with the text of their text children, in tree order. The root element is the one '
  'element below the document node, and the box tree is made from each child of an element once, in order, with the right style.',
  over=['inputs'], q='all documents',
  why='The tests have a handful of documents; order and omissions matter in deep trees and with unusual nodes in between.',
  files=['victor/src/dom/mod.rs', 'victor/src/layout/dom_traversal.rs'],
  mech=[('html_link_elements, parse_stylesheets, nodes', 'victor/src/dom/mod.rs'), ('traverse_children_of', 'victor/src/layout/dom_traversal.rs')],
  tech='shape', note='All trees up to 5 nodes and some much larger ones, with symbolic contents; text collected per element, up to 3 children.',
  ),
 dict(id='D03', title='What the HTML parser gives is what the document holds',
  statement='Every node the tree builder makes holds the data given for it: names, attributes in order, text, targets. Text put next to a text '
  'node that is just before it is joined to it, else becomes a node at that place; attributes given again are added only if missing.',
  over=['inputs'], q='all calls of the tree builder',
  why='Foster-parented text, repeated body tags and doctypes are barely sampled by tests.',
  files=['victor/src/dom/html.rs'], mech=[('impl TreeSink for Sink', 'victor/src/dom/html.rs')],
  tech='shape', note='Trusts html5ever to call the sink as HTML requires. Lists of attributes are taken up to a length of three.'),
 dict(id='D04', title='Parsing XML builds the tree of the document, or returns the error',
  statement='For every sequence of parser events of a well-formed document, parse_xml builds exactly the elements, attributes, joined '
  'text and processing instructions they describe, nested as they are. When the parser reports an error, it is returned.',
  over=['inputs'], q='all sequences of events of the XML parser',
  why='Tests parse one or two XML documents; joined text, instructions and errors late in the document are not among them.',
  files=['victor/src/dom/xml.rs'], mech=[('Document::parse_xml', 'victor/src/dom/xml.rs')],
  tech='shape', note='Trusts xml-rs to report well-nested events. All sequences of up to four events, and some longer ones.'),
 # ------------------------------------------------------------------ layout
 dict(id='G02', title='Blocks in the flow have the sizes and places CSS 2.1 gives them',
  statement='The used width, margins, padding, border, height and content position of every block-level box are those of CSS 2.1 10.3.3, '
  '10.5 and 9.4.3: margins solve the width equation, percentages refer to the width of the containing block (heights to its height, or are auto), '
  'relative offsets move the box. Its contents are laid out once, in a containing block of that size. (Auto margins are not negative, as '
  'in the code.)',
  over=['inputs', 'configurations'], q='all kinds of values (length, percentage, auto) of all properties involved, and all amounts',
  why='The tests lay out two documents; most combinations of auto, percentages, over-constrained margins and offsets never occur.',
  files=[LY+'flow/mod.rs', LY+'mod.rs', 'victor/src/geom.rs', 'victor/src/style/properties/definitions.rs'],
  mech=[('block layout', LY+'flow/mod.rs: layout_in_flow_non_replaced_block_level'), ('relative positions', LY+'mod.rs: relative_adjustement')],
  tech='poly', note='Kinds of values are enumerated, amounts are symbols: results are compared as polynomials with max and min. Exact in rational '
  'numbers; rounding of f32 is not considered. Horizontal left-to-right only (others are refused by an assertion).'),
 dict(id='G03', title='Absolutely positioned boxes are placed where CSS 2.1 says, each once',
  statement='Every absolutely positioned box comes out exactly once, in its containing block: the padding box of the nearest positioned '
  'ancestor, or the page. Its size, margins and position satisfy the equations of CSS 2.1 10.3.7 and 10.6.4, where '
  'its static position is its place in the flow, followed through all blocks on the way.',
  over=['inputs', 'configurations', 'schedules'], q='all kinds and amounts of values, lists of boxes, ways up, and ways in which the work is split among threads',
  why='No test has a positioned box in a nested block, offsets at the end, or auto margins; splitting of work depends on the scheduler.',
  files=[LY+'positioned.rs', LY+'flow/mod.rs', LY+'flow/root.rs', LY+'mod.rs'],
  mech=[('AbsolutelyPositionedFragment::layout', LY+'positioned.rs'), ('static positions', LY+'positioned.rs: adjust_static_positions'),
        ('lists passed along', LY+'flow/mod.rs')],
  tech='poly', note='Shrink-to-fit widths are taken as the available width, as the code notes. Lists up to length three, two levels of blocks; boxes in lines '
  'are not part of it. Splitting of parallel work: sequential or one item per thread.'),
 dict(id='G04', title='Vertical margins of blocks collapse as CSS 2.1 8.3.1 says',
  statement='In every list of blocks each is placed below the one before at the collapsed margin of all adjoining margins between them. '
  'Margins of first and last children adjoin those of the parent only without border, padding, other formatting context (and, at the end, height) in between; '
  'blocks without height let the margins on both sides meet.',
  over=['inputs', 'configurations', 'schedules'], q='all lists of blocks with and without height, margins of any sign, ways to split the work',
  why='Positions depend on the signs and order of many margins; tests have hardly any margins that meet.',
  files=[LY+'flow/mod.rs', LY+'fragments.rs'],
  mech=[('placing of blocks', LY+'flow/mod.rs: layout_block_level_children'), ('CollapsedMargin', LY+'fragments.rs')],
  tech='poly', note='Lists up to length three (four in the thorough run); margins are symbols, compared as polynomials with max and min. Only blocks of '
  'height auto count as without height, as in the code (CSS also has height: 0).'),
 dict(id='G01', title='Physical and flow-relative geometry correspond as CSS Writing Modes says',
  statement='For each writing mode and direction, physical sides and sizes convert to the flow-relative ones that CSS Writing Modes defines. '
  'Rectangles grow by exactly the given sides, percentages are of the given length, lengths and auto stay what they are, '
  'and the margins, padding, borders, offsets and size of a style are each those of the side they are named after.',
  over=['inputs', 'configurations'], q='all writing modes and directions, all lengths, percentages and kinds of values',
  why='Every coordinate goes through these conversions; tests use one writing mode and mostly symmetric values.',
  files=['victor/src/geom.rs', 'victor/src/style/values/length.rs', 'victor/src/style/properties/mod.rs'],
  mech=[('to_flow_relative, inflate, to_physical', 'victor/src/geom.rs'), ('percentage_relative_to', 'victor/src/style/values/length.rs'),
        ('margin, padding, border_width, box_offsets', 'victor/src/style/properties/mod.rs: ComputedValues')],
  tech='poly', note='Rectangles become physical in the one writing mode that styles have (horizontal, left to right); the others are unimplemented!() there.'),
 dict(id='G05', title='Painting shows each fragment once, at its place, in its colours',
  statement='Each fragment of the layout is painted exactly once, in tree order, on one page of the size it was laid out for, relative to the place of its parent fragment. '
  'A box paints its background colour (currentcolor is the text colour) over its border box before its children, if not fully transparent; '
  'text is shown in its colour and font size with its baseline at the ascender of its font.',
  over=['inputs', 'configurations'], q='all trees of fragments, colours and places',
  why='What is missing, doubled or misplaced depends on the shape of the tree and on differing sides; tests render few documents.',
  files=['victor/src/paint.rs', 'victor/src/geom.rs', LY+'fragments.rs', 'victor/src/primitives.rs'],
  mech=[('paint_onto', 'victor/src/paint.rs'), ('border_rect', LY+'fragments.rs'), ('to_rgba', 'victor/src/style/properties/mod.rs')],
  tech='poly', note='Lists of up to four children. Borders are not painted by the code and not part of the property; what pages do with the operations is P02, P04 and P06.'),
 dict(id='B01', title='Content becomes the boxes that CSS 2.1, 9.2 asks for',
  statement='The content of a block container becomes block-level boxes and lines of inline-level boxes, in the order of the content: runs of inline content between blocks are in anonymous blocks, '
  'inline boxes are split around the blocks in them, floats and absolutely positioned boxes stay where they are. '
  'White space is collapsed within and across elements and dropped at the start of a paragraph, texts of one style that touch are one run, and no content makes it panic. '
  'The box recorded for an element is the one in the tree, and the tree says whether it contains floats.',
  over=['inputs'], q='all contents of block containers, nested to any depth',
  why='What a box becomes depends on everything before it, at every depth of nesting; tests render a few documents.',
  files=[LY+'flow/construct.rs', LY+'flow/mod.rs', LY+'flow/inline.rs'],
  mech=[('BlockContainer::construct, BlockContainerBuilder', LY+'flow/construct.rs')],
  tech='vf', note='Small scope: contents of up to three items (four in the thorough run), nested inline boxes up to depth four, texts up to five characters, each a letter, white space, or a no-break space. '
  'Replaced elements do not exist in this tree; inline-block is unimplemented!() and is not part of it.'),
 dict(id='B02', title='Box construction is given every rendered node once, in tree order',
  statement='Building the boxes of an element hands over every text and every element that generates a box, once, in tree order, with the style of its parent or its own; '
  'elements with display: contents are replaced by their content, and those with display: none by nothing. '
  'What was kept for elements that are not rendered is forgotten, for them and all below and nothing else, and the root element becomes one box as its display, position and float say.',
  over=['inputs', 'histories'], q='all documents, displays of elements, and boxes kept from before',
  why='Walks over links go wrong in shapes that tests do not have, and stale boxes only show when a document is laid out again.',
  files=[LY+'dom_traversal.rs', LY+'element_data.rs', LY+'flow/root.rs', LY+'mod.rs'],
  mech=[('traverse_children_of, traverse_element, BoxSlot, unset_boxes_in_subtree', LY+'dom_traversal.rs'), ('BoxTreeRoot::construct', LY+'flow/root.rs')],
  tech='vf', note='Small scope: lists of up to three children (four in the thorough run), some with children; up to five elements that are not rendered. Pseudo-elements are never generated in this tree.'),
 dict(id='T01', title='Inline content breaks into lines as CSS 2.1, 9.4.2 says, with all of it kept',
  statement='A text breaks at the last of its spaces before which it fits the line, or at its first; that space disappears, and every other character has its glyph on a line, in order. '
  'Texts follow each other with the widths of their glyphs; inline boxes surround what is in them, have their edges at the start and end only where the box starts and ends, and lines are as high as what is on them. '
  'Relative offsets and the static positions of absolutely positioned boxes are relative to where the box would be.',
  over=['inputs', 'configurations'], q='all inline contents, styles, glyph widths and available widths',
  why='Which break is taken depends on every width before it; what goes wrong after the first line or inside a nested box needs widths and nestings no test has.',
  files=[LY+'flow/inline.rs', 'victor/src/text.rs'],
  mech=[('InlineFormattingContext::layout, InlineBox::start_layout, finish_layout, TextRun::layout', LY+'flow/inline.rs'), ('ShapedSegment', 'victor/src/text.rs')],
  tech='poly', note='Small scope: texts of up to five words, up to three texts in up to three nested boxes; all comparisons of widths are followed both ways, with symbolic widths. A text whose first word does not fit after '
  'another text stays on that line: breaks are only at the spaces of the text itself. The glyphs and widths of characters are F02 and F03.'),
 dict(id='T02', title='Plain text is set on lines and pages completely and in order',
  statement='Every segment between break opportunities is shown once, in order, with its line feeds removed: as many as fit on a line, at least one, and none after a hard break on the same line. '
  'Lines are apart by the line height from the top of the content area, a new page starts only for a line that would start below its bottom, and no page but that of an empty text is blank. '
  'Justified lines that end at a soft break fill the width with equal gaps, and errors of the font are returned.',
  over=['inputs', 'configurations'], q='all texts, page sizes, margins, fonts, line heights',
  why='Lines and pages break where sums of widths and heights fall; the only test has one text and one style.',
  files=['victor/src/text_plain.rs', 'victor/src/text.rs', 'victor/src/primitives.rs'],
  mech=[('layout', 'victor/src/text_plain.rs'), ('Rewind', 'victor/src/text_plain.rs')],
  tech='poly', note='Small scope: up to three segments (four in the thorough run), hard and soft, empty or not; comparisons are followed both ways. A last line may overlap the margin at the bottom by less than its height: '
  'the reference file of the test alice::render fixes that.'),
 dict(id='X01', title='The same document always gives the same PDF',
  statement='The bytes of the PDF depend on the document, its style sheets and fonts alone: not on the order in which hash tables are walked, on addresses, the time, the environment or random numbers, '
  'on how threads divide parallel work or the order in which they finish, nor on what was rendered before.',
  over=['schedules', 'histories', 'inputs'], q='all documents, thread schedules, earlier renderings and hash seeds',
  why='One run of a test sees one schedule and one hash seed; small documents rarely have two entries in a table or work enough to split.',
  files=['victor/src', 'victor/src/pdf/convert.rs', LY+'flow/mod.rs', LY+'positioned.rs', LY+'flow/construct.rs'],
  mech=[('every call in the crate', 'victor/src'), ('par_iter, mapfold_reduce_into', LY+'flow/mod.rs')],
  tech='items', note='Decided on the types of callees in the optimised program: foreign crates are trusted. That two threads never need the same AtomicRefCell at once is not decided here.'),
 dict(id='X02', title='Rendering any document ends, within bounded memory and stack',
  statement='Parsing, styling, layout and painting of every document end, with a stack and memory bounded by the size of the document.',
  over=['inputs'], q='all documents', why='Tests render a handful of shallow documents.',
  files=['victor/src/dom/mod.rs', LY+'flow/mod.rs'], mech=[('recursive construction, layout and painting of boxes', LY+'flow/mod.rs')],
  na='Recursion of construction, layout and painting is as deep as the document, so the stack needed has no static bound, and the ranking arguments for loops go through html5ever, xml-rs, rayon and selectors, whose source this analysis trusts. '
     'The walks over trees that can fail to end are decided where they are small: D02 (walks), B02 (traversal), T02 (pages).', tech='vf'),
 dict(id='X03', title='Threads never need the boxes kept for one element at the same time',
  statement='No two borrows of the layout data of one element (an AtomicRefCell, which panics) overlap, on one thread or on several.',
  over=['schedules', 'inputs'], q='all documents and thread schedules', why='A conflict needs two threads at one element at the same time.',
  files=[LY+'dom_traversal.rs', 'victor/src/dom/mod.rs'], mech=[('BoxSlot, Context::layout_data_mut', LY+'dom_traversal.rs')],
  na='Which element a borrow is of depends on node identifiers that flow through the DOM at run time; that parallel work gets disjoint subtrees would need an ownership argument about identifiers that the types of this code do not carry. '
     'B02 decides that each element is given to its handler once, for small documents on one thread.', tech='vf'),
]

GROUPS = {'F': 'Fonts (victor::fonts)', 'P': 'PDF writing (victor::pdf)', 'R': 'lester (bindings to cairo and Poppler)',
          'S': 'Style (victor::style)', 'D': 'DOM (victor::dom)', 'G': 'Geometry, layout and painting',
          'B': 'Construction of boxes', 'T': 'Text', 'X': 'Whole program'}
from designs import D
for _p in PROPS:
    if not _p.get('na'):
        _p['design'] = D[_p['id']]
