# Executed by meta.py: one prop(...) per property.

T = 'property-based testing (Hypothesis, shrinking) '

prop('C01', 'Serialising and parsing an object gives the same object back',
     'For every PDF value (booleans, integers, finite reals, names, literal and hexadecimal strings, null, references with any generation, arrays and dictionaries nested to any depth), '
     'parsing its serialisation gives an equal value of the same types, also when it sits inside a dictionary or an array. '
     'For every stream forged from a dictionary without /DecodeParms, any supported filter chain and any content bytes (including bytes that look like endstream or end with an end-of-line), '
     'serialising then parsing gives the same entries, the same content and the same encoded bytes.',
     ['inputs'], 'all PDF values; all stream contents, entries and filter chains over the supported filters',
     'The tests serialise a dozen short literals; values compose without bound and string or stream bytes are arbitrary.',
     ['objects.py', 'filters.py'], [('serialize', 'objects.py'), ('parse_obj and its tokenizer', 'objects.py'), ('forge_stream', 'objects.py')],
     T + 'round trip over generated values and streams', 'Bounded random search over a grammar-complete generator; trusts the type-strict equality in lib/values.py.')

prop('C02', 'The value read does not depend on how an object is spelled',
     'Any legal spelling of an object (white space of any kind or none where a delimiter suffices, comments between tokens, signs and leading zeros on numbers, strings holding any delimiter or nested parentheses) '
     'is parsed to the same value as its plainest spelling. '
     'This holds at any offset of a larger buffer and at any nesting depth, and what follows the object does not change it. A stream whose /Length is missing or wrong extends up to its endstream keyword.',
     ['inputs'], 'all values x all legal spellings x all offsets',
     'Tests fix one spelling per construct; the combinations of spelling choices are unbounded.',
     ['objects.py'], [('next_token', 'objects.py'), ('parse_obj', 'objects.py'), ('replace_ref', 'objects.py')],
     T + 'metamorphic relation between an independent speller and the parser', 'Bounded random search; trusts the speller (ISO 32000-1 7.2, 7.3).')

prop('C03', 'Reading damaged or hostile bytes always finishes',
     'Whatever the bytes, parsing an object, walking a file region by region, loading a document, disassembling, dumping or decoding streams and text always terminates: it gives a result or raises an ordinary exception '
     'within a number of steps bounded by a small multiple of the input size, never looping for ever and never exhausting the interpreter (circular /Prev chains, unbalanced delimiters, truncated tokens and files included).',
     ['inputs'], 'all byte sequences up to a size bound; mutations and truncations of valid files',
     'Tests read well-formed files only, plus a handful of truncated tokens.',
     ['objects.py', 'filestruct.py', 'docstruct.py', 'filters.py', 'text.py', 'cli.py'],
     [('next_token, parse_region', 'objects.py'), ('build_xref_sequence', 'filestruct.py'), ('decode_stream', 'filters.py')],
     'mutation fuzzing and property-based testing with a deterministic step-count oracle',
     'Hangs are confirmed by counting interpreter events, not by wall clock. Bounded input sizes.')

prop('C04', 'Stream filters are lossless and interoperable',
     'For every content and every chain of /ASCIIHexDecode, /ASCII85Decode and /FlateDecode, decoding what the encoder wrote gives the content back, and an independent decoder applied in the order of the /Filter array agrees. '
     'Any conforming encoding made by an independent encoder is decoded to the original content: hexadecimal in any case with white space and odd digits, ASCII85 with z, line breaks and ~>, deflate at any level, PNG predictors with any mix of row tags, /Colors, /BitsPerComponent and /Columns. '
     'Changing the filter of a stream of a document never changes its decoded content, and streams whose filter is not supported are left untouched.',
     ['inputs'], 'all byte contents x filter chains x encoder choices x predictor geometries',
     'Tests decode two or three fixed payloads; data-dependent cases (zero groups, tails of 1-3 bytes, every Paeth branch) are not enumerated.',
     ['filters.py', 'objects.py', 'api.py'], [('decode_stream/encode_stream', 'filters.py'), ('decode_predictor, paeth', 'filters.py'), ('apply_filter', 'api.py')],
     T + 'differential against independent encoders and decoders, round trip', 'Reference codecs are written in lib/refcodec.py from the standard; zlib is trusted.')

prop('C05', 'Loading a file exposes exactly the objects it defines',
     'For every well-formed unencrypted file, whatever its storage (xref tables, xref streams, object streams, hybrid files, linearized files, any number of incremental updates, free entries, non-zero generations, several subsections, any white space or comments), '
     'loading gives the last definition of every object number and the right trailer, the set of objects in use is exactly the set defined and not deleted, and deleted or undefined numbers give no object. '
     'The result is the same for the same objects stored in any of those ways.',
     ['inputs', 'histories'], 'all file layouts of an independent writer x all histories of definitions, replacements and deletions',
     'Tests load three or four sample files with one layout each.',
     ['filestruct.py', 'docstruct.py', 'objects.py', 'api.py'],
     [('build_xref_sequence', 'filestruct.py'), ('build_index_from_xref_sequence', 'filestruct.py'), ('memoize_obj_in_cache', 'docstruct.py'), ('parse_xref_table/parse_xref_stream', 'filestruct.py')],
     T + 'independent file writer with a reference model of the objects', 'The writer lib/pdfgen.py and its model are trusted; encryption and damaged files are out of scope.')

prop('C06', 'Rewinding a loaded file shows each revision as it was',
     'For every file with incremental updates, the number of revisions seen is the number of updates written, and rewinding k times from the loaded document shows exactly the objects and the trailer that were current at that revision, '
     'with later additions, replacements and deletions undone. The list of changes of each revision names exactly the objects it added, updated and deleted.',
     ['histories'], 'all histories of incremental updates and all rewind depths',
     'Tests rewind one document once; histories and per-revision layouts are not explored.',
     ['filestruct.py', 'docstruct.py'], [('build_index_from_xref_sequence', 'filestruct.py'), ('rewind', 'docstruct.py'), ('changes', 'docstruct.py')],
     T + 'model of every revision compared after each rewind', 'Shares the trusted writer of C05.')

prop('C07', 'The way a file is given does not change what is read',
     'A document loaded from bytes, from a file name, from an open file read at once or from an open file read on demand has the same objects, trailer, revisions, pages and structure, '
     'and a document read on demand can be modified, written and reloaded to the same result. Hexadecimal dumps and file maps agree whatever the source.',
     ['inputs', 'configurations'], 'all files x the four ways of loading',
     'Tests of on-demand reading check one tuple on one file.',
     ['filestruct.py', 'api.py', 'docstruct.py'], [('bdata_provider', 'filestruct.py'), ('build_xref_sequence', 'filestruct.py'), ('merge_fdata', 'docstruct.py')],
     T + 'differential between data sources', 'Files come from the writer of C05.')

prop('C08', 'Writing a modified file only appends to it',
     'For every loaded file and every sequence of edits, commits and rewinds, the bytes written begin with the bytes of the source, unchanged, up to the end of the last of its revisions still committed, '
     'followed by the new revisions; an unmodified document is written back byte for byte, and writing again a document already written gives the same bytes. The source file itself is never touched by anything but a write to its own name.',
     ['inputs', 'histories'], 'all loaded files x all edit sequences',
     'Tests check one file with one edit.',
     ['api.py', 'docstruct.py', 'filestruct.py'], [('writefile', 'api.py'), ('commit', 'docstruct.py'), ('eof_cut', 'filestruct.py')],
     T + 'byte-prefix invariant over generated edit histories', 'Files come from the writer of C05.')

prop('C09', 'Every file written is structurally valid',
     'Whatever the document and the edits, the bytes written satisfy a strict reader: startxref and every /Prev point at a cross-reference section, table entries are exactly 20 bytes and point at the object header with the right number and generation, '
     '/Size exceeds every object number, stream /Length is exact, xref stream /W and /Index fit the data, object streams have right /N and /First and hold neither streams nor objects with a generation, and free entries form a list back to 0.',
     ['inputs', 'histories'], 'all documents (loaded in any layout, blank, squashed, compressed, concatenated) x all edit histories',
     'Tests compare a few written files with expected bytes.',
     ['filestruct.py', 'docstruct.py', 'objects.py', 'api.py'],
     [('build_revision_byte_stream', 'filestruct.py'), ('format_xref_table/format_xref_stream', 'filestruct.py'), ('finalize_stream', 'filestruct.py')],
     T + 'stateful generation against an independent strict reader', 'lib/refpdf.py is the trusted reader.')

prop('C10', 'Saved edits are exactly what is read back',
     'After any sequence of object updates, additions, deletions and commits on any document, writing the file and reading it again gives every object as last set, every deleted object absent, nothing else changed and the same trailer, '
     'both through pdfsyntax and through an independent reader. Each commit in between is one revision of the file read back.',
     ['histories'], 'all edit histories over all documents',
     'Tests apply one or two edits to one sample and mostly inspect memory.',
     ['docstruct.py', 'filestruct.py', 'api.py'], [('update_object/add_object', 'docstruct.py'), ('commit', 'docstruct.py'), ('build_revision_byte_stream', 'filestruct.py')],
     'stateful model-based property testing (Hypothesis) with file round trip', 'Trusts the model in the check and lib/refpdf.py.')

prop('C11', 'Documents are immutable: an operation never alters its input',
     'Every operation that returns a new document (update, add, delete, commit, rewind, rotate, annotate, apply a filter, compress, squash, concatenate, keep or remove pages, slice, write) leaves every document that existed before unchanged: '
     'same objects, trailer, changes, pages, written bytes and further behaviour. Mutating an object obtained from a document does not alter the document, and reading a document never changes it.',
     ['histories'], 'all histories of operations over a growing pool of documents',
     'Tests keep using the latest document only; sharing between versions is invisible to them.',
     ['docstruct.py', 'api.py'], [('copy_doc', 'docstruct.py'), ('update_object', 'docstruct.py'), ('deepcopy in get_object', 'docstruct.py'), ('force_xref_stream, group_obj_into_stream', 'docstruct.py')],
     'stateful property testing: observable snapshot of every older document after every operation', 'Observation is through the public API and written bytes.')

prop('C12', 'Commit and rewind are inverse over any history',
     'Committing changes never alters the objects visible, opens an empty revision and adds one revision; committing without changes returns the same state. '
     'After any interleaving of edits, commits and rewinds, the document visible after a rewind is exactly the one at that commit point, and edits made after a rewind and written build on it.',
     ['histories'], 'all interleavings of edits, commits and rewinds over loaded and blank documents',
     'Tests do one commit or one rewind.',
     ['docstruct.py'], [('commit', 'docstruct.py'), ('rewind', 'docstruct.py'), ('merge_fdata', 'docstruct.py')],
     'stateful model-based property testing', 'Trusts the stack-of-states model in the check.')

prop('C13', 'Squashing keeps the document and forgets its history',
     'For every document, squashing gives a single-revision document whose trailer and objects are isomorphic to the original up to renumbering: every object in use (except file-structure containers) is kept exactly once, '
     'all references including those in streams and the trailer are retargeted consistently, dangling references read as null, generations are zero, and no deleted or replaced content remains in the written file.',
     ['inputs', 'histories'], 'all documents and histories',
     'Tests squash one file and check counts.',
     ['docstruct.py', 'objects.py'], [('squash', 'docstruct.py'), ('defragment_map', 'docstruct.py'), ('deep_ref_retarget', 'objects.py')],
     T + 'graph isomorphism oracle from the trailer', 'Files come from the writer of C05.')

prop('C14', 'Compression is lossless',
     'For every document, compressing then writing gives a file in which the document graph reached from the trailer is the same: same objects, same decoded stream contents, same pages, metadata and text; '
     'every stream with supported filters is Flate-encoded, the version is at least 1.5, and streams with unsupported filters keep their exact bytes. The compress command does the same on files.',
     ['inputs'], 'all documents, layouts and stream filters',
     'Tests compress one file and compare sizes.',
     ['api.py', 'docstruct.py', 'filestruct.py', 'cli.py'], [('compress', 'api.py'), ('group_obj_into_stream', 'docstruct.py'), ('force_xref_stream', 'docstruct.py'), ('apply_filter', 'api.py')],
     T + 'isomorphism oracle through an independent reader', 'Trusts lib/refpdf.py.')

prop('C15', 'The page list is the page tree flattened, with inherited attributes',
     'For every page tree of any shape, the pages are the leaves in order, page count matches, and each page sees /Resources, /MediaBox, /CropBox and /Rotate from itself or from its nearest ancestor that has it, never from a sibling, another branch or an earlier call. '
     'Asking for the first n pages gives the first n of the full list.',
     ['inputs'], 'all page tree shapes and placements of attributes',
     'Tests use single-level trees.',
     ['docstruct.py', 'api.py'], [('flat_page_tree', 'docstruct.py'), ('pages', 'docstruct.py'), ('page_layouts', 'api.py')],
     T + 'reference tree model', 'Trusts the tree model in the check.')

prop('C16', 'Rotation adds up and touches only the pages asked for',
     'Rotating by d degrees changes the effective rotation of each requested page to its previous one (own or inherited) plus d modulo 360, and nothing else in the document: other pages, other entries and other objects stay equal. '
     'Rotations compose additively, and a rotation by 360 or by opposite angles leaves effective rotations unchanged, also after saving and reloading.',
     ['inputs', 'histories'], 'all documents, page selections and sequences of angles',
     'Tests rotate one page once.',
     ['api.py'], [('rotate', 'api.py'), ('flat_page_tree', 'docstruct.py')],
     T + 'algebraic laws and frame condition', 'Page tree generator of C15.')

prop('C17', 'Removing and keeping pages leaves exactly the other pages, intact',
     'For every document and every set of pages, removing (or keeping, indexing, slicing or iterating) gives a document whose pages are exactly the selected ones in order, with the same contents, inherited attributes and everything they reach, '
     'a consistent /Count and /Kids at every level, and nothing still reachable deleted. What only the removed pages used is deleted.',
     ['inputs'], 'all page trees with shared resources and cross references x all subsets of pages',
     'Tests remove one page from one flat document.',
     ['docstruct.py'], [('remove_pages', 'docstruct.py'), ('dependencies', 'docstruct.py'), ('Doc.__getitem__', 'docstruct.py')],
     T + 'reference model of pages and reachability', 'Page tree generator of C15.')

prop('C18', 'Concatenation gives the pages of both documents, unmixed',
     'For all documents a and b, a + b (or concat on either side) has the pages of a followed by those of b, each with its own contents and effective attributes deeply equal to the original, consistent counts and parents, and keeps the catalog entries and information of the target document; '
     'neither input changes, the streams that hold the file structure of the other document are not brought over, and the result survives saving and reloading.',
     ['inputs'], 'all pairs of documents in any layout',
     'Tests concatenate one sample with itself.',
     ['docstruct.py'], [('concat', 'docstruct.py'), ('squash', 'docstruct.py')],
     T + 'deep equality of pages up to renumbering', 'Page tree generator of C15.')

prop('C19', 'A text annotation is added once, to its page, with its exact text',
     'Adding a text annotation with any text (parentheses, backslashes, line ends, any PDFDocEncoding or other Unicode characters) to any page puts exactly one new annotation at the end of that page\'s /Annots, whether absent, direct or indirect, '
     'with the given rectangle and open flag and a text that reads back identically; existing annotations, the other pages and everything else are unchanged, also after saving and reloading.',
     ['inputs', 'histories'], 'all texts x documents x sequences of annotations',
     'Tests add one ASCII annotation.',
     ['api.py', 'text.py'], [('add_text_annotation', 'api.py'), ('text_string', 'text.py')],
     T + 'frame condition and text round trip', 'Page tree generator of C15.')

prop('C20', 'Text strings decode to their characters in every legal spelling',
     'For every text, any PDF spelling of it (literal with any mix of escapes, octal of one to three digits, line continuations, nested parentheses; hexadecimal in any case, with white space and odd digits; PDFDocEncoding or UTF-16BE with byte order mark) decodes to exactly that text.',
     ['inputs'], 'all texts x all spellings',
     'Tests decode three strings.',
     ['text.py'], [('text_string', 'text.py'), ('unescape_literal_string', 'text.py'), ('decode_pdfdoc', 'text.py')],
     T + 'round trip through an independent encoder', 'PDFDocEncoding table written from the standard in the check.')

prop('C21', 'Structure, version and metadata report the document as it is',
     'For every document, the reported version (header or a later catalog /Version), number of pages, number of updates, encrypted, hybrid and linearized flags and first page size, and every metadata field, are those of the current revision, '
     'whatever the layout, and absent metadata is reported as none. Inches and millimeters are converted to points. The overview command prints the same facts.',
     ['inputs', 'histories'], 'all layouts, histories and metadata values',
     'Tests check two files.',
     ['api.py', 'docstruct.py', 'cli.py'], [('structure', 'api.py'), ('metadata', 'api.py'), ('version', 'docstruct.py'), ('linearized', 'filestruct.py')],
     T + 'reference model of the facts', 'Files come from the writer of C05.')

prop('C22', 'Shown strings map to the characters and codes the font defines',
     'For every ToUnicode CMap (bfchar and bfrange with arrays or increments, one or two byte codes, any number of sections, hexadecimal in any case) each code of a shown literal or hexadecimal string maps to its characters and unmapped codes to none; '
     'without a CMap, WinAnsi and MacRoman simple fonts map each byte by their table. Character widths follow /Widths with /FirstChar, or /W with /DW for composite fonts; codes they leave out have some width.',
     ['inputs'], 'all CMaps x all strings x widths arrays',
     'Tests decode one CMap.',
     ['text.py', 'docstruct.py'], [('apply_tounicode', 'text.py'), ('apply_encoding', 'text.py'), ('prepare_w, prepare_widths', 'docstruct.py')],
     T + 'reference model of CMaps, encodings and widths', 'Observed through text extraction and the font functions of a loaded document.')

prop('C23', 'Graphics and text state follow the content stream operators',
     'For every sequence of graphics and text operators, the sequence of commands parsed is the one written whatever its spelling (comments, gaps, inline images), and the transformation matrices and text state reached are those of a reference interpreter of the PDF imaging model (q/Q saving both and ignored when unmatched, cm composition, BT, Td, TD, Tm, T*, Tc, Tw, Tz, TL, Tf, Ts, apostrophe and quotation mark operators), '
     'as are the text and the start and end positions of each string shown. '
     'Page text extraction contains every shown string, from all content streams of the page whatever their number, text matrix and fonts, top line first and left to right within a line: texts of a line that are apart are separated by white space and those that touch are not, texts that begin at the same place are aligned, and a line left out of evenly spaced ones is a blank line.',
     ['programs', 'inputs'], 'all operator sequences and spellings',
     'Tests interpret one content stream.',
     ['graphics.py', 'api.py', 'layout.py'], [('apply_command', 'graphics.py'), ('parse_stream_content', 'graphics.py'), ('build_text_fragments', 'api.py'), ('basic_spatial_layout', 'layout.py')],
     T + 'differential against a reference interpreter', 'Reference interpreter in the check, exact rational arithmetic.')

prop('C24', 'Disassembly covers the file and marks what is indexed',
     'For every file, the regions listed by the disassembler are in order, do not overlap and leave nothing out but white space, every indirect object, xref section, trailer, startxref and comment is listed with its exact position and size, embedded objects are listed under their container, '
     'and objects and xref entries are marked as unmatched exactly when no xref section indexes the object, or the entry points at nothing. Revisions superseded by later updates are listed too.',
     ['inputs', 'histories'], 'all file layouts and histories, including orphan objects and wrong entries',
     'Tests disassemble one file and compare a few lines.',
     ['cli.py', 'filestruct.py', 'objects.py'], [('file_object_map, parse_region', 'filestruct.py'), ('check_index_targets, check_not_indexed_objects', 'filestruct.py'), ('dump_disasm', 'cli.py')],
     T + 'tiling invariant and positions recorded by an independent writer', 'Writer of C05.')

prop('C25', 'The HTML view shows every object safely and its links resolve',
     'For every file, whatever bytes its names, strings, comments, streams and file name hold, the HTML browser produces well-formed balanced markup with no element, attribute or script coming from the file, '
     'every object of every revision appears once with its entries and references, every internal link targets an anchor that exists and is unique and leads to the revision of the object in force there, '
     'each object lists the objects and trailers that use it, cross-reference entries are shown as they are, scripts are marked, and the menus list the pages, the objects and the facts of the document.',
     ['inputs'], 'all file layouts with hostile names, strings, comments and contents',
     'Tests do not look at the HTML.',
     ['display.py', 'cli.py', 'api.py'], [('build_html', 'display.py'), ('follow_obj', 'display.py'), ('cross_map_index', 'api.py')],
     T + 'HTML parsed by an independent parser, marker injection oracle', 'html.parser of the standard library is trusted.')

prop('C26', 'A hexadecimal dump shows every byte at its position',
     'For every file and every range asked for, the dump lists the bytes in order with their offsets, hexadecimal values and printable characters, so that the dumped range can be reconstructed exactly from it. Lines hold ten bytes from a multiple of ten, so a dump starts with the line that holds the first byte asked for; it stops exactly at the last.',
     ['inputs'], 'all byte contents x ranges x data sources',
     'No test looks at a dump.',
     ['filestruct.py', 'cli.py'], [('hexdump', 'filestruct.py')],
     T + 'round trip of the dump', 'None beyond the parser of the dump in the check.')

prop('C27', 'The font inventory lists each font once with its pages',
     'For every document, the font inventory has one entry per distinct indirect font object used by the resources (own or inherited, direct or indirect) of any page, with its name, type, encoding, whether it maps to Unicode, and exactly the pages that use it. The fonts command prints the same facts.',
     ['inputs'], 'all page trees and placements of fonts',
     'Tests list the fonts of one file.',
     ['api.py', 'docstruct.py', 'cli.py'], [('fonts', 'api.py'), ('get_page_fonts', 'docstruct.py'), ('print_fonts', 'cli.py')],
     T + 'reference model', 'Page tree generator of C15.')

prop('C28', 'Markdown rendering is total, keeps the text and follows the markup',
     'For every Markdown text, rendering terminates without error and loses, repeats or reorders no word; and for every document made of the supported constructs (titles, paragraphs and line breaks, flat lists, tables, block quotes, fenced and indented code blocks, '
     'emphasis, code spans, links and images), with or without blank lines between blocks that do not need one, the HTML is balanced and has exactly the elements written, in order, with their text and targets, '
     'where the characters <, > and & of code are escaped and markup inside code and link targets has no effect.',
     ['inputs'], 'all Markdown documents of the supported subset, and arbitrary text for totality and balance',
     'Tests render fixed snippets.',
     ['markdown.py'], [('render_html', 'markdown.py'), ('parse_markdown', 'markdown.py')],
     T + 'structure-aware generation, HTML parsed by an independent parser', 'html.parser of the standard library is trusted.')

prop('C29', 'The command line prints what the library gives and leaves its input alone',
     'For every file and every sequence of commands, each command (overview, text, fonts, browse, disasm, hexdump, compress) ends with status 0 and prints exactly what the library reports on the same file: its structure and metadata, the text of its pages in order, its fonts, its bytes; '
     'compress writes the compressed document, alone, to the standard output or to the file named, which may be the input itself; nothing else on disk is changed. An unknown command or a missing file ends with a non-zero status, prints nothing on the standard output and creates nothing.',
     ['inputs', 'histories'], 'all files and command sequences',
     'Tests never run the command line: arguments, file names, output streams and repeated commands on the same file are unexplored.',
     ['cli.py', '__main__.py', 'api.py'], [('main', 'cli.py'), ('overview', 'cli.py'), ('compress_file', 'cli.py'), ('writefile', 'api.py')],
     T + 'stateful command sequences, differential against the library', 'What the library reports is judged by the other properties; some cases run a real process.')

prop('C30', 'The inspection printouts tell the state of the document',
     'For every document and history of edits, commits, rewinds, saves and reloads: its summary tells its revision number and how many objects are modified; the printed index has, for each object, one cell per revision telling whether the object is defined there (with its generation and that revision), as before, deleted or not existing yet; '
     'the printed cache marks exactly the added, updated and deleted objects of the current revision; the printed data history gives where each revision ends, or how many bytes it adds, consistently with the bytes written. '
     'The printed page hierarchy is the page tree, node by node, with page numbers, and the printed contents of a page are those of its content streams.',
     ['histories', 'inputs'], 'all edit histories over all documents; all page trees',
     'Tests never print these views.',
     ['docstruct.py', 'api.py'], [('pprint_index', 'docstruct.py'), ('pprint_cache', 'docstruct.py'), ('pprint_data_history', 'docstruct.py'), ('pprint_page_hierarchy', 'docstruct.py'), ('pprint_page_contents', 'api.py')],
     T + 'model-based: stateful histories against a model of the revisions', 'Which objects a revision changes is also judged by C08 and C10.')
