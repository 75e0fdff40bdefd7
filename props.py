"""The properties: statement, what they range over, and the functions and rules
that decide each one.  properties.jsonl and MANIFEST.json are generated from
this table by gen.py."""

T_ALL = ('The 35 tests compare a handful of complete documents or single calls with expected bytes; '
         'they sample the quantifier (%s) and leave most of the code behind this property unexecuted.')

P = []
IMPLEMENTED = ('doc_keys', 'operators', 'enum_tables', 'purity', 'types', 'consts', 'bitflags')


def prop(id, title, statement, over, text, why, files, mech, roots, rules=(), observe=None, state=None, tech=None):
    rules = [r for r in rules if r in IMPLEMENTED]
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  roots=roots, rules=rules, observe=observe or [], state=state or [], tech=tech))


S = 'src/'
OBJ, CH, LIB, BUF, REN, CON = S + 'object.rs', S + 'chunk.rs', S + 'lib.rs', S + 'buf.rs', S + 'renumber.rs', S + 'content.rs'
SEAL = r'as object::sealed::Sealed>::write$'

# ---------------------------------------------------------------- file structure
prop('C01', 'Recorded object offsets are the byte positions of the object headers',
     'For every sequence of API calls, the offset kept for an indirect object is the distance from the start of its chunk or document '
     'to the first byte of that object\'s "N 0 obj" header, the header carries the id the caller passed, and every indirect object gets exactly one such '
     'entry. Appending a chunk to another chunk or to a document shifts the appended entries by exactly the number of bytes already present.',
     ['histories', 'inputs'], 'every history of chunk, document and writer calls and every object id',
     T_ALL % 'all call histories' + ' A wrong offset in one rarely combined call (a second extend, an object after a stream) yields a file that tests comparing other parts never open.',
     [CH, LIB, OBJ, REN],
     [dict(name='offset pushed before the header is written', where='chunk.rs: Chunk::indirect, Chunk::stream'),
      dict(name='rebasing of offsets', where='chunk.rs: Chunk::extend'),
      dict(name='xref stream registers itself', where='lib.rs: Pdf::finish_with_xref_stream_inner')],
     [r'^chunk::Chunk::', r'^Pdf::', r'^object::Obj::', r'^<Pdf as std::ops', r'^renumber::'], ['offset_at_header'],
     state=[dict(name='offsets', meaning='(id, byte position) per indirect object', where='chunk.rs: Chunk')])

prop('C02', 'Bytes already written are never changed, reordered or dropped',
     'Every API call only appends to the output, so whatever was written before a call is a prefix of what is there after it. The only exceptions are '
     'the two digits of the header version, the four bytes of the binary marker, and the removal of a single trailing separator when a content stream or PostScript program is completed.',
     ['histories', 'inputs'], 'every call history on documents, chunks, contents and writers',
     T_ALL % 'all histories' + ' A stray truncation or in-place edit shows only in combinations the tests do not build.',
     [BUF, CH, LIB, CON, OBJ, S + 'functions.rs', S + 'font.rs'],
     [dict(name='append-only buffer', where='buf.rs: Buf'), dict(name='header patches', where='lib.rs: Pdf::set_version, Pdf::set_binary_marker'),
      dict(name='trailing separator', where='content.rs: Content::finish')],
     [r'^buf::', r'^<buf::', r'^chunk::Chunk::(new|with_|extend|len|as_bytes|reserve|renumber|indirect|stream)', r'^Pdf::', r'^content::Content::(new|with|finish|op$|len|as_bytes)',
      r'^<Pdf as', r'^font::UnicodeCmap::', r'^functions::PostScriptOp::', SEAL, r'as std::ops::Drop>::drop$'], ['append_only'])

prop('C03', 'Classic cross-reference tables are well formed and point at every object',
     'Finishing a document writes one xref section starting with "0 N" and N entries of exactly 20 bytes ("oooooooooo ggggg n" or "f" plus CR LF) in ascending object order from 0: '
     'every written object appears in use at its recorded offset with generation 0, and every other number below N is on the free list with the next free number and, for object 0, generation 65535. '
     'Only the order of the ids decides the table, not the order in which the objects were written.',
     ['histories', 'inputs'], 'every set of object ids (with arbitrary gaps and order of writing) and every offset',
     T_ALL % 'all sets of ids and gaps' + ' Tests cover one or two gap patterns.',
     [LIB], [dict(name='table writer', where='lib.rs: write_offsets, PlainXRefWriter'), dict(name='finish', where='lib.rs: Pdf::finish')],
     [r'^Pdf::finish$', r'^Pdf::(catalog|document_info|set_file_id)$'], ['xref_plain'])

prop('C04', 'Cross-reference streams describe every object with wide enough fields',
     'Finishing with a cross-reference stream writes one stream object whose /W widths match its rows, each row being a type byte, a big-endian field wide enough for every offset and object number in it, and a two-byte generation; '
     'the stream object itself is listed, /Size is one more than the highest object number, and the data handed to the filter callback is exactly these rows in ascending object order. '
     'Unused numbers form a free list ending in object 0.',
     ['histories', 'inputs'], 'every set of object ids, every document length up to the limits of the format, every filter callback',
     T_ALL % 'all id sets and file sizes' + ' Field widths only change at sizes (256, 65536, 2^24 bytes) no test reaches.',
     [LIB], [dict(name='stream writer', where='lib.rs: XRefStreamWriter, determine_field_width'), dict(name='finish', where='lib.rs: Pdf::finish_with_xref_stream_inner')],
     [r'^Pdf::finish_with_xref_stream'], ['xref_stream'])

prop('C05', 'Trailers name the catalog, info and file id that were set, and the xref position',
     'The trailer or xref stream dictionary contains /Size, /Root with the id passed for the catalog if one was written, /Info with the id passed for the document information if one was written, and /ID with the two byte strings passed last, and none of these otherwise. '
     'The number after "startxref" is the byte position of the cross-reference section, and the file ends in "%%EOF".',
     ['histories', 'inputs'], 'every combination and order of catalog, document_info and set_file_id calls, with either way of finishing',
     T_ALL % 'all combinations of optional parts', [LIB],
     [dict(name='trailer', where='lib.rs: TrailerData::write_into_dict, finish_trailer')],
     [r'^Pdf::(finish|catalog|document_info|set_file_id|new|with_)'], ['trailer'])

prop('C06', 'A document that would write two objects with one id is refused',
     'Finishing a document, by either method, panics if two indirect objects with the same id were written in it or in any chunk appended to it (the id of the cross-reference stream included), and never panics for that reason otherwise.',
     ['histories', 'inputs'], 'every multiset of ids over every history of writes and chunk appends',
     T_ALL % 'all multisets of ids' + ' Whether a duplicate is noticed depends on where in the sorted order it falls.',
     [LIB, CH], [dict(name='duplicate check', where='lib.rs: write_offsets')],
     [r'^Pdf::finish', r'^chunk::Chunk::(extend|indirect|stream)$'], ['dup_panic'])

prop('C07', 'Every opened object, dictionary, array and stream is closed exactly once',
     'For every nesting of writers, each "<<", "[", "stream" and "N 0 obj" that a writer emits is closed by its matching end marker exactly once, when that writer is dropped or finished, at the nesting depth where it was opened; nothing but a writer\'s own content comes in between.',
     ['histories', 'programs'], 'every program the types admit, every nesting depth and every way a writer goes out of scope',
     T_ALL % 'all nestings' + ' A missing close in one of about 300 writers is only visible when that writer is used.',
     [OBJ, CON], [dict(name='Drop of Dict, Array, Stream', where='object.rs'), dict(name='Drop of Operation', where='content.rs')],
     [r'^object::(Obj|Dict|Array|Stream|TypedDict|TypedArray|Finish|Rewrite|Writer)', r'^<object::(Dict|Array|Stream|TypedDict|TypedArray)', r'^content::Operation::', r'^<content::Operation', r'as object::Writer>::start$',
      r'^<.* as std::ops::Deref'], ['balance'])

prop('C08', 'Adjacent tokens never run together',
     'In pretty and in compact mode, whatever values are written after one another as dictionary values, array items or operands, a separator is written between two tokens whenever both the end of the first and the start of the second are regular characters (an empty name counting as a token end), so that the output splits back into the tokens that were written.',
     ['inputs', 'histories', 'configurations'], 'every pair of neighbouring values in every position, in both settings',
     T_ALL % 'all pairs of neighbouring tokens' + ' Most pairs need no separator, so a missing one goes unnoticed in tests.',
     [OBJ, CON], [dict(name='needs_padding', where='object.rs: Obj::primitive, Dict::insert, Array::push'), dict(name='operator separator', where='content.rs: Operation')],
     [r'^object::(Obj|Dict|Array)::', r'^<object::(Dict|Array)', r'^content::Operation::', r'^<content::Operation', r'^object::is_', r'^content::Content::op$', r'^<object::(Name|Null|Ref|Rect|Str) ' ], ['padding', 'consts'])

prop('C09', 'The pretty setting changes whitespace only',
     'For the same sequence of calls, output written with pretty printing on and off differs only in whitespace between tokens: no key, value, delimiter, keyword, string byte or stream byte depends on the setting.',
     ['inputs', 'histories', 'configurations'], 'both values of the setting, every call and every value',
     T_ALL % 'all calls under both settings' + ' Nearly all tests run with pretty printing on.',
     [OBJ, CON, CH, LIB], [dict(name='settings.pretty', where='object.rs, content.rs, chunk.rs, lib.rs')],
     [r'^object::(Obj|Dict|Array|Stream|TypedDict|TypedArray)::', r'^<object::(Dict|Array|Stream)', r'^content::Operation::', r'^<content::Operation', r'^content::Content::', r'^chunk::Chunk::(indirect|stream)$', r'^Pdf::',
      r'^<chunk::Settings'], ['pretty_ws'])

# ---------------------------------------------------------------- primitive values
prop('C10', 'Names are escaped so that every byte sequence round-trips',
     'A name is written as "/" followed by one unit per input byte: bytes from "!" to "~" other than "#" and the ten delimiter characters stand for themselves, every other byte is written as "#" and two hexadecimal digits. Distinct names therefore have distinct encodings and none contains whitespace or a delimiter.',
     ['inputs'], 'every byte sequence', T_ALL % 'all 256 byte values at every position' + ' Tests use a few ASCII names.',
     [OBJ, BUF], [dict(name='Name', where='object.rs: impl Primitive for Name'), dict(name='hex', where='buf.rs: Buf::push_hex')],
     [r'^<object::Name ' , r'^buf::Buf::(push_hex|hex)$', r'^object::is_'], ['name_table'])

prop('C11', 'Strings decode to exactly the bytes passed in',
     'A byte string made of ASCII only is written as a literal string in which line ends, tab, backspace, form feed, backslash and unbalanced parentheses are escaped and other control bytes are written as three octal digits; any other byte string is written as a hexadecimal string with two digits per byte. Decoding either form by the PDF rules gives back the input for every input.',
     ['inputs'], 'every byte sequence, including every arrangement of parentheses and backslashes',
     T_ALL % 'all byte strings' + ' Balanced and unbalanced parentheses interact across the whole string.',
     [OBJ, BUF], [dict(name='Str', where='object.rs: impl Primitive for Str, Str::is_balanced'), dict(name='octal and hex', where='buf.rs')],
     [r'^<object::Str as', r'^object::Str::', r'^buf::Buf::(push_hex|hex|push_octal|octal)$'], ['str_bytes'])

prop('C12', 'Text strings carry the full Unicode text and language tags',
     'A text string consisting only of printable ASCII is written as the equivalent byte string; every other text is written as a hexadecimal string of U+FEFF followed by its UTF-16BE code units. A text string with language is the same with each language code (and region, if given) between U+001B characters in front of its text, always in the UTF-16BE form.',
     ['inputs'], 'every Unicode string and every language and region code', T_ALL % 'all Unicode strings' + ' Surrogate pairs and control characters take separate paths.',
     [OBJ], [dict(name='TextStr, TextStrWithLang', where='object.rs'), dict(name='LanguageIdentifier', where='object.rs')],
     [r'^<object::TextStr', r'^object::LanguageIdentifier::', r'^object::write_utf16be', r'^buf::Buf::push_hex_u16$', r'^<object::Str as'], [])

prop('C13', 'Numbers, booleans, null, references and rectangles use valid PDF syntax',
     'Integers are written in decimal, references as "N 0 R", booleans and null as their keywords, and rectangles as an array of their four corners in order; a finite float is written without an exponent, as an integer when it has an integral value in the 32-bit range and otherwise as a decimal that reads back as the same float.',
     ['inputs'], 'every i32, every finite f32, every reference', T_ALL % 'all 2^32 floats' + ' Tests sample about ten.',
     [OBJ, BUF], [dict(name='primitive impls', where='object.rs'), dict(name='push_int, push_float, push_decimal', where='buf.rs')],
     [r'^object::<impl object::sealed::Sealed for', r'^<object::(Ref|Rect|Null|.*Some)', r'^buf::Buf::(push_int|push_float|push_decimal|write_extreme|push_val|push)$', r'^object::Rect::'], ['float_no_exp'])

prop('C14', 'Dates are clamped and written with exactly the fields that were set',
     'A date is written as "(D:" with a four-digit year and the following two-digit fields up to, but not beyond, the first field that was not set, then "Z" or a signed "hh\'mm" offset if a UTC offset hour was given, then ")". Every setter clamps its argument to the range of its field (year 9999, month 1-12, day 1-31, hour 23, minute and second 59, offset -23 to 23 and 59).',
     ['inputs', 'histories'], 'every subset and order of setters and every argument value', T_ALL % 'all field subsets and values',
     [OBJ], [dict(name='Date', where='object.rs: Date, impl Primitive for Date')],
     [r'^object::Date::', r'^<object::Date'], [])

prop('C15', 'Reported limits are exact upper bounds of what was written',
     'The limits of a buffer, chunk or finished document are the maxima, over everything written into it so far, of integer magnitude, real magnitude, name length, string length, array length and number of dictionary entries; merging takes the componentwise maximum, appending a chunk or content merges its limits, and no operation ever lowers a limit.',
     ['histories', 'inputs'], 'every history of writes, merges and appends', T_ALL % 'all histories' + ' A limit that is not registered on one path is invisible unless that path holds the maximum.',
     [BUF, OBJ, CH], [dict(name='Limits', where='buf.rs: Limits::register_*, Limits::merge'), dict(name='registration sites', where='object.rs: primitive impls, Drop of Dict and Array')],
     [r'^buf::', r'^<buf::', SEAL, r'^<object::(Dict|Array) as std::ops::Drop', r'^chunk::Chunk::(extend|limits|merge_limits|renumber)', r'^object::(Array|Dict|Obj)::', r'^<object::(Array|Dict|Stream)', r'^Pdf::finish$', r'^object::Stream', r'^content::Content::finish'], ['limits_monotone'])

prop('C16', 'Streams declare the length of, and contain, exactly the data passed in',
     'A stream object is a dictionary whose /Length is the number of data bytes, followed by "stream", a newline, the data bytes unchanged, a newline and "endstream"; filters and decode parameters added to it are written under /Filter and /DecodeParms as given, and streams are always indirect objects.',
     ['inputs', 'histories'], 'every data slice (any bytes, any length) and every set of extra entries', T_ALL % 'all data and entries',
     [OBJ, CH], [dict(name='Stream', where='object.rs: Stream, Drop for Stream'), dict(name='Chunk::stream', where='chunk.rs')],
     [r'^object::Stream', r'^<object::Stream', r'^chunk::Chunk::stream$', r'^object::(Filter|DecodeParms|Predictor)', r'^<object::DecodeParms', r'^(color|font|functions|xobject|files|structure)::\w+::start_with_stream$'], ['doc_keys'])

prop('C17', 'Arrays, dictionaries and typed collections write and count their items in order',
     'Items and pairs are written in the order of the calls (or of the iterator), each exactly once and with its own key; the reported length is the number of items or pairs written so far and emptiness is length zero. The typed wrappers behave exactly like the plain ones for every item type.',
     ['histories', 'inputs', 'programs'], 'every sequence of pushes and inserts, every iterator, every item type', T_ALL % 'all sequences',
     [OBJ], [dict(name='Array, Dict, TypedArray, TypedDict', where='object.rs')],
     [r'^object::(Array|Dict|TypedArray|TypedDict|Obj)::', r'^<object::(Array|Dict|TypedArray|TypedDict)'], [])

prop('C18', 'Name trees and number trees write their nodes as documented',
     'A name or number tree node writes /Kids as an array of references, /Names or /Nums as one flat array alternating keys and values in call order, and /Limits as the two bounds passed, for every key and value type.',
     ['inputs', 'histories'], 'every sequence of entries and every value type', T_ALL % 'all entry sequences',
     [OBJ], [dict(name='NameTree, NumberTree', where='object.rs')],
     [r'^object::(NameTree|NumberTree)', r'^<object::(NameTree|NumberTree)', r'^chunk::Chunk::(name_tree|number_tree)$'], ['doc_keys'])


def typed(id, title, what, files, roots, mods, extra=''):
    prop(id, title,
         'Each method of the writers for %s writes exactly the entry its documentation names, with the value that was passed in (numbers, names, strings, references, array items in order), once per call and in call order, and a writer\'s start writes the required /Type and /Subtype entries and nothing else.%s' % (what, extra),
         ['inputs', 'histories', 'programs'], 'every method of these writers, every argument value, every order of calls',
         T_ALL % 'all methods and arguments' + ' Almost none of these methods is called by a test.',
         files, [dict(name=m, where=files[0]) for m in mods], roots, ['doc_keys', 'types_start'])


def m(mod, *names):
    alt = '|'.join(names)
    return [r'^%s::(%s)::' % (mod, alt), r'^<%s::(%s) as ' % (mod, alt)]


typed('C19', 'Catalog, preferences, names and metadata entries are written as documented',
      'the document catalog, viewer preferences, page labels, name dictionary, document information, mark information, extensions and metadata', [S + 'structure.rs'],
      m('structure', 'Catalog', 'ViewerPreferences', 'PageLabel', 'Names', 'DocumentInfo', 'MarkInfo', 'DeveloperExtension', 'Metadata', 'PageLayout', 'PageMode', 'NumberingStyle', 'TrappingStatus', 'Direction')
      + [r'^Pdf::(catalog|document_info)$', r'^chunk::Chunk::metadata$'], ['Catalog', 'ViewerPreferences', 'DocumentInfo'])
typed('C20', 'Page tree and page entries are written as documented', 'page tree nodes and pages (boxes, contents, resources, group, tabs, actions, transitions)', [S + 'structure.rs'],
      m('structure', 'Pages', 'Page', 'TabOrder') + [r'^chunk::Chunk::(page|pages)$', r'^object::Rect::', r'^<object::Rect'], ['Pages', 'Page'])
typed('C21', 'Outlines and destinations are written as documented', 'outlines, outline items and destinations', [S + 'structure.rs'],
      m('structure', 'Outline', 'OutlineItem', 'Destination', 'OutlineItemFlags') + [r'^chunk::Chunk::(outline|outline_item|destination|destinations)$'], ['Outline', 'OutlineItem', 'Destination'],
      ' Destinations write the page first, then the fit name, then the coordinates in the documented order.')
typed('C22', 'Structure tree entries are written as documented', 'the structure tree root, structure elements, their children, marked-content and object references, role maps, class maps and namespaces', [S + 'structure.rs'],
      m('structure', 'StructTreeRoot', 'StructElement', 'StructChildren', 'MarkedRef', 'ObjectRef', 'RoleMap', 'ClassMap', 'Namespace', 'NamespaceRoleMap', 'PhoneticAlphabet') + [r'^chunk::Chunk::(struct_element|namespace)$'],
      ['StructTreeRoot', 'StructElement'])
prop('C23', 'Structure role names and their version mapping are correct tables',
     'Every standard structure role is written under its name from the PDF specification, distinct roles have distinct names (heading levels included, for every level), and converting a role between the 1.7 and 2.0 sets gives the role of the same name where one exists and the documented fallback where it does not.',
     ['inputs'], 'every role, every heading level and every combination of compatibility options', T_ALL % 'all roles (over 100 table rows)',
     [S + 'structure.rs'], [dict(name='StructRole, StructRole2, StructRole2Compat, RoleMapOpts', where='structure.rs')],
     m('structure', 'StructRole', 'StructRole2', 'StructRole2Compat', 'RoleMapOpts') + [r'^<structure::(StructRole|StructRole2) ', r'^structure::(StructElement|RoleMap|NamespaceRoleMap)::'], ['role_tables'])
typed('C24', 'Structure attribute entries are written as documented', 'structure attributes (layout, list, field, table, artifact, note and user properties)', [S + 'attributes.rs'],
      [r'^attributes::', r'^<attributes::'], ['Attributes', 'LayoutAttributes', 'Sides'], ' Values given per side are written once when all sides agree and otherwise as an array in before, after, start, end order.')
typed('C25', 'Annotation entries are written as documented', 'annotations, appearances, appearance characteristics, border styles and icon fits', [S + 'annotations.rs'],
      [r'^annotations::', r'^<annotations::', r'^chunk::Chunk::annotation$', r'^object::Rect::to_quad_points$'], ['Annotation', 'Appearance', 'BorderStyle'])
typed('C26', 'Action entries are written as documented', 'actions, additional-action triggers and form action field lists', [S + 'actions.rs'],
      [r'^actions::', r'^<actions::'], ['Action', 'AdditionalActions', 'Fields'])
typed('C27', 'Form and field entries are written as documented', 'interactive forms, fields, choice options and their flags', [S + 'forms.rs'],
      m('forms', 'Form', 'Field', 'ChoiceOptions', 'FieldType', 'CheckBoxState', 'FieldFlags', 'SigFlags') + [r'^chunk::Chunk::form_field$'], ['Form', 'Field'])
typed('C28', 'Signature field entries are written as documented', 'signature locks, seed values, certificate constraints, time stamps and modification detection', [S + 'forms.rs'],
      m('forms', r'Signature\w*', r'Certificate\w*', 'AccessPermissions', 'LockingIntent', 'MdpSignatureType', 'SeedValueParserVersion') + [r'^chunk::Chunk::(signature\w*|sig\w*)$'], ['SignatureSeedValue', 'CertificateSeedValue'])
typed('C29', 'Font dictionary entries are written as documented', 'Type 0, 1 and 3 fonts, CID fonts, encodings, widths, differences, descriptors, style overrides and CMap streams', [S + 'font.rs'],
      m('font', 'CidFont', 'CidFontType', 'CjkClass', 'Cmap', 'Differences', 'Encoding', r'FontDescriptor\w*', 'FontFlags', 'FontStretch', 'SystemInfo', 'Type0Font', 'Type1Font', 'Type3Font', 'WMode', 'Widths')
      + [r'^chunk::Chunk::(type\d_font|cid_font|font_descriptor|cmap)$'], ['FontDescriptor', 'CidFont'])
prop('C30', 'ToUnicode CMaps map every code that was added, in blocks of at most 100',
     'A Unicode CMap program contains, for every pair added, one bfchar line with the code in its fixed byte width and the text in UTF-16BE, in call order, in blocks whose announced count equals their number of lines and never exceeds 100, between the fixed prologue (with the given name, system info and writing mode) and epilogue.',
     ['inputs', 'histories'], 'every sequence of pairs of any length, every code, every text', T_ALL % 'all sequences' + ' Block boundaries need more than 100 pairs.',
     [S + 'font.rs'], [dict(name='UnicodeCmap', where='font.rs: UnicodeCmap::pair, flush_range, finish')],
     [r'^font::UnicodeCmap::', r'^<u(8|16) as font', r'^buf::Buf::(push_hex|push_hex_u16|push_int|push)$'], ['cmap_blocks', 'consts'])
typed('C31', 'Colour space entries are written as documented', 'colour spaces, DeviceN and Separation attributes, ICC profiles and output intents', [S + 'color.rs'],
      m('color', 'ColorSpace', 'ColorSpaceType', 'DeviceColorSpace', r'DeviceN\w*', 'Separation', 'SeparationInfo', 'IccProfile', r'OutputIntent\w*') + [r'^chunk::Chunk::(color_space|icc_profile)$'], ['ColorSpace', 'IccProfile'])
typed('C32', 'Pattern and shading entries are written as documented', 'tiling and shading patterns, function-based, axial, radial and mesh shadings', [S + 'color.rs'],
      m('color', 'TilingPattern', 'ShadingPattern', 'FunctionShading', 'FunctionShadingType', 'StreamShading', 'StreamShadingType', 'PaintType', 'TilingType', 'PatternType') + [r'^chunk::Chunk::\w*(shading|pattern)$'], ['TilingPattern', 'FunctionShading'])
typed('C33', 'Image and form XObject entries are written as documented', 'image XObjects, form XObjects, transparency groups and reference XObjects', [S + 'xobject.rs'],
      [r'^xobject::', r'^<xobject::', r'^chunk::Chunk::(image_xobject|form_xobject)$'], ['ImageXObject', 'FormXObject'])
typed('C34', 'Function dictionaries are written as documented', 'sampled, exponential, stitching and PostScript functions', [S + 'functions.rs'],
      m('functions', 'ExponentialFunction', 'FunctionType', 'InterpolationOrder', 'PostScriptFunction', 'SampledFunction', 'StitchingFunction') + [r'^chunk::Chunk::\w+_function$'], ['SampledFunction', 'StitchingFunction'])
prop('C35', 'PostScript calculator programs encode their operators in order',
     'Encoding a sequence of PostScript operators yields "{", the encoding of each operator in order separated by whitespace, and "}", for every nesting of conditionals, with every operator spelled by its PostScript name, integers and reals as numbers, and the branches of if and ifelse as procedures in front of the keyword.',
     ['inputs'], 'every operator sequence and nesting', T_ALL % 'all sequences and nestings', [S + 'functions.rs'],
     [dict(name='PostScriptOp', where='functions.rs: PostScriptOp::encode, write, write_slice')], [r'^functions::PostScriptOp::', r'^buf::Buf::(push_int|push_float|push_decimal|push_val)$', r'^object::<impl object::sealed::Sealed for'], ['ps_ops'])
typed('C36', 'File specifications and embedded files are written as documented', 'file specifications, embedded files and their parameters', [S + 'files.rs'],
      [r'^files::', r'^<files::', r'^chunk::Chunk::(file_spec|embedded_file)$'], ['FileSpec', 'EmbeddedFile'])
typed('C37', 'Rendition and transition entries are written as documented', 'renditions, media clips, play parameters, permissions and page transitions', [S + 'renditions.rs', S + 'transitions.rs'],
      [r'^renditions::', r'^<renditions::', r'^transitions::', r'^<transitions::'], ['Rendition', 'MediaClip', 'Transition'])
prop('C38', 'Content operators are written with their operands in specification order',
     'Each graphics, path, text, colour, XObject and marked-content method of a content stream writes its operands in the order of the PDF specification followed by exactly the operator the documentation names, for all argument values; writers for longer operands (text positioning, property lists) end with their operator when dropped.',
     ['inputs', 'histories'], 'every method, every argument value, every call order', T_ALL % 'all methods and arguments', [CON],
     [dict(name='Content methods', where='content.rs'), dict(name='Operation', where='content.rs')], [r'^content::(Content|Operation|ShowPositioned|PositionedItems|MarkContent|PropertyList|Artifact\w*|LineCapStyle|LineJoinStyle|RenderingIntent|ColorSpaceOperand|TextRenderingMode)::',
      r'^<content::(Operation|ShowPositioned|PositionedItems|MarkContent|PropertyList|Artifact\w*|ColorSpaceOperand) as'], ['operators'])
typed('C39', 'Resource and graphics state dictionaries are written as documented', 'resource dictionaries, extended graphics state and soft masks', [CON],
      m('content', 'Resources', 'ExtGraphicsState', 'SoftMask', 'BlendMode', 'MaskType', 'ProcSet', 'OverprintMode') + [r'^chunk::Chunk::ext_graphics$'], ['Resources', 'ExtGraphicsState', 'SoftMask'])
prop('C40', 'The graphics state nesting depth is tracked exactly',
     'The nesting depth a content stream reports is the largest number of saves not yet restored at any point of its history, restoring without a matching save is handled as documented, and finishing reports the same value whatever other operators were written in between.',
     ['histories'], 'every sequence of saves, restores and other operators', T_ALL % 'all sequences', [CON],
     [dict(name='q_depths', where='content.rs: Content::save_state, restore_state, state_nesting_depth')], [r'^content::Content::', r'^<content::Operation', r'^content::Operation::'], ['q_depth'],
     state=[dict(name='nesting depth', meaning='open and maximal q depth', where='content.rs: Content')])

# ---------------------------------------------------------------- chunks
prop('C41', 'Renumbering rewrites ids consistently and leaves everything else unchanged',
     'Renumbering a chunk calls the mapping for every object header and every "N G R" reference it contains outside of stream data, writes the mapped id with generation 0 in their place, and copies every other byte, stream data included, unchanged and in order; the recorded offsets of the result point at the renumbered headers and limits carry over.',
     ['inputs', 'programs'], 'every chunk content and every mapping function', T_ALL % 'all contents and mappings' + ' The scanner works backwards over digits and whitespace, with many boundary cases.',
     [REN, CH], [dict(name='renumber', where='renumber.rs'), dict(name='Chunk::renumber', where='chunk.rs')], [r'^renumber::', r'^chunk::Chunk::(renumber|renumber_into|with_capacity|indirect|extend)$'], [])
prop('C42', 'Chunks combine and report their contents faithfully',
     'Appending a chunk adds its bytes unchanged at the end and its objects after those already present; length, bytes and references reported by a chunk are those of what was written; each typed constructor of a chunk starts an indirect object with exactly the id it was given.',
     ['histories', 'inputs'], 'every history of writes and appends', T_ALL % 'all histories', [CH, LIB],
     [dict(name='Chunk', where='chunk.rs')], [r'^chunk::', r'^<chunk::', r'^<Pdf as std::ops'], [])
prop('C43', 'Invalid arguments named in the documentation are refused',
     'Each call whose documentation states a panic condition panics for every argument satisfying it and for no other argument: non-positive object ids, oversized streams, invalid colour component counts, bit depths and steps, out-of-range line width and flatness, wrong call order of alternate colour spaces, negative outline counts, and the like.',
     ['inputs', 'histories'], 'every argument value and call order of the methods with a documented panic', T_ALL % 'all argument values' + ' Tests never provoke most of these panics.',
     [OBJ, CH, CON, S + 'color.rs', S + 'structure.rs'], [dict(name='asserts', where='object.rs, chunk.rs, content.rs, color.rs, structure.rs')],
     [r'^object::Ref::', r'^object::DecodeParms::(colors|bits_per_component|predictor|columns)$', r'^chunk::Chunk::stream$', r'^object::Stream::start$', r'^color::(IccProfile|Separation|DeviceN|TilingPattern)::', r'^content::Content::(set_line_width|set_flatness|set_miter_limit|restore_state|save_state)$',
      r'^structure::(OutlineItem|Outline|ViewerPreferences)::', r'^content::ExtGraphicsState::', r'^object::LanguageIdentifier::'], ['panic_doc'])
prop('C44', 'Object references are positive and ordered like their numbers',
     'A reference is only ever created from a number between 1 and the largest 32-bit integer, returns that number, compares and hashes like it, and its successor has the next number; obtaining a successor of the largest number panics instead of wrapping.',
     ['inputs', 'histories'], 'every 32-bit number and every history of bumps', T_ALL % 'all 2^32 numbers', [OBJ],
     [dict(name='Ref', where='object.rs')], [r'^object::Ref::', r'^<object::Ref as'], [])
prop('C45', 'Flag sets use the bit positions of the specification',
     'Every flag of every public flag set has the bit value the PDF specification assigns to it, flags of one set do not overlap unless the specification makes them so, and a flag set is written as the integer of its bits.',
     ['inputs'], 'every flag of every set and every combination', T_ALL % 'all flags', [S + 'forms.rs', S + 'annotations.rs', S + 'font.rs', S + 'actions.rs', S + 'structure.rs'],
     [dict(name='bitflags!', where='actions.rs, annotations.rs, font.rs, forms.rs, structure.rs')],
     [r'^<\w+::\w+ as bitflags', r'^annotations::Annotation::flags$', r'^forms::(Form|Field|SignatureSeedValue|CertificateSeedValue)::', r'^font::(FontDescriptor|CidFont|FontDescriptorOverride)::', r'^actions::Action::', r'^structure::OutlineItem::'], ['bitflags', 'consts'])
prop('C46', 'Enumerations are written under the names and numbers of the specification',
     'Every variant of every public enumeration is written as the name or number that the PDF specification assigns to it, and two variants that mean different things are never written alike.',
     ['inputs'], 'every variant of every enumeration', T_ALL % 'all variants (several hundred)', [S + 'annotations.rs', S + 'attributes.rs', S + 'color.rs', CON, S + 'font.rs', S + 'forms.rs', OBJ, S + 'structure.rs'],
     [dict(name='to_name, to_int', where='all modules')], [r'::(to_name|to_int|to_i32|to_num|to_str|value)$'], ['enum_tables'])
prop('C47', 'Output is a pure function of the calls made',
     'What is written depends only on the sequence of API calls and their arguments: no clock, random source, environment, file, thread, address or hash order influences it, and no call has an effect outside its own writer, so that two identical histories give identical files.',
     ['histories', 'programs', 'schedules'], 'every history, every environment, every interleaving with other writers', T_ALL % 'all environments' + ' A test run sees one environment.',
     [LIB, CH, OBJ, CON, BUF, REN], [dict(name='no ambient state', where='whole crate')], [], ['purity'])
prop('C48', 'The types admit one open writer at a time',
     'While a writer for an object, dictionary, array, stream or operator is open, a safe program can neither write to its parent, finish the document, nor open a sibling; writers cannot be duplicated, outlive their buffer or be used after they are finished.',
     ['programs'], 'every safe program using the API', 'Tests are programs that compile; the property is about the programs that must not.',
     [OBJ, CH, CON, LIB], [dict(name='exclusive borrows in writer types', where='object.rs: Obj, Dict, Array, Stream; content.rs: Operation')], [], ['types'])
prop('C49', 'A document starts with the chosen header and every setting takes effect',
     'A new document starts with "%PDF-1.7", a newline, a comment with four bytes above 127, and a blank line; choosing a version with single digits changes just these digits, choosing a binary marker just these four bytes, whatever was written before or after, and capacity hints never change the output.',
     ['inputs', 'histories', 'configurations'], 'every version, marker, capacity and setting, at any point of the history', T_ALL % 'all settings and times', [LIB, CH, CON],
     [dict(name='header', where='lib.rs: Pdf::with_settings_and_capacity, set_version, set_binary_marker')], [r'^Pdf::(new|with_|set_)', r'^chunk::Chunk::(new|with_)', r'^content::Content::(new|with_)', r'^<chunk::Settings', r'^buf::Buf::(new|with_capacity|reserve)$',
      r'^(chunk::Chunk|content::Content)::(reserve|len|as_bytes)$', r'^<Pdf as std::ops'], ['header'])

NA = [
    ('C90', 'A finished document is accepted by every conforming PDF reader',
     'Any document produced through safe use of the API is read without error by a conforming PDF reader, which recovers exactly the objects that were written.',
     ['programs', 'inputs'], 'every program and every reader',
     'The quantifier includes the behaviour of external readers and the semantic completeness of what the caller writes (required entries are the caller\'s responsibility); no static argument over this source bounds it. Its structural clauses are claimed separately as C01-C18.'),
    ('C91', 'Float formatting round-trips through the third-party formatter',
     'The decimal produced for a non-integral float by the formatting library is the shortest one that reads back as the same float.',
     ['inputs'], 'every f32',
     'The digits come from the ryu crate and the standard library; deciding their numeric correctness is a theorem about those algorithms, not about the shape of this repository\'s code. The repository\'s own part (which formatter is chosen for which range, no exponent form) is claimed in C13.'),
    ('C92', 'Writing a document takes time and memory linear in its size',
     'The time and memory used by any sequence of calls is proportional to the number of bytes written plus n log n for n objects when finishing.',
     ['histories', 'inputs'], 'every history',
     'Resource bounds depend on allocator and library behaviour and on runtime sizes; a static cost analysis of the monomorphised dependencies is out of reach here.'),
]
