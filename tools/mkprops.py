"""Writes properties.jsonl (kept as code so the statements are easy to edit)"""
import json, os
P = []
SRC = 'distribution/src/jadn/'
COD, CI, FS, FV, TR, RS = (SRC + x for x in ('codec/codec.py', 'codec/__init__.py', 'codec/format_serialize_json.py',
                                            'codec/format_validate.py', 'transform/transform.py', 'transform/resolve.py'))
CORE, UT, DEF, JIDL, HTML, MD, DIA, JS = (SRC + x for x in ('core.py', 'utils.py', 'definitions.py', 'convert/jidl.py',
                                          'convert/html.py', 'convert/markdown.py', 'convert/diagram_w.py', 'translate/jsonschema_w.py'))


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Encoding then decoding restores every valid message, in every mode',
     'For every accepted schema, every type in it and every value that is valid for that type, encoding the value, writing it '
     'as JSON text, reading the text back and decoding it returns a value equal to the original, with the same types, in each '
     'of the four message modes (records as objects or arrays, identifiers as names or numbers). The only exception is an '
     'untagged union whose message also fits another alternative.',
     ['inputs', 'configurations'], 'all schemas x types x valid values x 4 message modes',
     'The tests round-trip a few dozen hand-written values against fixed schemas and mostly compare Python objects without going '
     'through JSON text; combinations of options, nesting and mode are not sampled.',
     [COD, CI, FS], [('encoders and decoders per base type', COD + ' enctab'), ('symbol table per mode', CI + ' Codec.set_mode')],
     observe=['Codec.encode', 'Codec.decode'])

prop('C02', 'Encoding accepts exactly the valid values and writes the mode\'s message form',
     'A value is encoded if and only if it satisfies every constraint its type declares: kind of value, value range, size, '
     'pattern, format, enumerated items, required and unknown fields, element count, uniqueness, choice of exactly one '
     'alternative, and the default size limits. The message produced is the one the mode defines: records as objects or as '
     'arrays without trailing empty positions, identifiers as names or numbers (always numbers for types marked as identified '
     'by number), binary data in the text form of its format.',
     ['inputs', 'configurations'], 'all schemas x types x (valid, boundary and mutated) values x 4 modes, against a reference model',
     'Tests check a handful of accept/reject pairs per option; every option, at its exact boundary, inside every container and in every '
     'mode is a product no table of examples covers.',
     [COD, CI, FV, FS], [('_check_size/_check_range/_check_frange/_check_pattern/_check_count', COD), ('Codec.set_mode', CI)],
     observe=['Codec.encode'])

prop('C03', 'Decoding accepts exactly the valid messages and returns their value',
     'A JSON message is decoded if and only if it is a valid message of the type in the current mode, under the same constraints '
     'that encoding enforces, and the decoded value is the one the message denotes. Whatever decoding returns is itself a valid '
     'value (an untagged one-of, which counts its alternatives by message, aside): nothing reaches the application that violates the schema.',
     ['inputs', 'configurations'], 'all schemas x types x (valid and mutated) JSON messages x 4 modes, against a reference model',
     'Most decode tests feed valid messages; the rejecting half is sampled by a few wrong-type examples and never per constraint, container and mode.',
     [COD, CI, FV, FS], [('decoders', COD + ' _decode_*'), ('format decode and validation', FS)], observe=['Codec.decode'])

prop('C04', 'Hostile input is rejected cleanly and leaves the codec intact',
     'Decoding or encoding an arbitrary value, however malformed or deeply wrong, either returns a result or raises a value error or type error; '
     'no other exception escapes, for any text given to a semantic format and for patterns that are not regular expressions too. After any such failure the codec still handles valid messages exactly as a new one does.',
     ['inputs', 'histories'], 'all JSON values (and arbitrary Python values on encode) x all types, alone and in sequences',
     'The tests assert specific rejections; an unexpected exception class needs an input nobody thought of.',
     [COD, FS, FV], [('raise_error', UT), ('format decode functions', FS)], observe=['Codec.decode', 'Codec.encode'])

prop('C05', 'A codec has no memory and never changes its arguments',
     'The result of each encode or decode call depends only on the schema, the mode and the value given: any history of calls, failures and mode '
     'changes gives the same results as a fresh codec in that mode. No call modifies the schema passed in or the value or message passed in, and several '
     'codecs made from one schema do not influence each other.',
     ['histories'], 'all sequences of construct / set_mode / encode / decode, valid and failing, over one or more codecs',
     'Tests use one codec per case and never interleave modes, failures and codecs, nor compare the schema before and after.',
     [CI, COD], [('Codec keeps its own unfolded copy of the schema', CI + ' __init__'), ('symbol table rebuilt by set_mode', CI)],
     state=[('symtab', 'per-type encoder state for the current mode', CI)], observe=['Codec.set_mode', 'Codec.encode', 'Codec.decode'])

prop('C06', 'Format keywords follow their standards in both directions',
     'For every semantic format (IP addresses and networks, UUIDs, tagged UUIDs, hardware addresses, hex and base64url, sized integers, millisecond date-times, '
     'e-mail addresses and host names, dates and URIs) the codec accepts exactly the values the format defines and its text form is the standard one. Every value accepted '
     'by encoding is read back unchanged from its text form, and malformed text is rejected.',
     ['inputs'], 'all values of each format and all texts near them', 'Tests hold a few examples per format; rounding, prefix lengths, padding and anchoring errors lie between the examples.',
     [FS, FV], [('format conversion tables', FS), ('format validators', FV)], observe=['Codec.encode', 'Codec.decode'])

prop('C07', 'Schema checking accepts well-formed schemas and rejects each kind of fault',
     'Every well-formed schema is accepted and returned equal to its input (apart from omitted trailing columns being filled in), and checking it again changes nothing. '
     'A schema with any one structural fault is rejected: unknown base type, reserved or duplicate type name, bad type or field name, missing, unknown or disallowed option, '
     'wrong format for the type, inverted range, duplicate field number or name, wrong field columns, non-ordinal position numbers, bad multiplicity, dangling tag reference, inline compound type, fields on a derived enumeration, repeated option, unknown combination, '
     'a value on an option that has none, a limit that is not finite, an empty type reference in an option, no types at all, or a configured name rule that is not a regular expression.',
     ['inputs', 'programs'], 'all generated well-formed schemas, and each of them with one injected fault at any site',
     'Tests reject about two dozen fixed bad schemas; the site of the fault (which type, field, option position) is never varied.',
     [CORE, DEF, UT], [('JSON Schema, metaschema and extra checks', CORE + ' check'), ('option tables', DEF)], observe=['jadn.check', 'jadn.loads', 'jadn.load'])

prop('C08', 'Writing a schema as JADN text or file and loading it is the identity',
     'Any accepted schema written as JADN text, in the normal or compact layout, or to a file, loads back equal to the original, and writing the loaded schema again gives the same text. '
     'The text is valid JSON whatever characters its names, options and descriptions contain.',
     ['inputs'], 'all accepted schemas, both layouts, text and file', 'Tests load and dump two example files.',
     [CORE], [('dumps_rec layout writer', CORE), ('dump/load', CORE)], observe=['jadn.dumps', 'jadn.loads', 'jadn.dump', 'jadn.load', 'jadn.load_any'])

prop('C09', 'Converting a schema to JIDL and back preserves it',
     'Any accepted schema converted to JIDL text or file and parsed again has the same information header, types, options, fields and descriptions (up to the order of options, default values of '
     'sizes and multiplicity, and outer white space of descriptions), for any column widths. Converting the parsed schema again yields the same text.',
     ['inputs', 'configurations'], 'all accepted schemas with arbitrary descriptions, patterns and column widths',
     'One test converts one or two example schemas; text that collides with the notation (quotes, slashes, brackets, keywords) is not tried.',
     [JIDL, UT], [('jidl_dumps / line2jadn', JIDL), ('jadn2fielddef / fielddef2jadn', UT)], observe=['jadn.convert.jidl_dumps', 'jadn.convert.jidl_loads', 'jadn.convert.jidl_dump', 'jadn.convert.jidl_load'])

prop('C10', 'Converting a schema to HTML and back preserves it',
     'Any accepted schema converted to an HTML page and parsed again has the same information header, types, options, fields and descriptions (up to the order of options, default values of sizes and multiplicity, '
     'and outer white space). Text from the schema never becomes markup of the page.',
     ['inputs'], 'all accepted schemas with arbitrary descriptions and patterns', 'One test converts one or two example schemas without markup characters.',
     [HTML, SRC + 'convert/utils.py', UT], [('html_dumps / html_loads', HTML)], observe=['jadn.convert.html_dumps', 'jadn.convert.html_loads'])

prop('C11', 'Type strings, field definitions and option lists are inverse notations',
     'For every legal combination of base type and type options, writing it as a type string and parsing the string gives back the same type and options; for every legal field the textual name, type, '
     'multiplicity and description parse back to the same field. Option lists convert to dictionaries and back without loss, and canonical sorting only reorders.',
     ['inputs'], 'all legal option combinations per base type, and all legal fields of all compound types',
     'Tests enumerate about fifty strings; combinations of options and unusual option values are not covered.',
     [UT], [('jadn2typestr/typestr2jadn', UT), ('topts_s2d/ftopts_s2d/opts_d2s/opts_sort', UT)], observe=['jadn.jadn2typestr', 'jadn.typestr2jadn', 'jadn.jadn2fielddef', 'jadn.fielddef2jadn', 'jadn.opts_d2s'])

prop('C12', 'Removing extensions yields an equivalent-looking, valid core schema',
     'Removing all extensions from any accepted schema yields an accepted schema in which no extension remains, every type the author defined is still present in order with its name and description, every reference resolves, '
     'and no type is defined twice; removing extensions again changes nothing. The original schema is not modified, and removing a selected set of extensions leaves no instance of those in the defined types (for anonymous types: in fields too) and keeps what it did not need to touch.',
     ['inputs', 'configurations'], 'all accepted schemas using any mix of extensions x all subsets of extensions',
     'Tests compare one fixed output per extension; interactions of extensions on one field, and re-use of one derived type from several places, are not sampled.',
     [TR], [('unfold_link, unfold_multiplicity, unfold_anonymous_types, unfold_derived_enum, unfold_map_of_enum', TR)], observe=['jadn.transform.unfold_extensions'])

prop('C13', 'Removing extensions does not change which messages are valid',
     'A schema with its extensions removed accepts, rejects and encodes every value of every author-defined type exactly as the original schema text prescribes: repeated fields are lists within their bounds whose elements keep their own '
     'constraints, inline options constrain the field, derived and pointer enumerations list exactly the fields or paths of the referenced type, maps with enumerated keys have exactly those keys, and links hold the key type of their target.',
     ['inputs'], 'all accepted schemas with extensions x values near validity, unfolded explicitly and inside the codec',
     'Tests compare the shape of the unfolded schema for fixed inputs, not its meaning, and not for fields that use two extensions at once.',
     [TR, CI], [('unfold_extensions', TR), ('Codec unfolds its schema', CI)], observe=['jadn.transform.unfold_extensions', 'Codec.encode'])

prop('C14', 'Stripping or truncating comments touches nothing but descriptions',
     'Stripping or truncating the comments of a schema returns a schema identical except for type, field and item descriptions, leaves the original unmodified, and its result is still accepted and describes the same messages. '
     'Width zero removes every description; with a width of at least two, shorter descriptions are kept and longer ones become a prefix ending in ".." of exactly that width.',
     ['inputs', 'configurations'], 'all accepted schemas (short definitions included) x all widths', 'Tests compare one schema at a few widths.',
     [TR, UT], [('strip_comments', TR), ('etrunc', UT)], observe=['jadn.transform.strip_comments'])

prop('C15', 'Dependency analysis and ordering reflect the real references',
     'The dependencies reported for each type are exactly the types it refers to, through fields, options and nested inline types, so that undefined and unreferenced types are reported exactly. '
     'Ordering types by dependency lists every type reachable from the given roots exactly once, nothing else, and every dependency after the type that needs it when there is no cycle (when each is needed only once, every type is directly followed by what it needs, in the order it names them); none of this depends on the order the types are written in.',
     ['inputs'], 'all accepted schemas, missing and unused types included, and all dependency graphs, cyclic or not, with any roots',
     'Tests use one small schema and one or two graphs.', [UT, CORE], [('build_deps, topo_sort', UT), ('analyze', CORE)], observe=['jadn.analyze', 'jadn.build_deps', 'jadn.topo_sort'])

prop('C16', 'Canonical form identifies schemas that mean the same',
     'Canonicalizing is idempotent, does not modify its argument, and gives the same result for schemas that differ only in the order of options or in spelling out default sizes and multiplicity. '
     'The canonical schema is accepted and encodes and rejects values exactly as the original does.',
     ['inputs'], 'all accepted schemas x option permutations and explicit defaults', 'Tests use canonicalization only as a helper on one schema.',
     [UT], [('canonicalize, opts_sort', UT)], observe=['jadn.canonicalize', 'jadn.opts_sort'])

prop('C17', 'Generated JSON Schema is always well-formed and complete',
     'For every accepted schema and every generation option, the produced text is JSON, is a valid JSON Schema, defines every type of the schema under its name, has no reference to a missing definition, and carries the package identification and all descriptions. '
     'Its top level admits exactly the exported types (the roots of the schema or, in their absence, its exports). The input schema is not modified.',
     ['inputs', 'configurations'], 'all accepted schemas x verbose/concise x enumeration styles', 'One test translates fixed schemas and does not validate the result.',
     [JS], [('json_schema_dumps and type writers', JS)], observe=['jadn.translate.json_schema_dumps'])

prop('C18', 'Generated JSON Schema agrees with the codec about messages',
     'For schemas built from features JSON Schema can express (booleans, integers, numbers and strings with their constraints, enumerations, tagged choices, lists, arrays, maps and records, optional and repeated fields), a message with identifiers as names is valid under '
     'the generated JSON Schema whenever the codec produces it, and is rejected by the JSON Schema whenever it violates a type, range, size, pattern, item, required-field, unknown-field, or element-count constraint the codec enforces.',
     ['inputs', 'configurations'], 'all schemas of the expressible subset x (valid, mutated) messages x verbose/concise x enumeration styles',
     'No test validates a message against the generated JSON Schema.', [JS, COD], [('type writers t_*', JS), ('w_fdef', JS)], observe=['jadn.translate.json_schema_dumps', 'Codec.encode', 'Codec.decode'])

prop('C19', 'The Markdown document shows every definition, once and completely',
     'For every accepted schema the Markdown document contains every information item, every type with its full type string, and one table row per field or item with its number, name, type, multiplicity and description, in schema order, with every table well-formed '
     '(equal number of columns in every row). The schema is not modified.',
     ['inputs'], 'all accepted schemas', 'One test converts one schema and inspects nothing but the absence of errors.',
     [MD, UT], [('markdown_dumps, format_table', MD)], observe=['jadn.convert.markdown_dumps'])

prop('C20', 'Diagrams show exactly the types and references of the schema',
     'For every accepted schema and every combination of diagram options, the diagram source has exactly one node per displayed type, an edge for every reference from a displayed type to a displayed type (fields, and element and key types) and no other edge, '
     'with the field name and multiplicity when requested, links (when shown) dashed or dotted, and at the more detailed levels one line per field or item. The same schema always gives the same diagram and is not modified.',
     ['inputs', 'configurations'], 'all accepted schemas x format x detail x display switches', 'One test writes diagrams of example schemas to files and checks nothing about their content.',
     [DIA], [('node_*/edge_* writers', DIA)], observe=['jadn.convert.diagram_dumps'])

prop('C21', 'Resolving imports yields one self-contained schema',
     'Resolving a schema against a directory of packages returns an accepted schema with no remaining references to the packages found there (references to packages without a file remain), containing the types reachable from the exported types and only those, each once, imported types renamed by a prefix of their namespace that tells packages apart and otherwise unchanged. The schema is not modified. '
     'Messages of the exported types are exactly those the separate packages prescribe, and the result does not depend on the order in which the directory lists the files. '
     'A set of packages in which a package that is reached uses an undeclared prefix or a type that its package does not define is rejected.',
     ['inputs', 'configurations'], 'all sets of packages with references between them, both namespace notations', 'No test resolves packages that reference each other with success.',
     [RS], [('resolve_imports, merge_typedef', RS)], observe=['jadn.transform.resolve_imports'])

prop('C22', 'Untagged unions follow any-of, all-of and one-of exactly',
     'A value of an untagged union is accepted exactly when the number of alternatives that accept it is at least one (any-of), all of them (all-of), or exactly one (one-of), on encode and on decode, whatever the alternatives are and however their rejections are raised. '
     'The result is that of an accepting alternative: the first one for any-of.',
     ['inputs', 'configurations'], 'all unions over all kinds of alternatives x values accepted by any subset of them x 4 modes',
     'Tests cover a few unions of integers and strings.', [COD], [('_encode_choice/_decode_choice combine branch', COD)], observe=['Codec.encode', 'Codec.decode'])

prop('C23', 'Every output is reproducible from one process to another',
     'For a given schema every conversion, translation, transformation, canonical form and encoded message is byte-for-byte identical in every process, independent of hash randomisation, time zone, locale and working directory, and running a conversion twice in one process gives the same result.',
     ['inputs', 'configurations'], 'all accepted schemas x all output functions x several hash seeds and environments in separate processes', 'Tests run in a single process with one hash seed.',
     [JIDL, HTML, MD, UT, TR], [('ordered traversal of option sets and info items', JIDL)], observe=['all *_dumps functions'])

prop('C24', 'Every accepted schema can be used by every tool without side effects',
     'Any schema the checker accepts can be loaded into a codec, unfolded, stripped, canonicalized, analysed and converted to every readable output format without an exception. '
     'None of these operations modifies the schema it is given.',
     ['inputs', 'configurations'], 'all accepted schemas x all tools', 'Tests run each tool on one to three example schemas.',
     [CI, TR, UT, JIDL, HTML, MD, DIA, JS], [('deep copies before transformation', TR)], observe=['public API'])

prop('C25', 'Configured limits and name rules are honoured',
     'The default size limits (binary octets, string characters, container elements) apply to every defined type that sets no maximum, a schema\'s own configuration replaces them, and an explicit maximum always wins, both on encode and decode. '
     'Type and field names are accepted by the schema checker exactly when they match the configured or default name rules. A pattern that names a configuration variable, and the type-reference placeholder, stand for the rules in force; '
     'a configuration given to the codec replaces that of the schema.',
     ['inputs', 'configurations'], 'all limit configurations x sizes around the limit x base types, and all name rules x names',
     'Tests use the default configuration only at a few sizes.', [CI, UT, DEF, CORE], [('get_config', UT), ('default maxima in set_mode', CI)], observe=['Codec.encode', 'Codec.decode', 'jadn.check'])

prop('C26', 'A type means the same wherever it is defined and whatever it is called',
     'Verdicts and messages of a type, its dependencies, its canonical form, its JSON Schema definition and its lines in JIDL and HTML documents depend only on its definition and those it refers to: '
     'writing the types of a schema in another order, adding unrelated types, or renaming types consistently changes nothing (except the names), and does not change whether the schema is accepted.',
     ['inputs', 'configurations'], 'all accepted schemas x orders of definition x unrelated additions x renamings x valid and invalid values x 4 modes',
     'Tests use each schema as written.', [TR, CI, UT, JS, JIDL, HTML], [('derived enumerations and generated names of unfold_extensions', TR), ('symbol table', CI)],
     observe=['Codec.encode', 'Codec.decode', 'jadn.build_deps', 'jadn.canonicalize', 'jadn.translate.json_schema_dumps', 'jadn.convert.jidl_dumps', 'jadn.convert.html_dumps'])

prop('C27', 'Nested data survives flattening and restoring',
     'Flattening nested data gives exactly one entry per leaf, under its path joined by the separator; restoring the flat form gives the same nested objects with lists as objects with numbered keys, and converting those to lists gives the original data. '
     'This holds for any separator that does not occur in keys. Flattening and restoring do not modify their arguments.',
     ['inputs'], 'all nested JSON data without empty containers x separators', 'No test calls these functions.',
     [UT], [('flatten, fluff, hdict, dlist, dmerge', UT)], observe=['jadn.utils.flatten', 'jadn.utils.fluff', 'jadn.utils.dlist'])

prop('C28', 'Schemas used in one process do not influence each other',
     'Whatever was done before in the same process with other schemas - checked or rejected, loaded, converted, transformed, or used by codecs, with other configurations, names and definitions - every operation '
     'on a schema gives the result, message or rejection that it gives as the first operation of a new process.',
     ['histories', 'inputs', 'configurations'], 'all histories of operations over several unrelated schemas with different configurations',
     'Tests share one process but compare with expectations that do not depend on what ran before, and use few configurations; contamination shows only in particular orders.',
     [UT, DEF, CI, CORE], [('get_config copies the defaults', UT), ('format and option tables', DEF), ('symbol tables and format tables per codec', CI)], observe=['public API'])

prop('C29', 'A document or type string is read completely or rejected',
     'Whatever text is given to jidl_loads, html_loads or typestr2jadn, it is rejected with an error unless everything it says is in the result: each information entry, definition, item and field in order, with its number, '
     'name, type, options, multiplicity and description, nothing dropped, merged, replaced or read as something else. What does not matter for the meaning - comments, blank lines, spacing, line ends, page layout '
     'and markup around or inside the cells of an HTML page - does not change what is read.',
     ['inputs'], 'all edited JIDL documents, HTML pages and type strings (tokens, characters, cells and lines deleted, repeated, exchanged, replaced, inserted, joined, split), and all layouts of well-formed ones',
     'Tests load only documents that were just written by the library.', [JIDL, HTML, UT],
     [('line2jadn, jidl_loads', JIDL), ('line2jadn, html_loads', HTML), ('typestr2jadn, fielddef2jadn, cleanup_tagid', UT)],
     observe=['jadn.convert.jidl_loads', 'jadn.convert.html_loads', 'jadn.typestr2jadn'])

prop('C30', 'Derived enumerations have exactly the items they are derived from',
     'An enumeration derived from the fields of a type (Enum) lists exactly these fields in order, with their numbers, one derived from another enumeration exactly its items, and one derived from the paths of a type (Pointer) '
     'exactly the complete paths to fields that are not directories, through any depth of nested directories, ending where a structure would be entered again. This holds for derived types, fields, repeated fields, elements, map keys and map values, '
     'whatever the order of definitions: simplified schemas list these items, the codec accepts exactly them in every mode, and the JSON Schema admits exactly them.',
     ['inputs', 'configurations'], 'all graphs of structures and directories x derived enumerations of every kind x orders of definition x 4 modes',
     'One test derives a pointer enumeration from one fixed type.', [TR, COD, JS], [('unfold_derived_enum, unfold_map_of_enum, new_type', TR), ('_encode_enumerated, _decode_enumerated', COD), ('w_enum', JS)],
     observe=['jadn.transform.unfold_extensions', 'Codec.encode', 'Codec.decode', 'jadn.translate.json_schema_dumps'])

prop('C31', 'A schema is itself a valid message of the bundled meta-schema',
     'The bundled JADN meta-schema describes JADN schemas: every well-formed schema - any notation, with its own configured limits and name rules - is a valid message of type Schema. The codec of the meta-schema writes it in each of the four modes and '
     'reads back the same schema, and with names the message is the schema itself. Conversely the meta-schema rejects documents whose structure is wrong (columns, base types, names, identifiers, options, information), '
     'the JSON Schema generated from it and the bundled one agree, and the schema checker accepts no document that it rejects.',
     ['inputs', 'configurations'], 'all schemas in every notation x configurations x 4 modes, and all mutations of the documents',
     'Tests check the meta-schema against itself and a few examples in one mode.', [CORE, COD, CI, JS],
     [('check', CORE), ('Codec, make_typeref_pattern', CI), ('_encode_choice, _decode_choice, _encode_array, _decode_array', COD), ('bundled meta-schema', 'distribution/src/jadn/data/jadn_v1.1_schema.jadn')],
     observe=['jadn.check', 'Codec.encode', 'Codec.decode', 'jadn.translate.json_schema_dumps'])

prop('C32', 'All formats of a schema are interchangeable',
     'Whatever way a schema takes - written and read any number of times as JADN, JIDL or HTML, as text or file, in any layout, with or without a header that names its source, by the reader of the format or by load_any - it remains the '
     'same schema, and every tool (conversions, diagrams, dependency analysis, simplification, JSON Schema) gives the same result for it, whichever order its options have and whether default sizes and multiplicity are written out. '
     'Translating a directory with make-artifacts.py gives for each schema file all its artifacts, each stating the schema of that file.',
     ['inputs', 'histories'], 'all schemas in every notation x sequences of writing and reading in all formats x tools and their options',
     'Tests convert a few example files once, to one format each.', [CORE, JIDL, HTML, MD, DIA, JS, TR, UT],
     [('dump, load, load_any', CORE), ('jidl_dump, jidl_load', JIDL), ('html_dump, html_load', HTML), ('translate', 'distribution/make-artifacts.py'), ('opts_sort, canonicalize', UT)],
     observe=['jadn.dump', 'jadn.load_any', 'jadn.convert.jidl_dump', 'jadn.convert.html_dump', 'jadn.transform.unfold_extensions', 'jadn.translate.json_schema_dumps'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
assert all(len(p['title']) <= 80 for p in P), [p['title'] for p in P if len(p['title']) > 80]
