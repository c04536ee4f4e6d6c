P('P04', 'Offsets and client positions translate into each other without loss',
  'In every position encoding and for every text (line endings, wide characters and all), a character-boundary offset translates to the one LSP position that denotes it and translates back to itself; offsets past the end or inside a character have no position. A client position translates to a character boundary on its own line (columns past the end mean the end of that line), positions on missing lines and inverted ranges are rejected, and nothing panics.',
  ['inputs'], 'all texts, offsets, positions, ranges and the three position encodings',
  'The tests translate a handful of offsets in one fixture; rounding and boundary cases exist for every line, character width and encoding.',
  [L + 'translator/to_lsp.rs', L + 'translator/from_lsp.rs', L + 'translator.rs'],
  [('offset to position', L + 'translator/to_lsp.rs'), ('position to offset', L + 'translator/from_lsp.rs')],
  'position/offset/range/text_range and the context constructor are under contract for all inputs, round trip as a lemma; the line-index dependency is an assumed contract, exercised by the bounded part')
P('P05', 'What the server announces and sends respects the client\'s capabilities',
  'For every combination of client capabilities: the server announces exactly one position encoding that the client supports (UTF-8 or UTF-32 whichever is listed first, else UTF-16) and uses it in all answers, full-text sync, and only code action kinds both sides know. Snippets, deferred action edits, parameter label offsets, per-signature active parameters and workspace edits that create files appear only if the client announced support for them, with a plain alternative otherwise.',
  ['inputs', 'configurations'], 'all client capability objects',
  'Capability combinations are too many to sample; the tests use a few fixed ones.',
  [L + 'utils.rs', L + 'initialize.rs'],
  [('capability predicates', L + 'utils.rs'), ('announced capabilities', L + 'initialize.rs')],
  'every capability predicate and the announced server capabilities are under full contract; that handlers consult them is proved in P06, the wire behaviour is the bounded part')
P('P06', 'Answers carry the analyzer\'s results unaltered at the translated positions',
  'Diagnostics, completions, hovers, inlay hints, code actions and signature help sent to the client are exactly the analyzer\'s results for the requested place: none lost, duplicated, reordered or invented (except results without a translatable place), with unchanged texts, kinds, severities and edits, at the translated positions. Migrate and extract actions carry their command with the uri and offsets instead of an edit; requests about unknown documents get an empty answer, places outside the document an error.',
  ['inputs'], 'all documents, requested places, analyzer results and client capabilities',
  'The tests check that some answer comes back; they never compare all its fields with what the analysis produced.',
  [L + 'translator/to_lsp.rs', L + 'dispatch/handlers/request.rs'],
  [('result translation', L + 'translator/to_lsp.rs'), ('request handlers', L + 'dispatch/handlers/request.rs')],
  'all result translators and the five request handlers are under contract with the analysis as uninterpreted function; arbitrary elements of symbolic collections stand for all')
P('P07', 'Project commands send exactly the edits they stand for, through the client',
  'createProject with a valid package name sends one edit that creates exactly the lib.rs and Cargo.toml of that project under the given root, opens lib.rs once the client applied it, and anything else is an error; extractEvent creates the event package in a directory that does not exist yet, adds the dependency and import. migrateProject sends the analyzer\'s migration edits plus a Cargo.toml asking for ink! 5 (ink_e2e too) without scale dependencies and features and with everything else kept; every command answers null after its edit is sent, and nothing is written to disk by the server.',
  ['inputs', 'configurations'], 'all command arguments, manifests, workspace layouts and client capabilities',
  'The tests run each command on one fixture project; manifests, names and layouts vary without bound.',
  [L + 'dispatch/handlers/command.rs', L + 'dispatch/handlers/request.rs', L + 'dispatch.rs', L + 'utils.rs'],
  [('command handlers', L + 'dispatch/handlers/command.rs'), ('command dispatch', L + 'dispatch.rs')],
  'all command handlers, the manifest rewriting and the response processing are under contract over symbolic TOML documents, paths and edits; toml_edit, the file system and analysis are assumed contracts; whole commands on generated manifests are the bounded part')
P('P08', 'Documents are analysed for the ink! version their project asks for',
  'A rust file is analysed as ink! 5 exactly if the nearest Cargo.toml at or above it has an ink dependency whose cargo version requirement names major version 5 in some comparator (upper bounds only above 5.0.0) or is `*`, or that comes from a path or git repository without a requirement; an inherited dependency means the entry in [workspace.dependencies] of the same file, else of the nearest Cargo.toml above. Everything else (4.x, 4.5.1, 50.0, no ink dependency, unreadable manifest, not a rust file) is analysed as ink! 4, and the version is determined when the document is opened and again for the two changes that follow a migration.',
  ['inputs', 'configurations'], 'all version requirements, manifests and directory layouts',
  'The tests try a dozen requirement strings against the regular expression and one fixture; requirements and layouts vary without bound.',
  [L + 'dispatch.rs', L + 'utils.rs'],
  [('version detection', L + 'dispatch.rs'), ('manifest lookup', L + 'utils.rs')],
  'requirement classification is proved for every string of cargo\'s requirement grammar (regular-language equivalence), manifest reading over symbolic TOML, inheritance, lookup and caching under contract; the file system and TOML parser are assumed contracts')
P('P09', 'ink! attributes are recognised by what they name, in any layout and order',
  'An attribute is an ink! macro exactly if its path is `ink::<macro>` or `ink_e2e::test` with a known macro name, and an ink! argument attribute exactly if its path is `ink`; layout, comments and spacing never matter. Its arguments are exactly the comma separated items in source order, each with the kind its name has, and the kind of the attribute is that of its first entity argument, else of its first complementary one, else unknown, independent of the order the other arguments are written in.',
  ['inputs'], 'all attribute texts, including malformed ones',
  'The tests list a few well formed attributes; orders, separators, comments and malformed items combine without bound.',
  [I + 'attrs.rs', I + 'attrs/args.rs', I + 'attrs/macros.rs', I + 'attrs/meta.rs', I + 'attrs/utils.rs'],
  [('attribute cast', I + 'attrs.rs'), ('argument kinds', I + 'attrs/args.rs'), ('argument parsing', I + 'attrs/meta.rs')],
  'kind tables, ordering, cast, path resolution and argument conversion are under contract over symbolic syntax trees; the token-level splitter is the bounded part')
P('P10', 'Argument values, extension ids and selectors are the ones ink! computes',
  'The value of an attribute argument is what its literal denotes: integers in every radix, with separators and suffixes, if they fit the expected width; strings with escapes and raw strings; booleans; `_` and `@`; paths; hex strings as bytes. Ids of chain extensions, extensions and functions are those numbers, and the selector of a message or constructor in an impl block is the given number, 0x9BAE9D5E for `@`, and otherwise the first four bytes of BLAKE2b-256 over namespace, trait (the full path only with a leading `::`, else its last name) and function name joined by `::`.',
  ['inputs'], 'all literals, argument layouts, function names, namespaces and trait paths',
  'The tests use two literals and ten callables; literal notations and trait paths vary without bound.',
  [I + 'attrs/meta/value.rs', I + 'selector.rs', I + 'traits/shared.rs', I + 'chain_extension.rs', I + 'extension.rs', I + 'function.rs'],
  [('values', I + 'attrs/meta/value.rs'), ('selectors', I + 'selector.rs')],
  'value conversions, ids, selector arguments and selector composition are under contract over symbolic literals and trees; text ranges of values and the hash function itself are the bounded part')
P('P11', 'The ink! entities found in a file are exactly those its attributes declare',
  'The contracts, events, storage, impls, constructors, messages, trait definitions, chain extensions, topics and tests of a file are exactly the items whose attributes declare them, each found once, in document order, wherever they are nested and whatever else is around them, belonging to the closest ink! item around them (callables also through their impl block). An impl is an ink! impl exactly if it is marked, has callables or implements a trait definition its path names, and name resolution ends on every file, also with cyclic `use` declarations and aliases.',
  ['inputs'], 'all trees of items and attributes',
  'The tests use a dozen fixed trees; nesting, attribute combinations and paths combine without bound.',
  [I + 'tree/utils.rs', I + 'tree/ast_ext.rs', I + 'ink_impl.rs', I + 'contract.rs', I + 'file.rs', 'crates/macro/src/entity.rs'],
  [('searches', I + 'tree/utils.rs'), ('generated entities', 'crates/macro/src/entity.rs'), ('paths', I + 'tree/ast_ext.rs')],
  'searches (by induction over the tree), the generated cast functions and fields of every entity and the impl rules are under contract over symbolic trees; path resolution is the bounded part')
DG = A + 'analysis/diagnostics/'
P('P12', 'A contract is accepted exactly if its structure is one ink! accepts',
  'For every file, an error is reported at exactly these places and nowhere else for its structure: each contract after the first, a contract that is no inline mod, a missing or each further storage, a missing constructor or message, each storage, event or impl outside the root of its contract mod, each callable outside an impl block, each constructor or message whose selector an earlier one of the same kind has, each further wildcard selector, attributes where ink! does not allow them, and (ink! 5 only) what breaks the pairing of one `_` message with exactly one `@` message. A well-formed contract, in particular each example ink! ships, gets no diagnostics.',
  ['inputs'], 'all files',
  'The tests run each rule alone on a few fixed contracts; counts, nesting, order and the interplay of the rules vary without bound.',
  [DG + 'contract.rs', DG + 'file.rs', DG + 'common.rs'],
  [('contract rules', DG + 'contract.rs'), ('file rules', DG + 'file.rs'), ('quantities', DG + 'common.rs')],
  'the drivers and all rules but the complement pairing and the scope tables are under contract over symbolic entities; those two and whole files are the bounded part')
P('P13', 'Items with ink! attributes are accepted exactly if ink! accepts their shape',
  'For every file, an error is reported at exactly these places and nowhere else for the shape of items: `const`, `async`, `unsafe`, `extern`, generics, `...` and visibilities other than `pub` on callables (any visibility in trait impls, none in inherent ones is wrong), constructors with a receiver or without return type, messages without `&self` or returning `Self`, storage and events that are no `pub struct`, generics, `cfg` fields and foreign ink! attributes in events, topics that are on no field, ink! attributes inside storage, `default`, `unsafe`, generics, generic self types on impls and namespaces on trait impls, tests that are no fn, storage items that are no type, and trait definitions that are no trait, have qualifiers, generics, supertraits or are not `pub`, or contain anything but messages without body and wildcard.',
  ['inputs'], 'all files',
  'The tests run each rule alone on a few fixed items; modifiers, layouts, kinds of items and places combine without bound.',
  [DG + 'common.rs', DG + 'message.rs', DG + 'event.rs', DG + 'event/topic.rs', DG + 'contract/constructor.rs', DG + 'contract/storage.rs', DG + 'contract/ink_impl.rs', DG + 'trait_definition.rs', DG + 'storage_item.rs', DG + 'ink_test.rs'],
  [('common rules', DG + 'common.rs'), ('impl rules', DG + 'contract/ink_impl.rs'), ('trait definitions', DG + 'trait_definition.rs')],
  'every rule and the driver of each kind of entity are under contract over symbolic syntax trees (arbitrary elements stand for all); whole files are the bounded part')
P('P14', 'Wrong, unknown and repeated attribute arguments are reported, right ones never',
  'For every file and version, an error is reported exactly at each ink! argument whose value is not of the kind its name takes in that version (paths for env, environment and sandbox; strings for keep_attr and additional_contracts; identifier strings for namespace; 32 hex bytes for signature_topic; `://` strings for url; booleans for handle_status and derive; 16 or 32 bit integers for extension, function and selector, which also takes `_` and, from ink! 5 on except on constructors, `@`; nothing for flags; node or runtime_only inside backend), at each known argument or macro that an earlier one on the same item already gives, and at each identifier that starts with `__ink_`. Unknown macros and unknown arguments are warnings at their name or place, and a missing argument name is an error.',
  ['inputs'], 'all files',
  'The tests try one wrong value per argument; kinds, versions, literal forms, layouts and repetitions across attributes combine without bound.',
  [DG + 'common.rs', 'crates/ir/src/attrs/meta/value.rs'],
  [('argument rules', DG + 'common.rs')],
  'the argument rules of every kind and version, the unknown and repetition rules (with the invariant that exactly the kinds seen are remembered), the identifier rule and the driver are under contract; whole files are the bounded part')
P('P15', 'Attributes and arguments on one item fit together, in the right order',
  'For every item, exactly these are reported for how its ink! attributes combine: an attribute or argument that cannot stand beside the one that decides what the item is (per ink! version), a deciding attribute that is not the first, a deciding argument that is not the first in its attribute, an argument that needs a companion which is missing, `anonymous` beside `signature_topic`, a chain extension without its id, and arguments ink! 5 dropped. The deciding attribute is the first macro, else the first attribute with an entity argument, else the first known attribute; each error lies at the offending attribute or argument.',
  ['inputs'], 'all lists of attributes and arguments on an item, both ink! versions',
  'The tests try a few dozen fixed combinations; orders, groupings and combinations multiply without bound.',
  [DG + 'common.rs', A + 'analysis/utils.rs'],
  [('attribute combinations', DG + 'common.rs'), ('companion tables', A + 'analysis/utils.rs')],
  'the combination check is under full contract split by version and deciding kind, the companion tables and the choice of the deciding attribute (a stable sort) exactly; whole files are the bounded part')
P('P16', 'ink! attributes are reported exactly where ink! does not take them',
  'For every file, an error lies at each known ink! attribute that stands where ink! does not take it and at no attribute for that reason that stands where it may: argument attributes at the root of a file; inside a contract, impl, trait definition or chain extension what the rules of that version do not list for it (judged by the attribute that decides each item closest inside); anything but topics inside an event; any inside storage, storage items and their fields; and inside callables and tests anything but, from ink! 5 on, scale_derive.',
  ['inputs'], 'all files, both ink! versions',
  'The tests nest a few attributes in each kind of item; kinds of item, nesting, versions and several attributes on an item multiply without bound.',
  [DG + 'common.rs', DG + 'event.rs', DG + 'file.rs', A + 'analysis/utils.rs'],
  [('scope rules', DG + 'common.rs'), ('what may stand inside', A + 'analysis/utils.rs'), ('root of a file', DG + 'file.rs')],
  'the scope check, its dispatch for every kind and version, the tables and the callers are under contract over symbolic trees; whole files are the bounded part')
P('P17', 'Chain extensions are reported exactly where ink! rejects them',
  'For every file, a chain extension gets an error exactly where ink! rejects it: from ink! 5 on one without its extension argument; associated consts, macros, default bodies and types other than one `ErrorCode` with a type and neither generics nor bounds; methods without an id, with a receiver or with the id of an earlier one; `Self::ErrorCode` anywhere inside; and an error code that names no item of the file, or one that lacks `FromStatusCode`. A type of the file that is the error code or is mentioned by parameters or results is reported exactly if one of `Encode`, `Decode` and `TypeInfo` is neither derived (in any derive or cfg_attr attribute, or from ink! 5 on by scale_derive) nor implemented.',
  ['inputs'], 'all files, both ink! versions',
  'The tests take a few valid extensions and one fault at a time; ids, members, ways of deriving, implementing, importing and mentioning types multiply without bound.',
  [DG + 'chain_extension.rs', DG + 'chain_extension/error_code.rs', DG + 'chain_extension/extension_fn.rs', DG + 'common.rs', A + 'resolution.rs'],
  [('chain extension rules', DG + 'chain_extension.rs'), ('error code', DG + 'chain_extension/error_code.rs'), ('extension functions', DG + 'chain_extension/extension_fn.rs'), ('codec traits', DG + 'common.rs'), ('external trait impls', A + 'resolution.rs')],
  'drivers, member rules, ids, error code rules, impl search and the codec check (split by version, kind of item and whether it has a name) are under contract over symbolic trees; which paths a derive attribute lists, how imports resolve, tuples and generic arguments of mentioned types, and whole files are the bounded part')
P('P18', 'Hovers and inlay hints describe what they are shown at',
  'Hovering over a place or range inside an ink! attribute shows the documentation, for the document\'s ink! version, of the argument whose text covers it and otherwise of the macro or primary argument of the attribute, and highlights exactly that name; elsewhere, and for unknown things and those the version lacks, there is none. An inlay hint stands exactly after the name of each ink! argument (nested ones too) that needs a value and lies in the requested range, and gives the kind of value it takes in that version.',
  ['inputs'], 'all files, places, ranges, both ink! versions',
  'The tests hover over a few names of fixed snippets; places, ranges, layouts, nesting, argument order and versions combine without bound.',
  [A + 'analysis/hover.rs', A + 'analysis/inlay_hints.rs', A + 'analysis/utils.rs', I + 'tree/item_at_offset.rs', I + 'attrs/args.rs'],
  [('hover', A + 'analysis/hover.rs'), ('inlay hints', A + 'analysis/inlay_hints.rs'), ('attribute at a place', I + 'tree/item_at_offset.rs'), ('value kinds', I + 'attrs/args.rs')],
  'hover, its documentation table, the search for the attribute and argument at a place, the hint search with its recursion into nested arguments and the value table are under contract over symbolic trees; where tokens stand in a file is rust-analyzer\'s and whole files are the bounded part')
