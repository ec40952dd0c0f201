"""Source of properties.jsonl and MANIFEST.json: python3 spec/properties.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

P = []


def prop(id_, title, statement, over, text, why, files, mech, state=(), observe=(), note=None):
    P.append(dict(id=id_, title=title, statement=' '.join(statement.split()),
                  quantifier={'over': over, 'text': ' '.join(text.split())},
                  why_tests_cant=' '.join(why.split()),
                  anchors={'files': ['pyopenapi/' + f for f in files],
                           'state': [dict(name=n, meaning=m_, where=w) for n, m_, w in state],
                           'mechanism': [dict(name=n, where=w) for n, w in mech],
                           'observe_at': list(observe), 'hook_needed': None},
                  note=note))


V1 = 'migration/versions/v1_2/'
V2 = 'migration/versions/v2_0/'
V3 = 'migration/versions/v3_0_0/'
CONV = V2 + 'scanner/upgrade/converters.py'
UP12 = V1 + 'scanner/upgrade.py'

prop('C01', 'JSON pointers encode and decode any key without loss',
     '''Composing a JSON pointer from any list of keys (on top of any base pointer) and
     splitting it again gives back exactly those keys, with "~" and "/" escaped as ~0 and
     ~1 and nothing else changed. A pointer composed this way always names the value that
     following the keys one by one through the document reaches.''',
     ['inputs'], 'all lists of string keys, with pointer metacharacters, empty keys and non-ASCII; all bases',
     'The tests try a handful of keys; the law is about every combination of escapes.',
     ['utils.py'], [('compose/split', 'utils.py:jp_compose, jp_split')],
     observe=['utils.jp_compose', 'utils.jp_split'])
prop('C02', 'JSON references split, join and normalize consistently',
     '''Splitting a JSON reference into URL and pointer, and normalizing a reference against
     the URL of the document it appears in, gives the absolute reference that RFC 3986
     resolution of its path against that URL gives, with the pointer untouched; local
     pointers stay in the same document and absolute references stay as they are.
     Normalizing a normalized reference changes nothing, and a plain file path and its
     file:// URL mean the same document.''',
     ['inputs'], '''all references made of absolute/relative/rooted paths with . and .. segments, any
     pointer, any http or file base URL; URL helpers (dirname, join, derelativise) likewise''',
     'Tests pin about ten URLs; they have no independent resolver to compare with.',
     ['utils.py'], [('normalization', 'utils.py:normalize_jr, jr_split, normalize_url, url_dirname, url_join, derelativise_url')],
     observe=['utils.normalize_jr', 'utils.jr_split', 'utils.url_join', 'utils.url_dirname'])
prop('C03', 'Dumping an object tree gives back the document it was built from',
     '''For any Swagger 1.2, Swagger 2.0 or OpenAPI 3.0 document, building the objects and
     dumping them yields every defined field and child of the input with equal values and
     types, nothing else, and a document that builds again into the same dump; only null
     values, keys unknown to the specification and optional empty containers may be left out.''',
     ['inputs'], 'every object type of the three versions, nested to any shape, with any legal field values',
     'Tests dump a few sample files; a field lost in an object type they never fill goes unseen.',
     ['migration/spec/obj.py', V1 + 'objects.py', V2 + 'objects.py', V3 + 'objects.py'],
     [('dump', 'migration/spec/obj.py:Base2Obj.dump, _List.dump, _Map.dump')],
     observe=['obj.dump()'])
prop('C04', 'Fields read under every name, with the defaults of the specification',
     '''Every field of every object reads back the value given in the document under its
     specification name and under its snake_case name, reads its specified default when absent,
     and tells correctly whether it was set. A missing required field or a field that is not
     allowed raises a schema error, and read-only fields cannot be assigned.''',
     ['inputs'], 'every field and child of every object type of the three versions, with any value (falsy ones too)',
     'Tests read some fields of some types; the rest of the table of some 400 names is never touched.',
     ['migration/spec/obj.py', V1 + 'objects.py', V2 + 'objects.py', V3 + 'objects.py'],
     [('attribute factories', 'migration/spec/obj.py:rename, child, field_, Base2ObjMeta')],
     observe=['attribute access'])
prop('C05', 'A JSON pointer resolves to the object at exactly that place',
     '''In the object tree of any document, following the tokens of any existing JSON pointer
     returns the very object or primitive value found at that place, whose own path and parent
     chain spell the same pointer; tokens that name nothing are refused with an error.''',
     ['inputs'], 'every location of random documents of the three versions, names that need escaping and list indices included',
     'Tests resolve a few pointers of fixed files.',
     ['migration/spec/obj.py'], [('resolve', 'migration/spec/obj.py:Base2Obj.resolve, _List.resolve, _Map.resolve')],
     observe=['obj.resolve', 'obj.get_path', 'obj.get_parent'])
prop('C06', 'A scan visits every object once and under its own path',
     '''Scanning a tree calls the registered handler for every object of the registered types
     exactly once, with the JSON pointer at which that object really is, for trees of any shape
     and also after children were added, replaced or removed; types given as leaves are visited
     but not entered. Every handler of every scanner in the route is called, and all their
     results are delivered to the result function.''',
     ['inputs', 'histories'], 'random trees of the three versions, sets of handlers and leaves, edits before and between scans',
     'Tests count visits in a couple of files.',
     ['migration/scan.py', 'migration/spec/obj.py'],
     [('traversal', 'migration/scan.py:default_tree_traversal, scan'), ('children', 'migration/spec/obj.py:Base2Obj.get_children')],
     observe=['scan()', 'Scanner.scan()'])
prop('C07', 'Comparing two object trees finds the first difference, and none in equal ones',
     '''Comparing an object with one built from an equal document reports equality; comparing with
     one where any single field, child, list element or map entry was changed, added or removed
     reports a difference at a pointer on the path of that change, in either direction.''',
     ['inputs'], 'random trees of the three versions and any single edit at any depth',
     'Tests compare a few fixed pairs.',
     ['migration/spec/obj.py'], [('compare', 'migration/spec/obj.py:Base2Obj.compare, _List.compare, _Map.compare')],
     observe=['obj.compare'])
prop('C08', 'The object cache answers with what was stored last at that place',
     '''After any sequence of storing, looking up, removing and relocating, looking up a URL, a
     JSON pointer and a version returns the object stored last there, or the part of a stored
     object that encloses this pointer, and nothing when neither exists. Pointers are compared
     token by token, and entries of other documents, versions or similarly named places never
     answer.''',
     ['histories'], 'all histories of set/get/get_under/get_until/update_routes over several documents and versions',
     'Tests do one or two operations in a row with names that are not prefixes of each other.',
     ['migration/store.py'], [('cache', 'migration/store.py:SpecObjStore.set, get, get_under, get_until')],
     state=[('spec objects', 'url -> pointer -> version -> object', 'migration/store.py:SpecObjStore.__spec_objs')],
     observe=['SpecObjStore'])
prop('C09', 'Relocation moves a pointer by its longest matching rule and keeps the rest',
     '''A pointer of an older version is mapped to a newer one by the most specific relocation rule
     that matches its leading tokens, keeping the remaining tokens unchanged, version by version;
     pointers no rule matches, and other documents, stay as they are, and unknown versions are
     refused.''',
     ['inputs', 'histories'], 'random rule tables (nested, relative and absolute targets, keys that are prefixes of others) and pointers',
     'Tests use one table.',
     ['migration/store.py'], [('relocate', 'migration/store.py:SpecObjStore.relocate, _patch_jp')],
     observe=['SpecObjStore.relocate'])
prop('C10', 'Every $ref resolves to the object it names, through any chain of documents',
     '''After loading and migrating a Swagger 2.0 or OpenAPI 3.0 document, every reference in it and in
     the documents it pulls in (schemas, parameters, responses, headers, examples, links, request
     bodies, callbacks, path items) is bound to the object its target document has at that pointer, in
     the requested version, and dereferencing follows a chain to its end. This holds for local, relative and
     absolute references, pointers to whole or partial documents, names that need escaping, and reference
     cycles, on which loading ends normally.''',
     ['inputs', 'configurations'], 'random sets of up to four documents with random references between them, cycles and chains included',
     'Tests have a few fixed file sets; the order in which documents are reached is different for every graph of references.',
     ['migration/base.py', V2 + 'scanner/resolve.py', V3 + 'scanner/resolve.py', 'migration/store.py'],
     [('resolution', 'migration/base.py:ApiBase.resolve_obj'), ('scanners', V2 + 'scanner/resolve.py, ' + V3 + 'scanner/resolve.py')],
     observe=['app.resolve_obj', "get_attrs('migration').ref_obj", 'utils.deref'])
prop('C11', 'A referenced path item is merged, nearest definition first',
     '''The effective path item of a path that refers to another one has, for every operation and for the
     parameters, the definition of the nearest path item along the chain of references that has one, however
     many documents the chain crosses. Neither the path item itself nor any path item along the chain is changed by
     this, and a cyclic chain ends.''',
     ['inputs'], 'random chains and cycles of path items across documents, in 2.0 and 3.0',
     'Tests have one two-step chain.',
     [V2 + 'scanner/merge.py', V3 + 'scanner/merge.py', 'migration/versions/comm.py'],
     [('merge', 'migration/versions/comm.py:_merge_path_item')],
     observe=['utils.final', "get_attrs('migration').final_obj"])
prop('C12', 'Upgrading to 3.0 keeps the meaning of every schema',
     '''When a Swagger 2.0 document is migrated to 3.0, every Schema Object keeps all of its constraints, annotations,
     subschemas, xml and external documentation with equal values, wherever it is used; a discriminator becomes
     an object with that property name, the file type becomes a binary string, and a reference stays a
     reference. Nothing is added.''',
     ['inputs'], 'random schemas nested to any depth in definitions, bodies and responses, inline and referenced',
     'Tests convert a few schemas with a few keywords each.',
     [CONV, V2 + 'scanner/upgrade/constants.py'], [('conversion', CONV + ':to_schema')],
     observe=["migrate_obj(..., '3.0.0')"])
prop('C13', 'Upgrading to 3.0 keeps what a request may contain',
     '''When a Swagger 2.0 document is migrated to 3.0, every operation keeps its path, query and header parameters in
     order with the same constraints, requiredness and serialization (collection format as style/explode),
     and its body and form parameters, whether declared on the operation, inherited from the path item and not
     overridden, or referenced, become one request body with one media type per applicable content type,
     carrying the body schema or one property and encoding per form field and the list of required ones.''',
     ['inputs', 'configurations'], 'random operations and path items: all parameter locations, types, formats, collection formats, consumes at both levels, references',
     'The combinations of where a parameter is declared, what it is and what is consumed are far more than the sample files have.',
     [CONV, V2 + 'scanner/upgrade/parameter_context.py'],
     [('conversion', CONV + ':from_parameter, to_parameter, to_request_body, to_media_type, to_encoding, to_path_item')],
     observe=["migrate_obj(..., '3.0.0')"])
prop('C14', 'Upgrading to 3.0 keeps every response, its headers and its media types',
     '''When a Swagger 2.0 document is migrated to 3.0, every operation has the same response codes with the same
     descriptions, each response with a schema offers that schema under every media type the operation (or else
     the document) produces, and every header keeps its description, constraints and format. A reference to a
     response without schema stays a reference; a reference to one with schema takes the operation's own media types.''',
     ['inputs', 'configurations'], 'random responses, inline and referenced, with or without schema and headers, produces at both levels',
     'Tests convert a few responses with one media type.',
     [CONV], [('conversion', CONV + ':to_response, to_header')],
     observe=["migrate_obj(..., '3.0.0')"])
prop('C15', 'Upgrading to 3.0 keeps info, servers, tags, security and operation metadata',
     '''When a Swagger 2.0 document is migrated to 3.0, the info, contact, license, tags, external documentation, global and
     per-operation security requirements and the id, summary, description, tags, deprecation of every operation
     stay equal; host, base path and scheme become the server URL and an operation's own schemes its
     server URLs. Every security definition becomes the equivalent security scheme (basic as http/basic,
     OAuth2 flows under their 3.0 names with their URLs and scopes), and the set of paths and operations is the same.''',
     ['inputs'], 'random documents with any subset of these parts, odd names, empty values',
     'Tests check the parts that the pet store sample has.',
     [CONV], [('conversion', CONV + ':to_openapi, to_info, to_operation, to_security_scheme, from_swagger_to_server, to_tag')],
     observe=["migrate_obj(..., '3.0.0')"])
prop('C16', 'References stay valid and equivalent when a document is upgraded to 3.0',
     '''After migrating a Swagger 2.0 document to 3.0, every reference in the result names an existing 3.0 object, of the kind its position
     needs, that is the converted counterpart of the object the original reference named, in
     whatever document that is. Asking for a 2.0 JSON reference in version 3.0 returns that same counterpart.''',
     ['inputs'], 'random documents whose definitions, parameters (also those that become request bodies) and responses have odd, prefix-like and escaped names, and external documents',
     'Tests have a few references with plain names.',
     ['migration/store.py', CONV, V3 + 'scanner/resolve.py', 'migration/base.py'],
     [('relocation map', CONV + ':to_openapi, to_path_item'), ('relocation', 'migration/store.py:SpecObjStore.relocate'), ('rewriting', V3 + 'scanner/resolve.py:_resolve')],
     observe=["migrate_obj(..., '3.0.0')", "resolve_obj(jref, '2.0', to_spec_version='3.0.0')"])
prop('C17', 'Upgrading from 1.2 keeps every operation and parameter',
     '''When a Swagger 1.2 listing is migrated to 2.0, every operation of every resource appears once under its base path plus path and
     method with its nickname, texts, deprecation, the resource as tag, its own consumes/produces or else those of the resource, and its
     return type as the default response. Every parameter keeps its name, location (form becomes formData), requiredness,
     description, type, format, default, enum and numeric limits (as numbers), and multiple values become a csv array.''',
     ['inputs'], 'random resource listings with several resources, all parameter types and return types',
     'Tests convert one listing (wordnik).',
     [UP12], [('conversion', UP12 + ':convert_operation, convert_parameter')],
     observe=["migrate_obj(..., '2.0')"])
prop('C18', 'Upgrading from 1.2 keeps every model and every reference to it',
     '''When a Swagger 1.2 listing is migrated to 2.0, every model of every resource becomes one definition named after resource and model with the
     configured separator, with its properties, descriptions, required list and discriminator, and every
     sub type extends its base. Every type or reference that names a model becomes a reference that resolves to
     that definition, also for names that need escaping and for models of the same name in different resources.''',
     ['inputs', 'configurations'], 'random models with inheritance, references, arrays; odd names; any separator',
     'Tests convert one listing with plain names and one separator.',
     [UP12], [('conversion', UP12 + ':convert_model, convert_schema_from_datatype, update_type_and_ref')],
     observe=["migrate_obj(..., '2.0')"])
prop('C19', 'Upgrading from 1.2 keeps info, host, paths, tags and authorizations',
     '''When a Swagger 1.2 listing is migrated to 2.0, title, description, terms of service, contact, license and version move to the info object; the common host
     becomes the host and leaves every path relative to it; each resource is one tag. Each authorization becomes
     a security definition of the same name with the equivalent type, key name and place, OAuth2 flow, URLs and scopes, and
     each operation requires the authorizations (with scopes) of itself or else of its resource.''',
     ['inputs'], 'random listings with any subset of info, authorizations of all types at both levels, absolute and relative base paths',
     'Tests convert one listing.',
     [UP12], [('conversion', UP12 + ':Upgrade')],
     observe=["migrate_obj(..., '2.0')"])
prop('C20', 'Upgrading in one step equals upgrading version by version',
     '''Migrating a document to a version directly gives the same document as migrating it to each version in between, feeding every result
     into the next step as a document of its own; migrating to a version it already has leaves it unchanged.''',
     ['inputs', 'configurations'], 'random 1.2, 2.0 and 3.0 documents; all pairs of source and target version',
     'Tests migrate to one target at a time and never compare routes.',
     ['migration/base.py'], [('chain', 'migration/base.py:ApiBase.migrate_obj')],
     observe=['migrate_obj'])
prop('C21', 'A migrated document can be saved, loaded again and migrated with the same result',
     '''The dump of any migrated document is a valid document of the target version: it loads again under the same URL,
     keeps all required fields, migrates to the same version without change and gives the same dump again.''',
     ['inputs'], 'random documents of all versions, with external documents where these are of the target version',
     'No test reloads an output.',
     ['migration/base.py', CONV, UP12, 'migration/spec/obj.py'], [('dump', 'migration/spec/obj.py:Base2Obj.dump'), ('migration', 'migration/base.py:ApiBase.migrate_obj')],
     observe=['dump()', 'load_obj'])
prop('C22', 'Migration and lookups leave the source document and older objects unchanged',
     '''Loading, migrating, resolving, dereferencing and dumping never change the raw document they were given nor the objects
     of the older version: the dump of the loaded 1.2 or 2.0 object after any number of migrations and lookups is the one from before,
     and what a later migration of the same object gives does not depend on earlier ones.''',
     ['inputs', 'histories'], 'random documents of all versions and sequences of migrations and lookups',
     'Tests never look at the source again.',
     ['migration/base.py', CONV, UP12, 'migration/spec/obj.py'], [('conversion builds new values', CONV + ', ' + UP12)],
     observe=['dump() of the source', 'raw dict'])
prop('C23', 'The same document loads the same however it is stored and fetched',
     '''A document gives the same objects whether it is JSON or YAML (numeric status codes included), in a file named by path or by file:// URL
     or found in a folder under its standard name, redirected by a load hook, served over HTTP, given as a
     dict, or returned by a custom getter as text, bytes or dict, with any non-ASCII text in it.''',
     ['inputs', 'configurations'], 'random documents of all versions times the ways of storing and fetching them, with relative external documents',
     'Tests read a few files by path; most combinations are never loaded.',
     ['migration/getter.py', 'migration/resolve.py', 'migration/base.py', 'utils.py'],
     [('getters', 'migration/getter.py'), ('resolver', 'migration/resolve.py:Resolver.resolve')],
     observe=['load_obj', 'Resolver.resolve'])
prop('C24', 'Each document is fetched at most once, and only those that are referenced',
     '''Loading and migrating a document, and any later lookups in it, fetch each document that is referenced exactly once, whatever the number and
     order of references to it and however their URLs are spelled relative to each other; documents that nothing refers to are never fetched. Loading a document that
     is already loaded gives the object that was loaded.''',
     ['inputs', 'histories'], 'random reference graphs over several documents, with different relative spellings, lookups afterwards',
     'Tests never count fetches.',
     ['migration/resolve.py', 'migration/base.py'], [('cache', 'migration/resolve.py:Resolver.__cache')],
     observe=['custom getter'])
prop('C25', 'The order of keys in a document does not matter',
     '''Two documents that differ only in the order of keys within their JSON objects give the same object tree, the
     same migrated document (key order aside), the same resolved references, and the same acceptance or refusal, in every version.''',
     ['inputs'], 'random documents of all versions, permuted at every level, with chains and cycles of references',
     'Every sample file has one order; which external part is loaded first depends on it.',
     ['migration/base.py', 'migration/store.py', CONV, UP12], [('load order independence', 'migration/base.py:ApiBase.load_obj, resolve_obj')],
     observe=['dump()', 'ref_obj'])
prop('C26', 'Applications and objects do not influence each other',
     '''Loading, migrating, changing or annotating objects of one application has no effect on another application or object:
     results are the same as in a fresh process in whatever order and interleaving documents are loaded, also with
     the same URL serving different content, and attributes attached to one object never show on another.''',
     ['histories', 'inputs'], 'random interleavings of loads, migrations, lookups and edits over two or three applications',
     'Each test works with one application.',
     ['migration/base.py', 'migration/spec/obj.py', 'migration/spec/attr.py', 'migration/scan.py'],
     [('per instance state', 'migration/base.py:ApiBase.__init__, migration/spec/obj.py:Base2Obj.__init__')],
     observe=['dump()', 'get_attrs'])
prop('C27', 'Injected and merged children are used as they are, where they belong',
     '''Building a tree with ready-made objects for some JSON pointers puts these very objects at exactly those places, with the right parent, and
     everything else from the document. Merging children of one object into another only fills what is missing there,
     with the same objects, and attaching an unknown or unsuitable child is refused and changes nothing.''',
     ['inputs'], 'random trees of the three versions, random injection points (nested, in maps and lists, escaped names)',
     'Tests inject at two or three fixed places.',
     ['migration/spec/obj.py'], [('override', 'migration/spec/obj.py:Base2Obj.__init__, _List, _Map'), ('merge', 'migration/spec/obj.py:Base2Obj.merge_children, attach_child')],
     observe=['override argument', 'merge_children', 'attach_child'])
prop('C28', 'A scoped name finds its entry when, and only when, it is unambiguous',
     '''A scoped dictionary finds an entry by its full name, by the parts of its name, or by an unambiguous trailing part; an ambiguous name raises an error
     naming the clash and an unknown one a key error. Composing and splitting scopes are inverse for every separator.''',
     ['inputs'], 'random sets of scoped names with shared suffixes, any separator, any query',
     'Tests have five names.',
     ['utils.py'], [('lookup', 'utils.py:ScopeDict.__getitem__, scope_compose, scope_split')],
     observe=['utils.ScopeDict'])
prop('C29', 'Comparing containers reports exactly the places that differ',
     '''Comparing two JSON values reports nothing when they are equal and otherwise a JSON pointer for every place that differs
     (with both lengths, types or values), honouring the included and excluded keys at every level and ignoring
     the order of lists of plain values.''',
     ['inputs'], 'random nested values and edits of them, include and exclude sets',
     'Tests have a handful of pairs.',
     ['utils.py'], [('comparison', 'utils.py:compare_container')],
     observe=['utils.compare_container'])
prop('C30', 'What cannot be represented is refused instead of converted wrongly',
     '''A document or request that the library does not support or cannot express in the target version raises an error and is never
     silently converted: unknown specification versions, pointers and documents that do not exist, an empty reference,
     downgrades, a list where a map belongs or the reverse, form fields declared twice, several bodies or a body beside form fields, OAuth2 without flow,
     extension paths, space- or pipe-separated values outside query and form arrays, and 1.2 documents with several hosts, limits on
     non-numbers or references in non-body parameters. A refused request leaves the application as it was.''',
     ['inputs'], 'random valid documents with one such defect placed at a random position',
     'Tests have one example for some of these, in one position.',
     ['migration/base.py', CONV, UP12, 'migration/spec/obj.py', 'migration/store.py'],
     [('errors', 'errs.py; ' + CONV + '; ' + UP12 + '; migration/base.py')],
     observe=['exceptions'])
prop('C31', 'The prepare hook sees every migrated root and its result is what callers get',
     '''Every object that a migration produces goes through the application's prepare hook, with the JSON reference at which it is cached afterwards, and what the
     hook returns is what later lookups of that reference and version give. The application reports the
     version its root document was written in and the one it was migrated to.''',
     ['inputs', 'histories'], 'random documents with external parts, hooks that return another object, several migrations',
     'Tests use the identity hook.',
     ['migration/base.py'], [('hook', 'migration/base.py:ApiBase.migrate_obj, prepare_obj')],
     observe=['prepare_obj', 'original_spec_version', 'current_spec_version'])
prop('C32', 'A part migrated by itself is what it is within its document',
     '''Looking up, in 3.0, a part (info, license, schema, parameter, response, path item or reference) of a 2.0 document that is loaded but not migrated, or of another
     document with its parser, gives what the conversion of that part means: the same fields as within the converted document, references still being those of
     the source, operations consuming, producing and being served as the root document says. Migrating the root document afterwards gives what it gives without such lookups; the same
     holds for parts of 3.0 documents, which stay as they are.''',
     ['inputs', 'histories'], 'random documents, parts of every kind, sequences of lookups before the migration',
     'Tests look up parts of migrated documents only.',
     ['migration/base.py', 'migration/versions/v3_0_0/main.py'], [('parts', 'migration/versions/v3_0_0/main.py:upgrade'),
                                                           ('lookups', 'migration/base.py:ApiBase.resolve_obj')],
     observe=['resolve_obj', 'dump'])
prop('C33', 'A failure leaves nothing behind: trying again gives what it should have',
     '''When fetching a document or the application's prepare hook fails, the error reaches the caller of load_obj, migrate_obj or resolve_obj, and the
     application keeps nothing half-done: calling again, once the cause is gone, gives the same documents, the same bound references
     and the same lookups as an application where nothing ever failed; while the cause remains, every further attempt fails too.''',
     ['inputs', 'histories', 'fault_sequences'], 'random document sets, fetches that fail, deliver nothing or half a document, hooks that raise, at any point of histories of calls',
     'No test makes a fetch or a hook fail.',
     ['migration/base.py', 'migration/store.py', 'migration/resolve.py'],
     [('failures', 'migration/base.py:ApiBase.load_obj, migrate_obj'), ('cache', 'migration/store.py:SpecObjStore'),
      ('binding', 'migration/versions/v2_0/scanner/resolve.py, v3_0_0/scanner/resolve.py')],
     observe=['load_obj', 'migrate_obj', 'resolve_obj', 'exceptions'])

TECH = {
    'C01': 'property-based testing: round trip and model of pointer encoding',
    'C02': 'property-based testing: differential against RFC 3986 resolution, idempotence',
    'C03': 'property-based testing: round trip over generated documents, driven by specification tables',
    'C04': 'property-based testing: generated objects against specification tables',
    'C05': 'property-based testing: every generated location against the raw document',
    'C06': 'property-based testing: visit log against a model walk, edit histories',
    'C07': 'property-based testing: metamorphic single edits',
    'C08': 'stateful property-based testing against a model cache',
    'C09': 'property-based testing against a token-wise model',
    'C10': 'property-based testing: generated reference graphs against an independent resolver',
    'C11': 'property-based testing: generated reference chains against a model merge',
    'C12': 'property-based testing: differential against an independent reference converter',
    'C13': 'property-based testing: differential against an independent reference converter',
    'C14': 'property-based testing: differential against an independent reference converter',
    'C15': 'property-based testing: differential against an independent reference converter',
    'C16': 'property-based testing: every output reference checked against the converted target',
    'C17': 'property-based testing: differential against an independent reference converter',
    'C18': 'property-based testing: differential against an independent reference converter',
    'C19': 'property-based testing: differential against an independent reference converter',
    'C20': 'property-based testing: metamorphic (direct against step by step)',
    'C21': 'property-based testing: reload fixpoint',
    'C22': 'property-based testing: snapshots of the sources over histories of calls',
    'C23': 'property-based testing: metamorphic over ways of storing and fetching',
    'C24': 'property-based testing: recording getter against the reference graph',
    'C25': 'property-based testing: metamorphic key permutations',
    'C26': 'stateful property-based testing: interleavings against isolated runs',
    'C27': 'property-based testing: injected objects by identity',
    'C28': 'property-based testing against a model',
    'C29': 'property-based testing against a model comparison',
    'C30': 'property-based testing: planted defects must be refused, their repair accepted',
    'C31': 'property-based testing: recording hook over histories',
    'C32': 'property-based testing: lookups of parts against an independent converter, and against no lookups',
    'C33': 'fault injection with property-based histories, differential against a run without faults',
}
NOTE = ('Exploration: no violation in the generated cases of this run (counts, shares of non-trivial cases and samples in '
        'the evidence file); says nothing about cases outside the generators. Trusts hypothesis, the oracle in '
        'pbt/props/%s.py and what it imports.')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
        for p in P:
            p = dict(p)
            p.pop('note')
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(VERIF, 'pbt', 'props', i.lower() + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': './check %s quick' % i,
                'thorough_cmd': './check %s thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': TECH[i], 'level': 'exploration',
                'level_note': NOTE % i.lower()})
        else:
            na.append({'property': i, 'reason': 'the check is not written yet'})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': na,
                   'notes': 'No hooks: the checks use the public behaviour only.'},
                  fh, indent=1)
        fh.write('\n')
    print('%d checks, %d not claimed' % (len(checks), len(na)))


main()
