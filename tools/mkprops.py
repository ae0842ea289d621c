#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below (kept here so that statements can be edited readably)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop('C01', 'Dumping a loaded document gives the same document back',
 "Loading a Swagger 2.0 document and dumping it, before or after preparation, keeps every specification field at its place with its value and invents nothing: before preparation the dump equals the document (fields at their specification default or empty may be left out, vendor extensions are not kept), after preparation references are absolute and operations carry what they inherit. "
 "Loading the dump again and dumping it is a fixed point, and an application prepared from the dump has the same operations and builds the same requests as the original.",
 ['inputs'], 'every valid Swagger 2.0 document (any nesting of paths, operations, parameters, schemas, responses, headers, security, tags, docs, references)',
 'test_conv compares the dump of one petstore document with itself under a hand-written list of excluded fields; no other field combination, nesting or reload is tried',
 ['pyswagger/spec/base.py', 'pyswagger/spec/v2_0/parser.py', 'pyswagger/spec/v2_0/objects.py', 'pyswagger/core.py'],
 [('parsing contexts', 'pyswagger/spec/base.py Context.parse, container_apply; pyswagger/spec/v2_0/parser.py'),
  ('dump', 'pyswagger/spec/base.py BaseObj.dump; pyswagger/core.py App.dump')])

prop('C02', 'Every way of loading a document yields the same application',
 "The same document gives the same version, operations, dump (apart from the location its references are resolved against) and requests whether it is written as JSON or YAML, and whether it is reached by absolute or relative path, directory, extension-less path, file URI, HTTP, redirected URL, in-memory dict, text-returning getter callback or customised resolver; the same holds for a 1.2 resource listing with its resource files. "
 "A source that does not exist or has no supported Swagger version is refused with an exception, never turned into an application.",
 ['inputs', 'configurations'], 'every document x serialisation x file name/location x loading route',
 'tests load a handful of fixtures, each through one route; equality between routes is never compared',
 ['pyswagger/getter.py', 'pyswagger/resolve.py', 'pyswagger/utils.py', 'pyswagger/core.py', 'pyswagger/scanner/v2_0/yaml.py'],
 [('getters', 'pyswagger/getter.py Getter, LocalGetter, SimpleGetter, DictGetter'),
  ('resolver', 'pyswagger/resolve.py Resolver.resolve'),
  ('URL normalisation', 'pyswagger/utils.py normalize_url, path2url, patch_path'),
  ('YAML status codes', 'pyswagger/scanner/v2_0/yaml.py')])

prop('C03', 'JSON references find exactly the object they name',
 "Every object of a prepared document is returned by resolving its JSON pointer, relative (starting with #) or absolute, in one step or in cascade, whatever characters its names contain, and pointer composition and splitting are inverse to each other. "
 "A relative reference is resolved against the document that contains it by the rules for relative URLs, each referenced document is fetched at most once, and a pointer that names nothing raises instead of returning some other object.",
 ['inputs', 'histories'], 'every document or set of documents, every pointer into it, every base URL and relative reference, every order of resolving',
 'tests resolve a few dozen literal pointers of fixture documents; escaping, prefixes shared by names, resolution orders and URL arithmetic are only sampled',
 ['pyswagger/utils.py', 'pyswagger/core.py', 'pyswagger/resolve.py', 'pyswagger/spec/base.py', 'pyswagger/scanner/v2_0/norm_ref.py'],
 [('JSON pointer codec', 'pyswagger/utils.py jp_compose, jp_split, jr_split, normalize_jr, derelativise_url'),
  ('resolution and object cache', 'pyswagger/core.py App.resolve, App.prepare_obj, App.s'),
  ('raw document cache', 'pyswagger/resolve.py Resolver.resolve')])

prop('C04', 'A reference behaves exactly like the content it refers to',
 "Moving a schema, parameter, response or path item from its place of use to another place of the same document or to another document (whole or part, in any directory), and referring to it from there, possibly through several hops, changes neither the requests that are built, nor the inputs that are accepted, nor how responses are parsed, also when only the operations are kept of the application. "
 "Fields given beside the reference in a path item are kept together with the referenced ones.",
 ['inputs', 'configurations'], 'every document x every choice of parts to move x file layout x chain length',
 'tests have a few fixtures with one reference each and compare single fields of them',
 ['pyswagger/scanner/v2_0/merge.py', 'pyswagger/scanner/v2_0/resolve.py', 'pyswagger/scanner/v2_0/norm_ref.py', 'pyswagger/spec/base.py', 'pyswagger/utils.py', 'pyswagger/core.py'],
 [('merge of referenced objects', 'pyswagger/scanner/v2_0/merge.py; pyswagger/spec/base.py BaseObj.merge'),
  ('schema dereferencing', 'pyswagger/scanner/v2_0/resolve.py; pyswagger/utils.py deref, final')])

prop('C05', 'Operations inherit from path item and document, never the reverse',
 "The effective parameters of an operation are its own plus those of its path item that it does not override, and its media types, security requirements and schemes are its own if it declares them, else those of the document (schemes: else the scheme of the URL it was loaded from); its URL, path, base path and method are composed from host, base path, path key and verb. "
 "What one operation declares never changes what another operation, its path item or the document has.",
 ['inputs', 'configurations'], 'every document x which levels declare which of the inherited settings',
 'one fixture with one combination per setting; cross-talk between operations is not examined',
 ['pyswagger/scanner/v2_0/patch_obj.py', 'pyswagger/core.py'],
 [('inheritance', 'pyswagger/scanner/v2_0/patch_obj.py PatchObject'), ('scheme selection', 'pyswagger/core.py App.prepare, App.load')])

prop('C06', 'Object values follow their schema, including composition',
 "Producing an object value keeps exactly the properties the schema (with everything it composes by allOf, in any order and depth) and its additional-properties rule allow, converts each by its own schema, fills in the defaults of absent properties, sets the discriminator, and raises when a required property is missing or a read-only property is written in a request. "
 "Two produced objects are equal exactly when they have equal values for every key, absent and null counting as the same. What was produced is itself accepted as a value, with the same result; its keys are its attributes, and its copies are equal to it.",
 ['inputs'], 'every object schema (nesting, allOf trees, references, additional properties, required, defaults, readOnly) x every dict value, read and write context',
 'a dozen literal schemas and values in test_prim; allOf order, nesting and key sets are not varied',
 ['pyswagger/primitives/_model.py', 'pyswagger/primitives/__init__.py'],
 [('model production', 'pyswagger/primitives/_model.py Model.apply_with, cleanup, __eq__'), ('factory', 'pyswagger/primitives/__init__.py Primitive.produce')])

prop('C07', 'Composed schemas aggregate into one effective schema',
 "For every schema the effective (aggregated) schema carries the schema's own fields and all properties of every schema it composes, directly or through references and further composition; where both define a field or property the schema's own definition wins, and lists such as required are unions. "
 "The schemas composed from are themselves left unchanged, and recursive compositions terminate.",
 ['inputs'], 'every acyclic or recursive graph of schemas built from properties, allOf, items and references',
 'four fixture schemas are inspected',
 ['pyswagger/scanner/v2_0/aggt.py', 'pyswagger/spec/base.py', 'pyswagger/utils.py'],
 [('aggregation', 'pyswagger/scanner/v2_0/aggt.py'), ('merge', 'pyswagger/spec/base.py BaseObj.merge')])

prop('C08', 'Cyclic references are detected exactly and never hang',
 "Preparing a document in strict mode raises the cycle error exactly when following schema references (through properties, items, allOf and additionalProperties) leads back to where it started, and in non-strict mode every document, cyclic or not, is prepared in finite time and usable. "
 "The cycle search reports exactly the elementary cycles reachable from its start, each once and as a closed walk that starts at its smallest vertex; it reports none in an acyclic graph, and its time does not grow with the number of paths there.",
 ['inputs'], 'every finite directed graph; every document whose schema, parameter, response and path item references form such a graph',
 'six hand-written graphs and one circular fixture',
 ['pyswagger/utils.py', 'pyswagger/scanner/cycle_detector.py', 'pyswagger/core.py', 'pyswagger/scanner/v2_0/merge.py', 'pyswagger/scanner/v2_0/aggt.py'],
 [('graph walk', 'pyswagger/utils.py walk, CycleGuard, deref'), ('cycle detector', 'pyswagger/scanner/cycle_detector.py')])

prop('C09', 'Scalar values are converted to the documented wire forms and back',
 "Every documented Python representation of an integer, number, string, boolean, byte, date, date-time, uuid or email value is accepted and converted to one value whose text form and JSON form follow the documentation (ISO 8601 times, base64 bytes in JSON, canonical uuid), and reading that wire form back yields an equal value. "
 "Any other string or type where a date, date-time, uuid or number is required is refused with an exception.",
 ['inputs'], 'every value of each primitive type and every accepted representation of it (including time zones, fractions, leap days, non-ASCII text, arbitrary bytes)',
 'tests try two or three literals per type',
 ['pyswagger/primitives/__init__.py', 'pyswagger/primitives/_time.py', 'pyswagger/primitives/_byte.py', 'pyswagger/primitives/_uuid.py', 'pyswagger/primitives/_int.py', 'pyswagger/primitives/_float.py', 'pyswagger/primitives/_str.py', 'pyswagger/primitives/comm.py', 'pyswagger/utils.py'],
 [('primitive constructors', 'pyswagger/primitives/_*.py'), ('ISO 8601 parser', 'pyswagger/utils.py from_iso8601'), ('JSON encoder', 'pyswagger/primitives/comm.py PrimJSONEncoder')])

prop('C10', 'A value is accepted exactly when it satisfies its declared limits',
 "A number, string or array given for a parameter, property, array item or header is accepted exactly when it satisfies the declared minimum/maximum (inclusive or exclusive), multipleOf, minLength/maxLength, string enum and minItems/maxItems, including limits of zero, negative limits and limits composed by allOf; otherwise an exception is raised before any request exists. "
 "This holds wherever the limited value sits: parameter, body property, array item, additional property, response body or response header.",
 ['inputs'], 'every limit combination x values on, just inside and just outside each limit x every position',
 'a few literals per keyword on one position',
 ['pyswagger/primitives/comm.py', 'pyswagger/primitives/_int.py', 'pyswagger/primitives/_float.py', 'pyswagger/primitives/_str.py', 'pyswagger/primitives/_array.py', 'pyswagger/primitives/__init__.py'],
 [('min/max', 'pyswagger/primitives/comm.py min_max'), ('per type validators', 'pyswagger/primitives/_int.py, _float.py, _str.py, _array.py')])

prop('C11', 'Arrays are joined and split by their collection format without loss',
 "An array parameter or header is written by joining its items with the separator of its collection format (comma by default, space, tab, pipe, or one pair per item for multi), nested arrays with the format of each level, and reading such a text back with the same declaration yields the same items in the same order, each converted by the item declaration. "
 "uniqueItems removes later duplicates and keeps the order of first occurrence.",
 ['inputs'], 'every array value (any length, item type, empty strings, nesting) x collection format per level x parameter place',
 'three literal arrays',
 ['pyswagger/primitives/_array.py', 'pyswagger/spec/v2_0/objects.py'],
 [('array primitive', 'pyswagger/primitives/_array.py Array'), ('parameter placement', 'pyswagger/spec/v2_0/objects.py Operation.__call__')])

prop('C12', 'Each argument ends up, encoded once, where its declaration says',
 "Calling an operation puts every supplied or defaulted argument exactly once at the declared place (path, query, header, form, body, file) with its converted text form and nothing anywhere else: percent-decoding the path segments of the final URL gives back the path arguments, and query and headers contain exactly the given pairs. "
 "A missing required argument or an undeclared argument raises ValueError and no request is built; an optional argument that is not supplied and has no default is left out. What the caller changes in the request's parameters (`_p`) before sending counts as given.",
 ['inputs'], 'every set of parameter declarations x every assignment of arguments (present, absent, default, extra), any text content',
 'tests build about twenty literal requests',
 ['pyswagger/spec/v2_0/objects.py', 'pyswagger/io.py'],
 [('argument conversion', 'pyswagger/spec/v2_0/objects.py Operation.__call__'), ('URL and header preparation', 'pyswagger/io.py Request.prepare')])

prop('C13', 'Request payloads decode to the arguments that were given',
 "The payload of a prepared request, decoded by an independent decoder for its declared content type, contains exactly the given values: a JSON body equals the body argument in wire form, a url-encoded form gives the form pairs in order, and a multipart body gives every form field and every file (name, file name, content type, transfer encoding, exact bytes), whatever bytes or text they hold. "
 "The declared content type always matches the payload.",
 ['inputs'], 'every body value, form field set and file set (content with boundary-like text, line ends, NUL, non-ASCII, empty content, several files per name)',
 'tests compare two literal multipart bodies and a few JSON bodies',
 ['pyswagger/io.py', 'pyswagger/primitives/codec.py', 'pyswagger/primitives/comm.py', 'pyswagger/primitives/_file.py'],
 [('form, multipart and body encoders', 'pyswagger/io.py Request._prepare_forms, _prepare_files, _prepare_body'), ('JSON codec', 'pyswagger/primitives/codec.py')])

prop('C14', 'Media types and schemes come from what the operation declares',
 "A request announces the caller's chosen media types if the operation declares them and refuses others, and otherwise the first declared one (JSON for a body when none is declared); forms and files demand their own media type in the declared list. "
 "The scheme used is one supported by both operation and client, the caller's preferred one if it set one (refused if not supported), and the option to replace network location or scheme changes only that part of the URL.",
 ['inputs', 'configurations'], 'every combination of declared consumes/produces/schemes, caller choices, client schemes and URL options',
 'five literal combinations',
 ['pyswagger/io.py', 'pyswagger/core.py'],
 [('negotiation', 'pyswagger/io.py Request.prepare, consume, produce, _patch'), ('client schemes', 'pyswagger/core.py BaseClient.prepare_schemes')])

prop('C15', 'Using an application leaves no trace in later requests',
 "After any history of building, preparing, resetting, sending and re-sending requests and parsing responses, successful or failing, in any interleaving, every further request and response is the same as in a freshly loaded application, and a request sent again is the same as the first time. "
 "The caller's arguments, headers and documents are not modified, the application's own document does not change, and several applications in one process do not influence each other.",
 ['histories'], 'every sequence of operations over several requests, operations, clients and applications',
 'tests re-send one request once; all other tests use a fresh application per request',
 ['pyswagger/io.py', 'pyswagger/core.py', 'pyswagger/spec/v2_0/objects.py', 'pyswagger/primitives/__init__.py', 'pyswagger/contrib/client/requests.py'],
 [('reset and prepare', 'pyswagger/io.py Request.reset, prepare; Response.reset'), ('header composition', 'pyswagger/core.py BaseClient.compose_headers'), ('production context', 'pyswagger/primitives/__init__.py Primitive.produce')])

prop('C16', 'Exactly the required and known credentials are applied',
 "When a request goes through a client with a security holder, the credentials of exactly those security schemes that the operation requires and the caller registered are attached once, each at the place and in the form of its scheme (Basic header, api key in the named header or query parameter, access token), and a later registration of the same scheme replaces the earlier. "
 "An operation without requirements is sent unchanged, an unknown scheme name is refused, and credentials of one scheme or request never appear in another.",
 ['inputs', 'histories'], 'every set of security definitions and requirements x every registration history x repeated sends',
 'five literal operations of one fixture',
 ['pyswagger/core.py', 'pyswagger/utils.py', 'pyswagger/scanner/v2_0/patch_obj.py'],
 [('security holder', 'pyswagger/core.py Security.update_with, __call__'), ('replace in query', 'pyswagger/utils.py nv_tuple_list_replace')])

prop('C17', 'A response is parsed by the declaration of its status',
 "A response is interpreted by the declaration for its status code, else the default one: its body is decoded by its content type and converted by that schema (left as raw text when there is no schema or raw mode is on), every declared header value is converted by its header declaration and all header values are kept in order under a case-insensitive name. "
 "The result does not depend on how status, headers and body are delivered (together or in separate steps, as mapping or as pairs, as text or bytes), as long as status and headers precede the body.",
 ['inputs', 'histories'], 'every set of response declarations x status x headers x body x order of delivery',
 'seven literal responses',
 ['pyswagger/io.py', 'pyswagger/utils.py', 'pyswagger/primitives/codec.py'],
 [('response', 'pyswagger/io.py Response.apply_with, _convert_header'), ('header map', 'pyswagger/utils.py CaseInsensitiveDict')])

prop('C18', 'Swagger 1.2 documents are converted to an equivalent 2.0 document',
 "Loading a Swagger 1.2 resource listing yields a 2.0 document that has every operation, parameter, model, property, inheritance relation and authorization of the 1.2 resources under its resource's name, with the same types, limits, defaults, media types and URLs, and nothing else. "
 "Its dump is a valid 2.0 document: loading that dump gives an application which builds the same requests and parses the same responses.",
 ['inputs'], 'every valid set of 1.2 resource files',
 'tests look at single fields of one petstore fixture and two small ones',
 ['pyswagger/scanner/v1_2/upgrade.py', 'pyswagger/spec/v1_2/parser.py', 'pyswagger/spec/v1_2/objects.py', 'pyswagger/core.py'],
 [('conversion', 'pyswagger/scanner/v1_2/upgrade.py'), ('1.2 parsing', 'pyswagger/spec/v1_2/parser.py, objects.py')])

prop('C19', 'Validation reports exactly the defects of a document',
 "For a document built by adding known defects to a valid one, validation returns one entry per broken rule at the location of the defective object, and none for a valid document; non-strict validation never raises. "
 "Strict validation and strict preparation raise the validation error exactly when that list is not empty.",
 ['inputs'], 'every valid 1.2 or 2.0 document x every subset of injected defects',
 'one fixture document with a fixed list of errors',
 ['pyswagger/scanner/v1_2/validate.py', 'pyswagger/scanner/v2_0/validate.py', 'pyswagger/core.py', 'pyswagger/scan.py'],
 [('rules', 'pyswagger/scanner/v1_2/validate.py, pyswagger/scanner/v2_0/validate.py'), ('strictness', 'pyswagger/core.py App.validate, prepare'), ('scanner', 'pyswagger/scan.py')])

prop('C20', 'Rendered random inputs are always acceptable',
 "Whatever the renderer generates for an operation, parameter or schema satisfies its declaration: the operation accepts it, required parameters and properties are present, every value has the declared type and lies within the declared limits, enum and length. "
 "The options hold: templates are used verbatim, excluded parameters are absent, minimal options give only required ones, maximal options give all.",
 ['inputs', 'configurations'], 'every renderable declaration x options x random choices of the renderer',
 'tests render a few fixture declarations fifty times and look at simple types',
 ['pyswagger/primitives/render.py'],
 [('renderer', 'pyswagger/primitives/render.py Renderer.render, render_all, _generate')])

prop('C21', 'All clients put the same request on the wire and return the response',
 "Sending the same request with the requests, Flask or Tornado client makes the server see the declared method, path, query pairs, headers (the caller's and the request's), form fields, files and body, and the response object given back holds the server's status, headers and body, converted by the operation's declaration. "
 "Caller headers given as mapping or list, with or without joining, all arrive.",
 ['inputs', 'configurations'], 'every operation and argument set x client x header form x scripted server response',
 'each client has about ten literal requests against its own mock',
 ['pyswagger/contrib/client/requests.py', 'pyswagger/contrib/client/flask.py', 'pyswagger/contrib/client/tornado.py', 'pyswagger/core.py'],
 [('clients', 'pyswagger/contrib/client/*.py'), ('header composition', 'pyswagger/core.py BaseClient.compose_headers')])

prop('C22', 'Operation and model lookup finds the one match or refuses',
 "Looking up an operation by operation id, by tag and operation id, or by pointer gives the very operation of the document with that name; looking up a scoped name by its full key, its parts or an unambiguous last part gives its value (parts are matched as a whole). "
 "A name that matches nothing raises KeyError, one that matches several entries equally well raises ValueError, and a document with two operations of the same tag and id is refused.",
 ['inputs'], 'every set of tags, operation ids and separators x every lookup key',
 'a few literal keys',
 ['pyswagger/utils.py', 'pyswagger/scanner/type_reducer.py', 'pyswagger/core.py'],
 [('scoped dictionary', 'pyswagger/utils.py ScopeDict, scope_compose, scope_split'), ('operation collection', 'pyswagger/scanner/type_reducer.py')])

prop('C23', 'Registered primitives and media codecs are used wherever they apply',
 "A handler registered for a type and format converts every value of that type and format, at any depth of parameters, bodies, arrays, composed schemas, defaults, headers and responses, and no other value; types without a handler for their format use the handler of the type. "
 "A codec registered for a media type, in any letter case and ignoring parameters, encodes bodies and decodes responses of that type until it is unregistered, and a type without codec is refused; registrations in one application do not affect another.",
 ['inputs', 'histories'], 'every registration history x media type spelling x schema position',
 'one registration of each kind',
 ['pyswagger/primitives/__init__.py', 'pyswagger/primitives/codec.py', 'pyswagger/io.py'],
 [('primitive registry', 'pyswagger/primitives/__init__.py Primitive.register, get, produce'), ('codec registry', 'pyswagger/primitives/codec.py MimeCodec')])

prop('C24', 'A failed load or resolution leaves nothing half-loaded behind',
 "When a document that is needed to load, prepare or resolve can not be fetched or read (the source raises, is interrupted, or delivers nothing or no well-formed text), the failure is raised and no application or object is returned. "
 "Afterwards nothing incomplete is used: what was resolved before stays as it was, other references are still resolved, and once the source is available again the same resolution, or loading with the same resolver, gives exactly what it gives where nothing has failed.",
 ['inputs', 'fault_sequences', 'histories'], 'every graph of referencing files x every fetch that may fail x every way to fail x every order of resolutions',
 'no fetch ever fails half-way in the tests',
 ['pyswagger/core.py', 'pyswagger/resolve.py', 'pyswagger/getter.py', 'pyswagger/scanner/v2_0/resolve.py'],
 [('cache of prepared objects', 'pyswagger/core.py App.resolve, prepare_obj, load_obj'), ('cache of fetched documents', 'pyswagger/resolve.py Resolver.resolve'), ('fetching', 'pyswagger/getter.py Getter.__next__')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, sort_keys=False) + '\n')
print(len(P), 'properties')
