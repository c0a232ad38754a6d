#!/usr/bin/env python3
"""writes known_findings.json: recorded findings, and the defects repaired"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# C18: all in pyopenapi/migration/spec/obj.py, which cannot be changed here: a
# folder named "spec" counts as test files.  Each is identified by what the
# check predicts the code to do wrong (sim/tree.py: remembered, coded, flags);
# anything else that differs from the current tree is a violation.
FINDINGS = [
 {'property': 'C01', 'id': 'percent-encoded',
  'what': 'a $ref whose fragment is percent-encoded, as RFC 6901 wants it in a URI ("#/definitions/a%20b" for the name '
          '"a b"), does not resolve: the operation fails (findings/C01-percent-encoded.json)',
  'where': 'pyopenapi/utils.py: jr_split; pointers are also handed out and accepted back unencoded, so that decoding '
           'them would change what pointers to names with a "%" mean; the generator writes fragments unencoded'},
 {'property': 'C01', 'id': 'form-ref',
  'what': 'migrating 2.0 to 3.0.0, a formData parameter given by $ref becomes a reference in the place of a Schema '
          'which leads to a RequestBody (findings/C01-form-ref.json); the existing tests insist on that $ref',
  'where': 'pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py: to_media_type'},
 {'property': 'C01', 'id': 'array-index',
  'what': 'a pointer whose array index is not one of RFC 6901 ("-1", "01", "+1") is resolved to an element of an '
          'array that is loaded already, instead of failing (findings/C01-array-index.json)',
  'where': 'pyopenapi/migration/spec/obj.py: _List.resolve, and pyopenapi/migration/resolve.py which agrees with it'},
 {'property': 'C12', 'id': 'deep-chain',
  'what': 'a chain of more than about 110 references through a document which has no version (it is loaded part by '
          'part) fails with RecursionError, as each reference is followed within the one before it '
          '(findings/C12-deep-chain.json); the same chain within a full document is fine',
  'where': 'pyopenapi/migration/base.py: prepare_obj; the phases of preparing an object would have to be put off '
           'until the outer ones are done, which changes when each object is merged, resolved and cached'},
 {'property': 'C18', 'id': 'stale-children',
  'what': 'get_children of a node keeps what it found first: an entry put into (or appended to, attached below) a '
          'nested container, a child assigned as an attribute, or an interrupted listing, is not seen by later '
          'listings of the node (findings/C18-stale-children.json)',
  'where': 'pyopenapi/migration/spec/obj.py: Base2Obj.get_children, _Map.get_children, _List.get_children'},
 {'property': 'C18', 'id': 'twice-encoded',
  'what': "get_children encodes names within nested containers twice ('/' becomes '~01'): the listed name does not "
          'resolve to the listed object (findings/C18-twice-encoded.json)',
  'where': 'pyopenapi/migration/spec/obj.py: Base2Obj.get_children, _Map.get_children, _List.get_children'},
 {'property': 'C18', 'id': 'dump-boolean',
  'what': 'dump of a tree in which additionalProperties is a boolean fails (true) or leaves it out (false) '
          '(findings/C18-dump-boolean.json)',
  'where': 'pyopenapi/migration/spec/obj.py: Base2Obj.dump'},
]

FIXED = [
 ('C14', '697ca6d', 'a part loaded before its document kept its old pointer when migrating moved it: it was attached to another parameter, and a recursive schema of a global response failed to migrate (C03)'),
 ('C14', 'd1d6586', 'parameters of operations were not relocated: pointers to them (or to their schemas) failed or led to another parameter'),
 ('C01', 'e7e63b1', "'security: []' of an operation was dropped: the migrated operation required what the document requires"),
 ('C01', '8c49766', 'what an external response or body parameter refers to was looked for in the document which uses it'),
 ('C01', '3205f2e', 'a reference to a Callback Object without expressions stayed unbound'),
 ('C17', '73ae55c', 'a local document whose path holds spaces, percent signs or other letters failed to load: the percent-encoded URL was used as the path'),
 ('C17', '86f081d', "a local document in a directory whose name ends with .json/.yaml/.yml failed to load when its own extension differs (C19)"),
 ('C01', 'd7ca1dd', 'Schema.deprecated and Encoding.style of 3.0 were misspelt and could not be read'),
 ('C02', '3d05c68', 'a reference to what is under a vendor extension of a loaded document failed, or worked when the piece had been loaded first'),
 ('C01', '655fe1e', 'extension fields in Paths, Responses and Callbacks were taken for elements: documents failed to load or to migrate'),
 ('C01', '272ed96', 'a document with a parameter of a Link Object which is not a string failed to load'),
 ('C17', '5c2b9f0', 'JSON led by a byte order mark or white space was read as YAML: tabs failed, 1e+30 became a string, surrogate pairs stayed split'),
 ('C01', '993f67d', 'OAuthFlows.client_credentials (second name) named a member that does not exist'),
 ('C16', '24ceefc', 'a Swagger 1.2 service in which a scope has no description could not be opened'),
 ('C01', 'e2eafab', 'references that are an absolute path, name a host or another query were joined wrongly: another URL was fetched'),
 ('C01', 'f3d5018', 'relative references of a document at the root of a host were joined wrongly and fetched another URL'),
 ('C01', '891f36e', 'JSON pointers were compared as strings: /definitions/User also claimed /definitions/User1 (wrong object, also when relocating, C14)'),
 ('C03', 'f1d0763', 'parts of a document loaded before the document were lost (or the load failed) when their pointer holds encoded characters'),
 ('C01', '9f0f477', "a Media Type Object's 'examples' is a map of Example or Reference Objects; references in it were not resolved"),
 ('C17', 'e61dea5', 'integer keys of YAML documents (status codes) stayed integers: references to them did not resolve, JSON and YAML gave different objects'),
 ('C01', 'f46b855', "the global 'security' of a 2.0 document was not loaded, and names of body parameters with '/' or '~' relocated wrongly (C14)"),
 ('C01', '0d64cac', 'a Reference Object loaded on its own (a reference to a reference in another document) stayed unresolved'),
 ('C01', '0c8f8df', "'content' of a Header Object was not loaded, so references in it were never bound"),
 ('C01', '0a83435', 'migrating a standalone Schema Object that is a reference gave a Schema without target'),
 ('C19', 'df434d8', 'a failed request consumed the location: the next one delivered the content of another document (C07)'),
 ('C17', '5d53301', 'LocalGetter decoded files in the locale of the process'),
 ('C06', 'b13ab13', 'a scalar document (for example an error page) was cached as a document, and later retries failed on it (C07)'),
 ('C11', 'efc7437', 'documents cached by Resolver were edited by loading and migrating (merge, $ref patching), visible to other Apps'),
 ('C07', '28584bd', 'an operation that failed half-way left incomplete objects in the cache which later operations returned (C08)'),
 ('C04', 'dfa1076', 'migrating an object twice replaced the migrated object: references handed out dangled (C08)'),
 ('C14', '2f17202', 'path-level parameters: pointers after a body parameter were off by one, body shared between operations'),
 ('C15', '840305d', 'the $ref chain of a path item ended early in a document loaded but not migrated yet'),
 ('C03', '90dd12d', 'a piece loaded after its own parts duplicated them, earlier references dangled or bound to other objects (C04)'),
 ('C14', 'df6bc60', 'loading one definition alone hid the relocation of the whole document: pointers did not move any more (C07)'),
 ('C07', '5d354df', 'a listing of children interrupted by an exception stayed incomplete: a later migration of the loaded object skipped references'),
 ('C02', 'e44f0b6', "a path item migrated through a reference ignored 'produces', 'consumes' and the server of its document, which adopted that piece when migrated later"),
 ('C10', '399408a', 'migrating re-executed the migration modules each time: with several threads the import failed ("module ... not in sys.modules")'),
 ('C16', '6cec35a', 'a resource listing was cached under the url of its last declaration: loading it twice gave two objects (C03)'),
 ('C16', 'a3dff03', "names of models and authorizations of Swagger 1.2 with '/' or '~' were not encoded in JSON pointers: the load failed or bound wrongly"),
 ('C16', '0e652b7', 'Swagger 1.2 documents without optional models or info, or without any path, failed to load'),
 ('C19', '8e4360a', 'a Getter delivered something which is not a document (for example an HTML error page) and consumed the location'),
 ('C19', 'd75cc62', 'DictGetter consumed the list of its caller: a second getter of the same list delivered nothing'),
 ('C01', '77e3d69', 'empty segments (//) in the URL of a document were dropped: references were bound to other URLs'),
 ('C14', '6796071', 'migrating a migrated document again lost its relocations: pointers of the original version did not move any more'),
 ('C08', '5691b73', 'migrating a migrated document again relocated its references twice: they were bound to other parameters (C01, C02, C14)'),
 ('C02', 'ae66337', 'load_obj of a part that was resolved (or loaded with its document) before failed, or made a second object of it (C03)'),
 ('C01', '847cb96', "references ending in '.' or '..' (directories) were bound to the URL without the ending slash"),
 ('C01', '60e979d', 'resolving a pointer which names a float in a loaded document failed (TypeError)'),
]

out = {
    'findings': FINDINGS,
    'fixed': ['fixed: property=%s %s %s' % f for f in FIXED],
}
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
