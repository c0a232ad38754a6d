"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

BASE = "pyopenapi/migration/base.py"; STORE = "pyopenapi/migration/store.py"
RES = "pyopenapi/migration/resolve.py"; GET = "pyopenapi/migration/getter.py"
OBJ = "pyopenapi/migration/spec/obj.py"; UT = "pyopenapi/utils.py"
V2 = "pyopenapi/migration/versions/v2_0/"; V3 = "pyopenapi/migration/versions/v3_0_0/"
V12 = "pyopenapi/migration/versions/v1_2/"; COMM = "pyopenapi/migration/versions/comm.py"

prop("C01", "Every $ref binds to exactly the object it names",
 "After a document set is loaded and migrated (2.0 to 2.0, 2.0 to 3.0.0, or 3.0.0), every $ref in everything reachable from it, and every explicit resolve of a JSON reference, yields the object found by resolving that reference against the URL of the document it is written in and walking its decoded JSON pointer: never an object with another name, index, document or kind, and never nothing. This holds whichever references were resolved before, in whatever order, and for names that are prefixes of one another, contain '/', '~' or other special characters, or look like keywords of the specification. After every load and migration the App reports the version the documents are written in and the version they were migrated to.",
 ["inputs", "histories", "schedules"],
 "every set of cross-referencing documents, every order of load/migrate/resolve calls and garbage collections",
 "Unit tests resolve a few references in fixed documents in one order; whether a lookup in the object cache picks the right entry depends on what earlier lookups left in it.",
 [STORE, BASE, UT, RES, V2 + "scanner/resolve.py", V3 + "scanner/resolve.py"],
 [("lookup of a cached object by JSON pointer", STORE + ": SpecObjStore.get / get_until"),
  ("reference normalisation", UT + ": normalize_jr, jr_split, jp_split"),
  ("binding of ref_obj", V2 + "scanner/resolve.py, " + V3 + "scanner/resolve.py")],
 [("spec_objs", "url -> JSON pointer -> version -> object: everything resolved so far", STORE)],
 ["attrs('migration').ref_obj of every reference", "return value of resolve_obj"])

prop("C02", "What a resolve returns does not depend on what was resolved before",
 "Any load, migrate or resolve performed at the end of any history of earlier operations on the same App yields an object graph with the same content (same fields, same children, same targets behind every reference) as the same operation performed on a fresh App that did only what is needed for it. No order of operations makes a previously possible operation fail or a result change.",
 ["histories", "inputs"],
 "every permutation and interleaving of load/migrate/resolve operations on one App, compared with a fresh App",
 "The order in which parts of documents were loaded decides what the object cache contains; tests use one order each.",
 [BASE, STORE, OBJ, V3 + "main.py", V2 + "main.py"],
 [("re-use of cached parts", STORE + ": get, get_under, get_until"), ("override of children by cached parts", OBJ + ": child, _Map, _List")],
 observe=["return value of resolve_obj / migrate_obj, followed through every reference"])

prop("C03", "One object per location: parts loaded early are the parts of the whole",
 "Within one App and one spec version, two references to the same location of the same document give the very same object, and an object reached by walking into an already loaded container is the very object a reference to that inner location gives. When a complete document is loaded after references into it were already resolved, the earlier objects are the ones found inside it, so no location that was already handed out is duplicated (2.0 kept at 2.0, and 3.0.0; from 2.0 to 3.0.0 the same goes for schemas that stay where they are, those in documents of definitions only).",
 ["histories", "inputs"],
 "every order in which locations of a document are referenced before and after the document itself is loaded",
 "Tests check one or two such orders with one name; the override routing depends on every pointer in the cache.",
 [STORE, BASE, OBJ],
 [("override routing", OBJ + ": _Base.__init__, child, _Map.__init__, _List.__init__"), ("collecting cached parts", STORE + ": get_under")],
 observe=["identity of the referents of resolve_obj and of every ref_obj"])

prop("C04", "Handed-out references never dangle while their App is alive",
 "As long as the App is alive, every object it handed out and every reference target reachable from such an object stays usable and unchanged, no matter when garbage collection runs, which further operations (including failed ones and ones asked to remove placeholder objects) are performed, and whether the caller keeps any other object.",
 ["histories", "schedules", "fault_sequences"],
 "every placement of garbage collections and dropped handles among operations, with and without failures",
 "References are weak proxies; whether they survive depends on who else still holds the object when collection happens, which tests never vary.",
 [BASE, STORE, V2 + "scanner/resolve.py", V3 + "scanner/resolve.py"],
 [("strong ownership by the cache", STORE + ": set / get_under(remove)"), ("weak proxies", BASE + ": resolve_obj")],
 observe=["access to every proxy after a simulator-chosen collection"])

prop("C05", "Each document is fetched at most once and only when needed",
 "Over the life of a Resolver every document is successfully fetched at most once, however many references, operations and Apps use it, and a document is fetched only if the operation needs it: it is the requested document, or it is reached from it through references. Operations on locations already loaded fetch nothing.",
 ["histories", "inputs"],
 "every history of operations over every document graph",
 "A test asserts the result, not the number of fetches; the counts depend on the reference graph and the order of use.",
 [RES, BASE, STORE],
 [("raw document cache", RES + ": Resolver.resolve"), ("object cache consulted first", BASE + ": resolve_obj")],
 observe=["the request log of the simulated network and disk"])

prop("C06", "A failed or torn fetch surfaces as an error, never as a partial result",
 "If any document an operation needs cannot be fetched or parsed (connection refused, reset or timed out, HTTP error, truncated, empty or garbage body, missing or unreadable file, failing callback, hook or allocation), the operation raises; it never returns normally with an unresolved reference, missing member or content made up from the damaged data. Conversely when nothing it needs fails, the operation does not fail.",
 ["fault_sequences", "inputs", "histories"],
 "every fault kind at every fetch of every operation",
 "Tests cover a missing file or two; they never fail the n-th nested fetch of a running migration.",
 [BASE, RES, GET, V2 + "scanner/resolve.py", V3 + "scanner/resolve.py"],
 [("errors propagate from getter to caller", GET + ": Getter.__next__, _url_load"), ("no result is cached for a failed fetch", RES)],
 observe=["outcome of every operation under an injected fault"])

prop("C07", "Once faults stop, retrying gives what a fault-free run gives",
 "After any sequence of operations some of which failed because of transient faults, repeating the failed operation on the same App once the faults have stopped succeeds and yields exactly the content a fresh App in a fault-free world yields. No failure leaves behind a half-resolved object, a poisoned document or lost parts that a later operation would pick up.",
 ["fault_sequences", "histories", "crash_points"],
 "every fault at every point of every operation, followed by retries",
 "It needs a failure in the middle of a nested resolve and a second attempt on the same object; no test retries anything.",
 [BASE, STORE, RES, GET, V2 + "scanner/resolve.py"],
 [("state left by an aborted operation", BASE + ": resolve_obj, migrate_obj, load_obj"), ("raw document cache", RES)],
 [("spec_objs and routes", "objects registered before their references were resolved", STORE)],
 ["results of retried operations compared with a fresh App"])

prop("C08", "A failing operation leaves earlier results and version state intact",
 "When an operation fails, at whatever point, every object obtained earlier keeps its content and its reference targets, the recorded original and current spec versions of the App are unchanged, and earlier operations when repeated return the same objects.",
 ["fault_sequences", "histories", "crash_points"],
 "every fault at every point of an operation that follows any successful history",
 "Tests never look at earlier results after a later failure.",
 [BASE, STORE, V3 + "scanner/resolve.py", OBJ],
 [("placeholder removal before parsing", BASE + ": load_obj(remove_dummy)"), ("cache entries", STORE)],
 observe=["all handles held before the failing operation"])

prop("C09", "Every file and connection opened is closed on every path",
 "Every file, HTTP response or connection the library opens is closed by the library itself by the time the operation returns or raises, whatever fault, including interruption and memory exhaustion during the read, ended it; closing does not wait for garbage collection.",
 ["fault_sequences", "crash_points"],
 "every fault kind at every open/read of every operation, with garbage collection disabled",
 "A leak on an error path has no visible effect in a unit test, and reference counting hides it.",
 [GET],
 [("with-statement / finally", GET + ": LocalGetter.load, _url_load")],
 observe=["open handles of the simulated network and disk after each operation"])

prop("C10", "Independent Apps do not interfere, under any thread interleaving",
 "Apps used in different threads, each App by one thread and either with its own Resolver or sharing one Resolver, each obtain exactly the results they obtain when run alone, for every interleaving of their execution; nothing one App loads, migrates, edits or fails to load changes what another sees.",
 ["schedules", "inputs", "histories"],
 "every interleaving, at the granularity of source lines, of two or three Apps working concurrently",
 "Tests are single threaded; module-level and shared state only matters when two Apps overlap in time.",
 [BASE, RES, STORE, OBJ, V2 + "scanner/resolve.py", V3 + "scanner/resolve.py", "pyopenapi/migration/scan.py"],
 [("all mutable state is per App", BASE + ": ApiBase.__init__"), ("raw documents shared through the Resolver", RES)],
 observe=["results of each thread compared with a run alone"])

prop("C11", "Source documents are read-only",
 "Loading, migrating and resolving never modify the documents they are given: dictionaries supplied by a getter and raw documents cached by a Resolver are, after any history of operations and faults, equal to what they were, so the same documents can be used again by another App, for another version or after an edit of the loaded objects, with the same result.",
 ["histories", "inputs", "fault_sequences"],
 "every history of operations by one or more Apps over shared documents",
 "A test that loads a document once cannot see that loading changed it.",
 [BASE, V2 + "scanner/yaml.py", V3 + "scanner/resolve.py", RES, OBJ],
 [("objects keep their own spec", OBJ), ("raw document cache", RES)],
 observe=["deep comparison of the supplied dictionaries and of what the Resolver returns"])

prop("C12", "Every operation terminates, whatever the reference cycles",
 "On documents whose references form cycles of any length, within one document or across documents, every load, migrate and resolve ends within a bounded number of steps (proportional to the size of the documents), successfully whenever all referenced documents are available; following a chain of references that never reaches a real object raises the cycle error instead of looping. Path item reference cycles are merged once per member and stop.",
 ["inputs", "histories", "schedules"],
 "every cyclic reference graph, every order of operations and any faults",
 "Tests have four circular fixtures; termination depends on the shape of the graph and what is already cached.",
 [BASE, UT, COMM, V2 + "scanner/resolve.py", V3 + "scanner/resolve.py"],
 [("objects are cached before their references are resolved", V2 + "main.py, " + V3 + "main.py"), ("CycleGuard", UT)],
 observe=["step counter of the simulator", "CycleDetectionError from deref"])

prop("C13", "Results do not depend on hash seeds or on the order of keys",
 "The outcome of every operation (content, references, reference targets, fields and children found) is the same for every hash seed, every iteration order of the unordered collections the library uses, and every order of the keys inside the source documents.",
 ["schedules", "configurations", "inputs"],
 "every hash seed, every key order, every iteration order of field and child tables",
 "A test process runs with one hash seed and one key order.",
 [OBJ, STORE, "pyopenapi/migration/scan.py", V2 + "scanner/upgrade/converters.py", V2 + "scanner/upgrade/parameter_context.py"],
 [("longest-match and first-match loops over dictionaries", STORE), ("sets merged from field tables", OBJ)],
 observe=["canonical results under permuted key order and other hash seeds"])

prop("C14", "Pointers of a 2.0 document keep their meaning after migration to 3.0.0",
 "After a 2.0 document is migrated to 3.0.0, every JSON pointer of the original that names a definition (or part of one), a global parameter, a global response, a security definition, a path item, a path-level or operation-level parameter, or the schema of a body parameter or response resolves to the converted form of that very element, the pointer returned with it names it in the 3.0.0 object (the schema of a body or response, of which 3.0.0 has one for every media type, is converted as an object of its own, which the returned pointer names from then on), and pointers that did not move are unchanged, whatever was loaded, migrated or resolved before.",
 ["inputs", "histories"],
 "every document and every pointer in those sections, in every history",
 "Tests check a handful of fixed pointers; the routes are merged from every object migrated so far.",
 [STORE, V2 + "scanner/upgrade/converters.py", BASE, V3 + "main.py"],
 [("relocation routes", STORE + ": update_routes, relocate, _patch_jp"), ("routes produced by the converter", V2 + "scanner/upgrade/converters.py: to_openapi, to_path_item")],
 observe=["resolve_obj(from 2.0, to 3.0.0)", "spec_obj_store.relocate"])

prop("C15", "A path item's $ref chain is merged with the referring item winning",
 "The final form of a path item that carries a $ref contains, for each operation method and member, the one found first along the chain of references starting at the item itself, with its own references bound relative to the document it came from, while the item itself and the referenced items stay unmodified. The same result is obtained for any order of resolution, any cached state and any cycle in the chain.",
 ["inputs", "histories", "schedules"],
 "every chain and cycle of path item references across documents, in every history",
 "Tests have one or two two-element chains.",
 [COMM, V2 + "scanner/merge.py", V3 + "scanner/merge.py", OBJ],
 [("cascade merge", COMM + ": _merge_path_item"), ("first-layer merge", OBJ + ": merge_children")],
 observe=["attrs('migration').final_obj / utils.final"])

prop("C16", "A Swagger 1.2 service loads completely or fails",
 "Loading and migrating a Swagger 1.2 resource listing fetches every API declaration it lists exactly once and yields every path, operation and model of each of them in the result, independent of the order of resources and of transient delivery conditions; if any declaration cannot be obtained the load raises and a later retry gives the complete result. Two services or models never overwrite each other.",
 ["fault_sequences", "inputs", "histories"],
 "every set of declarations, every fault at every fetch, with retries",
 "The test services are three fixed folders read without failures.",
 [BASE, V12 + "scanner/upgrade.py", V12 + "objects.py", V2 + "main.py"],
 [("loop over declared resources", BASE + ": load_obj"), ("conversion", V12 + "scanner/upgrade.py")],
 observe=["operations and models in the migrated document against the sources"])

prop("C17", "The result is independent of how the documents were delivered",
 "The same document content gives the same objects whether it is delivered as JSON or YAML, as text, bytes or dictionary, from local files, over HTTP, through a custom getter or through a URL redirection hook, whatever the locale of the process, the size of the chunks in which a read delivers, and the latency of the network. Relative references always resolve against the URL of the document, not against where the bytes came from.",
 ["configurations", "inputs", "schedules"],
 "every combination of transport, encoding, locale and chunking for every document of a set",
 "Tests read ASCII JSON from local files in one locale.",
 [GET, RES, UT],
 [("format sniffing and decoding", GET + ": Getter.__next__, LocalGetter.load"), ("URL hook applied only to the fetch", RES + ": Resolver.resolve")],
 observe=["canonical results under each delivery"])

prop("C18", "The object tree stays coherent under interleaved reads and edits",
 "At every moment of any sequence of reads and supported edits (assigning or attaching a child, setting a map entry, appending or extending a list, merging children, assigning a reference), the listing of children, resolving a pointer from any ancestor, direct access and the dump of any node all describe the same current tree. In particular no earlier read makes a later one show a stale tree.",
 ["histories", "inputs"],
 "every interleaving of reads and edits at every depth of every object tree",
 "Tests read once after one edit on the same node; staleness needs a read at an ancestor, an edit below it and another read.",
 [OBJ],
 [("children cache and its invalidation", OBJ + ": get_children, invalidate_children_cache, attach_child, _Map.__setitem__, _List.append, merge_children")],
 [("children_cache", "memoised listing of descendants of a node", OBJ)],
 ["get_children, resolve, dump, attribute access"])

prop("C19", "A getter delivers its queue in order, one document per request",
 "A getter instance given a queue of locations delivers each of them exactly once, in order, one per request, and then reports exhaustion; a request that fails (error, interruption or unparsable content) consumes nothing, so that repeating it delivers the same location, and it never delivers the content of another location in its place.",
 ["fault_sequences", "histories"],
 "every sequence of requests with faults at every request",
 "Tests drain getters without failures.",
 [GET],
 [("queue of urls", GET + ": Getter.__next__")],
 observe=["sequence of loads and of delivered documents"])

# --- stated, but not decided by this technique
prop("C20", "Conversion from 2.0 to 3.0.0 preserves the meaning of the API",
 "For every valid 2.0 object the produced 3.0.0 object describes the same API: parameters become parameters or request bodies with the same constraints, responses get their content types from the effective 'produces', collection formats become the equivalent style and explode, security schemes keep their type and flow.",
 ["inputs"], "every valid Swagger 2.0 object",
 "Tests convert a few dozen samples.", [V2 + "scanner/upgrade/converters.py"],
 [("converters", V2 + "scanner/upgrade/converters.py")])
prop("C21", "Dump reproduces the loaded document",
 "Dumping a loaded object gives back a document that loads to an equal object and contains every known field and child of the source.",
 ["inputs"], "every valid document of every version", "Tests dump a few samples.", [OBJ], [("dump", OBJ)])
prop("C22", "Comparison reports equality exactly for equal objects",
 "Comparing two objects reports equality if and only if all their fields and children are equal, and otherwise names a location at which they differ.",
 ["inputs"], "every pair of objects", "Tests compare a few pairs.", [OBJ, UT], [("compare, compare_container", OBJ + ", " + UT)])
prop("C23", "URL and JSON pointer helpers obey their algebra",
 "Composing then splitting a JSON pointer returns the segments, normalising a reference is idempotent, and joining agrees with RFC 3986 for relative paths.",
 ["inputs"], "every string", "Tests list examples.", [UT], [("jp_compose, jp_split, normalize_jr, url_join", UT)])
prop("C24", "Scoped names resolve to the unique matching entry",
 "Looking up a name in a scope dictionary returns the entry with that exact name, or the single entry whose last scope segments match, and raises when none or several match.",
 ["inputs"], "every set of names", "Tests list examples.", [UT], [("ScopeDict", UT)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
