"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": None}})


prop("C01", "An acknowledged document survives a crash with the same graph",
     "Once storage has acknowledged a document written from any object graph (a single object, or lists, tuples and "
     "dictionaries of them), a fresh process that loads it after a crash gets the same graph: the same entities with "
     "the same identifiers, tags, texts, attributes, values, bounds and references, every entity once however many "
     "paths lead to it, with both sides of every two-way link. A reference by link to an entity that is in the "
     "document comes back as that entity (scopes compared without regard to case); a link to anything else stays the "
     "same link. Writing the loaded graph out again and restarting again loses nothing either.",
     ["inputs", "histories", "crash_points"],
     "for every graph that can be built through the public API, every history of edits before the write, and every "
     "crash after the acknowledgement, over any number of write-crash-restart generations",
     "The tests round-trip a few fixed graphs inside one process, mostly compare with the library's own ==, and never "
     "restart; the combinations of entity types, sharing, scopes, containers and generations are unbounded.",
     ["gemd/json/gemd_json.py", "gemd/util/impl.py", "gemd/entity/dict_serializable.py", "gemd/entity/base_entity.py",
      "gemd/entity/object", "gemd/entity/template", "gemd/entity/value", "gemd/entity/bounds", "gemd/entity/attribute"],
     [("flatten: every connected entity once, dependencies first", "gemd/util/impl.py"),
      ("substitute_links / LinkByUID", "gemd/util/impl.py"),
      ("object hook with per-load index", "gemd/json/gemd_json.py"),
      ("as_dict/from_dict by constructor signature", "gemd/entity/dict_serializable.py")],
     [("document", "context list plus linked object", "gemd/json/gemd_json.py dumps")],
     ["bytes on the simulated disk", "public attributes of the graph loaded after the restart"])

prop("C02", "Storage faults surface and never yield a wrong or partial graph",
     "A dump whose write fails raises instead of being acknowledged, a dump that cannot be serialised has written "
     "nothing to the stream, and a load whose read fails or whose document is truncated, torn, zero-filled or has "
     "trailing bytes raises instead of returning anything. Failed and interrupted dumps and loads leave nothing "
     "behind: every later dump and load in that process behaves as in a process where they never happened, and "
     "documents that use the same identifiers for different content never bleed into each other. Once the faults stop, "
     "the same dump or load succeeds on the first retry with the whole graph.",
     ["fault_sequences", "crash_points", "histories"],
     "for every byte position at which a write or read can fail or a file can be cut, every place an operation can be "
     "interrupted, and every sequence of such failures and later operations",
     "No test injects an I/O error, a torn file or an interrupt; loads after a failed load are not tested at all.",
     ["gemd/json/gemd_json.py", "gemd/json/__init__.py", "gemd/json/gemd_encoder.py", "gemd/util/impl.py"],
     [("document is built completely before the single write", "gemd/json/gemd_json.py dump"),
      ("index created per load; class map copied per load", "gemd/json/gemd_json.py loads")],
     (), ["exceptions and results at the API", "bytes on the simulated disk"])

prop("C03", "Serialising leaves the live graph alone and names each entity once",
     "Dumping, copying, flattening and substituting links or objects into a copy never change any attribute, value, "
     "reference or list of the live graph, whether they succeed, fail or are interrupted halfway. The one thing they "
     "may add is an identifier: an entity that has none gets exactly one, under the serialiser's scope, and no entity's "
     "identifiers are ever changed or added to after that, so documents written at different times agree on which "
     "entity is which. Serialising an unchanged graph again gives the same bytes, also after a failed or interrupted "
     "attempt.",
     ["histories", "fault_sequences", "inputs"],
     "for every graph and every history of serialisations, edits, failures and interrupts at any point inside an "
     "operation",
     "Tests serialise a graph once or twice without faults and do not compare the live graph attribute by attribute "
     "before and after.",
     ["gemd/util/impl.py", "gemd/json/gemd_json.py", "gemd/entity/link_by_uid.py", "gemd/entity/base_entity.py"],
     [("set_uuids only touches entities without uids", "gemd/util/impl.py"),
      ("_substitute builds new objects", "gemd/util/impl.py")],
     [("uids", "identifiers by scope", "gemd/entity/base_entity.py")],
     ["public attributes of the live graph before and after", "bytes of successive documents"])

prop("C04", "Entities exchanged as linked records converge to the sender's graph",
     "When the entities of a graph are sent one by one as records whose pointers were replaced by links, a receiver "
     "that indexes what has arrived and substitutes objects for links in place ends up with the sender's graph (same "
     "entities, values, shared references and two-way links; a substituted copy resolves the same references) whatever the order, duplication, loss with resending and delay of the "
     "records, and however often it substitutes in between. Until a record arrives, references to it stay links with "
     "the same scope and id and everything else that has arrived is already connected. Replacing pointers by links "
     "again, in a copy or in place, gives back records that converge in the same way.",
     ["schedules", "fault_sequences", "inputs"],
     "for every graph, every delivery schedule (order, duplicates, losses, delays, receiver restarts) and every moment "
     "at which substitution is run, in place or into a copy",
     "The tests substitute on complete, ordered lists of one or two hand-made graphs, never incrementally and never "
     "with missing or duplicated records.",
     ["gemd/util/impl.py", "gemd/entity/link_by_uid.py", "gemd/entity/base_entity.py", "gemd/json/gemd_json.py"],
     [("substitute_links, substitute_objects, make_index, _setter_by_attribute", "gemd/util/impl.py"),
      ("to_link scope choice and fallback", "gemd/entity/base_entity.py")],
     (), ["receiver graph after each delivery and at quiescence"])

prop("C05", "Two-way links agree on both sides after any history",
     "After every operation, accepted or rejected, an ingredient is listed exactly once by the process it points to "
     "and by no other, a measurement exactly once by the material it points to and by no other, and a process's output "
     "is the material most recently assigned to that process if that material still points to it, and otherwise "
     "nothing. This holds for runs and specs, for construction, reassignment, clearing, replacement by links and back, "
     "builders, making runs from specs, copies and loads, and also when some of the objects involved are equal to each "
     "other.",
     ["histories", "inputs", "fault_sequences"],
     "for every sequence of accepted and rejected operations on any population of runs and specs",
     "Tests move a link once or twice between distinct objects; failures in the middle of a sequence, equal twins and "
     "long histories are not reached.",
     ["gemd/entity/object/ingredient_run.py", "gemd/entity/object/ingredient_spec.py",
      "gemd/entity/object/measurement_run.py", "gemd/entity/object/material_run.py",
      "gemd/entity/object/material_spec.py", "gemd/entity/object/process_run.py",
      "gemd/entity/object/process_spec.py", "gemd/entity/util.py", "gemd/builders/impl.py", "gemd/util/impl.py"],
     [("process/material setters maintain the other side", "gemd/entity/object/*.py"),
      ("_substitute_inplace goes through the setters", "gemd/util/impl.py")],
     [("ingredients, output_material, measurements", "read-only sides", "gemd/entity/object")],
     ["public link attributes of every object after every operation"])

prop("C06", "A rejected edit leaves no trace and an accepted one changes only its target",
     "When an assignment, list edit, constructor, builder or class registration raises (wrong type, inconsistent value "
     "at the strictest level, conflicting identifier, unknown name, or an input iterator that fails midway), every "
     "object that existed before reads exactly as before. When it is accepted, the edited attribute reads back what was "
     "given, including contents that arrive through one-shot iterators, and nothing but the edited attribute and the "
     "other side of its two-way link changes. (Replacing links by objects in place over many entities is many edits, "
     "each of which obeys this.)",
     ["histories", "fault_sequences", "inputs"],
     "for every sequence of edits in which any edit may be rejected at any point inside it, and every existing object",
     "Tests assert that bad input raises, but hardly ever that everything else is untouched afterwards, and not in the "
     "middle of a longer history.",
     ["gemd/entity/valid_list.py", "gemd/entity/setters.py", "gemd/entity/case_insensitive_dict.py",
      "gemd/entity/base_entity.py", "gemd/entity/object", "gemd/entity/template", "gemd/entity/attribute",
      "gemd/entity/bounds", "gemd/entity/value", "gemd/builders/impl.py", "gemd/entity/dict_serializable.py"],
     [("check before assign in setters", "gemd/entity"), ("ValidList validates before mutating",
                                                         "gemd/entity/valid_list.py"),
      ("builders attach last", "gemd/builders/impl.py")],
     (), ["public attributes of the whole population before and after every operation"])

prop("C07", "The validation level is scoped to its block and enforced exactly",
     "While the level is 'fatal', assigning a value outside its template's or fraction's bounds raises and changes "
     "nothing; at 'warning' it is accepted with a warning in the log; at 'ignore' it is accepted silently; consistent "
     "values are accepted without a warning at every level. A block that sets the level restores the level from before "
     "it, in whatever way it is left (normally, by an exception or interrupt, by return, by a generator being closed) "
     "and whatever nested blocks or explicit level changes happened inside. A rejected level changes nothing.",
     ["histories", "fault_sequences"],
     "for every history of properly nested blocks, explicit level changes, failures inside blocks and assignments of "
     "consistent and inconsistent values to attributes, attribute lists and quantities",
     "Tests enter one or two blocks and leave them normally; leaving by exception and combinations with every kind of "
     "checked assignment are not covered.",
     ["gemd/entity/bounds_validation.py", "gemd/entity/attribute/base_attribute.py",
      "gemd/entity/object/has_quantities.py", "gemd/entity/object/has_template_check_generator.py",
      "gemd/entity/template/has_condition_templates.py", "gemd/entity/template/has_parameter_templates.py",
      "gemd/entity/template/has_property_templates.py"],
     [("validation_level context manager", "gemd/entity/bounds_validation.py"),
      ("template checks in setters and list triggers", "gemd/entity/object/has_template_check_generator.py")],
     [("BOUNDS_VALIDATION", "process-wide level", "gemd/entity/bounds_validation.py")],
     ["level read back", "exceptions", "log records", "attributes"])

prop("C08", "Unit answers do not depend on what was asked before",
     "Parsing a unit expression, converting between units and finding base units give the answer (or the kind of error) "
     "that a fresh process with the same definitions gives, whatever was parsed, converted, rejected, scaled or evicted "
     "from caches earlier in the process, and in whatever order. An expression with scaling factors stands for exactly "
     "that multiple of its units. A unit string that parsing returned parses to itself and means the same. Asking never changes the meaning of units already stored in values and bounds.",
     ["histories", "inputs"],
     "for every history of unit queries, including rejected ones and ones with scaling factors, and every cache state",
     "Tests query each expression in one fixed order in one process, so hidden state from earlier scaling-factor "
     "definitions and caches is always the same.",
     ["gemd/units/impl.py", "gemd/entity/value/continuous_value.py", "gemd/entity/bounds/real_bounds.py"],
     [("scaling factors defined on demand in the shared registry", "gemd/units/impl.py _scaling_store_and_mangle"),
      ("lru caches", "gemd/units/impl.py")],
     [("_REGISTRY", "mutable unit registry", "gemd/units/impl.py")],
     ["results and exception types of parse_units, convert_units, get_base_units"])

prop("C09", "Changing the unit definitions is all-or-nothing",
     "If switching to another definitions file fails for any reason (missing, unreadable, cut short, malformed, missing "
     "import, directory not enterable, interrupted while the definitions are being read), the call raises, every unit answer stays as it was, and the working directory is "
     "unchanged. If it succeeds, every answer from then on is the one a fresh process using that file gives, nothing "
     "remembered from earlier definitions survives, and the working directory is unchanged. Once faults stop, the same "
     "switch succeeds, and switching back to the default restores the default answers.",
     ["fault_sequences", "histories", "configurations"],
     "for every sequence of switches between definition files, with I/O faults at any step of a switch, interleaved "
     "with any queries before and after",
     "Tests switch to two good files and one missing file; they inject no I/O faults and compare few answers.",
     ["gemd/units/impl.py"],
     [("cache_clear on switch; registry swapped only when built; chdir in finally",
       "gemd/units/impl.py change_definitions_file")],
     [("_REGISTRY", "mutable unit registry", "gemd/units/impl.py")],
     ["unit answers", "os.getcwd()"])

prop("C10", "Threads working on separate graphs do not disturb each other",
     "When several threads each build, edit, validate, serialise, load and copy their own graphs and query units, while "
     "sharing only templates (already identified, edited by none of them) and the process-wide unit definitions and "
     "validation level (changed by none of them), every thread sees exactly the results, exceptions and documents it "
     "would have seen running alone, under every interleaving.",
     ["schedules"],
     "for every interleaving of the threads' steps (preemption between any two lines of the library) and every workload",
     "The test suite is single-threaded.",
     ["gemd/units/impl.py", "gemd/util/impl.py", "gemd/json/gemd_json.py", "gemd/entity/dict_serializable.py",
      "gemd/entity/util.py", "gemd/entity/base_entity.py"],
     [("per-call state in locals (index, visited, seen)", "gemd/util/impl.py, gemd/json/gemd_json.py")],
     [("_REGISTRY and lru caches", "shared across threads", "gemd/units/impl.py")],
     ["per-thread results compared with the same thread run alone"])

prop("C11", "Threads serialising the same graph agree on every identity",
     "When several threads dump, thin-dump, copy, flatten or link into the same graph at the same time (nobody edits "
     "it), no call fails, every document is complete and refers only to identifiers that the live entities carry, every "
     "entity ends up with one identifier per scope that never changes once any call has used it, and each document loads "
     "to the same graph.",
     ["schedules"],
     "for every interleaving of two or more serialising threads over any shared graph, with or without identifiers at the "
     "start, in the same or different scopes",
     "The test suite is single-threaded, so the check-then-assign of identifiers is never interleaved.",
     ["gemd/util/impl.py", "gemd/entity/link_by_uid.py", "gemd/json/gemd_json.py", "gemd/entity/base_entity.py"],
     [("first uid generated under a lock", "gemd/util/impl.py set_uuids, gemd/entity/link_by_uid.py from_entity")],
     [("uids", "identifiers by scope", "gemd/entity/base_entity.py")],
     ["documents and live uids after the run"])

prop("C12", "The same history gives the same documents in every process",
     "Replaying the same sequence of operations with the same random source gives the same documents byte for byte, the "
     "same flattened order, the same rejected operations and the same unit answers in any process: nothing depends on "
     "the hash seed, on memory addresses, or on unrelated work done earlier in the process.",
     ["histories", "configurations"],
     "for every history of operations, every hash seed, memory layout and unrelated prior work",
     "Each test runs once under one hash seed (the suite pins it to 0) and never compares two processes.",
     ["gemd/util/impl.py", "gemd/json/gemd_json.py", "gemd/entity/dict_serializable.py", "gemd/entity/bounds",
      "gemd/entity/base_entity.py"],
     [("sort_keys and sorted traversal", "gemd/json/gemd_json.py, gemd/util/impl.py recursive_flatmap"),
      ("bounds sort their sets", "gemd/entity/bounds")],
     (), ["document bytes compared across interpreter processes"])

prop("C13", "Identifier scopes stay unique and case-insensitive under any history",
     "Whatever sequence of additions, replacements, removals, updates, copies and failed operations the identifiers of "
     "an entity go through, each scope is held at most once regardless of case, every way of asking (lookup, membership, "
     "default, link making, comparing an entity with a link) finds it in any case, and listing, length and lookup agree. "
     "An operation that would add the same scope in a different case is refused and changes nothing, and a copy shares "
     "nothing with its original.",
     ["histories", "fault_sequences", "inputs"],
     "for every history of dictionary operations, including refused ones and ones whose input fails midway, on the "
     "identifiers of any entity",
     "Tests try each dictionary method once on a small fixed dictionary; histories that mix refused and accepted "
     "operations are not covered.",
     ["gemd/entity/case_insensitive_dict.py", "gemd/entity/base_entity.py", "gemd/entity/link_by_uid.py"],
     [("lowercase registry kept in step with the dict", "gemd/entity/case_insensitive_dict.py")],
     [("lowercase_dict", "registry of lower-cased keys", "gemd/entity/case_insensitive_dict.py")],
     ["public mapping interface of uids"])

prop("C14", "Checked lists hold only checked elements and otherwise act as lists",
     "Whatever sequence of accepted and rejected list operations a checked list (tags, labels, file links, attributes, "
     "template ranges) goes through, including inputs that are one-shot iterators or fail midway and checks "
     "that fail partway through a batch, it holds only elements of its allowed types that went through its check. An "
     "accepted operation has exactly the effect it has on a plain list (remove takes the very object given if it is in "
     "the list), and a rejected one has none.",
     ["histories", "fault_sequences", "inputs"],
     "for every history of list operations on any checked list, with element checks and input iterators failing at any "
     "position",
     "Tests try each overridden method once with good and bad single values.",
     ["gemd/entity/valid_list.py", "gemd/entity/setters.py", "gemd/entity/template/base_template.py"],
     [("_validate and trigger before mutation", "gemd/entity/valid_list.py")],
     (), ["contents of the list against a plain-list model"])

prop("C15", "Classes that a client registers take part like the library's own, whenever it does so",
     "A class that a client derives from a library class (or from another class of its own) and registers under the same "
     "type name takes over that type from then on, also in serialisers made earlier; under a new name it adds that type. "
     "Registering a class under a type that stands for something it is not derived from is refused and changes nothing. "
     "Loading, copying, dumping, flattening and rebuilding make every object anew with the class that now stands for its "
     "type, and keep each field that class's constructor takes (also one that has no setter); a field it does not take is "
     "left out with a warning that names it, and nothing else is; an unknown type is an error. Handing out the "
     "table of classes does not let a caller change it. A client's constructor that fails leaves live objects and the "
     "serialiser usable.",
     ["histories", "crash_points", "fault_sequences"],
     "for every order of registrations, edits, dumps, loads (also of documents that a process with other classes "
     "wrote), and every constructor call at which the client's code fails",
     "Tests register one class per type and round-trip it once; class tables, cached constructor signatures and older "
     "serialisers only matter across a history.",
     ["gemd/entity/dict_serializable.py", "gemd/json/gemd_json.py", "gemd/json/gemd_encoder.py", "gemd/util/impl.py",
      "gemd/entity/link_by_uid.py"],
     [("DictSerializableMeta registration", "gemd/entity/dict_serializable.py"),
      ("_load_and_index", "gemd/json/gemd_json.py"), ("_setter_by_attribute", "gemd/util/impl.py")],
     (), ["exact class and fields of each loaded object", "DictSerializable.class_mapping", "log"])

prop("C16", "Reading a graph answers from its present state and leaves no trace",
     "Comparing, printing, linking, listing dependencies, walking, indexing, flattening, substituting into copies, "
     "serialising, copying, asking bounds about values and taking the material history of a graph whose entities have "
     "identifiers changes nothing in it (nor in what it is compared with). Every answer is the one that a process with "
     "the same graph that never asked before would give: it does not depend on earlier questions, on edits since (also "
     "edits inside values and bounds), on questions that were interrupted, or on what other threads are asking at the "
     "same time. What is returned is the caller's own: the containers, dictionaries, links, bounds and copies can "
     "be changed without reaching the graph or later answers.",
     ["histories", "schedules", "fault_sequences"],
     "for every history of edits and questions, every line at which a question is interrupted, and every interleaving "
     "of threads that read one graph",
     "Tests ask each question once, in one thread, and do not edit the answer or the graph afterwards.",
     ["gemd/entity/base_entity.py", "gemd/entity/dict_serializable.py", "gemd/util/impl.py", "gemd/entity/util.py",
      "gemd/entity/bounds", "gemd/entity/value", "gemd/json/gemd_json.py"],
     [("_cached_equals with a cache per comparison", "gemd/entity/base_entity.py"),
      ("recursive_foreach / recursive_flatmap: seen per call", "gemd/util/impl.py"),
      ("lru_cache only on classes and unit texts", "gemd/util/impl.py")],
     (), ["answers as data", "public attributes of the live graph before and after"])

# --- listed, but not decided with this technique
NA = "A pure function of its input: unit tests sample a few inputs out of an unbounded set."
prop("C20", "Bounds form a consistent containment and union algebra",
     "A union of bounds contains every operand, containment is reflexive and transitive, and a value is contained exactly "
     "when its own bounds are.", ["inputs"], "for all bounds and values", NA,
     ["gemd/entity/bounds"], [("contains/union", "gemd/entity/bounds")])
prop("C21", "Unit conversion is numerically right and invertible",
     "Converting there and back returns the starting number up to rounding, and incompatible dimensions are refused.",
     ["inputs"], "for all magnitudes and unit pairs", NA, ["gemd/units/impl.py"],
     [("convert_units", "gemd/units/impl.py")])
prop("C22", "Equality of entities is reflexive, symmetric and structural",
     "Two graphs are equal exactly when they have the same structure and content, independently of the order of unordered "
     "collections.", ["inputs"], "for all pairs of graphs", NA, ["gemd/entity/base_entity.py"],
     [("_cached_equals", "gemd/entity/base_entity.py")])
prop("C23", "Enumerations accept exactly their values and synonyms",
     "Any spelling in any case with surrounding blanks of a value or synonym gives that member, and anything else is "
     "refused.", ["inputs"], "for all strings", NA, ["gemd/enumeration"], [("from_str", "gemd/enumeration/base_enumeration.py")])
prop("C24", "Instantiating a spec mirrors its connectivity",
     "Making runs from a spec creates one run per spec reachable through it, connected as the specs are.",
     ["inputs"], "for all spec graphs", NA, ["gemd/entity/util.py"], [("make_instance", "gemd/entity/util.py")])
prop("C25", "The writable order puts every entity after its dependencies",
     "Sorting entities by their writable order never places an entity before one it depends on.",
     ["inputs"], "for all graphs", NA, ["gemd/util/impl.py"], [("writable_sort_order", "gemd/util/impl.py")])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
