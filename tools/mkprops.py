"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, (id, title, len(title))
    P.append(d)
Y, B, S, X, J, G, I = ("pyangbind/lib/yangtypes.py", "pyangbind/lib/base.py", "pyangbind/lib/serialise.py", "pyangbind/lib/xpathhelper.py",
                       "pyangbind/lib/pybindJSON.py", "pyangbind/plugin/pybind.py", "pyangbind/helpers/identity.py")

p("C01", "Assigning to a data node stores a value of its declared type or changes nothing",
  "For every generated data node, an assignment either stores an instance of exactly the type and meta-data the node was created with, which the node's getter then returns, or raises ValueError. A rejected assignment leaves the old value, the change flags, the other branches of a choice and the path registry as they were. Creation, assignment and reset of a node all build it with the same type, default, name, namespace and configuration flag.",
  ["inputs", "programs"], "every YANG data node (all node kinds, types and generator options) and every value assigned to it",
  "Tests assign a few good and bad values to a few leaves; the guarantee is about the code emitted for every node kind and option and about every rejected value, including those rejected late, and tests rarely look at what a rejected assignment left behind.",
  [G, Y], [("emitted getter/setter/unset/init code", G + ": get_children"), ("wrapped value construction", Y + ": YANGDynClass")],
  [("per-node private slot", "current value of a data node", "classes emitted by get_children")], ["obj.leaf = v", "obj.leaf"])
p("C02", "Range, length, pattern and enumeration restrictions are all enforced, exactly",
  "A value is accepted by a restricted type exactly if it satisfies every restriction of the type and of every type it is derived from. Range and length parts are inclusive at both ends, alternative parts are alternatives, 'min' and 'max' leave that end open and a single value admits only that value. A pattern must match the whole value, and an enumeration admits exactly its listed names.",
  ["inputs", "programs"], "every restriction specification, every chain of derived types and every candidate value",
  "Tests try a handful of values for a handful of specifications; boundary values, combinations of restrictions and nested derivations are an unbounded product.",
  [Y, G], [("value checks of restricted classes", Y + ": RestrictedClassType"), ("translation of restriction statements", G + ": build_elemtype")])
p("C03", "Each built-in YANG type maps to a Python type with exactly its RFC value space",
  "Each built-in integer type accepts exactly its RFC 6020 range and carries its size, and boolean accepts only its documented spellings of true and false and maps each to the right truth value. The class written into generated code and the class used while generating agree for every built-in type. Every built-in type of the language has an entry.",
  ["inputs", "programs"], "all built-in types and all values of them",
  "Each type's limits are sampled by at most a few values; the two tables are never compared with each other or the RFC.",
  [G, Y], [("table of built-in types", G + ": class_map"), ("boolean type", Y + ": YANGBool")])
p("C04", "Every modification marks the node and all its ancestors as changed",
  "After any successful modification through a node's interface - assignment, or a mutating operation on a leaf-list or bits value - the node and each of its ancestors up to the root report themselves as changed. A node that was never modified since creation or reset, other than by being given a value, does not report itself as changed. Reading, or resetting a node to its default, marks nothing as changed.",
  ["inputs", "histories"], "all node kinds, mutating operations and nesting depths",
  "Tests check single assignments at shallow depth; the obligation is on every mutator and every propagation path.",
  [Y, G], [("change propagation", Y + ": YANGDynClass"), ("emitted setters", G + ": get_children")],
  [("change flag", "whether the node was modified", Y + ": YANGDynClass")], ["_changed()", "get(filter=True)"])
p("C05", "At most one case of a choice is populated at any time",
  "Setting any node inside one case of a choice, at any depth below that case, resets every node of all other cases of that choice to its default. It never resets nodes of the same case or nodes outside the choice, and nested choices are each enforced at their own level. Every node of a choice takes part, whatever its kind.",
  ["inputs", "histories", "programs"], "all schemas with choices (any number of cases, nodes per case and nesting) and all assignment sequences",
  "Tests use one small schema with a few assignments; nesting and the order of assignments are unbounded.",
  [Y, G], [("case enforcement", Y + ": YANGDynClass _set"), ("emission of the choice tables", G + ": get_children, get_children_elements")])
p("C06", "Read-only nodes cannot be assigned by users, at any depth",
  "A node that is, or has an ancestor that is, config false is exposed without a public setter and reports itself as not configurable; the private setter still works for back-ends. Every other node is exposed with its setter. The flag is inherited through containers, lists, choices and cases.",
  ["programs"], "all schemas, node kinds and nesting depths",
  "Tests hold one schema; the inheritance must hold for every tree shape.",
  [G], [("config inheritance and property emission", G + ": get_children, get_children_elements, get_element")])
p("C07", "A list entry is stored under exactly the key its key leaves hold",
  "Every entry of a keyed list is stored under the key built from the values of its key leaves, all of which must be supplied and valid for the key's type. Adding an existing key is refused, and the key leaves of an entry inside a list cannot be reassigned by the user. Only an instance of the list's entry class can be stored.",
  ["inputs", "histories"], "all key shapes (single, multiple, unkeyed), ways of adding, and key values",
  "Tests add a few entries in each way; agreement of key and leaves must hold for every way of adding.",
  [Y, G], [("list storage", Y + ": YANGListType"), ("key protection in emitted setters", G + ": get_children")])
p("C08", "Deleting a list entry removes that entry and its registration, nothing else",
  "Deleting an entry removes exactly that entry from the list and, when a path helper is in use, unregisters exactly the path under which the entry was registered. Deleting a key that is not present raises KeyError and changes nothing. Deletion works alike for single and multiple keys.",
  ["inputs", "histories"], "all lists, keys and histories of adds and deletes",
  "Tests delete one entry from small lists; agreement between the path used to register and the one used to unregister must hold for all keys.",
  [Y, X], [("delete", Y + ": YANGListType"), ("unregister", X + ": YANGPathHelper")])
p("C09", "A leaf-list only ever holds valid, distinct values",
  "Every value that enters a leaf-list, by whatever operation, has been checked against the allowed types and is stored in its typed form; a value that fits none of them is refused with ValueError and the list is unchanged. Where values must be unique no operation can introduce a duplicate. Deletion and iteration act on the stored values in their order.",
  ["inputs", "histories"], "all mutating operations, allowed types and values",
  "Tests append a few values; each further mutator is a separate way in.",
  [Y], [("typed list", Y + ": TypedListType")])
p("C10", "Each YANG type is serialised in the form its encoding mode prescribes",
  "In every encoding mode each value is written in the form prescribed for its type: in IETF JSON 64-bit integers and decimals are strings, other integers numbers, booleans true/false, an empty leaf [null], binary base64 text, and leafrefs and unions follow the value they carry; default-mode JSON writes all numbers as numbers. The form depends only on the type and value, not on how the type was defined (directly, by typedef, by restriction, in a union or in a leaf-list) or on whether the value is a default.",
  ["inputs", "programs"], "all YANG types, type derivations, values and the three encoders",
  "Tests compare a few reference documents; the type dispatch has many more paths (type x wrapper x mode) than they reach.",
  [S, Y, G], [("type dispatch", S + ": YangDataSerialiser, IETFYangDataSerialiser, XmlYangDataSerialiser")])
p("C11", "Filtering keeps exactly the changed and present nodes",
  "With filtering on, output contains every leaf that was changed and no leaf that was not, and a container or list only if something below it remains or it is a container set present. With filtering off, output contains every leaf, unchanged leaves with their default value where they have one. The default and the IETF output agree on this.",
  ["inputs", "histories"], "all trees, histories of assignments and both settings of the filter",
  "Tests compare a few dumps; the rule must hold for every node kind and state.",
  [B, S], [("tree extraction", B + ": PybindBase.get"), ("IETF tree", S + ": make_generate_ietf_tree")])
p("C12", "IETF names carry a module prefix exactly where the namespace changes",
  "In IETF JSON a member name is prefixed with its defining module exactly if its namespace differs from that of the parent element in the document, at every level including entries of lists. Identity values defined in a module other than that of the leaf carry that module's name as prefix exactly once, others carry none. In XML every element carries its own namespace, and identities of other modules can be resolved.",
  ["inputs", "programs"], "all trees of augmented modules and all identity values",
  "Tests have one or two augmentations; the rule must hold at each recursion site for every combination of namespaces.",
  [S], [("name construction", S + ": yname_ns_func, make_generate_ietf_tree"), ("identity encoding", S + ": yangt_identityref")])
p("C13", "Decoders load or reject every input member, under the same options throughout",
  "For every member of the input a decoder sets the matching node from that member's value, or raises, or - only where the caller asked to skip unknown members, or for annotations - skips it. The options given to the top-level call (path helper, extension methods, overwrite, skip unknown) apply unchanged at every nested level. After a load each loaded list entry and leaf comes from the input member of its own name.",
  ["inputs", "configurations"], "all documents, nesting depths and option combinations, for JSON, IETF JSON and XML",
  "Tests load a few documents with mostly default options.",
  [S, J], [("decoders", S + ": pybindJSONDecoder, pybindIETFXMLDecoder"), ("entry points", J)])
p("C14", "Loading with overwrite replaces, loading without it merges",
  "With overwrite, after a load every list and container present in the input holds exactly what the input says for it. Without overwrite nothing that is absent from the input is removed from lists and containers. Entries listed in the input always survive a load.",
  ["inputs", "histories"], "all prior trees and documents, both settings of overwrite",
  "One test exercises overwrite on one list.",
  [S], [("overwrite handling", S + ": load_json, load_ietf_json")])
p("C15", "Reading, dumping and loading leave their inputs unmodified",
  "Extracting or serialising a tree does not modify the tree, and no collection is structurally changed while it is being iterated over. Loading a document does not modify the caller's document. Option lists and arguments given by the caller are left as they were.",
  ["inputs", "histories"], "all trees, documents and options",
  "Tests do not compare arguments before and after, and mutation during iteration shows only for particular contents.",
  [B, S, J, Y], [("extraction", B + ": PybindBase.get"), ("decoders", S), ("dump options", J + ": dumps")])
p("C16", "The path registry mirrors the data tree",
  "With a path helper, looking up the path of any node returns that very object as currently held by the tree - after registration, replacement and removal - and looking up a removed path returns nothing. Registering again at a path replaces the old object, an ambiguous path is refused, and a new node hangs below its parent with its list keys as predicates. Lookups report zero or multiple results as documented by each lookup function.",
  ["inputs", "histories"], "all paths, key values and histories of register and unregister",
  "Tests perform short fixed sequences.",
  [X, Y], [("registry", X + ": YANGPathHelper")])
p("C17", "A leafref with require-instance only takes values that exist at its target",
  "Where a path helper is in use and an instance is required, a leafref accepts a value if some node at the referenced path holds that value (in the same written form), and raises ValueError otherwise, leaving the tree as it was; a leaf that is not set and has no default holds no value. A leafref whose target is a single leaf whatever the data holds (no list lies between the two) stands for that leaf: assigning to it assigns that leaf, if that takes the value. Without require-instance or without a path helper it takes the value as given. Reading the leafref yields the referred value.",
  ["inputs", "histories"], "all targets (leaves, keys, leaf-lists), values and tree states",
  "Tests use a few targets.",
  [Y], [("reference resolution", Y + ": ReferenceType")])
p("C18", "A union takes the first member type that accepts the value",
  "A value given to a union becomes an instance of the first member type, in schema order, that accepts it. A value accepted by no member is refused. A failing member never prevents a later one from being tried.",
  ["inputs", "programs"], "all unions, member types and values",
  "Tests try a few unions of two or three members.",
  [Y, G], [("union resolution", Y + ": YANGDynClass"), ("member list emission", G + ": get_children, build_elemtype")])
p("C19", "Free text in a YANG module cannot alter or break the generated code",
  "Whatever characters a module's descriptions, defaults, patterns, identity and enumeration names, namespaces, paths and extension arguments contain, the generated code parses and holds exactly that text. No such text can end the literal it is written into.",
  ["programs"], "all text content of YANG modules",
  "Tests use plain text; quotes and backslashes are rare in them.",
  [G], [("code emission", G + ": get_children, build_elemtype")])
p("C20", "Generating bindings twice from the same modules gives the same code",
  "The generated code is a function of the input modules and options alone: it does not depend on hash seeds, set ordering, time, randomness, object identities or the environment. Members are emitted in schema order.",
  ["programs", "configurations"], "all modules, options and interpreter runs",
  "Each test generates once.",
  [G, I, "pyangbind/helpers/misc.py"], [("generator", G), ("identity store", I)])
p("C21", "Every YANG identifier maps to one usable, unreserved Python name everywhere",
  "Every YANG identifier is mapped to a legal Python identifier that is no keyword of the language and clashes with no reserved name. The same mapping is applied wherever the name is emitted or looked up, and the original YANG name is preserved for output.",
  ["programs", "inputs"], "all YANG identifiers",
  "Tests use a few hyphenated and reserved names.",
  [Y, G, S], [("name mapping", Y + ": safe_name"), ("emission", G), ("lookup", S)])
p("C22", "Generated classes accept no attributes outside the data model",
  "Assigning an attribute that is not in the schema to a generated container, list entry or module raises AttributeError. The class offers exactly the schema's children as members, in schema order.",
  ["programs", "inputs"], "all generated classes",
  "Tests try one unknown attribute on one container.",
  [G, Y, B], [("closed classes", G + ": get_children; " + Y + ": YANGDynClass; " + B)])
p("C23", "An identityref accepts exactly the identities derived from its base",
  "The values accepted for an identity base are exactly the identities derived from it, directly or through any number of steps and any number of bases, under their plain names and under every prefix by which their module is known. Each carries its defining module and namespace. The order in which identities are declared does not matter.",
  ["programs"], "all identity hierarchies across modules",
  "Tests have one small hierarchy.",
  [I, G], [("identity store", I), ("value dictionary", G + ": build_identities")])
p("C24", "A typedef behaves as the type it names, whatever the order of definition",
  "A leaf of a derived type has the restrictions, members, reference target and default of the type definition it names, through any chain of definitions and across modules. Definition order does not matter, duplicate definitions are refused, and unresolvable ones are reported.",
  ["programs"], "all typedef graphs",
  "Tests have a few typedefs.",
  [G], [("typedef resolution", G + ": build_typedefs, build_elemtype")])
p("C25", "Entries of lists keep their order; user ordering survives dump and load",
  "Entries of a list are kept and delivered in insertion order. For a user-ordered list the position of each entry is recorded on output and restored on input; entries without a recorded position follow. Lists not ordered by the user carry no position.",
  ["inputs", "histories"], "all lists and documents",
  "One test dumps and loads one list.",
  [Y, S], [("ordering", Y + ": YANGListType; " + S + ": preprocess_element, load_json")])
p("C26", "The nearest default wins",
  "A leaf's effective default is its own default statement if it has one, else that of the nearest type definition in its derivation chain, else none. The default is converted by the type to which it applies. A leaf that was not set reports the default without being marked as changed.",
  ["programs"], "all leaves, derivation chains and unions",
  "Tests have few combinations of leaf and typedef defaults.",
  [G, Y], [("default resolution", G + ": get_element, build_typedefs, find_absolute_default_type")])
p("C27", "A presence container exists exactly when it was set present or given content",
  "A presence container is reported present after being set present explicitly or after anything below it was set, and absent after being set absent. Presence applies to containers only. A present but empty container appears in IETF output; an absent empty one does not.",
  ["inputs", "histories"], "all presence containers and histories",
  "Tests use one container.",
  [Y, S, G, B], [("presence tracking", Y + ": YANGDynClass"), ("output", S + ": make_generate_ietf_tree")])
p("C28", "Bits hold only defined names and print in position order",
  "A bits value accepts only defined bit names, through construction and every mutating operation, and refuses others with ValueError. Its text form lists the set bits once each in order of their numeric position. Positions not given explicitly continue after the highest so far.",
  ["inputs", "programs"], "all bit definitions and values",
  "Tests use three bits with explicit positions.",
  [Y, G], [("bits type", Y + ": YANGBitsType"), ("bit positions", G + ": build_elemtype")])
p("C29", "Extension methods attach to exactly their path and learn who called them",
  "A method object given for a schema path is available, under its underscored name, on every node at that path and on no other, without replacing anything the node already has. When called it receives the caller's path and the path helper together with the arguments given.",
  ["inputs", "configurations"], "all trees, method tables and nodes, including list entries",
  "Tests register one class of methods at two paths.",
  [Y, G], [("method attachment", Y + ": YANGDynClass")])
p("C30", "Dump options select exactly the named subtrees and entries",
  "Skipping a subtree removes exactly that subtree, ignores paths that lie elsewhere or are absent, and leaves the rest of the document unchanged. Selecting keeps exactly the entries all of whose named members have the requested values. Both work on the document produced for the chosen mode.",
  ["inputs", "configurations"], "all trees, skip lists, selections and modes",
  "Tests use one or two options on one tree.",
  [J], [("dump", J + ": dumps, remove_path")])
p("C31", "Encoding then decoding yields an equal tree",
  "Loading what was dumped from any tree, in default JSON, IETF JSON or XML, into fresh bindings gives a tree whose changed nodes and values equal those of the original.",
  ["inputs", "histories"], "all trees and encodings",
  "Tests round-trip a few documents.",
  [S, J], [("encoders and decoders", S)])
p("C32", "Numbers keep their value through decimal conversion",
  "A decimal64 value is stored with exactly the digits its fraction-digits allow and compares equal to the number assigned, rounded to that precision.",
  ["inputs"], "all decimal values and precisions",
  "Tests try a few decimals.",
  [Y], [("decimal type", Y + ": RestrictedPrecisionDecimalType")])
p("C33", "Every node tells its place in the data and the schema node it is of",
  "Whatever was done before, each node of a bound tree - leaf, leaf-list, container, list, list entry, key, node of a case - answers with the path on which it lies (module names of nodes as written, key names and values for entries), with the name it has in the schema, with the namespace and module that define it (those of the augmenting module where a node was added by an augment, those of the module for nodes of its submodules), with its kind, whether it is a key, the type name as written, and the extension statements put on it.",
  ["inputs", "histories", "configurations"], "all schemas, nodes and histories of sets, resets, assignments and refusals",
  "Tests look at the path of a few list entries and the extensions of a few leaves.",
  [Y, G, B], [("node metadata", Y + ": YANGDynClass"), ("paths", Y + ": _path, _yang_path, _register_path"), ("definitions", G + ": get_element")])
p("C34", "Enumeration members have the numbers that the module gives them",
  "The integer read for the value of an enumeration is the one of the member's value statement or, without one, one more than the highest of the members before it (0 for the first), in every place an enumeration can be used, for every set of members, and independently of how the value came into the tree.",
  ["inputs", "histories"], "all enumerations, places and ways of setting",
  "One test reads the numbers of a few members of one enumeration.",
  [Y, G], [("enumeration numbers", Y + ": RestrictedClassType"), ("enumerations as written", G + ": build_elemtype")])
p("C35", "Trees, entries and given values share no state",
  "What is done to one tree, list entry or container - settings, resets, refused operations, loads, dumps - changes no other one made from the same definitions, before or after. A container, list, leaf-list or set of bits that is assigned is taken over entirely, entries included, and copied: later changes of what was given do not show in the tree, nor changes of the tree in what was given. The same holds for documents loaded and for what dumps and get return.",
  ["inputs", "histories"], "all trees, kinds of node and operations",
  "Tests mostly work on one tree, and never compare a second one.",
  [Y, G], [("objects of nodes", Y + ": YANGDynClass"), ("lists", Y + ": YANGListType"), ("state of modules", G + ": get_children")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
