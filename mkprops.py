#!/usr/bin/env python3
"""Generates properties.jsonl (kept as the editable source of the property list)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- identity
p("I01", "A type's semantic id covers every component of its definition",
  "The semantic id of a type is computed from everything that defines it: the class of the type, the primitive kind, every element, key, value, field and variant type, every field and variant name, every variant tag, the array length and both the lower and the upper bound of a collection size. Components are fed to the hash in declaration (or tag) order, each of them exactly once per occurrence, so no part of a definition can be changed, dropped or swapped without changing what is hashed.",
  ["inputs"], "every type definition, of every class, with any number of fields and variants",
  "The tests pin the ids of two shipped libraries; a component that those libraries never vary (an upper bound, a tag, a map value) can stop being committed and every pinned id of the other types still matches.",
  ["src/ast/id.rs", "src/util.rs", "src/typelib/id.rs"],
  [("SemCommit", "src/ast/id.rs"), ("CommitConsume", "src/util.rs")], observe="byte sequence given to the hash engine by the id computation")
p("I02", "What is hashed into an identifier is unambiguously framed",
  "Whenever a variable number of items (a name, a list of fields or variants, a list of types or dependencies) is fed into the hash of an identifier, their number is fed first or the items are otherwise delimited. Therefore the hashed sequence can be read back in only one way and two different definitions never feed identical input into the hash.",
  ["inputs"], "every pair of definitions",
  "Collisions need two specially crafted definitions; sampled definitions never collide.",
  ["src/ast/id.rs", "src/typelib/id.rs", "src/typesys/id.rs"], [("SemCommit", "src/ast/id.rs"), ("TypeLib::id", "src/typelib/type_lib.rs"), ("TypeSystem::id", "src/typesys/type_sys.rs")])
p("I03", "Identifier kinds are separated by distinct domain tags hashed first",
  "Ids of types, of libraries and of type systems are computed by tagged hashing: the digest of a domain tag is fed twice before any content, each kind of id uses its own tag, and all tags are different. Content is never hashed before the tag and no tag is shared.",
  ["inputs"], "every type, library and type system",
  "A shared or missing tag produces perfectly stable ids; only cross-domain collisions, which tests cannot find, would expose it.",
  ["src/ast/id.rs", "src/typelib/id.rs", "src/typesys/id.rs"], [("SEM_ID_TAG", "src/ast/id.rs"), ("LIB_ID_TAG", "src/typelib/id.rs"), ("TYPESYS_ID_TAG", "src/typesys/id.rs")])
p("I04", "A type has one id, whatever kind of reference leads to it",
  "A reference to a type contributes to a semantic id exactly the semantic id of the type it leads to (for named and external references) or the full definition (for embedded types), the same in the library-internal, inlined, external and system representations. A named type binds its name into its id before its definition; an unnamed type binds no name.",
  ["programs", "inputs"], "every reference kind at every stage of compilation",
  "Only a handful of reference shapes occur in the pinned libraries; a representation which is not used there can disagree unnoticed.",
  ["src/typelib/id.rs", "src/typelib/compile.rs", "src/typelib/type_lib.rs", "src/ast/id.rs"], [("SemCommit for references", "src/typelib/id.rs")])
p("I05", "Library and type-system ids commit to all of their content",
  "A type library id commits to the library name, to each of the dependencies and to each of the types together with its name; a type system id commits to each contained type id. No entry is skipped, and re-ordering of insertion does not matter since the collections hashed are ordered.",
  ["inputs", "histories"], "every library and type system, however assembled",
  "Pinned ids exercise one library content each; skipping an entry for special content is not sampled.",
  ["src/typelib/type_lib.rs", "src/typelib/id.rs", "src/typesys/id.rs", "src/typesys/type_sys.rs"], [("TypeLib::id", "src/typelib/id.rs"), ("TypeSystem::id", "src/typesys/id.rs")])
p("I06", "Compilation, ids, layouts and serialization are deterministic",
  "The result of successfully compiling, importing, linking, identifying, printing, laying out, typifying or serializing depends on its inputs only. No clock, random source, environment, address, thread identity or iteration over a randomly seeded hash container can reach a result.",
  ["histories", "configurations"], "every run on every host",
  "Hash seeds and hosts differ between runs, while a test observes one of them.",
  ["src"], [("SystemBuilder", "src/typesys/translate.rs"), ("LibBuilder", "src/typelib/transpile.rs"), ("SymbolicLib::compile", "src/typelib/compile.rs")])

# ---------------------------------------------------------------- compile / link
p("C01", "Compilation of a library terminates and refuses unresolvable names",
  "Compiling a symbolic library either yields a library where each reference was resolved or returns an error; it never loops forever. A type which refers to a name neither defined in the library nor among declared dependencies, or only defined through a cycle, makes the compilation return an error.",
  ["programs", "inputs"], "every symbolic library, with missing, cyclic and forward references at any nesting depth",
  "Existing tests check two missing-type shapes; cyclic and nested unresolved references form an unbounded set.",
  ["src/typelib/compile.rs", "src/typelib/transpile.rs"], [("SymbolicLib::compile", "src/typelib/compile.rs")])
p("C02", "External references are checked against the declared dependency",
  "When a library is compiled, each reference to a type of another library is accepted only if a dependency of that library's name is declared and, where the types of the dependency are given, the semantic id of the type referred to is among them. Any failed check is returned as an error. Accepted references carry the semantic id of the type and the id of that dependency; none of them is left out of the checks or of the compiled symbolic library. The types a library offers as a dependency are exactly its own types, each under its own id.",
  ["programs", "inputs"], "every combination of library, dependency and provided symbols",
  "Tests cover one instance for each error; acceptance along other paths is not sampled.",
  ["src/typelib/compile.rs", "src/typelib/transpile.rs", "src/typelib/translate.rs"], [("compile_symbols / translate", "src/typelib/compile.rs")])
p("C03", "A finalized type system contains every type it refers to",
  "Finalizing a system builder succeeds only if each type id referred to from any contained type, directly or through embedded types, is itself contained in the system. If something is missing, finalization returns an error for it and no type system.",
  ["histories", "inputs"], "every sequence of imports and finalization",
  "Tests only finalize complete systems.",
  ["src/typesys/translate.rs"], [("SystemBuilder::finalize", "src/typesys/translate.rs")], observe="Ok result of finalize")
p("C04", "Adding entries never silently replaces or loses existing ones",
  "Importing a library into a builder, adding a type, symbol, dependency or a library twice, or merging entries with the same key, either keeps an identical entry or is reported as an error; it does not silently overwrite a different entry. Imported dependencies are recorded so that missing libraries are detected.",
  ["histories", "inputs"], "every order and multiplicity of additions",
  "Conflicting additions are rare and not part of the tests.",
  ["src/typesys/translate.rs", "src/typelib/compile.rs", "src/typelib/type_lib.rs", "src/typesys/type_sys.rs"], [("SystemBuilder::import", "src/typesys/translate.rs"), ("TypeLib::import", "src/typelib/type_lib.rs")])
p("C05", "Translating a type between stages preserves its structure",
  "Each translation of a type from one stage (symbolic, library, system, layout) to the next keeps its class, its field and variant names, tags, order and number, array length, size bounds and primitive kind, and only replaces references by the translation of the very same reference. Key and value types are never exchanged and no element is dropped or duplicated.",
  ["inputs", "programs"], "every type in every translation stage",
  "Unit tests translate the few shapes contained in the shipped libraries.",
  ["src/ast/translate.rs", "src/typelib/translate.rs", "src/typesys/translate.rs", "src/typelib/compile.rs"], [("Translate", "src/ast/translate.rs")])
p("C06", "Extracting a type brings along all types it depends on",
  "Extracting types from a type system yields a system containing the requested types and, transitively, every type they refer to, unchanged and under the same ids; requesting a type that is not contained returns an error. The traversal terminates.",
  ["inputs"], "every system and every set of requested types",
  "Depth and sharing of type graphs are unbounded.",
  ["src/typesys/type_sys.rs"], [("TypeSystem::extract", "src/typesys/type_sys.rs")])
p("C07", "Symbol tables resolve names to the type registered under that name",
  "Looking up a fully qualified name or an id in a symbolic type system returns the entry registered under exactly that name or id, or nothing if no entry has it; a type or a type tree is found by the id its specification resolves to. Each type imported with a library is registered under the name of that library and its own name, with its own semantic id, so name-to-id and id-to-name lookups are inverse to each other.",
  ["inputs", "histories"], "every symbolic system",
  "Sampled lookups only hit existing unique names.",
  ["src/typesys/symbols.rs"], [("SymbolicSys", "src/typesys/symbols.rs")])

p("C08", "The definition made of a Rust type is that of its encoding",
  "Transpiling records for each Rust type exactly the definition its encoding announces: the announced class, elements, keys and sizes for primitives, arrays, lists, sets, maps and (restricted) strings; the fields of structures and items of tuples in the order written, with their names and types; all variants of enumerations and unions with their names, tags and the type of that very variant. A named type of the library being built is recorded under its name and referred to by name, and a different definition reported under the same name is refused; a type of another library is referred to by library, name, its own id and the id of the dependency of that name; an unnamed type is embedded. Definitions recorded while encoding nested values are never lost or overwritten.",
  ["programs", "inputs"], "every Rust type encoded into a library builder",
  "The types which may be transpiled are open-ended; tests transpile a few.",
  ["src/typelib/transpile.rs"], [("LibBuilder", "src/typelib/transpile.rs"), ("StructBuilder", "src/typelib/transpile.rs"), ("UnionBuilder", "src/typelib/transpile.rs")])

# ---------------------------------------------------------------- values
p("V01", "Typified collections respect their declared size bounds",
  "A list, set, map, byte string, text or array value is accepted by typification only after the number of its items was checked against the declared bounds of the matched type: between minimum and maximum for collections, exactly the declared length for arrays. A violating value yields an error.",
  ["inputs"], "every value and type combination",
  "Bounds and lengths are unbounded; the tests use in-range values.",
  ["src/value/typify.rs"], [("TypeSystem::typify", "src/value/typify.rs")], observe="Ok results of typify")
p("V02", "Typified numbers fit the primitive type they are typed with",
  "A number is accepted for a primitive type only if the value is representable in the width and signedness of that type, so that encoding never truncates or changes it. Numbers are never accepted for the unit type.",
  ["inputs"], "every number and primitive type",
  "Tests use small in-range numbers.",
  ["src/value/typify.rs", "src/value/encode.rs"], [("PrimitiveValue", "src/value/typify.rs")])
p("V03", "Typification checks every nested value against its own declared type",
  "Each element, key, value, field, variant content or wrapped value nested in an accepted value was itself checked against the type declared for exactly that position, and the result is assembled of the checked items. Repeated set members and repeated map keys are refused.",
  ["inputs"], "every nested value of any depth",
  "Nesting is unbounded; a single unchecked position accepts arbitrary content.",
  ["src/value/typify.rs"], [("TypeSystem::typify", "src/value/typify.rs")])
p("V04", "Typified structures and tuples have exactly the declared fields",
  "A structure or tuple value is accepted only with the number of fields the type declares, and each structure field must be one of the declared names; missing, extra and repeated fields are refused. Enum and union values are accepted only with a declared variant.",
  ["inputs"], "every structured value given in any of the accepted notations",
  "Tests use complete values in one notation.",
  ["src/value/typify.rs"], [("TypeSystem::typify", "src/value/typify.rs")])
p("V05", "Every typified value can be encoded",
  "Each combination of value shape and type which typification or decoding can produce is handled by the encoder: encoding a typed value within its own type system does not hit an unhandled-combination failure.",
  ["inputs"], "every typed value",
  "There are many shape/type combinations and most do not occur in tests.",
  ["src/value/typify.rs", "src/value/decode.rs", "src/value/encode.rs"], [("TypeSystem::strict_write_value", "src/value/encode.rs")])
p("V06", "Value encoder and decoder are mirror images",
  "For each type class the value encoder and decoder process the same parts in the same order: the tag before the content, the key before the value, fields in declared order, length before items. The length prefix has the same width on both sides and that width is determined by the declared upper bound only.",
  ["inputs"], "every type and value",
  "Widths change at bounds of 2^8, 2^16, 2^24 and 2^32 elements, which tests do not reach.",
  ["src/value/encode.rs", "src/value/decode.rs"], [("strict_write_ty", "src/value/encode.rs"), ("strict_read_type", "src/value/decode.rs")])
p("V07", "Primitive values are read and written with the width of their type",
  "A primitive value is read with the decoder of exactly that width and signedness, in little-endian byte order, and is written with as many little-endian bytes as the width of its primitive type; a primitive type not supported yields an error and not a wrong value.",
  ["inputs"], "every primitive type",
  "Only two or three primitives occur in tests.",
  ["src/value/encode.rs", "src/value/decode.rs"], [("strict_read_type", "src/value/decode.rs"), ("strict_write_ty", "src/value/encode.rs")])
p("V08", "Decoding untrusted bytes never panics",
  "Whatever the data, decoding a value of a type contained in the system returns a value or an error; there is no reachable panic, unimplemented branch or unchecked arithmetic in the decoder. Asking for a type the system does not contain is an error as well, and not a panic.",
  ["inputs"], "every byte string and every type of the system",
  "The input space is unbounded and failing inputs are type specific.",
  ["src/value/decode.rs"], [("strict_read_type", "src/value/decode.rs"), ("strict_deserialize_type", "src/value/decode.rs")])
p("V09", "Decoded values satisfy the constraints of their type",
  "A value returned by the decoder satisfies what typification would require: the number of items is within the declared bounds, set members and map keys are unique, enum and union tags are declared and strings contain only allowed characters. Data violating a constraint is refused with an error.",
  ["inputs"], "every byte string",
  "Tests decode only bytes produced by encoders.",
  ["src/value/decode.rs"], [("strict_read_type", "src/value/decode.rs")])
p("V10", "Decoder memory is not allocated on the word of the data",
  "The amount of memory the decoder reserves before reading the items is bounded by a constant or by the type declaration of a fixed-size type; a length prefix taken from the data never determines an up-front allocation.",
  ["inputs"], "every byte string, in particular short ones with a huge length prefix",
  "A test would need to provoke memory exhaustion.",
  ["src/value/decode.rs"], [("strict_read_list", "src/value/decode.rs"), ("strict_read_map", "src/value/decode.rs")])
p("V11", "Deserialization from a buffer requires the whole buffer",
  "Deserializing a value from a byte slice succeeds only if the value occupies the whole slice; trailing bytes are refused.",
  ["inputs"], "every byte string with any trailing data", "Needs crafted trailing data for each type.",
  ["src/value/decode.rs"], [("strict_deserialize_type", "src/value/decode.rs")])
p("V12", "A path into a value is followed step by step to its end",
  "Looking up a path in a value starts at the value, applies each step in order to the result of the previous step and returns what the last step leads to; a step that does not match the value at that point gives an error. An empty path leads to the value itself.",
  ["inputs"], "every value and path of any length",
  "Tests cover no paths.", ["src/value/path.rs"], [("StrictVal::at_path", "src/value/path.rs")])
p("V13", "A path into a type is followed step by step to its end",
  "Looking up a path in a type starts at the type, applies each step in order to the result of the previous step and returns what the last step leads to; a step which does not match the type at that point gives an error. Each kind of step selects the part of the type which it names.",
  ["inputs"], "every type and path of any length",
  "Tests cover no paths.", ["src/ast/path.rs"], [("Ty::at_path", "src/ast/path.rs")])
p("V14", "Values from external notations are converted as they are",
  "Conversion of JSON, YAML and TOML values keeps them: null becomes the unit, a boolean the tag 0 or 1, an integer that very integer (unsigned if JSON or YAML report it as such, signed otherwise), a text that text, a sequence the list of all of its items in order, a mapping the map of all of its keys and values, a tagged value its content; no external value makes the conversion panic.",
  ["inputs"], "every external document", "The tests convert one document for each format.",
  ["src/value/convert.rs"], [("From conversions", "src/value/convert.rs")])
p("V15", "Typed values come only from typification or decoding",
  "A typed value can be created only by typification against a type system or by decoding with it: there is no other public way to construct one, change its content or detach it from the type it was checked against.",
  ["programs"], "every client program", "Absence of a public constructor cannot be observed by running anything.",
  ["src/value/typify.rs", "src/value/decode.rs"], [("TypedVal", "src/value/typify.rs")])
p("V16", "Accessors of untyped values return exactly the part asked for",
  "Accessors and constructors of values deliver the part they name (tuples with a single field count as wrappers and are passed through): the requested kind of value only, the element at the given position, the entry under the given name or key; anything else yields the documented absence or panics as documented, never a different element.",
  ["inputs"], "every value", "The tests construct one value per kind.",
  ["src/value/val.rs"], [("StrictVal accessors", "src/value/val.rs")])

# ---------------------------------------------------------------- ast
p("A01", "Union definitions survive their own serialization",
  "The serialized form of a union definition contains each variant with its tag, name and type, and reading it back restores each of them in its role; data in which an entry would replace another one is refused, and nothing else is.",
  ["inputs"], "every union definition and every byte string", "The pinned libraries contain well-formed unions only.",
  ["src/ast/encoding.rs"], [("StrictEncode/StrictDecode for UnionVariants", "src/ast/encoding.rs")])
p("A02", "Type classes have stable, distinct numeric tags",
  "Each class of a type has its own tag in the id commitment and its own tag in the serialized form, every class of a definition is reported as that class, and the tags keep the values the published format assigns to them.",
  ["inputs"], "every type class", "A class which occurs in no pinned library can change its tag unnoticed.",
  ["src/ast/ty.rs"], [("Cls", "src/ast/ty.rs"), ("Ty::cls", "src/ast/ty.rs")])
p("A03", "Iterating a type visits each of its direct references exactly once",
  "Iterating over the references of a type gives each referenced type once, in order, paired with the matching role, name and number (position of a field, tag of a variant); the number of items equals the reported count and the iteration ends without overflow even for the largest types.",
  ["inputs"], "every type, with up to 255 fields", "Types with 255 fields or unusual classes do not occur in tests.",
  ["src/ast/iter.rs", "src/ast/ty.rs", "src/ast/path.rs"], [("Iter::next", "src/ast/iter.rs"), ("Ty::ty_at", "src/ast/ty.rs"), ("Ty::case_at", "src/ast/ty.rs")])
p("A04", "Lookups by name, tag and position return the matching entry",
  "A lookup of a field or variant by name, by tag or by position returns the entry with that very name, tag or position, together with its own type, or nothing if there is no such entry; a presence test agrees with the lookup.",
  ["inputs"], "every definition and every key", "Wrong matches show only for definitions where tags, names and positions differ.",
  ["src/ast/ty.rs"], [("UnionVariants, EnumVariants, NamedFields, UnnamedFields lookups", "src/ast/ty.rs")])
p("A05", "Definitions, libraries and systems cannot be built out of bounds",
  "The bounds are held by the types: field and variant containers have between 1 and 255 entries, a library between 1 and 65535 types and at most 255 dependencies, a system less than 2^24 types, a layout less than 2^32 items; the containers of definitions and systems are private and no public way gives mutable access which bypasses the check; conversions from unbounded collections succeed exactly within the bounds, losing nothing.",
  ["programs", "inputs"], "every client program", "Absence of a bypass cannot be observed by a test.",
  ["src/ast/ty.rs", "src/typelib/type_lib.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs", "src/layout/memory.rs"], [("TryFrom for NamedFields etc.", "src/ast/ty.rs"), ("TypeSystem", "src/typesys/type_sys.rs")])
p("A06", "Special types are recognised exactly",
  "The recognisers for option, byte, byte array, unicode character, newtype, collection, compound, primitive and character-set types answer yes exactly for the definitions having that shape; an option is exactly a two-variant union of none with tag 0 and some with tag 1 and its content is the type of some.",
  ["inputs"], "every type", "Near-miss shapes are not sampled.",
  ["src/ast/ty.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs"], [("Ty::as_some, is_*", "src/ast/ty.rs"), ("TypeSystem::is_rstring", "src/typesys/type_sys.rs")])

# ---------------------------------------------------------------- layout
p("L01", "A memory layout describes every nested type in place",
  "For a type of a complete type system the memory layout lists the type itself and, below it, each nested type in declared order and one level deeper than what it is nested in, under its own name and role; newtypes and options are noted on what they wrap, which keeps the role of the wrapper, and strings are noted with their kind, character sets and length bounds in place of their characters. No other part is left out.",
  ["inputs"], "every type of every complete system", "Layouts of only a few types are compared by tests.",
  ["src/layout/memory.rs", "src/typesys/iter.rs"], [("MemoryLayout", "src/layout/memory.rs"), ("TypeTreeIter", "src/typesys/iter.rs")])
p("L02", "Vesper output reflects the layout item it is made of",
  "The textual type description maps each layout item to the predicate of its class, names it after its role or type, and shows as attributes its tag, the tags and names of the variants of an enumeration, its length or both bounds of its size, its wrappers and its string kind with the character sets; each attribute is printed under its own name with its own value, and each predicate under its own word.",
  ["inputs"], "every layout", "Printed attributes of rare classes are not compared.",
  ["src/layout/vesper.rs", "src/layout/translate.rs"], [("to_vesper", "src/layout/translate.rs"), ("Attr, Pred", "src/layout/vesper.rs")])

# ---------------------------------------------------------------- contracts
p("K01", "Equality, ordering and hashing of keys agree",
  "For each type which is compared or hashed, equality, ordering and hashing look at the same parts: equal values compare as equal and hash the same, the partial order is the order, and the order is the ascending one. Dependencies are told apart by the id of the library alone.",
  ["inputs"], "every pair of values", "Needs specific pairs that differ in just one field.",
  ["src/typelib/type_lib.rs"], [("Dependency", "src/typelib/type_lib.rs")])
p("K02", "The crate is free of undefined behaviour",
  "The crate contains no unsafe operations besides obtaining the raw writer and reader of the encoding library for already prepared bytes, and no global mutable state.",
  ["programs", "inputs"], "all code of the crate", "Undefined behaviour need not be visible in a test run.",
  ["src"], [("unsafe blocks", "src/value/encode.rs")])
p("K03", "Write and read errors are never dropped",
  "An error reported by an underlying writer or reader, or by a nested encoding, decoding, typification, compilation or translation step is returned to the caller: none is ignored, replaced by success or by a default, or turned into a panic. Printing, which has no error of its own to give, and the built-in libraries are excepted.",
  ["fault_sequences", "inputs"], "every failing operation at any point of a serialization", "Tests write into infallible memory buffers.",
  ["src/value/encode.rs", "src/value/decode.rs", "src/typelib/serialize.rs", "src/typesys/type_sys.rs", "src/util.rs", "src/ast/encoding.rs"], [("strict_write_ty", "src/value/encode.rs")])
p("K04", "Armored text carries and checks the id of its content",
  "The textual armor of a library, a type system or a symbol table states the id computed from the very content it carries, under a title of its own kind; the armor of a library also states its name and all of its dependencies. Every header takes a single line under a title not reserved by the armor, as the parser of armored texts demands, so that any armored content is readable back.",
  ["inputs"], "every library, type system and symbol table, with any number of dependencies", "The tests armor only libraries with at most one dependency and do not parse the result.",
  ["src/typelib/serialize.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs"], [("StrictArmor", "src/typelib/serialize.rs")])
p("K05", "Textual names and versions print the parts they name, in order",
  "Printed forms of fully qualified names, versions, symbols, paths and ids show each of their parts in its standard position, and the parser of a printed form assigns the parts to the same roles.",
  ["inputs"], "every name, version, symbol", "Optional parts such as pre-release labels are not sampled.",
  ["src/util.rs", "src/typesys/symbols.rs", "src/typelib/symbolic.rs", "src/ast/path.rs"], [("SemVer Display", "src/util.rs"), ("TypeFqn", "src/typesys/symbols.rs")])
p("K06", "The printed source of types and libraries shows every part in its place",
  "The source notation printed for a type, a list of fields, a union, a type library, a symbolic library, a type system and a symbol table shows every component they have, once each, in order, in its own position (name before type, key before value, lower bound before upper bound), with a separator between any two neighbours and none missing or left over, whatever the number of components; tags of union variants are shown whenever they are not the successive numbers a reader would assume. White space is not part of the property, and the layout of lists of enum variants is not covered.",
  ["inputs"], "every type definition, library and type system, with any number of fields, variants, dependencies and types",
  "The tests print two shipped libraries without comparing most of the text; a separator lost for three fields or more, or a tag left out of a sparse union, needs a definition the libraries do not contain.",
  ["src/ast/ty.rs", "src/typelib/type_lib.rs", "src/typelib/symbolic.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs"],
  [("Display for Ty", "src/ast/ty.rs"), ("Display for NamedFields", "src/ast/ty.rs"), ("Display for TypeLib", "src/typelib/type_lib.rs"), ("Display for TypeSystem", "src/typesys/type_sys.rs")], observe="text printed by Display")
p("K07", "Library files hold the library, in the format and under the name asked for",
  "Writing a library to a directory creates one file named after the library, the version and the format, and nothing is created when writing to the standard output; the file contains the strict encoding of that library (up to the maximal size of a library), or its armored form, or its symbolic source preceded by a comment with its id, name, version and the header given, and nothing else. Each failure to create or to write is reported and success is reported only if all of it was written.",
  ["inputs", "fault_sequences"], "every library, every format, every failing operation", "The tests of the crate write files whose content they do not compare, with storage which never fails.",
  ["src/typelib/serialize.rs", "src/util.rs"], [("TypeLib::serialize", "src/typelib/serialize.rs"), ("SymbolicLib::serialize", "src/typelib/serialize.rs")], observe="bytes written to the file")
p("V17", "The printed notation of a value shows all of it, in order",
  "The text printed for a value shows every part of it, once each and in order: each item of a tuple, list or set, each name and value of a structure, each key and value of a map, the tag or name of a variant together with what it carries, with brackets of the kind of the collection, balanced, and a separator between any two neighbours, whatever the number of items and the depth of nesting.",
  ["inputs"], "every value, of every kind, with any number of items",
  "The few tests printing values cover some kinds of value only, and no empty or long collections.",
  ["src/value/val.rs", "src/value/ston.rs"], [("Display for StrictVal", "src/value/ston.rs")], observe="text printed by Display")
with open('/verif/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
for x in P:
    assert len(x['title']) <= 80, x['id']
