WORLDS = "worlds of up to four libraries with all type constructors, up to three inline levels, cross-library references; libraries are entered in their encoded form and through the public API"
STD = "random search with an independent reference model as the oracle; no claim beyond the explored cases; trusts the strict_encoding and amplify crates and the harness model"

prop("C01", "Semantic type ids are the specified commitment to the complete definition",
 """The semantic id of every type is the specified tagged hash of its complete definition: its name, its constructor, and recursively the member types with
 their names, tags, order and size limits. Every form of the same type (compiled in a library, symbolic, embedded, resolved in a type system) has the same id, and that id does not depend
 on the library, build order or representation it is met in. Any edit of a definition changes the ids of exactly the types that depend on it.""",
 ["inputs"], "all type definitions, in all four representations, and all single edits of them",
 "Tests pin two ids of two standard libraries and the id of the byte type; a commitment which skips a component no pinned type exercises (size limits of sets, order of variants, a primitive code) passes them.",
 ["src/ast/id.rs", "src/ast/translate.rs", "src/typelib/id.rs", "src/typelib/translate.rs", "src/typesys/translate.rs"],
 [("sem_commit of each type constructor", "src/ast/id.rs"), ("ids of references in compiled and symbolic form", "src/typelib/id.rs, src/typelib/compile.rs, src/typelib/transpile.rs")],
 "model-based random testing (reference commitment, metamorphic edits)", STD)

prop("C02", "Type members are enumerated and looked up consistently and completely",
 """Enumerating the members of a type by shared or by consuming iteration, by count, or by position yields every member exactly once in declaration order (by tag for unions), with the field name, element
 position or variant it belongs to, for any number of members up to the maximum. Lookups by name, tag and position agree with the declaration and find nothing else. The classification of types (primitive, collection, enumeration,
 option, newtype and so on) agrees with the definition.""",
 ["inputs"], "all types with any number of members (0 to 255), all positions, names and tags",
 "Tests walk a few small types; limits such as 255 members, sparse tags and each constructor are not sampled.",
 ["src/ast/ty.rs", "src/ast/iter.rs"], [("member access", "src/ast/ty.rs"), ("member iterators", "src/ast/iter.rs")],
 "model-based random testing of every accessor", STD)

prop("C03", "Type paths resolve exactly the steps they list, or report where they fail",
 """Resolving a path in a type follows all of its steps in their order - named and unnamed fields, variants, list, set, map and array elements - and yields the type that walk ends in. A path with a step which does not exist is
 refused, and the error reports the original type together with the part of the path which could not be followed.""",
 ["inputs"], "all embedded types and all paths, valid and invalid", "No test resolves a path at all.",
 ["src/ast/path.rs"], [("path resolution", "src/ast/path.rs")], "random walks against a reference resolver", STD)

prop("C04", "Compiled and symbolic forms of a library convert into each other losslessly",
 """Converting any compiled type library into its symbolic form and compiling it again gives an identical library with the same id; and compiling any well-formed symbolic library and converting it back
 gives the same symbolic library. Names, dependencies, external types and every reference are preserved.""",
 ["inputs"], "all libraries (up to three inline levels, references to own and external types)", "Tests convert no library back.",
 ["src/typelib/compile.rs", "src/typelib/symbolic.rs", "src/typelib/translate.rs"], [("compilation", "src/typelib/compile.rs"), ("symbolic form", "src/typelib/symbolic.rs")],
 "model-based round-trip testing", STD)

prop("C05", "Compiling a symbolic library succeeds exactly for well-formed sources",
 """Any symbolic library, however it was obtained, either compiles into the library its definition specifies, or is refused with an error when it refers to an unknown local name, contains a cycle of references, nests inline types too deep,
 or uses an external library missing from its dependencies. The error names the actual defect, and the compiler never panics or hangs.""",
 ["inputs"], "symbolic libraries, well-formed and with injected defects", "Tests compile only libraries produced from Rust types, which cannot have these defects.",
 ["src/typelib/symbolic.rs", "src/typelib/compile.rs"], [("compile", "src/typelib/symbolic.rs"), ("reference translation", "src/typelib/compile.rs")],
 "model-based random testing with defect injection", STD)

prop("C06", "Transpiling Rust types yields exactly the library of these types",
 """Transpiling any set of Rust types with derived encodings gives a symbolic library, and a compiled one, which defines exactly the types reachable from them in this library, with their fields, variants, tags, sizes and character sets, and lists exactly the used dependencies; neither the order and repetition
 of transpile calls nor the values the types are sampled with matter. A definition nested deeper than allowed, or one which refers to a type or library absent from the dependencies, is refused with an error naming it.""",
 ["inputs"], "all families of Rust types in up to three libraries, in all orders", "Tests transpile the fixed libraries of this crate.",
 ["src/typelib/transpile.rs", "src/typelib/compile.rs", "src/typelib/symbolic.rs"], [("transpilation", "src/typelib/transpile.rs"), ("compilation", "src/typelib/compile.rs")],
 "model-based random testing with dynamically shaped Rust types", STD)

prop("C07", "Library ids commit to everything the library defines, and to nothing else",
 """The id of a type library is the specified commitment to its name, its dependencies and the names and definitions of its types; any edit of the library or of a library it depends on changes the id of the library,
 while edits of unrelated libraries do not. The id does not depend on the order of dependencies or types in which the library was constructed.""",
 ["inputs", "histories"], "all libraries, construction orders and single edits", "Tests pin ids of two libraries.",
 ["src/typelib/id.rs", "src/typelib/type_lib.rs"], [("library commitment", "src/typelib/id.rs")], "model-based random testing (reference commitment, metamorphic edits)", STD)

prop("C08", "Libraries accumulate types and dependencies without silent replacement",
 """Adding a dependency or a type to a library either adds exactly it, or is refused with an error naming the clash - a repeated type name, a dependency with the id or the name of an existing one, too many items -
 and then leaves the library unchanged.""",
 ["histories"], "all sequences of additions with clashing and fresh names and ids, up to the limits", "Tests do not construct libraries incrementally.",
 ["src/typelib/type_lib.rs"], [("import and populate", "src/typelib/type_lib.rs")], "stateful model-based testing against a map", STD)

prop("C09", "Binary form of libraries and type systems is canonical and safely decoded",
 """Libraries, symbolic libraries, type systems, symbol tables and symbolic systems are encoded in the specified binary form, and decoding gives back an identical value. Decoding arbitrary bytes never panics, and whatever it accepts
 is the canonical encoding of the value returned: encoding it again gives the same bytes. Structurally invalid definitions (repeated or unordered names and tags, no members where some are required) are refused.""",
 ["inputs"], "all valid values, their corrupted encodings, and arbitrary byte strings", "Tests decode only what they have just encoded.",
 ["src/ast/encoding.rs", "src/ast/ty.rs", "src/typelib", "src/typesys"], [("manual decoders", "src/ast/encoding.rs"), ("derived encoders", "src/typelib/type_lib.rs, src/typesys/type_sys.rs, src/typesys/symbols.rs")],
 "differential testing with a reference encoder; structure-aware fuzzing of decoders", STD)

prop("C10", "Armored text restores the exact object or is refused",
 """The ASCII-armored form of any library, type system or symbolic system reads back as an identical object, and its headers state its name, id and dependencies. Armored text in which payload, id, headers or kind
 do not match each other is refused, and corrupted text never panics and is never accepted as an object with another id than stated in it.""",
 ["inputs"], "all objects; payloads replaced under the old headers; random corruption of text", "Tests print armor but do not read it back for libraries with several dependencies, and never corrupt it.",
 ["src/typelib/serialize.rs", "src/typesys/symbols.rs", "src/typesys/type_sys.rs"], [("armor", "src/typelib/serialize.rs")], "round-trip testing and structure-aware corruption", STD)

prop("C11", "Serde forms of libraries and type systems are lossless",
 """Libraries, symbolic libraries, type systems and symbolic systems converted to JSON or YAML, as text or as a value tree, read back identical.""",
 ["inputs"], "all libraries and systems", "Tests never deserialize these through serde.",
 ["src/ast/ty.rs", "src/typelib", "src/typesys"], [("serde derives", "src/ast/ty.rs")], "round-trip testing", STD)

prop("C12", "Identifiers have one meaning in every textual form",
 """Semantic, library and type system ids parse back to the same id from every text form they are displayed in (with or without prefix, checksum and mnemonic, and in serde form), their URNs carry the same text, and they refuse text of an id of another kind.
 Corrupted text never panics and never passes a checksum which belongs to another id.""",
 ["inputs"], "all 32-byte ids of all kinds and corrupted texts", "Tests parse a few literals.",
 ["src/ast/id.rs", "src/typelib/id.rs", "src/typesys/id.rs"], [("display and parse", "src/ast/id.rs, src/typelib/id.rs, src/typesys/id.rs")], "round-trip testing and text corruption", STD)

prop("C13", "Exported library files contain the complete library",
 """Exporting a library to a file in binary or armored format produces a file which reads back as the same library. Exported source lists the library name and id, all dependencies, and each type exactly once, with the mnemonic
 of its actual semantic id. Programs which export libraries take the format and the directory from their arguments, and an export which can't be written is reported as failed.""",
 ["inputs"], "all libraries, all formats, with and without a file name", "Tests export two fixed libraries and do not read the files.",
 ["src/typelib/serialize.rs", "src/util.rs"], [("serialize", "src/typelib/serialize.rs"), ("arguments", "src/util.rs"), ("display", "src/typelib/type_lib.rs, src/typelib/symbolic.rs")], "round-trip testing of files in a scratch directory", STD)

prop("C14", "A type system is assembled exactly when all that it refers to is present",
 """Importing libraries and finalizing gives a type system which contains exactly the types of these libraries, inline types included, in which every reference resolves. When a library or a type referred to is absent, the assembly is refused with errors
 naming each absent library and each absent type, and no others.""",
 ["histories", "inputs"], "all sets of libraries, complete or with libraries, types or dependency declarations removed", "Tests cover two incomplete sets.",
 ["src/typesys/translate.rs"], [("import and finalize", "src/typesys/translate.rs")], "model-based random testing with fault injection into the set of libraries", STD)

prop("C15", "The assembled type system does not depend on the import order",
 """Importing the same set of libraries in any order, each one or several times, gives an identical symbolic system: the same types, names, id, binary form and text.""",
 ["histories"], "all import orders with repetitions", "Tests use one order.",
 ["src/typesys/translate.rs", "src/typesys/symbols.rs"], [("import and finalize", "src/typesys/translate.rs")], "metamorphic random testing", STD)

prop("C16", "Names and ids of a symbolic system resolve to each other faithfully",
 """Every fully qualified name of the imported libraries resolves to the id of its type, and every id of a named type is looked up as one of its names, including types which are defined identically in several libraries; unknown names and ids are never found. All lookups - by name, by id, by index, through the
 symbol table, type tree or type listing - agree.""",
 ["inputs"], "all systems, all their names and ids, and foreign names and ids", "Tests look up a few names of the standard library.",
 ["src/typesys/symbols.rs", "src/typesys/type_sys.rs"], [("lookups", "src/typesys/symbols.rs"), ("type system access", "src/typesys/type_sys.rs")], "model-based random testing", STD)

prop("C17", "Extraction yields exactly the dependency closure of the requested types",
 """Extracting types from a type system gives exactly the requested types and everything they transitively refer to, with the same definitions, or an error naming an absent type if there is any. Extraction is idempotent, extraction of several types is the union of their extractions,
 and merging type systems is a set union.""",
 ["inputs"], "all complete and incomplete systems and all sets of roots", "Tests extract one root.",
 ["src/typesys/type_sys.rs"], [("extract and extend", "src/typesys/type_sys.rs")], "model-based random testing (graph search over the model)", STD)

prop("C18", "Type system ids commit to the set of types, whichever way it was obtained",
 """The id of a type system is the specified commitment to the set of ids of its types, the same whether the system was imported, decoded, extracted or merged, and different for different sets of types.""",
 ["inputs", "histories"], "all systems and the routes by which they are obtained", "Tests pin no system id.",
 ["src/typesys/id.rs", "src/typesys/type_sys.rs"], [("system commitment", "src/typesys/id.rs")], "model-based random testing (reference commitment)", STD)

prop("C19", "Type trees and memory layouts describe the whole type and nothing else",
 """The tree of a type lists, in depth-first order and with correct depth, every part of its definition once, with field names, variant names and tags, type names, value ranges and size limits; strings, byte arrays, options and wrappers are abbreviated without loss of these.
 The memory layout built from the tree has the same items, and its text expression the same nesting, names, tags and limits.""",
 ["inputs"], "all named types of all systems", "Tests print two trees without comparing them with the types.",
 ["src/typesys/iter.rs", "src/layout"], [("type tree iterator", "src/typesys/iter.rs"), ("layout and expression", "src/layout/translate.rs, src/layout/vesper.rs, src/layout/memory.rs")], "differential testing with a recursive reference of the tree and a parser of the expression", STD)

VALS = "worlds of one or two libraries with values of all constructors, from empty ones to lists of 66000 items; the reflective decoder of the library reads numbers of up to 64 bits only (others are written but not read)"

prop("C20", "Reflection agrees with the derived Rust encoding of the same type",
 """For Rust types with derived strict encoding, the type system transpiled from them reads every encoded Rust value, accepts the value in its natural notation, and writes it into the very bytes the Rust type does.
 Any byte string is accepted by the reflection and by the derived decoder alike, with the same content and length (except that only derived decoders know the order of set items and map keys).""",
 ["inputs"], "values of Rust types with all kinds of encodings, and corrupted encodings", "Tests compare reflection with Rust for a single value.",
 ["src/typelib/transpile.rs", "src/value/decode.rs", "src/value/encode.rs", "src/value/typify.rs"], [("transpilation", "src/typelib/transpile.rs"), ("reflection of values", "src/value")],
 "differential random testing against derived encodings", STD)

prop("C21", "Typified values serialize into the strict encoding of their type",
 """A value of any type in its canonical notation is accepted by typification unchanged, and serialized into exactly the bytes which strict encoding defines for that type: little-endian numbers of the size of the type,
 tags, fields in the declared order, and length prefixes as wide as the maximal size of the collection requires. This holds for any depth, any number of items and all bounds, in memory and in streams, and typification is idempotent.""",
 ["inputs"], "all types and all their values", "Tests serialize a handful of values, none with large numbers, non-byte arrays, tags different from positions, or more than 255 items.",
 ["src/value/typify.rs", "src/value/encode.rs"], [("typification", "src/value/typify.rs"), ("serialization", "src/value/encode.rs")],
 "model-based random testing with a reference encoder", STD)

prop("C22", "Reading an encoded value by its type reproduces the value exactly",
 """For every type whose numbers the reflection can read, decoding the strict encoding of a value by the type gives that value in canonical notation, consumes exactly its bytes, and the result typifies into itself and serializes back into the same bytes.
 Trailing bytes are refused when the whole data must be consumed, and no proper prefix of an encoding is accepted.""",
 ["inputs"], "all readable types and all their values, in streams and in memory", "Tests read a few values of two types.",
 ["src/value/decode.rs"], [("reflective decoder", "src/value/decode.rs")], "model-based random testing with a reference encoder", VALS)

prop("C23", "Reading arbitrary bytes by a type never panics and accepts only valid values",
 """Reading any byte string by any type of a complete type system returns a value or an error; it never panics and never reserves memory out of proportion to the data. It accepts exactly the valid encodings: enumeration and union tags which are declared, numbers of items within
 the bounds of the type, set items and map keys without repetition, characters of the declared set; and what is accepted serializes back into the bytes consumed.""",
 ["inputs"], "corrupted encodings, encodings which violate one requirement of the type, and arbitrary bytes, for all readable types", "Tests read valid data only.",
 ["src/value/decode.rs"], [("reflective decoder", "src/value/decode.rs")], "structure-aware fuzzing against a reference decoder", VALS)

prop("C24", "Typification accepts a value exactly when it conforms to the type",
 """Typifying any value for any type never panics; it accepts values which conform to the type and refuses all others - numbers out of range of their type, collections out of bounds, repeated set items or map keys, missing, extra or misnamed fields, unknown variants, foreign characters, or values
 of another kind. Whatever is accepted serializes without failure into a valid encoding of that type.""",
 ["inputs"], "all types, with values with one or two mistakes, values of other types, and arbitrary values", "Tests typify conforming values, and check two refusals.",
 ["src/value/typify.rs", "src/value/encode.rs"], [("typification", "src/value/typify.rs")], "random testing against an independent interpreter of values (conforms, does not conform, unsettled)", STD)

prop("C25", "All notations of a value have the same meaning",
 """Values may be written in several notations: variants by name or tag, enumeration variants by name, tag, number or character, options as wrapped or bare values, tuples as lists, structures as maps with fields in any order, byte and character strings as strings, bytes or lists, newtypes as their bare content, unit as an empty collection, non-negative numbers with or without sign.
 Every mixture of these notations of the same value is accepted for its type and has the same encoding.""",
 ["inputs"], "all types, their values and mixtures of notations", "Tests use three of the notations.",
 ["src/value/typify.rs"], [("typification", "src/value/typify.rs")], "metamorphic random testing with a reference encoder", STD)

prop("C26", "Paths and accessors reach exactly the addressed part of a value",
 """Following a path of fields, indexes and map keys of any length reaches exactly the part of the value each step names, or fails naming the first step which can't be made and what it met there; a path, its steps, its binary form and its JSON form are the same path.
 Accessors which read a value as a number, string, byte string, enumeration, field or variant look through one-field tuples, give the content exactly, and refuse values of another kind.""",
 ["inputs"], "all values, all paths, all accessors", "No test follows a path, and none uses accessors on wrapped values.",
 ["src/value/path.rs", "src/value/val.rs"], [("paths", "src/value/path.rs"), ("accessors", "src/value/val.rs")], "model-based random testing (reference walk)", STD)

prop("C27", "JSON, YAML and TOML documents of a value typify into that value",
 """A document with the natural notation of a value - numbers, strings for characters, strings and variants, null or content for options, arrays for tuples and collections, objects for structures and maps - converts from JSON, YAML and TOML alike into a value which typifies to the one written and encodes to its bytes.
 Any document without floating-point numbers and dates converts without failure into the same items in the same structure.""",
 ["inputs"], "all values with a notation as documents, and arbitrary documents", "Tests convert one document from each of JSON, YAML and TOML.",
 ["src/value/convert.rs", "src/value/val.rs", "src/value/typify.rs"], [("conversions", "src/value")], "differential and model-based random testing with a reference encoder", STD)

prop("C28", "Serde forms of typified values keep their meaning",
 """A typified value written through serde as JSON or YAML is read back into a value which typifies by the same type and has the same encoding, for values without byte strings, signed numbers of types wider than 64 bits and strings of 256 hexadecimal digits, which the untagged serde form can't tell from other values.""",
 ["inputs"], "all types and their values, but the ones named", "No test reads a value through serde.",
 ["src/value/val.rs", "src/value/typify.rs"], [("serde forms", "src/value/val.rs"), ("typification", "src/value/typify.rs")], "round-trip random testing", STD)

prop("C29", "The text form of a typified value is unambiguous",
 """The text displayed for a value of any type, read with the knowledge of the type, has the value itself as a reading and is never the text of another value of the type: names of fields and variants, numbers, quoted and escaped strings, nested collections and map keys are all kept apart.""",
 ["inputs"], "all types and their values, with any characters in strings", "Tests compare the text of two values.",
 ["src/value/ston.rs"], [("text of values", "src/value/ston.rs")], "round-trip random testing with a type-directed parser which keeps all readings", STD)

prop("C33", "Versions are displayed as semantic versioning requires and survive encoding",
 """A version with any pre-release and build fragments is displayed as major.minor.patch, followed by a dash and pre-release fragments, followed by a plus and build fragments, each separated by dots; and its binary form decodes into the same version.""",
 ["inputs"], "all versions", "No test uses versions.",
 ["src/util.rs"], [("versions", "src/util.rs")], "model-based random testing", STD)

prop("C32", "Type systems keep within their documented size, whatever is assembled",
 """A type system never takes 2^24 bytes or more when serialized: an import or extension which would exceed it is refused with an error, without a panic and without changing the extended system. Every system up to the limit is assembled, serialized, armored and read back; as many libraries as symbols can hold (65535) may be imported, and more are refused with an error.""",
 ["inputs"], "libraries totalling about 2^24 bytes, imported or joined; about 65535 libraries", "Tests assemble only small libraries.",
 ["src/typesys/type_sys.rs", "src/typesys/symbols.rs", "src/typesys/translate.rs"],
 [("TypeSystem guarantees", "src/typesys/type_sys.rs"), ("assembling", "src/typesys/translate.rs, src/typesys/symbols.rs")],
 "boundary-value random testing against a size model", STD)
prop("C34", "The library describes its own data formats",
 """The types of the StrictTypes library, which this crate publishes as the description of its formats, read the binary form of every type library, symbolic system, memory layout and reference to a type or library the crate writes, to the last byte, and write it back identically. The published symbolic libraries compile into the published compiled ones with the published ids.""",
 ["inputs"], "random libraries, systems and layouts", "Tests check only that the description compiles and its id.",
 ["src/stl.rs", "src/typelib/transpile.rs", "src/value/decode.rs", "src/typelib/type_lib.rs", "src/typesys"], [("own description", "src/stl.rs")],
 "self-description: reflective reading of generated data", STD)
prop("C30", "Text of definitions, libraries and systems lists all of them exactly",
 """The text of a type definition lists every member in its order with its name, its type and its size limits, and its tag wherever that doesn't follow the previous one. The text of a library states its name, id and dependencies and lists each of its types exactly once with its definition;
 the text of a type system or symbol table lists each type exactly once under its name or id.""",
 ["inputs"], "all types, libraries, symbolic libraries and systems", "Tests print a few objects and compare none of the texts.",
 ["src/ast/ty.rs", "src/typelib/serialize.rs", "src/typelib/type_lib.rs", "src/typesys/symbols.rs", "src/typesys/type_sys.rs"],
 [("text of definitions", "src/ast/ty.rs"), ("text of libraries", "src/typelib/serialize.rs"), ("text of systems", "src/typesys/symbols.rs, src/typesys/type_sys.rs")],
 "model-based random testing (words of the text against words of the model)", STD)
prop("C31", "Constructors, conversions and macros build exactly the value or type they name",
 """Every constructor, conversion and macro of values (`StrictVal::*`, `From`, `ston!`, `sv*!`) builds exactly the value it names, keeping all its parts in the order given. Constructors, macros (`fields!`, `variants!`) and queries of type definitions, sizes and paths agree with the definition built.""",
 ["inputs"], "random nested values of all kinds, random definitions", "Tests call most macros without looking at the result.",
 ["src/value/val.rs", "src/macros.rs", "src/ast/ty.rs", "src/value/path.rs"],
 [("value constructors and macros", "src/value/val.rs"), ("definition macros", "src/macros.rs"), ("definition queries", "src/ast/ty.rs")],
 "model-based and differential random testing", STD)
