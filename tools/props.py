"""The properties: what goes to properties.jsonl, MANIFEST.json and DESIGN.md (see mkmeta.py)."""

GEN = "compiler/extensions/{cpp,java,python}/freemarker/*"
CPP_T = "compiler/extensions/cpp/freemarker/"
JAVA_T = "compiler/extensions/java/freemarker/"
PY_T = "compiler/extensions/python/freemarker/"
CPP_R = "compiler/extensions/cpp/runtime/src/zserio/"
JAVA_R = "compiler/extensions/java/runtime/src/zserio/runtime/"
PY_R = "compiler/extensions/python/runtime/src/zserio/"
CORE = "compiler/core/src/zserio/"

P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, design, state=(), observe=(),
         level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, design=design, state=state, observe=observe, level=level, na=na))


MODEL = ("Trusted: the reference model of the wire format (lib/zmodel.py, written from doc/ZserioEncodingGuide.md and "
         "doc/ZserioLanguageOverview.md, not from the code), gcc/clang sanitizers, the drivers' dump functions.")

prop("W01", "Wire format of every schema element is the documented one in all languages",
     "For every valid schema and every valid object, code generated for C++, Java and Python writes exactly the bit "
     "sequence which the encoding guide prescribes, including fields which are dependent on others (optional, choice, "
     "dynamic widths, arrays, packed arrays, offsets, alignment, strings, parameters).  Hence all languages produce "
     "identical bits.",
     ["programs", "inputs"], "all valid schemas of the zserio language, all valid objects of their types",
     "Existing tests run hand-written examples per feature and language, most of them (test/) are not even among the "
     "stable ones here; feature combinations and the equality of languages on arbitrary schemas are not sampled.",
     [CPP_T + "Structure.cpp.ftl", CPP_R + "BitStreamWriter.cpp", CPP_R + "Array.h", JAVA_T + "Structure.java.ftl",
      JAVA_R + "io/ByteArrayBitStreamWriter.java", JAVA_R + "array/Array.java", PY_T + "Structure.py.ftl",
      PY_R + "bitwriter.py", PY_R + "array.py"],
     [("generated write functions", CPP_T + "CompoundField.inc.ftl"), ("generated write functions",
      JAVA_T + "CompoundField.inc.ftl"), ("generated write functions", PY_T + "CompoundField.inc.ftl"),
      ("bit stream writers", CPP_R + "BitStreamWriter.cpp"), ("bit stream writers", PY_R + "bitwriter.py")],
     "runtime monitoring of generated code in 4 runtimes against an executable reference model, ASan/UBSan",
     "Every execution is compared bit by bit with the model on systematic and random schemas; no claim beyond the "
     "schemas and values generated. " + MODEL,
     "Random schemas (lib/zgen.py) and systematic ones (lib/zsys.py: every scalar type, array kind, packed array, "
     "offset and choice form) are compiled with the real compiler for C++, Java and Python (pure and with the C++ "
     "binding). Drivers build each value through the generated API and write it at different bit positions; the "
     "monitor compares bits, end position and the object dump with the reference encoder. C++ runs under ASan+UBSan. "
     "Quick: about 10 schemas, 5000 executions, 45 s.")

prop("W02", "Whatever is written is read back equal, in and across all languages",
     "For every valid object, reading the written bits yields an object which compares equal to the original, has the "
     "same hash code and the same field values, consumes exactly the written bits and writes the same bits again. "
     "This also holds when the writer and the reader are generated for different languages.",
     ["programs", "inputs"], "all valid schemas, all valid objects, all pairs of writing and reading language",
     "Unit tests round trip selected values of selected schemas within one language; cross language exchange is "
     "not tested at all.",
     [CPP_T + "Structure.cpp.ftl", JAVA_T + "Structure.java.ftl", PY_T + "Structure.py.ftl", CPP_T + "Choice.cpp.ftl",
      CPP_R + "BitStreamReader.cpp", JAVA_R + "io/ByteArrayBitStreamReader.java", PY_R + "bitreader.py"],
     [("generated read functions", CPP_T + "CompoundField.inc.ftl"), ("generated read functions",
      JAVA_T + "CompoundField.inc.ftl"), ("bit stream readers", CPP_R + "BitStreamReader.cpp")],
     "round-trip monitor over event log of streams exchanged between 4 runtimes, ASan/UBSan",
     "Streams produced by each runtime are fed to the others; equality flags, hash, dump, consumed bits are checked. "
     + MODEL,
     "Each value is built and written by one of the four runtimes; the written stream is then given to the other "
     "three, whose monitors report what was decoded, how many bits were consumed, whether the object equals a rebuilt "
     "copy, hash equality and the rewritten bits. Oracle: the streams and dumps have to be identical.")

prop("W03", "Predicted sizes and initialized offsets match what is written at any position",
     "For every valid object and every start bit position, the bit size reported before writing equals the number of "
     "bits which writing at that position produces.  The offset initialization ends at the same position and leaves "
     "all offset fields with the byte positions at which the fields they belong to are really written.",
     ["programs", "inputs"], "all valid schemas and objects, all start bit positions",
     "Tests check bit sizes at position 0 or 1 of fixed objects; size computation is separate generated code which can "
     "differ from writing for any combination of alignment, offsets, packing and optional members.",
     [CPP_T + "CompoundField.inc.ftl", CPP_T + "Structure.cpp.ftl", JAVA_T + "Structure.java.ftl",
      PY_T + "CompoundField.inc.ftl", CPP_R + "BitSizeOfCalculator.cpp", JAVA_R + "BitSizeOfCalculator.java",
      PY_R + "bitsizeof.py", CPP_R + "Array.h"],
     [("bitSizeOf", CPP_T + "CompoundField.inc.ftl"), ("initializeOffsets",
      CPP_T + "Structure.cpp.ftl"), ("array bit sizes", CPP_R + "Array.h"),
      ("size of values", PY_R + "bitsizeof.py")],
     "online monitor comparing predicted sizes/offsets with the executed writes at many positions",
     "Observed at positions 0..130 on systematic and random schemas. " + MODEL,
     "Every value is laid out at several start positions in every runtime; the monitor compares bitSizeOf, the result "
     "of initializeOffsets, the values left in offset fields and the number of bits really written with each other and "
     "with the model.")

prop("W04", "Packed arrays keep every sequence of values and use the documented encoding",
     "For every sequence of elements of any packable type (numbers, enums, bitmasks, compounds), writing a packed "
     "array and reading it returns the same sequence, with exactly the delta encoding which the encoding guide "
     "documents, including the descriptors of each leaf, the choice of the number of bits and the unpacked fallback.",
     ["inputs", "programs"], "all packable element types and compounds, all sequences of values and lengths",
     "The number of sequences (jumps, extremes, constant runs, lengths 0, 1, 2, ...) is unbounded; tests try a few "
     "fixed arrays.",
     [CPP_R + "DeltaContext.h", CPP_R + "Array.h", JAVA_R + "array/DeltaContext.java",
      JAVA_R + "array/PackedArrayTraits.java", PY_R + "array.py", PY_T + "Structure.py.ftl", CPP_T + "Structure.cpp.ftl"],
     [("delta contexts", CPP_R + "DeltaContext.h"), ("delta contexts", JAVA_R + "array/DeltaContext.java"),
      ("delta contexts", PY_R + "array.py"), ("generated packing contexts", CPP_T + "Structure.cpp.ftl")],
     "differential runtime monitoring of packed arrays under patterned workloads against a reference model",
     "Patterned sequences (extreme jumps, exactly k-bit differences, constant, ramps) in scalars and compounds. " + MODEL,
     "Values of packed arrays are replaced by patterns which hit each branch of the delta encoder: constant, extremes, "
     "deltas of exactly k bits (k up to 64), single jumps, ramps, lengths 1..130; compound elements get a pattern per "
     "column. Written bits, predicted sizes and decoded values of four runtimes are compared with the model.")

prop("W05", "Offsets and alignment are honoured when writing and verified when reading",
     "Fields with an alignment start at a multiple of it and fields with an offset start at the byte position stored in "
     "the offset field, at every start position in the stream and for indexed offsets at every element.  A stream "
     "whose stored offset differs from the real position is refused on reading, and an object with a wrong offset is "
     "refused on writing, in all languages.",
     ["programs", "inputs"], "all schemas with offsets, indexed offsets and alignments; all positions; all wrong offset values",
     "Tests check one wrong offset per example; the positions, nesting and the element indices vary without bound.",
     [CPP_T + "CompoundField.inc.ftl", JAVA_T + "CompoundField.inc.ftl", PY_T + "CompoundField.inc.ftl", CPP_R + "Array.h",
      JAVA_R + "array/OffsetChecker.java", PY_R + "array.py", CPP_R + "BitPositionUtil.h"],
     [("offset checks", CPP_T + "CompoundField.inc.ftl"), ("alignment", CPP_R + "BitStreamReader.cpp"),
      ("indexed offset checkers", JAVA_R + "array/OffsetChecker.java")],
     "fault injection into stored offsets with online monitors in 4 runtimes",
     "Each offset of sampled values is spoiled in stream and object; acceptance is a violation. " + MODEL,
     "Schemas rich in offsets and alignment. Correct values must be written/read as in the model; then single offset "
     "values in the stream are changed (by 1, by a bit, at random, to other offsets' values) and each runtime must "
     "refuse them with its documented error; objects with wrong offsets written without initialization must be refused too.")

prop("W06", "Objects which break a rule of the schema are never written",
     "An object which violates a rule of its schema (value outside of the range of its type, constraint expression, "
     "array length, wrong union or choice member, missing mandatory value, wrong parameter, wrong offset) is refused "
     "with a documented error on writing, and never produces a stream.",
     ["programs", "inputs"], "all schemas, all objects obtained by breaking one rule of a valid one",
     "Tests break single constraints in single examples; each rule has separate generated code per language and field kind.",
     [CPP_T + "CompoundField.inc.ftl", JAVA_T + "CompoundField.inc.ftl", PY_T + "CompoundField.inc.ftl",
      CPP_T + "CompoundConstructor.inc.ftl", JAVA_T + "RangeCheck.inc.ftl", CPP_R + "BitStreamWriter.cpp",
      JAVA_R + "io/ByteArrayBitStreamWriter.java", PY_R + "bitwriter.py"],
     [("constraint checks", CPP_T + "CompoundField.inc.ftl"), ("range checks", JAVA_T + "RangeCheck.inc.ftl"),
      ("range checks of the writers", PY_R + "bitwriter.py")],
     "fault injection into object state, monitored outcome in 4 runtimes against the model's verdict",
     "One broken rule per object, with and without -withRangeCheckCode; errors must be the documented classes. " + MODEL,
     "Valid objects are broken in one place (range, constraint, length, parameter, union tag, absent mandatory member, "
     "offset). The model decides whether the result is still valid; each runtime must refuse exactly the invalid ones.")

prop("W07", "Hostile or damaged streams are decoded or refused the same way everywhere",
     "For every type and every bit string, the readers of all languages either all decode it to the same object (the "
     "one documented by the encoding guide) or all refuse it with a documented error.  No input makes a reader crash, "
     "hang, return an object which breaks a rule of the schema, or read beyond the end of the stream.",
     ["inputs", "programs"], "all bit strings given to the readers of all schemas",
     "Tests read streams produced by the writers; error paths are hit by single hand-made streams.",
     [CPP_T + "CompoundField.inc.ftl", CPP_T + "CompoundField.inc.ftl", JAVA_T + "CompoundField.inc.ftl",
      PY_T + "CompoundField.inc.ftl", CPP_R + "BitStreamReader.cpp", JAVA_R + "io/ByteArrayBitStreamReader.java",
      PY_R + "bitreader.py", CPP_R + "Array.h"],
     [("stream readers", CPP_R + "BitStreamReader.cpp"), ("stream readers", JAVA_R + "io/ByteArrayBitStreamReader.java"),
      ("stream readers", PY_R + "bitreader.py"), ("constraint checks while reading", CPP_T + "CompoundField.inc.ftl")],
     "differential monitoring of readers on mutated streams (4 runtimes + model), ASan/UBSan",
     "Truncated, extended, flipped, spliced and targeted mutations of valid streams. " + MODEL,
     "Valid streams are mutated (truncation at any bit, bit flips, splices, extreme lengths and varsizes, random bits); "
     "each reader's outcome (value dump, consumed bits or error class) is compared with the model's strict decoder and "
     "with the other languages; C++ runs under ASan/UBSan with a watchdog.")

prop("B10", "Bit stream writers and readers are exact inverses at every bit position",
     "Any sequence of primitive writes (bits, varints, strings, bytes, bit buffers, alignment) at any bit position "
     "produces exactly the documented bits in the C++, Java and Python runtimes, and the same reads give the values "
     "back and end at the same position.  Values or widths outside of the documented range and reads or positions "
     "beyond the end of the stream are refused with the documented error, and memory outside of the buffer is never touched.",
     ["inputs", "histories"], "all sequences of reader and writer calls, all values, all bit positions and buffer sizes",
     "Unit tests read and write selected values, mostly starting at bit 0.",
     [CPP_R + "BitStreamReader.cpp", CPP_R + "BitStreamWriter.cpp", JAVA_R + "io/ByteArrayBitStreamReader.java",
      JAVA_R + "io/ByteArrayBitStreamWriter.java", PY_R + "bitreader.py", PY_R + "bitwriter.py",
      "compiler/extensions/cpp/runtime/src/zserio/BitSizeOfCalculator.cpp", JAVA_R + "BitSizeOfCalculator.java", PY_R + "bitsizeof.py"],
     [("bit stream reader", CPP_R + "BitStreamReader.cpp"), ("bit stream writer", JAVA_R + "io/ByteArrayBitStreamWriter.java"),
      ("bit stream reader", PY_R + "bitreader.py"), ("bit sizes of variable integers", JAVA_R + "BitSizeOfCalculator.java")],
     "online monitoring of random histories of stream operations in 4 runtimes against a bit level model, ASan/UBSan",
     "All runtimes execute the same recorded histories; no exhaustive claim. Trusted: the bit model in lib/zmodel.py.",
     "Random histories of operations (boundary values of each width, all alignments, invalid values and widths, "
     "truncated buffers, position jumps) run in the real readers and writers; each returned value, each error and each "
     "position is compared with the model. C++ runs with exact-size heap buffers under ASan+UBSan.")

prop("B11", "Float conversions are exact or correctly rounded for every value",
     "Each 16-, 32- and 64-bit pattern read as float gives exactly the IEEE 754 value, and each value which float16, "
     "float32 or float64 can hold exactly is written as its pattern (infinities, subnormals, signed zeros included, "
     "NaN stays NaN).  Other values are rounded to a nearest float16 (ties either way, too big ones to infinity), "
     "identically in all languages.",
     ["inputs"], "all 2^16 half patterns, all float and double values",
     "Unit tests convert a few dozens of values.",
     [CPP_R + "FloatUtil.cpp", JAVA_R + "FloatUtil.java", PY_R + "float.py"],
     [("float16 conversion", CPP_R + "FloatUtil.cpp"), ("float16 conversion", JAVA_R + "FloatUtil.java"),
      ("float16 conversion", PY_R + "float.py")],
     "exhaustive (float16) and boundary directed execution of 4 runtimes against an exact rational oracle, UBSan",
     "All 65536 half patterns are executed; float32 and float64 inputs are boundary directed and random. Excluded: "
     "payloads of NaN.",
     "All half patterns are read; values at, below and above each rounding boundary of each binade are written. The "
     "oracle rounds exact rationals (Python fractions), independent of the bit twiddling in the runtimes.")

prop("B12", "Bit buffers compare, hash and copy by their valid bits only",
     "Two bit buffers are equal exactly if their bit sizes and all valid bits are equal, whatever the unused bits of "
     "the last byte contain.  Equal buffers have equal hash codes, hash codes agree across languages, and the C++ "
     "ordering is a total order consistent with equality.",
     ["inputs"], "all pairs of bit buffers of any size and any unused bits",
     "Unit tests compare a handful of buffers.",
     [CPP_R + "BitBuffer.h", JAVA_R + "io/BitBuffer.java", PY_R + "bitbuffer.py"],
     [("bit buffer", CPP_R + "BitBuffer.h"), ("bit buffer", JAVA_R + "io/BitBuffer.java"), ("bit buffer", PY_R + "bitbuffer.py")],
     "online law monitors over sets of generated bit buffers in 4 runtimes, ASan/UBSan",
     "Laws (equality, hash, order) are checked on generated families of near-equal buffers.",
     "Families of buffers which differ in single bits, sizes and garbage behind the last bit are created in each "
     "runtime; the monitor checks the equality/hash/order matrices against the model and each other.")

prop("E13", "Equality, hash codes and ordering of objects follow their values",
     "Two objects of a generated type are equal exactly if their parameters, the selected or present fields and the "
     "values of these fields are equal.  Equal objects have equal hash codes however they came about (built or read).  "
     "The less-than operator of generated C++ types is the strict order of the documented ordering rules (parameters "
     "and fields in order of definition, absent before present, selectors and union tags first).",
     ["programs", "inputs"], "all types of all valid schemas, all pairs of objects",
     "Unit tests compare a few objects of a few types; generated comparison code of the templates is not covered.",
     [CPP_T + "Structure.cpp.ftl", CPP_T + "Choice.cpp.ftl", CPP_T + "Union.cpp.ftl", JAVA_T + "Structure.java.ftl",
      JAVA_T + "Choice.java.ftl", JAVA_T + "Union.java.ftl", PY_T + "Structure.py.ftl", CPP_R + "HashCodeUtil.h",
      JAVA_R + "HashCodeUtil.java", PY_R + "hashcode.py", JAVA_R + "array/Array.java", PY_R + "array.py",
      CPP_R + "OptionalHolder.h"],
     [("hash code helpers", CPP_R + "HashCodeUtil.h"), ("hash code helpers", JAVA_R + "HashCodeUtil.java"),
      ("hash code helpers", PY_R + "hashcode.py"), ("generated operators", CPP_T + "Structure.cpp.ftl")],
     "law monitors over groups of near-equal objects in 4 runtimes against the documented order, ASan/UBSan",
     "Every pair of every group is compared; NaN and negative zero are left out. " + MODEL,
     "Groups of objects of one type (a base value, variants which differ in one place, copies, unrelated ones, some "
     "built through the API, some read from streams) are compared pairwise in every runtime; the matrices of ==, "
     "equal hash codes and < must be the ones of the sort key derived from the documented rules.")

prop("J17", "JSON text of objects is the documented one and can be read back",
     "For every valid object, every runtime writes the JSON text which the JSON guide prescribes (names, enumerable "
     "forms, null for absent fields, valid syntax and UTF-8) in every indentation.  Reading such a text, in any "
     "runtime and also in the other accepted spellings (numeric enumerables, comments, escapes, missing keys of absent "
     "fields, other white space), yields an object with the same fields and the same serialized bits.",
     ["programs", "inputs"], "all valid schemas and objects, all pairs of writing and reading runtime",
     "Unit tests of the JSON classes use one hand made reflectable per runtime; exchange between languages and "
     "generated reflection are not tested.",
     [CPP_R + "JsonWriter.h", CPP_R + "JsonReader.h", CPP_R + "JsonEncoder.cpp", CPP_R + "JsonDecoder.h",
      CPP_R + "JsonTokenizer.h", CPP_R + "ZserioTreeCreator.h", JAVA_R + "json/JsonWriter.java",
      JAVA_R + "json/JsonReader.java", JAVA_R + "json/JsonDecoder.java", JAVA_R + "creator/ZserioTreeCreator.java",
      PY_R + "json.py", PY_R + "creator.py", PY_R + "walker.py"],
     [("JSON writer", CPP_R + "JsonWriter.h"), ("JSON writer", JAVA_R + "json/JsonWriter.java"), ("JSON writer",
      PY_R + "json.py"), ("tree creator", PY_R + "creator.py"), ("tree creator",
      JAVA_R + "creator/ZserioTreeCreator.java")],
     "monitor of JSON texts exchanged between 4 runtimes against an independent JSON parser and the reference model",
     "What is written for extended fields which are not present is not specified and not compared. " + MODEL,
     "Texts written by each runtime (indentations, enumerables as numbers) are parsed with Python's json and compared "
     "with the model value (lib/zjson.py); texts of all runtimes and generated spellings are read by all runtimes and "
     "the resulting objects and bits must be the ones of the model.")


prop("E15", "Expressions have the same documented value everywhere and in all languages",
     "Every expression of a schema (constants, enum and bitmask values, functions, conditions, array lengths, bit widths, "
     "constraints, selectors, arguments, offsets of generated code) is evaluated to the value which the language overview "
     "gives its operators, precedence and associativity, by the compiler itself and by the code generated for C++, Java "
     "and Python alike, as long as no intermediate value leaves the range of the types which the languages use for it.",
     ["programs", "inputs"], "all expressions of valid schemas, all objects on which they are evaluated",
     "Unit tests evaluate a few fixed expressions per operator; nested combinations, mixed widths, negative values and the "
     "agreement of the languages and of the compiler's own evaluation are not sampled.",
     [CORE + "ast/Expression.java", "compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java",
      "compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java",
      "compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java", PY_R + "builtin.py",
      CPP_R + "BuiltInOperators.cpp"],
     [("evaluation in the compiler", CORE + "ast/Expression.java"), ("formatting for C++",
      "compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java"), ("formatting for Java",
      "compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java")],
     "monitor of generated functions, fields and constants against an independent evaluator of random expressions, ASan/UBSan",
     "Expressions which hit recorded findings (see C26) or values outside of the range of the types used are not generated. "
     + MODEL,
     "lib/zexpr.py grows random expressions over fields, parameters, constants, enum items, bitmask values, arrays, functions "
     "and literals of all forms and remembers the value on several objects. They become functions, conditions, lengths, "
     "widths, constraints, arguments, cases, constants and item values of schemas which are compiled and run in C++ "
     "(ASan+UBSan), Java and Python; every function result and the wire format of every object has to be the predicted one.")

prop("C26", "Code generated for every accepted schema compiles and loads with all options",
     "Whenever the compiler accepts a schema, the code which it generates for C++, Java and Python (and the XML and HTML "
     "output) is complete and valid: it compiles, all its modules and classes load and initialize, whatever combination of "
     "documented generator options (with or without writer, setters, type info, reflection, validation, range checks, "
     "services, pubsub, SQL, comments, parsing info, source amalgamation, polymorphic allocator) is used.",
     ["programs", "configurations"], "all accepted schemas, all combinations of generator options",
     "The existing tests compile fixed schemas with fixed options.",
     ["compiler/extensions/cpp/src/zserio/extension/cpp/*.java", "compiler/extensions/java/src/zserio/extension/java/*.java",
      "compiler/extensions/python/src/zserio/extension/python/*.java", CPP_T + "*.ftl", JAVA_T + "*.ftl", PY_T + "*.ftl"],
     [("C++ emitters", "compiler/extensions/cpp/src/zserio/extension/cpp/CppExtension.java"), ("Java emitters",
      "compiler/extensions/java/src/zserio/extension/java/JavaExtension.java"), ("Python emitters",
      "compiler/extensions/python/src/zserio/extension/python/ApiEmitter.java")],
     "compilers and class loaders as oracles over output generated for hundreds of schemas in rotating options",
     "Only schemas of the rule corpus and random ones are tried; C++ is checked by clang's front end, Java classes are "
     "loaded, verified and initialized, Python modules imported and type infos built.",
     "The legal half of each of the 600 schemas of lib/zillegal.py (one per language rule) and random schemas are compiled "
     "with options rotated by seed; the code of all languages is compiled (clang -fsyntax-only, javac), loaded (-Xverify:all, "
     "static initializers) or imported. Recorded defects are probed by own schemas.")

prop("C25", "The compiler answers every text with code or a located error, layout aside",
     "Given any schema text, also random or damaged ones, the compiler either generates code and documentation or refuses it with an error "
     "message at a place which exists in the sources, and never crashes, hangs or ends in an internal error.  White space, comments and "
     "the order of declarations in a package, which have no meaning, change neither the verdict nor the generated code.",
     ["inputs", "programs"], "all texts given to the compiler as schemas",
     "The tests' schemas are valid or break a single rule in an expected place; texts in between are unlimited.",
     [CORE + "ast/*.java", CORE + "tools/*.java", "compiler/core/antlr/*.g4", "compiler/extensions/*/src/**"],
     [("parsing", CORE + "tools/ZserioTool.java"), ("building of the AST", CORE + "ast/ZserioAstBuilder.java"),
      ("type resolving", CORE + "ast/ZserioAstTypeResolver.java"), ("templates", CORE + "ast/ZserioAstTemplator.java"),
      ("evaluation", CORE + "ast/ZserioAstEvaluator.java")],
     "fuzzing of the real compiler with a monitor of crashes and error positions; metamorphic comparison of outputs",
     "Refusals of names by single generators carry no position in some cases and are exempt, like those of missing files. Whether "
     "a damaged text should have been refused is judged by C27 only.",
     "Valid random schemas are damaged by mutations of tokens, lines and trees (lib/zfuzz.py), compiled in one JVM with all generators, "
     "and exit, stack traces and error positions are judged; the valid ones are laid out anew and reordered, and output is compared.")

prop("C27", "The compiler accepts exactly the schemas which follow the language rules",
     "A schema which breaks one of the documented rules of the language (types, ranges, ordering, scopes, visibility, "
     "templates, parameters, imports, choices, unions, offsets, arrays, expressions, SQL tables, services, pubsub) is refused "
     "with an error message which names the offending place, never accepted silently and never answered by an internal error "
     "or exception; the same schema without the offence is accepted.",
     ["programs"], "all schema texts",
     "The compiler's error tests are not part of the stable tests and fix one example per message.",
     [CORE + "ast/*.java", CORE + "tools/*.java"],
     [("checks of AST nodes", CORE + "ast/ZserioAstChecker.java"), ("scopes", CORE + "ast/ZserioAstImporter.java"),
      ("types", CORE + "ast/ZserioAstTypeResolver.java")],
     "monitor of exit codes, error positions and warnings of the real compiler over twins of legal and illegal schemas",
     "Only the rules of the corpus are judged. Trusted: the corpus (lib/zillegal.py), written from the documentation.",
     "About 600 twin schemas, one rule each, in several contexts (the offending line marked) are run through the compiler in "
     "one JVM (drivers/Zs.java): the illegal one must be refused with the error at the marked line, the legal one accepted; "
     "any internal error is a violation.")

prop("S21", "Services deliver each request to its method and each response to its caller",
     "For every service, method, request and response, a call through a generated client reaches exactly the method of the "
     "service with that name once, with an equal request and the same context, and the client gets a response which equals "
     "what the method returned, also when client and service are of different languages; requests and responses cross the "
     "client interface as the documented encoding of their object or, for bytes methods, as the very bytes. Unknown method "
     "names are refused with an error of the service runtime, errors of a method reach the caller, and the names reported by "
     "a service are the documented full names in schema order.",
     ["inputs", "histories"], "all services of valid schemas, all requests, responses, contexts and orders of calls",
     "Unit tests call fixed methods of fixed services within one language.",
     ["compiler/core/src/zserio/ast/ServiceType.java", "compiler/core/src/zserio/ast/ServiceMethod.java",
      CPP_T + "Service.*.ftl", JAVA_T + "Service.java.ftl", PY_T + "Service.py.ftl",
      "compiler/extensions/*/src/zserio/extension/*/Service*.java", CPP_R + "IService.h",
      JAVA_R + "service/*.java", PY_R + "service.py"],
     [("service data C++", CPP_R + "IService.h"), ("service data Java", JAVA_R + "service/ObjectServiceData.java"),
      ("service Python", PY_R + "service.py")],
     "offline checker over recorded call logs of generated clients and services of three languages against an independent model",
     "Random services over random schemas. Trusted: model, drivers (drivers/rpcdrv.py, Rpc.java, rpc.hpp). The transport is "
     "a recording stand-in, not a network.",
     "Generated clients and services of the three languages run in driver processes with a recording transport; each call's "
     "log (method names seen, request bytes, context, response bytes, errors) is compared with the prediction of the model, "
     "also for unknown names, failing methods, corrupt requests and responses of another language.")

prop("S22", "Pubsubs deliver messages of their topics unchanged to the right callbacks",
     "For every Pub/Sub definition and every history of subscribing, publishing and unsubscribing, a generated publisher "
     "hands each message to the Pub/Sub client under exactly the topic of its definition, as the documented encoding and with "
     "the given context, and a generated subscriber calls each callback subscribed to a topic exactly once per delivered "
     "message with that topic and an equal message, never another callback and never after it was unsubscribed. Deliveries "
     "under a wrong topic are refused with an error of the Pub/Sub runtime; definitions with only publish or only subscribe "
     "have only the methods of their direction.",
     ["histories", "inputs"], "all Pub/Sub definitions of valid schemas, all histories of operations and messages",
     "Unit tests use fixed definitions within one language and short histories.",
     ["compiler/core/src/zserio/ast/PubsubType.java", "compiler/core/src/zserio/ast/PubsubMessage.java",
      CPP_T + "Pubsub.*.ftl", JAVA_T + "Pubsub.java.ftl", PY_T + "Pubsub.py.ftl",
      "compiler/extensions/*/src/zserio/extension/*/Pubsub*.java", CPP_R + "IPubsub.h", CPP_R + "PubsubException.h",
      JAVA_R + "pubsub/*.java", PY_R + "pubsub.py", CORE + "extension/common/StringEscapeConverter.java"],
     [("interface C++", CPP_R + "IPubsub.h"), ("interface Java", JAVA_R + "pubsub/PubsubInterface.java"),
      ("interface Python", PY_R + "pubsub.py")],
     "offline checker over recorded histories of generated Pub/Sub classes of three languages against an independent model",
     "Random definitions and histories. Trusted: model and drivers; the Pub/Sub client is a recording stand-in.",
     "Random histories of subscribe, publish, deliver and unsubscribe run against generated classes of the three languages; "
     "the recorded events (topic, bytes, context, callback, decoded message, errors) are compared event by event.")

prop("S23", "SQL tables store and return rows unchanged and validation finds all errors",
     "For every SQL database of a schema and every history of creating, deleting, writing, reading and updating, with and "
     "without a list of columns, with conditions, relocated or attached tables and WITHOUT ROWID or virtual tables, the database "
     "files have the tables, columns and constraints of the schema and the rows which were written, blobs as the documented "
     "encoding, and each read returns exactly the selected rows with values equal to the written ones and null for the columns "
     "which were not asked for. Failures of SQLite and unknown column names are reported as errors and leave nothing of the "
     "failed operation in the database. Validation reports no error for such a database, and for one which does not match its "
     "schema exactly the wrong columns, types, constraints, values and blobs with their row keys, as far as the observer asks "
     "for them.",
     ["histories", "inputs"], "all SQL databases of valid schemas, all histories of operations and rows, single deviations per row and column",
     "Unit tests use fixed tables with a few rows within one language.",
     ["compiler/core/src/zserio/ast/SqlTableType.java", "compiler/core/src/zserio/ast/SqlConstraint.java",
      "compiler/core/src/zserio/ast/SqlDatabaseType.java", CPP_T + "Sql*.ftl", JAVA_T + "Sql*.ftl", PY_T + "Sql*.ftl",
      "compiler/extensions/*/src/zserio/extension/*/Sql*.java", CPP_R + "SqliteConnection.*", CPP_R + "ValidationSqliteUtil.h",
      JAVA_R + "SqlDatabase*.java", JAVA_R + "validation/*.java"],
     [("SQL utilities C++", CPP_R + "SqliteConnection.h"), ("validation C++", CPP_R + "ValidationSqliteUtil.h"),
      ("validation Java", JAVA_R + "validation/ValidationSqliteUtil.java")],
     "offline checker over recorded sessions and the database files of generated classes of three languages against a model kept in SQLite",
     "Random tables and sessions. Java runs over a stand-in of the JDBC driver (none is installed) which forwards statements to "
     "SQLite. Trusted: SQLite, the model, the drivers. Validation is generated for C++ and Java only.",
     "Random sessions run against the generated database classes; the harness executes its own SQL for the same operations in "
     "an in-memory SQLite and compares every result, and after each session the files: schema of tables, indices, stored types "
     "and rows. Databases with planted deviations (cells, blobs, columns, constraints) are validated and the report is compared.")

prop("T20", "Type information and reflection describe the schema and every object exactly",
     "For every valid schema the type information of each generated type lists exactly its fields, parameters, functions, cases, "
     "items, columns, tables, messages and methods in their order with the schema names, types, template arguments and attributes "
     "(optional, extended, packed, implicit, constraint, alignment, offset, initializer) of the schema, and the expressions which it "
     "holds give for every object the values which the object itself uses. Reflection of a C++ object gives for every field, element, "
     "parameter and function, by name, by path and by index, the value of the object with the described type, conversions agree with "
     "the value, names and indices which do not exist are errors, and what is set through it is what the object then writes.",
     ["inputs"], "all types of valid schemas, all values of their objects",
     "Unit tests compare the type information of a few fixed types.",
     [CPP_R + "TypeInfo.*", CPP_R + "ITypeInfo.h", CPP_R + "TypeInfoUtil.*", CPP_R + "Reflectable.*", CPP_R + "ReflectableUtil.h",
      JAVA_R + "typeinfo/*.java", PY_R + "typeinfo.py", CPP_T + "TypeInfo.inc.ftl", CPP_T + "Reflectable.inc.ftl",
      JAVA_T + "TypeInfo.inc.ftl", PY_T + "TypeInfo.inc.ftl"],
     [("type info C++", CPP_R + "TypeInfo.h"), ("reflection C++", CPP_R + "Reflectable.h"),
      ("type info Java", JAVA_R + "typeinfo/TypeInfo.java"), ("type info Python", PY_R + "typeinfo.py")],
     "online monitor walking type information and reflection of executed generated code, compared with the schema model",
     "Random and systematic schemas with random objects. Trusted: model and drivers. C++ type information holds expressions as texts "
     "of C++ code, which are only checked to be there.",
     "All type descriptions reachable from every root type are printed by all three runtimes and compared with a description made from "
     "the model; the lambdas of Java and Python are evaluated on random objects and compared with the model; C++ reflection dumps the "
     "objects, looks up every path, calls the functions, sets and appends values and writes the result, which must be the model's bits.")


prop("T19", "Walkers visit what filters let pass, tree creators build what they are told",
     "For every object and every walk filter (depth, array length, regular expression of paths, user defined ones and compositions of "
     "them) the walker calls the observer and the filters exactly for the root, arrays, compounds and values which the filter lets "
     "pass, in schema order, with the right field, element index and value, and continues with siblings as the filter says, in all "
     "languages.  The tree creator builds from a sequence of calls exactly the described object and refuses every call which is not "
     "allowed in its state, for unknown or unfitting fields and for values of a wrong type with an error which changes nothing.",
     ["inputs", "histories"], "all objects of valid schemas, all filters and compositions, all sequences of tree creator calls",
     "Unit tests walk one dummy object with a few filters and create one dummy tree.",
     [CPP_R + "Walker.h", CPP_R + "ZserioTreeCreator.*", CPP_R + "Reflectable.h", JAVA_R + "walker/*.java",
      JAVA_R + "creator/ZserioTreeCreator.java", PY_R + "walker.py", PY_R + "creator.py"],
     [("walker C++", CPP_R + "Walker.h"), ("walker Java", JAVA_R + "walker/Walker.java"), ("walker Python", PY_R + "walker.py"),
      ("tree creator C++", CPP_R + "ZserioTreeCreator.h"), ("tree creator Java", JAVA_R + "creator/ZserioTreeCreator.java"),
      ("tree creator Python", PY_R + "creator.py")],
     "offline checker over logs of observer and filter calls and of creator histories of three runtimes against a model, ASan/UBSan",
     "Random objects, filters and histories. Regular expressions are anchored at the end because Python accepts a prefix; absent "
     "extended fields are not walked. Trusted: model and drivers.",
     "Random objects are walked with random filters (user defined filters stop at random calls and log them); the complete log is "
     "compared with the walk of the model. Scripts of tree creator calls which build a random object, with misplaced calls in between, "
     "run in all runtimes: each call's result and the bits of the object must be the predicted ones.")


prop("E14", "C++ objects are values under copies, moves, failures and allocators",
     "Generated C++ objects and the holders of the runtime are values: whatever history of constructions, copies, moves, assignments "
     "(also to themselves), swaps and destructions they go through, each holds exactly the value it was given, independent of all "
     "others, compares, hashes and writes as that value, and every object and block of memory is freed once.  With polymorphic "
     "allocators all memory of an object comes from the allocator it was created with or which was propagated to it, none from the "
     "default one, and an operation which fails because memory runs out or a copy throws leaks nothing and damages no other object.",
     ["inputs", "histories", "fault_sequences"], "all histories of operations on objects of valid schemas and on the holders",
     "Unit tests copy a few objects of a few types once.",
     [CPP_T + "CompoundConstructor.inc.ftl", CPP_T + "Union.cpp.ftl", CPP_R + "AnyHolder.h", CPP_R + "OptionalHolder.h",
      CPP_R + "AllocatorPropagatingCopy.h", CPP_R + "UniquePtr.h", CPP_R + "Array.h", CPP_R + "pmr/*.h"],
     [("copies of generated objects", CPP_T + "CompoundConstructor.inc.ftl"), ("any holder", CPP_R + "AnyHolder.h"),
      ("optional holders", CPP_R + "OptionalHolder.h"), ("propagation of allocators", CPP_R + "AllocatorPropagatingCopy.h")],
     "online monitor of object lifetimes, values and allocations along random histories with injected faults, ASan/UBSan/LSan",
     "Random histories on random schemas with both allocators. Objects moved from are only assigned to or destroyed. Trusted: drivers.",
     "Histories on five slots: after each operation every slot must have the text, hash, bits and comparisons of its value and the "
     "memory counted per allocator must belong to a living object; the default allocator aborts; chosen allocations are refused. "
     "The holders run longer histories with objects which register their addresses, throwing copies and refused allocations against "
     "a model; string views are compared with std::string on buffers without a terminating zero.")

prop("O29", "Options of the generators select API, never what data is read and written",
     "Whatever combination of options code is generated with (writer, setters, range check, type info, reflection, validation, "
     "parsing information, comments and amalgamation options, C++ allocators, top level package), it compiles and reads, writes, "
     "measures, compares and computes every valid value identically, in all languages.  With parsing information every compound read "
     "from a stream knows the exact bit position where it was and the number of its bits.",
     ["inputs", "programs", "configurations"], "all combinations of generator options, valid schemas and values",
     "The test suite uses one fixed option set per test schema.",
     ["compiler/core/src/zserio/tools/CommandLineArguments.java", CPP_T + "*.ftl", "compiler/extensions/java/freemarker/*.ftl",
      "compiler/extensions/python/freemarker/*.ftl", CPP_R + "ParsingInfo.h"],
     [("options", "compiler/core/src/zserio/tools/CommandLineArguments.java"), ("parsing information", CPP_R + "ParsingInfo.h")],
     "online comparison of the same workload under several option sets with a reference model, ASan/UBSan",
     "Six sets of options, chosen so that all options of the code generators occur, not all combinations. Trusted: the model.",
     "The same random schemas are generated under all sets of options; every value is decoded and built in all languages and state, "
     "consumed bits, sizes, bits, texts, equality flags and results of functions must be those of the model and of the default set; "
     "positions and sizes of parsing information of all nested compounds are compared with the layout of the model, also in copies.")

prop("M31", "Generated code and runtimes share nothing between threads behind the user's back",
     "Different objects may be read, built, written, hashed, walked and described by different threads at the same time, and one "
     "object may be used by several threads which only look at it (sizes, comparison, hash, writing, copying, walking, type "
     "information), with results which are those of a single thread and without data races.  This includes what is initialized on "
     "first use.",
     ["schedules", "inputs"], "all schedules of threads on independent or only observed objects",
     "No unit test runs two threads.",
     [CPP_R + "*.h", CPP_T + "*.ftl", "compiler/extensions/java/runtime/src/zserio/runtime/**",
      "compiler/extensions/python/runtime/src/zserio/*.py"],
     [("static type information", CPP_R + "TypeInfo.h"), ("C++ streams", CPP_R + "BitStreamReader.h"),
      ("Java streams", "compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java")],
     "ThreadSanitizer on generated C++ code in concurrent stress workloads; online comparison of results of threads with a model",
     "Schedules of the OS on 8 cores; data races in Java and Python are seen only through results. Trusted: TSan, the model.",
     "Batches of decode, build, JSON, function and type information commands run by 4 to 8 threads which start at once in a new "
     "process, each in its own order; all results must be those of the model, of the other threads and of a single thread; "
     "read-only operations on one shared object run in all threads; Python switches threads every microsecond.")

prop("F33", "Utilities carry values through buffers, bytes and files, and report failures",
     "Every value serialized by the utilities to a bit buffer, bytes, a file or a JSON file has exactly the documented bits (a file "
     "or byte array the bits rounded up to bytes, whatever the file contained before) and is read back equal, also with any limit of "
     "preallocated arrays.  Whatever can't be opened, read or written completely (missing files, directories, full devices) is "
     "reported by an exception, never silently lost.",
     ["inputs", "fault_sequences"], "all values of valid schemas, all failures of files",
     "Unit tests write one small file to a working disk.",
     [CPP_R + "SerializeUtil.h", CPP_R + "FileUtil.cpp", CPP_R + "DebugStringUtil.h",
      "compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java",
      "compiler/extensions/java/runtime/src/zserio/runtime/DebugStringUtil.java",
      "compiler/extensions/python/runtime/src/zserio/serialization.py"],
     [("C++ utilities", CPP_R + "SerializeUtil.h"), ("C++ files", CPP_R + "FileUtil.cpp"),
      ("Java utilities", "compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java"),
      ("Python utilities", "compiler/extensions/python/runtime/src/zserio/serialization.py")],
     "online comparison of the utilities with a reference model on random values and faulty files, ASan/UBSan",
     "Full devices are /dev/full, so short writes in the middle of a file are not simulated. Trusted: the model.",
     "Every value goes through all utilities of all languages in a scratch directory over files with other contents; bits must be "
     "those of the model and objects read back must be equal with the same text; then every utility is pointed at missing "
     "directories, directories and /dev/full and must raise.")

prop("C24", "Compiler output depends on schema and options only, also in incremental runs",
     "Generated code, documentation and XML are a function of the schema and the options: the same byte for byte in another process, "
     "directory or place of the sources.  A run over older output (after changes of sources or options, deleted, touched or aged "
     "files) leaves the same files as a run into an empty directory, although it keeps files which are up to date.",
     ["histories", "configurations"], "all histories of complete compiler runs over the same output directory",
     "Unit tests generate into a directory once; iteration order and kept stale files show only in sequences of runs.",
     ["compiler/core/src/zserio/tools/*.java", "compiler/extensions/cpp/src/**",
      "compiler/extensions/java/src/**", "compiler/extensions/python/src/**", "compiler/extensions/doc/**", "compiler/extensions/xml/**"],
     [("incremental runs", "compiler/core/src/zserio/tools/ZserioTool.java"),
      ("output management", "compiler/core/src/zserio/extension/common/OutputFileManager.java")],
     "differential monitoring: offline comparison of output directories of random histories with those of fresh runs",
     "Runs which are killed in the middle of a file are not explored (the compiler writes in place). Trusted: the file system's times.",
     "Random schemas with databases, services and pubsubs are compiled twice in different places, then through histories of 7 steps "
     "(source changes, options, deleted, touched, aged files); after each step the directory is compared byte for byte with a fresh one.")

prop("D30", "Documentation, XML and code comments show the schema as it is",
     "The generated documentation shows every declaration so that the shown text compiled again yields the same XML and the same code; "
     "its pages are well formed, all links lead somewhere, lists of users and diagrams agree with what the code refers to.  Comments "
     "of the schema with any text are shown where they belong, and in generated code they are nothing but comments.",
     ["programs", "inputs"], "all valid schemas with all texts of comments",
     "The documentation is tested for a few hand written schemas by looking at it; no stable test runs it.",
     ["compiler/extensions/doc/**", "compiler/extensions/xml/**", "compiler/core/src/zserio/ast/DocComment*.java",
      "compiler/extensions/*/src/zserio/extension/*/DocComments*.java"],
     [("documentation", "compiler/extensions/doc/src/zserio/extension/doc/PackageEmitter.java"),
      ("users", "compiler/extensions/doc/src/zserio/extension/doc/UsedByCollector.java"),
      ("comments", "compiler/core/src/zserio/ast/DocCommentManager.java"),
      ("XML", "compiler/extensions/xml/src/zserio/extension/xml/XmlAstWriter.java")],
     "round trip monitoring: the schema read back from its documentation is compiled and compared; offline checkers of pages",
     "Rules and svg rendering by dot are not covered. Markdown comments contain plain words only. Trusted: html.parser of Python.",
     "Random schemas with databases, services and pubsubs are documented, pages are parsed and checked (balance, anchors, links, users, "
     "diagrams), their code sections are compiled again and XML and code compared; random comments with quotes, backslashes, markup "
     "and tags are put before declarations and members and must be shown there and must not change code in any language.")
