"""Catalogue of language rules as pairs of schemas: {{legal||illegal}} marks where the twins differ.

The error is expected on a line of an illegal alternative or on a line with the mark /*!*/ (which is removed). Cases are
written from doc/ZserioLanguageOverview.md. A dictionary holds several packages, its first one is the root.
"""
CASES = []


def case(name, text, **kw):
    CASES.append((name, text, kw))


# ---------------------------------------------------------------- built-in types
for t, ok, bad in (("bit", 1, 0), ("bit", 64, 65), ("int", 1, 0), ("int", 64, 65), ("bit", 33, 100), ("int", 7, 128)):
    case("fixed %s:%d" % (t, bad), "struct A\n{\n    {{%s:%d||%s:%d}} x;\n};" % (t, ok, t, bad))
case("bit without length", "struct A\n{\n    {{bit:3||bit}} x;\n};")
case("int without length", "struct A\n{\n    {{int:3||int}} x;\n};")
case("bool with length", "struct A\n{\n    {{bool||bool:3}} x;\n};")
case("dynamic length type", "struct A\n{\n    uint8 n;\n    bool b;\n    bit<{{n||b}}> x;\n};")
case("dynamic length string", "struct A\n{\n    uint8 n;\n    string s;\n    bit<{{n||s}}> x;\n};")
case("dynamic length float", "struct A\n{\n    uint8 n;\n    float32 f;\n    int<{{n||f}}> x;\n};")
case("dynamic length constant 0", "const uint8 N = {{1||0}};\nstruct A\n{\n    bit</*!*/N> x;\n};")
case("dynamic length constant 65", "const uint8 N = {{64||65}};\nstruct A\n{\n    bit</*!*/N> x;\n};")
case("dynamic length literal", "struct A\n{\n    bit<{{64||65}}> x;\n};")
for v in ("4294967297", "0x100000000000000008", "-3"):
    case("dynamic length %s" % v, "struct A\n{\n    bit<{{8||%s}}> x;\n};" % v)
case("dynamic length never positive", "struct A\n{\n    int8 n;\n    bit<{{n - 126||n - 127}}> x;\n};")
case("dynamic length never positive in array", "struct A\n{\n    uint8 n;\n    int<{{0 - n + 9||0 - n}}> x[];\n};")
case("dynamic length unknown", "struct A\n{\n    uint8 n;\n    bit<{{n||m}}> x;\n};")
case("dynamic length of a later field", "struct A\n{\n    uint8 n;\n    bit<{{n||m}}> x;\n    uint8 m;\n};")
case("dynamic length itself", "struct A\n{\n    uint8 n;\n    bit<{{n||x}}> x;\n};")
case("length of no dynamic type", "struct A\n{\n    {{bit<3>||uint8<3>}} x;\n};", any_line=True)
case("unknown type", "struct A\n{\n    {{uint8||Unknown}} x;\n};")
case("unknown type of parameter", "struct A({{uint8||Unknown}} p)\n{\n    uint8 x;\n};")
case("unknown type in subtype", "subtype {{uint8||Unknown}} S;")
case("unknown type of function", "struct A\n{\n    uint8 x;\n    function {{uint8||Unknown}} f()\n    {\n        return x;\n    }\n};")
case("unknown type of constant", "const {{uint8||Unknown}} C = 1;")
case("constant as type", "const uint8 C = 1;\nstruct A\n{\n    {{uint8||C}} x;\n};")
case("unknown qualified type", "struct B\n{\n    uint8 y;\n};\nstruct A\n{\n    {{p||q}}.B x;\n};")

# ---------------------------------------------------------------- constants and literals
case("constant out of range", "const uint8 C = {{255||256}};")
case("constant negative", "const uint8 C = {{0||-1}};")
case("constant int8 high", "const int8 C = {{127||128}};")
case("constant int8 low", "const int8 C = {{-128||-129}};")
case("constant bit:3", "const bit:3 C = {{7||8}};")
case("constant int:3", "const int:3 C = {{-4||-5}};")
case("constant uint16 hex", "const uint16 C = {{0xFFFF||0x10000}};")
case("constant int16 hex", "const int16 C = {{0x7FFF||0x8000}};")
case("constant uint32", "const uint32 C = {{4294967295||4294967296}};")
case("constant int32", "const int32 C = {{-2147483648||-2147483649}};")
case("constant uint64", "const uint64 C = {{18446744073709551615||18446744073709551616}};")
case("constant int64", "const int64 C = {{-9223372036854775808||-9223372036854775809}};")
case("constant varint16", "const varint16 C = {{16383||16384}};")
case("constant varuint16", "const varuint16 C = {{32767||32768}};")
case("constant varint32", "const varint32 C = {{-268435455||-268435456}};")
case("constant varuint32", "const varuint32 C = {{536870911||536870912}};")
case("constant varint64", "const varint64 C = {{72057594037927935||72057594037927936}};")
case("constant varuint64", "const varuint64 C = {{144115188075855871||144115188075855872}};")
case("constant varuint", "const varuint C = {{18446744073709551615||18446744073709551616}};")
case("constant varint", "const varint C = {{-9223372036854775808||-9223372036854775809}};")
case("constant varsize", "const varsize C = {{2147483647||2147483648}};")
case("constant expression range", "const uint8 C = {{100 + 155||200 + 56}};")
case("constant bool", "const bool C = {{true||1}};")
case("constant integer of bool", "const uint8 C = {{1||true}};")
case("constant integer of float", "const uint8 C = {{1||1.0}};")
case("constant integer of string", "const uint8 C = {{1||\"1\"}};")
case("constant string", "const string C = {{\"a\"||5}};")
case("constant float of string", "const float32 C = {{1.5f||\"1.5\"}};")
case("constant float of bool", "const float64 C = {{1.5||true}};")
case("constant of struct", "struct A\n{\n    uint8 x;\n};\nsubtype uint8 S;\nconst {{S||A}} C = 1;", first="C = 1")
case("constant of choice", "choice A(uint8 s) on s\n{\n    case 1: uint8 x;\n};\nconst {{uint8||A}} C = 1;")
case("constant of subtyped struct", "struct A\n{\n    uint8 x;\n};\nsubtype {{uint8||A}} S;\n/*!*/const S C = 1;")
case("constant of enum", "enum uint8 E\n{\n    A,\n    B\n};\nconst E C = {{E.A||1}};")
case("constant of wrong enum", "enum uint8 E\n{\n    A\n};\nenum uint8 F\n{\n    A\n};\nconst E C = {{E||F}}.A;")
case("constant of wrong bitmask", "bitmask uint8 E\n{\n    A\n};\nbitmask uint8 F\n{\n    A\n};\nconst E C = {{E||F}}.A;")
case("cyclic constants", "/*!*/const uint8 A = {{1||B}} + 1;\n/*!*/const uint8 B = A + 1;")
case("cyclic constant itself", "const uint8 A = {{1||A}} + 1;")
case("cycle of three constants", "/*!*/const uint8 A = {{1||C}} + 1;\n/*!*/const uint8 B = A + 1;\n/*!*/const uint8 C = B + 1;")
case("cycle of constant and enum", "/*!*/const uint8 A = {{1||valueof(E.X)}};\nenum uint8 E\n{\n/*!*/    X = A\n};")
case("cycle of constant and bitmask", "/*!*/const uint8 A = {{1||valueof(E.X)}};\nbitmask uint8 E\n{\n/*!*/    X = A\n};")
case("constant unknown symbol", "const uint8 D = 1;\nconst uint8 C = {{D||X}} + 1;")
case("constant of field", "struct A\n{\n    uint8 x;\n};\nconst uint8 D = 1;\nconst uint8 C = {{D||x}};")
case("literal octal", "const uint32 C = {{0127||0128}};")
case("literal hexadecimal", "const uint32 C = {{0x1F||0x1G}};")
case("literal binary", "const uint32 C = {{101b||102b}};")
case("string unterminated", "const string C = {{\"abc\"||\"abc}};", any_line=True)
case("string over lines", "const string C = {{\"ab\"||\"a\nb\"}};", any_line=True)
case("string hex escape", "const string C = \"{{\\x41||\\xZ1}}\";", any_line=True)
case("string unicode escape", "const string C = \"{{\\u0041||\\u00Z1}}\";", any_line=True)
case("string unknown escape", "const string C = \"{{\\n||\\q}}\";", any_line=True)

# ---------------------------------------------------------------- enums and bitmasks
for t in ("bool", "string", "float16", "float64", "extern", "bytes"):
    case("enum of %s" % t, "enum {{uint8||%s}} E\n{\n    A,\n    B\n};" % t, any_line=True)
    case("bitmask of %s" % t, "bitmask {{uint8||%s}} E\n{\n    A,\n    B\n};" % t, any_line=True)
for t in ("int8", "int32", "int:5", "varint", "varint32"):
    case("bitmask of signed %s" % t, "bitmask {{uint16||%s}} E\n{\n    A,\n    B\n};" % t)
case("enum of subtyped string", "subtype {{uint8||string}} S;\n/*!*/enum S E\n{\n    A\n};")
case("enum duplicated value", "enum uint8 E\n{\n    A = 1,\n    B = {{2||1}}\n};")
case("enum duplicated implicit value", "enum uint8 E\n{\n    A = 2,\n    B = 1,\n/*!*/    C{{ = 3||}}\n};")
case("enum duplicated item", "enum uint8 E\n{\n    A,\n    {{B||A}}\n};")
case("enum item out of range", "enum uint8 E\n{\n    A = {{255||256}}\n};")
case("enum item negative", "enum uint8 E\n{\n    A = {{1||-1}}\n};")
case("enum implicit item out of range", "enum uint8 E\n{\n    A = {{254||255}},\n/*!*/    B\n};")
case("enum int8 high", "enum int8 E\n{\n    A = {{127||128}}\n};")
case("enum int8 low", "enum int8 E\n{\n    A = {{-128||-129}}\n};")
case("enum bit:3", "enum bit:3 E\n{\n    A = {{7||8}}\n};")
case("enum bit:3 implicit", "enum bit:3 E\n{\n    A,\n    B = {{6||7}},\n/*!*/    C\n};")
case("enum varuint16", "enum varuint16 E\n{\n    A = {{32767||32768}}\n};")
case("enum uint64", "enum uint64 E\n{\n    A = {{18446744073709551615||18446744073709551616}}\n};")
case("enum item bool", "enum uint8 E\n{\n    A = {{1||true}}\n};")
case("enum item string", "enum uint8 E\n{\n    A = {{1||\"1\"}}\n};")
case("enum item of other enum", "enum uint8 F\n{\n    X\n};\nenum uint8 E\n{\n    A = {{valueof(F.X)||F.X}}\n};")
case("enum unknown item", "enum uint8 F\n{\n    X\n};\nenum uint8 E\n{\n    A = valueof(F.{{X||Y}})\n};")
case("enum cyclic", "enum uint8 E\n{\n/*!*/    A = {{1||valueof(E.B)}},\n/*!*/    B = {{2||valueof(E.A) + 1}}\n};")
case("bitmask duplicated value", "bitmask uint8 E\n{\n    A = 1,\n    B = {{2||1}}\n};")
case("bitmask duplicated name", "bitmask uint8 E\n{\n    A,\n    {{B||A}}\n};")
case("bitmask value out of range", "bitmask uint8 E\n{\n    A = {{128||256}}\n};")
case("bitmask implicit value out of range", "bitmask uint8 E\n{\n    A = {{64||128}},\n/*!*/    B\n};")
case("bitmask negative value", "bitmask uint8 E\n{\n    A = {{1||-1}}\n};")
case("bitmask bit:5", "bitmask bit:5 E\n{\n    A = {{31||32}}\n};")
case("bitmask value string", "bitmask uint8 E\n{\n    A = {{1||\"a\"}}\n};")
case("bitmask value float", "bitmask uint8 E\n{\n    A = {{1||1.0}}\n};")
case("bitmask cyclic", "bitmask uint8 E\n{\n/*!*/    A = {{1||valueof(E.B)}},\n/*!*/    B = {{2||valueof(E.A) * 2}}\n};")
case("unknown enum item", "enum uint8 E\n{\n    A\n};\nstruct S\n{\n    E e;\n    uint8 x if e == E.{{A||B}};\n};")
case("unknown bitmask value", "bitmask uint8 E\n{\n    A\n};\nstruct S\n{\n    E e;\n    uint8 x if isset(e, E.{{A||B}});\n};")

# ---------------------------------------------------------------- structures
case("field names clash", "struct A\n{\n    uint8 x;\n    uint8 {{y||x}};\n};")
case("field and parameter clash", "struct A(uint8 p)\n{\n    uint8 {{x||p}};\n};")
case("parameters clash", "struct A(uint8 p, uint8 {{q||p}})\n{\n    uint8 x;\n};")
case("functions clash", "struct A\n{\n    uint8 x;\n    function uint8 f()\n    {\n        return x;\n    }\n"
     "    function uint8 {{g||f}}()\n    {\n        return x;\n    }\n};")
case("function and field clash", "struct A\n{\n    uint8 x;\n    function uint8 {{g||x}}()\n    {\n        return 1;\n    }\n};")
case("recursion", "struct A\n{\n    uint8 n;\n    A a{{ if n > 0||}};\n};", ok_line="A a")
case("recursion in optional", "struct A\n{\n    uint8 n;\n    {{optional ||}}A a;\n};")
case("recursion in fixed array", "struct A\n{\n    uint8 n;\n    A a[{{||3}}];\n};")
case("indirect recursion", "struct A\n{\n    uint8 n;\n/*!*/    B b;\n};\nstruct B\n{\n/*!*/    {{uint8||A}} a;\n};", any_line=True)
case("optional with if", "struct A\n{\n    uint8 n;\n    {{optional uint8 x||optional uint8 x if n > 0}};\n};")
case("optional expression type", "struct A\n{\n    uint8 n;\n    uint8 x if {{n > 0||n + 1}};\n};")
case("optional expression string", "struct A\n{\n    string n;\n    bool b;\n    uint8 x if {{b||n}};\n};")
case("optional expression later field", "struct A\n{\n    uint8 n;\n    uint8 x if {{n||m}} > 0;\n    uint8 m;\n};")
case("optional expression itself", "struct A\n{\n    uint8 n;\n    uint8 x if {{n||x}} > 0;\n};")
case("constraint type", "struct A\n{\n    uint8 x : {{x > 0||x + 1}};\n};")
case("constraint later field", "struct A\n{\n    uint8 n;\n    uint8 x : x > {{n||m}};\n    uint8 m;\n};")
case("constraint of choice field", "choice A(uint8 s) on s\n{\n    case 1:\n        uint8 x : {{x||z}} > 0;\n};")
case("constraint of union field", "union A\n{\n    uint8 x : {{x||z}} > 0;\n    uint8 y;\n};")
case("constraint of other union field", "union A\n{\n    uint8 y;\n    uint8 x : {{x||z}} > 0;\n    uint8 z;\n};")
case("alignment negative", "struct A\n{\n    align({{8||-8}}):\n    uint8 x;\n};")
case("alignment bool", "struct A\n{\n    align({{8||true}}):\n    uint8 x;\n};")
case("alignment string", "struct A\n{\n    align({{8||\"8\"}}):\n    uint8 x;\n};")
case("alignment field", "const uint8 K = 8;\nstruct A\n{\n    uint8 n;\n    align({{K||n}}):\n    uint8 x;\n};")
case("alignment too big", "struct A\n{\n    align({{2147483647||2147483648}}):\n    uint8 x;\n};")
case("initializer type bool", "struct A\n{\n    bool x = {{true||1}};\n};")
case("initializer type integer", "struct A\n{\n    uint8 x = {{1||true}};\n};")
case("initializer type string", "struct A\n{\n    string x = {{\"a\"||1}};\n};")
case("initializer type float", "struct A\n{\n    float32 x = {{1.0f||\"a\"}};\n};")
case("initializer range", "struct A\n{\n    uint8 x = {{255||256}};\n};")
case("initializer range bit", "struct A\n{\n    bit:4 x = {{15||16}};\n};")
case("initializer range int", "struct A\n{\n    int:4 x = {{-8||-9}};\n};")
case("initializer range varuint16", "struct A\n{\n    varuint16 x = {{32767||32768}};\n};")
case("initializer field", "const uint8 K = 1;\nstruct A\n{\n    uint8 n;\n    uint8 x = {{K||n}};\n};")
case("initializer of enum", "enum uint8 E\n{\n    A\n};\nstruct S\n{\n    E e = {{E.A||0}};\n};")
case("initializer of wrong enum", "enum uint8 E\n{\n    A\n};\nenum uint8 F\n{\n    A\n};\nstruct S\n{\n    E e = {{E||F}}.A;\n};")
case("initializer of bitmask", "bitmask uint8 E\n{\n    A\n};\nstruct S\n{\n    E e = {{E.A||1}};\n};")
case("extended not last", "struct A\n{\n    uint8 x;\n    extend uint8 y;\n    {{extend ||}}uint8 z;\n};")
case("extended not top level", "struct B\n{\n    uint8 x;\n/*!*/    {{||extend }}uint8 y;\n};\nstruct A\n{\n/*!*/    B b;\n};")
case("extended in array", "struct B\n{\n    uint8 x;\n/*!*/    {{||extend }}uint8 y;\n};\nstruct A\n{\n/*!*/    B b[];\n};")
case("extended in choice", "struct B\n{\n    uint8 x;\n/*!*/    {{||extend }}uint8 y;\n};\nchoice A(uint8 s) on s\n{\n    case 1:\n/*!*/        B b;\n};")
case("extended in union", "struct B\n{\n    uint8 x;\n/*!*/    {{||extend }}uint8 y;\n};\nunion A\n{\n/*!*/    B b;\n    uint8 c;\n};")
case("extended deep", "struct C\n{\n    uint8 x;\n/*!*/    {{||extend }}uint8 y;\n};\nstruct B\n{\n/*!*/    C c;\n};\nstruct A\n{\n/*!*/    B b;\n};")
case("extended nested in template", "struct B\n{\n    uint8 x;\n/*!*/    {{||extend }}uint8 y;\n};\nstruct T<X>\n{\n/*!*/    X x;\n};\nstruct A\n{\n/*!*/    T<B> t;\n};")
case("extended by subtype", "struct B\n{\n    uint8 x;\n/*!*/    {{||extend }}uint8 y;\n};\nsubtype B S;\nstruct A\n{\n/*!*/    S b;\n};")
case("extended choice field", "choice A(uint8 s) on s\n{\n    case 1:\n        {{||extend }}uint8 x;\n};")
case("extended union field", "union A\n{\n    {{||extend }}uint8 x;\n    uint8 y;\n};")
case("optional union field", "union A\n{\n    {{||optional }}uint8 x;\n    uint8 y;\n};")
case("optional choice field", "choice A(uint8 s) on s\n{\n    case 1:\n        {{||optional }}uint8 x;\n};")
case("union field if", "union A\n{\n    uint8 x{{|| if true}};\n    uint8 y;\n};")

# ---------------------------------------------------------------- arrays
case("array length type", "struct A\n{\n    uint8 n;\n    bool b;\n    uint8 x[{{n||b}}];\n};")
case("array length string", "struct A\n{\n    uint8 n;\n    string b;\n    uint8 x[{{n||b}}];\n};")
case("array length float", "struct A\n{\n    uint8 n;\n    float16 b;\n    uint8 x[{{n||b}}];\n};")
case("array length enum", "enum uint8 E\n{\n    A\n};\nstruct S\n{\n    E e;\n    uint8 x[{{valueof(e)||e}}];\n};")
case("array length later field", "struct A\n{\n    uint8 n;\n    uint8 x[{{n||m}}];\n    uint8 m;\n};")
case("array length unknown", "struct A\n{\n    uint8 n;\n    uint8 x[{{n||nn}}];\n};")
case("packed no array", "struct A\n{\n    packed uint8 x{{[]||}};\n};")
case("packed choice field", "choice A(uint8 s) on s\n{\n    case 1:\n        packed uint8 x{{[]||}};\n};")
case("implicit no array", "struct A\n{\n    implicit uint8 x{{[]||}};\n};", implicit=True)
case("implicit with length", "struct A\n{\n    implicit uint8 x[{{||3}}];\n};", implicit=True)
case("implicit packed", "struct A\n{\n    {{||packed }}implicit uint8 x[];\n};", implicit=True)
case("implicit not last", "struct A\n{\n/*!*/    implicit uint8 x[];\n{{||    uint8 y;\n}}};", implicit=True)
case("implicit bit", "struct A\n{\n    implicit {{bit:8||bit:9}} x[];\n};", implicit=True)
for t in ("bool", "string", "varuint", "int:3", "extern"):
    case("implicit of %s" % t, "struct A\n{\n    implicit {{int32||%s}} x[];\n};" % t, implicit=True)
case("implicit of dynamic", "struct A\n{\n    uint8 n;\n    implicit {{uint8||bit<n>}} x[];\n};", implicit=True)
case("implicit of struct", "struct B\n{\n    uint8 y;\n};\nstruct A\n{\n    implicit {{uint8||B}} x[];\n};", implicit=True)
case("implicit deprecated", "struct A\n{\n    {{||implicit }}uint8 x[];\n};")

# ---------------------------------------------------------------- offsets
for t in ("int8", "int32", "varuint", "varuint32", "varint", "float32", "string", "bool", "int:7", "varsize"):
    case("offset of %s" % t, "struct A\n{\n/*!*/    {{uint32||%s}} o;\no:\n/*!*/    uint8 x;\n};" % t, any_line=True)
case("offset bit", "struct A\n{\n    {{bit:15||int:15}} o;\n/*!*/o:\n    uint8 x;\n};", any_line=True)
case("offset duplicated", "struct A\n{\n    uint32 o;\n    uint32 q;\n/*!*/o:\n    uint8 x;\n{{q||o}}:\n    uint8 y;\n};", any_line=True)
case("offset unknown", "struct A\n{\n    uint32 o;\n{{o||q}}:\n    uint8 x;\n};")
case("offset constant", "const uint32 O = 1;\nstruct A\n{\n    uint32 o;\n{{o||O}}:\n    uint8 x;\n};")
case("offset of builtin parameter", "struct O\n{\n    uint32 o;\n};\nstruct A({{O||uint32}} p)\n{\n{{p.o||p}}:\n    uint8 x;\n};")
for e in ("o + 1", "o * 2", "o & 1", "o | 1", "o ^ 1", "o == 1", "o < 1", "o << 1", "-o", "numbits(o)", "(o)", "1", "@index",
          "o ? o : o"):
    case("offset expression %s" % e, "struct A\n{\n    uint32 o;\n{{o||%s}}:\n    uint8 x;\n};" % e, any_line=True)
case("offset array without index", "struct A\n{\n    uint32 o[];\n{{o[@index]||o}}:\n    uint8 x[];\n};", any_line=True)
case("indexed offset of no array field", "struct A\n{\n    uint32 o[];\n/*!*/o[@index]:\n/*!*/    uint8 x{{[]||}};\n};")
case("indexed offset literal", "struct A\n{\n    uint32 o[];\no[{{@index||0}}]:\n    uint8 x[];\n};", any_line=True)
case("indexed offset expression", "struct A\n{\n    uint32 o[];\no[{{@index||@index + 1}}]:\n    uint8 x[];\n};", any_line=True)
case("indexed offset packed", "struct A\n{\n/*!*/    {{||packed }}uint32 o[];\n/*!*/o[@index]:\n    uint8 x[];\n};")
case("indexed offset of varuint", "struct A\n{\n/*!*/    {{uint32||varuint}} o[];\n/*!*/o[@index]:\n/*!*/    uint8 x[];\n};")
case("indexed offset duplicated", "struct A\n{\n    uint32 o[];\n    uint32 q[];\n/*!*/o[@index]:\n    uint8 x[];\n{{q||o}}[@index]:\n    uint8 y[];\n};", any_line=True)
case("index in constraint", "struct A\n{\n    uint8 o[];\n    uint8 x : x == {{lengthof(o)||o[@index]}};\n};")
case("index in optional", "struct A\n{\n    uint8 o[];\n    uint8 x if 1 == {{lengthof(o)||o[@index]}};\n};")
case("index in array length", "struct A\n{\n    uint8 o[];\n    uint8 x[{{lengthof(o)||@index}}];\n};")
case("index in function", "struct A\n{\n    uint8 o[];\n    function uint32 f()\n    {\n        return {{lengthof(o)||o[@index]}};\n    }\n};")
for what, use in (("constraint", "uint8 x : x == {{n||o}};"), ("optional", "uint8 x if {{n||o}} == 1;"),
                  ("array length", "uint8 x[{{n||o}}];"), ("dynamic length", "bit<{{n||o}}> x;")):
    case("offset field in %s" % what, "struct A\n{\n    uint32 n;\n/*!*/    uint32 o;\no:\n    uint8 y;\n    %s\n};" % use)
case("offset field in function", "struct A\n{\n    uint32 n;\n/*!*/    uint32 o;\no:\n    uint8 y;\n    function uint32 f()\n    {\n        return {{n||o}};\n    }\n};")
case("offset field as argument", "struct B(uint32 p)\n{\n    uint8 z[p];\n};\nstruct A\n{\n    uint32 n;\n/*!*/    uint32 o;\no:\n    uint8 y;\n    B({{n||o}}) b;\n};")

# ---------------------------------------------------------------- choices and unions
case("choice duplicated case", "choice A(uint8 s) on s\n{\n    case 1:\n        uint8 x;\n    case {{2||1}}:\n        uint8 y;\n};")
case("choice duplicated case in a group", "choice A(uint8 s) on s\n{\n    case 1:\n    case {{2||1}}:\n        uint8 y;\n};")
case("choice duplicated case expression", "const uint8 K = 3;\nchoice A(uint8 s) on s\n{\n    case 3:\n        uint8 x;\n    case {{K + 1||K}}:\n        uint8 y;\n};")
case("choice two defaults", "choice A(uint8 s) on s\n{\n    case 1:\n        uint8 x;\n    default:\n        uint8 y;\n{{||    default:\n        uint8 z;\n}}};")
case("choice no default first", "choice A(uint8 s) on s\n{\n{{||    default:\n        uint8 z;\n}}/*!*/    case 1:\n        uint8 x;\n};")
case("choice unreachable default", "choice A(bool s) on s\n{\n    case true:\n        uint8 x;\n    case false:\n        uint8 y;\n{{||    default:\n        uint8 z;\n}}};", any_line=True)
case("choice bool case", "choice A(bool s) on s\n{\n    case {{true||1}}:\n        uint8 x;\n};")
case("choice integer case", "choice A(uint8 s) on s\n{\n    case {{1||true}}:\n        uint8 x;\n};")
case("choice enum case", "enum uint8 E\n{\n    P\n};\nchoice A(E s) on s\n{\n    case {{P||1}}:\n        uint8 x;\n};")
case("choice enum unknown case", "enum uint8 E\n{\n    P\n};\nchoice A(E s) on s\n{\n    case {{P||Q}}:\n        uint8 x;\n};")
case("choice other enum case", "enum uint8 E\n{\n    P\n};\nenum uint8 F\n{\n    P\n};\nchoice A(E s) on s\n{\n    case {{E||F}}.P:\n        uint8 x;\n};")
case("choice other bitmask case", "bitmask uint8 E\n{\n    P\n};\nbitmask uint8 F\n{\n    P\n};\nchoice A(E s) on s\n{\n    case {{E||F}}.P:\n        uint8 x;\n};")
case("choice bitmask case", "bitmask uint8 E\n{\n    P\n};\nchoice A(E s) on s\n{\n    case {{P||1}}:\n        uint8 x;\n};")
case("choice string selector", "choice A({{uint8||string}} s) on s\n{\n    case {{1||\"a\"}}:\n        uint8 x;\n};", any_line=True)
case("choice float selector", "choice A({{uint8||float32}} s) on s\n{\n    case {{1||1.0}}:\n        uint8 x;\n};", any_line=True)
case("choice compound selector", "struct B\n{\n    uint8 y;\n};\nchoice A(B s) on {{s.y||s}}\n{\n    case 1:\n        uint8 x;\n};", any_line=True)
case("choice case of parameter", "const uint8 K = 2;\nchoice A(uint8 s, uint8 t) on s\n{\n    case {{K||t}}:\n        uint8 x;\n};")
case("choice case of field", "const uint8 K = 2;\nchoice A(uint8 s) on s\n{\n    case 1:\n        uint8 x;\n    case {{K||x}}:\n        uint8 y;\n};")
case("choice selector unknown", "choice A(uint8 s) on {{s||t}}\n{\n    case 1:\n        uint8 x;\n};")
case("choice selector field", "choice A(uint8 s) on {{s||x}}\n{\n    case 1:\n        uint8 x;\n};")
case("choice without parameters", "choice A{{(uint8 s)||}} on {{s||1}}\n{\n    case 1:\n        uint8 x;\n};", any_line=True)
case("choice field names", "choice A(uint8 s) on s\n{\n    case 1:\n        uint8 x;\n    case 2:\n        uint8 {{y||x}};\n};")
case("choice recursion", "choice A(uint8 s) on s\n{\n    case 1:\n        A(1) x{{[]||}};\n    case 2:\n        uint8 y;\n};", skip=True)
case("union field names", "union A\n{\n    uint8 x;\n    uint8 {{y||x}};\n};")

# ---------------------------------------------------------------- expressions
for op, ok, bad, t in (("+", "n + 1", "n + b", "uint32"), ("-", "n - 1", "n - s", "int64"), ("*", "n * 2", "b * 2", "uint32"),
                       ("/", "n / 2", "n / b", "uint32"), ("%", "n % 2", "n % f", "uint32"), ("<<", "n << 1", "n << f", "uint32"),
                       (">>", "n >> 1", "f >> 1", "uint32"), ("&", "n & 1", "n & b", "uint32"), ("|", "n | 1", "f | 1", "uint32"),
                       ("^", "n ^ 1", "s ^ 1", "uint32"), ("~", "~n", "~b", "int64"), ("-", "-n", "-b", "int64"),
                       ("!", "!b", "!n", "bool"), ("&&", "b && n > 1", "b && n", "bool"), ("||", "b || n > 1", "n || b", "bool"),
                       ("==", "n == 1", "n == b", "bool"), ("==", "b == true", "b == s", "bool"), ("==", "e == E.A", "e == 0", "bool"),
                       ("==", "n == 2", "f == f", "bool"), ("!=", "n != 1", "s != s", "bool"), ("<", "n < 1", "n < b", "bool"),
                       ("<", "f < 1.0", "s < s", "bool"), ("?:", "b ? 1 : 2", "n ? 1 : 2", "uint32"),
                       ("?:", "b ? n : 2", "b ? n : b", "uint32"), ("?:", "b ? E.A : e", "b ? E.A : 1", "E"),
                       ("?:", "b ? E.A : e", "b ? E.A : F.A", "E"), ("?:", "b ? M.X : m", "b ? M.X : N.X", "M"),
                       ("lengthof", "lengthof(a)", "lengthof(n)", "uint32"), ("lengthof", "lengthof(a)", "lengthof(e)", "uint32"),
                       ("numbits", "numbits(n)", "numbits(b)", "uint8"), ("numbits", "numbits(n)", "numbits(f)", "uint8"),
                       ("valueof", "valueof(e)", "valueof(n)", "uint8"), ("valueof", "valueof(m)", "valueof(a)", "uint8"),
                       ("isset", "isset(m, M.X)", "isset(n, 1)", "bool"), ("isset", "isset(m, M.X)", "isset(m, N.X)", "bool"),
                       ("isset", "isset(m, M.X)", "isset(e, E.A)", "bool"), 
                       ("mask |", "m | M.X", "m | 1", "M"), ("mask <<", "m | M.X", "m << 1", "M"), ("index", "n + a[n]", "n + n[0]", "uint32"),
                       ("index", "a[0] + 1", "a[b] + 1", "uint32"), ("index", "a[0] + 1", "a[s] + 1", "uint32"),
                       ("index", "a[0] + 1", "a + 1", "uint32"), ("dot", "c.y", "c.z", "uint8"), ("dot", "c.y", "n.y", "uint8"),
                       ("call", "c.g()", "c.h()", "uint8"), ("call", "c.g()", "c.y()", "uint8"), ("call", "c.g()", "n()", "uint8"),
                       ("call", "c.g()", "c.g", "uint8"), ("type", "n", "C", "uint32"), ("type", "e", "E", "E"),
                       ("return", "n", "b", "uint32"), ("return", "b", "n", "bool"), ("return", "e", "n", "E"), ("return", "m", "e", "M"),
                       ("return", "f", "b", "float32"), ("return", "E.A", "F.A", "E"), ("return", "n", "unknown", "uint32"),
                       ("return", "c", "n", "C"), ("return", "c", "d", "C"),
                       ("string", '"a" + "b"', '"a" + s', "string"), ("string", '"a" + "b"', '"a" + 1', "string"), ("string", '"a"', "n", "string")):
    case("expression %s: %s" % (op, bad),
         "enum uint8 E\n{\n    A,\n    B\n};\nenum uint8 F\n{\n    A\n};\nbitmask uint8 M\n{\n    X\n};\nbitmask uint8 N\n{\n    X\n};\n"
         "struct C\n{\n    uint8 y;\n    function uint8 g()\n    {\n        return y;\n    }\n};\nstruct D\n{\n    uint8 y;\n};\n"
         "struct S\n{\n    uint8 n;\n    bool b;\n    string s;\n    float32 f;\n    E e;\n    M m;\n    uint8 a[];\n    C c;\n    D d;\n"
         "    function %s f1()\n    {\n        return {{%s||%s}};\n    }\n};" % (t, ok, bad))
case("function later parameter", "struct A\n{\n    uint8 x;\n    function uint8 f({{|| uint8 p}})\n    {\n        return x;\n    }\n};")
case("function call with argument", "struct A\n{\n    uint8 x;\n    function uint8 f()\n    {\n        return x;\n    }\n    function uint8 g()\n    {\n        return f({{||1}});\n    }\n};")
case("function recursive", "struct A\n{\n    uint8 x;\n/*!*/    function uint8 f()\n    {\n/*!*/        return {{x||f()}};\n    }\n};")
case("function indirectly recursive", "struct A\n{\n    uint8 x;\n/*!*/    function uint8 f()\n    {\n/*!*/        return {{x||g()}};\n    }\n"
     "/*!*/    function uint8 g()\n    {\n/*!*/        return f();\n    }\n};")
case("function uses later field in constraint", "struct A\n{\n    uint8 x : {{x > 0||f() > 0}};\n    uint8 y;\n/*!*/    function uint8 f()\n    {\n/*!*/        return y;\n    }\n};")
case("function uses later field in optional", "struct A\n{\n    uint8 x;\n    uint8 z if {{x > 0||f() > 0}};\n    uint8 y;\n/*!*/    function uint8 f()\n    {\n/*!*/        return y;\n    }\n};")
case("lengthof without parentheses", "struct A\n{\n    uint8 a[];\n    function uint32 f()\n    {\n        return {{lengthof(a)||lengthof a}};\n    }\n};")
case("shift with space", "const uint32 C = 8 {{>>||> >}} 1;")

# ---------------------------------------------------------------- parameters
P1 = "struct B(uint8 p)\n{\n    uint8 z[p];\n};\n"
case("too few arguments", "struct B(uint8 p, uint8 q)\n{\n    uint8 z[p + q];\n};\nstruct A\n{\n    uint8 n;\n    B(n{{, n||}}) b;\n};")
case("too many arguments", P1 + "struct A\n{\n    uint8 n;\n    B(n{{||, n}}) b;\n};")
case("missing arguments", P1 + "struct A\n{\n    uint8 n;\n    B{{(n)||}} b;\n};")
case("arguments of no parameterized type", "struct B\n{\n    uint8 z;\n};\nstruct A\n{\n    uint8 n;\n    B{{||(n)}} b;\n};")
case("arguments of a builtin type", "struct A\n{\n    uint8 n;\n    uint8{{||(n)}} b;\n};")
case("arguments of an enum", "enum uint8 E\n{\n    Q\n};\nstruct A\n{\n    uint8 n;\n    E{{||(n)}} b;\n};")
case("arguments of an unknown type", P1 + "struct A\n{\n    uint8 n;\n    {{B||C}}(n) b;\n};")
case("argument type bool", P1 + "struct A\n{\n    uint8 n;\n    bool t;\n    B({{n||t}}) b;\n};")
case("argument type string", P1 + "struct A\n{\n    uint8 n;\n    string t;\n    B({{n||t}}) b;\n};")
case("argument type float", P1 + "struct A\n{\n    uint8 n;\n    float32 t;\n    B({{n||t}}) b;\n};")
case("argument other enum", "enum uint8 E\n{\n    Q\n};\nenum uint8 F\n{\n    Q\n};\nstruct B(E p)\n{\n    uint8 z if p == E.Q;\n};\nstruct A\n{\n    E e;\n    F f;\n    B({{e||f}}) b;\n};")
case("argument other bitmask", "bitmask uint8 E\n{\n    Q\n};\nbitmask uint8 F\n{\n    Q\n};\nstruct B(E p)\n{\n    uint8 z if p == E.Q;\n};\nstruct A\n{\n    E e;\n    F f;\n    B({{e||f}}) b;\n};")
case("argument other compound", "struct E\n{\n    uint8 q;\n};\nstruct F\n{\n    uint8 q;\n};\nstruct B(E p)\n{\n    uint8 z[p.q];\n};\nstruct A\n{\n    E e;\n    F f;\n    B({{e||f}}) b;\n};")
case("argument later field", P1 + "struct A\n{\n    uint8 n;\n    B({{n||m}}) b;\n    uint8 m;\n};")
case("argument unknown", P1 + "struct A\n{\n    uint8 n;\n    B({{n||nn}}) b;\n};")
case("subtype of parameterized", "struct B{{||(uint8 p)}}\n{\n    uint8 z;\n};\n/*!*/subtype B S;\nstruct A\n{\n/*!*/    S s;\n};")
case("explicit outside of sql", P1 + "struct A\n{\n    uint8 n;\n    B({{||explicit }}n) b;\n};")
case("unknown member of parameter", "struct E\n{\n    uint8 q;\n};\nstruct B(E p)\n{\n    uint8 z[p.{{q||r}}];\n};")

# ---------------------------------------------------------------- names
KINDS = {"const": "const uint8 %s = 1;", "subtype": "subtype uint8 %s;", "struct": "struct %s\n{\n    uint8 x;\n};",
         "choice": "choice %s(uint8 s) on s\n{\n    case 1:\n        uint8 x;\n};", "union": "union %s\n{\n    uint8 x;\n    uint8 y;\n};",
         "enum": "enum uint8 %s\n{\n    A\n};", "bitmask": "bitmask uint8 %s\n{\n    A\n};",
         "table": "sql_table %s\n{\n    uint32 id sql \"PRIMARY KEY\";\n};",
         "service": "service %s\n{\n};", "pubsub": "pubsub %s\n{\n};", "rules": "rule_group %s\n{\n};"}
for i, a in enumerate(sorted(KINDS)):
    for b in sorted(KINDS):
        case("%s and %s of one name" % (a, b), KINDS[a] % "Name1" + "\n" + KINDS[b] % "{{Name2||Name1}}", any_line=a == b)
case("type name as field", "struct A\n{\n    uint8 {{x||struct}};\n};")
for kw in ("choice", "if", "sql", "const", "union", "case", "default", "on", "packed", "optional", "extend", "align", "import",
           "package", "function", "return", "enum", "bitmask", "subtype", "implicit", "valueof", "isset", "lengthof", "numbits",
           "template"):
    if kw != "template":
        case("keyword %s as a field" % kw, "struct A\n{\n    uint8 {{x||%s}};\n};" % kw)
for k in ("struct", "choice", "union", "const", "subtype", "enum", "bitmask"):
    case("reserved prefix of %s" % k, KINDS[k] % "{{Name1||ZserioName}}", skip=True)

# ---------------------------------------------------------------- sub types, templates
case("cyclic subtype", "/*!*/subtype {{uint8||B}} A;\n/*!*/subtype A B;")
case("cyclic subtype itself", "subtype {{uint8||A}} A;")
case("cycle of three subtypes", "/*!*/subtype {{uint8||C}} A;\n/*!*/subtype A B;\n/*!*/subtype B C;")
case("subtype of database", "sql_table T\n{\n    uint32 id sql \"PRIMARY KEY\";\n};\nsql_database D\n{\n    T t;\n};\nsubtype {{T||D}} S;")
T1 = "struct T<X>\n{\n    X x;\n};\n"
case("template without arguments", T1 + "struct A\n{\n    T{{<uint8>||}} t;\n};")
case("template too many arguments", T1 + "struct A\n{\n    T<uint8{{||, uint8}}> t;\n};")
case("template too few arguments", "struct T<X, Y>\n{\n    X x;\n    Y y;\n};\nstruct A\n{\n    T<uint8{{, uint8||}}> t;\n};")
case("arguments of no template", "struct B\n{\n    uint8 z;\n};\nstruct A\n{\n    B{{||<uint8>}} t;\n};")
case("arguments of an enum template", "enum uint8 B\n{\n    Z\n};\nstruct A\n{\n    B{{||<uint8>}} t;\n};")
case("unknown template", T1 + "struct A\n{\n    {{T||U}}<uint8> t;\n};")
case("unknown template argument", T1 + "struct A\n{\n    T<{{uint8||U}}> t;\n};", any_line=True)
case("instantiate twice", T1 + "instantiate T<uint8> T8;\ninstantiate T<{{uint16||uint8}}> T8b;", any_line=True)
case("instantiate name twice", T1 + "instantiate T<uint8> T8;\ninstantiate T<uint16> {{T16||T8}};", any_line=True)
case("instantiate without arguments", T1 + "instantiate T{{<uint8>||}} T8;")
case("instantiate no template", "struct B{{<X>||}}\n{\n    {{X||uint8}} x;\n};\n/*!*/instantiate B<uint8> B8;")
case("instantiate name of a type", T1 + "struct B\n{\n    uint8 x;\n};\ninstantiate T<uint8> {{T8||B}};", any_line=True)
case("constant as template argument", "const uint8 K = 1;\n" + T1 + "struct A\n{\n    T<{{uint8||K}}> t;\n};", any_line=True)
case("template unknown field", "struct T<X>\n{\n    X x;\n    function uint8 f()\n    {\n/*!*/        return x.y;\n    }\n};\nstruct B\n{\n    uint8 {{y||z}};\n};\nstruct A\n{\n/*!*/    T<B> t;\n};")
case("template duplicated field", "struct T<X>\n{\n    X x;\n    X {{y||x}};\n};\nstruct A\n{\n    T<uint8> t;\n};")
case("template wrong constraint", "struct T<X>\n{\n/*!*/    X x : x > 0;\n};\nstruct A\n{\n/*!*/    T<{{uint8||string}}> t;\n};")
case("template parameter as template", "struct T<X>\n{\n    X{{||<uint8>}} x;\n};\nstruct A\n{\n    T<uint8> t;\n};")
case("unused template parameter type", "struct T<X>\n{\n    {{X||Y}} x;\n};\nstruct A\n{\n    T<uint8> t;\n};")
case("parameterized builtin in template", "struct T<X>\n{\n    X{{||(1)}} x;\n};\nstruct A\n{\n/*!*/    T<uint8> t;\n};")
case("template argument needs parameters", "struct B{{||(uint8 p)}}\n{\n    uint8 z;\n};\nstruct T<X>\n{\n/*!*/    X x;\n};\nstruct A\n{\n/*!*/    T<B> t;\n};")
case("choice template case", "choice T<X>(X s) on s\n{\n/*!*/    case 1:\n        uint8 x;\n};\nstruct A\n{\n/*!*/    T<{{uint8||bool}}>({{1||true}}) t;\n};")

# ---------------------------------------------------------------- SQL
TB = "sql_table T\n{\n    uint32 id sql \"PRIMARY KEY\";\n    string s;\n};\n"
case("table as field", TB + "sql_table U\n{\n    uint32 id sql \"PRIMARY KEY\";\n    {{string||T}} t;\n};")
case("table in struct", TB + "struct A\n{\n    {{string||T}} t;\n};")
case("table array in struct", TB + "struct A\n{\n    {{string||T}} t[];\n};")
case("subtyped table in struct", TB + "subtype T S;\nstruct A\n{\n    {{string||S}} t;\n};")
case("database in struct", TB + "sql_database D\n{\n    T t;\n};\nstruct A\n{\n    {{string||D}} t;\n};")
case("struct in database", TB + "struct A\n{\n    uint8 x;\n};\nsql_database D\n{\n    {{T||A}} t;\n};")
case("subtyped struct in database", TB + "struct A\n{\n    uint8 x;\n};\nsubtype {{T||A}} S;\nsql_database D\n{\n/*!*/    S t;\n};")
case("empty database", TB + "sql_database D\n{\n{{    T t;||}}\n/*!*/};")
case("empty table", "sql_table T\n{\n{{    uint32 id sql \"PRIMARY KEY\";||}}\n};", any_line=True)
case("table column names", "sql_table T\n{\n    uint32 id sql \"PRIMARY KEY\";\n    string {{s||id}};\n};")
case("database table names", TB + "sql_database D\n{\n    T t;\n    T {{u||t}};\n};")
case("unknown primary key column", "sql_table T\n{\n    uint32 id;\n    string s;\n    sql \"PRIMARY KEY({{id||idd}})\";\n};")
case("unknown unique column", "sql_table T\n{\n    uint32 id;\n    string s;\n    sql \"UNIQUE({{id, s||id, ss}})\";\n};")
case("virtual column", "sql_table T\n{\n    uint32 id sql \"PRIMARY KEY\";\n    {{||sql_virtual }}string s;\n};")
case("sql constraint integer", "sql_table T\n{\n    uint32 id sql {{\"PRIMARY KEY\"||5}};\n};")
case("table constraint integer", "sql_table T\n{\n    uint32 id;\n    sql {{\"PRIMARY KEY(id)\"||5}};\n};")
case("without rowid no primary key", "sql_table T\n{\n    uint32 id{{ sql \"PRIMARY KEY\"||}};\n    sql_without_rowid;\n};", any_line=True)
case("virtual without rowid", "sql_table T using {{fts4||fts4}}\n{\n    string id;\n{{||    sql_without_rowid;\n}}};", any_line=True)
case("table with parameters", "sql_table T{{||(uint8 p)}}\n{\n    uint32 id sql \"PRIMARY KEY\";\n};")
case("table array column", "sql_table T\n{\n    uint32 id sql \"PRIMARY KEY\";\n    uint8 s{{||[]}};\n};")
case("table column constraint", "sql_table T\n{\n    uint32 id sql \"PRIMARY KEY\";\n    uint8 s{{|| : s > 1}};\n};")
case("explicit parameter types", "struct B(uint8 p)\n{\n    uint8 z[p];\n};\nstruct C({{uint8||string}} p)\n{\n    uint8 z;\n};\nsql_table T\n{\n    uint32 id sql \"PRIMARY KEY\";\n"
     "/*!*/    B(explicit n) b;\n/*!*/    C(explicit n) c;\n};")
case("explicit parameter compounds", "struct E\n{\n    uint8 q;\n};\nstruct F\n{\n    uint8 q;\n};\nstruct B(E p)\n{\n    uint8 z[p.q];\n};\nstruct C({{E||F}} p)\n{\n    uint8 z[p.q];\n};\nsql_table T\n{\n    uint32 id sql \"PRIMARY KEY\";\n"
     "/*!*/    B(explicit n) b;\n/*!*/    C(explicit n) c;\n};")

# ---------------------------------------------------------------- services, pubsub, rules
S1 = "struct A\n{\n    uint8 x;\n};\nstruct P(uint8 p)\n{\n    uint8 x[p];\n};\nchoice Ch(uint8 s) on s\n{\n    case 1:\n        uint8 x;\n};\nsubtype A SA;\nsubtype uint8 S8;\n" + TB
for bad in ("uint8", "string", "P", "Ch", "S8", "T", "Unknown"):
    case("service response %s" % bad, S1 + "service S\n{\n    {{SA||%s}} m(A);\n};" % bad)
    case("service request %s" % bad, S1 + "service S\n{\n    A m({{A||%s}});\n};" % bad)
    case("pubsub message %s" % bad, S1 + "pubsub S\n{\n    topic(\"t\") {{SA||%s}} m;\n};" % bad)
case("service methods", S1 + "service S\n{\n    A m(A);\n    A {{n||m}}(A);\n};")
case("pubsub messages", S1 + "pubsub S\n{\n    topic(\"t\") A m;\n    topic(\"u\") A {{n||m}};\n};")
case("topic integer", S1 + "pubsub S\n{\n    topic({{\"t\"||1}}) A m;\n};")
case("topic bool", S1 + "pubsub S\n{\n    topic({{\"t\"||true}}) A m;\n};")
case("bytes in service", S1 + "service S\n{\n    {{bytes||extern}} m(A);\n};")
case("rule duplicated", "rule_group R\n{\n    rule \"r-1\";\n    rule \"{{r-2||r-1}}\";\n};", any_line=True)
case("rule duplicated case", "rule_group R\n{\n    rule \"r-1\";\n    rule \"{{r-2||R-1}}\";\n};", any_line=True)
case("rule duplicated in groups", "rule_group R\n{\n    rule \"r-1\";\n};\nrule_group Q\n{\n    rule \"{{r-2||r-1}}\";\n};", any_line=True)
case("rule integer", "rule_group R\n{\n    rule {{\"r-1\"||1}};\n};")
case("rule bad format", "rule_group R\n{\n    rule \"{{r-1||r 1}}\";\n};")
case("rule empty", "rule_group R\n{\n    rule \"{{r-1||}}\";\n};")

# ---------------------------------------------------------------- packages
case("import unknown package", {"p": "package p;\nimport {{q||r}}.*;\nstruct A\n{\n    uint8 x;\n};", "q": "package q;\nstruct B\n{\n    uint8 x;\n};"}, any_line=True)
case("import unknown symbol", {"p": "package p;\nimport q.{{B||C}};\nstruct A\n{\n    uint8 x;\n};", "q": "package q;\nstruct B\n{\n    uint8 x;\n};"})
case("import transitive", {"p": "package p;\nimport q.*;\nstruct A\n{\n    {{B||C}} x;\n};", "q": "package q;\nimport r.*;\nstruct B\n{\n    C x;\n};",
                           "r": "package r;\nstruct C\n{\n    uint8 x;\n};"})
case("import ambiguous", {"p": "package p;\nimport q.*;\nimport r.*;\nstruct A\n{\n    {{q.B||B}} x;\n};", "q": "package q;\nstruct B\n{\n    uint8 x;\n};",
                          "r": "package r;\nstruct B\n{\n    uint8 x;\n};"})
case("import ambiguous single", {"p": "package p;\nimport q.B;\nimport r.B;\nstruct A\n{\n    {{q.B||B}} x;\n};", "q": "package q;\nstruct B\n{\n    uint8 x;\n};",
                                 "r": "package r;\nstruct B\n{\n    uint8 x;\n};"}, skip=True)
case("import ambiguous constant", {"p": "package p;\nimport q.*;\nimport r.*;\nstruct A\n{\n    uint8 x : x < {{q.K||K}};\n};", "q": "package q;\nconst uint8 K = 3;",
                                   "r": "package r;\nconst uint8 K = 4;"}, skip=True)
case("import hides nothing", {"p": "package p;\nimport q.B;\nstruct A\n{\n    {{B||C}} x;\n};", "q": "package q;\nstruct B\n{\n    uint8 x;\n};\nstruct C\n{\n    uint8 x;\n};"})
case("wrong package name", {"p": "package {{p||q}};\nstruct A\n{\n    uint8 x;\n};"})
case("package upper case", {"p": "package p;\nimport {{q||qX}}.*;\nstruct A\n{\n    uint8 x;\n};", "q": "package q;\nstruct B\n{\n    uint8 x;\n};"}, any_line=True, skip=True)
case("rule duplicated between packages with option", {"p": "package p;\nimport q.*;\nrule_group R\n{\n    rule \"{{r-2||r-1}}\";\n};", "q": "package q;\nrule_group Q\n{\n/*!*/    rule \"r-1\";\n};"},
     options=["-withGlobalRuleIdCheck"])
case("compatibility version high", {"p": "zserio_compatibility_version(\"{{2.18.0||99.0.0}}\");\npackage p;\nstruct A\n{\n    uint8 x;\n};"})
case("compatibility version low", {"p": "zserio_compatibility_version(\"{{2.4.0||2.3.9}}\");\npackage p;\nstruct A\n{\n    uint8 x;\n};"})
case("compatibility version format", {"p": "zserio_compatibility_version(\"{{2.4.2||abc}}\");\npackage p;\nstruct A\n{\n    uint8 x;\n};"}, any_line=True)

# ---------------------------------------------------------------- syntax
for what, ok, bad in (("semicolon of a field", "    uint8 x;", "    uint8 x"), ("semicolon of a struct", "    uint8 x;\n};\nstruct B\n{\n    uint8 y;",
                      "    uint8 x;\n}\nstruct B\n{\n    uint8 y;"), ("bracket", "    uint8 x[3];", "    uint8 x[3;"),
                      ("name", "    uint8 x;", "    uint8 ;"), ("type", "    uint8 x;", "    x;"), ("number as name", "    uint8 x1;", "    uint8 1x;"),
                      ("parenthesis", "    uint8 x : (x > 1);", "    uint8 x : (x > 1;"), ("operator", "    uint8 x : x > 1;", "    uint8 x : x > ;"),
                      ("two colons", "    uint8 x : x > 1;", "    uint8 x :: x > 1;"), ("stray token", "    uint8 x;", "    uint8 x; $"),
                      ("empty constraint", "    uint8 x : x > 1;", "    uint8 x : ;"), ("assignment", "    uint8 x = 1;", "    uint8 x == 1;")):
    case("syntax: " + what, "struct A\n{\n{{%s||%s}}\n/*!*/};\n" % (ok, bad), any_line=True)
case("end of file in a struct", "struct A\n{\n    uint8 x;\n{{};||}}", any_line=True)
case("end of file in a comment", "struct A\n{\n    uint8 x;\n};\n{{/* x */||/* x}}", any_line=True)
case("field after function", "struct A\n{\n    uint8 x;\n    function uint8 f()\n    {\n        return x;\n    }\n{{||    uint8 y;\n}}};", any_line=True)
case("empty enum", "enum uint8 E\n{\n{{    A||}}\n};", any_line=True)
case("empty bitmask", "bitmask uint8 E\n{\n{{    A||}}\n};", any_line=True)


def expand(name, text, kw):
    """[(files, root)] legal and illegal, and the accepted places {(package, line)} (None: anywhere in the files)."""
    files = text if isinstance(text, dict) else {"p": "package p;\n\n" + text}
    out = []
    places = set()
    for k in (0, 1):
        res = {}
        for pkg, t in files.items():
            o, line = "", 1
            i = 0
            while i < len(t):
                if t.startswith("{{", i):
                    e = t.index("}}", i + 2)
                    while t.startswith("}", e + 2) and t[i:e].count("{") - 2 > t[i:e].count("}"):
                        e += 1
                    alt = t[i + 2:e]
                    m = alt.index("||") if "||" in alt else None
                    # the operator || of the language is never the only one
                    parts = split_alt(alt)
                    c = parts[k]
                    if k:
                        for n in range(c.count("\n") + 1):
                            places.add((pkg, o.count("\n") + 1 + n))
                    o += c
                    i = e + 2
                elif t.startswith("/*!*/", i):
                    if k:
                        places.add((pkg, o.count("\n") + 1))
                    i += 5
                else:
                    o += t[i]
                    i += 1
            res[pkg] = o
        out.append(res)
    if kw.get("any_line"):
        places = None
    return out[0], out[1], places


def split_alt(alt):
    """Splits legal||illegal; an operator || inside is surrounded by blanks, the separator is not on both sides."""
    i = -1
    while True:
        i = alt.index("||", i + 1)
        if not (alt[i - 1:i] == " " and alt[i + 2:i + 3] == " " and alt[i + 3:i + 4] not in ("", " ") and
                alt[:i].strip() and "n > 1" in alt or alt[i + 2:i + 4] == " b" and alt[i - 1:i] == " " and "n || b" in alt[i - 2:]):
            return alt[:i], alt[i + 2:]
