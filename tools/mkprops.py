import json
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a}
TS="src/lib/gen/ts.rs";CK="src/lib/check.rs";PA="src/lib/parser.rs";MA="src/main.rs";LI="src/lib/lib.rs";GC="src/lib/gen/gen_ctx.rs";GM="src/lib/gen/mod.rs"
G=[TS,GC,GM]
R=[
p("P01","Generated reader consumes exactly what the generated writer produces",
 "For every accepted schema, the generated read code performs the same sequence of primitive reads (same primitive, same order, same repetition and presence conditions) as the primitive writes performed by the generated write code. A message written by the generated writer is therefore consumed completely and in step by the generated reader.",
 ["programs","inputs"],"every accepted schema: every mix and order of field types, arrays, optionals and nesting depth","The set of schemas is infinite and the generated code is never executed by the tests; they compare a handful of outputs with recorded text.",
 G,[("writer generation for structs, arrays, optionals, enums and scalars",TS+":24-114"),("reader generation for structs, arrays, optionals, enums and scalars",TS+":116-234")],obs=["text returned by compile"]),
p("P02","The wire encoding of every field type is fixed",
 "A scalar field is written with the primitive of its own type, a string as a uint32 length followed by its characters, an enum as one unsigned integer of the enum's width, an array as a uint32 element count followed by its elements, an optional as a uint8 presence flag (1 when present, 0 when absent) followed by the value only when present, and a nested struct as its fields with nothing around them. The reader decodes each of them from exactly that encoding.",
 ["programs"],"every field type, with and without array or optional, at every nesting depth","Peers generated at different times rely on the encoding; tests pin it only for the combinations they happen to contain (no 16-bit scalar, no signed 8-bit, no wide enum, no optional string, no array of arrays-of-structs).",
 G,[("primitive selection per scalar type",TS+":71-91"),("length, count and presence prefixes",TS+":24-69"),("decoding",TS+":116-186"),("builtin type table",CK+":126-139")],obs=["text returned by compile"]),
p("P03","Struct fields are encoded once each, in declaration order",
 "In the generated write code, read code, interfaces and constructor, every field of a struct appears exactly once and in the order in which the schema declares the fields. This holds no matter which types the fields have or where in the file those types are declared.",
 ["programs","inputs"],"every accepted schema, every order of declarations and every field-type dependency shape","Reordering only shows up for particular dependency shapes between declarations and was even dependent on hash seeds; a test sees one shape at a time.",
 [CK]+G,[("field resolution in two passes",CK+":195-316"),("field loops of the generators",TS+":93-326")],state=["resolved type table"],obs=["text returned by compile"]),
p("P04","Generated code moves each value between wire and the right field",
 "The generated reader stores every decoded value in the field it was written from: same nesting path, array elements at their own index in an array of the decoded length, an absent optional as undefined. The generated writer takes every value from the same-named field of the object being written, and writes each array element in index order.",
 ["programs"],"every accepted schema: every field type and modifier at every nesting depth","A value bound to a wrong temporary or a wrong path only appears for certain combinations of nesting and modifiers, which are unbounded.",
 G,[("path and temporary name construction",TS+":20-22"),("name stack handling",GC),("temporaries of readers and writers",TS+":24-234")],obs=["text returned by compile"]),
p("P05","Enum variants are single bits stored in the smallest sufficient width",
 "The variant at position i (from 0) of an enum has the unsigned value 2^i in the generated code. The enum is encoded as uint8 for up to 8 variants, uint16 for 9 to 16 and uint32 for 17 to 32.",
 ["programs"],"every enum with 1 to 32 variants","Tests use enums of two variants; the boundaries at 8, 16 and 32 and the sign bit at variant 31 are never reached.",
 [CK,TS],[("width and value assignment",CK+":166-193"),("width to primitive mapping",TS+":84-88,171-176"),("enum declaration",TS+":316-326")],obs=["text returned by compile"]),
p("P06","Enum reads are range checked and accept every declared variant",
 "When the generated reader decodes an enum, it accepts every value between the first and the last declared variant inclusive and assigns it to the field. For any value below the first or above the last variant it marks the read as failed instead of assigning it.",
 ["programs","inputs"],"every enum and every decoded integer","The check is emitted as text and never executed; only two-variant enums are compared with recorded output.",
 [TS],[("range computation and emitted check",TS+":171-186")],obs=["text returned by compile"]),
p("P07","A failed read yields null, never a partially filled object",
 "The generated read function returns null whenever any of its reads failed or any enum value was out of range, at any nesting depth. It returns the filled object only after all fields have been read and the failure state has been checked.",
 ["programs","inputs"],"every accepted schema and every malformed or truncated message","Generated readers are never run by the tests, and malformed inputs are unbounded.",
 [TS],[("reader prologue and epilogue",TS+":268-278"),("failure marking",TS+":183-186")],obs=["text returned by compile"]),
p("P08","Generated declarations are complete, minimal and correctly typed",
 "Every struct and enum reachable from the exported type, and no other type, is declared exactly once under the exported name, the exported type itself as a class. Every interface member and constructor parameter has the type of its schema field: number for numeric scalars, string for strings, the named declaration otherwise, with [] for arrays and marked as possibly undefined for optionals.",
 ["programs"],"every accepted schema: every reachability shape and every field type and modifier","Reachability is a property of arbitrary type graphs; tests cover one unused type and shallow nesting.",
 [CK,TS],[("used type collection",CK+":334-372"),("declaration emission",TS+":295-351"),("constructor types",TS+":236-251")],obs=["text returned by compile"]),
p("P09","Generated TypeScript is well formed for every accepted schema",
 "For every accepted schema whose names contain no underscore and are not TypeScript reserved words, the generated text parses as TypeScript, every local variable it uses is declared before use in an enclosing scope, and no scope declares the same local twice. Every helper it calls exists on the imported reader or writer, and both are imported.",
 ["programs"],"every accepted schema with such names, at every nesting depth","Tests compare text with recorded text and never parse it as TypeScript; scoping mistakes need specific nestings.",
 G,[("emission of blocks and temporaries",TS+":24-234"),("import line",TS+":14-18")],obs=["text returned by compile"]),
p("P10","Duplicate names are always rejected",
 "A schema is rejected if two declarations have the same name, two fields of one struct have the same name, or two variants of one enum have the same name. Position, field types, and whether the type is used make no difference.",
 ["inputs"],"every schema containing a duplicate, whatever surrounds it","A duplicate can be anywhere in an unbounded file; tests place it in one position each.",
 [CK],[("declaration collection",CK+":28-41"),("variant uniqueness",CK+":175-191"),("field uniqueness",CK+":221-237")],obs=["result of compile"]),
p("P11","Exactly one export, and it must name a declared struct",
 "A schema is accepted only if it contains exactly one export statement and the exported name is a struct declared in the schema. The export may appear anywhere in the file.",
 ["inputs"],"every schema, every number and position of export statements, every exported name","The number and position of exports and declarations are unbounded.",
 [CK],[("export collection",CK+":13-26"),("export resolution",CK+":352-372")],obs=["result of compile"]),
p("P12","Unknown and recursive types are always rejected",
 "A schema is rejected if any struct has a field whose type is neither a builtin nor declared in the schema, or if any struct contains itself directly or through other structs. This holds for used and unused types, with or without array or optional modifiers.",
 ["inputs"],"every schema whose type references dangle or form a cycle of any length, entered from anywhere","Cycles of any length reachable from any entry point cannot be enumerated; tests have one self reference and one unknown name.",
 [CK],[("second resolution pass",CK+":259-332")],obs=["result of compile"]),
p("P13","Oversized or empty enums and optional arrays are rejected",
 "A schema is rejected if any enum has no variants or more than 32, or if any field is both optional and an array. This holds for every type in the file, whatever the type of the field.",
 ["inputs"],"every schema with such an enum or field in any position","The rule has to hold for every position and field type; tests check one instance each and never 32 against 33.",
 [CK],[("enum size limits",CK+":166-174"),("modifier check",CK+":149-154")],obs=["result of compile"]),
p("P14","Every valid schema is accepted",
 "A syntactically valid schema with unique names, at least one and at most 32 variants per enum, no optional arrays, only builtin or declared non-recursive field types, and exactly one export naming a declared struct is compiled successfully. The order of declarations and fields, the depth of nesting and sharing of types do not matter.",
 ["inputs","programs"],"every valid schema","Spurious rejection depends on particular dependency and declaration orders, which are unbounded.",
 [CK],[("all rejection sites of the type checker",CK+":13-411")],obs=["result of compile"]),
p("P15","Compiling any text terminates without panicking",
 "For any input text, compilation returns either generated code or an error. It never panics and never loops forever.",
 ["inputs"],"every UTF-8 text","Panics hide behind specific malformed inputs, multi-byte characters and unusual but valid type graphs; inputs are unbounded.",
 [LI,CK,PA]+G,[("unwraps, indexing and explicit panics",CK+":259-316"),("error rendering",LI+":24-43"),("recursion over types",CK+":259-345"),("grammar repetition",PA+":5-89")],obs=["result of compile"]),
p("P16","The result depends only on the schema text",
 "Compiling the same text twice gives the same result: the same error message, or the same generated code apart from the timestamp in the header comment line. Nothing but that header depends on time, hashing order, environment or earlier compilations.",
 ["inputs","histories","configurations"],"every schema, every process and hash seed","Hash seeds differ per process; a nondeterministic order agrees with recorded text by chance most of the time.",
 [CK]+G,[("iteration over hash maps",CK+":318-372"),("declaration order",TS+":328-351"),("header",GM+":60-69")],obs=["result of compile"]),
p("P17","Names follow one lexical rule everywhere",
 "A declared name, field name or variant is accepted exactly if it starts with an ASCII letter or underscore, continues with ASCII letters, digits or underscores, and is not one of the ten reserved words (the eight builtin type names, enum and struct); in addition, no declaration can be named export. Names that merely begin with or contain one of these words are ordinary names.",
 ["inputs"],"every string in every name position","The set of names is infinite, and interactions between ordered choice and reserved prefixes need particular names.",
 [PA],[("identifier and reserved word rules",PA+":17-38")],obs=["result of compile"]),
p("P18","Layout is insignificant and the whole file must match",
 "Spaces, tabs, blank lines, either line ending, comments from # to the end of the line (between declarations and between struct fields) and optional commas between fields or variants do not change what a schema means. A text is accepted by the parser only if all of it consists of declarations, exports, comments and such layout.",
 ["inputs"],"every text, every placement of layout","Layout placement is combinatorial; tests trim indentation and cover a few placements.",
 [PA],[("whitespace, newline, comment and line rules",PA+":6-15,77-88")],obs=["result of compile"]),
p("P19","The parsed schema says what the text says",
 "Every declaration and export in the text appears in the parsed schema exactly once and in order, with its own name, its variants or fields in order, each field with its own name, type name, array flag and optional flag. Nothing that is not in the text, such as comment contents, appears in it.",
 ["inputs"],"every syntactically valid text","Dropping, swapping or truncating something depends on particular combinations and positions.",
 [PA,"src/lib/ast.rs"],[("grammar actions",PA+":17-88")],obs=["parsed schema"]),
p("P20","Syntax errors point at the exact place",
 "The message for a syntax error states the line and column (both from 1) at which the furthest parse attempt failed and shows the character found there, or a NUL character at end of input. It shows that source line in full with a caret under that column, for any text including non-ASCII text, multiple lines and errors at line or file end.",
 ["inputs"],"every syntactically invalid text and every error position","No test looks at the rendered message, and byte, character and line arithmetic only goes wrong on particular texts.",
 [LI],[("error rendering",LI+":24-43")],obs=["error returned by compile"]),
p("P21","Every failure makes the command fail",
 "If the input path cannot be read, any schema file cannot be read or compiled, a directory cannot be listed, or any output cannot be created, the command exits with a failure status and reports the error. It exits successfully only if every schema file it found was compiled and its output written.",
 ["fault_sequences","inputs","configurations"],"every input tree and every file system or compile failure","The command has no tests, and file system failures are hard to provoke one by one.",
 [MA],[("error propagation from traversal, compile and save",MA+":45-140")],obs=["exit status"]),
p("P22","Nothing is written unless every schema compiled",
 "No output file or directory is created before all schema files found have been read and compiled successfully. Each output file is written once, with the complete generated code of its own schema and nothing else.",
 ["fault_sequences","inputs"],"every input tree, with an invalid or unreadable schema anywhere in it","The command has no tests, and the order of effects matters only when something in the middle fails.",
 [MA],[("compile-all then save-all sequencing",MA+":74-101,122-140")],obs=["files under the output directory"]),
p("P23","Output paths mirror input paths",
 "The output for a file found under the input directory is written at the same relative path under the output directory, with its final extension replaced by ts; a single input file is written directly in the output directory under its own file name with the final extension replaced by ts. Missing parent directories are created.",
 ["inputs","configurations"],"every input path, directory depth, and file name (including names with several dots)","The command has no tests and path shapes are unbounded.",
 [MA],[("output path computation",MA+":103-120"),("parent creation",MA+":92-101")],obs=["paths written"]),
p("P24","All .pkt files in the tree are compiled, and nothing else",
 "Given a directory, the command compiles every file below it, at any depth, whose extension is exactly pkt, and no other file. Given a file, it compiles that file.",
 ["inputs","configurations"],"every directory tree","The command has no tests; trees are unbounded.",
 [MA],[("directory traversal",MA+":45-62"),("mode selection",MA+":122-140")],obs=["files read and written"]),
p("P25","Rejections name the actual culprit",
 "The error for a duplicate names the duplicated declaration, or the duplicated field or variant together with the type that contains it; for a bad enum or optional array it names that enum, or that field and its struct; for an unknown type it names the missing type; for a recursive type it names a type on the cycle; for a bad export it says whether the export is missing, repeated, unknown or not a struct and names it if there is one. Each kind of mistake is reported as that kind and not as another one.",
 ["inputs"],"every invalid schema","Tests check a few messages for the simplest trigger; wrong names need two different names in play at once.",
 [CK],[("all rejection sites of the type checker",CK+":13-411")],obs=["error returned by compile"]),
]
with open('/verif/properties.jsonl','w') as f:
    for r in R:
        assert len(r['title'])<=80,(r['id'],len(r['title']))
        f.write(json.dumps(r,ensure_ascii=False)+'\n')
