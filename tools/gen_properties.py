#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the lines stay well-formed).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
FR=["koopa/src/front/lexer.rs","koopa/src/front/parser.rs","koopa/src/front/builder.rs","koopa/src/front/driver.rs","koopa/src/front/span.rs"]
p("F01","Reading any text ends in a program or an error",
 "Whatever bytes are given to the reader, as a buffer, as a stream or as a file, reading terminates and yields either a program or an error value. It never panics, aborts, overflows, or runs on without consuming input, and that includes reporting the diagnostics.",
 ["inputs"],"every byte string (bounded: all short strings over the lexical alphabet, all short token sequences, and all one- and two-edit corruptions of programs covering every construct)",
 "The tests parse about ten hand-written texts, two of them wrong; error recovery and diagnostics printing have a separate path per construct and per position.",
 FR,[("error recovery loop","front/parser.rs match_token!"),("semantic checks that report and go on","front/builder.rs"),("source line excerpts","front/span.rs")],observe_at=["Driver::generate_program / from_path"])
p("F02","An accepted text yields exactly the program it describes",
 "When a text is accepted, the program obtained has exactly the globals, functions, basic blocks, parameters, instructions, operands, types, constants and names the text states, each symbol bound to the definition it names, with globals and functions in text order and each block's instructions in text order. Only blocks unreachable from the function's first block may be left out.",
 ["inputs","programs"],"every well-formed text (bounded by construct menus, up to four blocks, two parameters, three instructions per hole, and single-token edits of a corpus)",
 "Tests compare a few fields of one parsed program and the exact text of six more; binding of a symbol through several predecessor blocks, shadowing and operand order are each sampled once at most.",
 FR,[("symbol resolution through predecessors","front/builder.rs generate_symbol"),("block ordering","front/builder.rs get_block_list"),("operand building","front/builder.rs generate_*")])
p("F03","Texts are accepted exactly when they are well-formed",
 "A text that breaks the grammar or a static rule (undefined or doubly defined symbol, wrong operand or argument type or count, undefined branch target, jump to the entry block, wrong return, bad initializer) is rejected with an error, and a text that breaks none of them is accepted. The verdict is the same whatever precedes or follows the offending construct.",
 ["inputs","programs"],"all single faults of every static rule at every place of a program corpus, all single-token edits of it, and all short token sequences",
 "Tests exercise two rejected programs; a missing or inverted check shows only on the specific rule and position that breaks it.",
 FR,[("type and arity checks","front/builder.rs generate_*"),("definition uniqueness","front/builder.rs local_symbols/global_vars"),("grammar","front/parser.rs")])
p("F04","Layout and comments do not change what a text means",
 "Replacing the space between two tokens by any other mix of blanks, line breaks, line comments and block comments changes neither the verdict nor the resulting program, except that a returned value must start on the line of its return. A token is never merged with or split by its neighbours where the lexical rules separate them.",
 ["inputs"],"every choice of separator at every token gap of a corpus (one gap exhaustively, two gaps in the thorough tier), and every pair of adjacent tokens without a separator",
 "One lexer test has two comments in fixed places.",
 ["koopa/src/front/lexer.rs","koopa/src/front/parser.rs"],[("comment and blank skipping","front/lexer.rs handle_comment/handle_block_comment/next_token"),("return value on the same line","front/parser.rs parse_return")])
p("F05","Concurrent and repeated readings do not affect each other",
 "The verdict and the program obtained for a text are the same no matter which other texts were, are being, or will be read before, between or after, on the same thread or on others. In particular an error in one text never makes another text fail, and never lets another ill-formed text pass.",
 ["histories","schedules"],"every interleaving of the create and run steps of up to three (thorough: four) readings of good, warning and bad texts on one thread, and of whole readings on two threads",
 "Each test reads one text from start to end on its own thread.",
 ["koopa/src/front/span.rs","koopa/src/front/driver.rs"],[("per-thread error counters","front/span.rs STATE"),("reset on creation","front/driver.rs Driver::new")],state=[dict(name="error/warning counters",meaning="per-thread counts that decide the verdict")])
p("F06","Reading is independent of how the stream delivers its bytes",
 "The result does not depend on how many bytes the stream hands over per call or on calls that ask to be retried, and a stream that fails or ends at any point gives an error, or for an early end exactly the result of the shortened text. A failed stream never yields a program.",
 ["fault_sequences","inputs"],"every single fault (hard error, retry request, early end, persistent or transient) at every read position of a corpus, and every chunking pattern with one deviation; two faults in the thorough tier",
 "All tests read from a complete in-memory buffer.",
 ["koopa/src/front/lexer.rs","koopa/src/front/parser.rs","koopa/src/front/driver.rs"],[("byte fetch and error mapping","front/lexer.rs next_char"),("fatal errors end recovery","front/parser.rs match_token!")])
p("F07","Diagnostics point at the offending place",
 "For a text with one lexical or syntactic fault, the first diagnostic reported carries the source name, line and column of the first token that cannot continue a valid program, counting from line 1 column 1. For a text that breaks another rule it lies within the first definition or declaration that breaks one. Every diagnostic points at the beginning of a token; for a file it shows the lines concerned as they are in the file, marked exactly below the place where the fault begins and the token where it ends (for a lexical or syntactic fault, the offending token alone), and the final summary counts the diagnostics. A rejected text always produces at least one diagnostic and an accepted one produces no error diagnostic.",
 ["inputs"],"all single-token deletions, insertions, replacements and exchanges of a corpus in several layouts, in buffer, standard input and file mode",
 "No test looks at a reported position of a real parse.",
 ["koopa/src/front/span.rs","koopa/src/front/lexer.rs","koopa/src/front/parser.rs"],[("position tracking","front/span.rs Pos::update"),("message location","front/span.rs print_file_info")],observe_at=["standard error"])
p("F08","Without the logger, errors come back as messages",
 "With the front-end logger disabled (feature no-front-logger), reading writes nothing to the standard streams, accepts the same texts and yields the same programs, and a rejected text gives an error that carries the messages of all faults reported, each with source name, line, column and text; the first one is the place the logger would report first. A failing reader gives a fatal error that carries the reader's own message. Messages of earlier readings never appear.",
 ["inputs","fault_sequences"],"all single-token edits of a corpus in several layouts and reading modes; a reader failing at every byte; one to forty faults in one text",
 "No test is run with the feature.",
 ["koopa/src/front/span.rs","koopa/src/front/driver.rs","koopa/src/front/lexer.rs"],[("messages without the logger","front/span.rs error_message, log_error, log_raw_fatal_error"),("error of the reader","front/driver.rs generate_program")])
p("F09","Every text splits into its tokens, each at its place",
 "The lexer divides any text into exactly the tokens the lexical rules prescribe: each with its kind, its value or spelling, and the line and column of its first and last character, in order, followed by the end of the text however often it is asked for more. Where no token is, it reports one ordinary fault and goes on behind the next blank.",
 ["inputs"],"every byte string up to length 5 (thorough 6) over an alphabet of byte classes, every two (thorough three) bytes of ASCII, every pair (thorough triple) of words with every separator, every one-byte edit of every word, long tokens and distant places",
 "One test lexes one text and looks at kinds only.",
 ["koopa/src/front/lexer.rs","koopa/src/front/token.rs","koopa/src/front/span.rs"],[("scanning","front/lexer.rs next_token, handle_*"),("positions","front/span.rs Span, Pos")])
p("F10","Every definition becomes its syntax tree, whatever its neighbours",
 "The parser yields, for every definition of a text, the syntax tree with the names, types, operands and order written, every part with the place from its first to its last token, and an error exactly if the text breaks the grammar. A missing, additional, misplaced or wrong token in one definition is reported and changes the tree of no other definition (unless it is an invalid token or an open comment at a border between two definitions).",
 ["inputs","programs"],"all enumerated programs in three layouts, and every single-token edit of every definition of a corpus between other definitions",
 "Tests parse two texts and ignore places; one of them has faults.",
 ["koopa/src/front/parser.rs","koopa/src/front/ast.rs","koopa/src/front/span.rs"],[("trees","front/parser.rs parse_*"),("recovery","front/parser.rs match_token!")])
p("F11","Every faulty definition is reported, and no other",
 "Reading a text of several independent definitions reports at least one error for every faulty definition, at its place, and none for a faultless one, whatever stands before and after it, up to the documented number of errors.",
 ["inputs"],"every sequence of up to three (thorough four) definitions from a pool of five faultless and over fifty faulty ones, with every kind of fault",
 "Tests read no text with two faults.",
 ["koopa/src/front/parser.rs","koopa/src/front/builder.rs","koopa/src/front/driver.rs"],[("recovery","front/parser.rs match_token!"),("errors do not stop the builder","front/builder.rs build_on_*")],observe_at=["standard error"])
p("F12","Diagnostics depend on the text alone",
 "Reading a text any number of times, in any thread and whatever the seeds of the hash maps, prints exactly the same diagnostics in the same order, and the numbers of errors and warnings that can be asked for afterwards are those of the ones printed, which the closing line repeats; the text is accepted exactly if no error is printed. A well-formed text gets exactly one warning for every basic block that can not be reached from the entry of its function, naming the block and pointing at it, and nothing else.",
 ["inputs","configurations"],"every control flow graph of up to five (thorough six) blocks, sequences of up to three (four) definitions of which most have several faults or unreachable blocks, every single-token edit of a corpus, several hash seeds each",
 "A test reads a text once, with one seed; no test has an unreachable block.",
 ["koopa/src/front/builder.rs","koopa/src/front/span.rs","koopa/src/front/driver.rs"],[("unreachable blocks","front/builder.rs get_block_list"),("counters and summary","front/span.rs log_*, log_global")],observe_at=["standard error","Span::error_num, Span::warning_num"])
p("B01","Printing a program and reading it back gives the same program",
 "The text printed for any valid program whose functions are called only after they are introduced is accepted by the reader and yields the same program: same globals, functions, reachable blocks, instructions, operands, types and constants. Printing that program again gives the same text, once blocks are in the order the reader gives them.",
 ["programs"],"all programs up to the stated shape bounds, including name clashes, unnamed entities, nested constants, all instruction kinds and all operand kinds",
 "Three tests print one parsed program each; programs built in memory, clashes and unnamed entities are not covered.",
 ["koopa/src/back/koopa.rs","koopa/src/back/generator.rs","koopa/src/front/parser.rs","koopa/src/front/builder.rs"],[("text printer","back/koopa.rs VisitorImpl"),("name allocation","back/generator.rs NameManager")])
p("B02","Printed names are unambiguous and explicit names survive",
 "In the printed text every global, function, and within a function every block, parameter and instruction result has a name that no other entity of the same name space has, every reference uses the name of exactly the entity referred to, and an explicitly named entity keeps its name unless another entity of the program asked for the same name. Names are legal symbols of the language.",
 ["programs"],"every assignment of names from a small clash-prone alphabet (unnamed, temporary-looking, equal, suffix-clashing, differing only in prefix) to every entity of a set of program skeletons, for both output formats",
 "The tests' programs have distinct names.",
 ["koopa/src/back/generator.rs","koopa/src/back/koopa.rs","koopa/src/back/llvm.rs"],[("name allocation and scopes","back/generator.rs NameManager"),("prefix handling","back/generator.rs Prefix")])
p("B03","LLVM output is valid LLVM IR",
 "For every valid program the LLVM text is accepted by LLVM's assembler and verifier, defines exactly the program's functions and globals, and refers to each of them by the name it is defined under.",
 ["programs"],"all programs up to the stated shape bounds in SSA-valid form, with every name assignment of the clash alphabet",
 "Three tests compare the text for fixed programs with phi instructions blanked out; nothing feeds the output to LLVM.",
 ["koopa/src/back/llvm.rs","koopa/src/back/generator.rs"],[("LLVM visitor","back/llvm.rs VisitorImpl"),("symbol and label naming","back/generator.rs NameManager")])
p("B04","LLVM output computes what the Koopa program computes",
 "Running the LLVM form of a program gives the result, memory effects and sequence of external calls that the Koopa program's meaning prescribes, for every input on which that meaning is defined.",
 ["programs","inputs"],"all programs up to the stated bounds (every operator on a boundary value grid, every pointer computation shape, every small control-flow graph with block parameters, calls and globals) executed on an input grid",
 "The tests compare text, never run it.",
 ["koopa/src/back/llvm.rs"],[("operator translation","back/llvm.rs visit_binary"),("block parameters as phi","back/llvm.rs visit_bb"),("pointer arithmetic","back/llvm.rs visit_getptr/visit_getelemptr")])
p("B05","Output faults are reported, never swallowed",
 "When the destination takes only part of a write, asks for a retry or fails at any point, text generation delivers exactly the same bytes, or reports the failure having delivered a prefix of them. It never reports success after losing output.",
 ["fault_sequences","programs"],"every single fault at every write call and every byte count for a corpus of programs in both formats; two faults in the thorough tier",
 "All tests write to a growing in-memory buffer.",
 ["koopa/src/back/koopa.rs","koopa/src/back/llvm.rs","koopa/src/back/generator.rs"],[("error propagation","back/koopa.rs, back/llvm.rs")])
p("B06","Printed text depends on the program alone",
 "Printing a program, in either format, gives the same bytes every time: from one run of the process to the next, for the same program built again or read again, whatever was printed before, and with a new or a used generator.",
 ["programs","configurations"],"all programs up to the stated shape bounds, built in several orders, under several hash seeds, printed repeatedly",
 "The order of hash sets differs between runs, so a test sees one of many outcomes and passes by luck.",
 ["koopa/src/back/koopa.rs","koopa/src/back/llvm.rs","koopa/src/back/generator.rs"],[("predecessor order","back/llvm.rs visit_bb"),("name assignment","back/generator.rs NameManager")])
p("B07","A name manager gives every entity one name of its own",
 "Whatever is asked of a name manager, and in whatever order: an entity asked for again gets the same name for as long as its function is being visited; no two live entities share a name (with the default prefix blocks have a name space of their own, with custom prefixes everything shares one); an entity with a name keeps it, with its prefix replaced and cut to the given length, unless it is taken, and then gets it with a suffix; an unnamed one gets the temporary prefix and a number; leaving a function forgets the names of its blocks and local values and makes them available again. Entering a function within a function, leaving one outside, and asking for the name of a constant panic.",
 ["histories"],"every sequence of up to 5 requests (thorough 6), and whole visits of two functions in many orders, over assignments of clashing names to two functions, two globals, two blocks and two values, and six settings of the prefixes",
 "The generators ask in one order only; other visitors ask in theirs, and tests use no clashing names.",
 ["koopa/src/back/generator.rs"],[("names","back/generator.rs NameManager"),("prefixes","back/generator.rs Prefix")],state=[dict(name="names given",meaning="one per live entity, all different within a name space")])
p("I01","Use lists always equal the actual uses",
 "After any sequence of creations, replacements, updates and removals of values and blocks, the recorded users of every value and of every block are exactly the values that currently mention it, and enumerating the operands of a value gives exactly its operands, in order. What would leave a use of something absent is refused by a panic, as documented: removing a value, block or block parameter that is used, and removing, replacing, updating, naming or using what has been removed.",
 ["histories"],"every operation sequence up to depth 4 (thorough 5) from several starting programs over an alphabet covering every value kind, explored as a state graph with deduplication",
 "No test performs a replacement, update or removal and looks at the users.",
 ["koopa/src/ir/dfg.rs","koopa/src/ir/entities.rs","koopa/src/ir/values.rs"],[("use list maintenance","ir/dfg.rs new/replace/update/remove"),("operand enumeration","ir/entities.rs ValueUses/BasicBlockUses"),("global use lists","ir/entities.rs Program::new_value_data/remove_value")],state=[dict(name="users of a value or block",meaning="must equal the set computed from all operands")])
p("I02","Layout lists behave as ordered lists and know each parent",
 "After any sequence of insertions, removals, moves and clears of blocks and instructions, the block list and every instruction list hold exactly the elements an ordinary ordered list would, in that order in both directions, and asking for the block of an instruction gives the block whose list holds it, or nothing if none does.",
 ["histories"],"every operation sequence up to depth 5 (thorough 6 or more) over two or three blocks and three instructions, explored as a state graph",
 "No test removes, moves or clears anything in a layout.",
 ["koopa/src/ir/layout.rs"],[("instruction to block map","ir/layout.rs inst_bb"),("list maps","ir/layout.rs BasicBlockMap/InstMap")],state=[dict(name="instruction-to-block map",meaning="parent of each laid-out instruction")])
p("I03","Builders accept exactly the well-typed instructions",
 "Creating a value, block or function succeeds exactly when its documented typing and naming conditions hold, and the created entity has the documented type, kind, operands, names and parameters; otherwise the documented panic occurs. Replacing a value keeps its identity and users and takes the new contents.",
 ["programs","configurations"],"every builder applied to every tuple of operands from a universe with every type shape up to depth 2, constants, globals, parameters and instruction results, blocks with every parameter list up to length 2",
 "Tests call each builder only with well-typed operands.",
 ["koopa/src/ir/builder.rs","koopa/src/ir/values.rs","koopa/src/ir/entities.rs","koopa/src/ir/dfg.rs"],[("typing assertions","ir/builder.rs"),("constructors","ir/values.rs")])
p("I04","Types are equal exactly when they are structurally the same",
 "Two types compare and hash equal exactly when they are built from the same constructors and arguments, in whatever order and however often they were created; the printed form is unique to the type and reads back as it; the size is the documented one for the configured pointer size. An array type without elements cannot be made.",
 ["histories","configurations"],"every type up to depth 3 over small argument sets, all pairs, several creation orders, pointer sizes 4 and 8; long arrays, long parameter lists and deep nesting",
 "Tests compare two pairs of types.",
 ["koopa/src/ir/types.rs"],[("type pool","ir/types.rs Type::get"),("size","ir/types.rs Type::size"),("printing","ir/types.rs Display")])
p("I05","Value comparison is structural",
 "Two values of a function are reported equal exactly when they have the same type, kind and attributes and their operands are pairwise equal in the same sense; the answer is symmetric, every value equals itself, and it is given however deep values are and however often they share operands.",
 ["programs"],"all pairs of values from a universe containing every kind with near-miss variants differing in one attribute, one operand or one argument count; lists of up to 300 operands with one odd one out, chains of up to 300 thousand values, values used twice at each of 300 levels, values that use each other",
 "One test compares integers and two operators.",
 ["koopa/src/ir/dfg.rs"],[("structural comparison","ir/dfg.rs data_eq/value_eq")])
p("I06","Handles are unique across programs and threads",
 "No two values, two blocks or two functions created in one process, in any programs and on any threads, ever share a handle, and a handle tells whether its value is global. Building on one thread never changes what another thread builds or prints.",
 ["schedules"],"every interleaving, at every access to shared memory, of two and three threads creating one or two entities each; one preemption at every instruction of creating, reading and printing (thorough: more combinations, whole readings with up to four preemptions)",
 "Tests never create entities on two threads on purpose and never compare handles.",
 ["koopa/src/ir/idman.rs","koopa/src/ir/entities.rs"],[("shared counters","ir/idman.rs next_*_id")])
p("I07","Programs edit as ordered collections of globals and functions",
 "After any sequence of adding, renaming and removing global values, globals and functions, the program lists exactly the surviving globals and functions in creation order, looks each up by its handle, gives function signatures that agree with their parameters, and answers removal of an absent function with nothing. Removing one entity changes nothing else.",
 ["histories"],"every operation sequence up to depth 5 (thorough 6) over two globals, three functions and their uses, explored as a state graph",
 "Tests only ever add.",
 ["koopa/src/ir/entities.rs","koopa/src/ir/builder.rs"],[("global and function tables","ir/entities.rs Program")],state=[dict(name="global layout, function layout and function type table",meaning="must agree with the surviving entities")])
p("O01","Passes run in registration order, once per target",
 "Running a pass manager runs every registered pass in registration order; a program pass runs once, a function pass runs exactly once on every function the program has at that moment, with that function's own data, and later passes see all earlier effects. Running it again repeats exactly that.",
 ["histories","programs"],"every sequence up to length 4 of program and function passes, including passes that add, remove or rewrite functions, on programs with zero to three functions, registered in every mix of construction styles, run one or two times",
 "No test runs a pass manager.",
 ["koopa/src/opt/passman.rs","koopa/src/opt/pass.rs"],[("pass loop","opt/passman.rs run_passes")])
p("C01","The raw program seen from C is a faithful image of the program",
 "Following the published C header, a C client that walks the raw form of a program sees exactly its globals, functions, blocks, parameters and instructions in order, with the right tags, types, names, constants, operands, callees, branch targets and argument indices, and each entity is one object however often it is referenced. The recorded users of every value and block are exactly those in the program, without duplicates.",
 ["programs"],"all programs up to the stated shape bounds, walked by a C program compiled against the header",
 "Three tests look at a few lengths, names and tags from Rust, so a header mismatch or a wrong operand is invisible.",
 ["libkoopa/src/raw/builder.rs","libkoopa/src/raw/entities.rs","libkoopa/include/koopa.h"],[("raw builder","libkoopa raw/builder.rs"),("layout agreement","libkoopa raw/entities.rs and include/koopa.h")])
p("C02","Raw programs convert to the program they describe",
 "Converting a raw program, whether obtained from a program or assembled by a C client, yields a program with the same globals, functions, blocks, instructions, operands, types, names and constants in the same order, whatever the order in which entities refer to each other.",
 ["programs"],"all programs up to the stated shape bounds, through raw form and back, plus raw programs assembled through the C header with forward and mutual references that text cannot express",
 "Three tests convert one program each, all with blocks already in discovery order.",
 ["libkoopa/src/raw/generator.rs","libkoopa/src/raw/ffi.rs"],[("raw reader","libkoopa raw/generator.rs GenerateOnRaw")])
p("C03","Dumping to a caller's buffer never oversteps it",
 "Dumping to a string with no buffer reports the text length without its terminator; with a buffer it writes exactly the text and one terminator if the given length has room for both and otherwise reports insufficient length and writes nothing. No byte beyond that is ever touched, and the text equals what every other destination receives.",
 ["inputs","configurations"],"for a corpus of programs and both formats, every buffer length from zero to the text length plus four, with and without a buffer",
 "Nothing in the tests calls the dump functions.",
 ["libkoopa/src/back.rs"],[("buffer contract","libkoopa back.rs dump_to_string")])
p("C04","C entry points report every failure by its documented code",
 "Each C entry point answers an unusable input (bad path, bad bytes, ill-formed program, failing descriptor, mis-tagged list, missing name, name without prefix, wrong function type, wrong parameter count) with the documented error code and leaves the caller's output untouched; it returns success and a usable program otherwise. It never aborts the process on inputs that the header lets a client express as errors.",
 ["inputs","fault_sequences"],"every entry point with every error class, and every single corruption of the tag, name, type and length fields of a raw program corpus",
 "No test calls an entry point, and no test passes a malformed raw program.",
 ["libkoopa/src/driver.rs","libkoopa/src/back.rs","libkoopa/src/raw/generator.rs","libkoopa/src/errors.rs"],[("error mapping","libkoopa driver.rs/back.rs"),("raw validation","libkoopa raw/generator.rs")])
p("C05","Raw builders can be reused and outlive the program",
 "One raw builder may be used for any sequence of programs, the same one repeatedly included; each raw program it returned stays valid and unchanged until the builder is deleted, even after the source program is deleted or other builders come and go. Deleting programs and builders in any order is safe.",
 ["histories"],"every sequence up to length 5 (thorough 6) of parse, build with one of two builders, delete program, delete builder, convert and dump over three programs, re-walking every live raw program after each step under an address checker",
 "Each test uses a fresh builder once.",
 ["libkoopa/src/raw/builder.rs","libkoopa/src/raw/ffi.rs","libkoopa/src/utils.rs"],[("ownership of raw memory","libkoopa raw/builder.rs RawProgramBuilder")],state=[dict(name="builder caches",meaning="keep raw memory alive and unique")])
p("C06","All sources and destinations agree",
 "Reading the same bytes from a file, a string, standard input or a descriptor gives the same verdict and program, and printing the same program to a file, a string, standard output or a descriptor gives the same bytes, complete when the call returns.",
 ["inputs","configurations"],"every source crossed with every destination, both formats, over a corpus of good and bad texts, twice in a row",
 "Tests read only strings and write only memory buffers.",
 ["libkoopa/src/driver.rs","libkoopa/src/back.rs","libkoopa/src/io.rs","koopa/src/front/driver.rs","koopa/src/back/generator.rs"],[("sources","libkoopa driver.rs"),("destinations","libkoopa back.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
