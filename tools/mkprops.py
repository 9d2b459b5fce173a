#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of its text)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Recorded users are exactly the actual users",
  "At every point of any history of IR API calls, the users recorded for a value are exactly the existing values that have it as an operand, and the users recorded for a basic block are exactly the existing branches and jumps that target it. Creating, replacing, updating or removing a value, and removing a function, keep both directions in step, for local and for global values.",
  ["histories"], "every sequence of create/replace/update/remove calls on values, blocks and functions of a program",
  "Tests build two tiny fixed programs and never look at user sets; the property quantifies over all edit histories, including an operand used several times by one instruction and replacement that changes operands.",
  ["koopa/src/ir/dfg.rs", "koopa/src/ir/entities.rs", "koopa/src/ir/builder.rs"],
  [("use-list maintenance on create/replace/update/remove", "koopa/src/ir/dfg.rs: new_value_data, replace_value_with_data, update_value, remove_value"),
   ("operand enumeration", "koopa/src/ir/entities.rs: ValueUses, BasicBlockUses"),
   ("global values", "koopa/src/ir/entities.rs: Program::new_value_data, remove_value, remove_func")],
  [("used_by", "users of a value / of a block", "koopa/src/ir/entities.rs")],
  ["ValueData::used_by", "BasicBlockData::used_by"])

p("C02", "Layout order and parent lookup follow the edits exactly",
  "After any sequence of insertions, removals and clears of blocks and instructions in a function's layout, iterating gives exactly the order those edits imply, forwards and backwards, and the first block is the entry. Asking for the block that holds an instruction answers that block exactly when the instruction is currently placed in it, and nothing when it is in no block of the layout.",
  ["histories"], "every sequence of push/insert/remove/clear edits on the block list and the instruction lists",
  "No test edits a layout beyond appending; stale parent entries and broken links only show after particular edit sequences.",
  ["koopa/src/ir/layout.rs"],
  [("instruction-to-block map kept by the list maps", "koopa/src/ir/layout.rs: InstMap, BasicBlockMap"), ("ordered lists", "koopa/src/ir/layout.rs: BasicBlockList, InstList")],
  [("inst_bb", "which block an instruction is in", "koopa/src/ir/layout.rs")],
  ["Layout::bbs", "Layout::parent_bb", "Layout::entry_bb"])

p("C03", "Every value built by the API is well typed",
  "Every value-building call produces a value that has exactly the operands given and the type the Koopa IR language assigns to that operation. A call whose operands break the typing rules (wrong operand type, wrong number or types of arguments, a unit-typed operand, an unknown callee) is rejected and no such value appears in the program.",
  ["histories", "inputs"], "every builder call, well typed or ill typed, in every reachable program, both for new values and for replacements",
  "Tests call a handful of builders with correct operands only; rejection and result types are never asserted over the space of operand types.",
  ["koopa/src/ir/builder.rs", "koopa/src/ir/values.rs", "koopa/src/ir/types.rs"],
  [("typing assertions and result types", "koopa/src/ir/builder.rs: ValueBuilder, GlobalInstBuilder, LocalInstBuilder"), ("block parameters", "koopa/src/ir/builder.rs: BasicBlockBuilder")],
  None, ["builder methods", "ValueData::ty", "ValueData::kind"])

p("C04", "Removal deletes exactly its target and never something in use",
  "Removing a value, block or function deletes exactly that entity (a block together with its parameters), hands its data back, and leaves every other entity, name and order untouched. Removing a value or block that still has users is refused, and removing a function that is not in the program reports that nothing was removed.",
  ["histories"], "every removal, legal or not, after every edit history",
  "No test removes anything.",
  ["koopa/src/ir/dfg.rs", "koopa/src/ir/entities.rs"],
  [("guards on user sets", "koopa/src/ir/dfg.rs: remove_value, remove_bb"), ("program-level removal", "koopa/src/ir/entities.rs: Program::remove_value, remove_func")],
  None, ["remove_value", "remove_bb", "remove_func"])

p("C05", "Handles are unique, including across threads",
  "Handles of values, blocks and functions created by any number of threads in any interleaving are pairwise distinct within their class. Whether a value is global or local can be told from its handle alone and never changes.",
  ["schedules"], "every interleaving of handle creation on concurrent threads, each with its own programs",
  "All tests are single threaded and never compare handles.",
  ["koopa/src/ir/idman.rs", "koopa/src/ir/entities.rs"],
  [("atomic counters", "koopa/src/ir/idman.rs"), ("global/local split of the id range", "koopa/src/ir/idman.rs: is_global_id")],
  None, ["Value", "BasicBlock", "Function", "Value::is_global"])

p("C06", "Types are equal exactly when they have the same structure",
  "Two types compare equal (and hash equal) exactly when they have the same structure, however and in whatever order they were obtained. A type's printed form reads back as the same type, and its size is the language's: 4 bytes for an integer, none for unit, element size times length for an array, and the configured pointer size for pointers and functions.",
  ["histories", "inputs"], "every type over the constructors up to a depth, in every order of construction, under every pointer-size configuration",
  "Two tests compare a dozen fixed types; interning bugs depend on construction order and on which types were made before.",
  ["koopa/src/ir/types.rs"],
  [("interning pool", "koopa/src/ir/types.rs: Type::new"), ("size and display", "koopa/src/ir/types.rs")],
  None, ["Type::get_*", "Type::size", "Display for Type"])

p("C07", "Structural value equality is exact",
  "Two values of a function are reported equal exactly when they have the same type, the same operation with the same attributes (operator, constant, parameter position, callee, targets, argument counts) and pairwise equal operands. The relation is reflexive, symmetric and transitive, and ignores names and users.",
  ["histories", "inputs"], "every pair of values in every reachable function",
  "One test compares six values of two kinds.",
  ["koopa/src/ir/dfg.rs"],
  [("recursive comparison", "koopa/src/ir/dfg.rs: value_eq, data_eq")],
  None, ["DataFlowGraph::value_eq", "DataFlowGraph::data_eq"])

p("C08", "Names in generated text are valid, unique and unambiguous",
  "In generated text every global symbol and function has a name different from every other, and within a function no parameter, block or instruction shares its name with another one of them or with a global. Every reference in the text therefore denotes the entity it denotes in the program, whatever symbols of the language (duplicate, numeric, clashing across kinds, or none) the entities carry as names, and a name that is not a number and clashes with nothing is printed unchanged.",
  ["programs"], "every program, with every assignment of names to its entities",
  "Printer tests use one program with well-behaved names; clashes depend on combinations of name, kind and order.",
  ["koopa/src/back/generator.rs", "koopa/src/back/koopa.rs"],
  [("name scopes, temporaries and de-duplication", "koopa/src/back/generator.rs: NameManager"), ("visiting order", "koopa/src/back/koopa.rs")],
  None, ["KoopaGenerator output", "NameManager"])

p("C09", "Printing then parsing gives the same program back",
  "For every well-formed program whose functions are defined or declared before they are called and whose blocks are all reachable and laid out breadth first, parsing its generated text succeeds and yields a program with the same globals, functions, blocks, parameters, instructions, types, operands and order. Generating text from that program again gives the same text, up to the numbers of temporaries.",
  ["programs"], "every well-formed program built through the API, of every instruction kind, type and control-flow shape",
  "Tests print one program and compare a string; no test feeds printed text back.",
  ["koopa/src/back/koopa.rs", "koopa/src/back/generator.rs", "koopa/src/front/parser.rs", "koopa/src/front/builder.rs"],
  [("text printer", "koopa/src/back/koopa.rs: Visitor"), ("parser and IR builder", "koopa/src/front")],
  None, ["KoopaGenerator", "Driver::generate_program"])

p("C10", "Well-formed text is accepted and built exactly as written",
  "Every well-formed Koopa IR text is accepted, and the resulting program has exactly the globals, initializers, functions, parameters, blocks, instructions, operands, names and types that the text says. Each symbol resolves to the definition that is in scope at its use, and temporaries are left unnamed.",
  ["inputs", "programs"], "every well-formed program text over all constructs and control-flow shapes",
  "Tests parse one function and compare the syntax tree; building is only exercised on one or two fixed programs.",
  ["koopa/src/front/parser.rs", "koopa/src/front/builder.rs", "koopa/src/front/lexer.rs"],
  [("parsing", "koopa/src/front/parser.rs"), ("symbol resolution and IR construction", "koopa/src/front/builder.rs")],
  None, ["Driver::generate_program"])

p("C11", "Ill-formed text is always rejected",
  "Text that breaks a rule of the language (syntax; undefined or doubly defined symbol, function or block; type mismatch; wrong number of arguments; initializer of the wrong shape; bad return; a predecessor on the entry block; a branch to one block twice with arguments; an array length that is not positive) always yields an error and never a program.",
  ["inputs", "programs"], "every single violation of every rule placed anywhere in any otherwise well-formed program",
  "Only one parse-error recovery test exists; no semantic rule has a negative test.",
  ["koopa/src/front/parser.rs", "koopa/src/front/builder.rs", "koopa/src/front/lexer.rs"],
  [("syntax errors and recovery", "koopa/src/front/parser.rs: match_token, read"), ("semantic checks", "koopa/src/front/builder.rs"), ("error counting", "koopa/src/front/span.rs")],
  None, ["Driver::generate_program"])

p("C12", "Parsing any bytes ends in a program or an error, never a crash",
  "For every finite byte sequence of bounded nesting, parsing terminates and returns either a program or an error. It never panics, aborts or loops, and a returned program can always be printed.",
  ["inputs"], "every byte sequence and every sequence of tokens, in particular programs damaged at arbitrary places",
  "Tests feed one damaged input; recovery paths depend on where and how the input is damaged.",
  ["koopa/src/front/lexer.rs", "koopa/src/front/parser.rs", "koopa/src/front/builder.rs", "koopa/src/front/driver.rs", "koopa/src/front/span.rs"],
  [("error recovery", "koopa/src/front/parser.rs: match_token"), ("checks before building", "koopa/src/front/builder.rs")],
  None, ["Driver::generate_program", "koopa_parse_from_*"])

p("C13", "The outcome of a parse depends only on its own input",
  "Whatever parses ran, failed or were only prepared before it on the same thread or others, a parse of a given input gives the same outcome. An input source that fails part-way gives an error, never a program built from the part that was read.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of creating and running parsers on one or more threads, and every point at which the reader fails",
  "Every test runs one parser on one good in-memory reader.",
  ["koopa/src/front/driver.rs", "koopa/src/front/span.rs", "koopa/src/front/lexer.rs"],
  [("per-parse reset of diagnostics state", "koopa/src/front/span.rs: Span::reset, GlobalState"), ("reader errors", "koopa/src/front/lexer.rs: next_char")],
  None, ["Driver::from", "Driver::generate_program"])

p("C14", "Built functions hold exactly the reachable blocks, breadth first",
  "The blocks of a function built from text are exactly those reachable from its first block, each once, starting with the first block and then in breadth-first order with the true target before the false target. Text whose first block has a predecessor among its reachable blocks is rejected.",
  ["programs"], "every control-flow graph",
  "Tests have straight-line or single-branch functions, where every order is the same.",
  ["koopa/src/front/builder.rs"],
  [("block list construction", "koopa/src/front/builder.rs: get_block_list, init_local_bbs")],
  None, ["Driver::generate_program", "Layout::bbs"])

p("C15", "Generated LLVM IR is always valid",
  "For every well-formed program, whatever names its entities carry, the generated LLVM IR is well formed: names are unique and defined, types agree, and each block parameter is merged from exactly one incoming value per control-flow predecessor.",
  ["programs"], "every well-formed program, with every assignment of names",
  "The tests compare one or two outputs with fixed strings and never assemble them.",
  ["koopa/src/back/llvm.rs", "koopa/src/back/generator.rs"],
  [("LLVM visitor", "koopa/src/back/llvm.rs"), ("name allocation", "koopa/src/back/generator.rs")],
  None, ["LlvmGenerator output"])

p("C16", "Generated LLVM IR computes what the Koopa IR program computes",
  "For every well-formed program without undefined behaviour, running the generated LLVM IR gives the same result and the same external calls, with the same arguments in the same order, as the operational semantics of Koopa IR prescribe.",
  ["programs", "inputs"], "every program over all operators, memory operations, control-flow shapes and block arguments",
  "No test runs generated LLVM IR.",
  ["koopa/src/back/llvm.rs"],
  [("instruction translation", "koopa/src/back/llvm.rs: Visitor")],
  None, ["LlvmGenerator output"])

p("C17", "The raw (C) form of a program is a faithful picture of it",
  "The raw program built from any program has the same globals, functions, blocks, parameters, instructions, operands, types, names and order, and each entity is represented by one object, so that references in the raw form are to that object. The user lists of the raw form name exactly the users of each entity, and the memory stays valid until the builder is deleted, also after the program is deleted and when one builder builds several programs.",
  ["programs", "histories"], "every program, and every sequence of builds, reads and deletions on the C interface",
  "Three programs are built into raw programs and back; what the raw form says is hardly looked at.",
  ["libkoopa/src/raw/builder.rs", "libkoopa/src/raw/entities.rs", "libkoopa/include/koopa.h"],
  [("raw program builder", "libkoopa/src/raw/builder.rs: RawProgramBuilder")],
  None, ["koopa_build_raw_program"])

p("C18", "Generating a program from its raw form preserves it",
  "Generating a Koopa program from the raw form of any well-formed program succeeds and gives a program with the same globals, functions, blocks, parameters, instructions, types, operands, names and order.",
  ["programs"], "every well-formed program, with any control-flow shape and order of blocks",
  "Three programs are generated from their raw forms.",
  ["libkoopa/src/raw/generator.rs", "libkoopa/src/raw/mod.rs"],
  [("raw-to-Koopa generator", "libkoopa/src/raw/generator.rs")],
  None, ["koopa_generate_raw_to_koopa"])

p("C19", "Malformed raw programs are reported with the right error",
  "A raw program with a null pointer where an object is needed, a slice of the wrong kind of item, a type that does not fit, or a wrong number of function parameters is reported by the error code documented for that fault, and no program is produced. The output pointer is written only on success.",
  ["inputs", "fault_sequences"], "every single fault of these kinds injected at every place of any raw program",
  "There is no test of it.",
  ["libkoopa/src/raw/generator.rs", "libkoopa/src/errors.rs", "libkoopa/src/raw/mod.rs"],
  [("checked conversion", "libkoopa/src/raw/generator.rs"), ("error codes", "libkoopa/src/errors.rs")],
  None, ["koopa_generate_raw_to_koopa"])

p("C20", "The C interface follows its documented protocol",
  "Parsing through the C interface, from a file, string or raw bytes, returns success and a program exactly when the library accepts the input, and otherwise the documented error code with the output pointer untouched. Dumping to a file, a string or a sized buffer gives exactly the library's text: a null buffer reports the length, a buffer with room for the text and its terminator is filled, and a smaller one is refused without being overrun.",
  ["inputs", "histories", "fault_sequences"], "every input, buffer size and file fault, in every call sequence",
  "There is no test of the C interface.",
  ["libkoopa/src/driver.rs", "libkoopa/src/back.rs", "libkoopa/src/utils.rs", "libkoopa/src/io.rs", "libkoopa/include/koopa.h"],
  [("parse entry points", "libkoopa/src/driver.rs"), ("dump entry points", "libkoopa/src/back.rs")],
  None, ["koopa_parse_from_*", "koopa_dump_to_*", "koopa_dump_llvm_to_*"])

p("C21", "Passes run in registration order over the whole program",
  "Running a pass manager runs every registered pass once per run, in the order of registration, each seeing the effects of all earlier ones. A module pass gets the whole program once, and a function pass gets every function present at that point exactly once, with the handle that belongs to it.",
  ["histories", "configurations"], "every list of passes, including ones that add or remove functions, over every program and number of runs",
  "No test runs a pass.",
  ["koopa/src/opt/passman.rs", "koopa/src/opt/pass.rs"],
  [("pass loop", "koopa/src/opt/passman.rs: run_passes")],
  None, ["PassManager"])

p("C22", "The optimizer preserves what a program computes",
  "For every well-formed program without undefined behaviour, the program written by the bundled optimizer is well formed and has the same result and the same external calls as the original.",
  ["programs"], "every program over all operators, constants, dead code and control-flow shapes",
  "No test runs the optimizer.",
  ["koopa/examples/opt/const_fold.rs", "koopa/examples/opt/dce.rs", "koopa/examples/opt/main.rs"],
  [("constant folding", "koopa/examples/opt/const_fold.rs"), ("dead code elimination", "koopa/examples/opt/dce.rs")],
  None, ["opt example"])

p("C23", "The interpreter implements the semantics of Koopa IR",
  "For every well-formed program without undefined behaviour, the bundled interpreter gives the result, and makes the external calls, that the operational semantics of Koopa IR prescribe; block arguments are passed simultaneously and arithmetic wraps at 32 bits.",
  ["programs", "inputs"], "every program over all operators, memory operations, control-flow shapes and block arguments",
  "No test runs the interpreter.",
  ["koopa/examples/interpreter/interpreter.rs", "koopa/examples/interpreter/main.rs"],
  [("evaluation", "koopa/examples/interpreter/interpreter.rs")],
  None, ["interpreter example"])

p("C24", "The Brainfuck compiler preserves what a program does",
  "For every Brainfuck program with balanced brackets the bundled compiler emits well-formed Koopa IR that makes the same reads and writes, in the same order with the same bytes, as the Brainfuck program; a program with unbalanced brackets is rejected.",
  ["programs", "inputs"], "every Brainfuck program and input",
  "No test runs the compiler.",
  ["koopa/examples/brainfuck/main.rs"],
  [("code generation", "koopa/examples/brainfuck/main.rs")],
  None, ["brainfuck example"])

p("C25", "Tokens are cut the same way whatever surrounds them",
  "Reading any text gives the longest-match token sequence of the language: symbols, keywords, operators, integers in the 64-bit range and punctuation, with the exact spelling or value. White space and line or block comments, of any content and placed between any two tokens, change nothing except where a line break ends a return without a value.",
  ["inputs"], "every character sequence over the significant character classes up to a length, and every placement of separators and comments in any program",
  "One test lexes one text with three comments.",
  ["koopa/src/front/lexer.rs", "koopa/src/front/token.rs", "koopa/src/front/parser.rs"],
  [("character automaton", "koopa/src/front/lexer.rs: Lexer")],
  None, ["Lexer::next_token", "Driver::generate_program"])

p("C26", "Reports about a text add up and point to the right place",
  "Every token read from a text carries exactly the lines and columns it occupies. Reading a text succeeds exactly when no error was counted, and each counted error and warning was reported. A well-formed text gets one warning for each unreachable block, at that block, and no other. The first error reported about an ill-formed text points to where it goes wrong: the bad characters, the first token with which no well-formed text goes on, or the statement, constant, operand, header or name that breaks a rule. For a file, the report shows the lines the message is about, each numbered and on a line of its own, and marks its first and last column. Threads count and report for themselves.",
  ["inputs"], "every text, as characters or tokens, read from memory or a file",
  "The tests only check that some texts are accepted; the positions of one span are tested on its own.",
  ["koopa/src/front/span.rs", "koopa/src/front/lexer.rs", "koopa/src/front/parser.rs", "koopa/src/front/builder.rs", "koopa/src/front/driver.rs"],
  [("positions", "koopa/src/front/lexer.rs: next_char"), ("spans of tokens and trees", "koopa/src/front/parser.rs"), ("counts and excerpts", "koopa/src/front/span.rs"), ("rules", "koopa/src/front/builder.rs")],
  None, ["Span::error_num", "Span::warning_num", "Token::span", "reports on standard error", "Driver::generate_program"])

p("C29", "Without its logger the front end answers the same and its errors say why",
  "Built with `no-front-logger`, the front end accepts and rejects the same texts and counts the same errors and warnings as with its logger, and prints nothing. Every error it returns has a message; the message of an error about a place begins with the name of the text, the line and the column of that place, and the message of the only error of a text says where it goes wrong.",
  ["inputs", "configurations", "histories"], "every text, and every history of reports on several threads, in the build without the logger",
  "The tests are only run with the logger, and look at no message.",
  ["koopa/src/front/span.rs", "koopa/src/front/driver.rs"],
  [("counts and messages", "koopa/src/front/span.rs: log_error, log_raw_error, error_message"), ("the error of a text", "koopa/src/front/driver.rs: generate_program")],
  None, ["feature no-front-logger", "front::span::Error", "Driver::generate_program", "Span::error_num", "Span::warning_num"])

p("C27", "Generated names are stable, unique and faithful",
  "Within one visit of a program, asking for the name of a function, global, block or local value always gives the same name, until the function is left for blocks and local values; no two names in use, temporary ones included, are ever equal. An entity whose own name, under the prefix in force, is free gets exactly that; otherwise it gets a fresh name made from it, or, for numbers and unnamed entities, a fresh temporary name. Entering a function inside a function, leaving one outside, and naming a constant are refused without effect.",
  ["histories", "configurations"], "every order of requests over every assignment of clashing names, prefixes and length limits",
  "No test uses the name manager on its own; the tests that print programs have no clashing names.",
  ["koopa/src/back/generator.rs"],
  [("names in use", "koopa/src/back/generator.rs: NameManager"), ("prefixes", "koopa/src/back/generator.rs: Prefix")],
  None, ["NameManager"])

p("C28", "Failing writers are reported and lose or repeat nothing",
  "Generating text, Koopa IR or LLVM IR, to a writer that takes few bytes per call, asks to be called again, takes nothing, or fails at any byte: the call succeeds exactly when the whole text was taken, and then the writer has that text. Otherwise it gives the writer's error, the writer has the part of the text before the failure, and nothing after it. The next attempt with the same generator writes the text from its beginning. A generator for a path replaces what the file held, and gives an error when it cannot be created.",
  ["fault_sequences", "programs"], "every sequence of short writes, interruptions and failures over the bytes of any text, for several attempts with one generator",
  "Every test writes to memory, which never fails.",
  ["koopa/src/back/generator.rs", "koopa/src/back/koopa.rs", "koopa/src/back/llvm.rs"],
  [("generation", "koopa/src/back/generator.rs: generate_on"), ("Koopa IR text", "koopa/src/back/koopa.rs"), ("LLVM IR text", "koopa/src/back/llvm.rs")],
  None, ["Generator::generate_on", "Generator::from_path"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
