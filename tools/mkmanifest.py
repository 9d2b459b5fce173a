#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
REPLAY = ("Every behaviour is generated by TLC from the TLA+ specification and replayed on the real code, "
          "which must agree on every step. Bounded by the sizes and the number of behaviours explored; "
          "trusts TLC, the harness's projection and the specification's reading of the documentation. ")
CLAIMED = {
 "C01": ("TLA+ state machine of the IR (KoopaIR), TLC behaviours replayed on the IR API", REPLAY),
 "C02": ("TLA+ state machine of the layout (KoopaIR), TLC behaviours replayed on the layout API", REPLAY),
 "C03": ("TLA+ typing rules (KoopaIR), TLC behaviours with legal and illegal candidates replayed on the builders", REPLAY),
 "C04": ("TLA+ removal actions (KoopaIR), TLC behaviours replayed on the removal API", REPLAY),
 "C05": ("TLA+ interleavings of handle creation (Ids) model-checked by TLC and replayed with real threads", REPLAY),
 "C06": ("TLA+ histories of type construction (TypeSim), replayed on real types with full equality, printing and text comparison", REPLAY),
 "C13": ("TLA+ histories of drivers (DriverSim) over texts decided by the TLA+ front end (Front, FrontSim), replayed on one thread and on several", REPLAY),
 "C21": ("TLA+ specification of pass managers (PassMan), small configurations enumerated by TLC and larger ones simulated, replayed on the real pass manager", REPLAY),
 "C07": ("TLA+ structural equality (KoopaIR!VEq), TLC behaviours with full equality matrices replayed on value_eq/data_eq", REPLAY),
 "C08": ("TLA+ text form of programs (Prog) with arbitrary name assignments (ProgSim), programs built and printed by the real code and matched with the specified text", REPLAY),
 "C09": ("TLA+ text form of programs (Prog, ProgSim), programs built, printed, parsed and listed by the real code and compared with the specification", REPLAY),
 "C10": ("TLA+ front-end semantics (Front) and program generator (ProgSim, FrontSim), texts parsed by the real front end and compared with the specified program", REPLAY),
 "C11": ("TLA+ front-end semantics (Front!Meaning) decides damaged texts (FrontSim); the real front end must reject what the specification rejects", REPLAY),
 "C12": ("TLA+ lexer and front-end specification (Lex, LexSim, FrontSim) generates damaged characters and tokens; the real parser must end, and print what it accepts", REPLAY),
 "C14": ("TLA+ reachability and breadth-first order (Prog, Front), texts of random control-flow graphs parsed by the real front end", REPLAY),
 "C15": ("TLA+ specification of valid LLVM IR (LLVM: names, typed pointers, block shape, phi edges, dominance); modules generated by the real code from TLC's programs are traces that it must accept (LLVMTrace), and so must llvm-as", REPLAY),
 "C16": ("TLA+ operational semantics (Exec) gives random programs (ExecSim) and long loops (LoopSim) their meaning; the generated LLVM IR is run and its calls and result compared", REPLAY),
 "C22": ("TLA+ operational semantics (Exec) gives random programs their meaning; the programs written by the optimizer are traces that the specification (OptTrace: Front, Exec) must accept", REPLAY),
 "C23": ("TLA+ operational semantics (Exec) gives random programs (ExecSim) and long loops (LoopSim) their meaning; the interpreter's calls and result are compared", REPLAY),
 "C24": ("TLA+ specification of Brainfuck (BF) decides random programs; the Koopa IR written by the compiler is checked against it by the specification (OptTrace), the interpreter and LLVM", REPLAY),
 "C17": ("TLA+ picture of raw programs (Prog, RawSim: listing, users) and histories of the C interface (CApi, model-checked and simulated); raw forms built by the real library are read through the layout of koopa.h and compared", REPLAY),
 "C18": ("TLA+ programs (Prog, RawSim), as raw programs assembled by the harness and as raw forms of the library itself, are generated by the real library and compared with the specified text and listing", REPLAY),
 "C19": ("TLA+ enumeration of faults of a raw program with the error codes each may give (RawSim!Faults); each fault is injected into the raw program and generated by the real library", REPLAY),
 "C20": ("TLA+ protocol of the C interface (CApi): short histories enumerated by TLC, long ones simulated, over texts decided by the TLA+ front end; replayed on the real shared library with files, strings, buffers and failing calls", REPLAY),
 "C27": ("TLA+ specification of the name manager (NameMan); histories made by TLC (NameSim) are answered by the real one and the recorded answers checked by TLC (NameTrace)",
         "The recorded answers of the real name manager are validated step by step against the specification. Bounded by the sizes and number of histories explored; trusts TLC and the harness. "),
 "C28": ("TLA+ specification of generating to a faulty writer (Sink), every plan of up to two or three faults enumerated by TLC and replayed on the real generators", REPLAY),
 "C29": ("TLA+ model of the loggers (Report) and of texts with the places their errors may name (Front, Places): histories of two threads (ReportSim) and exhaustive and random texts replayed on the library built with no-front-logger", REPLAY),
 "C26": ("TLA+ lexer with positions (Lex), the logger (Report), and the tokens a first report may name (Places, over the front-end semantics Front), exhaustive tables of texts (FrontTable) and random ones (FrontSim, LexSim); reports of the real front end are compared", REPLAY),
 "C25": ("TLA+ lexer specification (Lex): random character sequences against the real lexer, and programs re-spelled with other separators against the real parser", REPLAY),
}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
NA = {}
checks = [{"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} thorough",
           "evidence_file": f"evidence/{i}.json", "technique": CLAIMED[i][0], "level": "model_checking",
           "level_note": CLAIMED[i][1]} for i in ids if i in CLAIMED]
na = [{"property": i, "reason": NA.get(i, "its check is not built yet")} for i in ids if i not in CLAIMED]
m = {"version": 1, "setup_cmd": "cd harness && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/../target/kv cargo build --offline --quiet",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: everything checked is observable through public items."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
