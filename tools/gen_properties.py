#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
T = "tiny/src/tiny.c"; L = "tiny/src/lexer.c"; S = "tiny/src/std.c"

prop("C01", "Expressions evaluate to the value the language defines",
 "For every well-typed expression over int, float, bool and str operands (literals, constants, locals, globals, arguments, call results), evaluation yields the value given by the language's arithmetic: 64-bit integer arithmetic with truncating division, IEEE double for anything mixed or float, integer-only remainder, bitwise and shift operators, numeric comparison, content equality, short-circuit logic and conditional expressions, grouped by the documented precedence and left associativity. The result depends only on operand values, never on how an operand was written (literal, constant, variable, negative, 0/1, small or large) or on which operand is evaluated first, and every operand with a side effect is evaluated exactly once, left to right.",
 ["programs", "inputs"], "all well-typed expression trees without division by zero or integer overflow, all operand spellings, all value ranges representable in 64 bits",
 "The suite evaluates a handful of fixed expressions with small ints; it never mixes operand spellings, widths, nesting, float/int mixes or side effects, so opcode specialisation and precedence bugs outside those samples are invisible.",
 [T], [("expression parsing and precedence", "tiny/src/tiny.c:ParseBinRhs, GetTokenPrec, ParseFactor"), ("typing of operators", "tiny/src/tiny.c:ResolveTypes"), ("opcode selection", "tiny/src/tiny.c:CompileExpr, GeneratePushInt"), ("evaluation", "tiny/src/tiny.c:ExecuteCycle")],
 ["values received by a bound foreign function", "global variables after the run"])

prop("C02", "Statements, control flow, scoping and calls execute as written",
 "Running any well-typed, terminating program produces exactly the sequence of foreign-call observations and the final globals prescribed by its source: declarations, plain and compound assignment, if/else chains, while and for loops with break and continue at any nesting, block scoping and shadowing, early and value returns, recursion and mutual recursion before definition. Each local, argument and global is its own storage, a call affects only what it assigns, and a loop's step and condition run exactly as often as the source says.",
 ["programs"], "all well-typed terminating programs within the documented stack and call-depth limits",
 "Tests run about a dozen fixed programs; nested loops with several break/continue targets, slot reuse across scopes, calls in argument position and mixed early returns form an unbounded space.",
 [T], [("statement code generation and jump patching", "tiny/src/tiny.c:CompileStatement, PatchBreakContinue, PatchJumpLoc"), ("scopes and slots", "tiny/src/tiny.c:DeclareLocal, ReferenceVariable, CloseScope"), ("frames", "tiny/src/tiny.c:DoPushIndir, DoPopIndir")],
 ["trace of foreign calls", "final globals", "function return values"])

prop("C03", "Structs behave as shared references with independent named fields",
 "Constructing a struct, positionally or by naming its fields in any order, gives an object whose every field reads back exactly the value supplied for it; assigning, plainly or compound, to one field changes only that field of that object, and the change is visible through every alias and no other object. Field chains, index sugar and arrow-call sugar mean exactly the field accesses and function calls they abbreviate, with each operand evaluated once and in order.",
 ["programs", "histories"], "all struct shapes (1..255 fields, any field types, nested and self-referential), all construction orders, all aliasing and mutation histories",
 "The suite builds a few small structs and reads fixed fields; permutations of designators, aliasing histories and deep chains are never varied.",
 [T], [("construction and field access", "tiny/src/tiny.c:ParseValue, ParseSuffix, ParseStruct, CompileExpr, CompileStatement"), ("field lookup", "tiny/src/tiny.c:GetFieldTag"), ("execution", "tiny/src/tiny.c:NewStructObject, ExecuteCycle")],
 ["field values read by script and by the C field accessor"])

prop("C04", "Well-typed programs are accepted and values have their declared types",
 "Every program that follows the typing rules compiles, whatever mix of inferred and declared types, nullable types, foreign types, structs, forward references and call styles it uses. While it runs, every value held by a variable, argument, field or result has the run-time kind its static type announces, so no operator ever sees an operand of another kind.",
 ["programs"], "all well-typed programs without unchecked casts; every variable, argument, field and foreign argument at every point of execution",
 "Tests compile fixed snippets and look at final values only; static types and run-time kinds are never compared across generated programs.",
 [T], [("type resolution", "tiny/src/tiny.c:ResolveTypes, IsTagAssignableTo, GetTagFromName, GetOrCreateNullable"), ("conversion of values", "tiny/src/tiny.c:CompileExpr, ExecuteCycle")],
 ["compile result", "run-time kind of every observed value"])

prop("C05", "Ill-typed or ill-formed programs are rejected at compile time",
 "A program containing a type or name error is never accepted: wrong argument type or too few or too many arguments, wrong or missing struct fields, undeclared names, functions, types or fields, redeclaration, incompatible assignment, initialisation or return, non-bool conditions, operators on operands they are not defined for (also in compound assignment), assigning to constants, or break/continue outside a loop. The error is reported on the line containing the mistake.",
 ["programs"], "every well-typed program with one error injected from each class, at every place of the program where it can occur",
 "The suite checks a couple of rejected snippets; acceptance of an ill-typed program corrupts the VM silently and depends on the combination of construct, position and types.",
 [T, "tiny/src/util.c"], [("type checking", "tiny/src/tiny.c:ResolveTypes, CompileExpr, CompileStatement"), ("error positions", "tiny/src/tiny.c:ReportErrorE; tiny/src/util.c:Tiny_FormatErrorV")],
 ["compile result type, position and message"])

prop("C06", "Compilation is total: any text compiles or yields one well-formed error",
 "For every source text, compiling terminates without crash, failed assertion, out-of-bounds access, unbounded memory or leak, and returns either success or an error whose message is a non-empty, bounded string naming the file and whose position lies within the text. The outcome is a function of the text and the bindings alone: compiling the same text again in an equal state gives the same result.",
 ["inputs"], "all byte strings without embedded zero, in particular truncations, token deletions, duplications and swaps of valid programs, and arbitrary bytes",
 "Tests feed only hand-written valid programs and one or two erroneous ones; the space of malformed inputs is unbounded and each crash needs a particular malformed shape.",
 [L, T, "tiny/src/util.c"], [("tokenising", "tiny/src/lexer.c:GetToken"), ("parsing", "tiny/src/tiny.c:ParseStatement, ParseValue, ParseFunc, ParseStruct"), ("error reporting", "tiny/src/tiny.c:ReportErrorL, ReportErrorE; tiny/src/util.c:Tiny_FormatErrorV")],
 ["compile result", "sanitizer reports", "allocations through the context"])

prop("C07", "A failed compile leaves the state exactly as it was",
 "After a compile that reports an error, the state behaves as if that compile had never been attempted: previously compiled code still runs with the same result, names introduced by the failed text are unknown and can be introduced again, and every later compile gives the same result and behaviour as on a state that never saw the failure. Nothing allocated for the failed attempt stays reachable from or owned by the state beyond its deletion.",
 ["histories", "fault_sequences"], "all interleavings of successful and failing compiles, with the failure at any point of the text (syntax, type, code generation, macro)",
 "Two fixed tests compile one failing text; the state left behind depends on how far the compile had got and is only observable through what is compiled next.",
 [T], [("rollback", "tiny/src/tiny.c:Tiny_CompileString"), ("symbol table and program buffer", "tiny/src/tiny.c:CompileState, DeclareGlobalVar, ParseFunc, ParseStruct")],
 ["results of later compiles and runs", "context allocation balance"])

prop("C08", "Compiling a program in pieces equals compiling it whole",
 "Splitting a program at top-level statement boundaries into any number of consecutive compiles on one state (from strings or from files, interleaved with binding new functions, constants and types) gives the same observable behaviour as compiling the concatenation once: later pieces see earlier functions, globals, constants and structs, and running executes all pieces in order. Threads started after a later compile run all the code compiled so far; a thread which was used before a later compile keeps its globals, and the globals added later are null in it until their declarations run.",
 ["programs", "histories"], "all programs and all ways of splitting them at top-level boundaries where each piece only refers to itself and earlier pieces",
 "One test compiles two fixed strings; the interaction of program tail, global numbering, function numbering and string table depends on what each piece contains.",
 [T], [("incremental compile", "tiny/src/tiny.c:Tiny_CompileString, Tiny_CompileFile, CompileState, BuildForeignFunctions")],
 ["trace of foreign calls", "final globals"])

prop("C09", "Garbage collection never frees or alters a reachable value",
 "At every point of every execution, each object reachable from a global, a live local or argument, a pending operand, the last return value, or through structs, arrays, dicts and natives that mark their contents, still has the contents the program gave it, whatever collections have run in between. Reachable cycles and long chains of references are handled like any other objects.",
 ["programs", "histories", "schedules"], "all object graphs and mutation histories, and all points at which a collection can occur",
 "The suite never varies when a collection runs relative to temporaries and graph shape; a missing root shows up only when a collection hits a narrow window.",
 [T, S], [("mark and sweep", "tiny/src/tiny.c:Tiny_ProtectFromGC, MarkAll, Sweep, GarbageCollect, NewObject"), ("container marking", "tiny/src/std.c:ArrayMark, DictProtectFromGC")],
 ["contents read back by script and host", "address sanitizer", "finalizer calls"])

prop("C10", "Unreachable objects are reclaimed once and the heap stays bounded",
 "Every native object is finalized exactly once, never while still reachable and at the latest when its thread is destroyed; and when the reachable set stays bounded, the number of objects and bytes held stays within a constant factor of it no matter how long the program runs and how much garbage, including cyclic garbage, it creates. Destroying a thread returns every object it created.",
 ["histories", "programs"], "all allocation histories with bounded live set, any length, any object kinds and sharing",
 "Tests only check that memory is balanced at the end; retention during a run and double or missing finalization depend on history.",
 [T], [("collection trigger and sweep", "tiny/src/tiny.c:NewObject, Sweep, GarbageCollect, DeleteObject, Tiny_DestroyThread")],
 ["finalizer log", "live bytes in the allocator context"])

prop("C11", "All memory goes through the supplied contexts and balances to zero",
 "Every block allocated for a state comes from the state's context and every block for a thread from that thread's context, is resized and freed through the same context with a block that context handed out, and after the thread and state are destroyed each context has no block outstanding. This holds for successful and failing compiles, for all libraries and macros, and for threads abandoned at any point of execution.",
 ["histories", "programs", "crash_points"], "all sequences of binding, compiling, running (to any cycle), calling and destroying, with distinct contexts for the state and each thread",
 "The leak test uses one shared context for everything and only the paths the other tests take, so a block taken from the wrong context or leaked on another path is not seen.",
 [T, S, "tiny/src/arena.c", "tiny/src/array.c", "tiny/src/dict.c"], [("allocation", "tiny/src/util.c:TMalloc, TRealloc, TFree; tiny/src/stretchy_buffer.h"), ("destruction", "tiny/src/tiny.c:Tiny_DeleteState, Tiny_DestroyThread, Symbol_destroy, DeleteObject")],
 ["allocation log of instrumented contexts"])

prop("C12", "Threads of one state are isolated under every interleaving",
 "Several threads of one compiled state, stepped one cycle at a time in any interleaving, each behave exactly as if run alone from start to end, with their own globals, heap and result. Stepping a thread cycle by cycle, running it in one go, or mixing both gives the same behaviour, and starting or destroying one thread never affects another.",
 ["schedules", "programs"], "all programs, all interleavings of cycles of up to several threads, including starts, restarts and destructions mid-way",
 "The tests run threads one after another; no interleaving is ever explored.",
 [T], [("per-thread state", "tiny/src/tiny.c:Tiny_InitThread, AllocGlobals, Tiny_StartThread, ExecuteCycle, Tiny_Run")],
 ["per-thread trace of foreign calls", "per-thread globals"])

prop("C13", "Calling script functions from the host is re-entrant and restores state",
 "Calling a script function from the host, from outside a run, between any two cycles of a suspended run, or from inside a foreign function to any nesting depth, returns the function's own result and leaves the suspended execution to continue as if the call had only had its visible side effects. Values the suspended code holds, including its pending result and operands, survive collections triggered inside the call.",
 ["schedules", "histories", "programs"], "all functions, argument lists, suspension points (every cycle) and nesting depths within the documented limits",
 "Tests call a few functions from idle threads and once from a foreign function; suspension point, nesting and collection timing are not varied.",
 [T], [("host calls", "tiny/src/tiny.c:Tiny_CallFunction, DoPushIndir, DoPopIndir")],
 ["call results", "trace of the interrupted run", "thread stack heights"])

prop("C14", "Foreign functions and bound constants see and give exactly the values meant",
 "A foreign function is called once per executed call with exactly the evaluated arguments in order and their exact count, also for variadic and untyped signatures, and the value it returns is the value of the call expression. Bound constants of every type read back in scripts as exactly the bound value over the whole range of the type, and signatures are enforced: any call whose arguments do not match is rejected.",
 ["inputs", "programs"], "all signatures (any arity and types, variadic, untyped), all argument values, all constant values of every type",
 "Tests bind a few functions with small values; 64-bit ints, extreme floats, many arguments and signature/argument combinations are not covered.",
 [T], [("binding", "tiny/src/tiny.c:Tiny_BindFunction, Tiny_BindConstInt, Tiny_BindConstFloat, Tiny_BindConstString, Tiny_BindConstBool"), ("calls", "tiny/src/tiny.c:CompileCall, ExecuteCycle"), ("values", "tiny/src/tiny.c:Tiny_NewInt, Tiny_NewFloat, Tiny_NewStringCopy")],
 ["arguments seen in the foreign function", "returned values"])

prop("C15", "Arrays behave as mathematical sequences",
 "Under any sequence of create, push, pop, shift, insert, remove, set, get, clear, resize and sort, an array behaves as the corresponding sequence of values: length, every element and every returned value agree with a list performing the same operations, and sorting yields the ascending permutation of the elements. This holds alike for the C container, the scripting functions, typed arrays, and primitive arrays, and never touches memory outside the array.",
 ["histories"], "all operation sequences and element values (including 64-bit extremes, null, strings, objects), including operations on empty arrays",
 "Tests perform a few fixed pushes and gets; growth boundaries, empty-array operations and extreme values in sorting are not reached.",
 ["tiny/src/array.c", S], [("container", "tiny/src/array.c"), ("script API", "tiny/src/std.c:ArrayMacroFunction, Lib_ArraySortInt and the other array functions")],
 ["lengths and elements via C API and script"])

prop("C16", "Dictionaries behave as finite maps",
 "Under any sequence of put, get, exists, remove, clear and enumeration with keys of any hashable kind, a dictionary behaves as the corresponding finite map keyed by value equality: lookups find exactly the live bindings with the last value put, and keys and values enumerate every binding once, in matching order. Collisions, growth, and removals in the middle of probe chains never lose, duplicate or resurrect a binding.",
 ["histories"], "all operation sequences over all key kinds (bool, int, float, str from any origin, natives, structs), especially colliding keys and tables near their growth threshold",
 "Tests insert a handful of keys; probe-chain repair after removal and growth depend on the hash pattern of the whole history.",
 ["tiny/src/dict.c", S], [("hash table", "tiny/src/dict.c:DictSet, DictGet, DictRemove, Grow, HashValue"), ("script API", "tiny/src/std.c:Lib_DictPut, Lib_DictKeys, Lib_DictValues")],
 ["lookups and enumerations via C API and script"])

prop("C17", "Value equality is a content-based equivalence relation",
 "Equality of two values is reflexive (except for NaN), symmetric and transitive, holds between strings exactly when their lengths and bytes agree however each was created, between ints, floats and bools exactly when same kind and value, between structs and natives exactly when they are the same object, and never between values of different kinds. The script operators == and != on any pair of static types, and key lookup in dictionaries, agree with it.",
 ["inputs"], "all pairs and triples of values of all kinds, with strings from literals, copies, host-owned buffers and embedded zero bytes",
 "Tests compare a few equal short strings; cross-kind pairs, embedded zeros and prefixes, and creation-path pairs are not sampled.",
 [T, "tiny/src/dict.c"], [("equality", "tiny/src/tiny.c:Tiny_AreValuesEqual"), ("hash agreement", "tiny/src/dict.c:HashValue"), ("operators", "tiny/src/tiny.c:ExecuteCycle")],
 ["C equality", "script comparison", "dictionary hit or miss"])

prop("C18", "String functions agree with byte-string semantics",
 "For all strings and in-range indices, length, character access, search, concatenation of any number of pieces and substring return what the same operation on byte strings returns, regardless of how the operand strings were produced, and out-of-range search reports not found. Operands are never modified and results are independent, correctly sized strings.",
 ["inputs"], "all byte strings (including empty, long, and with embedded zero bytes where a string can carry them) and all valid index arguments",
 "Tests call each function with one or two short literals.",
 [S], [("string library", "tiny/src/std.c:Strlen, Stridx, Strchr, Strcat, Lib_Substr"), ("string objects", "tiny/src/tiny.c:Tiny_NewStringCopy, Tiny_StringLen")],
 ["returned values and their lengths"])

prop("C19", "Literals denote their value and layout carries no meaning",
 "Every integer, hexadecimal, float, character, string and boolean literal, with any escape sequence, evaluates to exactly the value it denotes. Replacing the whitespace between tokens by any other whitespace, line breaks or comments (or removing it where tokens stay apart), and consistently renaming user identifiers, never changes the result of compiling and running a program, and every operator is tokenised by longest match.",
 ["inputs", "programs"], "all literal spellings within the documented ranges, all re-layouts and identifier renamings of generated programs",
 "Tests contain a fixed layout and a few literals.",
 [L], [("tokenising", "tiny/src/lexer.c:GetToken"), ("literal values", "tiny/src/tiny.c:ParseValue")],
 ["values received by a foreign function", "behaviour before and after the rewrite"])

prop("C20", "Disassembly covers every emitted instruction and agrees with the program",
 "For every compiled program, disassembling from the start visits every instruction exactly once and in order to the end without an undecodable one, always within the output buffer given; the operands shown are those of the source (literals, strings, call targets and argument counts) and every jump or call target shown is itself the start of a visited instruction. Each step of an execution happens at the start of a visited instruction.",
 ["programs"], "all generated programs covering all instruction kinds, all output buffer sizes",
 "One test disassembles a small fixed program.",
 [T, "tiny/include/opcodes.h"], [("disassembler", "tiny/src/tiny.c:Tiny_DisasmOne"), ("code generator", "tiny/src/tiny.c:GenerateCode, CompileExpr, CompileStatement")],
 ["disassembly text and positions", "executed positions"])

prop("C21", "The reported executing file and line are those of the running statement",
 "Whenever a foreign function asks, or the host asks between steps inside a statement, the executing file and line reported are the name of the unit being executed and the line of the source statement containing the call, for any number of compiled units, functions called across units, loops, and multi-line layouts. Where nothing is known, no file and line zero are reported.",
 ["programs", "histories"], "all programs with statements on any lines spread over any number of compile units, at every foreign call",
 "A single test checks one or two fixed lines.",
 [T], [("position table", "tiny/src/tiny.c:AddPCFileLineRecord, GetFileLineForPC, Tiny_GetExecutingFileLine")],
 ["file and line reported inside foreign calls"])

prop("C22", "Arena allocations are aligned, disjoint and all released",
 "Every allocation from an arena is aligned as requested, overlaps no other live allocation, is usable for its full size and keeps its contents until the arena is destroyed, for any sequence of sizes and alignments including larger than a page. Destroying the arena returns every block to its context exactly once and the arena uses memory proportional to what was requested.",
 ["histories"], "all sequences of (size, power-of-two alignment) requests, including page-boundary and oversize ones",
 "The existing arena tests use fixed sizes.",
 ["tiny/src/arena.c"], [("arena", "tiny/src/arena.c:Tiny_ArenaAlloc, AllocPage, Tiny_DestroyArena")],
 ["pointers returned", "context allocation log"])

prop("C23", "Source positions translate to the right line and column",
 "For every text and every position in it, the translated line is the number of line breaks before the position and the column the number of characters since the last one, and nothing outside the given text is read. Compile error messages show the line of the position they carry.",
 ["inputs"], "all texts (any newline pattern, empty, no final newline) and all positions, including the ends",
 "Tests check a handful of positions in one text.",
 ["tiny/src/pos.c", "tiny/src/util.c"], [("friendly position", "tiny/src/pos.c:Tiny_PosToFriendlyPos"), ("line number", "tiny/src/util.c:Tiny_TranslatePosToLineNumber, Tiny_FormatErrorV")],
 ["returned line and column", "error message text"])

prop("C24", "Macros generate exactly the typed code their arguments describe",
 "For every user-defined or primitive type, the array macro yields a typed array whose element operations (set, push, insert, fill, index assignment) accept only that element type and which behaves as a sequence; the JSON macro yields a serializer whose output parses as the JSON image of the value, for every struct shape and field values; and the delegate macro yields a value that calls the named function with the same arguments and result. Misuse (unknown names, wrong arguments, repeated use, too large a type) yields success or a compile error, never a crash or corrupted state.",
 ["programs", "inputs"], "all struct shapes, nesting of struct fields, element types, function signatures and macro argument lists, in any order of use",
 "Tests use each macro once with one fixed type.",
 [S, T], [("macros", "tiny/src/std.c:ArrayMacroFunction, JsonMacroFunction, BindJsonSerializerForType, DelegateMacroFunction"), ("macro expansion", "tiny/src/tiny.c:CompileState, Tiny_BindMacro")],
 ["values and strings produced by generated functions"])

prop("C25", "Formatted output and file I/O transfer exactly the given bytes",
 "Formatted printing writes exactly the format's text with each directive replaced by the rendering of its argument, for all argument kinds and any mix of literal text. What is written to a file is read back identically by every reading function, sizes and returned counts are exact, seeking addresses the right byte, and errors are reported as null or failure instead of garbage.",
 ["inputs", "histories"], "all format strings and argument lists, all byte contents including zero bytes, all sequences of open, seek, read, write and close on scratch files",
 "Tests print fixed texts without checking the output and never use the file functions.",
 [S], [("printing", "tiny/src/std.c:Print, Lib_Printf"), ("files", "tiny/src/std.c:Lib_Fread, Lib_Fwrite, Lib_Fseek, Lib_Fsize, Lib_ReadFile, Lib_WriteFile")],
 ["captured standard output", "file contents"])

prop("C26", "Numeric conversions and the numeric library compute exact results",
 "Converting between int, float and string and back, rounding up and down, and wide-integer sums and products return the mathematically right value over the whole range of their argument types; rendering a number and parsing it back gives the number. Seeded random numbers are reproducible and non-negative.",
 ["inputs"], "all int, float and numeric string values for which the operation is defined",
 "Tests convert a few small numbers; precision loss appears only for large or fractional values.",
 [S, T], [("library", "tiny/src/std.c:Lib_Ston, Lib_Stoi, Lib_Ntos, Lib_IntToStr, Lib_Floor, Lib_Ceil, Lib_I64AddMany, Lib_I64MulMany"), ("casts", "tiny/src/tiny.c:Lib_ToInt, Lib_ToFloat")],
 ["returned values"])

prop("C27", "A compiled state can be shared by concurrent OS threads without races",
 "Once compiled, a state is read-only during execution: any number of OS threads, each running its own script thread on the same state at the same time, have no data race and each produce the result they produce alone. This includes allocation, collection, host calls, arrays, dictionaries and string functions. Different states are compiled and run by different OS threads at the same time without affecting each other either. (The pseudo-random generator rand/srand is the C library's and is excepted.)",
 ["schedules", "programs"], "all programs and all OS-level schedules of threads sharing one state",
 "The tests are single-threaded.",
 [T, S], [("execution over a const state", "tiny/src/tiny.c:ExecuteCycle, Tiny_CallFunction, NewObject"), ("libraries", "tiny/src/std.c")],
 ["thread sanitizer", "per-thread results"])

prop("C28", "Symbol lookup reflects exactly the declarations made",
 "After any sequence of bindings and compiles, the lookup functions for types, functions, constants and globals report exactly the declared names with the declared kinds, parameter and result types, field names, order and types, and constant values, and report absent names as absent. Registering an existing type again is harmless and type symbols are unique per type.",
 ["histories", "programs"], "all sequences of type registrations, function and constant bindings and compiled declarations, and all queried names",
 "Tests look up a couple of names.",
 [T], [("symbol table", "tiny/src/tiny.c:Tiny_FindTypeSymbol, Tiny_FindFuncSymbol, Tiny_FindConstSymbol, Tiny_GetGlobalIndex, Tiny_GetFunctionIndex, Tiny_RegisterType")],
 ["symbols returned"])

prop("C29", "Program size does not change meaning",
 "Adding independent declarations, strings, functions, globals, fields or code to a program, up to the documented limits, never changes the behaviour of the rest: many string constants, many globals, locals, arguments and fields, many functions and foreign functions, and far jumps behave as few and near ones. Reaching a limit is reported as a compile error or documented failure rather than silently wrapping around.",
 ["programs", "configurations"], "all programs padded with any number of independent declarations on either side of each encoding width boundary",
 "Tests are all small; encodings that change width at 256 or 65536 are never crossed.",
 [T], [("operand encoding", "tiny/src/tiny.c:GeneratePushString, GenerateJump, ReadConstIndex, CompileGetLHS"), ("limits", "tiny/src/tiny.c:RegisterString, DeclareLocal, ParseStruct")],
 ["behaviour of the padded program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
