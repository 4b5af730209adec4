"""The properties, and the check that decides each of them."""
TRUSTED = [
    "clang 18's parse and type check of the sources (tool/extract.cpp)",
    "bison's LALR tables and flex's scanner tables, generated from /repo on this run",
    "the dataflow engine in lib/flow.py and its models of GMP, libc, setjmp/longjmp and tree_make",
]
EV = "src/evaluate.c"
PM = "src/parser.m4"
LM = "src/lex.m4"
PROPS = []
CHECKS = {}
NOT_APPLICABLE = []


def prop(pid, module, title, statement, over, quant, why, files, mech, technique,
         note, level="proof", entry="run", observe=(), assumptions=()):
    PROPS.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe))))
    if module:
        CHECKS[pid] = dict(module=module, entry=entry, level=level, level_note=note,
                           technique=technique, assumptions=list(assumptions))
    else:
        NOT_APPLICABLE.append(dict(property=pid, reason=note))


FLOWTECH = "path-sensitive dataflow from source construct through LALR automaton and semantic actions to the evaluator"
ENGINE_NOTE = ("Every abstract path through the scanner table, the LALR automaton, the semantic actions and "
               "the evaluator's handlers is covered, with opaque operands, so the result holds for every "
               "program in which the construct occurs. ")

prop("P01", "intops",
     "Integer operators compute C's results",
     "For every pair of operand values that are integers (literals, results, or objects of any integral "
     "type), + - * / % << >> & | ^ and unary ~ yield exactly the mathematical result of the C operator "
     "applied to the operands in source order: division truncates towards zero (division by zero is "
     "reported), % takes the sign of the "
     "dividend, >> is arithmetic. An object's operand value is its current value read at its own type, "
     "and evaluating the operator changes no object.",
     ["inputs", "programs"],
     "all operand expressions, all operand kinds (integer constants/results and objects of the ten integral "
     "types), both front ends (script files and the REPL)",
     "the tests evaluate a few operators on small positive ints; sign, width, operand order and object "
     "types are hardly varied",
     [EV, PM, LM],
     [("operator handlers", "evaluate.c: eval_add ... eval_ones_comp"),
      ("reading an object as an integer", "evaluate.c: make_int_from_live_var"),
      ("operator productions", "parser.m4: multiplicative_expression ... inclusive_or_expression")],
     FLOWTECH, ENGINE_NOTE + "The value on each path is compared with the operator's term; numbers are "
     "unbounded as in bic (results wrap only when stored). Trusts GMP.")

prop("P02", "compare",
     "Comparisons, logical operators and ?: decide correctly",
     "< > <= >= == != yield 1 exactly when the relation holds between the two operand values and 0 "
     "otherwise; && || ! yield 1 or 0 according to whether their operands are non-zero; and ?: yields the "
     "second operand when the first is non-zero and the third when it is zero. This holds for every "
     "combination of integer constants, objects of any integral type and pointers.",
     ["inputs", "programs"],
     "all operand expressions and values, all operand kinds, both front ends",
     "tests compare a handful of small ints; negative numbers, unsigned and wide objects and the "
     "boundary between < and <= are not covered for every operator",
     [EV, PM, LM],
     [("comparison handlers", "evaluate.c: eval_lt ... eval_neq, eval_logic_and/or, eval_negate"),
      ("truth of a value", "evaluate.c: convert_to_comparable_type"),
      ("?:", "evaluate.c: eval_ternary")],
     FLOWTECH, ENGINE_NOTE + "Each result is compared with what its path has established about the sign of "
     "the difference, or the truth, of the operands.")

prop("P03", "evalonce",
     "Operands are evaluated exactly once and in sequence",
     "Every operand whose value an operator needs is evaluated exactly once. && and || evaluate their second "
     "operand, and ?: its second or third, only when the first operand's truth asks for it, and after it; "
     "the comma operator evaluates left to right and yields the last value.",
     ["programs"],
     "all operand expressions (with arbitrary side effects), every operator form of the grammar, both front ends",
     "the tests' operands are mostly free of side effects, so a double, missing or eager evaluation does "
     "not show in their output",
     [EV, PM],
     [("handlers evaluate their operands", "evaluate.c: eval_*"),
      ("short circuit", "evaluate.c: eval_logic_and, eval_logic_or, eval_ternary"),
      ("compound assignment", "parser.m4: tree_make_binmod")],
     FLOWTECH, ENGINE_NOTE + "Evaluations of each operand are counted and ordered on every path. Compound "
     "assignment and sizeof violate the property in bic (known findings).")

prop("P04", "precedence",
     "Operators group as C's precedence and associativity say",
     "An expression without parentheses means the same as the fully parenthesised expression that C's "
     "precedence and associativity rules prescribe, for every pair of binary, unary, postfix, conditional, "
     "assignment and comma operators. The target of an assignment is a unary expression.",
     ["inputs", "programs"],
     "all pairs (and relevant triples) of operators with arbitrary operands, both front ends",
     "a test suite samples a few pairs out of several hundred",
     [PM, LM],
     [("expression productions", "parser.m4: primary_expression ... expression"),
      ("operator tokens", "lex.m4")],
     "exhaustive simulation of the LALR tables on operator pairs, comparing the trees built by the dataflow of "
     "the semantic actions", "Complete over the operator pairs: the tree of the plain form equals the tree "
     "of the parenthesised form and differs from the other grouping. Nothing about values is used.")

prop("P05", "stores",
     "Assignments and ++/-- store and yield properly converted values",
     "An assignment to an integer object stores the right operand's value converted to the object's own type "
     "(modulo its width, whatever the source's type), touches nothing else and yields the stored value; "
     "+= -= /= <<= >>= ^= store the operator's result the same way. ++ and -- step an object by one at its "
     "own type, the prefix forms yielding the new and the postfix forms the old value; assignments to "
     "pointers store the assigned address (that of a string literal stays valid), and to float and double "
     "objects the source's numeric value.",
     ["inputs", "programs"],
     "all right operands; all object types crossed with all source types, both front ends",
     "tests assign ints to ints and a few chars; the type cross product and wrap-around are not sampled",
     [EV, PM],
     [("assign_integer/float/ptr", EV), ("live_var_add/sub", EV), ("eval_assign", EV),
      ("tree_make_binmod", PM)],
     FLOWTECH, ENGINE_NOTE + "Store cells and the casts applied to the stored value are checked for every "
     "pair of types. ++/-- on pointers is outside the property (bic steps pointers by one byte).")

prop("P06", "casts",
     "A cast yields the operand's value converted to the named type",
     "(T)e yields a new object of exactly type T whose value is e's value, read at e's own type, converted to T "
     "as C does (modulo the width for integral T, truncation from floating values, the same address for "
     "pointers), for every pair of arithmetic types and for integers and pointers to pointers; e itself is not "
     "modified. A cast bic does not support is reported and never yields a value.",
     ["inputs", "programs"],
     "all operand values; all 14 target types crossed with all source kinds, both front ends",
     "196 type pairs are written out in a macro table; tests execute a few dozen with one value each",
     [EV, PM],
     [("the conversion table", "evaluate.c: eval_cast, DEFCAST"), ("assign_integer/float", EV)],
     FLOWTECH, ENGINE_NOTE + "For every pair of source and target type the stored cell and the chain of C "
     "conversions applied to the source cell are compared with the conversion C prescribes.")

prop("P07", "control",
     "Statements execute in the order and as often as C says",
     "if/else, while, for (with any of its three expressions omitted, and with a declaration), blocks, break "
     "and return control execution as in C: the controlling expression is evaluated before each iteration, the "
     "body runs exactly when it is non-zero, the third expression of for runs after each completed iteration; "
     "break ends the innermost enclosing loop and nothing else; return ends the function being executed from "
     "any nesting with the value of its expression (at the top level it ends the script), and no statement "
     "after an executed break or return in the same body runs.",
     ["programs", "inputs"],
     "all statement constructs of the script grammar with arbitrary parts, nested to depth three, all "
     "combinations of condition outcomes, any number of iterations (two are told apart)",
     "the space of nestings and condition outcomes is unbounded; tests execute a few loops with one break each",
     [EV, PM],
     [("loops", "evaluate.c: eval_loop_for, eval_loop_while"), ("if and blocks", "evaluate.c: eval_if, eval_block"),
      ("statement chains, return", "evaluate.c: __evaluate, do_return"), ("statement productions", PM)],
     FLOWTECH + "; paths replayed against a reference semantics of statements",
     "Every abstract path through a construct is replayed against C's semantics of it; conditions are integers. "
     "Iterations after the second share one abstract state. Nestings deeper than those enumerated follow "
     "because a part's completion (normal, break, return) is all an enclosing construct sees.")

prop("P08", "scope",
     "Scopes open and close with the constructs they belong to",
     "Whatever a construct does (including break, return out of any nesting, and callbacks), the scope that is "
     "current after it completes is the one that was current before it. Each execution of a block, of a for "
     "statement with its own declaration and of a function's body has a new, empty scope inside the scope in "
     "which it is executed, so what is declared there is visible exactly until the construct ends; a call's "
     "arguments and an if's or while's condition are evaluated in the surrounding scope.",
     ["programs", "histories"],
     "all statement, declaration and call constructs with arbitrary parts; every returning path of every handler "
     "of the evaluator",
     "a scope left open on one rare path (an early break, a return from a nested block) only shows in programs that "
     "take that path and then declare or resolve a colliding name",
     [EV],
     [("scope stack", "evaluate.c: push_ctx, pop_ctx, cur_ctx"), ("function calls", "evaluate.c: eval_fn_call"),
      ("statements", "evaluate.c: eval_block, eval_if, eval_loop_*"),
      ("declarations", "evaluate.c: eval_decl_compound, handle_static_decl, eval_cpp_include")],
     "typestate analysis of the scope stack over every path of every evaluator function, plus construct-level dataflow",
     "Push/pop balance is decided per function, assuming it for the recursion (induction). Every evaluation of an "
     "operand or sub-statement records the chain of scopes it takes place in.")

prop("P14", "calls",
     "Calls of script functions bind arguments and deliver results as C says",
     "Calling a function defined in the script evaluates every argument exactly once in the caller, gives each "
     "parameter a new object of its declared type holding the corresponding argument's value converted to that type, "
     "executes the body exactly once in the scope of these objects, and yields a new object of the function's result "
     "type holding the returned value converted to it (or no value, if the function returned none). A call with the "
     "wrong number of arguments for a function with parameters is reported and executes nothing of the body.",
     ["inputs", "programs"],
     "all argument and returned values, all 10 integral types (and float, double and pointers) for parameters and "
     "results, up to three parameters and four arguments",
     "tests call functions with int parameters; conversion of arguments and results, aliasing between the callee's "
     "and the caller's objects and argument order matter for all types and values",
     [EV, PM, "src/spec-resolver.c"],
     [("calls", "evaluate.c: eval_fn_call, eval_fn_args, copy_return_value"),
      ("definitions", "evaluate.c: eval_decl, handle_declarator; parser.m4: function_definition")],
     FLOWTECH, ENGINE_NOTE + "The definition's text and the call's text are both taken through the grammar and "
     "the evaluator; names are resolved to the object last bound to them (P09 decides resolution itself).")

prop("P09", "names",
     "A name denotes the declaration that is visible where it is written",
     "An identifier denotes the declaration of exactly that name in the innermost enclosing scope that has declared "
     "it so far, where the scopes that enclose a construct are those it is written in: blocks, for headers, the "
     "function's parameters and the file's scope, and then what has been #included; never those of a caller. "
     "This holds for objects, parameters, static objects and enumeration constants, and, in name spaces of their own, "
     "for the tags of structures and unions and for members. A second declaration of a name in the same scope, and the "
     "use of a name that no enclosing scope declares, are reported.",
     ["programs", "inputs"],
     "for each of the listed program shapes: all possible names (every pattern of equal and different names)",
     "the tests hardly ever shadow a name, call a function from a scope that declares a name the function uses, or "
     "share a name between name spaces",
     [EV, PM],
     [("resolution", "evaluate.c: __resolve_identifier, resolve_id, get_enclosing_ctx, eval_identifier"),
      ("declaration", "evaluate.c: map_identifier, map_compound, eval_evaluator_ctx"),
      ("scopes", "evaluate.c: push_ctx, pop_ctx")],
     FLOWTECH, "Programs of 35 shapes are taken from text to abstract syntax to the evaluator with symbolic names, "
     "starting in the state eval_init leaves; every feasible pattern of name equalities is a path, and on each the "
     "object found is compared with the one the scope rules select. Deeper nestings follow the same path through the "
     "search loop, but are not enumerated. Enumeration tags share the ordinary name space in bic and are kept distinct.")

prop("P13", "gcpause",
     "The garbage collector is paused exactly where that is needed",
     "While a parser runs, while a native call is prepared and made, and while a function's return value is copied "
     "out of the scope it belongs to, no garbage collection takes place; pauses nest, every function that pauses "
     "the collector resumes it on every path on which it returns (so that collection is never disabled for good), "
     "and nothing is ever reclaimed while a pause is in force.",
     ["schedules", "histories"],
     "every path of every function that pauses, resumes or allocates; collections may strike at any allocation",
     "collections happen every 2000 allocations: whether one strikes in a critical region depends on the whole "
     "history of the program",
     ["src/gc.c", EV, "src/cscript.c", "src/repl.c", "src/function-call.c"],
     [("pause count", "gc.c: inhibit_gc, enable_gc, maybe_collect"), ("parsing", "cscript.c: parse_cscript; repl.c: repl_do_parse"),
      ("native calls", "function-call.c: do_ext_call"), ("returned values", "evaluate.c: eval_fn_call")],
     "typestate analysis of the pause count over every path of every function that changes it",
     "Paths that end the process are not constrained. That other regions need no pause is argued by P11 (roots).")

prop("P16", "layout",
     "Objects are laid out, sized and addressed as the platform's C ABI says",
     "Every object a script declares has storage of its own, at least as large as its type, in which its value is kept "
     "as the type it was declared with. Members of structures lie at the offsets the x86-64 ABI gives them (natural "
     "alignment, tail padding; all at offset 0 in a union), nested to any depth; element i of an array of T lies i "
     "times sizeof(T) after the first, for every index value and type; an access through a pointer, however the pointer "
     "was computed (&, array to pointer, assignment, casts, ->), accesses exactly the object pointed at; adding to a "
     "pointer moves it by elements; and sizeof yields the ABI's size of the object or type.",
     ["inputs", "programs"],
     "all values of indices and stored values; all 64 structures of three of {char, short, int, long}, pairs with each of "
     "the 13 arithmetic types and pointers, unions, arrays, nested structures and unions up to two levels",
     "the tests use a few small structures of ints; padding, mixed sizes, nested members and shared objects with native "
     "code depend on every combination",
     [EV, PM, "src/c.lang", "src/genctypes.cpp"],
     [("structure layout", "evaluate.c: eval_decl_compound, expand_decl_chain, get_alignment_for_type"),
      ("instances", "evaluate.c: instantiate_struct, instantiate_array, alloc_array, make_live_var"),
      ("access", "evaluate.c: eval_comp_access, eval_array_access, eval_deref, eval_addr"),
      ("sizes", "evaluate.c: eval_sizeof, get_size_of_type, get_array_size, eval_type_specifier")],
     "path-sensitive dataflow over whole programs; the place of every access is compared with the ABI's as a linear form",
     "Each program is taken from text through scanner, automaton, semantic actions and evaluator; the allocation, the "
     "(symbolic, linear) offset and the type of every access to script objects are compared with the layout computed "
     "from the ABI's rules. Structures of more than three members and deeper nestings follow the same loop, but are not "
     "enumerated. Bit-fields and long double stores are outside the claim; pointer steps other than of char are "
     "known findings.")

prop("P11", "gcmark",
     "The garbage collector keeps everything that can be reached",
     "A collection releases no object that the interpreter can still reach: marking an object marks everything its "
     "members refer to, for every one of the tree types, and every element of a list; marking starts from every "
     "variable with static storage that can refer to an object, from every word of the stack up to the collector's own "
     "frame, and from the registers; and references to objects are held nowhere the collector doesn't look.  Each "
     "collection leaves its table and the marks in a state in which the next one is as exact.",
     ["histories", "schedules", "programs"],
     "every tree type and every member of it; every variable with static storage; every assignment and call argument "
     "that is an object reference; collections of seven heaps of nine objects, twice each",
     "an object that is released too early is noticed only when its memory is reused: the tests allocate little",
     ["src/gc.c", "src/gengc.cpp", "src/c.lang", "src/genaccess.cpp", "src/tree.h", "src/function-call.c", EV],
     [("marking", "gengc.cpp: outputGCMarkProps, outputPreamble (gc-internal.c: mark_object); gc.c: mark_tree"),
      ("roots", "gc.c: mark_static, mark_stack; gc.h: GC_STATIC_TREE"),
      ("collection", "gc.c: collect, fixup_alloc_array, sweep")],
     "path-sensitive dataflow over the marking code per tree type; type-based query over every reference to an object; "
     "enumeration of static variables; abstract interpretation of the collector over small heaps",
     "That a pointer to an object is in a register or on the stack while it is in use (and not only one into its middle) "
     "is an assumption about the compiler. The parsers' semantic values aren't roots: P13 shows the collector is paused.")

prop("P12", "gcfree",
     "What an object owns is released with it, exactly once",
     "Releasing an object releases what objects of its type own (the digits of a number, the text of an identifier, "
     "string or include, the storage of variables, the parts of a native entry point), each exactly once and by the "
     "function that belongs to it, then the object itself.  What is made the property of an object is its own: a fresh "
     "allocation that no second object owns and nothing else releases; objects that own something are never copied "
     "member by member.  New objects are cleared, typed and entered in the collector's table, whatever its size; every "
     "block of storage of a script's variables is recorded once, with the current context; and every integer is "
     "initialised exactly once, before its use.",
     ["histories", "programs"],
     "every tree type; every assignment to an owning member; every site that copies objects, allocates storage or makes "
     "an integer; tables with and without room",
     "memory errors show only when the collector runs and the allocator reuses the memory; leaks never fail a test",
     ["src/gc.c", "src/tree.c", "src/tree.h", "src/c.lang", "src/function-call.c", "src/lex.m4", "src/parser.m4", EV],
     [("release", "gc.c: dealloc_object, sweep"),
      ("new objects", "gc.c: alloc_tree, track_new_alloc, extend_allocs; tree.c: tree_make"),
      ("storage", "evaluate.c: track_alloc, make_live_var, alloc_struct, alloc_array"),
      ("ownership", "tree.c: get_identifier; evaluate.c: get_literal_storage, eval_cpp_include; "
                    "function-call.c: get_entry_point_for_fn")],
     "ownership analysis: path-sensitive dataflow over the release code per tree type, over every function that stores "
     "an owned member, copies an object, allocates storage or makes an integer",
     "Resources the interpreter uses temporarily (pipes, commands, argument arrays) aren't objects' and are not part of "
     "the claim; nor is when an object is released (P11).")

prop("P10", "astkeep",
     "Evaluating a program doesn't change it",
     "A construct means the same each time it is executed, in a loop, in a function called again or after a jump: the "
     "evaluator stores what it computes only in objects that it has made itself.  It never overwrites a member of the "
     "syntax tree that the parser has set, never relinks elements or lists of it, and never computes in a number that is "
     "a constant of the program.  Three things alone are completed in place, once: a structure's list of members is "
     "expanded, a structure that was only declared gets its members, and a declaration of static objects is replaced by "
     "the objects.",
     ["programs", "histories"],
     "every store, list operation, object copy and multi-precision operation of the evaluator, the native call layer and "
     "the script driver, on every path",
     "a construct that changes itself is noticed only when it is executed again, under the conditions that changed it",
     [EV, "src/function-call.c", "src/cscript.c", "src/parser.m4", "src/c.lang", "src/tree.h"],
     [("declarators", "evaluate.c: handle_declarator, resolve_ptr_type, instantiate_struct_element, map_typedef"),
      ("values", "evaluate.c: eval_return, eval_add, eval_fn_args, eval_fn_call"),
      ("completion", "evaluate.c: eval_decl_compound, expand_decl_chain, handle_static_decl")],
     "effect analysis: path-sensitive dataflow of where stored-to objects come from, helpers analysed in their callers; "
     "the syntax members are those the semantic actions assign",
     "What the evaluator adds to the tree in members the parser never sets (sizes and offsets of structures, the "
     "return type of a declared function) is a function of the declaration and covered by P16; the size argument that "
     "the strcpy and strcat builtins ignore is dropped from their calls.")

prop("P15", "natives",
     "Native functions are called, and call script functions, by the C ABI",
     "A call of a function that has only been declared evaluates each argument once, left nothing out, and calls the "
     "native function of that name (or the one the pointer holds) exactly once.  Every argument of arithmetic type arrives "
     "converted to the type of its parameter, including named types and unnamed parameters; pointers and strings "
     "arrive as their addresses; variable arguments arrive promoted, after exactly the named ones; more arguments than there is room for are "
     "reported.  The call yields a new "
     "object of the function's result type holding what the function returned; a void function yields nothing.  The "
     "address of a script function is a lasting entry point that native code may call by the C ABI: each call executes "
     "the function once, its parameters holding the arguments, and returns its result converted to the declared type.",
     ["programs", "inputs", "histories"],
     "14 parameter types x every kind of argument; argument lists of up to eight; variable arguments of every kind; "
     "15 result types; entry points for every parameter type and result type",
     "a wrong class, width or extension shows only for particular values, argument positions and callees",
     ["src/function-call.c", EV, "src/genffitypes.cpp", "src/c.lang", "src/parser.m4"],
     [("calls", "function-call.c: do_ext_call, push_arg; evaluate.c: eval_fn_call, convert_fn_args, eval_ext_func"),
      ("types", "genffitypes.cpp: outputFFITypes; c.lang: defctype"),
      ("entry points", "function-call.c: get_entry_point_for_fn, closure_entry; evaluate.c: eval_addr")],
     "path-sensitive dataflow of declaration, call and entry point through scanner, grammar, actions, evaluator and the "
     "call layer; what is handed to libffi is compared, argument by argument, with the declaration under the ABI",
     "libffi itself is trusted.  Structures by value, arrays of arguments beyond 32 and long double targets are reported "
     "by bic, not supported; which function a name is linked to is the dynamic linker's decision.")

prop("P17", "decltypes",
     "Declarations give objects the types C says",
     "Every list of arithmetic type specifiers, in any order, with qualifiers, storage classes and typedef anywhere among "
     "them, declares objects of the type that C gives it, and every other list of them is rejected.  Each declarator of a "
     "declaration takes that type with its own pointers and array bounds and none of its neighbours', whether it declares "
     "a variable (file, block or for scope, automatic, static or external), a parameter, a structure's or union's member, "
     "however deeply nested and however the structure is reached, or a type name; and a type name stands for the type it "
     "was defined as.",
     ["programs"],
     "all orders of all 28 specifier multisets, all other multisets of up to three arithmetic specifiers; four base types x "
     "pairs of declarators up to three pointers deep, in each position a declaration may take",
     "the tests declare a handful of types in their usual spelling",
     ["src/genspecresolver.cpp", "src/c.lang", EV, PM, LM, "src/typename.c"],
     [("specifiers", "genspecresolver.cpp: outputBitStirngSetLoop, outputTypeReturn; c.lang: defspecifier"),
      ("declarators", "evaluate.c: eval_decl, handle_declarator, resolve_ptr_type, alloc_array, handle_extern_decl"),
      ("type names", "evaluate.c: handle_typedef, map_typedef"),
      ("productions", "parser.m4: declaration_specifiers ... pointer, struct_declaration")],
     FLOWTECH + "; the type tree of the resulting object is compared with the declared one",
     "The specifier multisets are finite and covered whole (longer lists than four contain a duplicate that is rejected "
     "alone); declarator nesting is sampled up to three pointers, beyond which the code recurses the same way. Objects bic "
     "doesn't support at all (_Bool, _Complex, arrays of arrays) are rejected.")

prop("P18", "storage",
     "Objects come into being, start out and last as C says",
     "Each execution of the declaration of an automatic object, and each call for a parameter, makes an object of its own, "
     "also in loops and recursive calls: what it holds is changed only through it and is still there after other "
     "executions of the declaration.  A static object is made once and keeps its value between executions; two "
     "declarations never share one, whatever their names.  An initialiser is evaluated exactly once per execution "
     "(static: once altogether) and gives the object its value; without one, an object with static storage duration is "
     "zero in all its parts.  An enumerator has the value it is given, else one more than the one before it, else zero.",
     ["programs", "histories"],
     "repeated and nested executions of declarations in file, block, loop, function and recursive scopes; 28 arithmetic "
     "types, pointers, arrays and structures; enumerations with and without values",
     "sharing between executions, lost statics and undefined initial values depend on the history of calls and of memory",
     [EV, PM],
     [("objects", "evaluate.c: make_live_var, alloc_struct, alloc_array, handle_declarator"),
      ("statics", "evaluate.c: handle_static_decl, eval_evaluator_ctx"),
      ("calls", "evaluate.c: eval_fn_call, push_ctx, pop_ctx"),
      ("enumerators", "evaluate.c: eval_enumerator")],
     FLOWTECH + "; identity, origin and content of the storage each use of a name denotes are compared along each path",
     "Loops are followed for two iterations and recursion to depth three with opaque operands; that further ones behave "
     "alike rests on P10 (evaluating a program doesn't change it). When an object is released is P11 and P12's matter.")

prop("P19", "lexical",
     "The text of a program is split into the tokens that C sees in it",
     "Only white space, line markers, attributes, asm statements and the qualifiers that mean nothing to bic are dropped "
     "from a program's text, and never more than they extend over; any other character is part of a token or is reported.  "
     "Keywords and operators have C's spelling and the longest one is taken; a token of C that bic lacks is rejected, never "
     "split into tokens that mean something else.  Every identifier is itself, and a type name iff declared as one.  "
     "Integer, character and floating constants and string literals have the value or the characters of their text, or are "
     "reported.  Every token is on the line that the program's text and line markers say.",
     ["inputs", "programs"],
     "the languages of all rules of both scanners in all start conditions; all byte values in character constants and "
     "strings, escapes, all parenthesis structures of annotations up to a depth",
     "the tests contain a handful of lexemes, and what is wrong with rare ones is silent",
     ["src/lex.m4", "src/util.c", "src/typename.c", "src/identifier.c"],
     [("rules", "lex.m4: all rules"), ("constants", "lex.m4: lex_char, mpz_init_set_str, mpf_init_set_str"),
      ("strings", "lex.m4: sl_begin, sl_append_str, sl_append_char; util.c: concat_strings"),
      ("lines", "lex.m4: YY_USER_ACTION, handle_line_marker")],
     "language inclusion between the scanners' automata and C's lexical grammar (product with regular expression "
     "derivatives); path-sensitive dataflow over the rules' actions; LALR adjacency of tokens",
     "Values are decided for a fixed set of lexemes of every form and, for integers of any length, by the conversion that "
     "the text reaches. Escapes bic doesn't know are rejected, which the property allows. Line splices and comments are the "
     "preprocessor's.")

prop("P20", "driver",
     "A run of bic does what the command line and the program say",
     "bic -s FILE preprocesses FILE with the -I directories in the order given, parses the preprocessor's output once and, "
     "when both succeed, evaluates the code outside of functions in order and then main, if there is one; a program with "
     "both main and statements outside of functions is rejected before anything is evaluated.  argc and argv are the "
     "script's name and what follows it, with a null pointer at the end, both as main's parameters and outside of "
     "functions.  The exit status is what main, or a return outside of functions, returns, and 0 when neither returns a "
     "value.  A program that can't be preprocessed or parsed isn't run at all, and every reported error ends the run with "
     "another status than 0.  -T dumps the program instead of running it, -l opens libraries, options after -s FILE are "
     "the script's, and without a script bic is the REPL.",
     ["programs", "inputs", "configurations"],
     "programs of all arrangements of declarations, functions, main and statements; statuses, argument counts 1 to 3; "
     "sequences of options; outcomes of the preprocessor and the parser",
     "a wrong status or a half-run program is invisible to tests that compare output, and failures of the preprocessor "
     "can't be provoked portably",
     ["src/main.c", "src/cscript.c", "src/preprocess.c", EV],
     [("options", "main.c: parse_args, main"), ("script", "cscript.c: evaluate_cscript, parse_cscript, __evaluate_cscript"),
      ("arguments", "cscript.c: create_arguments, make_call_to_main"),
      ("status", "evaluate.c: get_c_main_return_value, do_return"),
      ("directories", "preprocess.c: preprocessor_include_dir_opts, preprocessor_add_include_dir, run_cpp")],
     FLOWTECH + "; library functions that parse options and start processes have modelled outcomes",
     "The quoting of file and directory names for the shell isn't decided.")

prop("P21", "printing",
     "Values, inspections and dumps show what there is",
     "A value the REPL prints is printed by a conversion for its type and from its own storage: each arithmetic type, "
     "pointers (with the string behind a char pointer, and nothing read through a null pointer), and structures and "
     "unions with the names and values of all their members in order.  Inspecting an object (?x) prints its type, its "
     "value, its size and the line of its declaration, for scalars, pointers and arrays alike.  A dump of the parsed "
     "program (-T, also with -D) names each node's type once and shows each of the node's properties, with the value or "
     "the node that the property has, and the nodes of lists in order; a dot dump has a node of its own for each value "
     "and escapes what would end a label.",
     ["programs", "inputs"],
     "all kinds of values and objects; compounds of members of different types; every node type of the tree, with each "
     "property present, a list or of another value",
     "output for the user that no test compares, over all node types",
     ["src/pretty-printer.c", "src/inspect.c", "src/c.lang", "src/gendump.cpp", "src/gendot.cpp",
      "src/tree-dump-primitives.h", "src/genctypes.cpp"],
     [("values", "pretty-printer.c: pretty_print"), ("inspection", "inspect.c: inspect; evaluate.c: the loci of declarations"),
      ("dumps", "gendump.cpp, gendot.cpp: the generated tree_dump and tree_dump_dot; tree-dump-primitives.h")],
     FLOWTECH + " of the printing code and of the code generated for dumps; printf's formats are parsed",
     "How many digits floating values get isn't decided, nor is the layout of dumps.")

prop("P22", "repl",
     "The REPL handles each line by itself, as part of one growing program",
     "Each line that is typed is parsed, preprocessed behind all headers included so far, and what the preprocessor makes "
     "of it is parsed again and evaluated exactly once; a value it yields is printed.  The first parse has no lasting "
     "effect.  A line with a syntax error is skipped without evaluating anything, and so is one whose preprocessed form "
     "has one; more than one statement on a line is an error.  An #include re-reads all headers in the order they were "
     "included; their declarations and type names replace those read before and stay apart from the session's.  The file "
     ".bic in the home directory is run first, if it can be read.  Completions are exactly the visible names, and the "
     "members of the structure or union, that start with what was typed; finding them never evaluates anything in the "
     "REPL's own process, and an object that can't be evaluated has no completions.",
     ["inputs", "histories", "fault_sequences"],
     "sessions of up to four lines of every kind; outcomes of parses, evaluations and the preprocessor; lists of headers; "
     "sets of names, prefixes, objects and failures of the child process",
     "interactive behaviour that the tests, which run scripts, don't reach",
     ["src/repl.c", EV, "src/preprocess.c", "src/typename.c"],
     [("lines", "repl.c: bic_repl, repl_parse_line, repl_do_parse, run_cpp_on_line; typename.c"),
      ("includes", "evaluate.c: eval_cpp_include"), ("preprocess", "preprocess.c: run_cpp"),
      ("completion", "repl.c: bic_completion; evaluate.c: find_global_identifiers"),
      ("startup", "repl.c: evaluate_startup_file")],
     FLOWTECH + "; library functions on strings, streams, pipes and processes have modelled outcomes",
     "What readline does with the names that are offered isn't decided.")

prop("P23", "reported",
     "What can't be carried out is reported",
     "Whatever kind of value an operand turns out to have (an integer, a floating value, a string, an object of any type, a "
     "structure, a function, a native or builtin, or none, as the call of a void function has), every construct either "
     "computes its result from it or reports an error: nothing is read through a value that isn't there or isn't of a kind "
     "that has it, no assertion fails, a call that calls nothing is never skipped, and no operand without a value is taken "
     "for one.  So are declarations of objects that can't exist: of type void, of an incomplete structure, of a structure "
     "within itself, of arrays of a negative size.  Reporting an error writes the message and its position to stderr "
     "and ends the script with a non-zero status, also when the construct has no known position.",
     ["inputs", "programs"],
     "all operators and statements with conditions; all kinds of operands, in all combinations, and none",
     "tests give constructs the operands that they are for",
     [EV, PM],
     [("operands", "evaluate.c: the handlers that __evaluate_1 dispatches to"), ("calls", "evaluate.c: eval_fn_call"),
      ("declarations", "evaluate.c: make_and_map_live_var, handle_declarator, get_array_size, expand_decl_chain"),
      ("reports", "evaluate.c: eval_die")],
     FLOWTECH + " with typestate of the operands' values",
     "Null pointers of the script itself, which it may follow as a compiled program may, aren't decided; neither are the "
     "arguments of natives (P14, P15).")

prop("P24", None,
     "A script computes what the compiled program computes",
     "Every program within the C subset that bic accepts produces the same output, exit status and calls of external "
     "functions when it is run by bic as when it is compiled.",
     ["programs", "inputs"],
     "all programs of the subset and all their inputs",
     "the programs of the test suite are a few dozen of all programs",
     [EV, PM, LM, "src/function-call.c"],
     [("evaluation", "evaluate.c: __evaluate")],
     "", "Whole runs of arbitrary programs depend on values, memory and library functions without bound; a static argument "
     "reaches the single constructs, which P01 to P23 decide, but not their composition over every run.")

prop("P25", None,
     "Floating values keep their precision and are printed exactly",
     "Floating constants, conversions and the values that the REPL prints are the nearest representable to the value "
     "written or held, and no digits are lost on the way.",
     ["inputs"],
     "all floating constants and values",
     "tests use values with few digits",
     ["src/lex.m4", EV, "src/pretty-printer.c"],
     [("constants", "lex.m4: D_CONST"), ("printing", "pretty-printer.c: pp_live_var")],
     "", "The rounding error of GMP's and printf's conversions is a function of the value itself; no abstraction of the "
     "source that is short of computing it bounds it.")

prop("P26", None,
     "A long running script needs bounded memory",
     "A script that keeps a bounded number of objects alive runs in a bounded amount of memory, however long it runs.",
     ["histories"],
     "all scripts with a bounded number of live objects, runs of any length",
     "a test runs for a bounded time",
     ["src/gc.c", EV],
     [("collection", "gc.c: gc"), ("allocations", "evaluate.c: track_alloc")],
     "", "The collector is conservative: what it retains depends on the words that happen to be on the machine stack, and "
     "the storage of script objects lives as long as scopes do; both are quantities of a run that the source doesn't bound.")
