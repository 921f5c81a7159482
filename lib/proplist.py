# one prop(...) per property; see lib/props.py
ENUM = "bounded exhaustive enumeration of programs executed on the real interpreter (stateless model checking of the implementation) against a reference model, in every execution mode"
MODES = [("bytecode VM", "core/vm.c potion_vm"), ("JIT code generator", "core/vm-x86.c, core/vm.c potion_jit_proto"),
         ("bytecode compiler", "core/compile.c potion_source_asmb")]

prop("C01", "Operators compute exact arithmetic for every operand and expression shape",
     """For every expression built from +, -, *, /, %, **, <<, >>, comparisons, equality, not, ~, ++, -- and augmented
     assignment over integers and doubles, the interpreter returns the value the language defines: exact integers while
     the result of + - * fits the immediate range [-2^62, 2^62-1] and the nearest double beyond it, integer quotient and remainder
     truncated toward zero (nil-free results also for a zero divisor), double arithmetic when an operand is a double, and signed comparisons.
     Precedence is ** over * / % over + - over shifts over < <= > >= over == != over assignment over and/or,
     all left associative. The value does not depend on whether operands are literals, variables, arguments,
     captured variables, object fields or nested expressions, nor on how many registers the expression needs, nor on the execution mode.""",
     ["inputs", "programs"],
     """all pairs of boundary integers and doubles for every operator in every operand form; all operator chains of length 2-4
     and all binary expression trees up to 4 leaves; expressions needing up to 110 registers; VM and JIT""",
     """tests evaluate a few dozen small sums; every operand pair, operand position and register assignment takes a different code path
     in the VM, the JIT and the number methods""",
     ["core/vm.c", "core/vm-x86.c", "core/number.c", "core/compile.c", "core/syntax.y"], MODES + [("number methods", "core/number.c")],
     ENUM + "; every operator x operand x form, every operator chain and tree up to the bound, against arithmetic in Python",
     "exhaustive within the stated operand sets and expression sizes; trusts the Python reference arithmetic and the C compiler")

prop("C04", "Control flow executes exactly the statements the program's conditions select",
     """For every program of nested if/elsif/else, while, loop, break, continue, return, and/or and counting iterators, the sequence of
     executed statements and the final value are those of structured control flow: a block runs iff its condition is
     neither nil nor false (0 and "" are true), break and continue act on the innermost loop, return leaves the innermost
     function with its value, and and/or evaluate their right side only when needed and yield the deciding operand. This holds at top level, in functions
     and for conditions on captured variables, for every number of iterations and in every execution mode.""",
     ["programs", "inputs"],
     """every statement tree up to 4 nodes (5 thorough) with every vector of condition outcomes; every short-circuit expression up to 3
     operators over all truth values; iteration counts up to 3000""",
     "tests run single loops with fixed conditions; nesting and all combinations of outcomes select different jump offsets",
     ["core/compile.c", "core/vm.c", "core/vm-x86.c", "core/syntax.y", "core/number.c"], MODES,
     ENUM + "; all control-flow trees by node count x all decision vectors, against a structured interpreter in Python",
     "exhaustive within node count and decision-vector length; if without else and without a taken branch has no defined value and is not observed")

prop("C08", "Lists behave as ordered sequences under every operation sequence",
     """Every sequence of list operations (push, append, pop, shift, unshift, put, at and call-style access, delete, remove, slice,
     clone, reverse, nreverse, first, last, length, map, each) gives the results and final contents of a plain ordered
     sequence, with negative indices counted from the end and out-of-range reads giving nil. Mutators act on the one list seen through every
     reference to it; clone, slice, reverse and remove give lists independent of the original. This holds for every length, including those around
     capacity growth, and in every execution mode; putting beyond the end or under a non-index key turns the list into an equal table for every reference.""",
     ["histories", "inputs"],
     """all operation sequences of depth 2 (every index argument -4..4) and of depth 3-4 over the mutators from 5 initial lists;
     all push/unshift/pop/shift/clone block words up to 70 elements and single sizes up to 5000""",
     "tests call each list method once or twice on short literals; aliasing, growth and index arithmetic depend on the history",
     ["core/table.c", "core/vm.c", "core/vm-x86.c", "core/internal.h"], [("list methods", "core/table.c potion_tuple_*"), ("list instructions", "core/vm.c NEWTUPLE/SETTUPLE/TUPLE at")],
     ENUM + "; all operation sequences to a depth against a Python list with object identity",
     "exhaustive to the stated depths and sizes")

prop("C10", "Tables behave as maps under every operation sequence, whatever the hash order",
     """Every sequence of table operations (put, call-style assignment, at, call-style access, remove, slice, clone, length,
     keys, values, each, map, filter) gives the results of a finite map from distinct keys to values: a key holds the last value put,
     absent keys read nil, and iteration visits every entry exactly once with keys and values in corresponding order.
     Integer (also negative and boundary), string, boolean and nil keys are distinct keys; clone, slice and filter give independent
     tables. The contents never depend on insertion order, on earlier deletions, on table growth, on the interpreter's random seed, or on the execution mode.""",
     ["histories", "inputs"],
     """all operation sequences of depth 2 over 9 keys, depth 3-4 over the mutators, from 5 initial tables; all sizes up to 70 in three
     key kinds with every deletion pattern and sizes up to 3000 around growth; several hash seeds""",
     "tests use tables of two or three entries; growth, deleted slots and iteration order depend on the history and the seed",
     ["core/table.c", "core/khash.h", "core/table.h"], [("hash table", "core/khash.h kh_put/kh_del/kh_resize"), ("table methods", "core/table.c potion_table_*")],
     ENUM + "; all operation sequences to a depth against a Python map, for several hash seeds",
     "exhaustive to the stated depths, key set and seeds")

prop("C11", "Strings are immutable character sequences; equal contents are the same string",
     """Every string operation (length, character access by index, slice with two indices, ord, +, cmp, clone, bytes, ==, use as a table key)
     gives the result defined on the string's sequence of Unicode characters, for characters of one to four UTF-8 bytes, for every
     index including negative and out-of-range ones, and for every length. Two strings are equal, and the same table key, exactly when their contents are
     equal, however they were computed. No operation changes an existing string.""",
     ["inputs", "histories"],
     """all strings up to 4-5 characters over 1,2,3,4-byte characters with all indices and index pairs; all pairs of strings up to 2-3
     characters; all lengths up to 300 and around powers of two up to 2^16; all operation sequences of depth 3-4; every code point (thorough)""",
     "tests slice a handful of literals; byte offsets, interning and length limits vary with the contents",
     ["core/string.c", "core/contrib.c", "core/table.c", "core/khash.h"], [("string methods", "core/string.c potion_str_*"), ("interning", "core/string.c potion_str2, potion_add_str")],
     ENUM + "; all strings and indices in the bound against Python strings",
     "exhaustive within alphabet and length bounds")

prop("C13", "Garbage collection is invisible to the program",
     """Wherever collections happen, minor or major, in parsing, compiling, loading or running, a program computes the same values
     and leaves the same objects as with no collection at all: no reachable object is lost, moved without its references following, shared, or changed.
     Identity (==, table keys, interned strings) and every kind of heap object (lists, tables, strings, bytes, doubles, closures and
     captured variables, objects, classes, licks, prototypes) survive. This holds for any amount of live data and any number of writes of young values into old objects.""",
     ["schedules", "inputs", "histories"],
     """62 programs using every heap type: one collection (minor, major, at this and every later allocation, at every allocation) at every
     allocation in parse, compile, dump, load and run, in VM and JIT, and every pair of collections; object graphs up to 500000 live objects""",
     "tests collect at the few points where the heap happens to fill; every allocation is a possible collection point",
     ["core/gc.c", "core/gc.h", "core/objmodel.c", "core/table.c", "core/string.c", "core/vm.c", "core/vm-x86.c"],
     [("collector", "core/gc.c potion_gc_minor/major, potion_mark_minor/major"), ("write barrier", "core/gc.h PN_TOUCH, core/potion.h"), ("stack scan", "core/gc.c pngc_mark_array")],
     "stateless exploration of collection schedules on the real interpreter: every allocation point x kind of collection, and every pair of points, differential against the run without collections",
     "exhaustive over allocation points of the fixed programs; programs are small except in the heavy part")

prop("C02", "The JIT and the bytecode VM compute the same, at any program size",
     """Every program gives the same value, the same final contents of its variables and objects and the same printed output whether its functions are run by the bytecode
     VM or compiled to machine code by the JIT, and that result is the meaning of its statements. This holds for every combination and order of statements,
     in every kind of function body (top level, function, method, loop, iterator block, captured or argument variables), and for any number of
     locals, captured variables, arguments, constants, functions, nested expressions and instructions, so that no register number, operand, jump or frame size is special.""",
     ["programs", "inputs"],
     """all sequences of 1-2 (thorough 3) of 46 statements in 7 contexts with up to 40 unused variables in front; 31 program shapes at every size
     to 35 and around powers of two up to 2049 (thorough to 300 and 3000); every expression of C26 with 0..32 and 125..128 (thorough 0..139, 250..256) registers in use before it""",
     "tests run about 300 small programs; which registers, operand widths and jump forms are used depends on the program around a statement",
     ["core/vm.c", "core/vm-x86.c", "core/compile.c", "core/asm.c", "core/opcodes.h"], MODES,
     ENUM + "; all statement sequences x contexts x register pressure, and all program sizes in the bound, VM and JIT against a statement interpreter in Python",
     "exhaustive for the statement templates, contexts and sizes; arguments have the declared number and types")

prop("C03", "A compiled bytecode file is the program it was compiled from",
     """Dumping a program to a .pnb bytecode file (potion -c, or dump) and loading it back gives a program that computes the same value and prints the same output, in the VM and the JIT.
     Every constant survives exactly: every integer and double, strings of any length and content, default arguments, names, nested functions and captured variables,
     whatever constants surround it and however many there are. Code size, number of functions and nesting do not matter.""",
     ["programs", "inputs"],
     """all boundary integers, doubles over the whole exponent range, strings of every length to 300 and around powers of two to 2^16 and with
     every character; all triples of 15 constants; all function trees up to 5 (7) functions; the statement sequences and program sizes of C02; potion -c and run for 12 programs""",
     "tests compile four files; the encoding of a constant depends on its value, its length and its neighbours",
     ["core/compile.c", "core/number.c", "core/potion.c", "core/internal.h"], [("dump", "core/compile.c potion_source_dumpbc, WRITE_CONST"), ("load", "core/compile.c potion_source_load, READ_CONST")],
     ENUM + "; each program dumped, loaded in another interpreter and run",
     "exhaustive for the constants, shapes and sizes in the bound")

prop("C05", "Names are bound lexically; closures share and keep the variables they capture",
     """A name means the innermost parameter or variable of that name declared above it in the enclosing program text; assigning a name not declared there makes a
     local variable of the innermost function. A closure reads and writes the very variables it captured, wherever it is called from: called
     in place, returned after its function has ended, passed on, stored, or called by an iterator, at any nesting depth and through functions that do not use them.
     Each call of a function makes new variables, shared by all closures made in that call and by no others.""",
     ["programs", "histories"],
     """all nestings of 2-3 (4 thorough) functions over the combinations of 7 declarations, 6 operations and 5 ways to use the inner function; all histories of
     4 (5) calls on two instances of four closures sharing two variables; up to 1000 instances""",
     "tests capture one variable in one or two levels; which captured cell an instruction names depends on all levels around it",
     ["core/compile.c", "core/vm.c", "core/vm-x86.c", "core/table.c"],
     [("captured variable instructions", "core/compile.c PN_UPVAL, core/vm.c GETUPVAL/SETUPVAL/NEWLOCAL"), ("closure creation", "core/vm.c CLOSURE/PROTO, core/vm-x86.c potion_x86_proto")],
     ENUM + "; all nestings of declarations, operations and uses and all call histories in the bound against an interpreter with static scope",
     "exhaustive for the stated templates; a use of a name textually before its declaration is not explored")

prop("C06", "Calls bind every argument to its parameter",
     """In every call of a function, method or constructor, each positional argument is bound to the parameter at its position and each named argument to the parameter of
     that name, whatever their order; parameters after the last one given get their default value, 0 or "" when typed N or S, and nil otherwise. Arguments are evaluated once each, in the order of
     the text, also when calls are nested in arguments. This holds for any number of parameters, any mixture of plain, typed, optional and default parameters, any default literal,
     any register the call is placed in, and in every execution mode.""",
     ["programs", "inputs"],
     """all signatures of up to 3 (4) parameters over 11 (5) parameter kinds with every number of arguments, every split into positional and named ones, every order of
     the named ones, at 8 call sites; up to 30 (59) parameters; calls at every register up to 40 (140)""",
     "tests call a handful of signatures; slots of named and missing arguments depend on the whole signature and the registers at the call",
     ["core/vm.c", "core/vm-x86.c", "core/compile.c", "core/objmodel.c", "core/syntax.y"],
     [("argument compilation", "core/compile.c potion_arg_asmb, potion_sig_compile"), ("call", "core/vm.c CALL/NAMED, core/vm-x86.c potion_x86_call/potion_x86_named"), ("signatures", "core/objmodel.c potion_sig_*")],
     ENUM + "; all signatures x argument lists x call sites against the binding rule",
     "exhaustive for the parameter kinds; arguments have the declared number and type, and named arguments leave no gap before the last given one")

prop("C07", "Objects keep their own fields; methods are found along the class chain",
     """Every object made from a class holds its own value for each field named by the constructors of its class and of the ancestors of that class, nil until set; reading another field gives nil and setting it has no effect.
     A field assignment or method call through any reference affects that one object. A method call runs the method defined last for that name on the nearest class
     in the chain from the class of the receiver to its ancestors (Object and Lobby last, also for built-in types), with self the receiver, and gives nil when there is none; a class without a
     constructor uses that of its parent. kind, isa?, subclass?, can and ? queries agree with this, for any class hierarchy and any number of classes, methods, fields and objects.""",
     ["programs", "histories"],
     """all hierarchies of up to 3 classes over 5 constructors and 4-7 method sets; all histories of 3 (4) operations on objects of two classes; every subset of built-in
     types that define a method; classes with every number of fields and methods to the stated sizes, values as methods; class chains up to 129 (300) and up to 4100 (20000) classes""",
     "tests build five small classes; field slots, lookup and constructors depend on the whole hierarchy and the history of definitions",
     ["core/objmodel.c", "core/vm.c", "core/vm-x86.c", "core/compile.c"],
     [("objects", "core/objmodel.c potion_class, potion_ivars, potion_obj_get/set"), ("dispatch", "core/objmodel.c potion_bind, potion_lookup, core/vm-x86.c potion_x86_ivars/potion_x86_mcache")],
     ENUM + "; all hierarchies and operation histories in the bound against a class model in Python",
     "exhaustive for the stated constructors, methods and depths; constructors get all their arguments")

prop("C09", "Sorting and comparing agree with one total order",
     """Sorting a list, with the default order, the order true or false, or any comparison block giving an order, returns the same elements, each as often as before, in that order;
     sort leaves the original list alone and ins_sort sorts in place. cmp is the total order of integers, doubles, mixed numbers and strings by bytes, antisymmetric and agreeing with < and ==.
     bsearch in a sorted list finds an element that is present and gives -1 for others. This holds for any length, any number of repetitions and any arrangement.""",
     ["inputs"],
     """all lists of up to 5 (7) of 4 integers, all permutations of up to 6 (8), all lists of boundary integers, strings, doubles and lists to length 3-4 (6), 12 shapes at every
     length to 40 (300) and up to 1000, comparison blocks with their own state, all pairs of values of all kinds, strings that differ only after a common prefix of any length to 40, bsearch for members and neighbours""",
     "tests sort two lists; quicksort partitions and the pivots depend on the arrangement and the repetitions",
     ["core/table.c", "core/number.c", "core/string.c", "core/internal.c"], [("sort", "core/table.c potion_tuple_sort, potion_sort_internal, ins_sort, bsearch"), ("order", "core/number.c potion_num_cmp, core/string.c potion_str_cmp, core/internal.c potion_any_cmp")],
     ENUM + "; all short lists, permutations and shapes against sorted() in Python",
     "exhaustive for the stated alphabets and lengths; element types are not mixed except numbers")

prop("C12", "Byte buffers hold the bytes written to them",
     """Every sequence of byte buffer operations (bytes of a string, append and << of strings, buffers, and other printable values, length, at, call-style access, each, string, number conversions, comparison and printing)
     gives the results of a plain sequence of bytes: length is the number of bytes, indexes address bytes, and the text survives a trip through string.
     Buffers keep what was appended whatever their size and however often they grow, are shared by all references, and are independent of the strings they came from.""",
     ["histories", "inputs"],
     """all operation sequences of depth 2-3 (4) on two buffers, all pairs of sizes to 40 (140) and around powers of two to 20000, growth by every step,
     doubling to 1000 (65536) times, all words of 3 (5) characters of 1-4 bytes""",
     "tests append three times; the capacity of a buffer, when it moves, and its terminator depend on all lengths before",
     ["core/string.c", "core/internal.c", "core/potion.h"], [("buffers", "core/string.c potion_bytes_*, potion_byte_str")],
     ENUM + "; all operation sequences and size pairs against a Python bytearray",
     "exhaustive to the stated depths and sizes")

prop("C15", "Source text means what the syntax says, wherever it stands",
     """The value of a literal is what it spells: decimal and hex integers, doubles with exponents, single-quoted strings with any character and '' escapes, double-quoted strings with every
     escape including \\u code points, lists and tables of them. Spaces, line ends, commas and comments between the parts of a program do not change it. The length of a token, a name or the program,
     the place of a token in the file, and how deep expressions, blocks and calls are nested do not matter; text given to eval means the same as in a file. A text whose brackets or quotes do not pair up, or with an escape that is no character, is refused and none of it runs.""",
     ["inputs", "programs"],
     """all words of 3 (4) characters of 10 in single quotes and 2 (3) of 22 escapes in double quotes; the code points of the plane boundaries (all 0x110000); 9 programs with every pair (triple)
     of gaps replaced by every other separator; all comments of 2 (4) characters; a token after 0-140 (0-4200) bytes of padding and around the powers of two;
     tokens, names and lists of every length to 40 (600) and to 2000 (30000); nesting to 40 (260); names of all words of 2 (3) characters; letters at the ends of every class; lines after every operator and opening; 8 programs with every bracket or quote added or left out at every place""",
     "tests read short hand-written programs; buffer boundaries, token lengths and separators are inputs a sample misses",
     ["core/syntax.y", "tools/greg.c", "tools/compile.c", "core/pn-ast.c", "core/ast.h"], [("grammar", "core/syntax.y"), ("input buffer and text of tokens", "tools/greg.c generated yyrefill, yyText")],
     ENUM + "; all texts in the bound against the value the text spells, computed in Python",
     "exhaustive for the stated alphabets, gaps and lengths")

prop("C16", "Licks are trees of names, attributes, text and children as written",
     """A lick literal makes a tree: each node has the name, the attributes, the text and the child licks written in it, in order, with absent parts nil, the expressions in it evaluated once each, in order.
     name, attr, text and licks read those parts, and string shows the tree again. This holds for any mixture, number and nesting of licks and in functions, loops and lists.""",
     ["inputs", "programs"],
     """all single licks of 5 names, 15 attribute lists and 17 contents; pairs and children (every 9th pair; thorough every 3rd); all tree shapes to 5 (7) nodes with decorations at each node;
     7 separators in each layout; up to 300 (2000) siblings and 9 levels""",
     "tests have two lick literals; which operand of a lick instruction is present depends on the combination",
     ["core/lick.c", "core/compile.c", "core/syntax.y", "core/vm.c", "core/vm-x86.c"], [("compilation of licks", "core/compile.c potion_source_asmb LICK"), ("lick methods", "core/lick.c")],
     ENUM + "; all trees and decorations in the bound against a tree in Python",
     "exhaustive for the stated parts and shapes; nesting is bounded by 9 as nested brackets take exponential time to parse")

prop("C23", "Numbers convert exactly and counting visits each number once",
     """The text of an integer is its decimal digits and number of that text is the integer; the text of a double is its value to 16 decimal places, and number of a text is the number it starts with.
     integer is the floor, double, abs, sqrt and the ? queries agree with the value, and chr and ord are inverse. to visits every integer from the first to the last in either direction,
     step every k-th one not beyond the end, and times 0 up to n-1, each exactly once in order, also around 32-bit and 62-bit boundaries, nested, and with blocks that assign the counter.""",
     ["inputs"],
     """about 1000 (61000) integers at powers of 2 and 10, about 300 (16000) doubles; all texts of up to 4 (6) of 8 characters; digit strings of each length to 40 (300);
     all bounds -4..5 (-9..13) at 0 and five large offsets with 5 steps; times for each n to 70 (400) and up to 1000 (20000), nested""",
     "tests convert a few small numbers; rounding, digit counts and limits depend on the value",
     ["core/number.c", "core/string.c", "core/primitive.c"], [("conversions", "core/number.c potion_num_string, potion_num_integer, core/string.c potion_str_number"), ("counting", "core/number.c potion_num_to, potion_num_step, potion_num_times")],
     ENUM + "; all values, texts and bounds in the sets against Python",
     "exhaustive over the stated sets; step only with positive steps; texts of 10 digits and more give doubles; integer is not asked of doubles beyond 62 bits")

prop("C24", "List pipelines compute what the list functions mean",
     """map, filter, reduce, each, reverse, clone, first, last, join and length, in any chain over lists and tables, give the results of the functions of the same names on a sequence: each block is called exactly once per element, in order,
     with the element and (filter, each on tables) its index or key; the source is unchanged; results are new lists of exactly the elements produced, nil and false included.
     This holds for every length and element, with blocks that have side effects, call functions, run inner pipelines or return early, in every execution mode.""",
     ["programs", "inputs"],
     """all chains of 2 (3) of 13 stages and 7 ends over 5 lists; all lists of 3 (4) of 5-6 values through each stage; every length to 70 (400) and around powers of two to 1000 (3000);
     all small tables; join of all lists of 3 (4) of 9 values with 5 separators""",
     "tests run each function once; growth of the result, calls from C into blocks and nested iteration depend on the chain and the length",
     ["core/table.c", "core/vm.c", "core/vm-x86.c"], [("list functions", "core/table.c potion_tuple_map, filter, reduce, each, join"), ("calls of blocks", "core/vm.c potion_vm, core/vm-x86.c call of PN_CLOSURE_F")],
     ENUM + "; all chains and lists in the bound against the functions in Python",
     "exhaustive for the stated stages, values and lengths; map blocks take only the element")

prop("C18", "File reads and writes exactly the bytes of the file system",
     """Every history of opens in the modes r, r+, w, w+, a and a+, writes, prints, reads and closes on any number of handles leaves files with the bytes, and gives back the bytes, counts, nils and errors, that POSIX file descriptions prescribe.
     write stores the bytes of a string or Bytes, eight bytes of an integer or double, one of a boolean, and print the text of any value; read gives at most n bytes, or nil at the end; an operation the mode does not allow or on a closed file is an error and changes nothing.""",
     ["inputs", "programs"],
     """all sequences of 3 (4) of 17 (22) operations on one handle, from each mode and three initial contents; all sequences of 2-3 (3-4) of 10-16 operations on two handles with all pairs of modes, on one file and on two;
     56 values through 5 modes and 4 read sizes; every byte value; every size to 40 (700) and around the powers of two to 30000 (100000); collections at every allocation of short histories""",
     "the test suite does not open a file with File at all; offsets, truncation and sharing depend on the history",
     ["core/file.c"], [("opening, reading and writing", "core/file.c potion_file_new, potion_file_read, potion_file_write, potion_file_print, potion_file_close")],
     ENUM + "; all histories in the bound against a model of the file system in Python, the files left compared byte by byte",
     "exhaustive for the stated operations and depths; read with a negative count and write to a full disk are not explored",
     observe=["results of every operation, and the bytes of every file in a private directory at the end of the program"])

prop("C19", "A buffered file is a stream over the bytes of the file",
     """Every history of fopen, fputs, fputc, write, fgetc, fgets, fread, fseek, ftell, feof, fflush, close and unlink that keeps to the rules of C streams gives the results, and leaves the files, that a stream over a sequence of bytes prescribes.
     What was written is in the file after fflush, fseek or close; a line read is up to its newline or 1023 bytes; an operation the mode does not allow, or on a closed stream, fails and changes nothing; and none of this depends on when the collector runs.""",
     ["inputs", "programs"],
     """all sequences of 3 of 16 (32) operations and of 4 in thorough, from each mode; item sizes and counts of fread and write, and seeks from each origin, in long files; absent, empty and temporary files; all sequences of 2 (3) of 15 operations on two streams in all pairs of 4 modes; every byte; line lengths around 1023 and the buffer sizes;
     collections at every allocation of sequences of 2""",
     "one test writes three bytes; positions, end flags, closing and what the collector moves depend on the history",
     ["lib/buffile.c"], [("streams", "lib/buffile.c potion_buffile_fopen, fwrite, fread, fgets, fseek, unlink")],
     ENUM + "; all histories in the bound against a model of streams in Python, with the library linked to the executor",
     "exhaustive for the stated operations and depths; fdopen, freopen and fmemopen are not explored (a memory stream keeps the address of Bytes the collector moves)",
     observe=["results of every operation, and the bytes of every file in a private directory at the end of the program"])

prop("C20", "Database gives programs exactly the rows SQLite holds",
     """exec runs every statement of its text in order and calls the block once per row, in order, with a table of the row's columns as text or nil for NULL; gettable gives the same rows as a list of tables.
     A statement in error, a closed database and a path that cannot be opened give an error or nil and change nothing further; rows survive close and open, and connections to a file see each other's rows.
     Blocks may allocate, query again and keep their rows, whenever the collector runs.""",
     ["inputs", "programs"],
     """all sequences of 3 (4) of 9 operations on a new file, of 2 (3) of 24 on a file with rows and of 20 in memory; all sequences of 3 (4) of 12 operations on two connections to one file or two; all sequences of 4 (5) of begin, commit, rollback, close and open on two connections; columns to 100; row counts to 300 (1000) and texts to 5000 characters;
     collections at every allocation of histories of 1 (2) reads""",
     "one test inserts two rows; the rows a block keeps, and the block itself, move when the collector runs inside a query",
     ["lib/database.c"], [("queries", "lib/database.c potion_sqlite_exec, potion_database_callback, potion_sqlite_gettable"), ("opening and closing", "lib/database.c potion_sqlite_open, potion_sqlite_close")],
     ENUM + "; all histories in the bound against a model of the table in Python, with the library linked to the executor",
     "exhaustive for the stated statements and depths; SQLite itself is trusted; transactions are BEGIN IMMEDIATE (locks taken later are SQLite's own)")

prop("C14", "Memory held is what the program can still reach, however much it ever allocated",
     """After a collection the heap holds exactly the objects reachable from the program's variables, plus a fixed amount: values that were dropped, overwritten, removed from a list or table, or went out of scope take no space,
     also when they form cycles or once were old. While a program runs whose reachable data stay bounded, the heap, the tables of names and strings, the C heap and the address space it holds stay bounded,
     whatever the number of iterations; a table whose entries come and go takes space in proportion to those it holds at once.""",
     ["histories", "programs"],
     """all sequences of 3 (4) of 20 operations on a graph of objects, pairs, closures, lists and tables; 50 expressions that make garbage under 25 ways of holding and dropping it, in loops of 4000 to 1200000 iterations,
     compared with loops four times as long; loops beside a large old generation; string and key churn of 400000; VM and JIT""",
     "tests are too short to run the collector more than once, and none looks at the memory in use",
     ["core/gc.c", "core/gc.h", "core/khash.h", "core/table.c", "core/string.c", "core/objmodel.c"],
     [("collections", "core/gc.c potion_gc_minor, potion_gc_major, potion_mark_*"), ("weak string table", "core/gc.h GC_MINOR_STRINGS, GC_MAJOR_STRINGS"), ("growth of tables", "core/khash.h kh_resize")],
     "bounded exhaustive enumeration of operation histories over an object graph executed on the real collector, the live bytes of every history compared with the reachable graph of a Python model; and loop invariance of every allocator x holder",
     "exhaustive for the stated operations and depth; sizes of the object kinds are measured in the tree under test; loop bounds are finite; memory after a program has ended is not looked at",
     observe=["bytes of the heap in use after a full collection with the program's value held, mallinfo2, the sizes of the regions at every collection, and /proc/self/statm"])

prop("C21", "load finds the first candidate on the loader path, runs it once and gives its value",
     """load(name) takes, for each directory of LOADER_PATH in order, the first regular file among DIR/name, name with .pnb, .pn and .so, and name/base with no extension and with these; only that file decides.
     Source and compiled code are run once, after the files they load themselves, and the value of the last expression is the value of load; a library has its Potion_Init_base called; a missing file and one without a known extension give nil and nothing else happens.
     The name passed, and the variables of the program that loads, are unchanged; what a file defines globally stays; files that appear and changes to LOADER_PATH count from the next load; and none of this depends on how often files are loaded or when the collector runs.""",
     ["configurations", "histories", "programs"],
     """all sets of candidate files in two directories of the path for 5 (7) kinds of name, up to the stated sizes, and directories in the place of files; all sequences of 3 (4) of 13 loads, file creations and path changes;
     all two-level load graphs on three files as source or compiled; values, definitions and file sizes around buffer sizes; 1500 loads in one run; collections at every allocation""",
     "one test loads one file; which of the candidates exists, names with dots and slashes, compiled files and repetition each take another path",
     ["core/load.c", "core/compile.c", "core/file.c"],
     [("lookup", "core/load.c potion_find_file, find_extension"), ("running what was found", "core/load.c potion_load, potion_load_code, potion_load_dylib, potion_initializer_name")],
     "bounded exhaustive enumeration of file layouts and load histories executed on the real loader in private directories, against a model of the lookup in Python",
     "exhaustive within the stated layouts and depths; LOADER_PATH entries are relative directories; a syntax error in a loaded file ends the program and is not explored",
     observe=["the value of load and of the globals it defines, and a log every loaded file appends to"])

prop("C17", "A continuation resumes where it was captured, any number of times, and changes nothing else",
     """`here` gives a continuation; calling it from anywhere in the program, any number of times, makes the program go on after the `here` with the local variables of the frames it was captured in as they were then, nil as its value, and the objects,
     captured variables and globals as they are now. This holds at the top level, in functions, methods, blocks, and callbacks that run inside a primitive (each, times, sort, map), at any depth of calls, from deeper, shallower or other frames, after the frame
     that captured it has returned, for any number of continuations, when a collection happens between capture and call, and in the VM and native code alike.""",
     ["programs", "histories"],
     """all program skeletons of up to 4 (6) nodes over capture points, jumps, variables, blocks, loops, functions and callbacks, each with every schedule of up to 2 jumps; depths of capture and of call 0-11 (0-59) in all pairs; 3000 (50000) captures;
     collections at every allocation of the small ones""",
     "one test makes one jump; the state that must be restored is the machine stack, and depends on where capture and call happen",
     ["core/callcc.c", "core/primitive.c", "core/gc.c", "core/vm-x86.c", "core/vm.c"],
     [("capture and call", "core/callcc.c potion_callcc, potion_continuation_call, potion_callcc_yield"), ("the copied stack under collection", "core/gc.c potion_mark_minor PN_TCONT, potion_type_size")],
     "bounded exhaustive enumeration of programs and jump schedules on the real implementation, against an explicit-state machine whose control state can be copied (Python)",
     "exhaustive within the stated skeletons and schedules; a literal under construction when the continuation is captured is one shared object and not explored; heap addresses are never used again in the executor")

prop("C22", "greg's parsers match what the grammar says and run the right actions with the right text",
     """The C code greg writes for a grammar is accepted by the compiler and parses as the grammar reads as a parsing expression grammar: sequence, ordered choice, ?, *, +, & and !, classes, literals in every spelling of a character, predicates, rules and recursive rules;
     it matches exactly those inputs, takes exactly the matched prefix from the input, whatever the pieces it is read in, and leaves the rest for the next call. The actions on the path that matched, and only those, run once each in order,
     with the text between the last < and > before them and with every variable holding the value of its rule in its own invocation; a ~ action runs when its expression fails. None of this depends on the length of input, text, actions or recursion, nor on blanks, comments or quotes in the grammar.""",
     ["inputs", "programs"],
     """all expressions of up to 4 (5) nodes over literals, classes, actions, captures, predicates and rules, on all inputs up to length 4 (5); all recursive rules up to 4 (5) nodes; every byte in every spelling as literal and in 5 classes against every byte; all classes of up to 4 (5) of 6 (8) characters;
     lengths around the sizes of the parser's four buffers read in pieces of 4 sizes; up to 8 calls in a row; 400 spellings of one grammar""",
     "greg is tested with the one grammar of the language itself",
     ["tools/compile.c", "tools/tree.c", "tools/greg.y"],
     [("generator", "tools/compile.c Node_compile_c_ko, Rule_compile_c2, makeCharClass, yyqq"), ("runtime of the parsers", "tools/compile.c preamble, footer"), ("grammar of grammars", "tools/greg.y")],
     "bounded exhaustive enumeration of grammars and inputs, the parsers generated and run, against an explicit-state PEG matcher in Python",
     "exhaustive within the stated sizes; expressions that repeat an empty match and left recursion are not grammars and not explored; NUL in grammars is not explored; the generator and the parsers of the buffers part run with AddressSanitizer",
     observe=["for every rule and input, whether it matched, how much was taken, and which action ran with which text, length and variable"])

prop("C25", "What is defined on a kind is found from every value of it, and what a value says about itself is so",
     """Methods, constants and class methods defined at any time on a built-in kind, a class, Object, Lobby, Mixin or a metaclass, however it is named (K m = ..., K def ('m', ...), value kind m = ..., A meta m = ..., B parent m = ...),
     are from then on found from exactly the values of that kind and the kinds derived from it, the nearest and latest definition winning, built-in ones included, with self the value the message was sent to; any number of names on a kind, any value as constant.
     kind, parent, isa?, subclass?, can, ?name and methods tell of every value what message sends find; arity, minargs and string of a function tell its parameters, types, defaults and which are required; send calls the method of the name it is given; the code of a function, and a clone of it, called with a list of arguments, do what the function does.
     Asking these of a value of any kind with an argument of any kind gives an answer or an Error, never a crash.""",
     ["histories", "inputs"],
     """all histories of up to 3 definitions on 17 kinds in 6 forms, seen from 20 values after every step; every kind against every value; up to 40 (200) names per kind; all pairs of kinds sharing a function; all pairs of 9 constants;
     all signatures of up to 4 (5) parameters; the code of functions of 15 forms and of up to 40 (200) parameters, constants and inner functions, cloned twice, also with a collection at every allocation; VM, JIT, .pnb""",
     "tests define methods on a few kinds once and call them from one value; which method is found depends on the whole history of definitions and the chain of kinds of the receiver",
     ["core/objmodel.c", "core/mixin.c", "core/internal.c", "core/compile.c"],
     [("definition", "core/objmodel.c potion_def_method, potion_add_metaclass"), ("lookup", "core/objmodel.c potion_bind, potion_lookup"),
      ("introspection", "core/objmodel.c potion_lobby_kind, potion_lobby_parent, potion_lobby_can, potion_object_isa, potion_sig_*")],
     ENUM + "; all histories of definitions against a model of the chains of kinds",
     "exhaustive for the stated kinds, forms and depths; methods of a metaclass are not inherited by derived classes in this language and the model says so")

prop("C26", "An expression has its value, once, in every place it can stand",
     """Any expression - literal, variable, call, list, element, path, query, function, operator, condition - alone or with a message sent to it, yields the same value and has its side effects exactly once wherever the language lets it stand:
     as operand of any operator, argument, item of a list or table, key, receiver, condition, right side of an assignment, default, result, in a group or a block, and in any of these inside another; operands and arguments are evaluated from left to right.
     Writing it there changes no variable of the function around it but those it assigns to.""",
     ["programs"],
     """27 (30) expressions with up to 1 message of 20 sent to them, in each of about 110 places, at the top level and in a function of its own with variables before and after it; all pairs of places; thorough: larger sets of each; VM, JIT, .pnb""",
     "registers and argument slots are assigned to an expression from where it stands; a test checks a form in the one place it was written for",
     ["core/compile.c", "core/vm.c", "core/vm-x86.c", "core/syntax.y"],
     [("compiler", "core/compile.c potion_source_asmb, potion_arg_asmb"), ("parser", "core/syntax.y expr, value, call"), ("execution", "core/vm.c potion_vm; core/vm-x86.c")],
     ENUM + "; all combinations of expressions and places against an evaluator of the language",
     "exhaustive for the stated expressions and places up to depth two; a list literal as bare operand is a group, and named arguments and assignments that the grammar reads differently in some places are not explored there",
     observe=["value and log of side effects of the program"])

prop("C27", "The command line runs the program it was given, as the options say, once",
     """potion reads its options from left to right up to the first word that is none, -- or the end: of -B, -X, -c and --check the last one decides what is done, every -M module is loaded once, in order, before the program, every -L directory (-L dir, -Ldir) is searched after the standard ones, the last -e is the program, -I prints its value;
     whatever the order and spelling of the options. The file named next, or the code after -e, is run exactly once with argv the name and the remaining words, none of them taken as an option, whatever the length, number and characters of names, words and text.
     -c writes FILEb beside the file and runs nothing; that file then behaves as the source. --check runs nothing. -h, -v and -s run nothing. A program that does not parse is not run and says so without reading its standard input.
     Without a program each line of the input is evaluated in one session that keeps what it defined, and its value is shown.""",
     ["inputs", "histories"],
     """all sequences of up to 2 of 34 options and 3 of 15 before every sort of file and of no file; all lists of up to 2 (4) of 10 words after it; 23 texts as file, bytecode, -e with and without blank; files of sizes around the powers of two up to 4 MB, names of 1 to 250 characters, paths over 1000;
     17 programs that do not parse under 3 inputs (one that never ends); all sessions of up to 2 (3) of 18 lines, and of up to 900 (9000) lines""",
     "the tests start the command in one way",
     ["core/potion.c", "lib/readline/readline.c", "core/load.c", "core/syntax.y"],
     [("options", "core/potion.c main"), ("execution, compilation", "core/potion.c potion_cmd_exec"), ("modules", "core/potion.c addmodule")],
     "bounded exhaustive enumeration of command lines and sessions run on the real command, against a state machine of the options in Python",
     "exhaustive within the stated options and lengths; --compile=c and =exe are not implemented, the debugger and a terminal's line editing are not explored, and the exit status is decided only for programs that do not parse",
     observe=["output, errors, files written, the mode that executed and the end of the process"])

prop("C28", "Random numbers are the Mersenne twister's, from the seed that was set",
     """After srand(s), for every integer s, the numbers that rand (an integer in [0, 2^32)) and k rand (a double in [0, 1) of 53 bits, for any number k) give are the sequence of MT19937 initialized with s modulo 2^32, without any being repeated or left out,
     however many have been drawn, in whatever order seeds are set and numbers drawn, wherever in a program they are drawn and whatever mode executes it.""",
     ["inputs", "histories"],
     """all sequences of up to 4 (5) seeds set and numbers drawn; 22 seeds at the edges of the integer range with drawings up to 5000 (50000), around every renewal of the state; sums of the first 714 (70000) numbers; 10 places of a program, with collections at every allocation""",
     "no test sets a seed",
     ["core/mt19937ar.c", "core/objmodel.c"],
     [("generator", "core/mt19937ar.c init_genrand, next_state, potion_rand_int, potion_rand_double"), ("methods", "core/mt19937ar.c potion_srand, potion_rand, potion_num_rand")],
     ENUM + "; against MT19937 in Python",
     "exhaustive for the stated sequences and seeds; creating an object also draws a number, so that programs which do so between the seed and a number are not explored",
     observe=["numbers drawn"])

prop("C29", "Functions, methods and classes written in C work as those written in Potion",
     """A function given to the interpreter through its C interface (a closure made with a signature, a method or class method defined with it, a global) is called with
     exactly the arguments of the call: by position, by name, with the declared default or the default of the type for those left out, for every number of parameters,
     at every call site and register, from the VM, the JIT and loaded bytecode; its method sees the object it is called on. Closures called from C, messages sent from C, fields read and set from C
     and classes made in C behave as in Potion, to any depth of C calling Potion calling C. What C code makes and holds on its stack survives every collection.""",
     ["programs", "inputs", "schedules"],
     """all signatures of 1 to 3 parameters (4 thorough) of every kind with every number, order and naming of arguments at thirteen kinds of call sites; 0 to 13 parameters in registers up to 125;
     callbacks with 0 to 14 arguments; all histories of field writes from both sides and of redefined globals; a collection at every allocation while C code makes values""",
     "the tests of the C interface call a few functions with one argument; how arguments reach C depends on signature, call site, register and execution mode",
     ["core/internal.c", "core/objmodel.c", "core/syntax.y", "core/vm.c", "core/vm-x86.c", "core/potion.h", "core/gc.c"],
     [("calls into C", "core/internal.c potion_call, core/vm.c OP_CALL, core/vm-x86.c potion_jit_call"), ("signatures", "core/syntax.y potion_sig"), ("calls from C", "core/vm.c potion_vm_proto"), ("objects", "core/objmodel.c")],
     ENUM + "; native functions (lib/natives.c) linked with the interpreter record what they are called with, against the binding rules in Python",
     "exhaustive within the stated signatures, call sites and depths; C functions of more than 14 parameters are not called by the VM and not claimed")

prop("C30", "A program's input, output, environment and end are those of its process",
     """read gives the lines of the standard input one after the other, every byte of them once and in order, a line with its line end, the last one without if it has none, a line too long for one reading in pieces of 1023 bytes, then nil for ever, wherever in the program it is called; and what was read keeps its value.
     Env is the environment the process was started with, every variable under its name with its whole value, however many and however long they are, and a program starts with any of them.
     What is printed comes out whole and in the order it was printed, whatever its amount and wherever it is printed from (say adds a line end), also when the program ends by exit, from the place where exit stands, with status 0 and nothing after it evaluated; the same in the VM, the JIT and from a bytecode file.""",
     ["inputs", "histories"],
     """all inputs of up to 1 (2) of 14 lines at the edges of 1023 bytes, up to 2 (4) of 5 short ones, with and without the last line end, under 4 programs; up to 5000 (100000) lines; all sequences of up to 2 (3) of 14 ways to print before 13 ways to end; amounts of output around the powers of two to 300000 (1 MB) in 4 sizes of piece;
     all sets of 8 variables; environments of up to 3000 variables and 1.5 MB""",
     "no test reads the standard input, looks into the environment or exits",
     ["core/file.c", "core/string.c", "core/objmodel.c", "core/internal.c"],
     [("input", "core/file.c potion_lobby_read"), ("environment", "core/file.c potion_file_init"), ("output", "core/string.c potion_str_print, core/objmodel.c potion_lobby_say"), ("end", "core/objmodel.c potion_exit, core/internal.c potion_destroy")],
     "bounded exhaustive enumeration of inputs, environments and histories of printing run on the real command, against their definition in Python",
     "exhaustive within the stated lines, sizes and lengths; NUL bytes in the input, a terminal, an output that fails, and environment entries without a name are not explored",
     observe=["output, errors and status of the process"])

prop("C31", "The line typed at the prompt is the line that its keys make, as shown, and the history keeps it",
     """readline at a terminal yields the line that the keys typed make, for every sequence of them: a character is inserted at the cursor; the keys for moving, deleting (before, at, to the end, the word before, all), swapping two characters and clearing the screen do to line and cursor what they say and nothing else; keys it does not know change nothing; it makes no difference how the bytes of the keys arrive.
     Before each key the terminal shows, in one row, the prompt and the part of the line around the cursor, with the cursor in its place, whatever its width; after each line it is as it was before, on a row of its own.
     The keys up and down go through the lines of the history and those typed since, each with the edits made to it, back to the line being typed, and no further; the history holds the last 100 lines, the one being typed included, is read from its file once and is in the file after each line; a line given up is not in it.
     Ctrl-c, the end of the input, and ctrl-d on an empty line give nil, the end of the input after some text gives that text first; input that is not a terminal gives its lines whole, whatever their length.""",
     ["inputs", "histories"],
     """all sequences of 2 of 26 keys, of 3 (4) of 15 keys at 4 (6) places of a line, of 4 (5) keys on an empty line; of 3 (4) keys under three ways their bytes arrive; the end of the input at every point of every sequence of up to 3 (4); widths of 3 to 200 columns, unknown, and zero, with prompts of 0 to 5 characters and lines around the width;
     histories of 0 to 150 lines with all sequences of 3 (5) moves; sessions of up to 120 (259) lines; lines of 4000 to 4200 characters, in files of up to 10000; piped lines of up to 100000""",
     "no test has a terminal; what a key does depends on the line, the cursor, the width and the history before it",
     ["lib/readline/linenoise.c", "lib/readline/readline.c"],
     [("editor", "lib/readline/linenoise.c linenoisePrompt"), ("display", "lib/readline/linenoise.c refreshLine, getColumns"), ("history", "lib/readline/linenoise.c linenoiseHistoryAdd, linenoiseHistoryLoad, linenoiseHistorySave"), ("entry", "lib/readline/readline.c pn_readline, lib/readline/linenoise.c linenoise")],
     "bounded exhaustive enumeration of key sequences run on the real line editor against a terminal of the harness, each state compared with a reference editor",
     "exhaustive within the stated keys, lengths and widths; other control characters, the NUL byte, cursor movement over characters of several bytes, prompts wider than the terminal, completion and Windows are not explored",
     observe=["lines read, what the terminal shows before each key, terminal mode, history.txt"])
