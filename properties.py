# Read by gen.py: one prop(...) per claimed property.
NOT_APPLICABLE = []

prop('C04', 'A name always means its innermost visible declaration',
     "In every program, reading or assigning a variable reaches the innermost declaration of that name that is visible at that point: "
     "shadowing in a nested block, loop, case, function literal or block expression never changes the outer variable, and the outer one is back when the scope ends. "
     "A use of a name that no visible declaration introduces is refused with an error.",
     ['programs'],
     'Every well-nested sequence of at most 5 (thorough: 6/7) scope operations over two names, with parameters and globals of the same names, parameters of other names, and scopes left by return, break or continue.',
     'The tests compile a handful of programs with almost no shadowing; a frame that leaks or is popped once too often shows only for particular nestings.',
     [S + 'semantic.go', C + 'compiler.go', 'internals/undomap/undomap.go'],
     [('enterFrame/leaveFrame', S + 'semantic.go'), ('declare/retrieveVariable, pushBlock/popBlock', C + 'compiler.go'), ('UndoMap', 'internals/undomap/undomap.go')],
     'explicit-state exploration of all bounded sequences of scope operations against a reference model',
     IR + TRUST + 'Bounded by the length of the sequences; assignments to captured variables are out of this check.')

prop('C03', 'Every input gets an answer',
     "Whatever the input, the parser and the analysis of types end: they accept it, or they refuse it with at least one diagnostic. "
     "They never crash, never hang and never end the process, however broken, truncated or deeply nested (up to 200 levels) the input is.",
     ['inputs'],
     'Every sequence of 2 (3) of 62 tokens in 17 contexts and of 3 (4) in 4 of them, every single mutation of 46 programs by deletion, repetition, exchange, replacement, insertion and truncation of tokens, every pair of deletions, 46 nesting forms up to depth 200.',
     'The tests feed programs that are right or wrong in a few known ways; a crash waits behind one of the millions of other wrong ones.',
     ['internals/parser/parser.go', 'internals/parser/parser_assignment.go', S + 'semantic.go', S + 'semantic_errors.go'],
     [('Parse and the parse functions', 'internals/parser/parser.go'), ('Analyze and the analyze functions', S + 'semantic.go'), ('errors', S + 'semantic_errors.go')],
     'exhaustive enumeration of token sequences in contexts and of program mutations through the real front end',
     'The real front end is called in worker processes, whose death or silence for 60 seconds is a violation after it was repeated alone.')

prop('C06', 'An accepted program becomes a valid module',
     "Every program that the parser and the analysis of types accept is compiled into an LLVM module that LLVM accepts: its types match, its blocks are terminated, and its values are defined before they are used. "
     "The compiler never crashes on an accepted program and never ends with an internal error, apart from global variables whose initial value is not a constant.",
     ['programs'],
     'Every accepted one among the sequences of 2 (3) of 62 tokens in 17 contexts and of 3 (4) in 4 of them, and among all single mutations and double deletions of 46 programs, and 46 nesting forms up to depth 60.',
     'The tests compile programs that make sense; the accepted programs that nobody would write are where the analysis and the compiler disagree.',
     [C + 'compiler.go', C + 'compiler_types.go', S + 'semantic.go', S + 'semantic_builtin.go'],
     [('Compile and compileExpression', C + 'compiler.go'), ('ToLLVMType', C + 'compiler_types.go'), ('analyzeExpression', S + 'semantic.go')],
     'exhaustive enumeration of token sequences in contexts and of program mutations; the module of every accepted one is verified',
     'An in-memory verifier checks types, terminators and dominance of every module; what it suspects, and a sample of the rest, is given to llvm-as, whose answer decides. A switch with equal cases is refused with a diagnostic by the compiler itself.')

prop('C07', 'A function that can fall off its end is refused, any other is accepted',
     "A function, function literal or block expression with a result is refused exactly when some path through its body reaches the end without returning, where an if chain returns when it has an else and all of its arms return, a switch when it has a default and all of its cases return, and a loop never counts as returning. "
     "An accepted body always returns the value of the first return statement it executes, and nothing after it runs.",
     ['programs'],
     'Every body that is a tree of at most 3 (4 over a smaller alphabet, thorough 4/5) statements, else-if chains and switches of up to 6 arms with every subset of returning arms; dead code behind returns.',
     'The tests hold a few fixed bodies; whether all paths return depends on the shape of the whole body.',
     [S + 'semantic.go', C + 'compiler.go'],
     [('returns tracking per function and block', S + 'semantic.go'), ('compileReturn, compileIf, compileSwitchStatement', C + 'compiler.go')],
     'exhaustive enumeration of function bodies against a path specification, accepted bodies executed on all inputs of the bound',
     IR + TRUST + 'Bounded by the size of the bodies.')

prop('C08', 'Arithmetic and bitwise operators compute the values of their types',
     "For every numeric type and every operand values, + - * / % & | ^ << >> and unary minus compute the value of that type, with two's complement wrap-around for integers, signed or unsigned division and remainder according to the type, logical right shifts, and IEEE arithmetic for f32 and f64. "
     "The result does not depend on where the operands live (literals, constants, variables, globals, fields, elements, pointers, parameters or calls) nor on where the operation appears.",
     ['programs', 'inputs'],
     '14 operators, 10 numeric types, 13 places of the operands, all pairs of boundary values (all 65536 pairs for 8 bit types), chains of two operators.',
     'The tests check a few operations on i32; signedness, width and constant folding bugs need particular types, values and places.',
     [C + 'compiler.go', C + 'compiler_constant.go', 'internals/ops/operations.go', S + 'semantic.go'],
     [('compileAdd ... compileShiftLeftBinary', C + 'compiler.go'), ('compileOperation', C + 'compiler_constant.go'), ('analyzeArithmetic', S + 'semantic.go')],
     'exhaustive enumeration of operators x types x places x boundary operands, executed on an explicit-state IR machine against a reference model',
     IR + TRUST + 'Division by zero, the overflowing division and shifts by at least the width are not specified and are not explored.')

prop('C09', 'Comparisons and boolean operators follow the order of the operand type',
     "== != < <= > >= on any two values of the same numeric, boolean or pointer type give the truth value of that type's order, unsigned for unsigned integers, booleans and pointers, signed for signed integers and IEEE for floats. "
     "!, && and || give 0 or 1 by the truth of their operands, and a comparison gives the same answer as a value and as a condition of if, else if, for or a larger formula.",
     ['programs', 'inputs'],
     '6 comparisons, 11 scalar types and pointers, 13 operand places, 17 uses, all pairs of boundary values, all boolean formulas up to three connectives.',
     'The tests compare a few i32; the sign bit, mixed places and uses of the result are not reached.',
     [C + 'compiler_comparisons.go', C + 'compiler_conversions.go', C + 'compiler.go', C + 'compiler_constant.go'],
     [('getIPredComparison, getFPredComparison', C + 'compiler_comparisons.go'), ('toBool', C + 'compiler_conversions.go'), ('compileAnd, compileOr', C + 'compiler.go')],
     'exhaustive enumeration of comparisons and boolean formulas over boundary values, executed on an explicit-state IR machine against a reference model',
     IR + TRUST + 'Only boundary values are compared for types wider than 8 bits.')

prop('C10', 'Casts between scalar types preserve or wrap values as documented',
     "Casting a number to another numeric type gives the same number when the target can represent it; narrower integers keep the low bits, wider ones extend by the signedness of the source type, floats are truncated towards zero and integers are converted by the signedness of the integer type. "
     "Both spellings of a cast agree, chains of casts compose, pointers survive a round trip through a 64 bit integer, and constants are cast like variables.",
     ['programs', 'inputs'],
     'All 11 x 11 scalar casts and all chains of two casts on boundary sets, in every place of the operand.',
     'The tests cast a few values once; sign extension and constant casts depend on the pair of types and the value.',
     [C + 'compiler_conversions.go', C + 'compiler_constant.go', C + 'compiler.go', S + 'semantic_builtin.go'],
     [('handleCast', C + 'compiler.go'), ('handleIntegerCast, handleFloatIntCast, handleFloatCast', C + 'compiler_conversions.go'), ('handleConstantCast', C + 'compiler_constant.go')],
     'exhaustive enumeration of cast chains over boundary values, executed on an explicit-state IR machine against a reference model',
     IR + TRUST + 'Floats out of the range of the target integer are not specified and are not explored.')

prop('C11', 'Control flow runs exactly the statements the source selects',
     "if chains run exactly the first arm whose condition holds, a switch exactly the case equal to its value or the default, for loops run initialisation, condition, body and update in that order until the condition fails, and break, continue and return leave or resume exactly the innermost loop or function. "
     "This holds for every nesting of these statements, and statements run in source order exactly as often as selected, however often that is.",
     ['programs', 'inputs'],
     'Every list of statements with at most 3 nodes (thorough 4) on 6 inputs, every nesting up to depth 4 around break, continue and return, chains of up to 7 arms and switches of up to 9 cases; loops of 4000000 iterations around 64 bodies.',
     'The tests have a few fixed loops and ifs; wiring of basic blocks breaks only for particular nestings and positions.',
     [C + 'compiler.go', S + 'semantic.go', P + 'parser.go'],
     [('compileIf, compileFor, compileSwitchStatement, compileBlock', C + 'compiler.go'), ('parseIf, parseFor, parseSwitchStatement', P + 'parser.go')],
     'exhaustive enumeration of statement trees, every execution compared step by step with a reference interpreter',
     IR + TRUST + 'Bounded by the size and depth of the trees.')

prop('C12', 'Operands are evaluated once, left to right, and only when needed',
     "Every operand, argument, array element and field value of an expression is evaluated exactly once and from left to right in source order, except that the right side of && runs only when the left side is true and the right side of || only when it is false. "
     "This holds for every shape of expression and wherever the expression appears.",
     ['programs', 'inputs'],
     'Every tree of at most 4 (thorough 5) leaves over the logical and mixed operators with every assignment of truth values, 1 to 8 arguments, elements and fields in every order of naming.',
     'Tests print results, not traces of evaluation; duplicated or skipped evaluation shows only when the operands have side effects.',
     [C + 'compiler.go', C + 'compiler_constant.go', C + 'compiler_comparisons.go'],
     [('compileAnd, compileOr, compileFunctionCall, compileStructLiteral, compileArrayLiteral', C + 'compiler.go')],
     'exhaustive enumeration of expression trees with traced leaves, against a reference interpreter',
     IR + TRUST + 'The order between the two sides of an assignment is not specified and is not checked.')

prop('C14', 'Sizes, offsets and strides agree everywhere a type is used',
     "@sizeof a type is the number of bytes that its values occupy: the last field of a struct ends within it, fields never overlap, all fields of a union start at its beginning and it is as large as its largest field, and elements of arrays and pointers are exactly one size apart. "
     "@alloc and @realloc of n elements give a block that holds exactly n elements of that type, whatever the integer type of n, and @realloc keeps the elements that fit.",
     ['programs', 'inputs'],
     'Every struct of at most 3 fields over 12 field types (4 over 8), every union of at most 3, started from each single field; @alloc and @realloc of 1 to 17 elements of 13 types.',
     'The tests allocate a few structs and never look at bounds; a wrong size or stride corrupts a neighbour only for particular shapes.',
     [C + 'compiler_types.go', C + 'compiler.go', 'internals/ctypes/types.go', C + 'compiler_rest.go'],
     [('SizeOf', 'internals/ctypes/types.go'), ('handleSizeOf, handleAlloc, handleRealloc', C + 'compiler.go'), ('ToLLVMType', C + 'compiler_types.go')],
     'exhaustive enumeration of type shapes against a layout model, executed on a bounds-checked explicit-state IR machine',
     IR + TRUST + 'The layout is that of a 64 bit platform.')

prop('C15', 'Reads see the last write: variables, fields, elements and pointers',
     "Reading a variable, a field, an array element or through a pointer gives the value last written to that place by whatever path, and a write changes no other place. "
     "Assigning, passing or returning a struct, union or array copies all of it, and a pointer keeps naming the same place for as long as that place lives.",
     ['programs', 'histories'],
     'Every sequence of 3 (thorough: 4) operations of an alphabet of writes, copies, address-of and pointer operations over nested structs, arrays, unions and pointers; every access path up to depth 4 in every storage, and 39 shapes of type reached from 19 origins in 3 forms.',
     'Tests touch one or two places; a wrong offset or a missing copy shows only when another place is read after a certain history.',
     [C + 'compiler.go', C + 'compiler_types.go', S + 'semantic.go'],
     [('compilePrefixExpression, compileAssignment, handleIndexAccess, handleDotAccess', C + 'compiler.go')],
     'explicit-state exploration of all bounded operation sequences against a byte-accurate reference memory',
     IR + TRUST + 'Bounded by the length of the sequences and the depth of the paths.')

prop('C17', 'Function values and method calls reach the function that was stored',
     "Calling a function value calls the function that was last stored in it, with all arguments in order, wherever the value lives: a variable, parameter, result, field, element, heap block or pointer. "
     "An anonymous function sees the values that the variables it mentions had when it was created, whatever happens to them later, and x.f(args) calls f with x as its first argument unless x has a field f that holds a function.",
     ['programs', 'histories'],
     'Captures of 1 to 6 variables of 14 types nested up to depth 4; 17 homes x 6 origins x 10 signatures; receivers of 16 types with up to 6 arguments; all sequences of 3 (thorough 4) of 14 operations.',
     'The tests have a handful of anonymous functions over i32; layout of captures, struct results and calls through places depend on the combination.',
     [C + 'compiler.go', C + 'compiler_types.go', S + 'semantic.go'],
     [('compileAnonymousFunction, compileFunctionCall', C + 'compiler.go'), ('analyzeFunctionCall, analyzeAnonymousFunction', S + 'semantic.go')],
     'exhaustive enumeration of captures, homes of function values, method calls and operation sequences against a reference interpreter',
     IR + TRUST + 'Assignments to captured variables and a second creation of the same anonymous function are not specified.')

prop('C18', 'Multiple declarations, assignments and returns move every value',
     "An assignment a, b = x, y of any length stores in every target the value that its own right hand side had before any of the targets changed, and a declaration or a return of several values delivers every value to the variable in its position, with its type. "
     "Where the number or the types of the values do not match the targets, the program is refused.",
     ['programs', 'inputs'],
     'All n^n assignments of n variables for n up to 4 (5), sequences of 3 among 12, all pairs of 14 types in 6 kinds of targets and 5 kinds of callees, all mismatched counts and types.',
     'The tests swap two i32 and return two values; a value stored too early or at the wrong position shows only for certain permutations and types.',
     [C + 'compiler.go', C + 'compiler_rest.go', S + 'semantic.go', P + 'parser.go'],
     [('compileMultipleDeclaration, compileAssignment, compileReturn', C + 'compiler.go'), ('analyzeMultipleDeclaration, analyzeReturn', S + 'semantic.go')],
     'exhaustive enumeration of multiple declarations, assignments and returns against a reference interpreter',
     IR + TRUST + 'A target whose place depends on another target of the same assignment is not specified.')

prop('C26', 'Calls pass every argument by value and return the result',
     "A call gives each parameter the value of the argument in its position and yields the value that the callee returns, for every signature, whether the values are scalars, strings, pointers, arrays, structs or unions. "
     "What the callee does to its parameters or locals never changes the caller's variables or those of another activation of the same function, so recursion to any depth keeps its own values.",
     ['programs', 'inputs'],
     'Every signature of at most 2 parameters over 13 types with every result type (thorough: 3), every recursion scheme of depth at most 6 on one or two functions, all call graphs of 3 functions.',
     'The tests call a few functions on scalars; passing structs, mixing registers and memory, and recursion break only for certain signatures.',
     [C + 'compiler.go', C + 'compiler_types.go', S + 'semantic.go'],
     [('compileFunctionDeclaration, compileFunctionCall, compileReturn', C + 'compiler.go')],
     'exhaustive enumeration of signatures, call shapes and recursion schemes against a reference interpreter',
     IR + TRUST + 'Bounded by the number of parameters and the depth of the recursion.')

prop('C16', 'Strings compare by content, concatenate and index byte for byte',
     "For any two strings, == != < <= > >= compare their bytes as unsigned values in lexicographic order, and + yields a new string holding the bytes of the left one followed by those of the right one, whatever the operands are (literals, variables, fields, elements, parameters or calls). "
     "No operation on strings changes its operands or any other string, an index reads the byte at its position and is zero at the end, and a character or string literal holds exactly the bytes of the source with its escapes replaced.",
     ['programs', 'inputs'],
     'All pairs of a set of strings and of all strings of at most 3 letters, 15 places, 17 uses, concatenation trees of at most 4 (5) leaves, every sequence of 4 (5) of 14 operations.',
     'The tests concatenate and compare one or two ascii strings; bytes above 127, shared buffers and operands that are results of operations are not reached.',
     [C + 'compiler.go', C + 'compiler_comparisons.go', L + 'lexer.go', S + 'semantic.go'],
     [('compileAdd and string comparison', C + 'compiler.go'), ('string and character literals', L + 'lexer.go')],
     'exhaustive enumeration of string values, expressions and operation sequences against a byte-accurate reference memory',
     IR + TRUST + 'Writing into a string literal is not specified and is not explored.')

prop('C27', 'Printing shows the value, and an alias is the type it names',
     "A print shows its arguments in order, separated by one space and with nothing else, each by its type: integers in decimal by their signedness, floats with three decimals, strings as their bytes, structs and unions as the name of their type; the place or the form of the expression makes no difference. "
     "A type alias, or an alias of an alias, can stand for its type in every position without changing what the program does.",
     ['programs', 'inputs'],
     'Boundary values of all scalar types in 15 places and 24 forms, all lists of at most 3 of 13 types, lists of up to 12; 19 types x all choices of at most 2 of 22 positions replaced by aliases, declared before or after.',
     'The tests print a few i32 and strings and use one alias; the format depends on type, width and place of the value, and an alias can be forgotten at any single position.',
     [C + 'compiler_format.go', C + 'compiler.go', S + 'semantic.go', S + 'semantic_steps.go'],
     [('printing', C + 'compiler_format.go'), ('analyzeTypeDefinition, UnwrapAnonymous', S + 'semantic.go'), ('retrieveInnerAnonymousAndUnwrap', C + 'compiler.go')],
     'exhaustive enumeration of printed values, forms and argument lists, and of all placements of aliases, against a reference model',
     IR + TRUST + 'What is printed for a pointer that is not a string, an array or a function, and NaN, is not specified. An alias used by the fields of a struct has to be declared before it.')

prop('C01', 'A program is read as the words it is written in',
     "A source is split into the longest words, numbers, operators, string and character literals, whatever white space or comments separate them, each on its own line, and every literal has the value that it spells; a keyword is one only as a whole word. "
     "What is between two words, comments with any content included, changes nothing, and characters that belong to no word, literals that are not closed and numbers that do not fit are refused.",
     ['inputs'],
     'Every string of up to 4 (6) of 30 characters, every 2 and 3 tokens of 75 with all separators, all bytes and pairs of bytes in literals and comments, literal values around every power of two and ten, every separator in every gap of 10 programs.',
     'The tests of the lexer sample one input; words that touch, end with the input, or have unusual bytes are not in them.',
     ['internals/lexer/lexer.go', 'internals/token/tokens.go', 'internals/parser/parser.go'],
     [('NextToken, readString, readNumber, skipUntilJL', 'internals/lexer/lexer.go'), ('parseInteger and the literals', 'internals/parser/parser.go')],
     'exhaustive enumeration of lexer inputs up to a length and of token sequences against an independent reference, and execution of the programs that show the values',
     'The lexer is called directly, the programs go through the compiler. ' + IR + TRUST + 'Escapes other than \\n, \\t, \\r, \\\\ and quotes, numbers that run into letters, and columns are unspecified.')

prop('C02', 'Expressions group by the precedence of their operators',
     "Every expression means what it means with its parentheses written out: postfix operations (call, index, field) bind first, then prefix operators, then casts, then * / %, then the bit operators and shifts, then + -, then comparisons, then && and ||, and operators of one level group from the left. "
     "Explicit parentheses always win, redundant ones change nothing, and this is so in every position where an expression or the target of an assignment can stand.",
     ['programs'],
     'Every sequence of at most 4 (5) binary operators, every pair of 37 operands under every operator, all trees of 3 (4) operators in 3 styles of parentheses, 27 contexts, 38 targets; typed sequences are executed.',
     'The parser tests fix some expressions; a wrong level or a wrong associativity shows only for particular neighbours.',
     [P + 'parser.go', P + 'parser_precedence.go', P + 'parser_assignment.go'],
     [('parseExpression and the table of precedences', P + 'parser_precedence.go'), ('parsePrefixExpression, parseInfix, parseIndex, parseCall, parseAs', P + 'parser.go')],
     'exhaustive enumeration of operator sequences, the tree of the real parser against a reference grammar, and execution of the typed ones against a reference evaluator',
     IR + TRUST + 'Trees are compared between the plain and the fully parenthesised text.')

prop('C13', 'Constants hold the value of their expression and cannot be changed',
     "A constant, local or global, of this or of an imported module, has at every use the value that its expression over literals and other constants would have if it were computed at run time, whatever its type. "
     "A statement that would assign, increment or decrement a constant, in any position, nested scope or function literal, is refused, while a variable, parameter or field that merely shares its name can be changed. "
     "A constant or a label of a case whose expression needs a variable, a call, memory, a comparison or a block is refused.",
     ['programs'],
     'Every pair of 10 operators in both groupings over 10 types, all casts, chains of 12; 40 mutations x 9 places x 5 shadowings, stores through constants and functions as targets; 26 non constant values x 10 expressions x 7 declarations; 33 uses in 13 places and pairs of them.',
     'The tests declare a few i32 constants; folding errors depend on type and operator, and a forgotten mutation path on the statement that mutates.',
     [C + 'compiler_constant.go', C + 'compiler.go', S + 'semantic.go', S + 'semantic_builtin.go'],
     [('compileConstantExpression, handleConstantCast', C + 'compiler_constant.go'), ('expectConstantExpression, expectNonConstantExpression', S + 'semantic.go')],
     'exhaustive enumeration of constant expressions, mutations and uses against the reference arithmetic of variables',
     IR + TRUST + 'Whether the address of a constant can be taken is not specified.')

prop('C20', 'The order of the declarations of a program does not matter',
     "Functions, structs and unions can be declared in any order, with any dependencies between them: fields by value, by pointer, in arrays and in function types, mutual recursion, calls, methods and function values; a type that would contain itself by value, a second function, type, field or parameter of the same name, and a global variable with the name of a function are refused in each order. "
     "A global variable starts with its initial value, and every function, function literal, pointer and recursion sees the same variable, except where a parameter or a local of its name hides it.",
     ['programs'],
     'All orders of the declarations of 24 programs and of pairs with one name, lists of 4 (5) fields or parameters, all graphs of 3 types with at most 2 (3) fields of 5 kinds in 12 orders, all 512 call graphs of 3 functions in 24 orders, every sequence of 3 (4) of 16 operations on globals of 5 types, boundary values of all types.',
     'The tests declare things mostly before their use; the compiler resolves types in several passes and what breaks is a particular dependency in a particular order.',
     [S + 'semantic_steps.go', S + 'semantic.go', C + 'compiler_steps.go', C + 'compiler_types.go', C + 'compiler.go'],
     [('predefineTypes, predefineFunctions, fillTypes', S + 'semantic_steps.go'), ('ToLLVMType', C + 'compiler_types.go'), ('compileGlobalVariable and declarations', C + 'compiler.go')],
     'exhaustive enumeration of declaration orders over dependency graphs and of operation sequences on globals against a reference model',
     IR + TRUST + 'Globals and aliases used by fields have to be declared before their uses; globals are initialised with constants.')

prop('C21', 'Splitting a program into modules does not change what it does',
     "A program behaves the same however its functions, types, globals and constants are spread over modules, directories and import names, also when other modules declare the same names; a module imported along several paths exists once, with one state, and circular imports, broken or missing modules and members that do not exist or are not imported by the file are refused. "
     "A generic module behaves as if its type parameters were written out: two imports with the same type arguments, however spelt and from wherever, are one module with interchangeable types, and with different arguments they share neither types nor state.",
     ['programs'],
     'Every acyclic partition of 16 programs over the main file and 3 modules in 4 layouts with and without decoys, all 512 import graphs of 4 modules, all pairs of 28 type arguments (values, state, 14 interchanges, 5 wrappers, pairs, methods across modules), 47 wrong uses in 4 places and 19 broken modules.',
     'The tests import five fixed modules; names are resolved through the module that wrote them, and it is a particular partition or pair of arguments that mixes two of them up.',
     [S + 'semantic.go', S + 'semantic_steps.go', C + 'compiler.go', C + 'compiler_types.go', P + 'parser.go'],
     [('analyzeImport, typeIdentity, retrieveModule', S + 'semantic.go'), ('TypeParameters', P + 'parser.go'), ('import of compiled modules', C + 'compiler.go')],
     'exhaustive enumeration of partitions, import graphs and pairs of type arguments, the whole program executed and compared with its single meaning',
     IR + TRUST + 'Methods are found in the module of the type of their receiver, which has to be imported. Aliases used by another type have to be declared before it.')

prop('C05', 'A program is accepted exactly when its types fit',
     "Wherever a value meets an expected type (declarations, assignments to every kind of target, literals, arguments, receivers, returns, block values, conditions, labels, indices and builtins) the program is accepted when the types are the same, or the target is a union with a field of that type, and refused with a diagnostic when they are not; the form of the expression and the place of the statement make no difference. "
     "Every operator, cast, index, field access and call accepts exactly the types it is defined for and has the type it is defined to have. "
     "Undefined names, a wrong number of values, values of functions that return nothing, writes to what is not a variable and statements in the wrong place are refused.",
     ['programs'],
     '42 x 42 types in 30 positions, in 12 forms and 14 contexts; 18 binary operators over all pairs and the types of their results, prefix operators, casts, indices, fields, calls with 0 to 3 arguments, conditions, labels, builtins; 35 expressions and 29 statements with undefined names in 16 contexts.',
     'The tests contain some programs with an error; a missing check is for one pair of types in one position.',
     [S + 'semantic.go', S + 'semantic_builtin.go', S + 'semantic_errors.go', S + 'semantic_steps.go'],
     [('areTypesEqual, areTypesEqualIncludingUnions', S + 'semantic.go'), ('analyzeArithmetic, analyzePrefixOperation, analyzeFunctionCall, analyzeFieldAccess', S + 'semantic.go'), ('analyzeCast and builtins', S + 'semantic_builtin.go')],
     'exhaustive enumeration of pairs of types over positions, operators, forms and contexts, the verdict of the real checker against the typing rules, and accepted programs compiled and verified',
     'The typing rules are written down independently of the checker. ' + TRUST + 'Pointers to a field where a pointer to a union is expected, casts of functions, and arithmetic on i1 are not specified.')

prop('C19', 'A block expression gives the value of the return it executes',
     "Wherever a block expression stands, its body runs each time the expression is evaluated, and its value is that of the first return statement executed directly in it, of the declared type; that return never leaves the function, and a return of a function literal or a block expression inside of it never leaves the outer one. "
     "break and continue inside of it act on the innermost loop around them, also when that loop is outside, and then the rest of the statement that holds the expression does not happen. "
     "A body that has a path without a return, or returns another type, is refused, and its names do not exist outside.",
     ['programs', 'inputs'],
     'Every list of at most 3 (4) statements over 5 uses of block expressions, function literals, conditionals, loops and jumps, stacks of up to 4 (6), 18 types x 7 bodies x 24 positions, trees of 3 (4) block expressions as operands, shadowing up to depth 4 (5).',
     'The tests hold two block expressions in declarations; where the return and the jumps go depends on what surrounds and what is inside.',
     [C + 'compiler.go', S + 'semantic.go', P + 'parser.go'],
     [('compileBlockExpression, compileReturn', C + 'compiler.go'), ('analyzeExpressionBlock', S + 'semantic.go'), ('parseBlockExpression', P + 'parser.go')],
     'exhaustive enumeration of statement trees around and inside of block expressions, executed and compared step by step with a reference interpreter',
     IR + TRUST + 'Bounded by the size and depth of the trees; jumps in the header of a loop are not explored.')

prop('C23', 'Conditional compilation keeps exactly the selected code',
     "A program with #if blocks does what it does with the contents of every block whose condition is true written in its place, declarations and imports included, and without the blocks whose condition is false; the condition is an integer or the name of a platform, and anything else is refused. "
     "The content of a false block has to be readable but is otherwise not looked at. "
     "The compiler flags that a program adds are exactly those of the code that is kept, once each, also in code that does not run and in imported modules.",
     ['programs'],
     'Every list of at most 3 (4) statements with true and false blocks, 24 programs of declarations with every choice of wrapped declarations in 5 ways and mixtures, 26 x 26 conditions and 29 refused ones, 37 contents of false blocks, pairs of 14 places of flags.',
     'No test uses conditional compilation in more than one way; a pass that forgets the blocks shows only for one kind of content in one place.',
     ['internals/parser/parser.go', 'internals/eval/constant.go', 'internals/eval/values.go', S + 'semantic_steps.go', C + 'compiler_steps.go', C + 'compiler.go'],
     [('parseMacroIf', 'internals/parser/parser.go'), ('EvaluateConstantExpression', 'internals/eval/constant.go'), ('MacroBlock in the passes', S + 'semantic_steps.go'), ('compileStructTypes, compileFunctionTypes', C + 'compiler_steps.go'), ('add_compiler_flag', C + 'compiler.go')],
     'exhaustive enumeration of placements of conditional blocks and flags, each decided by the meaning of the program with the blocks written out',
     IR + TRUST + 'The platform is fixed: Linux on amd64.')

prop('C22', 'What was compiled before makes no difference',
     "Compiling a program in a process that has compiled other programs before, accepted or refused, has the outcome that compiling it first has: the same verdict, a diagnostic on the same line, and a module with the same behaviour. "
     "This holds whether or not the memory of imported modules was cleared in between. "
     "The diagnostics of a refused program are the same words each time it is compiled.",
     ['histories', 'programs'],
     'Every sequence of 2 of 86 programs (accepted, and refused by every phase) and every sequence of 3 of 30 (thorough: 4 of 14 and 3 of 86), with and without clearing the modules; each program 12 times in a row.',
     'Each test compiles one program, and state that survives in a package variable or depends on the order of a map shows only in a particular history.',
     [S + 'semantic.go', S + 'semantic_errors.go', C + 'compiler.go', 'internals/node/node.go', 'internals/eval/constant.go'],
     [('package variables of the analysis and the parser', S + 'semantic.go'), ('CompileWithEventHandler', C + 'compiler_rest.go'), ('unknown type diagnostic', S + 'semantic_errors.go')],
     'explicit-state exploration of all histories of compilations up to a length, each compilation compared with the known meaning of its program',
     IR + 'Modules are the same files during a history. Bounded by the length of the histories.')

prop('C28', 'The printed tree of a program is its syntax tree',
     "The tree mode prints, for every program that can be read, a drawing of its syntax tree: every statement, operation, operand, name, literal and type once, in the order and nesting that the grammar gives them, with the lines in the right columns. "
     "For a program that cannot be read it ends with a diagnostic and never crashes; a diagnostic appears exactly when the compiler refuses to read the program.",
     ['programs'],
     'Every nesting of three (four) of 48 expression constructors and pairs as operands, 24 positions, every nesting of three of 14 statements with blocks, lists of 2 (3) statements, 24 types in 9 positions, every one-token change of 46 programs and 2 (3) tokens in 16 contexts.',
     'The tests print four small trees; which operand hangs where depends on the nesting, and a crash on the particular broken program.',
     ['internals/tree_printer/printer.go', P + 'parser.go', 'internals/ctypes/types.go'],
     [('Process, processExpression', 'internals/tree_printer/printer.go'), ('ConnectString', 'internals/tree_printer/printer.go'), ('parseExpression', P + 'parser.go')],
     'exhaustive enumeration of syntax trees, each written as a program and its printed tree compared with the drawing of the tree itself',
     'Runs the real lexer, parser and printer. The drawing is written down independently. Parentheses leave no node in the tree.')

prop('C25', 'The language server answers every request and shows the present document',
     "Whatever messages an editor sends, in whatever order, the language server answers each request exactly once and in order, with its id - with an error where the method is unknown or its parameters are wrong - answers no notification, stays alive, and ends without an error when the connection is closed. "
     "After each change of a document it works on its new text, whether that can be read or not. "
     "Analysing a document without one of its lines gives the diagnostics of the text that is left, and leaves the document as it is for the next request.",
     ['histories', 'inputs'],
     'All histories of 3 (4 of 18) of 22 messages sent at once and of 2 sent in dialogue, against the real process; all sequences of 2 (3) lines of each of about 80 documents.',
     'No test runs the server; what leaves a request unanswered or ends the process is a particular message after another.',
     ['cmd/autocomplete/main.go', 'internals/autocomplete/server/server.go', 'internals/autocomplete/server/on_change.go', 'internals/autocomplete/server/on_initialize.go', 'internals/autocomplete/state/state.go', 'internals/tree_printer/printer.go'],
     [('main', 'cmd/autocomplete/main.go'), ('HandleConnection, handlers', 'internals/autocomplete/server/server.go'), ('onChange', 'internals/autocomplete/server/on_change.go'), ('ProcessExcept', 'internals/autocomplete/state/state.go')],
     'explicit-state exploration of all histories of messages to the real language server and of requests to the state of a document',
     'Runs the binary that cmd/autocomplete builds. Messages that are not JSON-RPC are not explored. Bounded by the length of the histories.')

prop('C29', 'The project tool makes what the configuration asks for',
     "For every configuration and command line, building a project makes exactly the executable or object file that it names, in the project, from its entry point, with one call of the configured compiler that gets the flags of the configuration, those that the program adds, and those for an object or a release exactly when they are asked for; running it then gives the program its input and shows its output, the same for both kinds and with or without a release. "
     "A missing or wrong configuration, a program that is refused or does not link, and a command line without a project end with a diagnostic and a failure status, make no product and never crash; no file of the project changes. "
     "A new project can be created in any directory and runs there.",
     ['programs', 'configurations'],
     'The product of 2 modes, 2 kinds, 3 binaries, release, 3 outputs, 2 entry points, 4 project paths and flags over 16 programs (quick: part of it), 21 wrong configurations, all command lines of 3 of 9 words, init in 4 places, single files.',
     'No test runs the tool; a combination of kind, binary, path and flags that is wrong shows only there.',
     ['internals/build/builder.go', 'internals/build/config.go', 'internals/build/flags.go', 'internals/build/setup.go', C + 'compiler.go', C + 'compiler_rest.go', 'internals/program/program.go'],
     [('ExecuteProject, createSampleProject', 'internals/build/builder.go'), ('retrieveFlags', 'internals/build/flags.go'), ('ParseConfiguration', 'internals/build/config.go'), ('GenerateExecutableCXX, GenerateExecutableExperimental', C + 'compiler.go')],
     'exhaustive enumeration of configurations, command lines and programs, each executed with the real tool in a directory of its own and compared with a model of its outcome',
     'Runs the binaries of cmd/build and cmd/compiler with the installed clang. Linux only: the native backend of another platform is not explored. Whether a mode that does not exist is refused is not specified.')

prop('C24', 'A diagnostic names the line of the error',
     "When a program is refused because of an error that lies on one line, the first diagnostic names that line, and so does every other diagnostic of the analysis of types; a diagnostic never names a line without an error. "
     "This does not depend on what stands in front of the error or around it - blank lines, comments, strings that span lines, nested statements, other declarations, excluded code. "
     "An error in a module is reported at the line of the import and with the line in the module.",
     ['programs'],
     '81 erroneous statements in 17 contexts behind pairs of 33 paddings, all pairs of erroneous statements in 4 forms, 34 erroneous declarations behind all pairs of paddings, modules imported at depth 1 to 3, 26 statements that span lines with 14 erroneous parts, 9 with 16 parts of another type.',
     'The tests look at whether an error is reported; its line is wrong only behind particular text or in particular contexts.',
     [L + 'lexer.go', P + 'parser.go', S + 'semantic.go', S + 'semantic_errors.go'],
     [('skipWhiteSpace, line and column', L + 'lexer.go'), ('addErrorToken', P + 'parser.go'), ('error', S + 'semantic.go')],
     'exhaustive enumeration of erroneous statements, contexts and paddings through the real front end, each line compared with the place of the error',
     'Only lines are compared, not columns. Errors at the very end of a file and an operator whose operands are on different lines have no single line and are left out.')

prop('C30', 'A function of C is called as it is declared',
     "A call of a function that is declared with `extern` calls the function of that name of the C library with the given arguments, in order and with the declared types, and gives its result; the arguments behind the `..` of a variadic function are promoted as in C. "
     "This holds however the function is reached (by name, as a value of a variable, field, element, parameter or result, as a method, through a module, before its declaration, declared more than once), however its arguments are passed and its result is used; C can call back the functions and literals it is given, and a `pub` function of one module is what an `extern` of that name means in the others. "
     "A call with a wrong number or types of arguments, and a function value of another type (also one that differs only in being variadic), are refused.",
     ['programs'],
     '27 functions of the C library in 10 ways to pass x 12 to reach x 8 to use, variadic argument lists of at most 3 over 12 types in 8 ways, callbacks over 5 element types and all permutations of at most 4, all orders of import, extern and pub, all sets of 7 functions that the language uses itself in 9 layouts, argument lists of at most 3 over 8 types.',
     'The tests call a few functions of C directly; promotions, function values and declarations in several modules are wrong only in combinations.',
     [C + 'compiler.go', C + 'compiler_types.go', S + 'semantic.go', P + 'parser.go'],
     [('compileExternFunc, compileFunctionCall, compileFunctionType', C + 'compiler.go'), ('ToLLVMType', C + 'compiler_types.go'), ('analyzeFunctionCall, areTypesEqual', S + 'semantic.go'), ('parseExtern', P + 'parser.go')],
     'exhaustive enumeration of external functions, ways to pass arguments, to reach the function and to use the result against the behaviour of the C library',
     IR + TRUST + 'The C library is modelled with its prototypes; samples run in the execution engine of LLVM with the real one. Structs that C receives by value and inline assembly are out of this check.')

prop('C31', 'No part of an accepted text is ignored',
     "If the parser accepts a text, the tree it builds has every word of the text - keyword, name, type, literal and operator - once, in its place and in the order of the text: nothing is skipped, dropped, replaced or read twice. "
     "A text whose brackets do not pair, each with one of its own kind, is refused.",
     ['inputs'],
     'Every sequence of 2 (3) of 62 tokens in 17 contexts and of 3 (4) in 4 of them, every single mutation and every pair of deletions of 46 programs, every bracket inserted and replaced anywhere (thorough: and another one removed).',
     'The parser tests print the trees of some right programs; a construct that swallows a token, or overwrites a branch, shows only for texts that nobody writes on purpose.',
     [P + 'parser.go', P + 'parser_assignment.go', 'internals/ast/statements.go', 'internals/ast/expressions.go'],
     [('Parse and the parse functions', P + 'parser.go'), ('parsePossibleAssignment', P + 'parser_assignment.go')],
     'exhaustive enumeration of token sequences in contexts and of program mutations, the words of the real tree against the words of the text',
     'The words of a text come from an independent reference lexer. Semicolons, commas and parentheses leave no node and are only checked for pairing; programs with #if and texts whose words are unspecified are left out.')

prop('C32', 'The arrays of the standard library are sequences',
     "For every type of element, an array of `std/array.cd` holds, after any history of operations, exactly the elements that were pushed and not popped, in order, whatever its initial capacity: `length`, `get`, `get_ref`, `for_each` and `pop` agree with that sequence, and a write through `get_ref` changes that element of that array only. "
     "`map` of `std/map.cd` calls its function once for every element in order and gives a new array of the results, and leaves its argument as it is. "
     "No operation on an existing element reads or writes memory outside of the array.",
     ['programs', 'histories'],
     'Every sequence of 4 (5) of 7 operations on two arrays from 4 capacities over 14 element types in 2 forms of call, all capacities up to 9 (17) with up to 24 (70) pushes, map between all pairs of types in 6 orders of import.',
     'No test imports the standard library; a wrong growth, a wrong stride or an instance shared between types shows only for particular histories and element types.',
     ['std/array.cd', 'std/map.cd', C + 'compiler.go', C + 'compiler_types.go', S + 'semantic.go'],
     [('with_capacity, push, pop, get, get_ref, for_each', 'std/array.cd'), ('map', 'std/map.cd'), ('handleAlloc, handleRealloc', C + 'compiler.go'), ('analyzeImport', S + 'semantic.go')],
     'explicit-state exploration of bounded histories of operations against a reference sequence, on an IR machine that checks every access',
     IR + TRUST + 'Pops of an empty array, indices out of the array and copies of an array that grows afterwards are not specified.')
