#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, level='exploration', observe=None):
    assert len(title) <= 80, title
    PR.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                   technique=technique, note=note, level=level, observe=observe or []))


D = 'discrete_src/'
CC = [D + 'cc/cc.cpp', D + 'cc/expression.cpp', D + 'cc/optimizer.cpp', D + 'cc/token.cpp']
VM = [D + 'vm/vm.cpp', D + 'vm/operations.cpp', D + 'vm/operations_non_compact.cpp', D + 'vm/operations_compact.cpp']

P('C01', 'Scalar expressions evaluate to C-like int32/float32/string results',
  'For every expression built from the documented arithmetic, bitwise, comparison, logical, unary, cast, increment and '
  '(compound) assignment operators over integer, float and string operands, running the script yields the value that the '
  'C-like precedence rules and 32-bit wrapping integer / single-precision float / string-concatenation semantics prescribe. '
  'This holds wherever the operands live (literal, local, global, argument, array element, hash or struct member, call '
  'result, nested expression) and however the result is used (printed, stored, compared, branched on, passed, returned), '
  'and evaluating it changes no operand other than the assigned one; division or modulo by zero never takes the host down.',
  ['programs', 'inputs'], 'all expressions x operand kinds x operand locations x uses x values',
  'The test scripts check a few dozen fixed expressions; the compiler picks among ~180 fused opcodes by operand location and '
  'the peephole optimiser rewrites adjacent opcodes, so a wrong combination is only visible for one specific '
  'operator/location/use tuple.',
  CC + VM, [('operator precedence and expression resolution', D + 'cc/cc.cpp resolveExpression*'),
            ('peephole fusing of opcodes', D + 'cc/optimizer.cpp pushOpcode/appendBytecode'),
            ('typed operator tables', D + 'vm/operations.cpp')],
  'property-based testing: generated expression programs vs. a reference evaluator',
  'Random search against an independent evaluator of the documented semantics; excludes operand combinations the '
  'documentation leaves open.')

P('C02', 'Control flow executes exactly the statements its structure prescribes',
  'For every program built from if/else chains, while, do-while, for, foreach, switch (with fall-through and default), '
  'break, continue, return, goto, nested blocks and function calls, the statements executed, their order and the values they '
  'see are those of the structured reading of the source. Leaving a construct early at any point leaves every enclosing '
  'construct, variable and pending computation intact.',
  ['programs'], 'all well-formed programs over those constructs, any nesting and any early exit',
  'Tests run fixed scripts with shallow nesting; wrong jump resolution, a stack imbalance on one exit path or a stale '
  'optimiser state needs a particular nesting of constructs to show.',
  [D + 'cc/cc.cpp', D + 'cc/optimizer.cpp', D + 'vm/vm.cpp'],
  [('statement parsers and jump resolution', D + 'cc/cc.cpp parseStatement, parseWhile, parseFor*, parseSwitch, parseIf'),
   ('compare-and-branch fusing, relative jump sizing', D + 'cc/optimizer.cpp'),
   ('dispatch loop', D + 'vm/vm.cpp wr_callFunction')],
  'property-based testing: generated structured programs vs. a reference interpreter',
  'Random structured programs (nesting depth 3, loops, switch, foreach, functions, recursion) compared with a '
  'tree-walking interpreter written from the documentation, on the discrete and amalgamated sources, two dispatch styles.')


P('C03', 'Variables, arguments and recursion follow lexical by-value call semantics',
  'For every set of functions with any number of parameters and locals, called with any arguments from any depth '
  '(including direct and mutual recursion, missing arguments, and calls made while other values are pending), each '
  'activation has its own parameters and locals, scalars and strings are passed by value and containers by reference, '
  'missing arguments read as 0, globals are shared, locals shadow globals, and a call affects nothing but what its body '
  'says. The returned value reaches exactly the place the call was written, whatever its depth or use.',
  ['programs', 'inputs'], 'all call graphs x arities x argument expressions x recursion depths',
  'Fixed scripts use small arities and shallow recursion; frame layout, argument padding and stack clean-up bugs appear '
  'only for particular argument counts, positions or pending values.',
  [D + 'cc/cc.cpp', D + 'cc/link.cpp', D + 'vm/vm.cpp'],
  [('local/global space allocation', D + 'cc/cc.cpp addLocalSpaceLoad, loadExpressionContext'),
   ('call frames', D + 'vm/vm.cpp CallFunctionByIndex, CallFunctionByHash, Return, ReturnZero'),
   ('unit table and local counts', D + 'cc/link.cpp')],
  'property-based testing: generated call graphs vs. a reference interpreter',
  'Up to 14 parameters, 5 functions, recursion depth bounded by the stack; oracle is the tree-walking interpreter.')

P('C05', 'Garbage collection is invisible and memory stays bounded',
  'For every program and every collection threshold, including collecting at each opportunity, the program behaves exactly '
  'as if memory were never reclaimed: no reachable value, through any chain of variables, containers, structs, cycles, '
  'pending expressions or suspended frames, is lost or altered. A program whose reachable data stays bounded uses bounded '
  'memory however long it runs, and destroying the context returns everything.',
  ['programs', 'histories'], 'all programs x all collection thresholds x all loop lengths',
  'The tests hardly trigger a collection at a hostile moment; missing a root needs a collection at one particular opcode '
  'with one particular value alive only there.',
  [D + 'vm/gc_object.cpp', D + 'vm/vm.cpp', D + 'vm/operations.cpp'],
  [('mark and sweep', D + 'vm/vm.cpp mark, wr_gc / WRContext::gc, WRContext::mark'),
   ('allocation accounting', D + 'vm/vm.cpp getSVA, allocatedMemoryHint')],
  'property-based testing: model comparison under GC thresholds 0..inf, object-graph histories, N vs 6N memory relation',
  'Reference interpreter for values, address sanitizer for lifetime, allocator high-water mark for boundedness.')

P('C06', 'Suspending and resuming never changes what a program does',
  'For every program and every placement of suspensions (yield statements, an instruction budget of any size, host-forced '
  'yields, in any combination and at any call depth), continuing until completion produces the same effects, values and '
  'result as an uninterrupted run. Each yield hands the host exactly its arguments, the value the host answers is exactly '
  'what the yield expression evaluates to, and the number of explicit suspensions equals the number of yields executed.',
  ['programs', 'schedules'], 'all programs x all suspension points x all answers',
  'Every instruction is a possible suspension point; the tests suspend at a handful of fixed ones.',
  [D + 'vm/vm.cpp', D + 'cc/cc.cpp', D + 'wrench.h'],
  [('yield and continuation state', D + 'vm/vm.cpp O_Yield, wr_continue, CHECK_FORCE_YIELD'),
   ('time slicing', D + 'vm/vm.cpp WRENCH_TIME_SLICES, yieldArgs')],
  'property-based testing: generated programs under generated suspension schedules vs. the reference interpreter',
  'Budgets of 1..50 instructions, forced yields every n-th slice, explicit yields with 0..n arguments.')


P('C07', 'Hash tables behave as finite maps with reference semantics',
  'For every history of table operations (literals, element reads and writes through variables, members, parameters or '
  'nested containers, compound updates, _count, _exists, _remove, hash:: functions, iteration, aliasing, growth and '
  'removal in any order) over integer and string keys, a table holds exactly the keys last stored and not removed since, '
  'each with its last value; iteration visits every entry exactly once; all references to a table see the same table.',
  ['histories', 'inputs'], 'all operation histories x all key sets, including keys colliding in every table size',
  'Probing, growth and removal interact only for particular residues of particular keys in a particular order.',
  [D + 'vm/gc_object.cpp', D + 'vm/index.cpp', D + 'lib/std_container.cpp', D + 'cc/cc.cpp'],
  [('probing, growth, removal', D + 'vm/gc_object.cpp getIndexOfHit, growHash, exists'),
   ('indexing', D + 'vm/index.cpp wr_doIndexHash, doIndex_*'), ('iteration', D + 'vm/vm.cpp wr_getNextIterator')],
  'stateful property-based testing: generated operation histories vs. a map model',
  'Up to 40 operations (bulk ones included) over up to 3 tables and 1 array, collision families for every prime < 97.')

P('C08', 'Arrays, lists, queues and stacks behave as growable sequences',
  'For every history of array operations (literals, sized declarations, element reads and writes, growth by writing past '
  'the end, compound updates, _count, iteration, array::, list::, queue:: and stack:: functions, nesting, aliasing) the '
  'array holds exactly the sequence the history prescribes, new cells read 0, all references see the same array, values '
  'are stored by value and out-of-range indices or counts change nothing they should not.',
  ['histories', 'inputs'], 'all operation histories x indices x element kinds',
  'Insertion, removal and growth corrupt neighbours only for particular index/size/count combinations.',
  [D + 'vm/operations.cpp', D + 'vm/index.cpp', D + 'lib/std_container.cpp', D + 'vm/gc_object.cpp'],
  [('growth', D + 'vm/operations.cpp wr_growValueArray'), ('indexing', D + 'vm/index.cpp doIndex_*'),
   ('container library', D + 'lib/std_container.cpp')],
  'stateful property-based testing: generated operation histories vs. a list model',
  'Up to 40 operations over up to 3 arrays and 1 table, nesting depth 4.')


P('C09', 'String library and string formatting compute the C-like result on any bytes',
  'For every history of string operations (str:: functions, concatenation, comparison, indexing, counting, iteration, '
  'str::format, str::sprintf and str::printf with any flags, widths and conversions) over byte strings of any content and length, each '
  'result is exactly the one the documentation / C library convention prescribes and no other string changes. No argument '
  'makes an operation read or write outside the strings involved.',
  ['histories', 'inputs'], 'all operation histories x all byte strings x all format specifications',
  'Tests use short printable strings and a handful of formats; padding, sign, length and boundary errors need a particular '
  'width, value or length.',
  [D + 'lib/std_string.cpp', D + 'vm/operations.cpp'],
  [('formatter', D + 'lib/std_string.cpp wr_doSprintf / wr_xxxsprintf'), ('string functions', D + 'lib/std_string.cpp'),
   ('concatenation', D + 'vm/operations.cpp')],
  'stateful property-based testing: generated string histories vs. a byte-string model',
  'Strings up to ~400 bytes, up to 26 operations on 8 slots, 3 conversions per format; counts not negative.')

P('C10', 'Serialised values come back equal and damaged ones do no harm',
  'For every value built from ints, floats, strings, arrays and hash tables in any nesting, serialising and deserialising it, '
  'by script or by host, in the same or another state or build configuration, gives an equal and fully usable value that shares nothing with the '
  'original. For any other bytes deserialisation either fails or gives some well-formed value, without touching memory it does not '
  'own or leaking any.',
  ['inputs', 'histories'], 'all acyclic values; all byte strings',
  'The input space is every value and every damaged image; the tests round-trip a few.',
  [D + 'utils/serializer.cpp', D + 'utils/serializer.h', D + 'lib/std_serialize.cpp'],
  [('serializer', D + 'utils/serializer.cpp wr_serialize*, wr_deserialize*'), ('script interface', D + 'lib/std_serialize.cpp')],
  'property-based testing: round-trip of generated values plus mutation fuzzing of images under sanitizers',
  'Values up to ~100 nodes (rarely arrays beyond 65535), mutated and random images.')

P('C19', 'Converting values to text is exact, bounded and terminated',
  'For every value, converting it to text through the host accessors with any buffer size, through concatenation with a string or '
  'through a float conversion of str::format yields the decimal text of the int, the text of the float to the documented precision, or the bytes of the '
  'string, and the ways agree with each other. A conversion never writes outside the given buffer, always '
  'terminates it and reports the length it produced.',
  ['inputs'], 'all values x all buffer sizes',
  'Off-by-one errors show only when the text length meets the buffer size exactly.',
  [D + 'utils/utils.cpp', D + 'lib/std_string.cpp', D + 'wrench.h'],
  [('asString / asMallocString / technicalAsString', D + 'utils/utils.cpp'), ('number formatting', D + 'utils/utils.cpp wr_itoa, wr_ftoa')],
  'property-based testing: exact-size buffers under address sanitizer vs. reference text',
  'Float text specified below 2^31 in magnitude only.')


P('C11', 'Damaged bytecode is refused and intact bytecode is accepted, everywhere',
  'Any image produced by the compiler is accepted by wr_run, wr_import and sys::importByteCode, from any suitably placed buffer and any number '
  'of times. An image that was truncated, extended, bit-flipped or otherwise altered is refused by all of them with the bad-bytecode error '
  'before any of it runs, without crashing or leaking, and the state and its contexts go on working.',
  ['inputs', 'faults'], 'all compiler-produced images; all damaged or arbitrary byte strings (up to 32-bit hash collisions)',
  'The space of damaged images is unbounded; the tests run intact images only.',
  [D + 'utils/utils.cpp', D + 'vm/vm.cpp', D + 'lib/std_sys.cpp', D + 'cc/link.cpp'],
  [('image check', D + 'utils/utils.cpp wr_createContext, wr_import'), ('script import', D + 'lib/std_sys.cpp'), ('emission', D + 'cc/link.cpp')],
  'property-based testing: mutation fuzzing of compiler-produced images under sanitizers against accept/refuse oracles',
  'Images of generated programs, up to 6 mutations each.')

P('C13', 'With stack protection, running out of stack is an error and nothing else',
  'When built with WRENCH_PROTECT_STACK_FROM_OVERFLOW, a program run with any stack size either behaves exactly as with a large stack or stops '
  'with WR_ERR_stack_overflow after a prefix of that behaviour. No memory outside the stack is ever touched, and the state and context '
  'can be used again afterwards.',
  ['inputs', 'faults', 'histories'], 'all programs, recursion shapes, host argument counts and stack sizes',
  'Every push of every program is a possible overflow point; the tests run out of stack in one place.',
  [D + 'vm/vm.cpp', D + 'utils/utils.cpp'],
  [('stack checks', D + 'vm/vm.cpp CHECK_STACK, wr_callFunction'), ('host calls', D + 'utils/utils.cpp wr_callFunction')],
  'property-based testing: generated programs under generated stack sizes, prefix oracle from a reference interpreter, under sanitizers',
  'Stacks of 4 to 200 values.')

P('C14', 'A failed allocation is an error and nothing else',
  'When built with WRENCH_HANDLE_MALLOC_FAIL, if any allocation made while a context is created, run, imported into or called fails, that '
  'operation returns null with WR_ERR_malloc_failed after a prefix of its normal behaviour. It touches no memory it does not '
  'own and leaks nothing, and once memory is available again the state works normally.',
  ['inputs', 'faults', 'histories'], 'all programs and all allocation points (single or persistent failure)',
  'Every allocation is a fault point; the tests inject none.',
  [D + 'vm/vm.cpp', D + 'vm/gc.cpp', D + 'vm/gc_object.cpp', D + 'vm/operations.cpp', D + 'vm/index.cpp', D + 'utils/utils.cpp', D + 'utils/serializer.h',
   D + 'lib/std_container.cpp', D + 'lib/std_string.cpp'],
  [('allocation', D + 'vm/gc.cpp getSVA, vm/gc_object.cpp'), ('detection', D + 'vm/vm.cpp MALLOC_FAIL_CHECK'), ('growth', D + 'vm/operations.cpp wr_growValueArray')],
  'property-based testing with fault injection: a generated allocation of a generated program fails, prefix and recovery oracles, under sanitizers',
  'Compilation and function registration are outside the option and not made to fail.')

P('C17', 'Imported modules share functions and keep their globals to themselves',
  'Modules imported into a context (by the host or by the script itself, at any time) can call each other\'s functions in any direction and '
  'pass any values, and together behave exactly like one program in which every module\'s globals were given private names. Garbage '
  'collection in any of them never frees what another still uses, and destroying the context frees all of them.',
  ['inputs', 'histories', 'schedules'], 'all sets of modules, import points, cross-module call graphs and host call histories',
  'Behaviour depends on which module calls which while which is collected; the tests import one or two fixed modules.',
  [D + 'utils/utils.cpp', D + 'vm/vm.cpp', D + 'vm/gc.cpp', D + 'lib/std_sys.cpp'],
  [('import ring', D + 'utils/utils.cpp wr_import*'), ('cross-module calls', D + 'vm/vm.cpp CallFunctionByHash'), ('shared collection', D + 'vm/gc.cpp')],
  'property-based testing: generated module sets against the reference interpreter run on the renamed single program',
  'One to three imported modules; their top-level code calls only its own functions and does not yield.')


P('C12', 'The compiler answers every text, deterministically, with an image or an error',
  'For every byte sequence given to wr_compile as source, with any combination of compile flags, the compiler terminates and returns either an '
  'error or an image that the VM accepts, without touching memory it does not own and without leaking. Compiling the same text again gives the '
  'same result byte for byte, an error report names a line of that text, and no compilation depends on the ones before it.',
  ['inputs', 'histories'], 'all source texts (valid, damaged or random bytes) and compile flags',
  'The tests compile programs that are right; a compiler that reads past the end of a truncated one looks just as good.',
  [D + 'cc/cc.cpp', D + 'cc/token.cpp', D + 'cc/expression.cpp', D + 'cc/optimizer.cpp', D + 'cc/link.cpp'],
  [('tokenizer', D + 'cc/token.cpp'), ('parser', D + 'cc/cc.cpp, cc/expression.cpp'), ('linking', D + 'cc/link.cpp')],
  'structured fuzzing: token soups and mutations of generated programs; determinism, image validity, leak and sanitizer oracles',
  'Sources up to a few kilobytes; nesting up to a few hundred levels.')

P('C25', 'No mixture of types makes the VM touch memory it does not own',
  'Whatever types the operands, indexes, iterated values, arguments and case values of a program happen to have at run time, every operator, statement, '
  'property and library function of a compiled program either does something defined or stops with an error. The VM never reads or writes memory '
  'it does not own, never leaks, and the context can be suspended, resumed and destroyed at any point.',
  ['inputs', 'schedules'], 'all programs that compile, whatever the types, with every garbage-collection rate and slice length',
  'Scripts are untyped: every operation has as many cases as there are pairs of types and the tests visit only the sensible ones.',
  [D + 'vm/vm.cpp', D + 'vm/operations.cpp', D + 'vm/operations_non_compact.cpp', D + 'vm/operations_compact.cpp', D + 'vm/index.cpp', D + 'vm/gc.cpp', D + 'lib/std.cpp', D + 'lib/std_string.cpp', D + 'lib/std_container.cpp', D + 'lib/std_math.cpp', D + 'lib/std_serialize.cpp', D + 'lib/std_msg.cpp'],
  [('operators', D + 'vm/operations*.cpp'), ('indexing', D + 'vm/index.cpp'), ('libraries', D + 'lib/*.cpp')],
  'property-based testing: generated ill-typed programs over every operator and library function, run in slices under sanitizers',
  'Programs that build containers containing themselves, index temporaries, or change a container inside an expression holding one of its elements are not generated.')

P('C04', 'Every build of wrench compiles the same images and runs them the same way',
  'The build options (compact, really compact, time slices, stack protection, malloc-fail handling, unaligned reads, amalgamated or discrete sources) change size and speed only: '
  'a program compiles to the same image byte for byte in every build, and an image compiled by one build behaves the same when run by any other. '
  'The one documented exception is WRENCH_TRAP_DIVISION_BY_ZERO, where the first division by zero ends the program with WR_ERR_division_by_zero instead of giving zero.',
  ['inputs'], 'all programs and all pairs of build configurations',
  'The tests run one build; each option swaps in different code for the same instruction.',
  VM + [D + 'vm/index.cpp', 'src/wrench.cpp', 'src/wrench.h'],
  [('instruction implementations', D + 'vm/vm.cpp'), ('operator tables', D + 'vm/operations_compact.cpp, vm/operations_non_compact.cpp'), ('amalgamation', 'src/wrench.cpp')],
  'differential property-based testing: generated programs compiled and run by pairs of twelve builds, and against the reference interpreter',
  'Badly typed operations on containers are not compared between compact and other builds.')

P('C15', 'The host sees and drives exactly what the script has',
  'Calls made by the host by name, hash or function pointer, with any number and type of arguments, behave like calls made by the script: missing arguments are 0, extra ones ignored, '
  'the value returned is the one wr_returnValueFromLastCall reports, and globals, elements and table entries read or written through the API are those of the script; a global declared blank holds what the host put there before the run. Missing names, '
  'calls before the first run and script errors give null and the documented error code without disturbing anything, and the next call works.',
  ['inputs', 'histories'], 'all histories of API calls on a context',
  'Each API call leaves the context in a state the next depends on; the tests make a few calls in one order.',
  [D + 'utils/utils.cpp', D + 'vm/vm.cpp', D + 'wrench.h', D + 'lib/std_msg.cpp', D + 'lib/std_sys.cpp'],
  [('calls', D + 'utils/utils.cpp wr_callFunction'), ('globals', D + 'utils/utils.cpp wr_getGlobalRef'), ('WrenchValue', D + 'utils/utils.cpp')],
  'model-based stateful testing: generated API histories against a Python model of the script, under sanitizers',
  'Histories of up to 40 operations on a fixed family of scripts.')

P('C16', 'Contexts and states are isolated and own exactly what they were given',
  'Any number of contexts and states can be created from shared, borrowed or owned images, used alternately and destroyed in any order: each behaves as if it were alone, except for messages, '
  'registered functions and user pointers of the state they share. Destroying a context or state frees everything it owned and nothing else, so that after the last one nothing is left.',
  ['histories'], 'all interleavings of operations on several contexts and states',
  'What one context does to another depends on the interleaving and on which is destroyed first.',
  [D + 'utils/utils.cpp', D + 'vm/vm.cpp', D + 'vm/gc.cpp', D + 'lib/std_msg.cpp'],
  [('context creation and destruction', D + 'utils/utils.cpp wr_createContext, wr_destroyContext, wr_destroyState'), ('messages', D + 'lib/std_msg.cpp')],
  'model-based stateful testing: generated interleavings over several states and contexts against one model per context, with leak accounting',
  'Up to three states and five contexts alive at a time.')

P('C21', 'Compile options change what an image carries, never what it does',
  'With every combination of WR_INCLUDE_GLOBALS, WR_EMBED_DEBUG_CODE, WR_EMBED_SOURCE_CODE and WR_NON_STRICT_VAR a correct program compiles, is accepted by the VM and behaves the same. '
  'With WR_INCLUDE_GLOBALS the host finds every global, with its value, by name (and none without it), and with WR_EMBED_SOURCE_CODE the image carries the exact source.',
  ['inputs'], 'all programs and all 16 option combinations',
  'Debug instructions and symbol blocks shift every offset and block the peephole optimiser, so each option exercises different code; the tests use one or two combinations.',
  CC + [D + 'cc/link.cpp', D + 'utils/utils.cpp', D + 'vm/vm.cpp'],
  [('image layout', D + 'cc/link.cpp'), ('loading', D + 'utils/utils.cpp wr_createContext'), ('debug code', D + 'cc/cc.cpp')],
  'property-based testing: generated programs under two option combinations each, against the reference interpreter',
  'Debug builds (WRENCH_INCLUDE_DEBUG_CODE) are not exercised.')

P('C24', 'Layout, comments and the choice of names do not change what a program means',
  'Inserting, replacing or removing white space and comments between the tokens of a program leaves its image unchanged byte for byte. Renaming its variables, functions, parameters, structures and members '
  'consistently leaves its behaviour unchanged, whatever the new names (including ones that begin with a keyword).',
  ['inputs'], 'all programs and all such rewritings',
  'Tokenizing looks ahead and behind at every boundary; the tests are written in one style.',
  [D + 'cc/token.cpp', D + 'cc/cc.cpp', D + 'cc/expression.cpp'],
  [('tokenizer', D + 'cc/token.cpp'), ('symbol hashing', D + 'cc/cc.cpp')],
  'metamorphic property-based testing: generated programs and generated rewritings of their text, images and behaviour compared',
  'No white space is put inside a :: or . chain.')

P('C18', 'The scheduler resumes every task once per tick, each as if it ran alone',
  'Under a WrenchScheduler each added program produces exactly the output it produces alone, however its slices, yields and the other tasks interleave: a tick resumes every live task once, '
  'up to its next yield or slice end. A task that ends, fails or is removed never runs again and frees what it owned, its failure is reported by lastErr/lastErrTaskId, and the others go on undisturbed; '
  'addThread and removeTask answer truthfully about what is alive.',
  ['inputs', 'schedules', 'histories'], 'all sets of programs and all histories of add, tick and remove with any slice lengths',
  'What goes wrong depends on which tasks are alive when another ends, fails or is removed; the tests never use the scheduler beyond one fixed script.',
  [D + 'vm/scheduler.cpp', D + 'vm/vm.cpp', D + 'utils/utils.cpp'],
  [('task list', D + 'vm/scheduler.cpp'), ('yield and slices', D + 'vm/vm.cpp wr_callFunction, CHECK_FORCE_YIELD')],
  'model-based stateful testing: generated tasks and scheduler histories against the reference interpreter (cut at its yields), with leak accounting',
  'Up to six tasks and 60 operations; the order within a tick is left open.')


P('C20', 'Structs are built by their constructor and keep every member, everywhere',
  'new S( args ) runs the constructor with those arguments (missing ones 0, extra ones ignored) and yields an instance whose members hold what the constructor left in them, overridden by the initialisers of the '
  'new expression, by name or in order; enums name consecutive integers. Every member can be read and changed through any path that reaches the instance (variables, array elements, table entries, function arguments, '
  'members of other structs), assignment and calls share the instance, and different instances share nothing. This holds equally for structs of imported modules and for instances made by the host with wr_instanceStruct, in any number.',
  ['inputs', 'histories'], 'all struct definitions, arguments and histories of member accesses, own or imported',
  'Instances are cut out of a live stack frame by offsets that differ between local, imported and host construction and with the number of arguments; tests sample a few definitions.',
  [D + 'vm/vm.cpp', D + 'cc/cc.cpp', D + 'cc/link.cpp', D + 'utils/utils.cpp', D + 'vm/gc.cpp'],
  [('wr_newObjectTable', D + 'vm/vm.cpp'), ('imported constructors', D + 'vm/vm.cpp CallFunctionByHash'), ('member tables', D + 'cc/link.cpp'), ('wr_instanceStruct', D + 'utils/utils.cpp')],
  'model-based stateful testing: generated struct definitions and operation sequences against a Python object model, under sanitizers with small stacks',
  'Up to five definitions of up to 14 members and 30 operations; structs that reach themselves are not built.')

P('C22', 'math:: computes the C library function of its name and std::rand stays in range',
  'Every math:: function gives, for every int or float argument, the single-precision result of the C function of that name on its arguments in order (atan2 takes x, y; iscale gives a*b/divisor in 64-bit integers, 0 for a zero '
  'divisor) and changes neither its arguments nor the expression around it. std::rand( a, b ) and std::rand( b ) return an integer within a..b or 0..b inclusive (a when the range is empty), reach different values of '
  'it, and std::srand with the same seed repeats the same sequence.',
  ['inputs'], 'all argument bit patterns, ranges and seeds',
  'No test calls most of these functions; argument order, rounding and range ends only show on particular values.',
  [D + 'lib/std_math.cpp', D + 'lib/std.cpp'],
  [('functions', D + 'lib/std_math.cpp'), ('wr_randEx', D + 'lib/std.cpp')],
  'property-based testing: generated calls against the C library through an independent binding; range, repetition and variation invariants for std::rand',
  'Results may differ from the C library by 3 parts in 10^7; seeds 1 .. 2^31-2.')

P('C23', 'The io library reads and writes exactly the bytes it is told to',
  'io::readFile, writeFile, deleteFile, open (with its flags and mode), read, write, seek, close and fsync have the effect and results of the POSIX calls on the named files for any contents, including empty ones and '
  'zero bytes: what was written is what is read back, short reads have their true length, and a missing file or a bad descriptor gives the documented failure value and touches nothing. io::getline returns standard input line by line, '
  'in pieces of at most 256 characters without losing any. No operation leaves a descriptor open or memory behind.',
  ['inputs', 'histories'], 'all file contents and all sequences of file operations',
  'Results depend on the history of every descriptor and on sizes; tests do not use the file library.',
  [D + 'lib/std_io.cpp'],
  [('file functions', D + 'lib/std_io.cpp')],
  'model-based stateful testing: generated scripts of file operations in a scratch directory against a Python model of the directory and descriptors, with descriptor and leak accounting',
  'Up to 25 operations on four file names, contents up to 70000 bytes; always in a scratch directory of the check.')


P('C26', 'Host memory shared with a script is exactly what the script sees and changes',
  'For every container built by the host from integers, floats, references to its own values, raw byte arrays and other '
  'containers, a script it is given to reads, by member name, key or element, exactly the current contents, and every store the '
  'script makes is what the host finds afterwards, and the other way round. An element index outside a raw array reads 0 and '
  'writes nothing, so the script never reaches a byte of the host outside what it was given, and destroying the container '
  'releases everything the library allocated for it and nothing else.',
  ['histories', 'inputs'], 'all containers x all access forms x all interleavings of host and script changes x all indices',
  'One test script reads one fixed container; encodings of size and element index in the value word, the several store paths '
  'and the lifetime of container keys differ with sizes, forms of access and order of changes.',
  [D + 'utils/utils.cpp', D + 'vm/index.cpp', D + 'vm/operations.cpp', D + 'vm/gc_object.cpp'],
  [('containers and their keys', D + 'utils/utils.cpp wr_makeContainer, wr_addToContainerEx, wr_addArrayToContainer, wr_destroyContainer'),
   ('element access of raw arrays', D + 'vm/index.cpp doIndex_I_E, arrayElementToTarget'),
   ('loads and stores through references and elements', D + 'vm/operations.cpp deref, wr_assignToArray, wr_countOfArrayElement')],
  'property-based testing: generated containers, scripts and host changes vs. a model of the shared memory',
  'Raw arrays of 1 to 2097151 bytes, up to 18 members, two levels of nesting; the library runs under AddressSanitizer with exactly sized raw arrays. '
  'Scripts store only numbers into host containers.')


P('C27', 'Literals, enums and library constants have the value they are written with',
  'Every integer (decimal, hexadecimal, binary, octal), float, character and string literal with its escapes, true, false and null '
  'denote exactly the value written, and every member of an enum, anonymous or named, has its explicit value or one more than the '
  'last integer before it. An enum is visible from its declaration to the end of its function or program and nowhere else, names '
  'that merely contain one another are different, and a library constant has the value the host registered last (using one that was '
  'not registered is error library_constant_not_loaded). All of this holds in every place a constant may stand: operand, '
  'negation, argument, element, key, index, case label, return value.',
  ['programs'], 'all literals, enum declarations and registered constants x all positions of use',
  'The encoding of a constant depends on its size and its neighbours (8, 16 or 32 bits, fused and folded opcodes), so single '
  'values at the edges misbehave in single positions.',
  [D + 'cc/token.cpp', D + 'cc/cc.cpp', D + 'cc/optimizer.cpp', D + 'utils/utils.cpp'],
  [('lexing of literals and constant substitution', D + 'cc/token.cpp getToken'),
   ('enums and case labels', D + 'cc/cc.cpp parseEnum, lookupConstantValue, getSingleValueHash'),
   ('encoding and folding of literals', D + 'cc/cc.cpp pushLiteral, ' + D + 'cc/optimizer.cpp pushOpcode')],
  'property-based testing: generated constants and uses against their written value',
  'Up to 40 uses per program; enum names are not also used as member names and character literals are below 128; negative literals are not used as case labels (the compiler refuses them).')


P('C28', 'Scripts exchange exactly the bytes they send over TCP connections',
  'For every sequence of tcp:: calls on any number of connections: what is sent on a connection arrives at its other end, whole, in order and nowhere else, whatever the bytes and the lengths asked for; '
  'tcp::send answers the number of bytes sent, tcp::peek says whether something can be received, a closed connection reads as ended, connecting reaches the address and port named. '
  'A call that cannot work (a port in use or closed, an address that does not exist, a bad socket, missing arguments, a connection closed by the other side) answers 0 or -1, leaks nothing and leaves the host running.',
  ['histories', 'inputs'], 'all histories of tcp:: calls over up to four connections and a listener outside the script',
  'No test opens a socket; what arrives depends on the order of operations and on every byte and length.',
  [D + 'lib/std_tcp.cpp', D + 'lib/std_tcp.h'],
  [('socket functions', D + 'lib/std_tcp.cpp wr_bindTCP, wr_acceptTCP, wr_connectTCP, wr_sendTCP, wr_receiveTCP, wr_peekTCP, wr_closeTCP'), ('address parsing', D + 'lib/std_tcp.cpp isIp')],
  'model-based stateful testing: generated histories of socket operations against a model of every byte stream, with an independent peer, under sanitizers',
  'Loopback addresses only, up to 42000 bytes of literal data per script.')


P('C29', 'A program that breaks a rule of the language is rejected with its error',
  'For every correct program and every place in it, adding one mistake there (assigning a variable that was never declared, break or continue outside what they leave, '
  'a switch with a duplicate or non-constant case or with statements before its first case, a goto whose label the unit does not have, a function or struct inside '
  'another, a duplicate or invalid enum member, an initialised blank, a bad name or escape sequence, a malformed or unfinished expression or statement) makes compilation fail: no image is produced, the error '
  'reported is the one of the rule that is broken, the reported line is not before the mistake, and nothing is leaked. The program without the mistake compiles, and with WR_NON_STRICT_VAR so does the one that assigns an undeclared variable.',
  ['programs'], 'all correct programs x all places x all mistakes of those kinds',
  'The tests compile correct scripts; whether a mistake is noticed depends on the constructs around it (the loop, switch, function or block it stands in, and what was parsed before).',
  [D + 'cc/cc.cpp', D + 'cc/expression.cpp', D + 'cc/token.cpp', D + 'cc/link.cpp'],
  [('statement and unit parsing', D + 'cc/cc.cpp parseStatement, parseUnit, parseSwitch, parseExpression'), ('declared-variable rule', D + 'cc/cc.cpp addLocalSpaceLoad, addGlobalSpaceLoad'),
   ('goto resolution', D + 'cc/link.cpp link')],
  'property-based testing: one mistake injected at a generated place of a generated correct program, oracle is the error the rule prescribes',
  'About 150 kinds of mistakes, some with generated contents. Lenient behaviour of the compiler (reading undeclared variables, repeated functions, trailing commas) is not claimed either way.')


def emit():
    claimed, props = [], []
    for p in PR:
        have = os.path.exists(os.path.join(ROOT, 'wv', 'props', p['id'].lower() + '.py'))
        if not have:
            continue
        props.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                          quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                          anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                       observe_at=p['observe'] or ['values passed to host functions, return values, error codes of the public API'],
                                       hook_needed=None)))
        claimed.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                            thorough_cmd='python3 check.py ' + p['id'], technique=p['technique'], level=p['level'],
                            level_note=p['note']))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'.\'); from wv import build; build.build([\'default\'])"',
             hooks=dict(guard='WV_NONE', enable='no hooks are needed: the engines use the public interface and the allocator callback only',
                        source_commits=[]),
             checks=claimed, not_applicable=[],
             notes='VERIF_SEED selects the seed, VERIF_TIER quick/thorough the depth; known-findings.txt lists findings and repairs.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(props), 'properties')


if __name__ == '__main__':
    emit()
