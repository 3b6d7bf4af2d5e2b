#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


GOLD = ('The tests compare golden output of about 110 fixed programs; nothing executes the output, '
        'and every other program is untested.')
FRONT = ['src/parser.c', 'src/sytree.c', 'src/optree.c', 'src--/parser.cmm', 'src--/sytree.cmm',
         'src--/optree.cmm']

prop('C01', 'TaC code behaves as the C-- program means',
     'For every C-- program the TaC compiler (c--) accepts, executing the assembly code it prints gives exactly the '
     'observable behaviour the language defines: the same calls of external functions with the same argument values in '
     'the same order, the same contents of variables, arrays and structures, and the same result. '
     'Intermediate values survive however many registers or stack words the expression needs, and no operation relies on '
     'flags, registers or memory it did not set.',
     ['programs', 'inputs', 'configurations'],
     'every accepted program: all operators, operand kinds (constant, local, parameter, global, element, field, call), '
     'statement forms and nestings; all optimization options; the C-built and the self-hosted compiler',
     GOLD, FRONT + ['src/vmCode.c', 'src/vm2tac.c', 'src--/vmCode.cmm', 'src--/vm2tac.cmm'],
     [('virtual stack machine code from the tree', 'src/vmCode.c'),
      ('register allocation, spilling and condition handling of the virtual stack', 'src/vm2tac.c')],
     ['standard output of c-- (assembly), executed on the TaC machine'],
     [('virtual stack', 'where each pending operand lives (register, flags, constant, memory, stack)', 'src/vm2tac.c')])
prop('C02', 'vm-c-- listing behaves as the program means',
     'For every accepted program the listing printed by vm-c--, executed on the documented virtual stack machine, gives '
     'exactly the observable behaviour the language defines. '
     'The operand stack never underflows, nothing is left on it when a function returns, every call finds exactly its '
     'arguments, every name and label used is defined once, and bytes and words are never confused.',
     ['programs', 'inputs', 'configurations'], 'every accepted program, all optimization options, both builds', GOLD,
     FRONT + ['src/vmCode.c', 'src/vm2vm.c', 'src--/vmCode.cmm', 'src--/vm2vm.cmm', 'doc/vm.tex'],
     [('code generation for each tree node', 'src/vmCode.c'), ('printing', 'src/vm2vm.c')],
     ['standard output of vm-c--'])
prop('C03', 'Intermediate code of ic-c-- behaves as the program means',
     'For every accepted program the intermediate code printed by ic-c--, with names resolved through the name table '
     'numbering the source text defines, gives exactly the observable behaviour the language defines when its operations '
     'are executed on the documented virtual stack machine. Every operation has its documented operands.',
     ['programs', 'inputs', 'configurations'], 'every accepted program, all optimization options, both builds', GOLD,
     FRONT + ['src/vmCode.c', 'src/vm2ic.c', 'src--/vm2ic.cmm', 'src/namtbl.c', 'doc/vm.tex'],
     [('code generation', 'src/vmCode.c'), ('printing of operations and name indices', 'src/vm2ic.c')],
     ['standard output of ic-c--'])
prop('C04', 'Translation to C preserves meaning',
     'For every accepted program, the C text printed by c-c-- is accepted by a C compiler and, compiled and run, behaves '
     'exactly as the C-- program means with 32-bit integers: the same external calls with the same arguments in the same '
     'order, the same stored values, the same result.',
     ['programs', 'inputs', 'configurations'],
     'every accepted program (C keywords as names excepted), all optimization options, both builds', GOLD,
     FRONT + ['src/cCode.c', 'src--/cCode.cmm', 'lib/SrcC/wrapper.h'],
     [('printing the tree as C', 'src/cCode.c')], ['standard output of c-c--, compiled with a C compiler and run'])
prop('C05', 'Run-time checked translation stops exactly the bad accesses',
     'A program translated by rtc-c-- behaves as its meaning defines up to the first access through null or to an element '
     'outside an array; at that access, before it has any effect, it stops with a message naming the source file, the '
     'line and the kind of fault. No access inside an array and through a non-null reference is ever stopped.',
     ['programs', 'inputs', 'configurations'],
     'every accepted program and every index / reference value, for arrays of all element types, structures and '
     'references to them, both builds',
     'Three fixed faults of one program each are in the tests; whether every access in every context is checked, once, '
     'with the right line is open.',
     ['src/cCode.c', 'src--/cCode.cmm', 'lib/SrcC/wrapper.h', 'src/sytree.c'],
     [('_ICA/_CCA/_RCA/_CP around each access', 'src/cCode.c'), ('checking functions', 'lib/SrcC/wrapper.h')],
     ['standard output of rtc-c--, compiled with -D_RTC and run: events, standard error, termination'])
prop('C06', 'Optimization never changes behaviour',
     'A program compiled with -O0, -O or -O1 behaves the same with each of them. Constant expressions have the value the '
     'unoptimized program computes, with the width and wrap-around of the target, and an evaluated operand with a side '
     'effect is neither dropped, duplicated nor moved past another (except an operand of an operation whose result is '
     'constant anyway).',
     ['programs', 'configurations', 'inputs'],
     'every expression: all operators, constants at the limits of the type, chains of one operator, mixed constant and '
     'variable operands, constant conditions of statements; 16-bit and 32-bit targets',
     'The tests run most programs with one option only and compare text, so a fold that is wrong for particular operand '
     'values or shapes is invisible.',
     ['src/optree.c', 'src--/optree.cmm', 'src/main.c', 'src/cCode.c', 'src/vmCode.c'],
     [('constant folding and tree rewriting', 'src/optree.c')],
     ['output of c--, vm-c-- and c-c-- with each optimization option, executed'])
prop('C07', 'Calls, interrupts and stack checks keep the machine state',
     'Every function compiled by c-- gives back the stack pointer, the frame pointer and the register variables as it '
     'found them, reads each parameter and local variable from its own place whatever their number, and works correctly '
     'when called recursively or with variable argument lists. An interrupt function leaves every register and flag of '
     'the interrupted program unchanged wherever it strikes. Without -K each function calls the stack check exactly once '
     'on entry with nothing live in scratch registers; with -K it never does.',
     ['programs', 'schedules', 'configurations', 'histories'],
     'every function: any number and type of parameters and locals (0 to 20), any call depth, every instruction boundary '
     'as interruption point, with and without -K',
     'Golden files hold a handful of frames; no test interrupts anything or runs the code.',
     ['src/vm2tac.c', 'src/vmCode.c', 'src/parser.c', 'src--/vm2tac.cmm', 'lib/SrcTac/crt0.s'],
     [('function entry and exit sequences', 'src/vm2tac.c')], ['standard output of c--, executed'])
prop('C08', 'Expressions and statements group as documented',
     'Every expression and statement is grouped by the documented precedence and associativity: redundant parentheses '
     'and braces never change what a program does, unary operators bind tighter than binary ones, assignment and comma '
     'group as documented, and an else belongs to the nearest if. Short-circuit operators evaluate their right operand '
     'exactly when the left one does not decide.',
     ['programs'], 'all sequences of operators (pairs and triples of every operator) and all nestings of statements',
     'The tests use a few of the thousands of operator pairs and compare text.',
     ['src/parser.c', 'src--/parser.cmm', 'doc/chap3.tex', 'doc/syntax.tex'],
     [('one parsing function per precedence level', 'src/parser.c')], ['output of vm-c--, executed'])
prop('C09', 'Type rules: exactly the well-typed programs are accepted',
     'A program whose expressions, assignments, arguments, conditions, return values and initialisers follow the documented '
     'type rules is accepted by every translator, and one that breaks a type rule is rejected with an error naming its '
     'line. The rules do not depend on which translator, option or build is used.',
     ['programs', 'configurations'],
     'all operators and contexts combined with all types: int, char, boolean, structures, opaque types, void[], arrays '
     'of up to three dimensions, null, void',
     'About 40 erroneous programs are in the tests; the table of operator x type x type x context has thousands of entries.',
     ['src/parser.c', 'src--/parser.cmm', 'doc/chap2.tex', 'doc/chap3.tex'],
     [('type checks of each construct', 'src/parser.c')], ['exit status and standard error of each translator'])
prop('C10', 'Names resolve to the declaration in scope',
     'Every use of a name refers to the innermost declaration visible at that point, or is rejected when there is none; '
     'declarations that clash with an earlier one (same scope, differing prototype, redefinition) are rejected and compatible '
     'repetitions are accepted. Structure fields, types, functions, variables and labels do not disturb one another.',
     ['programs', 'histories'],
     'every sequence of declarations, blocks and uses: globals, prototypes, functions, parameters, locals of nested blocks, '
     'for-declarations, structures and their fields, repeated global declarations',
     'The tests fix a few nestings; the interaction of declaration histories is unbounded.',
     ['src/namtbl.c', 'src/parser.c', 'src--/namtbl.cmm', 'src--/parser.cmm'],
     [('name table with search from the innermost entry', 'src/namtbl.c'), ('declaration checks', 'src/parser.c')],
     ['exit status, standard error, and the behaviour of the compiled program'])
prop('C11', 'Statement rules: accepted exactly where allowed',
     'break and continue are accepted exactly inside loops, a return with or without value exactly in functions of that '
     'kind, a function with a result exactly when it ends in a return, and each statement form exactly with the parts the '
     'grammar requires; anything else is rejected with an error. Accepted statements transfer control to the innermost '
     'enclosing construct.',
     ['programs'], 'all statement nestings up to a bound and all positions of jumps in them',
     'The tests contain single examples of each error.',
     ['src/parser.c', 'src--/parser.cmm', 'doc/chap4.tex'],
     [('statement parsing with loop nesting and last-statement tracking', 'src/parser.c')],
     ['exit status, standard error, output of vm-c-- executed'])
prop('C12', 'Static data has exactly the initialised contents',
     'When a program starts, every global variable, array and structure (also nested ones and arrays of arrays) holds '
     'exactly the values its initialiser or array(...) declaration defines, uninitialised ones hold zero, false or null, '
     'distinct objects never overlap, and strings hold their characters and a terminator.',
     ['programs', 'configurations'],
     'all initialiser shapes: constants and constant expressions, strings, null, addrof, array(n, ...), nested braces, '
     'references to other globals, for int, char, boolean, structure and array types, on every target',
     'Golden files show the text of few shapes; nothing loads the data.',
     ['src/parser.c', 'src/vmCode.c', 'src/vm2tac.c', 'src/cCode.c', 'src--/vmCode.cmm'],
     [('genData and friends', 'src/vmCode.c'), ('initialiser parsing', 'src/parser.c')],
     ['output of c--, vm-c--, ic-c--, c-c-- executed'])
prop('C13', 'Separately compiled units link as one program',
     'A program split into units behaves like the same program in one unit: public names denote one object or function '
     'everywhere, private names never leave their unit even when two units use the same one, and a prototype, a use before '
     'the definition and a repeated public declaration all denote the definition.',
     ['programs', 'configurations'],
     'every division of a program into units and every public / private choice, order of units',
     'Tests compile single files only.',
     ['src/vm2tac.c', 'src/cCode.c', 'src/vmCode.c', 'src/namtbl.c'],
     [('name printing: _public, .private', 'src/vm2tac.c'), ('static / extern', 'src/cCode.c')],
     ['output of c-- assembled and linked, output of c-c-- compiled and linked'])
prop('C14', 'Tokens are read as documented',
     'The lexical form of a program never matters beyond its tokens: white space, comments and line ends between tokens '
     'are ignored, operators are read as the longest match, and decimal, octal and hexadecimal numbers, characters and '
     'strings with every escape denote their documented values. A malformed or overlong token is rejected.',
     ['inputs'], 'all spellings of constants, escapes, identifiers, operators, comments',
     'Tests use a few spellings.', ['src/lexer.c', 'src--/lexer.cmm', 'doc/chap2.tex'],
     [('getTok', 'src/lexer.c')], ['output of vm-c-- and c--, exit status'])
prop('C15', 'Errors are reported at the right file and line',
     'The first error of a program is reported once on standard error with the name of the source file and the line it is '
     'on, taking line markers of the preprocessor into account, and the translator ends with a failure status; a program '
     'without error produces no message and a success status. Run-time checks name the same places.',
     ['inputs', 'programs', 'configurations'],
     'every kind of error at every line, with arbitrary line markers, comments and line breaks before it, every translator',
     'Tests keep standard error of a few programs, all without markers.',
     ['src/util.c', 'src/lexer.c', 'src/main.c', 'src--/util.cmm', 'src--/lexer.cmm'],
     [('error and line tracking', 'src/util.c, src/lexer.c')], ['standard error and exit status'])
prop('C16', 'Any input is translated or rejected, never a crash',
     'On any input text whatsoever each translator terminates, with success or with an error message and failure status; '
     'it never crashes, hangs or touches memory it does not own, also when names, strings, expressions, nesting or tables '
     'exceed its limits.',
     ['inputs'], 'all byte sequences: valid programs, truncated and mutated ones, oversized names, strings, tables and nestings',
     'Tests contain well-formed small programs.', ['src/lexer.c', 'src/parser.c', 'src/sytree.c', 'src/namtbl.c', 'src/util.c'],
     [('limit checks', 'src/sytree.c, src/namtbl.c, src/lexer.c')], ['exit status, signals, sanitizer reports'])
prop('D01', 'Commands build what their options say',
     'The commands cm2e, cm2c, cm2i and cm2v and the translators accept their documented options in any documented '
     'combination and produce the documented files from the named sources, run the passes on exactly those files, leave no '
     'temporary files, and end with a failure status when any pass fails.',
     ['configurations', 'fault_sequences'], 'all combinations of options, source lists and failing passes',
     'No test runs these commands with options.', ['src/cm2e.in', 'src/cm2c.in', 'src/cm2i.in', 'src/cm2v.in', 'src/main.c'],
     [('shell scripts', 'src/cm2*.in'), ('option parsing', 'src/main.c')], ['files, exit status'])
prop('S01', 'The compiler is one, in C, in C-- and on its own machine',
     'A translator written in C, the same translator written in C-- and compiled through C, and the compiler compiled by itself to '
     'TaC and running on a TaC machine do the same with every source text and every options: same verdict, same messages, same '
     'output (numbers modulo the word). In particular the compiler compiled by itself compiles its own sources to what it was '
     'compiled to, and what a translator does with a text never depends on anything but the text and the options.',
     ['inputs', 'configurations'], 'all source texts, valid and invalid, all options, all translators and bodies',
     'Tests run each build on the same hundred programs; nothing runs the compiler on TaC.', ['src', 'src--', 'lib'],
     [('translators in C', 'src/*.c'), ('translators in C--', 'src--/*.cmm'), ('TaC library', 'lib/SrcTac')],
     ['output, messages, exit status'])
prop('L01', 'The TaC heap hands out disjoint blocks and reclaims them',
     'Every block malloc, calloc and the typed variants return is even-aligned, at least as large as asked, inside the '
     'heap, and disjoint from every other live block; its contents stay unchanged until it is freed, and calloc blocks are '
     'zero. Freed memory can be allocated again with adjacent free blocks merged; exhausted memory and freeing a bad address '
     'end the program with the documented error, and nothing else does.',
     ['histories', 'inputs'], 'every sequence of allocations and releases of any sizes (including extremes)',
     'No test runs the TaC library.', ['lib/SrcTac/stdlib.cmm', 'lib/SrcTac/crt0.s'],
     [('free list with merging', 'lib/SrcTac/stdlib.cmm')], ['results of malloc/free and exit status, on the TaC machine'])
prop('L02', 'TaC stdio delivers bytes exactly once, in order',
     'For every sequence of operations on streams, the bytes that reach a file or the console are exactly those written, in '
     'order, once, no later than the next flush, seek, close or exit, and the bytes read are exactly those of the file from '
     'the position in order, with end of file and errors reported as documented. Misuse ends the program with the documented error.',
     ['histories', 'fault_sequences'],
     'every history of fopen, fclose, fputc, fputs, fgetc, fgets, feof, fseek, fflush, with short, failing and empty '
     'system calls', 'The stdio test exercises the C library version with one history.',
     ['lib/SrcTac/stdio.cmm', 'lib/SrcTac/syslib.s', 'lib/SrcTac/wrap-syslib.cmm'],
     [('buffering', 'lib/SrcTac/stdio.cmm')], ['system calls issued and values returned, on the TaC machine'])
prop('L03', 'printf formats every value and directive as documented',
     'For every format string and argument list, fprintf and printf write exactly the documented characters: decimal, octal, '
     'hexadecimal, character, string and percent conversions with width, left alignment and zero fill, for all values '
     'including the extremes, and return the number of characters written. The TaC and the C version agree.',
     ['inputs'], 'all directives, widths, flags and values', 'One fixed list of calls is tested, on the C version only.',
     ['lib/SrcTac/printf.cmm', 'lib/SrcC/printf.c'], [('conversion routines', 'lib/SrcTac/printf.cmm, lib/SrcC/printf.c')],
     ['characters written, return value'])
prop('L04', 'String and character functions',
     'For every argument, the string functions (copy, bounded copy, concatenation, comparison, search, length) and the '
     'character classification and conversion functions return exactly the documented result, write exactly the documented '
     'bytes of the destination and change nothing else.',
     ['inputs'], 'all strings (including empty, equal, prefixes, overlapping patterns), all bounds, all 256 characters',
     'No test calls most of them.', ['lib/SrcCmm/string.cmm', 'lib/SrcCmm/ctype.cmm'],
     [('loops over characters', 'lib/SrcCmm/string.cmm')], ['results and memory, on the TaC machine'])
prop('L05', 'Environment variables and paths',
     'For every history of putEnv, setEnv, unsetEnv and getEnv the environment behaves as a map from names to values with '
     'the documented overwrite rule, and nothing is lost when the table grows. absPath yields, for every path and current '
     'directory, the absolute path without empty, . and .. components, or an error without writing outside the buffer.',
     ['histories', 'inputs'], 'all histories over names that are prefixes of one another; all paths',
     'No test runs this code.', ['lib/SrcTac/environ.cmm', 'lib/SrcTac/wrap-syslib.cmm'],
     [('environ table', 'lib/SrcTac/environ.cmm')], ['results and environ contents, on the TaC machine'])
prop('L06', 'Start-up, 32-bit arithmetic, conversions and random numbers',
     'The 32-bit routines compute the exact sum, difference, product, quotient and remainder for every operand in their '
     'documented range; unsigned and address comparison order all values; atoi, htoi, srand and rand compute their '
     'documented values; the stack check stops the program with the documented error exactly when the stack meets the heap.',
     ['inputs', 'histories'], 'all operand values', 'No test runs the TaC run-time library.',
     ['lib/SrcTac/crt0.s', 'lib/SrcTac/stdlib.cmm'], [('assembly routines', 'lib/SrcTac/crt0.s')],
     ['results, on the TaC machine'])
prop('L07', 'System call wrappers',
     'Every library function that stands for a system call issues exactly that system call with its own arguments (path '
     'arguments made absolute where documented), returns its result, sets errno exactly when the result is negative, and '
     'keeps all register variables and the stack.',
     ['inputs', 'fault_sequences'], 'all calls, arguments and results', 'No test runs this code.',
     ['lib/SrcTac/syslib.s', 'lib/SrcTac/wrap-syslib.cmm'], [('SVC stubs', 'lib/SrcTac/syslib.s')],
     ['SVC instructions with register contents, on the TaC machine'])
prop('L08', 'The C run-time library behaves like the TaC one',
     'Programs translated to C (with and without run-time checks) see the documented library behaviour: strings, files, '
     'end-of-file detection, seeking to any 32-bit offset, file sizes, conversions, allocation and environment work as the '
     'documentation says, arguments of main arrive, and library calls return the documented values.',
     ['inputs', 'histories'], 'all arguments and histories', 'The tests cover one history per function group.',
     ['lib/SrcC/wrapper.c', 'lib/SrcC/wrapper.h', 'lib/SrcC/printf.c', 'lib/SrcC/cfunc.hmm'],
     [('wrapper functions', 'lib/SrcC/wrapper.c, lib/SrcC/wrapper.h')], ['output of programs built with cm2c'])

CHECKS = {}


def chk(pid, technique, level, note):
    CHECKS[pid] = dict(property=pid, quick_cmd='python3 run.py %s --tier quick' % pid,
                       thorough_cmd='python3 run.py %s --tier thorough' % pid,
                       technique=technique, level=level, level_note=note)


exec(open(os.path.join(V, 'tools', 'claims.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
na = [dict(property=p['id'], reason=NA.get(p['id'], 'the check for this property is not built yet'))
      for p in P if p['id'] not in CHECKS]
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='NONE', enable='no hooks are used', source_commits=[]),
         checks=[CHECKS[p['id']] for p in P if p['id'] in CHECKS], not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
