NA = {}
TV = ('Each generated program is compiled by the C-built and the self-hosted translator; TLC runs the TLA+ source '
      'machine (spec/Cmm.tla) and then the TLA+ machine of the target on the compiler\'s output and checks every step. '
      'Exhaustive only within each program; programs are sampled by the generator. Trusts the assembler front end '
      '(lib/asm.py, lib/vmasm.py) and the printer of the generator. ')
chk('C01', 'TLC product of a TLA+ source machine and a TLA+ TaC CPU, per compiled program', 'translation_validation', TV)
chk('C02', 'TLC product of a TLA+ source machine and the TLA+ virtual stack machine, per compiled program', 'translation_validation', TV)
chk('C03', 'TLC product of a TLA+ source machine and the TLA+ virtual stack machine on decoded intermediate code', 'translation_validation', TV)
CT = ('Each generated program is translated to C by both builds of the translator, compiled with gcc and run; the recorded '
      'trace of external calls (and the run-time check message) is validated by TLC against the TLA+ source machine '
      '(spec/Cmm.tla, spec/CTrace.tla). Programs are sampled by the generator. Trusts gcc and the recording stubs. ')
chk('C04', 'TLC trace validation of the compiled C translation against a TLA+ source machine', 'translation_validation', CT)
chk('C05', 'TLC trace validation of the checked C translation, illegal accesses included, against a TLA+ source machine', 'translation_validation', CT)
chk('C06', 'TLC product of a TLA+ source machine and the TLA+ target machines (or trace validation for C), at every optimization level of each program', 'translation_validation', TV + CT)
chk('C07', 'TLC product of a TLA+ source machine and a TLA+ TaC CPU that checks saved registers, stack and entry protocol of every call and strikes interrupts nondeterministically', 'translation_validation', TV + 'Interrupts are injected by TLC at every instruction boundary (IntProd.tla) of small programs.')
chk('C08', 'TLC product / trace validation of systematically generated expressions and nested statements printed with minimal and full parentheses', 'translation_validation', TV + CT)
chk('C09', 'TLC evaluates a TLA+ typing judgement on every case of it and the cases are replayed into every translator (verdict and line)', 'model_checking',
    'All operators on all pairs of 38 operand classes, 300 operands in every context, 7000 initialisers; each ill-typed case is given to one translator and option in quick, to all in thorough. The judgement (spec/Types.tla) follows the documentation and, where it is silent, the reading noted in DESIGN.md.')
chk('C11', 'TLC explores the configurations of a TLA+ pushdown machine of the grammar; what may and may not follow each is replayed into every translator; TLC product for the control flow of accepted programs', 'model_checking',
    'All configurations up to a stack of 9 to 11 symbols and texts of 13 tokens in quick (15 and 20 in thorough), every token after each, with and without tokens left out; all short texts and a sample of the others.')
chk('C10', 'TLC explores a TLA+ machine of declarations, scopes and uses; its histories are replayed into every translator (verdict and line), and TLC runs the accepted ones, resolved as the specification says, as products / trace validation', 'model_checking',
    'All histories of up to two events over a reduced set of signatures (the full set in thorough), and simulated ones of 3 to 16 events over 2 or 3 names that serve for everything. A history has valid events and possibly one invalid last one.')
chk('C14', 'TLC runs a TLA+ scanner machine and expression evaluator over all texts of small alphabets; every text is replayed into the translators (verdict and value)', 'model_checking',
    'All texts up to 4 characters (5 and 6 in thorough) over alphabets chosen per kind of token (operators, digits, escapes, literals, words, blanks and comments), all keywords and their one-character changes, spellings around the length limit. An invalid text goes to one translator and build, a valid one to all ten.')
chk('C15', 'TLC explores a TLA+ machine of the position in the source; its histories of tokens, separators, line markers and errors are replayed into every translator (file, line, status, output)', 'model_checking',
    'All histories with up to two (three in thorough) separators or markers before each token of a fixed program and every kind of error there, and simulated histories with up to four at every token; each goes to one translator, build and option. A construct whose error shows at the next token has that token on its own line.')
chk('C12', 'TLC enumerates initialisers of every type with the memory a TLA+ specification says they make; programs declaring them are run as products with the TLA+ source and target machines / trace validation', 'model_checking',
    'All initialiser shapes of 23 types up to two elements and two or three levels (about 3700; 8000 in thorough), three to fourteen of them in a program that shows every cell, changes every one and shows all again (60 cells of large ones).')
chk('L03', 'calls of printf and fprintf recorded from the compiled TaC library (TaC simulator) and from programs built with cm2c are validated by TLC against a TLA+ specification of formats', 'model_checking',
    'Every conversion with every flag and nine widths for values at all limits, and random formats of one to five directives with random arguments; both TaC builds (six in thorough), C with and without run-time checks. All instructions of the compiled printf.cmm are executed.')
chk('L04', 'calls of every string and character function recorded from the compiled TaC library (TaC simulator) are validated by TLC against a TLA+ specification of results and memory', 'model_checking',
    'All pairs of strings over small alphabets up to a length, all 256 characters, random strings with bounds around their lengths; memory around the operands is compared. All instructions of string.cmm and ctype.cmm are executed. The C versions are covered by L08.')
chk('L01', 'histories of allocation and release recorded from the compiled TaC library (TaC simulator) are validated by TLC against a TLA+ machine of live blocks with nondeterministic placement', 'model_checking',
    'All histories of up to five (seven in thorough) operations of five kinds, all functions with sizes at the 16-bit limits, all products of critical counts and sizes, exact fits up to the last byte of small heaps, random histories of up to 80 operations that fragment and exhaust heaps of 150 bytes to 50 KB.')
chk('L06', 'calls of the run-time routines recorded from the compiled TaC library (TaC simulator) are validated by TLC against a TLA+ specification of 32-bit arithmetic, conversions, the generator, the stack check and the start of a program; so is the instruction set of the simulator against spec/TaC.tla', 'model_checking',
    'About 700 (20000 in thorough) operand triples per 32-bit routine with limits and multiples of the divisor, aliased operands, all pairs of limit values for comparisons, decimal and hexadecimal strings, the whole period of the generator (thorough), the stack check at every distance near the heap, programs with up to six arguments and five environment strings. All instructions of crt0.s are executed.')
chk('L02', 'histories of stream operations, with the system calls the library makes, recorded from the compiled TaC library (TaC simulator) above a faulty kernel are validated by TLC against a TLA+ machine of streams', 'model_checking',
    'Output of every length around the buffer sizes in pieces with every short, empty or failing write; input of files around the buffer size with every kind of line, limit, short and failing read; every operation on every kind of stream, closed and bad ones included; the table of open files; random histories of up to 60 calls. How much is buffered (up to 128 bytes) is left open.')
chk('L05', 'histories of environment and path functions recorded from the compiled TaC library (TaC simulator) are validated by TLC against a TLA+ map of variables and a TLA+ specification of paths', 'model_checking',
    'All histories of three (four in thorough) operations over two names of which one starts with the other, growing and shrinking tables, values that are parts of variables, small heaps, all short paths over "/", ".", "u" (quarter of them in quick) and random ones with buffers around their length, in six current directories. PWD is an absolute path; buffers have two bytes at least.')
chk('L07', 'calls of the system call wrappers, with what reaches the kernel, recorded from the compiled TaC library (TaC simulator) are validated by TLC against a TLA+ table of system calls and the specification of paths', 'model_checking',
    'Every wrapper with limit values in every argument and all kinds of results, with paths in six current directories (valid, missing, too long), on large and small heaps. All instructions of syslib.s and wrap-syslib.cmm are executed.')
chk('L08', 'histories of library calls made by one program built with cm2c (with and without run-time checks) are recorded and validated by TLC against TLA+ specifications of strings, streams and files, environment and paths, and memory', 'model_checking',
    'Strings: all pairs of short strings, all characters, random histories. Files: random histories of up to 40 calls on five streams, three standard streams and all modes, offsets around 2^16, 2^31, 2^32 and beyond; the files themselves are compared at the end. Environment: all histories of two calls (four in thorough) over two names, random ones of 40; paths in a scratch directory. Memory: every cell of every block. Trusts the C compiler and its library.')
chk('D01', 'TLC enumerates command lines, sources and failing passes from a TLA+ machine of the commands (Driver) and argument lists of the translators (Options) with what they must leave; each is replayed into the real scripts over stand-in tools, and into the real translators', 'model_checking',
    'Exhaustive for one option and one source (two in thorough), simulated beyond, with the pass that fails chosen by the machine; all argument lists of up to four words (five in thorough). Names with blanks, options after sources and the contents of the map file are not covered.')
chk('C13', 'TLC product of the TLA+ source machine of a whole program and the machine of its separately compiled and linked units (TaC, VM) or their recorded trace (C, RTC); TLC chooses the split, publicity, spelling and order of declarations from a TLA+ specification of linking (Units)', 'translation_validation',
    'Random programs of 20 to 30 declarations over two or three units, two splits each, every unit compiled by either build with its own options; splits with a hidden or doubled public name must not link. Linking of TaC and VM text is done by lib/asm.py and lib/units.py; IC is not linked.')
chk('C16', 'TLC generates texts from a TLA+ machine of repeated constructs (which keeps account of every table of the translators), edits and raw bytes, with the verdict it allows; they are replayed into translators compiled with sanitizers and what each run did is validated by TLC against a TLA+ machine of outcomes', 'model_checking',
    'Every construct with 33 multiplicities up to 20000 around every limit, complete and cut short, at all translators; random compositions; every edit at 250 places of four to ten programs and random sequences of up to eight edits; every byte (thorough: pairs) after 16 beginnings. Both builds with address and undefined-behaviour sanitizers (without those for integer overflow and shifts).')
chk('S01', 'TLC generates texts (limits, compositions, edits) and validates the recorded runs of every body of the compiler on them against a TLA+ machine (Twins) in which what a run does is a function of text and options alone', 'model_checking',
    'The own sources of the compiler and the library (bootstrap), random programs, texts around every limit and edited programs; all translators and both builds, and c-- on a simulated TaC for a sample. On TaC: numbers modulo 2^16, no byte 255, no constants beyond 16 bits, and a large text may exhaust memory; edited programs are compared there by status and messages only.')
