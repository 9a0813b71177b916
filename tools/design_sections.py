"""The per-property part of DESIGN.md: property -> (method and bounds, what counts as
right, why enumeration reaches what tests do not, limits)."""
S = {}


def sec(pid, how, oracle, why, limits):
    S[pid] = (how, oracle, why, limits)


sec('C01',
    'Product of include graphs over three headers (all 8 DAGs), ordered include lists of the user, about 170 kinds of full use (types, members, calls, templates, macros, conversions, preprocessor tests, ...), and three places (source, associated header, source beside its header); pairs of uses over a smaller vocabulary. Quick: single uses of the farthest header with up to two includes, pairs of 4 kinds. Thorough: all targets, all include lists, pairs of 45 kinds and triples of 5.',
    'The header that declares the symbol is desired, nothing else is; additions, removals (with line numbers), the full list and the verdict of every analysed file are compared exactly.',
    'A test fixes one include layout per construct; whether the use is charged to the right header must not depend on where the definition happens to be reachable.',
    'One symbol of each kind per header; template metaprogramming is limited to the kinds listed.')
sec('C02',
    'Every pointer-like use kind (about 80) of eight kinds of types (class, nested namespace, template, enum, opaque enum, union, ...), every prefix of includes and declarations, early or late declarations; all sequences of up to three uses over two types; all splits between a header and its source.',
    'A lattice: the strongest use decides (declaration < definition); a declaration is wanted unless a desired header defines the type or a declaration stays in the same or associated file.',
    'Precedence between uses is a statement about all sequences.',
    'By-value results in headers follow the documented conditional rule; types are plain.')
sec('C03',
    'All words of up to four lines over {three includes, three declarations} x use sets; all pairs (thorough: triples of 13 shapes) over 25 line shapes (spaced, continued after a comment, conditional, split declaration, inside extern "C", attributes, made by a macro, in strings and comments) x 15 uses x source/header.',
    'Set difference between present and desired lines, first duplicate kept, exact line ranges.',
    'Removal soundness quantifies over all combinations of lines and uses.',
    'Lines of unusual shapes are combined up to two or three at a time.')
sec('C04',
    'Transition system: a state is a program, the transition applies exactly the recommended edits. Initial states: 70 families of headers with a user (lib/snippets.py) with every variant of their includes x include lists x five places, and pairs of families. Every state is compiled and analysed; the second must be the last.',
    'No prediction is needed: compilability and fixpoint are checked on the real tool and compiler.',
    'Nothing in the repository ever applies a report and looks again.',
    'Programs that do not compile to begin with are counted and skipped.')
sec('C05',
    'Words over include and declaration lines in every layout, in sources, associated headers, other checked headers and files included twice; all kinds of pragmas that stop removal.',
    'An algebra over one record and the file: full = present - removed + added, additions not present, removals present at their line, one record per file.',
    'The invariant must hold for every report whatever its content.',
    'The same algebra is also asserted inside the other analyser checks, on about 200 000 more programs.')
sec('C06',
    'Product of --error and --error_always with all kinds of values (also repeated, malformed), verbosity, presentation options and programs with an edit in any one place, in none, or with compile errors.',
    'A table: error if some reported file needs edits; presentation options do not matter.',
    'Interplay of options with where the edit is.',
    'Status values are compared modulo 256, as the system reports them.')
sec('C07',
    'Words over lines and keep pragmas in all documented forms (trailing, block, begin_keep/end_keep, always_keep, attributes in between), in source and header, with uses.',
    'The pragma automaton marks covered lines; the rest is judged as in C03.',
    'Which line a pragma covers depends on all its neighbours.', 'Word length 3 (thorough 4).')
sec('C08',
    'All include graphs over three (thorough: four) headers whose edges are plain or exported in each documented form; all include sets and use sets of the user; exported declarations; relative and absolute spellings.',
    'Reachability over the exported edges; a cover of the needed symbols by exporters that are already included is preferred.',
    'Chains and diamonds of exports; tests have a handful.', 'Ties between equally good exporters are not predicted, only required to be a valid choice.')
sec('C09',
    'Three headers, each public, private, or private in favour of any other (chains, cycles, several at once); all include sets; friend patterns; directories named internal.',
    'Reachability over the declared relations; friends may include directly.',
    'Order independence and cycles are statements about all declared relations.', 'Three headers plus one user.')
sec('C10',
    'A source and its header, both with lines and uses, and the two pragmas naming every header and symbol in every spelling, at every place of either file.',
    'The outcome of the program with the pragmas as plain comments, transformed as documented.',
    'Effects on other files and symbols.', 'Two headers, two symbols.')
sec('C11',
    'Words over comments that are, nearly are or are no pragmas, on lines of their own or behind lines, in one file or two.',
    'The automaton of the pragma language gives the exact diagnostics and the accepted pragmas; the report equals that of the word with the rejected ones disarmed.',
    'State carried from pragma to pragma (open exports, open keeps) needs sequences.',
    'One known finding: an invalid ECMAScript pattern in a friend pragma.')
sec('C12',
    'All mapping files of up to three lines over four headers, in every order, all visibilities, all included sets, up to renaming of unused headers; batches of worlds per run.',
    'Reachability in the mapping graph; present stand-ins first, then the first in mapping order.',
    'Cycles, diamonds and order of lines.', 'Four headers.')
sec('C13',
    'All mapping files of up to two lines over exact and nearly right symbol names and targets, every kind of symbol; all pairs of header patterns in both regular-expression dialects.',
    'Table lookup; full-match of patterns.',
    'Prefix/suffix confusion and unrelated lines.', 'Two lines.')
sec('C14',
    'All 512 reference graphs over three mapping files with lines spread over them; every layout of one mapping; every one-token mutation and truncation of a mapping file.',
    'The flattened mapping; a grammar of the format decides accept or refuse.',
    'Robustness against every small corruption.', 'Known finding: a leading % crashes LLVM\'s YAML parser.')
sec('C15',
    'All pairs of source and header names that differ from x.cc / x.h in up to three ways, x position and form of the include; all contents of an associated header x uses in the source.',
    'The documented naming rule; what the header keeps, the source sees.',
    'Names and contents are combined.', '')
sec('C16',
    'Histories of up to three (thorough four) preprocessor events on one macro over header and source; every syntactic form; every way for a symbol to get into an expansion; headers that use their includer\'s macros.',
    'The automaton of the macro\'s current definition; ownership by the file that wrote the token.',
    'Redefinitions make the outcome depend on the whole history.', '')
sec('C17',
    'Every entity that names a type x every ordered prefix of its header x every use x every include list; chains of two; redeclarations with different intents.',
    'The entity provides the type unless its own file declares it before and does not include its header; in a chain the last typedef decides.',
    'The rule depends on order and visibility in the providing header.', 'Known finding: (*p).m on a typedef of a pointer.')
sec('C18',
    'All lists of up to two (thorough three) search options over five directories x places of source, header, shadowing header and spelling in between.',
    'A model of the documented search rules, itself confirmed against the compiler on a part of every run: each added line must find the very header.',
    'The suggestion must be right under every command line.', 'Known finding: a header shadowed by one beside the source.')
sec('C19',
    'All sets of up to three (thorough four) of twelve lines, each added, kept or removed, under presentation options: the whole report is predicted byte by byte; all ways to use five symbols up to twice under every comment style; all line widths.',
    'A renderer written from the documentation.',
    'Order and alignment are functions of the whole set.', '')
sec('C20',
    'Every program of the base world x every transformation of a closed list at every place (insertions at every line, renamings, permutations of include lines and of uses, spellings, wrappings, flags, directories); programs full of ties under three exact memory layouts (an LD_PRELOADed allocator growing up, down, or both ways).',
    'No prediction: the report of the transformed program must be the transformed report; under other layouts the bytes must be the same.',
    'Hidden dependence on position or on addresses shows only when runs are compared.',
    'Layouts: three total orders of the addresses of separately allocated objects, fillers put declarations of different headers into different blocks.')
sec('C21',
    'All sets of up to two (thorough three) --check_also globs over a tree, of --keep globs over lines, all include graphs under --transitive_includes_only, all presences and uses of two types of a prefix header under every policy, all ways to declare and use under --no_fwd_decls, all sets of output options.',
    'Glob rules of the C library; documented policies.',
    'Options interact.', 'Known finding: transitive_includes_only suggests a mapped header that is not included.')
sec('C22',
    'All interleavings of compiler options, analysis options and the source; all ways to put parts into response files; all malformed options at every position; all options that ask for outputs; all languages and standards against clang\'s predefined macros.',
    'The documented meaning, and clang itself for the language.',
    'Order of arguments.', 'Options are the ones listed in the check.')
sec('C23', 'All files of up to N lines over a 25-letter line alphabet (includes, declarations, comments, conditionals, guards, namespaces, code, continuation) x all subsets removed x additions.',
    'Token-level model (lib/fixspace.py): which lines survive in which order.',
    'The fixer is a line editor with many special cases; only all small files cover them.', 'N = 3 to 5 depending on the sub-alphabet.')
sec('C24', 'As C23, with all removal subsets, several addition sets and the options on safety and order.',
    'Every removed line gone, every added line there once, between the right code lines.', 'As C23.', 'As C23.')
sec('C25', 'All files over include kinds, declarations, comments, blanks, barriers and code, sorted under all combinations of ordering options.',
    'Exact prediction of the result; idempotence.', 'Ordering and barriers are global properties.', '')
sec('C26', 'All sequences of up to three records over two files with malformed records and other text; all combinations of record spelling, directories, arguments and filters.',
    'Merge: union of additions, intersection of removals.', 'Merging is about sequences.', '')
sec('C27', 'All line-ending assignments, encodings, stale reports (shift up to three lines), and fault placements among three files.',
    'The result on the same text in ASCII with LF; untouched bytes and unwritten files for no-ops.', 'Faults at every point of a run.', 'Read-only and unreadable faults run as an unprivileged user.')
sec('C28', 'All frames x bodies of up to N lines x additions of every kind x options.',
    'Scope, guard, leading comment and neighbourhood computed from the token structure.', 'As C23.', '')
sec('C29', 'Transition system of n analyses under a job limit and optional load limit; the environment ends any one or two of the running ones or switches the load. Every path is replayed with real processes held back until the explorer releases them.',
    'Each output once and whole, never more than the limit, worst status.', 'Every completion order is forced, not awaited.', 'n up to 4 (thorough 5), j up to 3.')
sec('C30', 'Every command string over five letters up to a length bound, every entry shape, wrapper, compiler name and forwarded option; every selection of two path spellings over a tree with symlinks; every way things can be missing.',
    'POSIX quoting; path containment.', 'Quoting and paths need all short strings.', '')
sec('C31', 'All reports of up to three records over a small vocabulary of additions, removals, kept lines and diagnostics, in every format.',
    'A formatter model.', 'Section state is carried over lines.', '')
sec('C32', 'Transition system over real files: analyse, hand the report to fix_includes.py, analyse, fix again. 70 families x 34 frames (guards, comments, conditionals, namespaces, linkage, CRLF, no last newline, angle brackets) x fixer and analyser options.',
    'Every state compiles; the second analysis asks for nothing; the second fix changes nothing; code and attached comments stay.',
    'Nothing in the repository runs the two programs together.', '')
