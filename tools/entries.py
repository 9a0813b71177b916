MC = 'explicit-state enumeration of bounded programs against a reference model; every model state replayed on the real binary'
MCPY = 'explicit-state enumeration of bounded inputs against a reference model; every model state replayed on the real script'

# --------------------------------------------------------------------------
# include-what-you-use: the analysis
# --------------------------------------------------------------------------
prop('C01', 'Every fully used symbol is provided by a direct include',
     'For every analysed file, each symbol the file uses in a way that needs its definition is declared, after the recommended edits, by a header the file itself includes (or by a header documented to stand in for it, or by the includes of its associated header). '
     'If such a header is not directly included yet, the report tells the user to add it with the spelling that finds it; it never relies on an include that only arrives transitively.',
     ['programs'],
     'All small programs: every way of spreading definitions over headers, every include graph over those headers, every kind of full use, in a source file or in a header.',
     'The acceptance tests are a few hundred hand-written programs, each pinning one layout; the guarantee is over all layouts and combinations.',
     ['iwyu.cc', 'iwyu_output.cc', 'iwyu_include_picker.cc', 'iwyu_ast_util.cc'],
     [('use collection in the AST visitors', 'iwyu.cc: IwyuBaseAstVisitor, IwyuAstConsumer'),
      ('choice of the header for each use', 'iwyu_output.cc: CalculateMinimalIncludes, ProcessFullUse, CalculateIwyuForFullUse')],
     ['report on stderr: "should add" and "full include-list" sections'],
     check='c01_full_uses', technique=MC,
     level_note='Every use kind x holder x include graph x pre-existing include set within the bounds stated in the evidence is executed on the real binary.' + TRUST)

prop('C02', 'A use that needs only a declaration asks for no more than that',
     'A symbol used only in ways that do not need its definition (pointer, reference, by-value parameter of a declaration, and so on) never causes its header to be added; the report asks for a forward declaration instead, unless a declaration or the definition is already available by the rules the user chose. '
     'One definition-requiring use of the same symbol in the same file turns this into a request for the header, and the two requests are never both made.',
     ['programs'],
     'All sequences of up to three uses of a class (template) drawn from the use kinds, in every order and place, with every combination of already present include, forward declaration and transitive declaration.',
     'Tests pin individual use kinds; precedence among uses holds only if every combination and order is considered.',
     ['iwyu.cc', 'iwyu_output.cc'],
     [('classification of uses', 'iwyu.cc: CanIgnoreType, CanForwardDeclareType, ReportDeclUse, ReportDeclForwardDeclareUse'),
      ('forward-declare processing', 'iwyu_output.cc: ProcessForwardDeclare, CalculateIwyuForForwardDeclareUse')],
     ['report: "should add" / "should remove"'],
     check='c02_forward', technique=MC,
     level_note='All use sequences within the bounds are executed; the lattice is compared exactly.' + TRUST)

prop('C03', 'Exactly the unneeded includes and declarations are removed',
     'An include or forward declaration in an analysed file is reported for removal exactly when no use in the file needs it and nothing (pragma, mapping, associated header, option) asks to keep it. '
     'A duplicate or redundant line is removed while one sufficient line stays, and the reported line numbers are those of the removed line.',
     ['programs'],
     'All files made of up to four include / forward declaration lines, used, unused, duplicated or redundant, in all orders, followed by all subsets of uses.',
     'Tests sample some files; soundness of removals is a statement about all combinations of lines and uses.',
     ['iwyu_output.cc', 'iwyu.cc'],
     [('desired set vs. actual set', 'iwyu_output.cc: CalculateDesiredIncludesAndForwardDeclares, EmitDiffs'),
      ('forward declarations kept', 'iwyu_output.cc: CalculateAndReportIwyuViolations')],
     ['report: "should remove" with "// lines N-M"'],
     check='c03_removals', technique=MC,
     level_note='All line sequences x use subsets within the bounds are executed; the removals are compared line by line.' + TRUST)

prop('C04', 'Following the recommendations gives code that compiles and stays put',
     'If the analysed program compiles, then the program obtained by making exactly the recommended edits (add the added lines, delete the removed lines) compiles too. '
     'Analysing the edited program again recommends nothing for the edited files.',
     ['programs', 'histories'],
     'All programs of the enumerated world (headers, include graphs, uses, forward declarations); histories analyse-apply-analyse-apply until nothing changes.',
     'The test driver only compares one report per program with expected text; it never applies a report and compiles or re-analyses the result.',
     ['iwyu.cc', 'iwyu_output.cc', 'iwyu_include_picker.cc', 'iwyu_preprocessor.cc'],
     [('whole analysis', 'iwyu.cc: IwyuAstConsumer::HandleTranslationUnit'),
      ('report', 'iwyu_output.cc: CalculateAndReportIwyuViolations')],
     ['report; a compilation of the edited program; the second report'],
     check='c04_fixpoint', technique='explicit-state exploration of the analyse/apply transition system on the real binary',
     level_note='Every program of the bounded world is one initial state; the transition system is followed to its fixpoint and each state is compiled.' + TRUST)

prop('C05', 'The three parts of a report agree with each other and with the file',
     'For each file the full include-list is exactly what the file has, minus the removed lines, plus the added lines; a file is reported as correct exactly when nothing is added or removed. '
     'Added lines are never already present, removed lines are really present at the stated line numbers, no line is listed twice, and each reported file has exactly one complete record.',
     ['programs'],
     'All programs of the enumerated worlds; every record of every report.',
     'Tests compare with expected text which itself may disagree with the file; the agreement is an invariant over all programs.',
     ['iwyu_output.cc'],
     [('emission of the three sections', 'iwyu_output.cc: EmitDiffs, PrintableDiffs'),
      ('line keys', 'iwyu_output.cc: OneIncludeOrForwardDeclareLine')],
     ['report on stderr'],
     check='c05_report_algebra', technique=MC,
     level_note='The algebra is checked on every record of every enumerated program.' + TRUST)

prop('C06', 'The exit status says what the options promise',
     'Without --error options the program exits 0 whenever the input was analysed; with --error[=N] it exits N (1 by default) exactly when some reported file needs an edit, and with --error_always[=N] it exits N always. '
     'The status does not depend on verbosity or on other presentation options, and a source file that does not compile gives a nonzero status.',
     ['configurations', 'programs'],
     'All combinations of the error options and their values, verbosity levels and presentation options with programs that need edits, need none, or do not compile.',
     'The tests fix a handful of exit codes; the promise is over all option combinations.',
     ['iwyu_globals.cc', 'iwyu_output.cc', 'iwyu.cc', 'iwyu_driver.cc'],
     [('exit status computation', 'iwyu.cc: IwyuAstConsumer::HandleTranslationUnit'),
      ('option parsing', 'iwyu_globals.cc: CommandlineFlags::ParseArgv')],
     ['exit status'],
     check='c06_exit_status', technique=MC,
     level_note='The full product of option values within the bounds is executed.' + TRUST)

prop('C07', 'Keep pragmas keep what they cover and nothing else',
     'A line carrying a keep pragma, lying between begin_keep and end_keep, or including a header that declares itself always_keep is never reported for removal, and stays in the full list. '
     'Lines the pragmas do not cover are judged as if the pragmas were not there, whatever comment style or spacing the documentation allows is used.',
     ['programs'],
     'All placements of keep, begin_keep/end_keep and always_keep over files of up to four include and declaration lines, in both comment styles.',
     'Tests have one or two files per pragma; scoping errors show only for particular positions.',
     ['iwyu_preprocessor.cc', 'iwyu_output.cc'],
     [('pragma handling', 'iwyu_preprocessor.cc: HandlePragmaComment, MaybeProtectInclude, HasOpenBeginKeep, ForwardDeclareIsMarkedKeep'),
      ('desired includes', 'iwyu_output.cc: CalculateDesiredIncludesAndForwardDeclares')],
     ['report'],
     check='c07_keep', technique=MC,
     level_note='All pragma placements within the bounds are executed and compared line by line.' + TRUST)

prop('C08', 'Exported headers and declarations are provided by the exporter',
     'A header that exports an include or a forward declaration (export pragma, or a line between begin_exports and end_exports), directly or through a chain of exporting headers, satisfies uses of what it exports, and its exported lines are never reported for removal. '
     'An include that is not exported is not provided this way.',
     ['programs'],
     'All include chains and diamonds up to three levels with every subset of the edges exported (by either pragma form), for every subset of headers the user includes already.',
     'Tests contain a few fixed chains; re-exporting is a reachability property of the include graph.',
     ['iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_output.cc'],
     [('export handling', 'iwyu_preprocessor.cc: MaybeProtectInclude, ForwardDeclareIsExported'),
      ('mapping through exporters', 'iwyu_include_picker.cc: FinalizeAddedIncludes, GetCandidateHeadersForFilepath')],
     ['report'],
     check='c08_export', technique=MC,
     level_note='All graphs within the bounds are executed and compared with a reachability model.' + TRUST)

prop('C09', 'Private headers are replaced by their public ones, except for friends',
     'A header that declares itself private is not suggested to ordinary files: the public header it names (or the public header that a chain of such declarations leads to) is. '
     'A file that matches a friend pattern of the private header may include it directly, and a file that is not matched may not; the suggestion depends on the declared relations only, not on the order in which headers are read.',
     ['programs'],
     'All chains of private headers up to three levels, all placements of public headers, friend patterns (plain, quoted, regular expressions, several), and positions of the pragma in the header.',
     'Tests cover some of the pragmas in one layout; chains, friends and orders multiply.',
     ['iwyu_preprocessor.cc', 'iwyu_include_picker.cc'],
     [('private / friend pragmas', 'iwyu_preprocessor.cc: HandlePragmaComment'),
      ('visibility and friends', 'iwyu_include_picker.cc: MarkIncludeAsPrivate, AddFriendRegex, GetMappedPublicHeaders, GetCandidateHeadersForFilepathIncludedFrom')],
     ['report'],
     check='c09_private', technique=MC,
     level_note='All relations within the bounds are executed and compared with the reference model.' + TRUST)

prop('C10', 'no_include and no_forward_declare suppress exactly what they name',
     'A header named by a no_include pragma is never suggested to the file that holds the pragma, and an existing include of it is removed; a symbol named by no_forward_declare is never suggested for forward declaration there. '
     'Other headers, other symbols and other files of the same run are unaffected.',
     ['programs'],
     'All placements of the two pragmas, in the source file or its associated header, naming each header or symbol in each spelling, with every combination of present lines.',
     'Tests have one file per pragma; leakage to other files or names needs combinations.',
     ['iwyu_preprocessor.cc', 'iwyu_output.cc', 'iwyu_include_picker.cc'],
     [('inhibition', 'iwyu_preprocessor.cc: HandlePragmaComment; iwyu_output.cc: IwyuFileInfo::InhibitIncludeOf, InhibitForwardDeclareOf')],
     ['report'],
     check='c10_inhibit', technique=MC,
     level_note='All pragma placements within the bounds are executed.' + TRUST)

prop('C11', 'Misplaced or malformed pragmas are diagnosed and do no harm',
     'Each unbalanced, wrongly nested, unknown or malformed pragma is diagnosed with a message at its own line, and correct sequences of pragmas are accepted silently. '
     'A rejected pragma has no effect on the recommendations.',
     ['programs'],
     'All sequences of up to four pragma, include, declaration and plain comment lines over the whole pragma vocabulary, including malformed variants.',
     'Tests show one bad sequence each; the pragma language is a small automaton whose states must all be visited.',
     ['iwyu_preprocessor.cc'],
     [('pragma automaton', 'iwyu_preprocessor.cc: HandlePragmaComment, FileChanged_ExitToFile')],
     ['diagnostics and report'],
     check='c11_pragma_automaton', technique='explicit-state enumeration of the pragma automaton; every word replayed on the real binary',
     level_note='All words up to the length bound over the alphabet are executed; diagnostics are compared with the reference automaton.' + TRUST)

prop('C12', 'Header mappings lead to every public header they reach',
     'The headers that may stand in for a private header are exactly the public headers reachable from it through the include mappings, whatever the length of the chain, the order of the mapping lines and the presence of cycles. '
     'The analysis terminates, an already included stand-in is preferred over adding a new one, and with none included the first stand-in is suggested.',
     ['configurations'],
     'All mapping digraphs over five headers up to a bounded number of edges (chains, diamonds, cycles), all assignments of visibility, all orders of the lines.',
     'The tests use a few acyclic mapping files; closure is a property over all graphs.',
     ['iwyu_include_picker.cc', 'iwyu_output.cc'],
     [('transitive closure', 'iwyu_include_picker.cc: MakeMapTransitive, MakeNodeTransitive'),
      ('choice among candidates', 'iwyu_output.cc: CalculateMinimalIncludes')],
     ['report'],
     check='c12_mapping_graphs', technique=MC,
     level_note='All mapping graphs within the bounds are executed and compared with graph reachability.' + TRUST)

prop('C13', 'Symbol mappings and visibilities are honoured exactly',
     'A symbol with symbol mappings is provided by the headers they name in preference to the header that declares it, only for exactly that qualified name. '
     'A header marked private is never suggested to unrelated files, one marked public may be, a regular-expression entry applies to exactly the header names it matches in full, and the result does not depend on unrelated mapping lines.',
     ['configurations'],
     'All mapping files of up to three lines over a vocabulary of symbols, headers, visibilities and patterns, with every set of already included headers.',
     'Tests fix one mapping file per feature.',
     ['iwyu_include_picker.cc', 'iwyu_output.cc', 'iwyu_regex.cc'],
     [('symbol mappings', 'iwyu_include_picker.cc: AddSymbolMapping, GetCandidateHeadersForSymbol'),
      ('regex entries', 'iwyu_include_picker.cc: ExpandRegexes; iwyu_regex.cc: RegexMatch')],
     ['report'],
     check='c13_symbol_mappings', technique=MC,
     level_note='All mapping files within the bounds are executed.' + TRUST)

prop('C14', 'Mapping files mean what they say, or are refused',
     'A well-formed mapping file has the same effect whatever its layout (order of keys, comments, trailing commas, splitting over files joined by ref), refs are found relative to the referring file or the search directories, and a file reached twice or in a cycle counts once. '
     'A malformed, missing or ill-typed mapping file ends in a diagnostic that names it rather than in a crash, a hang or silent acceptance.',
     ['configurations', 'inputs'],
     'All splits of a mapping over up to three files joined by ref in all topologies and directories; all single-token mutations of a well-formed file.',
     'Tests use two or three hand-written mapping files and never a broken one.',
     ['iwyu_include_picker.cc', 'iwyu_globals.cc'],
     [('mapping file parser', 'iwyu_include_picker.cc: AddMappingsFromFile'),
      ('file lookup', 'iwyu_include_picker.cc: TryReadMappingFile')],
     ['report, diagnostics and exit status'],
     check='c14_mapping_files', technique=MC,
     level_note='All topologies and mutations within the bounds are executed.' + TRUST)

prop('C15', 'Associated headers are recognised and shared with their source file',
     'The header with the same stem as the source file (including documented suffix and directory variants), or one marked associated, is analysed together with it and is never removed from it; what the associated header itself provides or includes need not be repeated in the source file. '
     'A header that is not associated gets neither treatment.',
     ['programs', 'configurations'],
     'All pairs of source and header names over the stem, suffix, directory and extension alphabet, in both quoting styles and include positions.',
     'Tests have some name pairs; the rule is over all names.',
     ['iwyu_path_util.cc', 'iwyu_preprocessor.cc', 'iwyu_output.cc'],
     [('canonical names', 'iwyu_path_util.cc: GetCanonicalName'),
      ('association', 'iwyu_preprocessor.cc: BelongsToMainCompilationUnit, AddDirectInclude')],
     ['which files the report has; what they say'],
     check='c15_associated', technique=MC,
     level_note='All name pairs within the alphabet are executed.' + TRUST)

prop('C16', 'Macros count as uses of the headers that define them',
     'Expanding, testing (ifdef, ifndef, elifdef, defined, if, elif) or passing a macro is a use of the header that defines it, in the file where this is written; a macro that is only defined, or defined again locally, is not a use of another header. '
     'Symbols named in a macro body are charged to the file that wrote them, and symbols given as macro arguments to the file that expands the macro. '
     'A header that uses a macro its includer defines is kept by that includer, or, where the includer is not reported on, is provided by it.',
     ['programs'],
     'All small combinations of macro definition places, use forms, and symbols in bodies and arguments.',
     'Tests pin some forms; attribution depends on the combination of where and how.',
     ['iwyu_preprocessor.cc', 'iwyu.cc', 'iwyu_location_util.cc', 'iwyu_output.cc'],
     [('macro uses', 'iwyu_preprocessor.cc: MacroExpands, Ifdef, Ifndef, Defined, ReportMacroUse'),
      ('locations inside macros', 'iwyu_location_util.cc; iwyu_preprocessor.cc: FindFileWithMacroUse')],
     ['report'],
     check='c16_macros', technique=MC,
     level_note='All combinations within the bounds are executed.' + TRUST)

prop('C17', 'Typedefs and signatures provide what their author includes',
     'If the header of a typedef, alias or function includes the definition of the type it names, a user of the typedef or function needs only that header; if it only forward-declares the type, the user must provide the definition itself. '
     'In a chain the typedef that names the type itself decides, whatever the headers in between include. This holds for typedefs and aliases, the results of functions and methods, and parameters by value or constant reference that the caller converts to.',
     ['programs'],
     'All chains of up to two typedefs or aliases, functions with each signature role, with every include / forward-declaration choice in each header and every use kind in the user.',
     'Tests pin single chains; responsibility is decided per link.',
     ['iwyu.cc', 'iwyu_ast_util.cc'],
     [('author intent', 'iwyu.cc: CodeAuthorWantsJustAForwardDeclare, GetProvidedTypesForTypedef, GetCallerResponsibleTypesForFnReturn, GetCallerResponsibleTypesForAutocast')],
     ['report'],
     check='c17_author_intent', technique=MC,
     level_note='All chains and choices within the bounds are executed.' + TRUST)

prop('C18', 'Suggested include lines are spelled so that they find the header',
     'Every added include line, put into the file, makes the compiler find the very header that is meant, under the same command line. '
     'A header the file already includes keeps the spelling the user chose, quotes and angle brackets follow the search path that found the header, and the same header is never listed under two spellings.',
     ['configurations', 'programs'],
     'All lists of -I, -iquote, -isystem and -idirafter options over nested directories up to a length, positions of the header, of another header of the same name and of the including file, and spellings in between.',
     'Tests run with one or two fixed search directories.',
     ['iwyu_path_util.cc', 'iwyu_include_picker.cc', 'iwyu_globals.cc'],
     [('path to spelling', 'iwyu_path_util.cc: ConvertToQuotedInclude, SetHeaderSearchPaths'),
      ('spelling memory', 'iwyu_include_picker.cc: MaybeGetIncludeNameAsWritten')],
     ['added lines'],
     check='c18_spelling', technique=MC,
     level_note='All search path configurations within the bounds are executed and each suggestion is resolved with the compiler.' + TRUST)

prop('C19', 'Reports list lines in the documented order with true reasons',
     'Within each section, lines come in a fixed order (associated headers first, then includes before forward declarations, then by spelling) that depends only on the set of lines. '
     'The reason comment of a line names only symbols the file really uses from it, respects the comment options and never changes which lines are listed.',
     ['programs', 'configurations'],
     'All subsets of a vocabulary of lines (associated, quoted, angled, C and C++ system headers, forward declarations) and all comment options.',
     'Tests compare a few reports; ordering is a relation over all pairs.',
     ['iwyu_output.cc'],
     [('sort keys', 'iwyu_output.cc: GetSortedLines, GetLineSortKey, LineSortKey'),
      ('comments', 'iwyu_output.cc: PrintableDiffs, GenerateSymbols')],
     ['report'],
     check='c19_order_comments', technique=MC,
     level_note='All line sets within the vocabulary are executed under every option.' + TRUST)

prop('C20', 'The report does not depend on what should not matter',
     'Running twice gives byte-identical output wherever memory happens to lie, and changes that cannot matter (comments, blank lines, unused declarations, the spacing of #include lines, line ends, consistent renaming of symbols and of files, the order of independent declarations and of #include lines, a namespace or linkage block around all uses, compiler flags that mean nothing for the program, the directory the run happens in) change the report only by the corresponding renaming and line shift.',
     ['programs', 'schedules'],
     'All programs of the base world x all listed transformations at every place; runs under three memory layouts (an allocator whose addresses grow upwards, downwards, or both by turns).',
     'A test run compares one output once; dependence on memory layout or position shows only by comparing runs.',
     ['iwyu.cc', 'iwyu_output.cc', 'iwyu_include_picker.cc'],
     [('deterministic iteration', 'iwyu_output.cc, iwyu_preprocessor.cc: ordered containers')],
     ['report of each run'],
     check='c20_invariance', technique='explicit-state enumeration of program pairs related by a transformation, both executed on the real binary',
     level_note='All base programs x transformations within the bounds are executed.' + TRUST)

prop('C21', 'Options change the scope of a report exactly as documented',
     'Reports are given for the source file, its associated headers and the headers that match --check_also, and for nothing else; --keep globs are never removed; --transitive_includes_only never suggests a header that was not already included somewhere; --no_fwd_decls never suggests or removes for lack of forward declarations; --prefix_header_includes and --pch_in_code treat the prefix headers as the option says; --max_line_length, --no_comments, --no_default_mappings and --quoted_includes_first change nothing else.',
     ['configurations', 'programs'],
     'All combinations of the scope options and their values over a base world of programs.',
     'Tests run each option once on one file.',
     ['iwyu_globals.cc', 'iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu.cc'],
     [('option handling', 'iwyu_globals.cc: CommandlineFlags::ParseArgv, ShouldReportIWYUViolationsFor, IsKeep'),
      ('prefix headers', 'iwyu_output.cc, iwyu_preprocessor.cc: prefix header handling')],
     ['report'],
     check='c21_options', technique=MC,
     level_note='All option combinations within the bounds are executed on every base program.' + TRUST)

prop('C22', 'The command line is split and understood like the documented driver',
     'Options after -Xiwyu reach the analysis and all others reach the compiler unchanged, wherever they stand; compiler options may also come from response files and take effect as in the compiler (defines, include directories, language, standard). '
     'Unknown or malformed analysis options are refused with a message and a nonzero status, and exactly one compilation is analysed, without writing any of the compiler\'s outputs.',
     ['configurations'],
     'All interleavings of a vocabulary of analysis and compiler options with the source file, direct or through response files.',
     'Tests use one order and never a response file or a bad option.',
     ['iwyu_driver.cc', 'iwyu_globals.cc', 'iwyu_getopt.cc', 'iwyu.cc'],
     [('driver', 'iwyu_driver.cc: ExecuteAction, ExpandArgv'),
      ('option split', 'iwyu_globals.cc: OptionsParser; iwyu_getopt.cc')],
     ['exit status, diagnostics and report'],
     check='c22_driver', technique=MC,
     level_note='All interleavings within the bounds are executed.' + TRUST)

# --------------------------------------------------------------------------
# fix_includes.py
# --------------------------------------------------------------------------
FX = 'fix_includes.py'
prop('C23', 'Applying a report never touches code, comments or other directives',
     'fix_includes changes a file only by deleting include and forward-declaration lines the report removes (with namespaces, conditionals and comments that belong to them alone), adding the lines the report adds, moving include and forward-declaration lines, and adjusting blank lines next to these. '
     'Every other line, including every comment that belongs to something kept and every preprocessor conditional, stays with the same bytes and in the same order.',
     ['inputs'],
     'All files up to a bounded number of lines over an alphabet of line kinds (includes, forward declarations, namespaces, guards, conditionals, pragmas, comments, blank lines, code) with all removal sets and additions.',
     'The unit tests are some 150 fixed files; the guarantee is over all arrangements of line kinds.',
     [FX],
     [('line classification', FX + ': _CalculateLineTypesAndKeys'),
      ('spans', FX + ': _CalculateMoveSpans, _CalculateReorderSpans'),
      ('deletions', FX + ': _DeleteEmptyNamespaces, _DeleteEmptyIfdefs, _DeleteDuplicateLines')],
     ['the rewritten file'],
     check='c23_preserve', technique=MCPY,
     level_note='All line sequences up to the bound x reports are applied by the real script and judged.' + PYTRUST)

prop('C24', 'Every edit of a report is applied, once',
     'After fix_includes every line the report removes is gone and every line it adds is present exactly once, in a place where it takes effect; nothing the report keeps is removed, except exact duplicates of a line that stays. '
     'Removals that the chosen options forbid (headers in safe mode) are not made, and additions still are.',
     ['inputs', 'configurations'],
     'All files over the line alphabet x all removal sets x additions x options.',
     'Unit tests fix file and report pairs.',
     [FX],
     [('application', FX + ': FixFileLines, FixManyFiles'), ('placement', FX + ': _DecoratedMoveSpanLines, _FirstReorderSpanWith')],
     ['the rewritten file'],
     check='c24_apply', technique=MCPY,
     level_note='All line sequences up to the bound x reports x options are applied by the real script and judged.' + PYTRUST)

prop('C25', 'Sorting permutes within barriers, in order, and only once',
     'Sorting includes permutes whole lines (with their comments) only within a run of includes not interrupted by anything that forbids moving, puts them into the documented order of kinds and spellings, and loses or invents nothing. '
     'Sorting the result again changes nothing (unless sorting changed which include is recognised as the file\'s own header), and without the reorder option lines of one kind keep their relative order.',
     ['inputs', 'histories'],
     'All sequences of include lines of all kinds (associated, C, C++, quoted, system, other) with comments, barriers and forward declarations up to the bound, with and without reordering; histories of two applications.',
     'Unit tests fix some orders; a permutation and idempotence claim is over all sequences.',
     [FX],
     [('sort keys', FX + ': _GetLineKind, _GetSortKey, _DecoratedMoveSpanLines'), ('barriers', FX + ': _IsSystemInclude, _CalculateReorderSpans'),
      ('sort-only entry', FX + ': SortIncludesInFiles')],
     ['the rewritten file after one and two runs'],
     check='c25_sort', technique=MCPY,
     level_note='All include sequences up to the bound are sorted by the real script, twice.' + PYTRUST)

prop('C26', 'Reports are read completely and only the selected files are changed',
     'Every concatenation of complete records, mixed with other text, is read as one edit per file: an addition is made if any record for the file makes it, a line is removed only if all records for the file remove it, and a malformed record is reported, has no effect and hides no later one. '
     'Exactly the files named on the command line and passed by the --only_re / --ignore_re filters (all files if none is given) are changed, relative names in the report being resolved against the base directory, however the file is spelled.',
     ['inputs', 'configurations'],
     'All sequences of up to three records for up to two files over a vocabulary of additions, removals and kept lines, with all filters.',
     'Unit tests feed single well-formed reports.',
     [FX],
     [('parser', FX + ': IWYUOutputParser.ParseOneRecord'), ('merge', FX + ': IWYUOutputRecord.Merge, ProcessIWYUOutput')],
     ['which files change and how'],
     check='c26_records', technique=MCPY,
     level_note='All record sequences within the bounds are processed by the real script.' + PYTRUST)

prop('C27', 'Files are never damaged: no-ops, dry runs, bad reports, faults',
     'A file that needs no change, every file in a dry run, and a file whose report removes an include at a line where there is no include or forward declaration (a stale report) is left untouched, byte for byte and without being written. '
     'Written files keep their encoding, byte-order mark, line endings and final newline outside the edited lines, and additions get the line ending most lines have; a file that cannot be opened, read, decoded or encoded keeps its contents. '
     'In all these cases the other files of the run are still processed.',
     ['fault_sequences', 'inputs'],
     'All assignments of line endings, encodings, byte-order marks and final newlines to small files with all kinds of edits; all shifts of a report by up to three lines; all orders of up to three (thorough: four) good and faulty files with every kind of fault, as root and as an unprivileged user.',
     'Unit tests use in-memory files with plain text.',
     [FX],
     [('reading and writing', FX + ': _ReadFile, _WriteFile, FileInfo.parse'), ('stale reports', FX + ': ParseOneFile, FixManyFiles')],
     ['file bytes, modification times, output'],
     check='c27_file_safety', technique='explicit-state enumeration of encodings, stale reports and fault sequences on the real script',
     level_note='All combinations within the bounds are executed on the real script; a full disk in the middle of a write is not covered (the script writes in place).' + PYTRUST)

prop('C28', 'Added lines go where they take effect and belong',
     'An added include or forward declaration lands at file scope or in the namespace it names, inside the header guard if there is one, outside every conditional group and function body, after the comment that starts the file, and with the first existing lines of its kind (else after the nearest lower kind, else before the nearest higher one). '
     'The blank line, comment, namespace format and reorder options change only blank lines, comments, namespace layout and order.',
     ['inputs', 'configurations'],
     'All files over the line alphabet (guards, pragma once, leading comments, conditionals, namespaces, code) x additions of every kind.',
     'Unit tests fix some files.',
     [FX],
     [('insertion point', FX + ': _FirstReorderSpanWith, _IsHeaderGuard, _GetFirstNamespaceLevelReorderSpan, _GetNamespaceLevelReorderSpans'),
      ('blank lines', FX + ': _ShouldInsertBlankLine, _DeleteLinesAccordingToBlankLines')],
     ['the rewritten file'],
     check='c28_placement', technique=MCPY,
     level_note='All files up to the bound x additions are rewritten by the real script; positions are judged by a preprocessor model.' + PYTRUST)

# --------------------------------------------------------------------------
# iwyu_tool.py
# --------------------------------------------------------------------------
TL = 'iwyu_tool.py'
prop('C29', 'Parallel runs are equivalent to a serial run under every schedule',
     'For every job limit, load limit and order in which the analyses finish, each selected compilation is run exactly once, no more than the allowed number run at a time, and each complete output is printed exactly once, never interleaved with another. '
     'The exit status reports the worst result whatever the order.',
     ['schedules', 'configurations'],
     'All completion orders of up to four analyses under every job limit, with all exit statuses and load readings, including analyses that cannot be started.',
     'The tests use stub processes that finish immediately.',
     [TL],
     [('scheduler', TL + ': run_iwyu, execute'), ('process handling', TL + ': Process')],
     ['standard output, exit status, order of starts and ends'],
     check='c29_schedules', technique='stateless exploration of all schedules of the real tool under a controlled scheduler',
     level_note='All completion orders within the bounds are forced on the real tool by stand-in processes.' + PYTRUST)

prop('C30', 'Each compilation database entry becomes the right command',
     'Each entry, in either database form, is run in its directory with its own arguments, the compiler replaced by the analyser with the matching driver mode, extra arguments passed on, and quoting undone as the shell would. '
     'The selected and excluded paths pick exactly the entries at or under them, missing files are reported, and duplicates are run once.',
     ['inputs', 'configurations'],
     'All entries over a vocabulary of compilers, argument forms, quoting and directories; all selections and exclusions over a directory tree.',
     'The tests fix a few entries.',
     [TL],
     [('entries to invocations', TL + ': Invocation.from_compile_command, split_command'), ('selection', TL + ': slice_compilation_db')],
     ['argument vectors and working directories of the started processes'],
     check='c30_tooldb', technique='explicit-state enumeration of databases against a reference model; each one run by the real tool with recording stand-ins',
     level_note='All database entries and selections within the bounds are executed.' + PYTRUST)

prop('C31', 'The clang output format says the same as the report',
     'In the clang formats each addition and each removal of the report appears exactly once, with the right file, line and severity, and correct files are noted as such; the default format passes the report through unchanged. '
     'Diagnostics and other text never turn into recommendations.',
     ['inputs', 'configurations'],
     'All reports of up to three records over a vocabulary, in all formats.',
     'The tests fix three reports.',
     [TL],
     [('formatter', TL + ': clang_formatter, FORMATTERS')],
     ['standard output'],
     check='c31_clangformat', technique=MCPY,
     level_note='All reports within the bounds are formatted by the real tool.' + PYTRUST)

prop('C32', 'Analyse and fix together give compiling, settled sources',
     'Feeding the analyser\'s report to fix_includes rewrites the sources so that the program still compiles, and a second analysis finds nothing to do and a second fix changes nothing. '
     'The code outside include and forward-declaration lines is the same as before.',
     ['programs', 'histories'],
     'All programs of the enumerated world laid out in real files with guards, comments, namespaces and conditionals; the histories analyse, fix, compile, analyse, fix.',
     'The two tools are tested apart; nothing tests that they understand each other.',
     ['iwyu_output.cc', 'fix_includes.py', 'iwyu.cc'],
     [('report format', 'iwyu_output.cc: PrintableDiffs; fix_includes.py: IWYUOutputParser'), ('application', 'fix_includes.py: FixManyFiles')],
     ['the rewritten files, a compilation, the second report'],
     check='c32_pipeline', technique='explicit-state exploration of the analyse/fix transition system on the real binary and the real script',
     level_note='Every program of the bounded world is followed to its fixpoint.' + TRUST)

# --------------------------------------------------------------------------
# not claimed
# --------------------------------------------------------------------------
prop('C33', 'The analyser never crashes or hangs on any source file',
     'On every C or C++ source the compiler accepts, the analysis ends with a report, without crash, assertion failure or endless loop.',
     ['inputs'], 'All C and C++ programs.',
     'Tests are finite.', ['iwyu.cc', 'iwyu_ast_util.cc'],
     [('visitors', 'iwyu.cc')], ['exit status'],
     na='The input space (all of C and C++) has no bounded, exhaustively enumerable form that would be representative; fuzzing or static analysis would be the right family. The other checks do treat a crash or hang on any enumerated program as a violation of theirs.')

prop('C34', 'The tools behave the same on Windows paths and line endings',
     'Paths with drive letters, backslashes and case differences, and the MSVC driver mode, give the same recommendations as their POSIX counterparts.',
     ['configurations'], 'All path spellings on Windows hosts.',
     'Tests run on POSIX.', ['iwyu_path_util.cc', 'iwyu_port.cc', 'iwyu_tool.py'],
     [('path handling', 'iwyu_path_util.cc: CanonicalizeFilePath')], ['report'],
     na='The behaviour is selected at compile time and by the host operating system; no Windows build or host exists in the sandbox, so no execution of it can be enumerated.')
