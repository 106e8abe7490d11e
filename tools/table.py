T, FI = 'iwyu_tool.py', 'fix_includes.py'
PARTIAL = ' Machine integers are mathematical; partial correctness; library calls named under assumed_contracts in the evidence are trusted.'

prop('P01', 'iwyu_tool exits with the worst status of the analyses it ran',
     'Running the analysis over a set of translation units starts every one of them exactly once, prints the formatted output of each exactly once, and never has more than the requested number of analyses running at the same time. '
     'The exit status of the whole run is the most negative status if any analysis was killed by a signal, and the largest status otherwise (zero when there is nothing to run), whatever order the analyses finish in.',
     ['schedules', 'inputs', 'configurations'], 'every number of analyses, every exit status, every completion order, every job count and load-average limit',
     'The existing tests run a handful of fake invocations; the completion order of a process pool and the mixture of signal and ordinary statuses cannot be enumerated by examples.',
     [T], [('execute', T), ('worst_exit_code', T), ('Process', T)],
     'All paths of both execution modes for any number of processes and any poll schedule.' + PARTIAL)
prop('P02', 'iwyu_tool analyses exactly the selected database entries',
     'Given a compilation database and a selection of files and directories, the entries analysed are exactly those whose file is one of the selected existing paths or lies below one (a sibling that merely shares a name prefix is not below it); without a selection every entry is analysed. '
     'Relative file names in the database are resolved against that entry\'s own directory before anything is compared, symbolic links are resolved on both sides, and the rest of the entry is left as recorded.',
     ['inputs', 'configurations'], 'every compilation database and every selection',
     'Tests use two or three entries on an existing tree; path containment has to be right for every spelling, including sibling directories that share a name prefix.',
     [T], [('slice_compilation_db', T), ('fixup_compilation_db', T), ('is_subpath_of', T)],
     'Filtering and containment for databases of any length; os.path functions are uninterpreted.' + PARTIAL)
prop('P03', 'iwyu_tool runs the analyser with the recorded and the user\'s arguments',
     'Everything after the first double dash on the tool\'s command line is passed, unchanged and in order, to every analysis; each analysis runs in the directory of its database entry with the analyser executable, then (for cl-style drivers only) the cl driver mode, then the user\'s arguments, then the recorded arguments in order without the compiler and without a known compiler wrapper in front of it, and both output streams are captured. '
     'An argument list in the entry takes precedence over a command string, an entry with neither is rejected, one analysis is run per selected entry, and the analyser is looked up in the environment override, next to the tool and on the search path, in that order, with failure to find it or to read the database giving a non-zero status without running anything.',
     ['inputs', 'configurations'], 'every entry, every argument list, every extra-argument list, every command line',
     'Tests check three sample entries; the order and completeness of arguments has to hold for every entry and every mixture of options.',
     [T], [('Invocation.from_compile_command', T), ('Invocation.start', T), ('Process.start', T), ('_bootstrap', T), ('main', T), ('find_include_what_you_use', T)],
     'Argument lists of any length; environment lookups and argparse are uninterpreted.' + PARTIAL)
prop('P04', 'Windows command strings split as the Microsoft runtime splits them',
     'A command string is split into arguments exactly as the Microsoft C runtime documents it: white space separates arguments outside quotes, a double quote toggles quoting, 2n backslashes before a quote are n backslashes and the quote is special, 2n+1 backslashes before a quote are n backslashes and a literal quote, and all other backslashes are literal. No character of the command is lost or invented.',
     ['inputs'], 'every command string',
     'The tests sample a dozen strings; a state machine over every character sequence, with counters, has to be right at every position.',
     [T], [('win_split', T), ('split_command', T)],
     'The character-by-character state machine is proved equal to a step specification for strings of any length.' + PARTIAL)
prop('P05', 'The compiler-style report has exactly one line per finding',
     'In the clang and clang-warning output formats every addition, removal, already-correct file and unrelated line of the analyser output becomes exactly one line, in order, that carries the file named by the section it stands in, the first line number of a removal, and the chosen severity; headings, separators, blank lines and the full include list add nothing. The default format passes the analyser output through unchanged.',
     ['inputs'], 'every analyser output, well-formed or not, of any number of files and findings',
     'Tests format three sample outputs; the section a line belongs to depends on everything before it.',
     [T], [('clang_formatter', T), ('FORMATTERS', T)],
     'Line-by-line proof against a step specification for outputs of any length.' + PARTIAL)
FIX = 'fix_includes.py'
prop('P06', 'fix_includes combines several reports on one file conservatively',
     'When the analyser output mentions one file several times, a line is removed only if every report on that file removes it, an include or declaration is added if any report adds it, and the include lines, forward declarations and include texts any report knows about are all known to the combined report. '
     'A report counts as asking for a change exactly when it adds or removes something.',
     ['inputs', 'histories'], 'every pair of reports on one file, hence every sequence of them',
     'A file is reported once per translation unit that includes it; removing an include that one of those translation units still needs breaks the build, and tests combine only two or three hand-written reports.',
     [FIX], [('IWYUOutputRecord.Merge', FIX), ('IWYUOutputRecord.HasContentfulChanges', FIX), ('OrderedSet', FIX)],
     'Set-level contracts for all contents of the two reports.' + PARTIAL)
prop('P08', 'fix_includes edits exactly the requested files, each independently',
     'Every file the analyser reported changes for is fixed once, provided it is among the files listed on the command line (if any were), does not match the ignore expression and matches the only expression; a file without reported additions or removals is left alone unless comments are to be updated. '
     'Relative names are taken from the base directory. A malformed report, an unreadable or empty file or a report that does not match the file affects only that file, a dry run writes nothing, and the count returned is the number of files whose contents change (or would change). Sorting handles every listed file and neither adds nor removes includes.',
     ['inputs', 'configurations', 'fault sequences'], 'every sequence of reports, every combination of flags, every pattern of unreadable files and malformed reports',
     'Tests replace the file system by a table of two files that always exist; which file fails and in what order is not sampled.',
     [FIX], [('ProcessIWYUOutput', FIX), ('FixManyFiles', FIX), ('SortIncludesInFiles', FIX), ('NormalizeFilePath', FIX)],
     'Loops over any number of records with the outcome of every step left open.' + PARTIAL)
PICK, PICKH, PATHU = 'iwyu_include_picker.cc', 'iwyu_include_picker.h', 'iwyu_path_util.cc'
CXX = ' Containers, strings and streams of the C++ library are modelled mathematically; string helpers named under assumed_contracts are opaque or proved elsewhere; partial correctness.'
prop('P16', 'Suggested headers are public whenever a public alternative exists',
     'After the mappings have been finalised, the headers offered for a symbol are exactly the publicly visible ones recorded for it, in their recorded order, and the headers offered for a file are the publicly visible headers it maps to, in order, with the file itself first if it may be used directly; a private header is offered only if nothing public is known for it, and something is always offered. '
     'Visibility is decided by the include name first and by the path second, and is public if nothing was recorded; a friend of a private header may use that header itself; a mapping for the symbol takes precedence over the file that declares it, and two headers count as mapped exactly when they are the same header or the second is recorded as a replacement of the first.',
     ['inputs', 'configurations'], 'every set of recorded mappings, visibilities and friends, every symbol, file and includer',
     'The few lookups of the picker tests use a dozen fixed mappings; which header is suggested must never be private when a public one is known, for any mapping table.',
     [PICK, PICKH], [('IncludePicker::GetCandidateHeadersForFilepath', PICK), ('IncludePicker::GetPublicValues', PICK), ('IncludePicker::GetVisibility', PICK), ('IncludePicker::GetMappedPublicHeaders', PICK), ('IncludePicker::HasMapping', PICK)],
     'Lookup functions verified on the clang AST of the real source for mapping tables of any size.' + CXX)
prop('P17', 'The include picker records everything it is told, and nothing else',
     'A mapping is recorded after everything already recorded for the same header or symbol, together with the visibilities it states, and nothing recorded earlier is lost, reordered or overwritten; contradictory visibilities are never silently replaced. '
     'Every inclusion seen is recorded with its includer and its spelling; a header below an internal directory is private, maps to the header that includes it and is usable by its siblings, and a private asm header maps to its public counterpart. '
     'Every entry of a built-in table is recorded once and in order, and a mapping file contributes its directives in order up to the first malformed one (nothing if it cannot be read), is looked up in the first directory of the search path that has it, and has its references searched from its own directory as well.',
     ['inputs', 'configurations', 'histories'], 'every sequence of recorded mappings, pragmas, inclusions and mapping files',
     'Tests load a few mapping files and a few pragmas; what is recorded has to be complete, in order and additive for any history, since every later lookup relies on it.',
     [PICK], [('IncludePicker::AddDirectInclude', PICK), ('IncludePicker::AddIncludeMapping', PICK), ('IncludePicker::AddSymbolMapping', PICK), ('IncludePicker::AddMappingsFromFile', PICK), ('IncludePicker::MarkVisibility', PICK)],
     'Recording functions verified for any prior state and mapping files of any length; the YAML parser and the file system are uninterpreted.' + CXX)
prop('P18', 'Recorded mappings are expanded and closed before they are used',
     'Finalising the mappings applies every pattern to every header that was seen (unless that header is itself among the pattern\'s targets): the header maps to the pattern\'s targets, in order and with the captured text substituted, after everything already recorded for it, takes the visibility of the pattern, and gains the friends of every matching friend pattern; headers that were not seen, and everything recorded before, are left alone. '
     'Afterwards a header maps to exactly the headers that can be reached from it through recorded mappings, and a symbol to its recorded headers and everything reachable from them, each once and whether or not the mappings contain cycles.',
     ['inputs', 'configurations', 'histories'], 'every set of mappings, patterns and seen headers, including cyclic ones',
     'The tests contain a few hand-written chains; reachability over an arbitrary (cyclic) relation, and matching of every pattern against every header, cannot be sampled.',
     [PICK], [('IncludePicker::FinalizeAddedIncludes', PICK), ('IncludePicker::ExpandRegexes', PICK), ('MakeMapTransitive', PICK), ('MakeNodeTransitive', PICK), ('ExpandOnce', PICK)],
     'Closure proved for mapping relations of any size and shape; regular expression matching and substitution are uninterpreted; finite-set cardinality facts are axioms.' + CXX)
prop('P10', 'Clean-up deletes only what became empty or is a duplicate',
     'When fix_includes deletes the lines it was told to delete (each with the comments that precede it), it never restores a deleted line and changes nothing but deletion marks. Besides those lines it deletes only complete, balanced #if blocks or namespaces in which nothing but comments and blank lines is left (and no #else of an enclosing conditional), whole duplicate spans in top-level reorder ranges of which an identical copy (comments aside) is kept, '
     'so that no two copies remain, and blank lines directly after a completely deleted range that is also preceded by a kept blank line. No other line is ever deleted.',
     ['inputs'], 'every sequence of lines of every type, every pattern of earlier deletions, every nesting of conditionals and namespaces',
     'The tests sample a few hundred small files; the nesting, comments, else branches and earlier deletions around a line decide what happens to it.',
     [FIX], [(n, FIX) for n in ('_PreviousNondeletedLine', '_NextNondeletedLine', '_LineNumberStartingPrecedingComments', '_DeleteEmptyIfdefs', '_DeleteEmptyNamespaces', '_DeleteDuplicateLines', '_DeleteExtraneousBlankLines', '_DeleteLinesAccordingToIwyu')],
     'Files of any length; depth of nesting is counted with a ghost function over the lines. Well-formed move and reorder spans are assumed at entry (assumptions in the evidence).' + PARTIAL)
