import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Automaton-building operations compute the language they are named for",
"An automaton built by any nesting of appending bytes, strings, string alternatives, any-byte or a text mark, and of alternation, concatenation, conjunction, complement, iteration, n-fold repetition and padding with anything on either side, accepts exactly the texts that the corresponding operations on formal languages define. Building a new automaton from existing ones leaves the operands accepting what they accepted before, also when both operands are the same object.",
["programs","inputs"],"every construction program (operation tree) and every text of any length over all byte values with the begin/end marks",
"Tests try about a hundred hand-picked patterns on a handful of strings; they cannot cover all nestings (double complement, iteration of an automaton accepting the empty text, conjunction of starred operands, ...) nor all texts.",
["pire/fsm.h","pire/fsm.cpp","pire/determine.h","pire/minimize.h"],
[("single-final-state invariant and epsilon glue of the construction operators","pire/fsm.cpp: Fsm::operator+=, operator|=, operator&=, Iterate, Complement, operator*, Append*"),("Import of the transition table with shifted state numbers","pire/fsm.cpp: Fsm::Import"),("isAlternative fast path of alternation","pire/fsm.cpp: Fsm::operator|=")],
["Final()/AcceptedRegexps() of a compiled scanner after each prefix of a text"],
[("Fsm","states, transitions, final set, letter classes, determined and alternative hints","pire/fsm.h")])

p("P02","Prefix, suffix, reversal and dead-end analysis are exact on every automaton",
"For every automaton, turning it into its prefix closure, suffix closure or mirror image makes it accept exactly the prefixes, the suffixes, or the reversed texts of the original language. The states reported as dead are exactly those that lie on no path from the start to acceptance, and removing dead ends never changes the accepted language.",
["programs","inputs"],"every automaton obtainable from the construction operations (including empty-language, epsilon-language and already-determinized ones) and every text",
"Tests reverse two or three automata and check a few strings; they never apply these transformations to arbitrary automata or compare whole languages.",
["pire/fsm.h","pire/fsm.cpp","pire/run.h"],
[("reversal by transposing transitions","pire/fsm.cpp: Fsm::Reverse"),("MakePrefix/MakeSuffix","pire/fsm.cpp"),("DeadStates/RemoveDeadEnds graph search","pire/fsm.cpp")],
["language of the transformed automaton compiled into a scanner","the returned set of dead states"])

p("P03","Canonicalization preserves the language and yields the minimal automaton",
"Removing empty transitions, determinizing, minimizing, removing dead ends and packing or unpacking letter classes leave the set of accepted texts unchanged on every automaton, whatever their order. After canonicalization the automaton is deterministic and has the least possible number of states; determinization by itself gives every text the union of the tags of all states the original could be in, as long as the text has not led into an accepting state that absorbs all input. When the requested size limit is exceeded determinization reports failure and the automaton still accepts the same texts.",
["programs","inputs","configurations"],"every automaton (with tags and outputs), every sequence of these transformations, every size limit and every text",
"Tests observe only final verdicts for sample strings; minimality, determinism, tag and output merging and behaviour at the exact size limit are never checked.",
["pire/fsm.cpp","pire/fsm.h","pire/determine.h","pire/minimize.h","pire/partition.h"],
[("subset construction with output/tag merging","pire/determine.h, pire/fsm.cpp: Impl::FsmDetermineTask"),("Hopcroft minimization","pire/minimize.h"),("epsilon elimination","pire/fsm.cpp: Fsm::RemoveEpsilons"),("letter equivalence classes","pire/partition.h, Fsm::Sparse/Unsparse")],
["automaton size, tags, outputs, finals and transitions after the transformation","scanner verdicts"])

p("P04","A parsed pattern matches exactly the texts its documented syntax denotes",
"For every syntactically valid pattern the automaton produced by the parser accepts exactly the texts denoted by the documented grammar: alternation binds weaker than concatenation, which binds weaker than the repetition suffixes *, +, ?, {n}, {n,} and {n,m}; parentheses group; a dot is any character (in UTF-8 mode texts are well-formed UTF-8); bracket classes with ranges and negation, escapes, ^ and $ have their usual meaning. With the conjunction and complement extension on, & and ~ denote intersection and complement with their documented precedence.",
["programs","inputs"],"every pattern of the grammar up to a size bound, with every feature setting, and every text of any length",
"Tests sample some dozens of patterns and a few strings for each; precedence and repetition-count interactions, nested classes and marks inside groups form a product space that only enumeration reaches.",
["pire/re_parser.y","pire/re_lexer.cpp","pire/re_lexer.h","pire/classes.cpp","README.ru"],
[("grammar","pire/re_parser.y"),("tokenizer with feature priorities","pire/re_lexer.cpp: Lexer::Lex"),("AppendRange / multi-character terms","pire/re_parser.y")],
["verdict of a scanner compiled from the parsed pattern"])

p("P05","Malformed patterns are rejected with an error, and parsing always terminates",
"Every sequence of pattern characters either parses or makes the parser throw the library's error: it never crashes, hangs, silently drops part of the pattern, or yields an automaton for a pattern the grammar does not contain (parentheses nested beyond the parser's stack may be refused). A parse error leaves nothing behind: parsing a valid pattern afterwards gives the same result as before.",
["inputs","histories"],"every string over the syntax-significant characters up to a length bound, in every feature and encoding configuration, and every sequence of such parses",
"Tests list about a dozen malformed patterns; unbalanced, truncated and out-of-range constructs are an unbounded family.",
["pire/re_lexer.cpp","pire/re_parser.y","pire/read_unicode.cpp","pire/classes.cpp"],
[("error token and exception translation","pire/re_lexer.cpp: Lexer::Parse, pire/re_parser.y: yylex/yyerror"),("repetition and hex-code readers","pire/re_lexer.cpp: RepetitionCount, pire/read_unicode.cpp")],
["Lexer::Parse returning or throwing"])

p("P06","Encodings map characters to bytes exactly as UTF-8 and Latin-1 define",
"For every Unicode code point the UTF-8 encoding produces its standard byte sequence and decodes it back, invalid or truncated byte sequences are rejected with an error, and a character in a pattern matches exactly that byte sequence in the text. A dot matches exactly one encoded character in UTF-8 mode and exactly one byte in Latin-1 mode, and a pattern character in Latin-1 mode (ASCII only) never matches anything but its own byte.",
["inputs","configurations"],"all code points 0..0x10FFFF, all byte strings up to the maximal encoded length by lead/continuation class, both encodings",
"Tests use a few Cyrillic and ASCII characters.",
["pire/encoding.h","pire/encoding.cpp","pire/stub/utf8.h","pire/stub/utf8.cpp"],
[("Encoding::ToLocal/FromLocal/AppendDot","pire/encoding.cpp"),("UTF-8 codec","pire/stub/utf8.h, pire/stub/utf8.cpp")],
["ToLocal/FromLocal results","verdict of scanners for single-character patterns and dot"])

p("P07","Character classes, case folding, hex escapes and glyph folding denote exact sets",
"Each predefined class (\\w \\d \\s \\l \\c and its negation), each hexadecimal escape and each bracket range matches exactly the characters it names. With case-insensitivity on, a character matches exactly itself and its case counterparts known to the library's Unicode tables (also inside ranges and classes), and with glyph folding on exactly the glyphs declared similar; turning a feature on never changes the verdict for patterns whose characters it does not concern.",
["inputs","configurations"],"every code point of the scripts covered, every class, every hex escape form, every feature subset, and every single-character text",
"Tests check one or two letters per class and feature.",
["pire/classes.cpp","pire/read_unicode.cpp","pire/re_lexer.cpp","pire/extra/glyphs.cpp","pire/stub/unidata_h.h"],
[("class tables","pire/classes.cpp"),("case folding feature","pire/re_lexer.cpp: Impl::CaseInsensitiveImpl"),("glyph classes","pire/extra/glyphs.cpp"),("hex reader","pire/read_unicode.cpp")],
["the set of single characters accepted by the compiled pattern"])

p("P08","All scanner kinds compiled from one automaton agree on every text",
"The fast, relocatable, mask-free, simple, nondeterministic (slow) and half-final scanners compiled from the same automaton agree on every text about acceptance, list the same accepted patterns, and copies converted between relocatable and non-relocatable kinds do too. (Half-final scanners are judged on texts that end with one end mark, for automata whose language is either closed under putting anything before and behind it or not closed under putting anything behind it.) A default-constructed or empty scanner accepts nothing that its automaton would not accept and never crashes.",
["programs","inputs","configurations"],"every automaton up to a size bound, every scanner kind and conversion between kinds, every text of any length",
"Tests compare kinds on a few strings per pattern only.",
["pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/half_final.h","pire/fsm.h"],
[("BuildScanner and letter table","pire/fsm.h: BuildScanner, pire/scanners/multi.h: Init/SetJump/FinishBuild"),("relocation policies","pire/scanners/multi.h: Relocatable/Nonrelocatable"),("slow scanner state sets","pire/scanners/slow.h: NextTranslated")],
["Final, AcceptedRegexps, Dead after each prefix"])

p("P09","Scanning a text gives the same state however the text is aligned or split",
"Running a scanner over a text leaves it in the same state as feeding the bytes one at a time, for every length, every start alignment of the buffer, every split into consecutive chunks and with any of the vectorised, shortcut or mask-free code paths. It reads no memory page that holds no byte of the text, and running a pair of scanners at once equals running each on its own.",
["inputs","configurations"],"every buffer alignment and length around the machine-word boundaries, every split into chunks, every text over an alphabet that enters and leaves the shortcut states",
"Tests run on string literals at arbitrary alignment; bugs in head/tail handling or in shortcut masks show only for specific alignment x length x byte-position combinations.",
["pire/run.h","pire/align.h","pire/platform.h","pire/scanners/multi.h","pire/scanners/pair.h"],
[("aligned word runner with head and tail masks","pire/run.h: Impl::RunChunk/RunSkipped, pire/scanners/multi.h: Impl::AlignedRunner"),("ExitMasks shortcuts","pire/scanners/multi.h"),("ScannerPair","pire/scanners/pair.h")],
["state after Run() versus after single Step()s"])

p("P10","Prefix and suffix searches return the true longest and shortest match ends",
"For every automaton and text, the longest-prefix search returns the end of the longest accepted prefix, the shortest-prefix search the end of the shortest accepted one, and the suffix searches the corresponding starts on the reversed automaton, or nothing exactly when no prefix or suffix is accepted. The optional mark-aware variants treat begin and end marks as if stepped at the respective end of the text, and the counted position never depends on early-stop optimisations.",
["programs","inputs"],"every automaton up to a size bound, every text up to a length bound, every mark option and scanner kind",
"Tests check a handful of texts with two scanners.",
["pire/run.h"],
[("prefix/suffix predicates stopping on dead states","pire/run.h: Impl::LongestPrefixPred, ShortestPrefixPred, LongestSuffix, ShortestSuffix")],
["returned pointer"])

p("P11","A glued scanner reports exactly the patterns its parts would accept",
"A scanner glued from any number of scanners accepts a text exactly when some part does, and lists exactly the accepted patterns of its parts, those of later parts renumbered after those of earlier ones, for every gluing order and nesting and including empty parts. If the result would exceed the size limit (counted with or without the initial state) gluing returns an empty scanner and never a wrong one.",
["programs","inputs","configurations"],"every small collection of patterns, every binary gluing tree and order, every size limit around the real size, every text",
"Tests glue a few fixed pattern lists in one order.",
["pire/glue.h","pire/scanners/multi.h","pire/determine.h"],
[("product construction with action merging","pire/glue.h: Impl::ScannerGlueCommon, pire/scanners/multi.h: ScannerGlueTask"),("size limit","pire/glue.h")],
["AcceptedRegexps, Final, RegexpsCount, Empty"])

p("P12","A scanner calls a state dead exactly when no continuation can be accepted",
"In every state reached by any text, a scanner of a kind that tracks dead states (the multi-pattern and half-final kinds and pairs of them) reports the state as dead if and only if no continuation of the text, including text marks, can lead to acceptance; for glued scanners this holds for the union of the parts. The other kinds never report a state as dead from which acceptance is possible. Hence stopping early on a dead state never changes a verdict.",
["programs","inputs"],"every automaton up to a size bound, every text, every scanner kind with dead-state support, glued or not",
"Tests check the flag on two or three patterns.",
["pire/fsm.cpp","pire/fsm.h","pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h"],
[("dead flag computed at build time","pire/fsm.h: BuildScanner, pire/fsm.cpp: Fsm::DeadStates")],
["Dead() in every reachable state"])

p("P13","Saved scanners reload or map back into scanners that behave identically",
"For every scanner of every serializable kind, empty ones included, saving and then loading from a stream, or mapping from a memory block whose address is aligned to the machine word, yields a scanner that behaves identically on every text and can be saved again to the same bytes. Several scanners stored one after another (for mapping: at aligned addresses) are each restored in turn: loading consumes and mapping reports exactly the bytes the scanner occupies, and the target's earlier contents have no influence.",
["programs","histories","inputs"],"every scanner kind and automaton up to a size bound, every sequence of stored scanners, every previous content of the target, every text",
"Tests save and load single patterns into fresh objects and probe a few strings.",
["pire/scanner_io.cpp","pire/scanners/common.h","pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/loaded.h","pire/extra/capture.h","pire/extra/count.h","pire/align.h"],
[("header, locals and aligned buffer I/O","pire/scanner_io.cpp, pire/scanners/common.h, pire/align.h"),("Mmap pointer advance","pire/scanners/*.h: Mmap")],
["bytes written","behaviour of the restored scanner","stream position / returned pointer"])

p("P14","Damaged, truncated or foreign scanner images are refused without side effects",
"Loading or mapping an image that is truncated at any byte, carries a wrong signature, version, word size, scanner kind (as recorded in the header; the counting and capturing kinds share one format) or header size, or lies at a misaligned address ends with the library's error and never with a crash or an out-of-bounds access. The target scanner keeps what it held before, so it still gives the same verdicts.",
["fault_sequences","crash_points","inputs"],"every truncation length of every image kind, every single header-field corruption, every misalignment, every target content",
"Tests check misalignment and one or two wrong headers.",
["pire/scanners/common.h","pire/scanner_io.cpp","pire/align.h","pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/loaded.h","pire/extra/count.h","pire/stub/memstreams.h"],
[("Header::Validate and ValidateHeader","pire/scanners/common.h"),("size checks while mapping","pire/align.h: Impl::AlignPtr/AdvancePtr/MapPtr, pire/scanners/common.h"),("build into a temporary then swap","Load/Mmap of each scanner")],
["exception thrown","verdicts of the target afterwards"])

p("P15","Scanners and automata are values: copy, move, assign and swap never alias",
"After any sequence of copy, move, assignment, self-assignment, swap, conversion and destruction on scanners and automata, every live object behaves as the value it was last given, independently of what happens to the others. Moved-from and default-constructed objects can be destroyed, assigned and queried safely.",
["histories"],"every sequence of value operations up to a depth bound on a small set of variables, for every scanner kind",
"Tests copy objects incidentally; no test drives histories of several objects.",
["pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/loaded.h","pire/scanners/half_final.h","pire/extra/count.h","pire/fsm.cpp"],
[("buffer ownership and pointer relocation","pire/scanners/multi.h: DeepCopy/Alias/Swap/Markup"),("Fsm::Swap","pire/fsm.cpp")],
["verdicts of every live object after every operation","memory errors"])

p("P16","The capturing scanner returns the span of the requested group",
"A capturing scanner compiled for one group of a pattern (searching anywhere in the text, with both text marks fed) reports a match exactly when the pattern occurs in the text. Where the first place at which the group can end has one possible begin, the group is not empty, is not begun again before that end and no match that bypasses the group came first, the scanner reports exactly that span, and nothing that follows changes it. In a text where the group cannot end, and no match bypasses a group begun meanwhile, it reports no capture. Reading the text in pieces or at once gives the same. Texts in which several spans compete carry no claim about the span.",
["programs","inputs"],"every pattern with groups up to a size bound, every group of it, and every text up to a length bound",
"Tests check four patterns on ten strings.",
["pire/extra/capture.h","pire/extra/capture.cpp","pire/re_lexer.cpp"],
[("begin/end capture actions on transitions","pire/extra/capture.h: CapturingScanner::TakeAction, pire/extra/capture.cpp: CaptureImpl")],
["Captured(), Begin(), End() of the state"])

p("P17","The slow capturing scanner honours greediness and alternative order",
"With a pattern in which no repetition repeats something that matches the empty text, the slow capturing scanner (over the surrounded automaton) captures exactly when the pattern matches through the requested group, and reports the span a backtracking matcher would choose: leftmost start first, alternatives in the order written, repetitions greedy or non-greedy as written, the first pass through a repeated group. Beginning and end marks have no width. With other patterns nothing is captured unless the pattern matches. The result depends on the text and the pattern only, not on how the text was split or on copies of the scanner.",
["programs","inputs"],"every pattern with groups, alternatives and greedy or non-greedy repetitions up to a size bound, every text up to a length bound",
"Tests check five patterns with one string each.",
["pire/extra/capture.h","pire/extra/capture.cpp","pire/re_parser.y","pire/re_lexer.cpp"],
[("ordered state list with priorities","pire/extra/capture.h: SlowCapturingScanner"),("non-greedy marks","pire/extra/capture.cpp")],
["GetCapture() result"])

p("P18","Counting scanners count the separated occurrences their definition prescribes",
"The exact counting scanners (advanced and limit-free) agree with each other on every text. For a pattern that does not match the empty text, no counting scanner ever reports more than the largest number of non-overlapping occurrences of the pattern joined into one chain by texts of the separator, and the exact ones report something exactly when the pattern occurs; where the occurrences form only one chain they report at least the number of occurrences obtained by taking each one as long as possible. The count never depends on how the text was split into chunks, and a state can be reused for several texts.",
["programs","inputs"],"every pair of a pattern that does not match the empty text and a separator, up to a size bound, every text up to a length bound; no lower bound on the count where several chains compete",
"Tests check a dozen pairs on one string each.",
["pire/extra/count.h","pire/extra/count.cpp"],
[("increment/reset actions on transitions","pire/extra/count.h: PerformIncrement/PerformReset"),("counting automaton construction","pire/extra/count.cpp: Impl::CountingFsm, CountingScanner ctor")],
["State::Result(i)"])

p("P19","Glued counting scanners count each part as if it ran alone",
"In a scanner glued from counting scanners every part's counter equals the count that part alone would give on the same text, in part order, for every gluing order and number of parts up to the documented limit. Beyond the limit gluing returns an empty scanner, and the limit-free kind has no such limit.",
["programs","inputs","configurations"],"every small set of pattern/separator pairs, gluing trees, up to more than the limit of parts, and every text up to a length bound",
"Tests glue at most five distinct pairs.",
["pire/extra/count.h","pire/extra/count.cpp","pire/glue.h"],
[("action merging during gluing","pire/extra/count.cpp: CountingScannerGlueTask, NoGlueLimitCountingScannerGlueTask"),("MAX_RE_COUNT limit","pire/extra/count.h")],
["State::Result(i), Empty(), RegexpsCount()"])

p("P20","Half-final counters count occurrences exactly as their mode defines",
"A half-final scanner reports, per pattern, the number its mode defines. The not simplified all-matches counter reports the number of text positions at which a match ends. The counters without intersections report the number of matches found by always taking the match that ends first and starting over behind it. The not simplified greedy counter reports, at the end mark, the number of leftmost longest non-overlapping matches, as long as no more than ten matches are pending. The simplified greedy and all-matches counters never report more than these and report something whenever there is a match. Without a counter, for a language that stays matched when the text goes on, it reports the number of positions at which a shortest match ends. Glued half-final scanners report for each part what that part reports alone.",
["programs","inputs","configurations"],"every pattern up to a size bound (not accepting the empty text where matches are to be non-overlapping), every counter mode, every text up to a length bound, every gluing of two or more parts",
"Tests use ten pattern/text pairs.",
["pire/half_final_fsm.h","pire/half_final_fsm.cpp","pire/scanners/half_final.h"],
[("counter automaton construction","pire/half_final_fsm.cpp"),("result accounting on each step","pire/scanners/half_final.h: TakeAction/Next")],
["State::Result(i)"])

p("P21","Approximate matching accepts exactly the texts within the edit distance",
"Compiling a pattern with distance k yields, for every scanner kind that takes a distance, a scanner that accepts exactly the texts obtainable from an accepted text by at most k edits, each of which inserts, deletes or replaces a character or swaps two adjacent characters (which are then left alone). Begin and end marks count as characters of the text. How the automaton was represented does not matter. Distance zero is ordinary matching, and a larger distance never rejects what a smaller one accepts.",
["programs","inputs","configurations"],"every automaton up to a size bound, every distance up to a bound, every text of any length",
"Tests try single edits of a few words.",
["pire/approx_matching.h","pire/approx_matching.cpp","pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h"],
[("layered edit automaton","pire/approx_matching.cpp: CreateApproxFsm, FsmCopy")],
["verdict of scanners compiled with a distance"])

p("P22","Patterns compiled at build time behave as the same patterns compiled at run time",
"A source file processed by the build-time pattern compiler yields, for each embedded list of patterns and flags, a scanner that gives the same verdict and pattern numbers on every text as compiling those patterns, as a C++ compiler reads their literals (escapes \\\\ \\\" \\' \\n \\t, octal and hexadecimal), with the same options at run time. All other parts of the source, comments, strings and character literals included, are passed through unchanged and keep their line numbers. Invalid patterns, flags or argument lists make the tool fail with a message instead of producing output that differs.",
["programs","inputs"],"every combination of supported flags, lists of one to several patterns from a pattern grammar, and every text of any length",
"One test file embeds five patterns.",
["pire/inline.lpp"],
[("source scanner and generated initializer","pire/inline.lpp"),("Load from memory in the generated code","pire/inline.lpp, pire/scanners")],
["verdicts of generated scanner", "tool exit status and output text"])

p("P23","The convenience matcher finds a text exactly if a part of it is in the language",
"The convenience pattern object, constructed from any pattern and any combination of its options in any order, matches a text exactly if some part of the text belongs to the pattern's language, with ^ and $ tied to the text's ends; in UTF-8 this is claimed for well-formed texts. The answer is the same whichever internal engine it falls back to, whichever form of question is used, and for every copy of the object.",
["programs","inputs","configurations"],"every pattern up to a size bound, every option set, every text up to a length bound",
"Tests check a few literals.",
["pire/easy.h","pire/easy.cpp"],
[("option parsing and fallback to the nondeterministic engine","pire/easy.h: Options, Regexp::Init/Matches")],
["operator results"])

p("P24","One scanner can be shared by interleaved and concurrent runs",
"Any number of runs over one scanner, interleaved in any order or executing concurrently, each give the result they would give alone, because running never modifies the scanner. Building, parsing and compiling patterns in several threads at once gives each thread what it would get alone.",
["schedules"],"every interleaving of the steps of several runs over a shared scanner of every kind",
"Tests are single threaded and finish one run before starting the next.",
["pire/run.h","pire/scanners/multi.h","pire/scanners/slow.h","pire/extra/count.h","pire/extra/capture.h","pire/classes.cpp","pire/stub/singleton.h"],
[("constant scanners, per-run state objects","pire/scanners/*.h: Next const"),("immutable shared tables","pire/classes.cpp, pire/extra/glyphs.cpp, pire/stub/singleton.h")],
["state of every run; byte image of the scanner"])
p("P25","Building is reproducible: equal constructions give equal saved bytes",
"Carrying out the same construction again (parsing a pattern with the same options, combining and transforming automata, compiling, gluing, copying and saving a scanner of any kind) gives the same automaton, state for state, and a saved image that is the same byte for byte. Neither what the process did before, failed parses included, nor the earlier contents or the addresses of the memory it gets have any influence.",
["programs","histories","configurations"],"every construction up to a size, in every one of several memory layouts, memory contents and histories",
"Tests build each scanner once and never compare saved bytes of two builds; stale memory is mostly zero in a fresh process.",
["pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/loaded.h","pire/fsm.cpp","pire/determine.h","pire/partition.h"],
[("buffers are cleared before they are filled in","pire/scanners/multi.h: Init, DeepCopy; pire/scanners/loaded.h: Init; pire/scanners/slow.h: alloc"),("states are numbered in order of discovery","pire/determine.h: Determine")],
["saved image of every scanner kind; dump of the automaton"])
p("P26","Hand-edited automata are the labelled graphs they were edited into",
"After any history of low-level edits of an automaton (adding states; connecting, disconnecting and diverting transitions; choosing initial and final states; setting tags and outputs; importing another automaton; packing and unpacking letters, copying, swapping) its queries report exactly the states, transitions, final states, tags and outputs that the edits describe, scanners compiled from it or from combinations of it accept exactly the graph's language, and its dump shows the same graph. Copies that are edited leave the original alone. Letters are only edited while unpacked.",
["programs","histories"],"every history of edits up to a length, from several automata, then every text",
"Tests only build automata through patterns and high-level operations; queries and the dump are not tested, and neither are edits after such operations.",
["pire/fsm.h","pire/fsm.cpp","pire/partition.h"],
[("edits act on one state's row and forget hints","pire/fsm.cpp: Connect, Disconnect, Divert, ConnectFinal, Import"),("letter classes only count while packed","pire/fsm.cpp: Translate, Sparse, Unsparse, DumpState")],
["queries of the automaton; text of the dump; verdict of compiled scanners"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
