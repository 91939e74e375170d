"""Which harnesses decide which property."""

MC = 'model_checking'
REF = 'The reference engine (harness/ref.h) implements the textbook constructions correctly.'

CHECKS = {
    'P01': dict(
        level=MC, jobs=[dict(harness='p01')],
        technique='enumeration of all construction programs up to a size; product-state exploration of each compiled automaton against a reference DFA',
        note='Every program of up to 4 operations (5 over a reduced set; thorough 5 and 6) is decided for texts of every length by exhausting the product of the real scanner with the reference DFA. Trusts harness/ref.h.',
        assumptions=[REF]),
    'P02': dict(
        level=MC, jobs=[dict(harness='p02')],
        technique='enumeration of all small automata (raw and built) and of transformation sequences; product-state exploration against a reference DFA',
        note='Every construction program of up to 3 operations and every raw automaton of 2 states over {a,b,empty} (3 states over smaller letter sets), in 4 internal representations, under every sequence of up to 2 transformations; languages decided for texts of every length, dead states compared with a graph search.',
        assumptions=[REF]),
    'P03': dict(
        level=MC, jobs=[dict(harness='p03')],
        technique='enumeration of representation-change sequences on all small automata; product-state exploration, determinism readout, state count against the minimal reference DFA, every size limit',
        note='Sequences of up to 3 representation changes (thorough 4) on every construction program of up to 2 operations and on every raw automaton of 2 states, single changes on larger families; size limits 1..N+1.',
        assumptions=[REF]),
    'P04': dict(
        level=MC, jobs=[dict(harness='p04')],
        technique='enumeration of all patterns over token alphabets up to a length; product-state exploration of each compiled pattern against the denotation computed by an independent reference parser',
        note='All token sequences up to length 4 to 6 (thorough 5 to 7) over five alphabets, all repetition counts up to 6, all bracket contents up to 5 characters; each decided for texts of every length. UTF-8 texts are the well-formed ones.',
        assumptions=[REF, 'The reference parser (harness/refre.h) reads the documented syntax correctly.']),
    'P05': dict(
        level=MC, jobs=[dict(harness='p05', weight=3), dict(harness='p05', config='asan', env={'P05_SMALL': '1'}, weight=1)],
        technique='enumeration of all character sequences up to a length as patterns; acceptance compared with a reference parser, lexer reuse explored after every error',
        note='All sequences of 17 pattern characters up to length 5 (thorough 6), further alphabets up to length 6, every code point in 16 contexts; verdicts of accepted patterns by product-state exploration; a smaller enumeration under AddressSanitizer.',
        assumptions=[REF, 'The reference parser (harness/refre.h) reads the documented syntax correctly.']),
    'P06': dict(
        level=MC, jobs=[dict(harness='p06')],
        technique='enumeration of every code point and of all byte sequences up to a length; product-state exploration of patterns and dots against reference encodings',
        note='Every code point encoded, decoded and parsed as a pattern; all byte sequences of up to 3 bytes, all lead/second bytes with boundary continuations for 4 and more, at the end of a readable page.',
        assumptions=[REF]),
    'P07': dict(
        level=MC, jobs=[dict(harness='p07')],
        technique='enumeration of every code point, class, range of boundary characters and feature combination; exhaustive word sets and product-state exploration against reference character sets',
        note='Every code point as hexadecimal escape, under case folding and under glyph folding; classes in all bracket combinations under 16 feature sets. Case mappings newer than the library\'s Unicode table may be known or not.',
        assumptions=[REF, 'harness/casetab.h lists the case mappings correctly.']),
    'P08': dict(
        level=MC, jobs=[dict(harness='p08')],
        technique='enumeration of all small construction programs, raw automata and patterns; product-state exploration of every scanner kind and conversion against one reference DFA',
        note='Every program of up to 3 operations (4 over a reduced set), raw automata of 2 and 3 states and patterns, in ten scanner kinds and their conversions, for texts of every length; half-final scanners on texts ending in one end mark, for languages that are not right-closed only.',
        assumptions=[REF]),
    'P09': dict(
        level=MC, jobs=[dict(harness='p09', weight=3), dict(harness='p09', config='nosimd', weight=1), dict(harness='p09', config='mmx', weight=1), dict(harness='p09', config='rel', weight=1)],
        technique='enumeration of automata with every exit-mask shape and of texts by length, alignment, deviating positions and chunk split; each run compared with single steps, at the ends of readable pages',
        note='All short texts over the letters, all lengths up to 100 at all alignments, all two- and three-way splits, in SSE2, MMX, portable and unchecked builds.',
        assumptions=['Feeding single characters through Step is the definition of a run.']),
    'P10': dict(
        level=MC, jobs=[dict(harness='p10')],
        technique='enumeration of small automata and of all texts up to a length plus longer texts that take every shortcut; search results compared with a scan by the reference DFA',
        note='Every program of up to 3 operations and raw automata, all texts up to length 4 (thorough 6), texts of 14 to 41 characters with up to two deviating letters at several alignments, with and without marks.',
        assumptions=[REF]),
    'P11': dict(
        level=MC, jobs=[dict(harness='p11')],
        technique='enumeration of all ordered tuples of scanners in every nesting and of every size limit; product-state exploration of each glued scanner against the reference DFAs of its parts',
        note='Pairs over 150 pairwise different languages (thorough 400), triples, quadruples and quintuples over smaller pools including default-constructed scanners, in eight scanner kinds; up to 12 parts in four shapes; results beyond 262144 states. The size limit is read as not counting the initial state or counting it: both are accepted.',
        assumptions=[REF]),
    'P12': dict(
        level=MC, jobs=[dict(harness='p12')],
        technique='enumeration of small automata, patterns and gluings; dead flags of all reachable states against liveness in the product with the reference DFA',
        note='Exactness for the multi-pattern and half-final kinds (with every counter mode), soundness for the others; gluings of up to three parts and scanner pairs.',
        assumptions=[REF]),
    'P13': dict(
        level=MC, jobs=[dict(harness='p13')],
        technique='enumeration of all scanners of a pool into all earlier target contents, of all image sequences and of all chains of value operations and reloads; behaviour compared by exhausting the reachable states or all texts up to a length',
        note='Fifteen kinds; up to three images in one stream or block; chains of 3 operations (thorough 5) out of load, map, copy, move, assign, swap, convert; every construction program of up to 2 operations (thorough 4) in eleven kinds; images of the preceding format version. Mapped blocks are read-only and end at an unreadable page. A limit-free counter loaded from an older kind\'s image cannot be saved (documented by its assertion) and is only compared.',
        assumptions=['Behaviour of counting and capturing kinds is compared on all texts up to length 5 (4) over three letters and three long ones.']),
    'P14': dict(
        level=MC, jobs=[dict(harness='p14', weight=3), dict(harness='p14', config='asan', weight=4)],
        technique='fault enumeration: every cut, every value of every header and signature byte, every misalignment, every foreign image and every pair of refusals, on every kind and target',
        note='Fifteen kinds with four to five scanners each, targets that are new, in memory, mapped or glued; cuts and header values exhaustively; mapped memory ends at an unreadable page, and at the end of a heap block under AddressSanitizer. Counting and capturing kinds share one recorded kind, as the library documents; version 6 is a right version.',
        assumptions=[]),
    'P15': dict(
        level=MC, jobs=[dict(harness='p15', weight=3), dict(harness='p15', config='asan', env={'P15_SMALL': '1'}, weight=2)],
        technique='enumeration of all histories of value operations on three variables up to a length, every variable compared with the value it was last given',
        note='Fifteen scanner kinds, 57 operations, histories of 3 operations (thorough 4) with verdicts and images of every variable compared, of 2 with the complete behaviour, also under AddressSanitizer; automata with 85 operations, histories of 2 (reduced set 3; thorough 3), languages decided for texts of every length. What a moved-from object is compared with is what it was seen to be right after the move.',
        assumptions=[REF]),
    'P18': dict(
        level=MC, jobs=[dict(harness='p18')],
        technique='enumeration of all small pattern/separator pairs; exact counters compared over all reachable state pairs, all counters compared with a reference count on all texts up to a length',
        note='All pairs of construction programs of a pool, all texts up to length 6 (thorough 7) over three letters and up to 4 (5) over all letter classes including marks, all chunk splits, reused states. Agreement of the exact kinds is decided for texts of every length. Where several chains of occurrences compete, only the upper bound and being nonzero are claimed.',
        assumptions=[REF]),
    'P19': dict(
        level=MC, jobs=[dict(harness='p19')],
        technique='enumeration of all ordered tuples of counting scanners in every nesting; product-state exploration of each glued scanner against its parts',
        note='All pairs of 25 parts, triples, quadruples and quintuples over smaller pools, up to 24 parts (thorough 40) around the limit of 16, size limits, loaded and mapped parts, in the three counting kinds.',
        assumptions=[]),
    'P20': dict(
        level=MC, jobs=[dict(harness='p20')],
        technique='enumeration of all small automata in every counter mode; product-state exploration against a reference automaton that says what each step adds, all texts up to a length for the greedy mode',
        note='Every construction program of up to 4 operations (thorough 5) and patterns with alternatives of different lengths; all-matches, non-overlapping and no-counter modes for texts of every length; greedy mode on all texts up to length 7 to 9 (thorough 8 to 11); simplified counters are held to bounds only. Pairs and triples of scanners in all modes against their parts, for texts of every length. Without a counter only right-closed languages and languages tied to the end mark are judged.',
        assumptions=[REF]),
    'P16': dict(
        level=MC, jobs=[dict(harness='p16', weight=3), dict(harness='p16', config='asan', env={'P16_LEN': '5', 'P16_T': '4'}, weight=1)],
        technique='enumeration of all patterns with groups up to a length and of all texts up to a length; each run of the capturing scanner compared with the set of threads of the tagged pattern automaton',
        note='All token sequences with groups up to length 7 (thorough 8) over eight tokens and 3500 composed patterns, every group, all texts over three letters up to length 5 and 6, with and without the end mark. Texts with competing spans carry no claim.',
        assumptions=['The thread construction of harness/grp.h reads patterns and groups correctly.']),
    'P17': dict(
        level=MC, jobs=[dict(harness='p17', weight=6), dict(harness='p17', config='asan', env={'P17_SMALL': '1'}, weight=1)],
        technique='enumeration of all patterns with groups up to a length and of all texts up to a length; the span found after every prefix compared with a backtracking matcher',
        note='All token sequences with groups up to length 7 to 9 (thorough 8 to 10) over five token alphabets (alternatives, greedy and non-greedy repetitions, end marks, anchored) and 13728 composed patterns, every group; all texts over three letters up to length 4 to 6 (thorough to 7).',
        assumptions=['The backtracking matcher in harness/p17.cpp is the meaning of priorities.']),
    'P21': dict(
        level=MC, jobs=[dict(harness='p21')],
        technique='enumeration of construction programs, raw automata, words and patterns with distances up to 3; product-state exploration of each scanner against the reference DFA of all words within the distance',
        note='Every program of up to 3 operations (thorough 4 over a reduced set) in its representations, raw automata of 2 and 3 states, all words over two letters up to length 6 (thorough 10) with distances up to 3, patterns of up to 4 (thorough 5) tokens; Scanner and SlowScanner always, all eleven ways to compile on programs of up to 2 operations; for texts of every length.',
        assumptions=[REF]),
    'P23': dict(
        level=MC, jobs=[dict(harness='p23')],
        technique='enumeration of all token sequences up to a length under all option combinations and of all texts up to a length; every answer compared with the reference DFA of the search language',
        note='All patterns of up to 3 tokens under 20 option expressions, up to 5 (thorough 6) tokens around anchors and alternatives; texts over the letter classes of the pattern up to length 6 (as far as a budget of texts per pattern reaches) and longer ones with two deviating letters; object, copy, assigned object and objects made of ready scanners; three patterns beyond what can be determined on all texts of length 17 to 20.',
        assumptions=[REF]),
    'P22': dict(
        level=MC, jobs=[dict(harness='p22', inline_tool=True)],
        technique='enumeration of source files out of literal tokens, flags, lists and layouts; each is compiled by the real tool and the C++ compiler and every embedded scanner is explored in product with its run-time twin',
        note='All literals of up to 2 (thorough 3) of 35 tokens under 8 flag sets, all 64 flag sets in two orders on six patterns, all lists of two and three out of eight patterns and longer ones, layouts at every pair of seven places; all pairs (thorough triples) of 26 source fragments around patterns; 4000 inputs that must be refused.',
        assumptions=['The C++ compiler reads string literals and line directives correctly.', 'Run-time compilation is the other properties\' subject.']),
    'P24': dict(
        level=MC, jobs=[dict(harness='p24', weight=1), dict(harness='p24c', config='sched', mem=0, weight=4)],
        technique='enumeration of all interleavings of two and three runs over a write-protected scanner; stateless exploration of real threads: all orders of their synchronisations up to a preemption bound with data race detection in each',
        note='Every kind, in memory, loaded and mapped: all pairs of step sequences of length 3 (thorough 4) in every interleaving, reports compared after each step. Threads: all pairs out of 16 tasks (parsing with every feature, every kind, gluing, saving, matching), each execution in a pristine process, up to 3 preemptions (thorough 6); 46 pairs of uses of one shared object up to 4 (8); three threads up to 1 (2). Executions without a data race depend on the order of synchronisations only.',
        assumptions=['Calls into libstdc++.so are not watched for races, its inlined parts and templates are.', 'The compiler reports every access of the library (gcc -fsanitize=thread instrumentation).']),
    'P25': dict(
        level=MC, jobs=[dict(harness='p25')],
        technique='enumeration of all construction programs, patterns and gluings up to a size in every one of five process environments (address order, memory contents, history); saved images compared byte by byte',
        note='Every program of up to 3 operations (thorough 4), patterns up to 3 tokens (5) and, under all 16 feature sets, up to 2 (3), all triples of 8 patterns glued in two orders, distances 1 and 2, all ways to make half-final counters; every scanner kind, its copies, and dumps of the transformed automata. The allocator hands out memory at rising or falling addresses, filled with five different bytes, as is the stack.',
        assumptions=['Contents of memory and order of addresses are represented by five environments.']),
    'P26': dict(
        level=MC, jobs=[dict(harness='p26')],
        technique='enumeration of all histories of low-level edits up to a length in lock step with a labelled graph; queries and dump compared after every edit, compiled scanners explored in product with the graph language',
        note='All histories of 2 edits out of about 130 on eight starting automata (up to 5 states, letters a, b, begin mark, empty; packed and unpacked, canonical, imported), of 3 edits (thorough 4) out of the edits that change languages, of 3 edits for queries; scanners of the automaton and of eight combinations of it, exact; dumps of all programs up to 2 operations (3) in six representations and of sets of letters.',
        assumptions=['Transitions for letters are only added to or removed from unpacked automata, and the determined hint is reset by hand after an edit, as the low-level interface asks for.']),
}
