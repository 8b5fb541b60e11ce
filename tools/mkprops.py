#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("R01", "Rows form the permutation group, whatever the stage",
 "For all rows of any stages, multiplication is composition of permutations (with the shorter row extended by bells in their home places), division and the inverse undo it, powers are repeated products, and conjugation, order, parity, cycle structure, rounds/plain-bob-lead-head/cyclic tests and the special rows (rounds, queens, kings, tittums, reverse rounds, cyclic, plain bob lead heads) all agree with the permutation the row denotes. Printing a row and reading it back gives the same row, text that is not a permutation of an initial run of bells is refused, and comparison is a total order equal only on equal rows.",
 ["inputs"], "every pair of rows of every stage, every exponent and every text",
 "row.cpp tests sample a couple of dozen fixed rows; the laws quantify over all pairs of rows, mixed stages and large exponents",
 ["ringing/row.h", "ringing/row.cpp", "ringing/bell.cpp"],
 [("composition/division/inverse", "ringing/row.h operator*, operator/, inverse"),
  ("power, order, cycles, sign", "ringing/row.cpp"), ("text parsing and validation", "ringing/row.cpp row::row(string), validate")],
 ["row operators, row stream I/O"])

prop("C01", "Changes are adjacent-swap involutions with canonical notation",
 "A change read from place notation swaps exactly the adjacent pairs not held by a place (implicit lead and lie places included), printing it and reading it back gives the same change, and text that does not describe a change on that stage is refused. Applying a change to a row or following a bell through it moves exactly the swapped bells, applying it twice restores the row, and its parity, place tests, internal-place test, reversal and row equivalent agree with the places it makes. Editing a change by toggling a swap keeps it a legal change containing that swap exactly when it did not before.",
 ["inputs", "histories"], "every change on every stage, every spelling of it, and every sequence of swap edits",
 "change.cpp tests use a handful of stages up to 12 and one edit at a time",
 ["ringing/change.h", "ringing/change.cpp", "ringing/row.h"],
 [("notation parser", "ringing/change.cpp change::init"), ("swap editing", "ringing/change.cpp swappair"),
  ("place queries", "ringing/change.cpp findplace, internal, places, sign")],
 ["change constructors, print, swappair, row*change, bell*change"])

prop("N01", "Place notation expands to the block it denotes, or is refused",
 "A place-notation block expands to exactly the changes it denotes: crosses and dotted changes in order, a leading ampersand makes its segment be followed by all but its last change in reverse, a plus marks a plain segment, a comma ends a segment, and the changes may be written with implicit lead and lie places. Malformed blocks are refused with an error and never expand to some other block.",
 ["inputs", "programs"], "every place-notation string on every stage",
 "method tests cover a few dozen well-formed strings; the grammar is unbounded and malformed text is barely sampled",
 ["ringing/place_notation.h", "ringing/place_notation.cpp", "ringing/method.cpp"],
 [("block interpreter", "ringing/place_notation.h interpret_pn"), ("method text constructor", "ringing/method.cpp")],
 ["method(string, bells), interpret_pn"])

prop("M01", "Every compressed spelling of a method denotes the same method",
 "For every method and every choice of formatting style (dots, external places, cross symbol, symmetry marks, full symmetry, leading plus), the text produced reads back as exactly the same sequence of changes. Requesting symmetry splits never changes, drops or duplicates a change, whether the block is palindromic, a shifted palindrome or asymmetric.",
 ["inputs"], "every sequence of changes on every stage and every combination of formatting options",
 "method tests format a few standard methods; the symmetry search depends on the whole block",
 ["ringing/method.h", "ringing/method.cpp"],
 [("compressor", "ringing/method.cpp method::format, symmetry point search")],
 ["method::format followed by method(string, bells)"])

prop("M02", "A method is described by what its changes actually do",
 "The lead head, number of leads in the course, hunt bells, plain/little/double/palindromic properties, longest run of blows, class and class name, lead-head code and full name reported for a method all follow from its sequence of changes by their published definitions. In particular a name never claims a class the treble's path and lead head do not have, and a lead-head code is reported only for a method with that lead head and that lead-end change.",
 ["inputs"], "every non-empty sequence of changes on every stage",
 "tests classify a few dozen well-known methods; boundary methods (differentials, alliances, hybrids, jump of stage) are unsampled",
 ["ringing/method.h", "ringing/method.cpp"],
 [("classification", "ringing/method.cpp methclass, isplain, hasdodges, hasplaces"), ("lead-head codes", "ringing/method.cpp lhcode"),
  ("symmetry tests", "ringing/method.cpp issym, isdouble, symmetry_point"), ("names", "ringing/method.cpp fullname, classname, stagename")],
 ["method query functions"])

prop("E01", "Extents list every row exactly once and ranks invert them",
 "Iterating an extent (all rows, or all in-course rows, of a set of working bells with given hunt bells and fixed tenors) yields each row of that set exactly once starting from rounds and no others, the nth row and the position of a row are inverse to one another on that ordering, and random rows are always members of the set. Iterating the changes on a stage yields every possible change on that stage exactly once.",
 ["inputs", "configurations"], "every stage and every split into hunts, working bells and tenors",
 "extent tests count a few small stages only",
 ["ringing/extent.h", "ringing/extent.cpp"],
 [("lexicographic enumeration", "ringing/extent.cpp extent_iterator"), ("parity-filtered enumeration", "ringing/extent.cpp incourse_extent_iterator"),
  ("rank and unrank", "ringing/extent.cpp nth_row_of_extent, position_in_extent"), ("changes", "ringing/extent.cpp changes_iterator")],
 ["extent_iterator, incourse_extent_iterator, changes_iterator, nth_row_of_extent, position_in_extent"])

prop("G01", "Groups are closed, their cosets partition, and subgroups are right",
 "The group generated by any rows contains exactly the products of those rows, once each in order, and comparison, conjugation, even subgroup, direct product, the named groups and invariant bells agree with that set. Left and right coset labels are the least member of the row's coset, so two rows have equal labels exactly when they lie in the same coset.",
 ["inputs"], "every finite set of generating rows on every stage, and every row",
 "no test touches groups",
 ["ringing/group.h", "ringing/group.cpp"],
 [("closure", "ringing/group.cpp generate"), ("cosets", "ringing/group.cpp lcoset_label, rcoset_label")],
 ["group constructors, iteration and queries"])

prop("V01", "Truth is counted exactly through any history of adds and removals",
 "After any sequence of adding and removing rows, a prover set to allow N extents calls the touch true exactly if no row is currently recorded more than N times, and reports the number of rows, distinct rows, duplicates and the false rows with the places they occurred exactly. A branched prover starts with the history of its parent, judges rows against both, and never disturbs the parent's counts or verdict.",
 ["histories"], "every sequence of add, remove, branch and disable operations over any rows and any number of extents",
 "no unit test exercises removal, branching or multi-extent proofs",
 ["ringing/proof.h", "ringing/proof.cpp"],
 [("multiset bookkeeping", "ringing/proof.cpp prover::add_row, remove_row"), ("failure report", "ringing/proof.cpp failinfo"),
  ("branch chain", "ringing/proof.cpp create_branch, count_row")],
 ["prover API"],
 [("rows counted", "multiset of rows with the index of each addition", "prover::m"), ("truth flag", "false once a row exceeds the extents", "prover::falsec")])

prop("F01", "Falseness tables list exactly the lead heads false against a lead",
 "For every method the falseness table lists exactly the rows that, used as a lead head, make a lead share a row with the plain lead (restricted to those fixing the treble or in course when asked), and the false courses derived from it are exactly the course heads containing a lead false against the plain course. The falseness groups named for a method are exactly those whose members are false.",
 ["inputs", "configurations"], "every method of every stage and every combination of table options",
 "no test touches falseness except through a few hand-picked method searches",
 ["ringing/falseness.h", "ringing/falseness.cpp", "ringing/falseness.dat"],
 [("table", "ringing/falseness.cpp falseness_table::init"), ("courses", "ringing/falseness.cpp false_courses")],
 ["falseness_table, false_courses"])

prop("U01", "Multiplication tables agree with row multiplication",
 "A precomputed multiplication table over any set of rows closed under the multiplications it is given, and modulo any group of part ends, maps an entry times a registered row to the entry of the true product, for pre- and post-multiplication alike. Looking a row up and reading it back gives a row equivalent to it under the part-end group, and two rows share an entry exactly if they are equivalent.",
 ["inputs", "histories"], "every stage, part-end group and sequence of registered multipliers",
 "no test touches the multiplication tables",
 ["ringing/multtab.h", "ringing/multtab.cpp"],
 [("columns", "ringing/multtab.cpp compute_pre_mult, compute_post_mult"), ("lookup modulo part ends", "ringing/multtab.cpp find")],
 ["multtab API"])

prop("S01", "Composition searches find every true touch exactly once",
 "For every method, set of calls, length range and part-end group the composition searches output exactly the call sequences that are true and come round (or, where asked, that merely are true or mutually true) within the range, each exactly once. When the rotations of a one-part touch are to be ignored exactly one member of each rotation class is output, otherwise every rotation is. A search for blocks that need not come round outputs those that cannot be continued without repeating a row.",
 ["inputs", "configurations"], "every method, calls, length range, part-end group and option combination",
 "no test runs the composition searches",
 ["ringing/search_base.h", "ringing/basic_search.cpp", "ringing/table_search.cpp", "apps/touchsearch/main.cpp", "apps/touchsearch/join_plan_search.cpp"],
 [("backtracking with falseness pruning", "ringing/table_search.cpp run_recursive"), ("canonical rotation test", "is_possibly_canonical, is_really_canonical"),
  ("length range in changes or leads", "range_div")],
 ["touch_search output, touchsearch output lines"])

prop("T01", "Iterating a touch visits the changes of its nested blocks in order",
 "Iterating any tree of change blocks and repeated child lists visits exactly the changes of the fully expanded tree, in order, including zero repeats, empty blocks and nested lists. The iterator ends exactly after the last of them.",
 ["inputs", "programs"], "every finite tree of blocks and repeats",
 "no test iterates a touch",
 ["ringing/touch.h", "ringing/touch.cpp"],
 [("flattening iterator", "ringing/touch.cpp touch_node::const_iterator")], ["touch::begin/end"])

prop("W01", "Music patterns count exactly the rows they describe",
 "For every list of patterns with wildcards, alternatives, repeats, named music and scores, and every sequence of rows rung at hand and back strokes, each pattern counts exactly the rows matching it at each stroke and the total score and count are the sums of the per-pattern ones. A pattern's count of possible rows equals the number of rows of that stage which match it, and malformed patterns are refused.",
 ["inputs", "histories"], "every set of patterns, stage and history of rows and strokes",
 "no test matches music beyond a dozen fixed patterns on a few rows",
 ["ringing/music.h", "ringing/music.cpp", "ringing/row_wildcard.h", "ringing/row_wildcard.cpp", "apps/musgrep/musgrep.cpp"],
 [("pattern trie", "ringing/music.cpp music_node::add, match"), ("pattern lexing and expansion", "ringing/music.cpp"), ("wildcards", "ringing/row_wildcard.cpp")],
 ["music API, musgrep output"])

prop("L01", "Method libraries are read entry for entry",
 "Reading a method library in any supported format yields exactly the methods in the file, in order, each with its stage, name, class and changes, and with the reference and performance details the file gives for it. Blank lines, byte-order marks and either line ending do not change what is read, and an entry whose place notation cannot be understood is reported as such without altering the others.",
 ["inputs"], "every well-formed library file in each format, and malformed entries inside one",
 "no test reads a library beyond feeding one-line filters",
 ["ringing/library.h", "ringing/litelib.cpp", "ringing/mslib.cpp", "ringing/cclib.cpp", "ringing/xmllib.cpp", "ringing/libfacet.h"],
 [("format sniffing", "ringing/library.cpp"), ("per-format readers", "ringing/litelib.cpp, mslib.cpp, cclib.cpp, xmllib.cpp")],
 ["library iteration and facets"])

prop("L02", "Method sets and written libraries lose and invent nothing",
 "After any history of additions and clearings a method set holds exactly the methods stored in it, in order and without repeats, and finds one by its changes, name or title exactly if it is there; writing entries out as XML and reading that back gives the same methods with the same details. Writing to several outputs gives each of them every entry.",
 ["inputs", "histories"], "every history of additions, clearings and look-ups, and every set of entries",
 "no test touches method sets or library output",
 ["ringing/methodset.h", "ringing/methodset.cpp", "ringing/xmlout.cpp", "ringing/libout.cpp", "ringing/method_stream.cpp"],
 [("set storage and lookup", "ringing/methodset.cpp"), ("XML writer", "ringing/xmlout.cpp")],
 ["methodset API, xmlout then xmllib"])

GS = ["apps/gsiril/statement.cpp", "apps/gsiril/expression.cpp", "apps/gsiril/expr_base.cpp", "apps/gsiril/proof_context.cpp",
      "apps/gsiril/execution_context.cpp", "apps/gsiril/parser.cpp", "apps/gsiril/functions.cpp", "apps/gsiril/main.cpp"]
prop("Q01", "A proof reports true exactly for true touches that end in rounds",
 "For every composition the prover announces the touch true exactly if it rings every row at most the permitted number of times, ends in rounds and lies within any required length; otherwise it announces the first applicable failure (false, not round, too short, too long, aborted) and nothing claims truth. The exit status is zero exactly if every proof asked for was true, and one proof never affects the verdict of the next.",
 ["programs", "configurations"], "every program and every setting of bells, extents, length limits and start/finish/rounds/conflict hooks",
 "the test-suite runs four one-line compositions",
 GS, [("verdict", "apps/gsiril/statement.cpp prove_stmt"), ("row accounting", "apps/gsiril/proof_context.cpp permute_and_prove_t"), ("exit status", "apps/gsiril/main.cpp")],
 ["gsiril standard output and exit status"])
prop("Q02", "Compositions ring the rows their expressions denote, in order",
 "The rows rung by a composition are exactly those denoted by its expressions: place notation, transpositions, sequences, counted repeats, reversal, merging and shifting of blocks, and named symbols substituted at the point of use. What is rung depends only on the program text and never on conditions, diagnostics or echoing performed along the way.",
 ["programs"], "every composition expression on every stage",
 "the test-suite rings plain courses only",
 GS, [("expression evaluation", "apps/gsiril/expression.cpp"), ("reversal and merging", "apps/gsiril/expression.cpp reverse, evaluate")],
 ["gsiril standard output with every row echoed"])
prop("Q03", "Symbols mean their latest definition; proofs forget their changes",
 "A symbol means the expression most recently assigned to it when used; immediate assignment, append and increment capture the value at that moment, default definitions apply only to undefined symbols and undefined symbols are errors. Assignments made while a proof is being rung are visible to the rest of that proof and are forgotten at its end unless explicitly saved.",
 ["programs", "histories"], "every sequence of definitions, proofs and in-proof assignments",
 "no test assigns a symbol during a proof or redefines one",
 GS + ["apps/gsiril/symbol_table.cpp"], [("symbol tables", "apps/gsiril/symbol_table.cpp"), ("in-proof assignment", "apps/gsiril/proof_context.cpp define_symbol")],
 ["gsiril standard output"])
prop("Q04", "Strings echo exactly the values they reference",
 "Every string evaluated during a proof prints exactly its text with each row, row-mask, length, duplicate-count, and variable reference replaced by its value at that moment, with escapes expanded and a newline added unless suppressed. A string containing the abort mark prints and then ends the proof as a failure.",
 ["programs"], "every string, row mask and point of evaluation",
 "tests compare the two default messages only",
 GS, [("string formatting", "apps/gsiril/proof_context.cpp format_string, substitute")], ["gsiril standard output"])
prop("Q05", "Conditions, loops and breaks take exactly the branch they should",
 "Alternatives run the first branch whose test holds and only that one, a test never rings rows, records music or assigns symbols in the proof it tests, counted and conditional repeats run their body exactly the stated number of times or until broken out of, and a break leaves exactly the innermost loop. Row patterns, comparisons and logical operators in tests hold exactly when the current row or values satisfy them.",
 ["programs"], "every nesting of alternatives, repeats, breaks and tests",
 "no test contains an alternative or a break",
 GS, [("alternatives", "apps/gsiril/expression.cpp if_match_node"), ("repeats and break", "apps/gsiril/expression.cpp repeat_node"), ("silent evaluation", "apps/gsiril/proof_context.cpp silent_clone")],
 ["gsiril standard output"])
prop("Q06", "Arithmetic, comparison and list functions compute exact results",
 "Integer arithmetic, comparison, logical and row operators parse with the documented precedence and compute exact results, with division and remainder consistent (quotient times divisor plus remainder is the dividend), and list and row functions return the documented values. An operation that has no value, such as division by zero or applying arithmetic to something that is not a number, is reported as an error and never crashes or yields a number.",
 ["programs"], "every expression over integers, booleans, strings, rows and lists",
 "no test evaluates arithmetic",
 GS, [("parser precedence", "apps/gsiril/parser.cpp make_expr"), ("operators", "apps/gsiril/expression.cpp"), ("functions", "apps/gsiril/functions.cpp")],
 ["gsiril standard output and exit status"])

MS = ["apps/methsearch/search.cpp", "apps/methsearch/mask.cpp", "apps/methsearch/methodutils.cpp", "apps/methsearch/prog_args.cpp"]
prop("X01", "A method search lists exactly the methods meeting its constraints",
 "For every stage, path of the treble and other hunts, and combination of place, blow, class, section, mask, prefix, start-point, allowed-change and lead-end constraints the search outputs exactly the methods whose changes satisfy all of them, each exactly once and in order. Constraints only ever remove methods: adding one gives a subset of the previous output consisting of precisely those that satisfy it.",
 ["configurations", "inputs"], "every combination of search options on every stage",
 "the DejaGnu tests compare the counts of a few dozen searches, not the sets",
 MS, [("recursive search", "apps/methsearch/search.cpp general_recurse, new_midlead_change"), ("constraints on a change", "apps/methsearch/search.cpp try_*"),
      ("masks and allowed changes", "apps/methsearch/mask.cpp")],
 ["methsearch standard output"])
prop("X02", "Symmetric searches list exactly the methods with that symmetry",
 "Asked for palindromic, rotational, glide or mirror symmetry, or several, about the fixed points or anywhere, the search outputs exactly those methods meeting the other constraints that have the symmetry. The half that is derived by symmetry satisfies every constraint that a change chosen freely would have to.",
 ["configurations", "inputs"], "every symmetry with every stage, path and further constraint",
 "tests compare counts of symmetric searches without other constraints",
 MS, [("completing a method by symmetry", "apps/methsearch/search.cpp general_recurse, double_existing, try_sym_change"),
      ("floating symmetry", "apps/methsearch/search.cpp try_floating_symmetry"), ("mask and symmetry", "apps/methsearch/mask.cpp is_mask_consistent")],
 ["methsearch standard output"])
prop("X03", "Method searches list only true methods with the lead heads asked for",
 "Every listed method is true to the extent asked for (within the half lead, the lead or the course, in any number of extents, up to part ends, avoiding given rows, from a given row), and no method that is so is left out on grounds of falseness. The same holds of the constraints on its lead head, half-lead rows and of offset-cyclic courses.",
 ["configurations", "inputs"], "every falseness and lead head option with every stage, path and symmetry",
 "tests look at default truth in a few counts",
 MS, [("proof of methods", "apps/methsearch/search.cpp is_acceptable_method, push_change, prover2"), ("lead heads", "apps/methsearch/search.cpp is_acceptable_leadhead"),
      ("half leads", "apps/methsearch/search.cpp try_halflead_change")],
 ["methsearch standard output"])
prop("X04", "Filtering a method list keeps exactly the methods that qualify",
 "Run as a filter the search tool passes through exactly those input methods that satisfy its constraints (or, inverted, exactly those that do not), in input order and unaltered, whatever the lead length. A method found by a search always passes the same constraints as a filter.",
 ["inputs", "configurations"], "every method list and every combination of constraints",
 "tests filter a few single methods",
 MS, [("filter mode", "apps/methsearch/search.cpp filter")],
 ["methsearch --filter output"])
prop("X05", "Output fields and required expressions report true facts of a method",
 "Each field of an output format shows the true value of that property of the method it is printed for, expressions combine fields with the documented operators and precedence, and requiring an expression keeps exactly the methods for which it is true. Statistics count each distinct formatted value exactly as often as it occurred, and the count reported is the number of methods listed.",
 ["inputs", "programs"], "every method and every format and expression",
 "tests format two or three fields",
 ["apps/methsearch/format.cpp", "apps/methsearch/expression.cpp", "apps/methsearch/output.cpp", "apps/methsearch/methodutils.cpp"],
 [("field expansion", "apps/methsearch/format.cpp"), ("expression evaluation", "apps/methsearch/expression.cpp"), ("statistics", "apps/methsearch/output.cpp")],
 ["methsearch standard output"])

prop("X06", "The music score counts exactly the musical rows, where they occur",
 "The music score of a method is the sum, over each part of the method asked for (its course, a lead, or a half lead in either direction, from each given row), of the scores of the patterns each row matches, with the handstroke score at handstrokes and the backstroke score at backstrokes. Each batch of patterns counts only in the parts named for it, and the rows of the plain course are what counts when no part is named.",
 ["inputs", "configurations"], "every method, set of patterns and choice of parts",
 "tests score a few methods with one pattern",
 ["apps/methsearch/music.cpp", "ringing/music.cpp", "apps/utils/row_calc.cpp"],
 [("parts and batches", "apps/methsearch/music.cpp analyser"), ("rows of a part", "apps/methsearch/music.cpp analyse")],
 ["methsearch standard output"])

prop("A01", "Row expressions evaluate to exactly the rows they denote",
 "A row-calculator expression yields exactly the rows given by its operators: products, quotients, integer powers, conjugates, listed sets, generated groups and set differences, with sets multiplied out pairwise in a fixed order. Rows are extended to the requested stage, changes are accepted only when asked for, the count printed is the number of rows, and ill-formed expressions are refused with a failing exit status.",
 ["programs"], "every expression over rows, sets and groups",
 "no test runs the row calculator",
 ["apps/utils/row_calc.cpp", "apps/utils/tokeniser.cpp", "apps/rowcalc/rowcalc.cpp"],
 [("expression evaluation", "apps/utils/row_calc.cpp")], ["rowcalc standard output and exit status"])

prop("P01", "Splices between methods are those their shared rows force",
 "The splice tool reports, for each pair of methods, the group of lead heads whose leads must be exchanged together: the one generated by the lead heads from which the second method shares a row with the first's plain lead, over the whole lead or its first half, in course, out of course or both. Its size, pivot and swapping bells are described, the null splice and other sizes are left out as asked, methods that splice alike are put together, and a filter keeps exactly those that splice, or those that no earlier one splices by the lead.",
 ["inputs", "configurations"], "every list of methods and every combination of options",
 "no test runs the splice tool",
 ["apps/splices/splices.cpp", "ringing/falseness.cpp", "ringing/group.cpp"],
 [("splice of two methods", "apps/splices/splices.cpp test_splice, describe_splice"), ("grouping", "apps/splices/splices.cpp save_splice, print_set"),
  ("shared rows", "ringing/falseness.cpp falseness_table::init, generate_group")],
 ["splices standard output and exit status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
