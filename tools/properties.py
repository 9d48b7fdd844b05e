"""Writes properties.jsonl and MANIFEST.json (authoring)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PROPS = []


def p(id, title, statement, over, text, why, files, mech, tech):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech])), tech))


E = "src/earley/mod.rs src/earley/traversal.rs src/earley/input_range.rs src/parser/mod.rs src/parser/grammar.rs src/append_vec.rs"
TAB = "value-flow summaries over MIR against guarded-effect tables"
p("C01", "Every returned parse tree is a derivation of exactly the input",
  "Each tree a parse returns has the start symbol at its root, and every node pairs a rule of the grammar with children that match that rule's alternative term by term. The terminals at the leaves, read left to right, spell exactly the whole input.",
  "inputs", "every grammar accepted by parser construction, every start symbol, every input string",
  "Tests parse a few dozen fixed grammars and some random ones and mostly count trees; they cannot reach every combination of nullable, left-recursive and ambiguous rules with every position in the input.",
  E, [("prediction, scanning and completion", "src/earley/mod.rs: earley"), ("acceptance test and tree building", "src/earley/mod.rs: ParseTreeIter::next, parse_tree"), ("matched terms of a state", "src/earley/traversal.rs: TraversalMatchIter")], TAB)
p("C02", "Every sentence of the grammar is recognised, however it is derived",
  "If the start symbol derives the input, parsing returns at least one tree for it, including through empty alternatives, empty terminals, left, right and hidden recursion, and ambiguity. If it does not, parsing returns none.",
  "inputs", "every grammar accepted by parser construction, every start symbol, every input string",
  "Completeness speaks about inputs nobody wrote down: nullable symbols predicted after they completed, or terminals overlapping multi-byte text, only show on particular grammars.",
  E, [("completions are recorded and replayed to later predictions", "src/earley/mod.rs: CompletionMap, earley"), ("prediction of every production of a symbol", "src/parser/grammar.rs: get_productions_by_lhs"), ("one state per (rule, start)", "src/earley/traversal.rs: TraversalTree")], TAB)
p("C03", "No parse tree is returned twice for one derivation",
  "Within one parse, two returned trees never stem from the same sequence of rule applications at the same positions: recognition states are shared and queued at most once, and each accepting completion yields its tree once.",
  "inputs", "every grammar without repeated alternatives, every input",
  "Duplicates appear only when two routes of recognition meet in one state, which depends on the order in which states are processed.",
  E, [("processed set in front of the queue", "src/earley/mod.rs: TraversalQueue::push_back"), ("states shared by (production, start) and (parent, matched term)", "src/earley/traversal.rs: TraversalTree::predict, match_term")], TAB)
p("C04", "Parsing, reading and formatting are functions of their arguments alone",
  "The same grammar, start symbol and input always give the same trees in the same order, the same text always reads as the same value or error, and the same value always prints the same text, in every process and on every platform. Hash seeds, addresses, clocks, randomness and the environment play no part.",
  "inputs histories configurations", "every pair of runs with equal arguments, in one process or in different ones",
  "Two equal runs in one test process agree by luck: hash seeds and addresses differ between processes.",
  "src/earley/mod.rs src/earley/traversal.rs src/parser/grammar.rs src/parsers/mod.rs src/grammar.rs src/validation.rs", [("hash tables are only looked up in, never walked for output", "src/earley/mod.rs, src/earley/traversal.rs"), ("the reported undefined name is the least", "src/grammar.rs: validate, src/parser/grammar.rs: new")],
  "effect analysis over the call graph (hash order, randomness, clock, environment, addresses)")
p("C05", "A parser keeps nothing between parses",
  "Parsing with one parser any number of times, interleaved, abandoned halfway or repeated, gives for each input exactly what a fresh parser gives. Parsing changes neither the grammar nor the parser.",
  "histories", "every sequence of complete, partial and interleaved parses on one parser",
  "Tests reuse a parser once or twice, one parse after the other; leftovers would show for particular sequences only.",
  "src/parser/mod.rs src/parser/grammar.rs src/earley/mod.rs", [("shared references only, no interior mutability, no statics", "src/parser/mod.rs: GrammarParser"), ("chart, queue and completions are built per parse", "src/earley/mod.rs: ParseTreeIter::new")],
  "interior-mutability and static-state analysis of the type graph, plus tables of the parse entry points")
p("C06", "Text is accepted only when all of it was understood",
  "Reading a term, expression, production or grammar from text succeeds only if the whole text belongs to the notation; any unread remainder makes it a parse error. No text is silently cut off or ignored, except blanks and comments.",
  "inputs", "every string given to the readers",
  "Tests try a few malformed strings; leftovers can hide behind any prefix that happens to be complete.",
  "src/parsers/mod.rs src/term.rs src/expression.rs src/production.rs src/grammar.rs", [("whole-input wrappers in every public reader", "src/term.rs, src/expression.rs, src/production.rs: from_str; src/parsers/mod.rs: grammar_complete, parsed_grammar_complete")],
  "notation extraction from nom combinators (parsing expressions) with end-of-input anchors")
p("C07", "Reading text never panics",
  "For every string, including malformed, truncated and non-ASCII text, reading a term, expression, production or grammar returns a value or an error. It never panics (stack exhaustion on absurdly deep nesting aside).",
  "inputs", "every string, both notations",
  "Panics hide at byte offsets inside multi-byte characters and at odd truncations no test tries.",
  "src/parsers/mod.rs src/parsers/nom_xt.rs src/error.rs src/grammar.rs", [("no indexing or unwrapping on text", "src/parsers/mod.rs")],
  "panic-site analysis: every panicking construct discharged by a path guard or a listed invariant")
p("C08", "Building parsers, parsing and formatting never panic",
  "Building a parser from any grammar, parsing any input with it, walking its trees and printing grammars, trees and errors in any form never panics. Any start symbol, empty input, empty alternatives and non-ASCII text are fine.",
  "inputs", "every grammar that can be constructed, every start symbol and input",
  "Slicing at character boundaries and arithmetic on positions only fail for particular multi-byte texts and grammars.",
  "src/earley/mod.rs src/earley/traversal.rs src/earley/input_range.rs src/append_vec.rs src/grammar.rs src/term.rs", [("checked access to input and arena", "src/earley/input_range.rs, src/append_vec.rs")],
  "panic-site analysis: every panicking construct discharged by a path guard or a listed invariant")
p("C09", "Validation fails exactly for empty grammars and undefined names",
  "Validation succeeds if and only if the grammar has at least one production and every nonterminal used on a right-hand side is the left-hand side of some production. Building a parser succeeds in exactly the same cases.",
  "inputs", "every grammar that can be constructed",
  "The two verdicts are computed by separate code; tests compare them on a handful of grammars.",
  "src/grammar.rs src/validation.rs src/parser/grammar.rs src/parser/mod.rs", [("defined and referenced names", "src/validation.rs: NonterminalSets"), ("verdicts", "src/grammar.rs: validate; src/parser/grammar.rs: ParseGrammar::new")], TAB)
p("C10", "Groups and optionals mean what they say",
  "A grammar written with ( ) or [ ] denotes the same language as the one where each group is replaced by a name defined as the group's alternatives, and each optional by a name defined as those alternatives or nothing. Nesting to any depth keeps this, and alternatives and terms keep their order.",
  "inputs", "every grammar text with groups or optionals, any nesting, both notations",
  "Tests cover a few nestings; the rewriting recurses over arbitrary structures.",
  "src/parsers/mod.rs", [("lowering", "src/parsers/mod.rs: normalize_parsed_grammar, lower_term"), ("grammar of groups", "src/parsers/mod.rs: parsed_term, parsed_anonymous_group, parsed_optional_group")],
  "value-flow summaries of the lowering against tables, and notation extraction")
p("C11", "Invented names never capture names of the user",
  "Every name invented for a group or optional differs from every nonterminal the grammar text defines or uses, and from every other invented name.",
  "inputs", "every grammar text with groups or optionals",
  "A clash needs a user name that looks like an invented one, in just the right place.",
  "src/parsers/mod.rs", [("used names are collected before names are invented", "src/parsers/mod.rs: normalize_parsed_grammar, record_referenced_names, fresh_anon_name")], TAB)
p("C12", "Reading text yields exactly what was written",
  "Reading text gives terms, expressions, productions and grammars with the same terminal texts, nonterminal names, alternatives and productions in the order written: nothing dropped, merged, reordered, trimmed or case-folded. This holds for both notations and all quoting styles.",
  "inputs", "every text of the notation",
  "Tests compare a few dozen texts; any character inside quotes or names could be mishandled.",
  "src/parsers/mod.rs src/parsers/bnf.rs src/parsers/augmented.rs src/parsers/nom_xt.rs", [("notation", "src/parsers/mod.rs: terminal, nonterminal, term, expression, production, plain_grammar, grammar_complete"), ("formats", "src/parsers/bnf.rs, src/parsers/augmented.rs")],
  "notation extraction from nom combinators (parsing expressions with the values built)")
p("C13", "Printed grammars, productions, expressions and terms read back",
  "Printing a term, expression, production or grammar writes standard notation that names every term, alternative and production in order, quoting each terminal in a quote character it does not contain whenever one exists. Reading that text back gives the same value.",
  "inputs", "every value whose terminals do not contain both quote characters and whose names contain no angle bracket, and with no empty alternative",
  "Round trips are tested on samples; spacing, quoting and separators must fit for all values.",
  "src/term.rs src/expression.rs src/production.rs src/grammar.rs", [("Display", "src/term.rs, src/expression.rs, src/production.rs, src/grammar.rs: fmt")],
  "ordered output summaries over MIR against tables")
p("C14", "Serialised values deserialise to equal values",
  "Serialising a term, expression, production or grammar and deserialising the result gives an equal value, in any self-describing format: every part is written under the name it is read from, none is skipped, defaulted or renamed on one side only.",
  "inputs", "every value, every serde format",
  "One JSON example per type says nothing about parts that are empty or equal to a default.",
  "src/term.rs src/expression.rs src/production.rs src/grammar.rs", [("derived serialisers", "src/term.rs, src/expression.rs, src/production.rs, src/grammar.rs")],
  "summaries of the generated serialisers and deserialisers against tables")
p("C15", "Generated sentences belong to the grammar",
  "When generation succeeds, the result is the concatenation, in order, of the terminals of one alternative of the first rule and of results generated in the same way for its nonterminals. A nonterminal without a rule contributes its name in angle brackets.",
  "inputs", "every grammar, every strategy, every random sequence",
  "Random samples check membership for a few grammars; a slip that needs one particular alternative is not drawn.",
  "src/grammar.rs src/generation.rs", [("expansion", "src/grammar.rs: traverse_with_strategy")], TAB)
p("C16", "Generation refuses grammars whose start cannot finish",
  "Generation returns an error, rather than running forever, for every grammar whose first rule derives no finite sentence, and does not refuse a grammar whose first rule derives one. Undefined nonterminals do not count as finishing.",
  "inputs", "every grammar, every generation entry point",
  "The check is a fixpoint over the rules; tests exercise a few chain lengths and orders.",
  "src/grammar.rs src/production.rs src/expression.rs", [("gate", "src/grammar.rs: generate_seeded_callback_with_strategy"), ("fixpoint", "src/grammar.rs: terminates; src/production.rs: has_terminating_expression; src/expression.rs: terminates")], TAB)
p("C17", "Generation only keeps what the callback accepts",
  "With a callback, every text produced for every nonterminal in the result was shown to the callback together with that nonterminal's name, and was accepted. Text it rejects is never part of the result.",
  "inputs histories", "every grammar, callback and random sequence",
  "Rejection at inner levels and after several attempts depends on random choices.",
  "src/grammar.rs", [("retry loop", "src/grammar.rs: traverse_with_strategy")], TAB)
p("C18", "Depth-bounded generation stops expanding at the bound",
  "At or beyond the depth bound the depth-bounded strategy picks only alternatives made of terminals whenever the rule has one; before the bound every alternative is possible. Depth is the number of expansions above the rule.",
  "inputs", "every grammar, bound and seed",
  "Only one grammar and bound is tested.",
  "src/generation.rs src/grammar.rs", [("eligible alternatives", "src/generation.rs: DepthBounded"), ("depth bookkeeping", "src/grammar.rs: traverse_with_strategy")], TAB)
p("C19", "Coverage-guided generation prefers alternatives not yet used",
  "While a rule has alternatives the coverage-guided strategy has not chosen before, it chooses one of those; every choice is remembered for that rule. Choices for one rule never count for another.",
  "inputs histories", "every grammar and sequence of choices",
  "Tests follow one rule for a few steps.",
  "src/generation.rs", [("seen set", "src/generation.rs: CoverageGuided")], TAB)
p("C20", "Weighted generation follows its weights",
  "The weighted strategy picks an alternative with probability proportional to its weight: non-recursive alternatives carry the non-recursive weight and recursive ones the recursive weight, and an alternative of weight zero is never picked while another has positive weight. Weights of any size are added without overflow.",
  "inputs", "every production, weight pair and random draw",
  "Off-by-one errors at the boundary of a weight interval need one particular draw.",
  "src/generation.rs", [("cumulative choice", "src/generation.rs: Weighted")], TAB)
p("C21", "Seeded generation depends on the seed alone",
  "Two generations with equal grammars, equally seeded generators or strategies and the same callback answers give the same text, in any process. Seeded paths draw nothing from the environment.",
  "inputs histories", "every grammar, seed and strategy",
  "A stray draw from ambient randomness or an unordered table shows only across processes.",
  "src/grammar.rs src/generation.rs", [("seeded entry points", "src/grammar.rs: generate_seeded*"), ("seeded strategies", "src/generation.rs: from_seed")],
  "effect analysis over the call graph, plus tables of the constructors")
p("C22", "Built-in strategies return an alternative of the given rule",
  "For every production with at least one alternative, each built-in strategy returns one of that production's own alternatives, at every depth and in every internal state. None of them panics on such a production.",
  "inputs histories", "every production with an alternative, depth, seed and history of earlier choices",
  "Index arithmetic fails only for particular sizes, weights and histories.",
  "src/generation.rs src/production.rs", [("choose", "src/generation.rs"), ("access by index", "src/production.rs: get_expression")],
  "value-flow summaries and panic-site analysis over MIR")
p("C23", "Mermaid output draws exactly the tree, with labels escaped",
  "The Mermaid form of a tree has one numbered node per tree node and one edge per parent and child, in order, with labels that name the symbol or the matched text. Characters that Mermaid would interpret are written as character codes, so no label can break the diagram.",
  "inputs", "every parse tree",
  "Snapshots show two trees; numbering and escaping must hold for all shapes and labels.",
  "src/grammar.rs", [("Mermaid output", "src/grammar.rs: MermaidParseTree"), ("escaping", "src/grammar.rs: escape_mermaid_label")], "ordered output summaries over MIR against tables")
p("C24", "Printed trees show every node once, in order",
  "The text form of a tree lists every node exactly once in preorder, rules with their alternative and terminals as leaves, with branch marks that show its depth and whether it is the last child.",
  "inputs", "every parse tree",
  "Snapshots cover a few shapes.",
  "src/grammar.rs", [("tree output", "src/grammar.rs: ParseTree::fmt, fmt_node_prefix")], "ordered output summaries over MIR against tables")
p("C25", "Each kind of failure is reported with its own kind of error",
  "Text that cannot be read always gives a parse error, an empty or incomplete grammar always a validation error, and impossible generation always a generation error. No failure is reported as success, and no success as failure; printing to a writer that fails gives that failure.",
  "inputs", "every failing call of the public interface",
  "Tests match a few failures by kind.",
  "src/error.rs src/grammar.rs src/parser/mod.rs src/parser/grammar.rs", [("error conversions", "src/error.rs"), ("entry points", "src/grammar.rs")], TAB)
p("C26", "Optional features do not change behaviour",
  "Turning the tracing or serialisation features on or off changes no result of parsing, reading, printing, editing or generating. Without the second notation's feature, everything about the first stays the same.",
  "configurations inputs", "every combination of cargo features, every call",
  "The tests run with one feature set.",
  "src/tracing.rs src/lib.rs src/grammar.rs src/earley/mod.rs src/parsers/mod.rs", [("tracing shims", "src/tracing.rs"), ("feature gates", "src/lib.rs, src/grammar.rs")],
  "summaries of all entry points compared between builds with different features")
p("C27", "The macros build what they spell",
  "A term, expression, production or grammar written with the macros equals the one written out as text: same terms, alternatives and productions in the same order, with or without a trailing semicolon.",
  "programs", "every use of the macros",
  "Tests use a few shapes; order mistakes need three or more alternatives or productions.",
  "src/term.rs src/expression.rs src/production.rs src/grammar.rs", [("macro rules", "src/term.rs: term!; src/expression.rs: expression!; src/production.rs: production!; src/grammar.rs: grammar!")],
  "witness crate of macro uses, evaluated on its MIR")
p("C28", "Editing changes only what was asked",
  "Adding appends at the end; removing an equal element takes away exactly one and returns it, or leaves everything unchanged and returns nothing; the + operators and constructors keep every term of both operands. Iterators visit every element in order and report the element count correctly.",
  "inputs histories", "every sequence of edits",
  "Tests remove from short lists only.",
  "src/expression.rs src/production.rs src/grammar.rs", [("edit operations", "src/expression.rs, src/production.rs, src/grammar.rs")], TAB)
p("C29", "Equality, hashing, order and cloning see the whole value",
  "Two terms, expressions, productions, grammars, trees or errors are equal exactly when all their parts are equal in order; equal values hash alike, order agrees with equality, and a clone equals its original.",
  "inputs", "every pair of values",
  "Tests compare values that differ visibly.",
  "src/term.rs src/expression.rs src/production.rs src/grammar.rs src/error.rs", [("derived impls", "src/term.rs, src/expression.rs, src/production.rs, src/grammar.rs, src/error.rs")],
  "query over the impls of the type-checked program")
p("C30", "The notation of a grammar text is recognised from its first token",
  "A grammar text whose first token, after blanks and comments, is an angle bracket is read in the first notation and any other in the second; the caller can also choose one explicitly. Each notation uses its own delimiters and separators throughout.",
  "inputs", "every grammar text",
  "Tests start with a few different first lines.",
  "src/grammar.rs src/parsers/mod.rs src/parsers/bnf.rs src/parsers/augmented.rs", [("detection", "src/parsers/mod.rs: is_format_standard_bnf; src/grammar.rs: from_str")],
  "value-flow summaries and notation extraction")
p("C31", "Parsing starts where it should",
  "Without an explicit start, a parse begins at the left-hand side of the first production; with one, at exactly that symbol, through all its productions.",
  "inputs", "every grammar and start symbol",
  "Tests use grammars whose first rule is the only candidate.",
  "src/parser/mod.rs src/grammar.rs src/earley/mod.rs", [("start symbol", "src/parser/mod.rs: new, parse_input, parse_input_starting_with; src/earley/mod.rs: ParseTreeIter::new")], TAB)
p("C32", "Blanks and comments between tokens do not matter",
  "Spaces, line breaks of any kind and comments from a semicolon to the end of the line may stand between any two tokens of a grammar without changing what is read. A semicolon inside quotes is text, and a comment ends at the first line break.",
  "inputs", "every placement of blanks and comments between tokens",
  "The placements are unbounded; tests try a few.",
  "src/parsers/mod.rs", [("blank skipper", "src/parsers/mod.rs: whitespace_plus_comments")], "value-flow summary of the skipper, and its positions in the extracted notation")
p("C33", "The library is memory safe by construction",
  "No call of the public interface can cause undefined behaviour: the library performs no unsafe operation of its own, and addresses it keeps for identification are never followed.",
  "inputs programs", "every use from safe code",
  "Undefined behaviour need not show in any test.",
  "src/lib.rs src/generation.rs src/append_vec.rs", [("safe code only", "src/*.rs")], "query over every call, dereference and static in MIR")
p("C34", "Public values can be shared, sent and kept",
  "Terms, expressions, productions, grammars, trees and errors may be sent to and shared between threads, trees outlive the iteration that found them, and one parser may serve several parses at the same time.",
  "programs", "every well-typed use",
  "A lost bound or a tightened lifetime breaks callers at compile time, not in the library's own tests.",
  "src/lib.rs src/parser/mod.rs src/earley/mod.rs src/grammar.rs", [("public types and lifetimes", "src/parser/mod.rs, src/grammar.rs")], "compile-time witness crate of bounds and lifetimes")
NA = []


def n(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech, None)
    NA.append(dict(property=id, reason=reason))


n("C35", "Parsing always ends",
  "Iterating over the trees of any input under any valid grammar without cycles of empty derivations ends after finitely many steps.",
  "inputs", "every acyclic grammar and input", "Termination is a statement about all inputs; tests only show runs that ended.",
  E, [("finite chart", "src/earley/mod.rs: earley")],
  "Needs a ranking argument over the runtime chart (finitely many states because positions and rules are bounded) that no syntactic or dataflow rule in reach establishes; the tables under C01 to C03 fix the sharing of states it would rest on.")
n("C36", "Reading and parsing need stack in proportion to nesting only",
  "Deeply nested groups, long alternatives and long inputs are handled without exhausting the stack.",
  "inputs", "every nesting depth", "Tests nest a few levels.",
  "src/parsers/mod.rs src/earley/mod.rs src/grammar.rs", [("recursive descent", "src/parsers/mod.rs: parsed_expression")],
  "Stack depth is a runtime quantity; the recursion (reader of groups, tree building, expansion) is real and a sound static bound does not exist. Deep nesting does overflow the stack (see DESIGN.md).")
n("C37", "Generation ends for every grammar that passes the gate",
  "Every generation that starts also ends.",
  "inputs", "every grammar and random sequence", "Probability-one termination cannot be tested.",
  "src/grammar.rs src/generation.rs", [("gate", "src/grammar.rs: terminates")],
  "Termination of a random walk is probabilistic and false in general (non-productive rules reachable from a productive start, see DESIGN.md); no static rule decides it.")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for d, _ in PROPS:
            assert len(d["title"]) <= 80, d["id"]
            fh.write(json.dumps(d) + "\n")
    na = {x["property"] for x in NA}
    NOTE = {
        "tab": "Decides from the MIR of the current tree that every path of the listed functions does what the fixed tables say; sound up to the listed summaries of std, hashbrown, rand and nom functions, and up to the argument (DESIGN.md) that the tables imply the property. Functions using constructs without a model are reported as undecided, not as holding.",
    }
    checks = []
    for d, t in PROPS:
        if d["id"] in na:
            continue
        checks.append(dict(property=d["id"], quick_cmd="python3 check.py " + d["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + d["id"], evidence_file="evidence/%s.json" % d["id"], technique="static analysis: " + t, level="other", level_note=NOTE["tab"]))
    m = dict(version=1, setup_cmd="python3 -m sa.build", checks=checks, not_applicable=NA, notes="Static analysis only: a rustc driver (nightly rustc_private) dumps MIR facts of /repo's working tree; everything is decided from those facts. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
