"""Which functions carry a contract table, and which properties rest on it.

Everything a root calls is inlined, except recursion and the few functions in
BARRIERS (recursive or large, with a table or an extracted notation of their
own).
"""

P = "crate::parsers::"

BARRIERS = {
    "crate::earley::earley",
    "crate::earley::parse_tree",
    "crate::grammar::Grammar::traverse_with_strategy",
    "crate::grammar::Grammar::terminates",
    "crate::grammar::escape_mermaid_label",
    P + "whitespace_plus_comments",
    P + "terminal",
    P + "nonterminal",
    P + "term",
    P + "expression",
    P + "expression_next",
    P + "production",
    P + "prod_lhs",
    P + "prod_rhs",
    P + "plain_grammar",
    P + "grammar",
    P + "grammar_complete",
    P + "grammar_has_extended_syntax",
    P + "is_format_standard_bnf",
    P + "normalize_parsed_grammar",
    P + "normalize_parsed_grammar::lower_term",
    P + "normalize_parsed_grammar::record_referenced_names",
    P + "parsed_anonymous_group",
    P + "parsed_expression",
    P + "parsed_expression_next",
    P + "parsed_grammar",
    P + "parsed_grammar_complete",
    P + "parsed_nonterminal",
    P + "parsed_optional_group",
    P + "parsed_prod_lhs",
    P + "parsed_prod_rhs",
    P + "parsed_production",
    P + "parsed_term",
    P + "parsed_terminal",
}

# calls without effect of their own: only the result counts
DROP_CALLS = [
    r"<?tracing(_core)?::",
    r"crate::parsers::(?!normalize_parsed_grammar::)",
    r"crate::parsers::Format::",
    r"crate::grammar::Grammar::terminates$",
    r"crate::earley::parse_tree$",
    r"crate::grammar::escape_mermaid_label$",
]

# panics that cannot happen, and why (regex on the normalised construct)
PANICS = [
    (r"^expect\(get\((a\d+\.)?(\w+\.)?arena\.vec,", "node ids are only made by appending to the arena, which never shrinks"),
    (r"^(expect\(get|index)\((a\d+\.)?(\w+\.)?productions\.vec,.*(production_id|prods_by_lhs)", "production ids are only made by appending to the production list, which never shrinks"),
    (r"^overflow:Sub\(len\((index\(.*\)\.)?input_range\.input\), (index\(.*\)\.)?input_range\.offset\.start\)$", "a range never starts behind the end of its input (the table of the recogniser fixes every range it makes)"),
    (r"^expect\(optif\(not\(empty\(index\(.*\)\.unmatched\)\),", "a term is only consumed from a node whose next unmatched term was just read"),
    (r"^slice\(index\([^;]*\)\.unmatched, 1\)$", "a term is only consumed from a node whose next unmatched term was just read"),
    (r"^panic!\(\"production must not be empty\"\)$", "documented precondition of a strategy: the production has an alternative"),
    (r"^panic!\(\"strategy returned an expression not from the provided production\"\)$", "documented contract of a user-defined strategy"),
    (r"^expect\(get\((.+),Rng::random_range\(a1\.rng,Range\{start:0,end:len\(\1\)\}\)\)\)$", "an index drawn from 0..len of the same list"),
    (r'^slice\((.+), r?sfind\(\1,.*\)\.Some\.0\)$', "a position found in the same string is a character boundary"),
    (r"^(unwrap|expect)\(parsers::whitespace_plus_comments\(.*\)\)$", "skipping blanks never fails: its table only returns Ok"),
]

ROOTS = []


def root(area, props, *fns, **kw):
    for f in fns:
        ROOTS.append(dict(fn=f, area=area, props=props.split(), **kw))


T = "crate::term::Term"
EX = "crate::expression::Expression"
PR = "crate::production::Production"
G = "crate::grammar::Grammar"
DISP = "core::fmt::Display"
FS = "core::str::traits::FromStr"
ADD = "core::ops::arith::Add"
IT = "core::iter::traits::iterator::Iterator"

# -- recognition and trees --------------------------------------------------
root("earley", "C01+ C02- C03+ C08", "crate::earley::earley")
root("earley", "C01 C02 C03 C08", "crate::earley::parse_tree")
root("earley", "C01 C02 C08", f"<crate::earley::traversal::TraversalMatchIter as {IT}>::next")
root("earley", "C01 C02 C03 C08", f"<crate::earley::ParseTreeIter as {IT}>::next")
root("earley", "C01 C02 C05 C08 C31", "crate::parser::GrammarParser::parse_input", "crate::parser::GrammarParser::parse_input_starting_with")
root("earley", "C01 C02 C08 C09 C31", "crate::grammar::Grammar::build_parser", "crate::parser::GrammarParser::new")
root("earley", "C31 C05", f"{G}::parse_input", f"{G}::parse_input_starting_with", panics=[(r"", "deprecated entry point: documented to panic on an empty grammar")])
root("validate", "C09 C25", f"{G}::validate")

# -- generation ---------------------------------------------------------------
S_ = "crate::generation::GenerationStrategy"
GEN = "crate::generation::"
root("generation", "C15 C17 C18 C22 C16", f"{G}::traverse_with_strategy")
root("generation", "C16 C15", f"{G}::terminates")
root("generation", "C15 C16 C17 C21 C25", f"{G}::generate", f"{G}::generate_callback", f"{G}::generate_seeded", f"{G}::generate_seeded_callback", f"{G}::generate_seeded_with_strategy", f"{G}::generate_seeded_callback_with_strategy")
root("generation", "C22 C21 C15", f"<{GEN}RandomWalk as {S_}>::choose")
root("generation", "C18 C22", f"<{GEN}DepthBounded as {S_}>::choose")
root("generation", "C19 C22", f"<{GEN}CoverageGuided as {S_}>::choose")
root("generation", "C20 C22", f"<{GEN}Weighted as {S_}>::choose")
root("generation", "C21", f"{GEN}RandomWalk::from_seed")
root("generation", "C21 C18", f"{GEN}DepthBounded::from_seed", f"{GEN}DepthBounded::new")
root("generation", "C21 C19", f"{GEN}CoverageGuided::from_seed", f"{GEN}CoverageGuided::new")
root("generation", "C21 C20", f"{GEN}Weighted::from_seed", f"{GEN}Weighted::new")
root("generation", "C21", f"<{GEN}RandomWalk as core::default::Default>::default", f"<{GEN}CoverageGuided as core::default::Default>::default", f"<{GEN}Weighted as core::default::Default>::default")

# -- text out -------------------------------------------------------------------
root("display", "C13 C08", f"<{T} as {DISP}>::fmt", f"<{EX} as {DISP}>::fmt", f"<{PR} as {DISP}>::fmt", f"<{G} as {DISP}>::fmt")
root("display", "C24 C08", "crate::grammar::ParseTree::fmt", f"<crate::grammar::ParseTree as {DISP}>::fmt")
root("display", "C23 C08", "crate::grammar::MermaidParseTree::fmt", f"<crate::grammar::MermaidParseTree as {DISP}>::fmt", "crate::grammar::ParseTree::mermaid", "crate::grammar::escape_mermaid_label")
root("display", "C25 C08", f"<crate::error::Error as {DISP}>::fmt")

# -- text in --------------------------------------------------------------------
root("text", "C06 C07 C12 C25", f"<{T} as {FS}>::from_str", f"<{EX} as {FS}>::from_str", f"<{PR} as {FS}>::from_str")
root("text", "C06 C07 C12 C25 C30", f"<{G} as {FS}>::from_str")
root("text", "C06 C07 C12 C25", f"{G}::parse_from")
root("text", "C25 C07", "<crate::error::Error as core::convert::From<nom::internal::Err>>::from", "<crate::error::Error as core::convert::From<nom::error::Error>>::from", "<crate::error::Error as core::convert::From<(&str,nom::error::ErrorKind)>>::from")
root("text", "C32 C07 C12", P + "whitespace_plus_comments")
root("text", "C30 C07", P + "is_format_standard_bnf")
root("text", "C07", P + "grammar_has_extended_syntax")  # only picks the quicker of two readings that agree
root("text", "C06 C12 C07", P + "nom_xt::xt_list_with_separator::{closure#0}")
root("text", "C10 C11 C12 C07", P + "normalize_parsed_grammar", P + "normalize_parsed_grammar::lower_term")
root("text", "C11 C07", P + "normalize_parsed_grammar::record_referenced_names")

# -- building and editing ---------------------------------------------------------
root("edit", "C28", f"{EX}::new", f"{EX}::from_parts", f"{EX}::add_term", f"{EX}::remove_term", f"{EX}::terms_iter", f"{EX}::terms_iter_mut")
root("edit", "C28", f"{PR}::new", f"{PR}::from_parts", f"{PR}::add_to_rhs", f"{PR}::remove_from_rhs", f"{PR}::rhs_iter", f"{PR}::rhs_iter_mut", f"{PR}::len", f"{PR}::is_empty", f"<{PR} as core::default::Default>::default")
root("edit", "C28 C22", f"{PR}::get_expression")
root("edit", "C28", f"{G}::new", f"{G}::from_parts", f"{G}::add_production", f"{G}::remove_production", f"{G}::productions_iter", f"{G}::productions_iter_mut")
root("edit", "C28", f"<{T} as {ADD}<{T}>>::add", f"<{T} as {ADD}<{EX}>>::add", f"<{T} as {ADD}<&{EX}>>::add", f"<{EX} as {ADD}<{T}>>::add", f"<{EX} as {ADD}<{EX}>>::add", f"<&{EX} as {ADD}<{T}>>::add", f"<&{EX} as {ADD}<{EX}>>::add")
root("edit", "C24", "crate::grammar::ParseTree::rhs_iter", "crate::grammar::ParseTree::rhs_iter_mut")

# -- serialisation ------------------------------------------------------------------
SER = "serde_core::ser::Serialize"
DE = "serde_core::de::Deserialize"
VIS = "serde_core::de::Visitor"
for _t in (T, EX, PR, G):
    root("serde", "C14", f"<{_t} as {SER}>::serialize", f"<{_t} as {DE}>::deserialize", f"<<{_t} as {DE}>::deserialize::__FieldVisitor as {VIS}>::visit_str")
    if _t == T:
        root("serde", "C14", f"<<{_t} as {DE}>::deserialize::__Visitor as {VIS}>::visit_enum")
    else:
        root("serde", "C14", f"<<{_t} as {DE}>::deserialize::__Visitor as {VIS}>::visit_map", f"<<{_t} as {DE}>::deserialize::__Visitor as {VIS}>::visit_seq")
