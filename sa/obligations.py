"""Property -> obligations."""
import re

from . import contracts as C, notation as N, rules as R
from . import decide as D
from .roots import ROOTS

PANIC_ONLY = {"C07", "C08"}
WITH_PANICS = {"C22"}

ASSUME = [
    "the summaries of standard library, hashbrown, rand and nom functions in sa/prims.py and driver/models.rs say what those functions do",
    "the tables in /verif/specs state the property (they were derived from the code, read through against the documentation, and are fixed)",
    "an obligation listed as undecided is not claimed for this tree",
]

EXPLAIN = {}
RULES = {}


def explain(p, text):
    EXPLAIN[p] = text


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f

    return deco


TABLE = "Every path of each listed function is summarised from MIR (helpers, closures and iterator chains inlined; loops reduced to what happens for each, the first or no element) into guarded effects, and compared, up to renaming of working storage, with its table: %s"
explain("C01", TABLE % "nothing may be added to the chart, accepted or put in a tree beyond what the table allows.")
explain("C02", TABLE % "nothing the table requires may be missing or happen under a stronger condition.")
explain("C03", TABLE % "a state enters the chart once per production, edge and position, and each accepted completion yields its matches once.")
explain("C04", "Call graph from every parsing, reading and formatting entry point; each call site is checked against the effects that could make two runs differ: hash iteration order, ambient randomness, clocks, environment, addresses, shared state.")
explain("C05", "Type graph of the parser and everything it owns (no interior mutability), statics and thread-locals of the crate (none mutable), plus the tables of the parse entry points: every parse starts from state built in that call.")
explain("C06", "Notation extracted as parsing expressions from the reader functions (whole-input anchors), plus tables of the public readers.")
explain("C07", "Every panicking construct (index, slice, unwrap, arithmetic overflow, explicit panic) on any path of every reader, each discharged by a guard on its path or by a listed invariant.")
explain("C08", "As C07, for building a parser, parsing, walking trees and formatting.")
explain("C09", TABLE % "the error verdict depends on the defined and referenced names only, and building a parser fails in exactly the same cases.")
explain("C10", "Tables of the lowering of groups and optionals, plus the extracted notation of grouped alternatives.")
explain("C11", TABLE % "a generated name is taken only when it is neither defined nor referenced nor taken before.")
explain("C12", "Notation of terms, expressions, productions and grammars extracted as parsing expressions with the value each builds, for both notations, compared with the required one; plus the tables of the public readers.")
explain("C13", TABLE % "the exact sequence of pieces each Display writes, which is what the reader's notation reads back.")
explain("C14", "The generated serialisers and deserialisers: field and variant names written equal those read, each field is written once from its own place and none is defaulted or skipped.")
explain("C15", TABLE % "generated text is the concatenation of the chosen alternative's terminals and the expansions of its nonterminals.")
explain("C16", TABLE % "the gate in front of generation and the fixpoint behind it.")
explain("C17", TABLE % "a subtree is returned only when the callback accepted it.")
explain("C18", TABLE % "at the bound only all-terminal alternatives are candidates, below it all are, and any if there is none; the depth grows by one per expansion.")
explain("C19", TABLE % "unseen alternatives of the production are the only candidates while there are any, and the choice is recorded.")
explain("C20", TABLE % "the cumulative walk over the weights, and the weights themselves.")
explain("C21", "Call graph from the seeded entry points: nothing but the given seed feeds the choices; tables of the constructors.")
explain("C22", TABLE % "each built-in strategy returns an alternative of the production it was given." + " Plus every panicking construct on their paths.")
explain("C23", TABLE % "the exact pieces of the Mermaid text: nodes, edges, numbering, escaping.")
explain("C24", TABLE % "the exact pieces of the indented text of a tree, in preorder.")
explain("C25", TABLE % "which error variant each entry point returns, and when." + " Plus, for every formatting function: on each path where the writer fails, the result is an error.")
explain("C26", "Summaries of all public entry points and extracted notations, on the facts of builds with other feature sets, compared with those of the default build.")
explain("C27", "A witness crate that uses the macros is compiled against /repo and its MIR evaluated: the value each use builds, compared with the terms written.")
explain("C28", TABLE % "what each constructor, mutator and operator does to the list it edits.")
explain("C29", "Every comparison, hash and clone of the public value types is compiler-derived from all fields, or its summary is the structural one.")
explain("C30", TABLE % "which notation is chosen, and with which readers." + " Plus the extracted notations.")
explain("C31", TABLE % "which start symbol a parse uses.")
explain("C32", "Table of the blank and comment skipper, plus every position in the extracted notation where it runs.")
explain("C33", "Every call, dereference and static of the crate: no unsafe operation outside macro expansions of the standard library.")
explain("C34", "Witness crate of trait bounds and lifetimes: compiles only if the public types can be shared and outlive what they should.")


def tagged(prop):
    """(root, sign) of the tables that carry this property"""
    for r in ROOTS:
        for t in r["props"]:
            if t.rstrip("+-*") == prop:
                yield r, (t[-1] if t[-1] in "+-" else "*")


def decide(ctx, prop):
    out = []
    for r, sign in tagged(prop):
        if prop in PANIC_ONLY:
            out.append(D.panics(ctx, r))
            continue
        out.append(D.contract(ctx, r, signs=sign))
        if prop in WITH_PANICS:
            out.append(D.panics(ctx, r))
    for f in RULES.get(prop, ()):
        x = f(ctx)
        out += x if isinstance(x, list) else [x]
    return out


@rule("C04")
def _(ctx):
    return R.deterministic(ctx, ["parse", "text", "format"], "parsing, reading and formatting depend on their arguments only")


@rule("C21")
def _(ctx):
    return R.deterministic(ctx, ["seeded"], "seeded generation depends on the seed only", exempt=[r"^<.* as core::default::Default>::default$"])


OWNED = {"crate::parser::GrammarParser", "crate::parser::grammar::ParseGrammar", "crate::parser::grammar::Production", "crate::append_vec::AppendOnlyVec", "crate::grammar::Grammar", "crate::production::Production", "crate::expression::Expression", "crate::term::Term", "crate::grammar::ParseTree", "crate::grammar::ParseTreeNode"}


@rule("C05")
def _(ctx):
    return R.no_shared_state(ctx, OWNED, "parsers, grammars and trees cannot change behind a shared reference")


@rule("C06")
def _(ctx):
    return N.check(ctx, "syntax")


@rule("C10")
def _(ctx):
    return N.check(ctx, "group", only="grammar_complete")


@rule("C12")
def _(ctx):
    return N.check(ctx, "any")


@rule("C30")
def _(ctx):
    return N.check(ctx, "syntax", only="ABNF")


@rule("C32")
def _(ctx):
    return N.check(ctx, "blank") + N.room(ctx)


@rule("C25")
def _(ctx):
    return [D.propagates(ctx, r) for r in ROOTS if r["area"] == "display" and r["fn"].endswith("::fmt")]


@rule("C29")
def _(ctx):
    return R.structural(ctx)


@rule("C33")
def _(ctx):
    return R.memory_safe(ctx)


@rule("C07")
def _(ctx):
    """every function of the readers, on its own"""
    out = []
    fc = ctx.facts()
    named = {r["fn"] for r in ROOTS}
    for p, fn in sorted(fc.fns.items()):
        if p.startswith("crate::parsers::") and "{" not in p and p not in named and fn.d["kind"] in ("Fn", "AssocFn") and not fn.d["derived"]:
            out.append(D.panics(ctx, dict(fn=p, area="text", props=["C07"])))
    return out


FEATURE_SETS = ["", "ABNF", "serde", "ABNF,tracing,serde"]


@rule("C26")
def _(ctx):
    out = []
    for feat in FEATURE_SETS:
        for r in ROOTS:
            if r["area"] == "serde" and "serde" not in feat:
                continue
            out.append(D.same_in_build(ctx, r, feat))
        out += N.same_in_build(ctx, feat)
    return out


@rule("C27")
def _(ctx):
    from . import witness

    return witness.macros(ctx)


@rule("C34")
def _(ctx):
    from . import witness

    return witness.bounds(ctx)
