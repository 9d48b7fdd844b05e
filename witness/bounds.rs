//! Compiles only if the public types keep the bounds and lifetimes users rely on.
#![allow(dead_code)]
use bnf::{Expression, Grammar, GrammarParser, ParseTree, ParseTreeNode, Production, Term};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::str::FromStr;

fn shared<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe>() {}
fn value<T: Clone + Eq + Hash + Debug + Display + FromStr<Err = bnf::Error>>() {}
fn owned<T: 'static>() {}

pub fn share() {
    shared::<Term>();
    shared::<Expression>();
    shared::<Production>();
    shared::<Grammar>();
    shared::<bnf::Error>();
    shared::<ParseTree<'static>>();
    shared::<ParseTreeNode<'static>>();
    owned::<Term>();
    owned::<Expression>();
    owned::<Production>();
    owned::<Grammar>();
    owned::<bnf::Error>();
}

pub fn values() {
    value::<Term>();
    value::<Expression>();
    value::<Production>();
    value::<Grammar>();
    fn ord<T: Ord>() {}
    ord::<Term>();
    ord::<Expression>();
    fn err<T: std::error::Error + Send + Sync + Clone + Eq + 'static>() {}
    err::<bnf::Error>();
    fn tree<T: Clone + Eq + Debug + Display>() {}
    tree::<ParseTree<'static>>();
}

// a tree outlives the iteration that produced it
pub fn first<'g>(p: &'g GrammarParser<'g>, s: &'g str) -> Option<ParseTree<'g>> {
    p.parse_input(s).next()
}

// one parser, several parses at the same time
pub fn interleaved<'g>(p: &'g GrammarParser<'g>, a: &'g str, b: &'g str, t: &'g Term) -> Vec<ParseTree<'g>> {
    let mut x = p.parse_input(a);
    let mut y = p.parse_input_starting_with(b, t);
    let mut out = Vec::new();
    while let (Some(l), Some(r)) = (x.next(), y.next()) {
        out.push(l);
        out.push(r);
    }
    out
}

// a grammar can be read from several threads
pub fn threads(g: &Grammar, inputs: &[String]) -> usize {
    std::thread::scope(|sc| {
        inputs
            .iter()
            .map(|s| sc.spawn(move || g.build_parser().map(|p| p.parse_input(s).count()).unwrap_or(0)))
            .collect::<Vec<_>>()
            .into_iter()
            .map(|h| h.join().unwrap_or(0))
            .sum()
    })
}

// a grammar stays usable while its parser is alive, and after it
pub fn alongside(g: &mut Grammar, p: Production) -> String {
    {
        let parser = g.build_parser();
        let _ = (parser.is_ok(), g.validate(), g.to_string());
    }
    g.add_production(p);
    g.to_string()
}
