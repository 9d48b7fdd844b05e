fn <crate::term::Term as core::str::traits::FromStr>::from_str
  * ret(Err{0:Error::ParseError{}})
      if parse(nom(combinator::all_consuming,term<BNF>),a1)~Err
  * ret(Ok{0:got(nom(combinator::all_consuming,term<BNF>),a1)})
      if parse(nom(combinator::all_consuming,term<BNF>),a1)~Ok

fn <crate::expression::Expression as core::str::traits::FromStr>::from_str
  * ret(Err{0:Error::ParseError{}})
      if parse(nom(combinator::all_consuming,expression<BNF>),a1)~Err
  * ret(Ok{0:got(nom(combinator::all_consuming,expression<BNF>),a1)})
      if parse(nom(combinator::all_consuming,expression<BNF>),a1)~Ok

fn <crate::production::Production as core::str::traits::FromStr>::from_str
  * ret(Err{0:Error::ParseError{}})
      if parse(nom(combinator::all_consuming,production<BNF>),a1)~Err
  * ret(Ok{0:got(nom(combinator::all_consuming,production<BNF>),a1)})
      if parse(nom(combinator::all_consuming,production<BNF>),a1)~Ok

fn <crate::grammar::Grammar as core::str::traits::FromStr>::from_str
  * ret(Err{0:Error::ParseError{}})
      if !parsers::is_format_standard_bnf(a1) & parsers::grammar_complete<ABNF>(a1)~Err
      if parsers::grammar_complete<BNF>(a1)~Err & parsers::is_format_standard_bnf(a1)
  * ret(Ok{0:parsers::grammar_complete<ABNF>(a1).Ok.0.1})
      if !parsers::is_format_standard_bnf(a1) & parsers::grammar_complete<ABNF>(a1)~Ok
  * ret(Ok{0:parsers::grammar_complete<BNF>(a1).Ok.0.1})
      if parsers::grammar_complete<BNF>(a1)~Ok & parsers::is_format_standard_bnf(a1)

fn crate::grammar::Grammar::parse_from
  * ret(Err{0:Error::ParseError{}})
      if parsers::grammar_complete<F>(a1)~Err
  * ret(Ok{0:parsers::grammar_complete<F>(a1).Ok.0.1})
      if parsers::grammar_complete<F>(a1)~Ok

fn <crate::error::Error as core::convert::From<nom::internal::Err>>::from
  * ret(Error::ParseError{})
      if always

fn <crate::error::Error as core::convert::From<nom::error::Error>>::from
  * ret(Error::ParseError{})
      if always

fn <crate::error::Error as core::convert::From<(&str,nom::error::ErrorKind)>>::from
  * ret(Error::ParseError{})
      if always

fn crate::parsers::whitespace_plus_comments
  let @1 = trimstart(?a,cls(whitespace))
  * init(?a, a1)
      if always
  * step(?a, @1)
      if !eq(len(?a),len(@1))
  * step(?a, slice(after(@1,";"),sfind(after(@1,";"),["\n","\r"]).Some.0,None))
      if eq(len(?a),len(@1)) & sfind(after(@1,";"),["\n","\r"])~Some & starts(@1,";")
  * ret(Ok{0:("","\0")})
      if eq(len(?a),len(@1)) & sfind(after(@1,";"),["\n","\r"])~None & starts(@1,";")
  * ret(Ok{0:(?a,"\0")})
      if !starts(@1,";") & eq(len(?a),len(@1))

fn crate::parsers::is_format_standard_bnf
  * ret(false)
      if !starts(parsers::whitespace_plus_comments(a1).Ok.0.0,"<")
  * ret(true)
      if starts(parsers::whitespace_plus_comments(a1).Ok.0.0,"<")

fn crate::parsers::grammar_has_extended_syntax
  * init(?a, false)
      if always
  * init(?b, false)
      if always
  * leave(chars(a1))
      if !?a & !?b & first chars(a1) & inset(chars(a1)[*],("(","[")) & scontains(a1,"(")
      if !?a & !?b & first chars(a1) & inset(chars(a1)[*],("(","[")) & scontains(a1,"[")
  * step(?a, false)
      if !?b & ?a & each chars(a1) & eq(chars(a1)[*],"'") & scontains(a1,"(")
      if !?b & ?a & each chars(a1) & eq(chars(a1)[*],"'") & scontains(a1,"[")
  * step(?a, true)
      if !?a & !?b & each chars(a1) & eq(chars(a1)[*],"'") & scontains(a1,"(")
      if !?a & !?b & each chars(a1) & eq(chars(a1)[*],"'") & scontains(a1,"[")
  * step(?b, false)
      if ?b & each chars(a1) & eq(chars(a1)[*],"\"") & scontains(a1,"(")
      if ?b & each chars(a1) & eq(chars(a1)[*],"\"") & scontains(a1,"[")
  * step(?b, true)
      if !?a & !?b & each chars(a1) & eq(chars(a1)[*],"\"") & scontains(a1,"(")
      if !?a & !?b & each chars(a1) & eq(chars(a1)[*],"\"") & scontains(a1,"[")
  * ret(false)
      if !scontains(a1,"(") & !scontains(a1,"[")
      if none chars(a1) & scontains(a1,"(")
      if none chars(a1) & scontains(a1,"[")
  * ret(true)
      if !?a & !?b & first chars(a1) & inset(chars(a1)[*],("(","[")) & scontains(a1,"(")
      if !?a & !?b & first chars(a1) & inset(chars(a1)[*],("(","[")) & scontains(a1,"[")

fn crate::parsers::nom_xt::xt_list_with_separator::{closure#0}
  * init(?a, [])
      if always
  * init(?b, a2)
      if always
  * push(?a, got(a1.0,?b))
      if parse(a1.0,?b)~Ok
  * step(?b, rest(a1.1,rest(a1.0,?b)))
      if parse(a1.0,?b)~Ok & parse(a1.1,rest(a1.0,?b))~Ok
  * ret(Err{0:perr(a1.0,?b)})
      if parse(a1.0,?b)~Err
  * ret(Err{0:perr(a1.1,rest(a1.0,?b))})
      if parse(a1.0,?b)~Ok & parse(a1.1,rest(a1.0,?b))~Err & perr(a1.1,rest(a1.0,?b))~Failure
      if parse(a1.0,?b)~Ok & parse(a1.1,rest(a1.0,?b))~Err & perr(a1.1,rest(a1.0,?b))~Incomplete
  * ret(Ok{0:(rest(a1.0,?b),?a)})
      if parse(a1.0,?b)~Ok & parse(a1.1,rest(a1.0,?b))~Err & perr(a1.1,rest(a1.0,?b))~Error

fn crate::parsers::normalize_parsed_grammar
  let @1 = a1.productions[*].Complex
  * call(crate::parsers::normalize_parsed_grammar::lower_term, @1.rhs[*].Terms.0[*], ?a, ?b, ?c)
      if each a1.productions & each @1.rhs & each @1.rhs[*].Terms.0
  * call(crate::parsers::normalize_parsed_grammar::record_referenced_names, @1.rhs[*], ?a)
      if each a1.productions & each @1.rhs
  * init(?a, emptymap())
      if always
  * init(?b, 0)
      if always
  * init(?c, [])
      if always
  * init(?d, [])
      if always
  * init(?e, [])
      if each a1.productions & each @1.rhs
  * init(?f, [])
      if each a1.productions
  * order(?d, at(push,Production{lhs:Term::Nonterminal{0:@1.lhs},rhs:?f}), at(push,?c[*]))
      if always
  * push(?d, ?c[*])
      if each ?c
  * push(?d, Production{lhs:Term::Nonterminal{0:@1.lhs},rhs:?f})
      if each a1.productions
  * push(?e, normalize_parsed_grammar::lower_term(@1.rhs[*].Terms.0[*],?a,?b,?c))
      if each a1.productions & each @1.rhs & each @1.rhs[*].Terms.0
  * push(?f, Expression{terms:?e})
      if each a1.productions & each @1.rhs
  * sadd(?a, @1.lhs)
      if each a1.productions
  * ret(Grammar{productions:?d})
      if always

fn crate::parsers::normalize_parsed_grammar::lower_term
  let @1 = contains(a2,cat("__anon",dec(a3)))
  * init(?a, [])
      if !@1 & each a1.Group.0
  * init(?b, [])
      if !@1 & each a1.Optional.0
  * init(?c, [])
      if always
  * init(?d, [])
      if always
  * init(a3, (a3+1))
      if !@1 & a1~Group
      if !@1 & a1~Optional
  * init(a3, old(a3))
      if a1~Group
      if a1~Optional
  * order(?c, at(push,Expression{terms:?a}), at(push,Expression{terms:[Term::Terminal{0:""}]}))
      if always
  * order(?d, at(push,Expression{terms:?b}), at(push,Expression{terms:[Term::Terminal{0:""}]}))
      if always
  * push(?a, normalize_parsed_grammar::lower_term(a1.Group.0[*].Terms.0[*],a2,a3,a4))
      if !@1 & each a1.Group.0 & each a1.Group.0[*].Terms.0
  * push(?b, normalize_parsed_grammar::lower_term(a1.Optional.0[*].Terms.0[*],a2,a3,a4))
      if !@1 & each a1.Optional.0 & each a1.Optional.0[*].Terms.0
  * push(?c, Expression{terms:?a})
      if !@1 & each a1.Group.0
  * push(?c, Expression{terms:[Term::Terminal{0:""}]})
      if !@1 & empty(?c)
  * push(?d, Expression{terms:?b})
      if !@1 & each a1.Optional.0
  * push(?d, Expression{terms:[Term::Terminal{0:""}]})
      if !@1
  * push(a4, Production{lhs:Term::Nonterminal{0:cat("__anon",dec(a3))},rhs:?c})
      if !@1 & a1~Group
  * push(a4, Production{lhs:Term::Nonterminal{0:cat("__anon",dec(a3))},rhs:?d})
      if !@1 & a1~Optional
  * rec(crate::parsers::normalize_parsed_grammar::lower_term, a1.Group.0[*].Terms.0[*], a2, a3, a4)
      if !@1 & each a1.Group.0 & each a1.Group.0[*].Terms.0
  * rec(crate::parsers::normalize_parsed_grammar::lower_term, a1.Optional.0[*].Terms.0[*], a2, a3, a4)
      if !@1 & each a1.Optional.0 & each a1.Optional.0[*].Terms.0
  * sadd(a2, cat("__anon",dec(a3)))
      if a1~Group
      if a1~Optional
  * set(a3, old(a3))
      if a1~Simple
  * step(a3, (a3+1))
      if a1~Group & @1
      if a1~Optional & @1
  * ret(Term::Nonterminal{0:cat("__anon",dec(a3))})
      if !@1 & a1~Group
      if !@1 & a1~Optional
  * ret(a1.Simple.0)
      if a1~Simple

fn crate::parsers::normalize_parsed_grammar::record_referenced_names
  * rec(crate::parsers::normalize_parsed_grammar::record_referenced_names, a1.Terms.0[*].Group.0[*], a2)
      if each a1.Terms.0 & each a1.Terms.0[*].Group.0
  * rec(crate::parsers::normalize_parsed_grammar::record_referenced_names, a1.Terms.0[*].Optional.0[*], a2)
      if each a1.Terms.0 & each a1.Terms.0[*].Optional.0
  * sadd(a2, a1.Terms.0[*].Simple.0.Nonterminal.0)
      if a1.Terms.0[*].Simple.0~Nonterminal & a1.Terms.0[*]~Simple & each a1.Terms.0
  * ret(())
      if always
