-- text_ws_match
fn crate::parsers::whitespace_plus_comments
  let @1 = trimstart(?a,cls(whitespace))
  * init(?a, a1)
      if always
  * step(?a, slice(after(@1,";"),sfind(after(@1,";"),["\n","\r"]).Some.0,None))
      if sfind(after(@1,";"),["\n","\r"])~Some & starts(@1,";")
  * ret(Ok{0:("","\0")})
      if sfind(after(@1,";"),["\n","\r"])~None & starts(@1,";")
  * ret(Ok{0:(@1,"\0")})
      if !starts(@1,";")


-- tx_fresh_while
fn crate::parsers::normalize_parsed_grammar::lower_term
  * init(?a, [])
      if !contains(a2,?e) & each a1.Group.0
  * init(?b, [])
      if !contains(a2,?f) & each a1.Optional.0
  * init(?c, [])
      if always
  * init(?d, [])
      if always
  * init(?e, cat("__anon",dec(old(a3))))
      if always
  * init(?f, cat("__anon",dec(old(a3))))
      if always
  * init(a3, (old(a3)+1))
      if a1~Group
      if a1~Optional
  * order(?c, at(push,Expression{terms:?a}), at(push,Expression{terms:[Term::Terminal{0:""}]}))
      if always
  * order(?d, at(push,Expression{terms:?b}), at(push,Expression{terms:[Term::Terminal{0:""}]}))
      if always
  * push(?a, normalize_parsed_grammar::lower_term(a1.Group.0[*].Terms.0[*],a2,a3,a4))
      if !contains(a2,?e) & each a1.Group.0 & each a1.Group.0[*].Terms.0
  * push(?b, normalize_parsed_grammar::lower_term(a1.Optional.0[*].Terms.0[*],a2,a3,a4))
      if !contains(a2,?f) & each a1.Optional.0 & each a1.Optional.0[*].Terms.0
  * push(?c, Expression{terms:?a})
      if !contains(a2,?e) & each a1.Group.0
  * push(?c, Expression{terms:[Term::Terminal{0:""}]})
      if !contains(a2,?e) & empty(?c)
  * push(?d, Expression{terms:?b})
      if !contains(a2,?f) & each a1.Optional.0
  * push(?d, Expression{terms:[Term::Terminal{0:""}]})
      if !contains(a2,?f)
  * push(a4, Production{lhs:Term::Nonterminal{0:?e},rhs:?c})
      if !contains(a2,?e) & a1~Group
  * push(a4, Production{lhs:Term::Nonterminal{0:?f},rhs:?d})
      if !contains(a2,?f) & a1~Optional
  * rec(crate::parsers::normalize_parsed_grammar::lower_term, a1.Group.0[*].Terms.0[*], a2, a3, a4)
      if !contains(a2,?e) & each a1.Group.0 & each a1.Group.0[*].Terms.0
  * rec(crate::parsers::normalize_parsed_grammar::lower_term, a1.Optional.0[*].Terms.0[*], a2, a3, a4)
      if !contains(a2,?f) & each a1.Optional.0 & each a1.Optional.0[*].Terms.0
  * sadd(a2, ?e)
      if a1~Group
  * sadd(a2, ?f)
      if a1~Optional
  * set(a3, old(a3))
      if a1~Simple
  * step(?e, cat("__anon",dec(a3)))
      if a1~Group & contains(a2,?e)
  * step(?f, cat("__anon",dec(a3)))
      if a1~Optional & contains(a2,?f)
  * step(a3, (a3+1))
      if a1~Group & contains(a2,?e)
      if a1~Optional & contains(a2,?f)
  * ret(Term::Nonterminal{0:?e})
      if !contains(a2,?e) & a1~Group
  * ret(Term::Nonterminal{0:?f})
      if !contains(a2,?f) & a1~Optional
  * ret(a1.Simple.0)
      if a1~Simple


-- tx_ws_recursive
fn crate::parsers::whitespace_plus_comments
  let @1 = trimstart(a1,cls(whitespace))
  * ret(Ok{0:("","\0")})
      if sfind(after(@1,";"),["\n","\r"])~None & starts(@1,";")
  * ret(Ok{0:(@1,"\0")})
      if !starts(@1,";")
  * ret(parsers::whitespace_plus_comments(slice(after(@1,";"),sfind(after(@1,";"),["\n","\r"]).Some.0,None)))
      if sfind(after(@1,";"),["\n","\r"])~Some & starts(@1,";")


-- tx_ws_while_let
fn crate::parsers::whitespace_plus_comments
  * init(?a, trimstart(a1,cls(whitespace)))
      if always
  * step(?a, "")
      if sfind(after(?a,";"),["\n","\r"])~None & starts(?a,";")
  * step(?a, trimstart(slice(after(?a,";"),sfind(after(?a,";"),["\n","\r"]).Some.0,None),cls(whitespace)))
      if sfind(after(?a,";"),["\n","\r"])~Some & starts(?a,";")
  * ret(Ok{0:(?a,"\0")})
      if !starts(?a,";")


-- ub_xt_first
fn crate::parsers::nom_xt::xt_list_with_separator::{closure#0}
  * init(?a, [got(a1.0,a2)])
      if always
  * init(?b, rest(a1.0,a2))
      if always
  * push(?a, got(a1.0,rest(a1.1,?b)))
      if parse(a1.0,rest(a1.1,?b))~Ok & parse(a1.1,?b)~Ok
  * step(?b, rest(a1.0,rest(a1.1,?b)))
      if parse(a1.0,rest(a1.1,?b))~Ok & parse(a1.1,?b)~Ok
  * ret(Err{0:perr(a1.0,a2)})
      if parse(a1.0,a2)~Err
  * ret(Err{0:perr(a1.0,rest(a1.1,?b))})
      if parse(a1.0,a2)~Ok & parse(a1.0,rest(a1.1,?b))~Err & parse(a1.1,?b)~Ok
  * ret(Err{0:perr(a1.1,?b)})
      if parse(a1.0,a2)~Ok & parse(a1.1,?b)~Err & perr(a1.1,?b)~Failure
      if parse(a1.0,a2)~Ok & parse(a1.1,?b)~Err & perr(a1.1,?b)~Incomplete
  * ret(Ok{0:(?b,?a)})
      if parse(a1.0,a2)~Ok & parse(a1.1,?b)~Err & perr(a1.1,?b)~Error

