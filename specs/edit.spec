fn crate::expression::Expression::new
  * ret(Expression{terms:[]})
      if always

fn crate::expression::Expression::from_parts
  * ret(Expression{terms:a1})
      if always

fn crate::expression::Expression::add_term
  * push(a1.terms, a2)
      if always
  * ret(())
      if always

fn crate::expression::Expression::remove_term
  * remove(a1.terms, #(a1.terms))
      if eq(a1.terms[*],a2) & first a1.terms
  * ret(None{})
      if none a1.terms
  * ret(Some{0:a1.terms[*]})
      if eq(a1.terms[*],a2) & first a1.terms

fn crate::expression::Expression::terms_iter
  * ret(over(a1.terms))
      if always

fn crate::expression::Expression::terms_iter_mut
  * ret(over(a1.terms))
      if always

fn crate::production::Production::new
  * ret(Production{lhs:Term::Nonterminal{0:""},rhs:[]})
      if always

fn crate::production::Production::from_parts
  * ret(Production{lhs:a1,rhs:a2})
      if always

fn crate::production::Production::add_to_rhs
  * push(a1.rhs, a2)
      if always
  * ret(())
      if always

fn crate::production::Production::remove_from_rhs
  * remove(a1.rhs, #(a1.rhs))
      if eq(a1.rhs[*],a2) & first a1.rhs
  * ret(None{})
      if none a1.rhs
  * ret(Some{0:a1.rhs[*]})
      if eq(a1.rhs[*],a2) & first a1.rhs

fn crate::production::Production::rhs_iter
  * ret(over(a1.rhs))
      if always

fn crate::production::Production::rhs_iter_mut
  * ret(over(a1.rhs))
      if always

fn crate::production::Production::len
  * ret(len(a1.rhs))
      if always

fn crate::production::Production::is_empty
  * ret(false)
      if !empty(a1.rhs)
  * ret(true)
      if empty(a1.rhs)

fn <crate::production::Production as core::default::Default>::default
  * ret(Production{lhs:Term::Nonterminal{0:""},rhs:[]})
      if always

fn crate::production::Production::get_expression
  * ret(get(a1.rhs,a2))
      if always

fn crate::grammar::Grammar::new
  * ret(Grammar{productions:[]})
      if always

fn crate::grammar::Grammar::from_parts
  * ret(Grammar{productions:a1})
      if always

fn crate::grammar::Grammar::add_production
  * push(a1.productions, a2)
      if always
  * ret(())
      if always

fn crate::grammar::Grammar::remove_production
  * swap_remove(a1.productions, #(a1.productions))
      if eq(a1.productions[*],a2) & first a1.productions
  * ret(None{})
      if none a1.productions
  * ret(Some{0:a1.productions[*]})
      if eq(a1.productions[*],a2) & first a1.productions

fn crate::grammar::Grammar::productions_iter
  * ret(over(a1.productions))
      if always

fn crate::grammar::Grammar::productions_iter_mut
  * ret(over(a1.productions))
      if always

fn <crate::term::Term as core::ops::arith::Add<crate::term::Term>>::add
  * ret(Expression{terms:[a1,a2]})
      if always

fn <crate::term::Term as core::ops::arith::Add<crate::expression::Expression>>::add
  * ret(Expression{terms:app(a2.terms,a1)})
      if always

fn <crate::term::Term as core::ops::arith::Add<&crate::expression::Expression>>::add
  * ret(Expression{terms:app(a2.terms,a1)})
      if always

fn <crate::expression::Expression as core::ops::arith::Add<crate::term::Term>>::add
  * ret(Expression{terms:app(a1.terms,a2)})
      if always

fn <crate::expression::Expression as core::ops::arith::Add<crate::expression::Expression>>::add
  * init(?a, a1.terms)
      if always
  * push(?a, a2.terms[*])
      if each a2.terms
  * ret(Expression{terms:?a})
      if always

fn <&crate::expression::Expression as core::ops::arith::Add<crate::term::Term>>::add
  * ret(Expression{terms:app(a1.terms,a2)})
      if always

fn <&crate::expression::Expression as core::ops::arith::Add<crate::expression::Expression>>::add
  * init(?a, a1.terms)
      if always
  * push(?a, a2.terms[*])
      if each a2.terms
  * ret(Expression{terms:?a})
      if always

fn crate::grammar::ParseTree::rhs_iter
  * ret(over(a1.rhs))
      if always

fn crate::grammar::ParseTree::rhs_iter_mut
  * ret(over(a1.rhs))
      if always
