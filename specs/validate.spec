fn crate::grammar::Grammar::validate
  * init(?a, emptymap())
      if always
  * init(?b, emptymap())
      if always
  * sadd(?a, a1.productions[*].rhs[*].terms[*].Nonterminal.0)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & each a1.productions[*].rhs[*].terms
  * sadd(?b, a1.productions[*].lhs.Nonterminal.0)
      if a1.productions[*].lhs~Nonterminal & each a1.productions
  * ret(Err{0:Error::ValidationError{}})
      if !empty(a1.productions) & !empty(diff(?a,?b))
      if empty(a1.productions)
  * ret(Ok{0:()})
      if !empty(a1.productions) & empty(diff(?a,?b))
