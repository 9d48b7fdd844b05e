-- terminates_loop_break
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  * init(?a, [])
      if always
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & !empty(?a) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & !empty(?a) & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & !empty(?a) & @1[*]~Nonterminal & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !empty(?a) & !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & none a1.productions
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !@2 & !empty(?a) & @1[*]~Nonterminal & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if !empty(?a) & contains(?a,index(a1.productions,0).lhs) & none a1.productions
      if empty(a1.productions)


-- terminates_no_early
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(?a) & !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(?a) & !empty(a1.productions)
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & !empty(?a) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * push(?a, a1.productions[*].lhs)
      if !empty(?a) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- expr_terminates_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(?a) & !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(?a) & !empty(a1.productions)
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & !empty(?a) & ?b & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
      if @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & ?b & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,index(a1.productions,0).lhs)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & ?b & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- gr_terminates_loop_break
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  let @3 = index(a1.productions,0).lhs
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & !empty(?a) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & !empty(?a) & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & !empty(?a) & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !empty(?a) & !eq(a1.productions[*].lhs,@3) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !@2 & !empty(?a) & !eq(a1.productions[*].lhs,@3) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & !eq(a1.productions[*].lhs,@3) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,@3) & !empty(a1.productions) & none a1.productions
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,@3) & none a1.productions
      if !@2 & !empty(?a) & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- gr_terminates_retain
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & !empty(?a) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * order(?b, at(push,a1.productions[*].lhs), at(push,a1.productions[*].lhs))
      if always
  * push(?a, ?b[*])
      if !empty(?a) & !empty(a1.productions) & each ?b
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none @1
  * push(?b, a1.productions[*].lhs)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & empty(?b)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !empty(?a) & contains(?a,index(a1.productions,0).lhs) & empty(?b)
      if empty(a1.productions)


-- ge_weighted_acc
fn <crate::generation::Weighted as crate::generation::GenerationStrategy>::choose
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:?a})
      if !eq(?a,0)
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(a2.rhs)})
      if eq(?a,0)
  * init(?a, 0)
      if always
  * init(?b, 0)
      if always
  * init(?c, [])
      if always
  * leave(?c)
      if !eq(?a,0) & first ?c & lt(Rng::random_range(a1.rng,Range{start:0,end:?a}),(?b+cast(u64,?c[*])))
  * push(?c, a1.non_recursive_weight)
      if !contains(a2.rhs[*].terms,a2.lhs) & each a2.rhs
  * push(?c, a1.recursive_weight)
      if contains(a2.rhs[*].terms,a2.lhs) & each a2.rhs
  * step(?a, (?a+cast(u64,?c[*])))
      if each ?c
  * step(?b, (?b+cast(u64,?c[*])))
      if !eq(?a,0) & !lt(Rng::random_range(a1.rng,Range{start:0,end:?a}),(?b+cast(u64,?c[*]))) & each ?c
  * ret(get(a2.rhs,#(?c)))
      if !eq(?a,0) & first ?c & lt(Rng::random_range(a1.rng,Range{start:0,end:?a}),(?b+cast(u64,?c[*])))
  * ret(get(a2.rhs,Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if eq(?a,0)
  * ret(get(a2.rhs,satsub(len(?c),1)))
      if !eq(?a,0) & none ?c


-- ga_below_limit_early
fn <crate::generation::DepthBounded as crate::generation::GenerationStrategy>::choose
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(?a)})
      if !empty(?a) & !lt(a3,a1.max_depth)
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(a2.rhs)})
      if empty(?a)
      if lt(a3,a1.max_depth)
  * init(?a, [])
      if always
  * leave(a2.rhs[*].terms)
      if !lt(a3,a1.max_depth) & a2.rhs[*].terms[*]~Nonterminal & each a2.rhs & first a2.rhs[*].terms
  * push(?a, #(a2.rhs))
      if !lt(a3,a1.max_depth) & each a2.rhs & none a2.rhs[*].terms
  * set(?a, [])
      if lt(a3,a1.max_depth)
  * ret(get(a2.rhs,Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if empty(?a)
      if lt(a3,a1.max_depth)
  * ret(get(a2.rhs,index(?a,Rng::random_range(a1.rng,Range{start:0,end:len(?a)}))))
      if !empty(?a) & !lt(a3,a1.max_depth)


-- ga_cov_retain
fn <crate::generation::CoverageGuided as crate::generation::GenerationStrategy>::choose
  let @1 = Vec::retain(?a,fn1(not(contains(a1.seen,(a2.lhs,p0)))))
  * call(alloc::vec::Vec::retain, ?a, fn1(not(contains(a1.seen,(a2.lhs,p0)))))
      if always
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(a2.rhs)})
      if empty(out(@1,0))
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(out(@1,0))})
      if !empty(out(@1,0))
  * init(?a, [])
      if always
  * push(?a, #(a2.rhs))
      if each a2.rhs
  * sadd(a1.seen, (out(@1,1.1),Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if empty(out(@1,0))
  * sadd(a1.seen, (out(@1,1.1),index(out(@1,0),Rng::random_range(a1.rng,Range{start:0,end:len(out(@1,0))}))))
      if !empty(out(@1,0))
  * ret(get(a2.rhs,Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if empty(out(@1,0))
  * ret(get(a2.rhs,index(out(@1,0),Rng::random_range(a1.rng,Range{start:0,end:len(out(@1,0))}))))
      if !empty(out(@1,0))


-- terminates__batch_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,a1.productions[*].rhs[*].terms[*]) & a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * order(?b, at(push,a1.productions[*].lhs), at(push,a1.productions[*].lhs))
      if always
  * push(?a, ?b[*])
      if !empty(a1.productions) & each ?b
  * push(?b, a1.productions[*].lhs)
      if !contains(?a,a1.productions[*].lhs) & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & empty(?b)
  * ret(true)
      if contains(?a,index(a1.productions,0).lhs) & empty(?b)
      if empty(a1.productions)


-- terminates__batch_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * order(?b, at(push,a1.productions[*].lhs), at(push,a1.productions[*].lhs))
      if always
  * push(?a, ?b[*])
      if !empty(a1.productions) & each ?b
  * push(?b, a1.productions[*].lhs)
      if !contains(?a,a1.productions[*].lhs) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !contains(?a,a1.productions[*].lhs) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & empty(?b)
  * ret(true)
      if contains(?a,index(a1.productions,0).lhs) & empty(?b)
      if empty(a1.productions)


-- terminates__flag_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(a1.productions)
  * leave(a1.productions[*].rhs[*].terms)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,a1.productions[*].rhs[*].terms[*]) & ?b & a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if ?b & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & ?b & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates__flag_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(a1.productions)
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * push(?a, a1.productions[*].lhs)
      if ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !contains(?a,a1.productions[*].lhs) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates__len_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,a1.productions[*].rhs[*].terms[*]) & a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates__len_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * push(?a, a1.productions[*].lhs)
      if @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates__loop_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,a1.productions[*].rhs[*].terms[*]) & a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates__loop_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * push(?a, a1.productions[*].lhs)
      if @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !contains(?a,a1.productions[*].lhs) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_e_flag_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(a1.productions)
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & ?b & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & ?b & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & ?b & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if !contains(?a,a1.productions[*].lhs) & ?b & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_e_flag_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  let @3 = index(a1.productions,0).lhs
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(a1.productions)
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & ?b & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & ?b & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,@3) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !eq(a1.productions[*].lhs,@3) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !@2 & !eq(a1.productions[*].lhs,@3) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !eq(a1.productions[*].lhs,@3) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,@3) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,@3)
      if !@2 & ?b & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & ?b & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_e_len_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & none a1.productions
  * ret(true)
      if !contains(?a,a1.productions[*].lhs) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if contains(?a,index(a1.productions,0).lhs) & none a1.productions
      if empty(a1.productions)


-- terminates_e_len_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = index(a1.productions,0).lhs
  let @3 = contains(?a,a1.productions[*].lhs)
  * init(?a, [])
      if always
  * leave(@1)
      if !@3 & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@3 & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@3 & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@2) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@3 & eq(a1.productions[*].lhs,@2) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,@2) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !eq(a1.productions[*].lhs,@2) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,@2) & !empty(a1.productions) & none a1.productions
  * ret(true)
      if !@3 & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@2) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@3 & eq(a1.productions[*].lhs,@2) & first a1.productions & first a1.productions[*].rhs & none @1
      if contains(?a,@2) & none a1.productions
      if empty(a1.productions)


-- terminates_e_loop_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & none a1.productions
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs) & none a1.productions
      if !contains(?a,a1.productions[*].lhs) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_e_loop_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  let @3 = index(a1.productions,0).lhs
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,@3) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !eq(a1.productions[*].lhs,@3) & each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !@2 & !eq(a1.productions[*].lhs,@3) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !eq(a1.productions[*].lhs,@3) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,@3) & !empty(a1.productions) & none a1.productions
  * ret(true)
      if !?b & contains(?a,@3) & none a1.productions
      if !@2 & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_s_batch_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * order(?a, at(push,a1.productions[*].lhs), at(push,a1.productions[*].lhs))
      if always
  * push(?a, a1.productions[*].lhs)
      if !contains(?b,a1.productions[*].lhs) & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * push(?b, ?a[*])
      if !empty(a1.productions) & each ?a
  * push(?b, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !contains(?b,index(a1.productions,0).lhs) & !empty(a1.productions) & empty(?a)
  * ret(true)
      if contains(?b,index(a1.productions,0).lhs) & empty(?a)
      if empty(a1.productions)


-- terminates_s_batch_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * order(?b, at(push,a1.productions[*].lhs), at(push,a1.productions[*].lhs))
      if always
  * push(?a, ?b[*])
      if !empty(a1.productions) & each ?b
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none @1
  * push(?b, a1.productions[*].lhs)
      if !contains(?a,a1.productions[*].lhs) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !contains(?a,a1.productions[*].lhs) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & empty(?b)
  * ret(true)
      if contains(?a,index(a1.productions,0).lhs) & empty(?b)
      if empty(a1.productions)


-- terminates_s_flag_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(a1.productions)
  * leave(a1.productions[*].rhs[*].terms)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & ?b & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_s_flag_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(a1.productions)
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * push(?a, a1.productions[*].lhs)
      if ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !contains(?a,a1.productions[*].lhs) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_s_len_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_s_loop_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_se_flag_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(a1.productions)
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & ?b & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
      if @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & ?b & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs)
      if !contains(?a,a1.productions[*].lhs) & ?b & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_se_flag_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  let @3 = index(a1.productions,0).lhs
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(a1.productions)
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & ?b & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & ?b & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,@3) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !@2 & !eq(a1.productions[*].lhs,@3) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !eq(a1.productions[*].lhs,@3) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,@3) & !empty(a1.productions)
  * ret(true)
      if !?b & contains(?a,@3)
      if !@2 & ?b & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & ?b & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_se_len_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
      if @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & none a1.productions
  * ret(true)
      if !contains(?a,a1.productions[*].lhs) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if contains(?a,index(a1.productions,0).lhs) & none a1.productions
      if empty(a1.productions)


-- terminates_se_len_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  * init(?a, [])
      if always
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & @1[*]~Nonterminal & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & none a1.productions
  * ret(true)
      if !@2 & @1[*]~Nonterminal & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if contains(?a,index(a1.productions,0).lhs) & none a1.productions
      if empty(a1.productions)


-- terminates_se_loop_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
      if @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & none a1.productions
  * ret(true)
      if !?b & contains(?a,index(a1.productions,0).lhs) & none a1.productions
      if !contains(?a,a1.productions[*].lhs) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_se_loop_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  let @3 = index(a1.productions,0).lhs
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !eq(a1.productions[*].lhs,@3) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !@2 & !eq(a1.productions[*].lhs,@3) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !eq(a1.productions[*].lhs,@3) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,@3) & !empty(a1.productions) & none a1.productions
  * ret(true)
      if !?b & contains(?a,@3) & none a1.productions
      if !@2 & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_sg_batch_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * order(?a, at(push,a1.productions[*].lhs), at(push,a1.productions[*].lhs))
      if always
  * push(?a, a1.productions[*].lhs)
      if !contains(?b,a1.productions[*].lhs) & !empty(?b) & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * push(?b, ?a[*])
      if !empty(?b) & !empty(a1.productions) & each ?a
  * push(?b, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !contains(?b,index(a1.productions,0).lhs) & !empty(a1.productions) & empty(?a)
      if !empty(a1.productions) & empty(?b)
  * ret(true)
      if !empty(?b) & contains(?b,index(a1.productions,0).lhs) & empty(?a)
      if empty(a1.productions)


-- terminates_sg_flag_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(?a) & !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(?a) & !empty(a1.productions)
  * leave(a1.productions[*].rhs[*].terms)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & ?b & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_sg_len_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !empty(?a) & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_sg_len_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & !empty(?a) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * push(?a, a1.productions[*].lhs)
      if !empty(?a) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !empty(?a) & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_sg_loop_all
fn crate::grammar::Grammar::terminates
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(a1.productions[*].rhs[*].terms)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first a1.productions[*].rhs[*].terms
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & each a1.productions & first a1.productions[*].rhs & none a1.productions[*].rhs[*].terms
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_sg_loop_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*1]) & !empty(?a) & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
  * push(?a, a1.productions[*].lhs)
      if !empty(?a) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,index(a1.productions,0).lhs)
      if empty(a1.productions)


-- terminates_sge_flag_each
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  let @3 = index(a1.productions,0).lhs
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(?a) & !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(?a) & !empty(a1.productions)
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & !empty(?a) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & !empty(?a) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & !empty(?a) & ?b & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & ?b & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !empty(?a) & !eq(a1.productions[*].lhs,@3) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !@2 & !empty(?a) & !eq(a1.productions[*].lhs,@3) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & !eq(a1.productions[*].lhs,@3) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,@3) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,@3)
      if !@2 & !empty(?a) & ?b & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & ?b & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)


-- terminates_sge_len_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & !empty(?a) & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
      if @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & none a1.productions
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if !empty(?a) & contains(?a,index(a1.productions,0).lhs) & none a1.productions
      if empty(a1.productions)


-- terminates_sge_loop_all
fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  * init(?a, [])
      if always
  * init(?b, false)
      if always
  * leave(@1)
      if !contains(?a,a1.productions[*].lhs) & !contains(?a,@1[*]) & !empty(?a) & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1
      if @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1
  * leave(a1.productions)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & !eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,index(a1.productions,0).lhs) & !empty(a1.productions) & none a1.productions
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,index(a1.productions,0).lhs) & none a1.productions
      if !contains(?a,a1.productions[*].lhs) & !empty(?a) & eq(a1.productions[*].lhs,index(a1.productions,0).lhs) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)

