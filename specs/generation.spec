fn crate::grammar::Grammar::traverse_with_strategy
  let @1 = GenerationStrategy::choose(a4,a1.productions[*],a5)
  let @2 = a1.productions[*].lhs.Nonterminal.0
  let @3 = Grammar::traverse_with_strategy(a1,@6[*].Nonterminal.0,a3,a4,(a5+1))
  let @4 = empty(a1.productions[*].rhs)
  let @5 = empty(index(a1.productions[*].rhs,0).terms)
  let @6 = @1.Some.0.terms
  let @7 = len(a1.productions[*].rhs)
  * apply(a3, a2, ?a)
      if !@4 & !@5 & @1~Some & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first a1.productions & none @6
      if !@4 & !eq(@7,1) & @1~Some & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first a1.productions & none @6
  * call(crate::generation::GenerationStrategy::choose, a4, a1.productions[*], a5)
      if !@4 & !@5 & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first a1.productions
      if !@4 & !eq(@7,1) & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first a1.productions
  * init(?a, "")
      if !@4 & !@5 & @1~Some & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first a1.productions
      if !@4 & !eq(@7,1) & @1~Some & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first a1.productions
  * leave(@6)
      if !@5 & @6[*]~Nonterminal & @3~Err & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first @6 & first a1.productions & first a1.productions[*].rhs & ptreq(@1.Some.0,a1.productions[*].rhs[*])
      if !eq(@7,1) & @6[*]~Nonterminal & @3~Err & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first @6 & first a1.productions & first a1.productions[*].rhs & ptreq(@1.Some.0,a1.productions[*].rhs[*])
  * rec(crate::grammar::Grammar::traverse_with_strategy, a1, @6[*].Nonterminal.0, a3, a4, (a5+1))
      if !@4 & !@5 & @6[*]~Nonterminal & a1.productions[*].lhs~Nonterminal & each @6 & eq(@2,a2) & first a1.productions
      if !@4 & !eq(@7,1) & @6[*]~Nonterminal & a1.productions[*].lhs~Nonterminal & each @6 & eq(@2,a2) & first a1.productions
  * step(?a, cat(?a,@3.Ok.0))
      if !@4 & !@5 & @6[*]~Nonterminal & @3~Ok & a1.productions[*].lhs~Nonterminal & each @6 & eq(@2,a2) & first a1.productions
      if !@4 & !eq(@7,1) & @6[*]~Nonterminal & @3~Ok & a1.productions[*].lhs~Nonterminal & each @6 & eq(@2,a2) & first a1.productions
  * step(?a, cat(?a,@6[*].Terminal.0))
      if !@4 & !@5 & @6[*]~Terminal & a1.productions[*].lhs~Nonterminal & each @6 & eq(@2,a2) & first a1.productions
      if !@4 & !eq(@7,1) & @6[*]~Terminal & a1.productions[*].lhs~Nonterminal & each @6 & eq(@2,a2) & first a1.productions
  * ret(Err{0:@3.Err.0})
      if !@4 & !@5 & @6[*]~Nonterminal & @3~Err & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first @6 & first a1.productions
      if !@4 & !eq(@7,1) & @6[*]~Nonterminal & @3~Err & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first @6 & first a1.productions
  * ret(Err{0:Error::GenerateError{}})
      if !@4 & !@5 & @1~None & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first a1.productions
      if !@4 & !eq(@7,1) & @1~None & a1.productions[*].lhs~Nonterminal & eq(@2,a2) & first a1.productions
      if a1.productions[*].lhs~Nonterminal & @4 & eq(@2,a2) & first a1.productions
      if a1.productions[*].lhs~Nonterminal & @5 & eq(@2,a2) & eq(@7,1) & first a1.productions
  * ret(Ok{0:?a})
      if !@4 & !@5 & @1~Some & a1.productions[*].lhs~Nonterminal & apply(a3,a2,?a) & eq(@2,a2) & first a1.productions & none @6
      if !@4 & !eq(@7,1) & @1~Some & a1.productions[*].lhs~Nonterminal & apply(a3,a2,?a) & eq(@2,a2) & first a1.productions & none @6
  * ret(Ok{0:cat("<",a2,">")})
      if none a1.productions

fn crate::grammar::Grammar::terminates
  let @1 = a1.productions[*].rhs[*].terms
  let @2 = contains(?a,a1.productions[*].lhs)
  let @3 = index(a1.productions,0).lhs
  * init(?a, [])
      if always
  * init(?b, false)
      if !empty(?a) & !empty(a1.productions) & ?b
  * init(?b, true)
      if !empty(?a) & !empty(a1.productions)
  * leave(@1)
      if !@2 & !contains(?a,@1[*1]) & !empty(?a) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & first @1 & first @1*1
      if !@2 & !contains(?a,@1[*1]) & !empty(?a) & ?b & @1[*1]~Nonterminal & @1[*]~Nonterminal & first a1.productions & first a1.productions[*].rhs & first @1 & first @1*1
  * leave(a1.productions)
      if !@2 & !empty(?a) & ?b & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & ?b & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
  * push(?a, a1.productions[*].lhs)
      if !empty(?a) & !eq(a1.productions[*].lhs,@3) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if each a1.productions & first a1.productions[*].rhs & none @1
  * step(?b, true)
      if !@2 & !empty(?a) & !eq(a1.productions[*].lhs,@3) & ?b & @1[*]~Nonterminal & each a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & !eq(a1.productions[*].lhs,@3) & ?b & each a1.productions & first a1.productions[*].rhs & none @1
  * ret(false)
      if !?b & !contains(?a,@3) & !empty(a1.productions)
      if !empty(a1.productions) & empty(?a)
  * ret(true)
      if !?b & !empty(?a) & contains(?a,@3)
      if !@2 & !empty(?a) & ?b & @1[*]~Nonterminal & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & first @1 & none @1*1
      if !@2 & !empty(?a) & ?b & eq(a1.productions[*].lhs,@3) & first a1.productions & first a1.productions[*].rhs & none @1
      if empty(a1.productions)

fn crate::grammar::Grammar::generate
  * call(crate::grammar::Grammar::traverse_with_strategy, a1, index(a1.productions,0).lhs.Nonterminal.0, fn2(true), RandomWalk{rng:ambient()}, 0)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal
  * ret(Err{0:Error::GenerateError{}})
      if !Grammar::terminates(a1)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Terminal
      if Grammar::terminates(a1) & empty(a1.productions)
  * ret(Grammar::traverse_with_strategy(a1,index(a1.productions,0).lhs.Nonterminal.0,fn2(true),RandomWalk{rng:ambient()},0))
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal

fn crate::grammar::Grammar::generate_callback
  * call(crate::grammar::Grammar::traverse_with_strategy, a1, index(a1.productions,0).lhs.Nonterminal.0, a2, RandomWalk{rng:ambient()}, 0)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal
  * ret(Err{0:Error::GenerateError{}})
      if !Grammar::terminates(a1)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Terminal
      if Grammar::terminates(a1) & empty(a1.productions)
  * ret(Grammar::traverse_with_strategy(a1,index(a1.productions,0).lhs.Nonterminal.0,a2,RandomWalk{rng:ambient()},0))
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal

fn crate::grammar::Grammar::generate_seeded
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, out(Rng::fill(a2,rep(0,32)),1))
      if always
  * call(crate::grammar::Grammar::traverse_with_strategy, a1, index(a1.productions,0).lhs.Nonterminal.0, fn2(true), RandomWalk{rng:SeedableRng>::from_seed(out(Rng::fill(a2,rep(0,32)),1))}, 0)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal
  * call(rand::rng::Rng::fill, a2, rep(0,32))
      if always
  * ret(Err{0:Error::GenerateError{}})
      if !Grammar::terminates(a1)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Terminal
      if Grammar::terminates(a1) & empty(a1.productions)
  * ret(Grammar::traverse_with_strategy(a1,index(a1.productions,0).lhs.Nonterminal.0,fn2(true),RandomWalk{rng:SeedableRng>::from_seed(out(Rng::fill(a2,rep(0,32)),1))},0))
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal

fn crate::grammar::Grammar::generate_seeded_callback
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, out(Rng::fill(a2,rep(0,32)),1))
      if always
  * call(crate::grammar::Grammar::traverse_with_strategy, a1, index(a1.productions,0).lhs.Nonterminal.0, a3, RandomWalk{rng:SeedableRng>::from_seed(out(Rng::fill(a2,rep(0,32)),1))}, 0)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal
  * call(rand::rng::Rng::fill, a2, rep(0,32))
      if always
  * ret(Err{0:Error::GenerateError{}})
      if !Grammar::terminates(a1)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Terminal
      if Grammar::terminates(a1) & empty(a1.productions)
  * ret(Grammar::traverse_with_strategy(a1,index(a1.productions,0).lhs.Nonterminal.0,a3,RandomWalk{rng:SeedableRng>::from_seed(out(Rng::fill(a2,rep(0,32)),1))},0))
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal

fn crate::grammar::Grammar::generate_seeded_with_strategy
  * call(crate::grammar::Grammar::traverse_with_strategy, a1, index(a1.productions,0).lhs.Nonterminal.0, fn2(true), a2, 0)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal
  * ret(Err{0:Error::GenerateError{}})
      if !Grammar::terminates(a1)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Terminal
      if Grammar::terminates(a1) & empty(a1.productions)
  * ret(Grammar::traverse_with_strategy(a1,index(a1.productions,0).lhs.Nonterminal.0,fn2(true),a2,0))
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal

fn crate::grammar::Grammar::generate_seeded_callback_with_strategy
  * call(crate::grammar::Grammar::traverse_with_strategy, a1, index(a1.productions,0).lhs.Nonterminal.0, a2, a3, 0)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal
  * ret(Err{0:Error::GenerateError{}})
      if !Grammar::terminates(a1)
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Terminal
      if Grammar::terminates(a1) & empty(a1.productions)
  * ret(Grammar::traverse_with_strategy(a1,index(a1.productions,0).lhs.Nonterminal.0,a2,a3,0))
      if !empty(a1.productions) & Grammar::terminates(a1) & index(a1.productions,0).lhs~Nonterminal

fn <crate::generation::RandomWalk as crate::generation::GenerationStrategy>::choose
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(a2.rhs)})
      if always
  * ret(get(a2.rhs,Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if always

fn <crate::generation::DepthBounded as crate::generation::GenerationStrategy>::choose
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(?a)})
      if !empty(?a)
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(a2.rhs)})
      if empty(?a)
  * init(?a, [])
      if always
  * leave(a2.rhs[*].terms)
      if !lt(a3,a1.max_depth) & a2.rhs[*].terms[*]~Nonterminal & each a2.rhs & first a2.rhs[*].terms
  * push(?a, #(a2.rhs))
      if each a2.rhs & lt(a3,a1.max_depth)
      if each a2.rhs & none a2.rhs[*].terms
  * ret(get(a2.rhs,Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if empty(?a)
  * ret(get(a2.rhs,index(?a,Rng::random_range(a1.rng,Range{start:0,end:len(?a)}))))
      if !empty(?a)

fn <crate::generation::CoverageGuided as crate::generation::GenerationStrategy>::choose
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(?a)})
      if !empty(?a)
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(a2.rhs)})
      if empty(?a)
  * init(?a, [])
      if always
  * push(?a, #(a2.rhs))
      if !contains(a1.seen,(a2.lhs,#(a2.rhs))) & each a2.rhs
  * sadd(a1.seen, (a2.lhs,Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if empty(?a)
  * sadd(a1.seen, (a2.lhs,index(?a,Rng::random_range(a1.rng,Range{start:0,end:len(?a)}))))
      if !empty(?a)
  * ret(get(a2.rhs,Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if empty(?a)
  * ret(get(a2.rhs,index(?a,Rng::random_range(a1.rng,Range{start:0,end:len(?a)}))))
      if !empty(?a)

fn <crate::generation::Weighted as crate::generation::GenerationStrategy>::choose
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:?a})
      if !eq(?a,0)
  * call(rand::rng::Rng::random_range, a1.rng, Range{start:0,end:len(a2.rhs)})
      if eq(?a,0)
  * init(?a, 0)
      if always
  * init(?b, Rng::random_range(a1.rng,Range{start:0,end:?a}))
      if always
  * init(?c, [])
      if always
  * leave(?c)
      if !eq(?a,0) & first ?c & lt(?b,cast(u64,?c[*]))
  * push(?c, a1.non_recursive_weight)
      if !contains(a2.rhs[*].terms,a2.lhs) & each a2.rhs
  * push(?c, a1.recursive_weight)
      if contains(a2.rhs[*].terms,a2.lhs) & each a2.rhs
  * step(?a, (?a+cast(u64,?c[*])))
      if each ?c
  * step(?b, (-cast(u64,?c[*])+?b))
      if !eq(?a,0) & !lt(?b,cast(u64,?c[*])) & each ?c
  * ret(get(a2.rhs,#(?c)))
      if !eq(?a,0) & first ?c & lt(?b,cast(u64,?c[*]))
  * ret(get(a2.rhs,Rng::random_range(a1.rng,Range{start:0,end:len(a2.rhs)})))
      if eq(?a,0)
  * ret(get(a2.rhs,satsub(len(?c),1)))
      if !eq(?a,0) & none ?c

fn crate::generation::RandomWalk::from_seed
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, a1)
      if always
  * ret(RandomWalk{rng:SeedableRng>::from_seed(a1)})
      if always

fn crate::generation::DepthBounded::from_seed
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, a2)
      if always
  * ret(DepthBounded{max_depth:a1,rng:SeedableRng>::from_seed(a2),eligible_buf:[]})
      if always

fn crate::generation::DepthBounded::new
  * ret(DepthBounded{max_depth:a1,rng:ambient(),eligible_buf:[]})
      if always

fn crate::generation::CoverageGuided::from_seed
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, a1)
      if always
  * ret(CoverageGuided{seen:emptymap(),rng:SeedableRng>::from_seed(a1),candidates_buf:[]})
      if always

fn crate::generation::CoverageGuided::new
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, rep(0,32))
      if always
  * ret(CoverageGuided{seen:emptymap(),rng:SeedableRng>::from_seed(rep(0,32)),candidates_buf:[]})
      if always

fn crate::generation::Weighted::from_seed
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, a3)
      if always
  * ret(Weighted{recursive_weight:a1,non_recursive_weight:a2,rng:SeedableRng>::from_seed(a3),weights_buf:[]})
      if always

fn crate::generation::Weighted::new
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, rep(0,32))
      if always
  * ret(Weighted{recursive_weight:a1,non_recursive_weight:a2,rng:SeedableRng>::from_seed(rep(0,32)),weights_buf:[]})
      if always

fn <crate::generation::RandomWalk as core::default::Default>::default
  * ret(RandomWalk{rng:ambient()})
      if always

fn <crate::generation::CoverageGuided as core::default::Default>::default
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, rep(0,32))
      if always
  * ret(CoverageGuided{seen:emptymap(),rng:SeedableRng>::from_seed(rep(0,32)),candidates_buf:[]})
      if always

fn <crate::generation::Weighted as core::default::Default>::default
  * call(<rand::rngs::std::StdRng as rand_core::SeedableRng>::from_seed, rep(0,32))
      if always
  * ret(Weighted{recursive_weight:100,non_recursive_weight:1,rng:SeedableRng>::from_seed(rep(0,32)),weights_buf:[]})
      if always
