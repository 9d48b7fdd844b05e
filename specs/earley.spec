fn crate::earley::earley
  let @1 = index(a2.arena.vec,popped(front,a1.queue).0)
  let @2 = (@11.offset.len+@11.offset.start)
  let @3 = mslot(a3.incomplete,(index(a4.productions.vec,@1.production_id.0).lhs,@11.offset.start))
  let @4 = index(@1.unmatched,0)
  let @5 = contains(a2.edges,(@16,@1.id))
  let @6 = index(a4.productions.vec,mslot(a4.prods_by_lhs,@4)[*].0)
  let @7 = TermMatch::Nonterminal{0:@17[*]}
  let @8 = empty(@1.unmatched)
  let @9 = contains(a2.edges,(@13,@12.id))
  let @10 = TraversalId{0:len(a2.arena.vec)}
  let @11 = @1.input_range
  let @12 = index(a2.arena.vec,@3[*].0)
  let @13 = TermMatch::Nonterminal{0:popped(front,a1.queue)}
  let @14 = getr(@11.input,@2,None)
  let @15 = starts(slice(@11.input,@2,None),@4.Terminal.0)
  let @16 = TermMatch::Terminal{0:@4.Terminal.0}
  let @17 = mslot(a3.complete,(@4,@2))
  let @18 = contains(a2.tree_roots,(@6.id,@2))
  * mput(a2.edges, (@13,@12.id), @10)
      if !@9 & !empty(a1.queue) & each @3 & @8
  * mput(a2.edges, (@16,@1.id), @10)
      if !@5 & !empty(a1.queue) & !@8 & @14~None & @4~Terminal & starts("",@4.Terminal.0)
      if !@5 & !empty(a1.queue) & !@8 & @14~Some & @4~Terminal & @15
  * mput(a2.edges, (@7,@1.id), @10)
      if !contains(a2.edges,(@7,@1.id)) & !empty(a1.queue) & !@8 & each @17 & @4~Nonterminal
  * mput(a2.tree_roots, (@6.id,@2), @10)
      if !@18 & !empty(a1.queue) & !@8 & each mslot(a4.prods_by_lhs,@4) & @4~Nonterminal
  * popfront(a1.queue, popped(front,a1.queue))
      if !empty(a1.queue)
  * push(a1.queue, @10)
      if !contains(a1.processed,@10) & !contains(a2.edges,(@7,@1.id)) & !empty(a1.queue) & !@8 & each @17 & @4~Nonterminal
      if !contains(a1.processed,@10) & !@9 & !empty(a1.queue) & each @3 & @8
      if !contains(a1.processed,@10) & !@5 & !empty(a1.queue) & !@8 & @14~None & @4~Terminal & starts("",@4.Terminal.0)
      if !contains(a1.processed,@10) & !@5 & !empty(a1.queue) & !@8 & @14~Some & @4~Terminal & @15
      if !contains(a1.processed,@10) & !@18 & !empty(a1.queue) & !@8 & each mslot(a4.prods_by_lhs,@4) & @4~Nonterminal
  * push(a1.queue, mslot(a2.edges,(@13,@12.id)))
      if !contains(a1.processed,mslot(a2.edges,(@13,@12.id))) & !empty(a1.queue) & @9 & each @3 & @8
  * push(a1.queue, mslot(a2.edges,(@16,@1.id)))
      if !contains(a1.processed,mslot(a2.edges,(@16,@1.id))) & !empty(a1.queue) & !@8 & @5 & @14~None & @4~Terminal & starts("",@4.Terminal.0)
      if !contains(a1.processed,mslot(a2.edges,(@16,@1.id))) & !empty(a1.queue) & !@8 & @5 & @14~Some & @4~Terminal & @15
  * push(a1.queue, mslot(a2.edges,(@7,@1.id)))
      if !contains(a1.processed,mslot(a2.edges,(@7,@1.id))) & !empty(a1.queue) & !@8 & contains(a2.edges,(@7,@1.id)) & each @17 & @4~Nonterminal
  * push(a1.queue, mslot(a2.tree_roots,(@6.id,@2)))
      if !contains(a1.processed,mslot(a2.tree_roots,(@6.id,@2))) & !empty(a1.queue) & !@8 & @18 & each mslot(a4.prods_by_lhs,@4) & @4~Nonterminal
  * push(a2.arena.vec, Traversal{id:@10,unmatched:@6.rhs.terms,input_range:InputRange{input:@11.input,offset:InputRangeOffset{start:@2,len:0}},production_id:@6.id,is_starting:false,from:None{}})
      if !@18 & !empty(a1.queue) & !@8 & each mslot(a4.prods_by_lhs,@4) & @4~Nonterminal
  * push(a2.arena.vec, Traversal{id:@10,unmatched:slice(@1.unmatched,1,None),input_range:InputRange{input:@11.input,offset:InputRangeOffset{start:@11.offset.start,len:min((-@11.offset.start+len(@11.input)),(@11.offset.len+len(@4.Terminal.0)))}},production_id:@1.production_id,is_starting:@1.is_starting,from:Some{0:TraversalEdge{term:@16,parent_id:@1.id}}})
      if !@5 & !empty(a1.queue) & !@8 & @14~None & @4~Terminal & starts("",@4.Terminal.0)
      if !@5 & !empty(a1.queue) & !@8 & @14~Some & @4~Terminal & @15
  * push(a2.arena.vec, Traversal{id:@10,unmatched:slice(@1.unmatched,1,None),input_range:InputRange{input:@11.input,offset:InputRangeOffset{start:@11.offset.start,len:min((-@11.offset.start+len(@11.input)),(index(a2.arena.vec,@17[*].0).input_range.offset.len+@11.offset.len))}},production_id:@1.production_id,is_starting:@1.is_starting,from:Some{0:TraversalEdge{term:@7,parent_id:@1.id}}})
      if !contains(a2.edges,(@7,@1.id)) & !empty(a1.queue) & !@8 & each @17 & @4~Nonterminal
  * push(a2.arena.vec, Traversal{id:@10,unmatched:slice(@12.unmatched,1,None),input_range:InputRange{input:@12.input_range.input,offset:InputRangeOffset{start:@12.input_range.offset.start,len:min((-@12.input_range.offset.start+len(@12.input_range.input)),(@12.input_range.offset.len+@11.offset.len))}},production_id:@12.production_id,is_starting:@12.is_starting,from:Some{0:TraversalEdge{term:@13,parent_id:@12.id}}})
      if !@9 & !empty(a1.queue) & each @3 & @8
  * sadd(a1.processed, @10)
      if !contains(a2.edges,(@7,@1.id)) & !empty(a1.queue) & !@8 & each @17 & @4~Nonterminal
      if !@9 & !empty(a1.queue) & each @3 & @8
      if !@5 & !empty(a1.queue) & !@8 & @14~None & @4~Terminal & starts("",@4.Terminal.0)
      if !@5 & !empty(a1.queue) & !@8 & @14~Some & @4~Terminal & @15
      if !@18 & !empty(a1.queue) & !@8 & each mslot(a4.prods_by_lhs,@4) & @4~Nonterminal
  * sadd(a1.processed, mslot(a2.edges,(@13,@12.id)))
      if !empty(a1.queue) & @9 & each @3 & @8
  * sadd(a1.processed, mslot(a2.edges,(@16,@1.id)))
      if !empty(a1.queue) & !@8 & @5 & @14~None & @4~Terminal & starts("",@4.Terminal.0)
      if !empty(a1.queue) & !@8 & @5 & @14~Some & @4~Terminal & @15
  * sadd(a1.processed, mslot(a2.edges,(@7,@1.id)))
      if !empty(a1.queue) & !@8 & contains(a2.edges,(@7,@1.id)) & each @17 & @4~Nonterminal
  * sadd(a1.processed, mslot(a2.tree_roots,(@6.id,@2)))
      if !empty(a1.queue) & !@8 & @18 & each mslot(a4.prods_by_lhs,@4) & @4~Nonterminal
  * sadd(mslot(a3.complete,(index(a4.productions.vec,@1.production_id.0).lhs,@11.offset.start)), @1.id)
      if !empty(a1.queue) & @8
  * sadd(mslot(a3.incomplete,(@4,@2)), @1.id)
      if !empty(a1.queue) & !@8 & @4~Nonterminal
  * ret(None{})
      if empty(a1.queue)
  * ret(Some{0:popped(front,a1.queue)})
      if !empty(a1.queue) & @8 & eq(@11.offset.len,len(@11.input)) & eq(@11.offset.start,0) & @1.is_starting

fn crate::earley::parse_tree
  let @1 = custom(TraversalMatchIter{tree:a1,current:?b,last:a3})
  * init(?a, [])
      if always
  * init(?b, a3)
      if always
  * push(?a, ParseTreeNode::Nonterminal{0:earley::parse_tree(a1,a2,@1[*].Nonterminal.0)})
      if @1[*]~Nonterminal & each @1 & index(a1.arena.vec,?b.0).from~None
  * push(?a, ParseTreeNode::Terminal{0:@1[*].Terminal.0})
      if @1[*]~Terminal & each @1 & index(a1.arena.vec,?b.0).from~None
  * step(?b, index(a1.arena.vec,?b.0).from.Some.0.parent_id)
      if index(a1.arena.vec,?b.0).from~Some
  * ret(ParseTree{lhs:index(a2.productions.vec,index(a1.arena.vec,a3.0).production_id.0).lhs,rhs:?a})
      if index(a1.arena.vec,?b.0).from~None

fn <crate::earley::traversal::TraversalMatchIter as core::iter::traits::iterator::Iterator>::next
  let @1 = index(a1.tree.arena.vec,?a.0).from
  * init(?a, a1.last)
      if always
  * set(a1.current, ?a)
      if !eq(a1.current,a1.last) & eq(@1.Some.0.parent_id,a1.current) & @1~Some
  * step(?a, @1.Some.0.parent_id)
      if !eq(a1.current,a1.last) & !eq(@1.Some.0.parent_id,a1.current) & @1~Some
  * ret(None{})
      if eq(a1.current,a1.last)
      if @1~None
  * ret(Some{0:@1.Some.0.term})
      if !eq(a1.current,a1.last) & eq(@1.Some.0.parent_id,a1.current) & @1~Some

fn <crate::earley::ParseTreeIter as core::iter::traits::iterator::Iterator>::next
  let @1 = earley::earley(a1.queue,a1.traversal_tree,a1.completions,a1.parser.Borrowed.0.parse_grammar)
  let @2 = earley::earley(a1.queue,a1.traversal_tree,a1.completions,a1.parser.Owned.0.parse_grammar)
  * call(crate::earley::earley, a1.queue, a1.traversal_tree, a1.completions, a1.parser.Borrowed.0.parse_grammar)
      if a1.parser~Borrowed
  * call(crate::earley::earley, a1.queue, a1.traversal_tree, a1.completions, a1.parser.Owned.0.parse_grammar)
      if a1.parser~Owned
  * ret(None{})
      if a1.parser~Borrowed & @1~None
      if a1.parser~Owned & @2~None
  * ret(Some{0:earley::parse_tree(out(@1,1),a1.parser.Borrowed.0.parse_grammar,@1.Some.0)})
      if a1.parser~Borrowed & @1~Some
  * ret(Some{0:earley::parse_tree(out(@2,1),a1.parser.Owned.0.parse_grammar,@2.Some.0)})
      if a1.parser~Owned & @2~Some

fn crate::parser::GrammarParser::parse_input
  let @1 = index(a1.parse_grammar.productions.vec,@2[*].0)
  let @2 = mslot(a1.parse_grammar.prods_by_lhs,a1.starting_term)
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * init(?c, emptymap())
      if always
  * init(?d, emptymap())
      if always
  * mput(?c, (@1.id,0), TraversalId{0:len(?a)})
      if !contains(?c,(@1.id,0)) & each @2
  * push(?a, Traversal{id:TraversalId{0:len(?a)},unmatched:@1.rhs.terms,input_range:InputRange{input:a2,offset:InputRangeOffset{start:0,len:0}},production_id:@1.id,is_starting:true,from:None{}})
      if !contains(?c,(@1.id,0)) & each @2
  * push(?b, TraversalId{0:len(?a)})
      if !contains(?c,(@1.id,0)) & !contains(?d,TraversalId{0:len(?a)}) & each @2
  * push(?b, mslot(?c,(@1.id,0)))
      if !contains(?d,mslot(?c,(@1.id,0))) & contains(?c,(@1.id,0)) & each @2
  * sadd(?d, TraversalId{0:len(?a)})
      if !contains(?c,(@1.id,0)) & each @2
  * sadd(?d, mslot(?c,(@1.id,0)))
      if contains(?c,(@1.id,0)) & each @2
  * ret(ParseTreeIter{parser:ParserHold::Borrowed{0:a1},traversal_tree:TraversalTree{arena:AppendOnlyVec{vec:?a,id_type:PhantomData{}},tree_roots:?c,edges:emptymap()},queue:TraversalQueue{processed:?d,queue:?b},completions:CompletionMap{incomplete:emptymap(),complete:emptymap()}})
      if always

fn crate::parser::GrammarParser::parse_input_starting_with
  let @1 = index(a1.parse_grammar.productions.vec,@2[*].0)
  let @2 = mslot(a1.parse_grammar.prods_by_lhs,a3)
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * init(?c, emptymap())
      if always
  * init(?d, emptymap())
      if always
  * mput(?c, (@1.id,0), TraversalId{0:len(?a)})
      if !contains(?c,(@1.id,0)) & each @2
  * push(?a, Traversal{id:TraversalId{0:len(?a)},unmatched:@1.rhs.terms,input_range:InputRange{input:a2,offset:InputRangeOffset{start:0,len:0}},production_id:@1.id,is_starting:true,from:None{}})
      if !contains(?c,(@1.id,0)) & each @2
  * push(?b, TraversalId{0:len(?a)})
      if !contains(?c,(@1.id,0)) & !contains(?d,TraversalId{0:len(?a)}) & each @2
  * push(?b, mslot(?c,(@1.id,0)))
      if !contains(?d,mslot(?c,(@1.id,0))) & contains(?c,(@1.id,0)) & each @2
  * sadd(?d, TraversalId{0:len(?a)})
      if !contains(?c,(@1.id,0)) & each @2
  * sadd(?d, mslot(?c,(@1.id,0)))
      if contains(?c,(@1.id,0)) & each @2
  * ret(ParseTreeIter{parser:ParserHold::Borrowed{0:a1},traversal_tree:TraversalTree{arena:AppendOnlyVec{vec:?a,id_type:PhantomData{}},tree_roots:?c,edges:emptymap()},queue:TraversalQueue{processed:?d,queue:?b},completions:CompletionMap{incomplete:emptymap(),complete:emptymap()}})
      if always

fn crate::grammar::Grammar::build_parser
  * init(?a, [])
      if always
  * init(?b, emptymap())
      if always
  * init(?c, emptymap())
      if always
  * init(?d, emptymap())
      if always
  * push(?a, Production{id:ProductionId{0:len(?a)},lhs:a1.productions[*].lhs,rhs:a1.productions[*].rhs[*]})
      if each a1.productions & each a1.productions[*].rhs
  * push(mslot(?b,a1.productions[*].lhs), ProductionId{0:len(?a)})
      if each a1.productions & each a1.productions[*].rhs
  * sadd(?c, a1.productions[*].rhs[*].terms[*].Nonterminal.0)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & each a1.productions[*].rhs[*].terms
  * sadd(?d, a1.productions[*].lhs.Nonterminal.0)
      if a1.productions[*].lhs~Nonterminal & each a1.productions
  * ret(Err{0:Error::ValidationError{}})
      if !empty(a1.productions) & !empty(diff(?c,?d))
      if empty(a1.productions)
  * ret(Ok{0:GrammarParser{starting_term:index(a1.productions,0).lhs,parse_grammar:ParseGrammar{productions:AppendOnlyVec{vec:?a,id_type:PhantomData{}},prods_by_lhs:?b}}})
      if !empty(a1.productions) & empty(diff(?c,?d))

fn crate::parser::GrammarParser::new
  * init(?a, [])
      if always
  * init(?b, emptymap())
      if always
  * init(?c, emptymap())
      if always
  * init(?d, emptymap())
      if always
  * push(?a, Production{id:ProductionId{0:len(?a)},lhs:a1.productions[*].lhs,rhs:a1.productions[*].rhs[*]})
      if each a1.productions & each a1.productions[*].rhs
  * push(mslot(?b,a1.productions[*].lhs), ProductionId{0:len(?a)})
      if each a1.productions & each a1.productions[*].rhs
  * sadd(?c, a1.productions[*].rhs[*].terms[*].Nonterminal.0)
      if a1.productions[*].rhs[*].terms[*]~Nonterminal & each a1.productions & each a1.productions[*].rhs & each a1.productions[*].rhs[*].terms
  * sadd(?d, a1.productions[*].lhs.Nonterminal.0)
      if a1.productions[*].lhs~Nonterminal & each a1.productions
  * ret(Err{0:Error::ValidationError{}})
      if !empty(a1.productions) & !empty(diff(?c,?d))
      if empty(a1.productions)
  * ret(Ok{0:GrammarParser{starting_term:index(a1.productions,0).lhs,parse_grammar:ParseGrammar{productions:AppendOnlyVec{vec:?a,id_type:PhantomData{}},prods_by_lhs:?b}}})
      if !empty(a1.productions) & empty(diff(?c,?d))

fn crate::grammar::Grammar::parse_input
  let @1 = mslot(?e,index(a1.productions,0).lhs)
  let @2 = index(?a,@1[*].0).id
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * init(?c, [])
      if always
  * init(?d, emptymap())
      if always
  * init(?e, emptymap())
      if always
  * init(?f, emptymap())
      if always
  * mput(?d, (@2,0), TraversalId{0:len(?b)})
      if !contains(?d,(@2,0)) & each @1
  * push(?a, Production{id:ProductionId{0:len(?a)},lhs:a1.productions[*].lhs,rhs:a1.productions[*].rhs[*]})
      if each a1.productions & each a1.productions[*].rhs
  * push(?b, Traversal{id:TraversalId{0:len(?b)},unmatched:index(?a,@1[*].0).rhs.terms,input_range:InputRange{input:a2,offset:InputRangeOffset{start:0,len:0}},production_id:@2,is_starting:true,from:None{}})
      if !contains(?d,(@2,0)) & each @1
  * push(?c, TraversalId{0:len(?b)})
      if !contains(?d,(@2,0)) & !contains(?f,TraversalId{0:len(?b)}) & each @1
  * push(?c, mslot(?d,(@2,0)))
      if !contains(?f,mslot(?d,(@2,0))) & contains(?d,(@2,0)) & each @1
  * push(mslot(?e,a1.productions[*].lhs), ProductionId{0:len(?a)})
      if each a1.productions & each a1.productions[*].rhs
  * sadd(?f, TraversalId{0:len(?b)})
      if !contains(?d,(@2,0)) & each @1
  * sadd(?f, mslot(?d,(@2,0)))
      if contains(?d,(@2,0)) & each @1
  * ret(ParseTreeIter{parser:ParserHold::Owned{0:GrammarParser{starting_term:index(a1.productions,0).lhs,parse_grammar:ParseGrammar{productions:AppendOnlyVec{vec:?a,id_type:PhantomData{}},prods_by_lhs:?e}}},traversal_tree:TraversalTree{arena:AppendOnlyVec{vec:?b,id_type:PhantomData{}},tree_roots:?d,edges:emptymap()},queue:TraversalQueue{processed:?f,queue:?c},completions:CompletionMap{incomplete:emptymap(),complete:emptymap()}})
      if always

fn crate::grammar::Grammar::parse_input_starting_with
  let @1 = index(?a,mslot(?e,a3)[*].0).id
  * init(?a, [])
      if always
  * init(?b, [])
      if always
  * init(?c, [])
      if always
  * init(?d, emptymap())
      if always
  * init(?e, emptymap())
      if always
  * init(?f, emptymap())
      if always
  * mput(?d, (@1,0), TraversalId{0:len(?b)})
      if !contains(?d,(@1,0)) & each mslot(?e,a3)
  * push(?a, Production{id:ProductionId{0:len(?a)},lhs:a1.productions[*].lhs,rhs:a1.productions[*].rhs[*]})
      if each a1.productions & each a1.productions[*].rhs
  * push(?b, Traversal{id:TraversalId{0:len(?b)},unmatched:index(?a,mslot(?e,a3)[*].0).rhs.terms,input_range:InputRange{input:a2,offset:InputRangeOffset{start:0,len:0}},production_id:@1,is_starting:true,from:None{}})
      if !contains(?d,(@1,0)) & each mslot(?e,a3)
  * push(?c, TraversalId{0:len(?b)})
      if !contains(?d,(@1,0)) & !contains(?f,TraversalId{0:len(?b)}) & each mslot(?e,a3)
  * push(?c, mslot(?d,(@1,0)))
      if !contains(?f,mslot(?d,(@1,0))) & contains(?d,(@1,0)) & each mslot(?e,a3)
  * push(mslot(?e,a1.productions[*].lhs), ProductionId{0:len(?a)})
      if each a1.productions & each a1.productions[*].rhs
  * sadd(?f, TraversalId{0:len(?b)})
      if !contains(?d,(@1,0)) & each mslot(?e,a3)
  * sadd(?f, mslot(?d,(@1,0)))
      if contains(?d,(@1,0)) & each mslot(?e,a3)
  * ret(ParseTreeIter{parser:ParserHold::Owned{0:GrammarParser{starting_term:index(a1.productions,0).lhs,parse_grammar:ParseGrammar{productions:AppendOnlyVec{vec:?a,id_type:PhantomData{}},prods_by_lhs:?e}}},traversal_tree:TraversalTree{arena:AppendOnlyVec{vec:?b,id_type:PhantomData{}},tree_roots:?d,edges:emptymap()},queue:TraversalQueue{processed:?f,queue:?c},completions:CompletionMap{incomplete:emptymap(),complete:emptymap()}})
      if always
