fn <crate::term::Term as core::fmt::Display>::fmt
  * out("'", a1.Terminal.0, "'")
      if !scontains(a1.Terminal.0,"'") & a1~Terminal
  * out("<", a1.Nonterminal.0, ">")
      if a1~Nonterminal
  * out("\"", a1.Terminal.0, "\"")
      if a1~Terminal & scontains(a1.Terminal.0,"'")
  * ret(Ok{0:()})
      if always

fn <crate::expression::Expression as core::fmt::Display>::fmt
  * out(loop{[" ", disp(a1.terms[*])] if !eq(#(a1.terms),0) & each a1.terms ; [disp(a1.terms[*])] if each a1.terms & eq(#(a1.terms),0)})
      if always
  * ret(Ok{0:()})
      if always

fn <crate::production::Production as core::fmt::Display>::fmt
  * out(disp(a1.lhs), " ::= ", loop{[" | ", disp(a1.rhs[*])] if !eq(#(a1.rhs),0) & each a1.rhs ; [disp(a1.rhs[*])] if each a1.rhs & eq(#(a1.rhs),0)})
      if always
  * ret(Ok{0:()})
      if always

fn <crate::grammar::Grammar as core::fmt::Display>::fmt
  * out(loop{["\n", disp(a1.productions[*])] if !eq(#(a1.productions),0) & each a1.productions ; [disp(a1.productions[*])] if each a1.productions & eq(#(a1.productions),0)}, "\n")
      if always
  * ret(Ok{0:()})
      if always

fn crate::grammar::ParseTree::fmt
  * out(sadd(a3,a4), loop{["    "] if !contains(a3,range(0,a4)[*]) & !eq(a4,(range(0,a4)[*]+1)) & each range(0,a4) ; ["│   "] if !eq(a4,(range(0,a4)[*]+1)) & contains(a3,range(0,a4)[*]) & each range(0,a4) ; ["└── "] if a5 & each range(0,a4) & eq(a4,(range(0,a4)[*]+1)) ; ["├── "] if !a5 & each range(0,a4) & eq(a4,(range(0,a4)[*]+1))}, disp(a1.lhs), " ::=", loop{[" ", disp(a1.rhs[*].Nonterminal.0.lhs)] if a1.rhs[*]~Nonterminal & each a1.rhs ; [" \"", a1.rhs[*].Terminal.0, "\""] if a1.rhs[*]~Terminal & each a1.rhs}, "\n", loop{[loop{["    "] if !contains(a3,range(0,(a4+1))[*]) & !eq(range(0,(a4+1))[*],a4) & each range(0,(a4+1)) ; ["│   "] if !eq(range(0,(a4+1))[*],a4) & contains(a3,range(0,(a4+1))[*]) & each range(0,(a4+1)) ; ["├── "] if each range(0,(a4+1)) & eq(range(0,(a4+1))[*],a4)}, "\"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs ; [rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,a3,(a4+1),false)] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Nonterminal & each a1.rhs ; [srem(a3,a4), loop{["    "] if !contains(a3,range(0,(a4+1))[*]) & !eq(range(0,(a4+1))[*],a4) & each range(0,(a4+1)) ; ["│   "] if !eq(range(0,(a4+1))[*],a4) & contains(a3,range(0,(a4+1))[*]) & each range(0,(a4+1)) ; ["└── "] if each range(0,(a4+1)) & eq(range(0,(a4+1))[*],a4)}, "\"", a1.rhs[*].Terminal.0, "\"\n"] if a1.rhs[*]~Terminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1)) ; [srem(a3,a4), rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,a3,(a4+1),true)] if a1.rhs[*]~Nonterminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))})
      if always
  * sadd(a3, a4)
      if always
  * srem(a3, a4)
      if each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))
  * ret(Ok{0:()})
      if always

fn <crate::grammar::ParseTree as core::fmt::Display>::fmt
  * init(?a, emptymap())
      if always
  * out(disp(a1.lhs), " ::=", loop{[" ", disp(a1.rhs[*].Nonterminal.0.lhs)] if a1.rhs[*]~Nonterminal & each a1.rhs ; [" \"", a1.rhs[*].Terminal.0, "\""] if a1.rhs[*]~Terminal & each a1.rhs}, "\n", loop{[loop{["    "] if !contains(?a,range(0,1)[*]) & !eq(range(0,1)[*],0) & each range(0,1) ; ["│   "] if !eq(range(0,1)[*],0) & contains(?a,range(0,1)[*]) & each range(0,1) ; ["└── "] if each range(0,1) & eq(range(0,1)[*],0)}, "\"", a1.rhs[*].Terminal.0, "\"\n"] if a1.rhs[*]~Terminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1)) ; [loop{["    "] if !contains(?a,range(0,1)[*]) & !eq(range(0,1)[*],0) & each range(0,1) ; ["│   "] if !eq(range(0,1)[*],0) & contains(?a,range(0,1)[*]) & each range(0,1) ; ["├── "] if each range(0,1) & eq(range(0,1)[*],0)}, "\"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs ; [rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,?a,1,false)] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Nonterminal & each a1.rhs ; [rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,?a,1,true)] if a1.rhs[*]~Nonterminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))})
      if always
  * sadd(?a, 0)
      if always
  * srem(?a, 0)
      if each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))
  * ret(Ok{0:()})
      if always

fn crate::grammar::MermaidParseTree::fmt
  let @1 = rec(crate::grammar::MermaidParseTree::fmt,MermaidParseTree{parse_tree:a1.parse_tree.rhs[*].Nonterminal.0},a2,(a3+1))
  let @2 = a1.parse_tree.rhs[*].Nonterminal.0.lhs
  let @3 = grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0)
  let @4 = grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0)
  let @5 = grammar::escape_mermaid_label(a1.parse_tree.rhs[*].Terminal.0)
  * init(a3, old(a3))
      if always
  * out("flowchart TD\n", loop{[dec(old(a3)), "[\"", @3, "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@2.Nonterminal.0), "\"]\n", @1] if @2~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", @3, "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@2.Terminal.0), "\"]\n", @1] if @2~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", @3, "\"] --> ", dec((a3+1)), "[\"", @5, "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if a1.parse_tree.lhs~Nonterminal & eq(old(a3),0)
  * out("flowchart TD\n", loop{[dec(old(a3)), "[\"", @4, "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@2.Nonterminal.0), "\"]\n", @1] if @2~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", @4, "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@2.Terminal.0), "\"]\n", @1] if @2~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", @4, "\"] --> ", dec((a3+1)), "[\"", @5, "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if a1.parse_tree.lhs~Terminal & eq(old(a3),0)
  * out(loop{[dec(old(a3)), "[\"", @3, "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@2.Nonterminal.0), "\"]\n", @1] if @2~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", @3, "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@2.Terminal.0), "\"]\n", @1] if @2~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", @3, "\"] --> ", dec((a3+1)), "[\"", @5, "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if !eq(old(a3),0) & a1.parse_tree.lhs~Nonterminal
  * out(loop{[dec(old(a3)), "[\"", @4, "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@2.Nonterminal.0), "\"]\n", @1] if @2~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", @4, "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@2.Terminal.0), "\"]\n", @1] if @2~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", @4, "\"] --> ", dec((a3+1)), "[\"", @5, "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if !eq(old(a3),0) & a1.parse_tree.lhs~Terminal
  * step(a3, (a3+1))
      if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs
  * ret(Ok{0:()})
      if always

fn <crate::grammar::MermaidParseTree as core::fmt::Display>::fmt
  let @1 = a1.parse_tree.rhs[*].Nonterminal.0
  let @2 = rec(crate::grammar::MermaidParseTree::fmt,MermaidParseTree{parse_tree:@1},a2,(?a+1))
  * init(?a, 0)
      if always
  * out("flowchart TD\n", loop{["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Nonterminal.0), "\"]\n", @2] if @1.lhs~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; ["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Terminal.0), "\"]\n", @2] if @1.lhs~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; ["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.rhs[*].Terminal.0), "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if a1.parse_tree.lhs~Nonterminal
  * out("flowchart TD\n", loop{["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Nonterminal.0), "\"]\n", @2] if @1.lhs~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; ["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Terminal.0), "\"]\n", @2] if @1.lhs~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; ["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.rhs[*].Terminal.0), "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if a1.parse_tree.lhs~Terminal
  * step(?a, (?a+1))
      if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs
  * ret(Ok{0:()})
      if always

fn crate::grammar::ParseTree::mermaid
  * ret(MermaidParseTree{parse_tree:a1})
      if always

fn crate::grammar::escape_mermaid_label
  * init(?a, "")
      if always
  * step(?a, cat(?a,"#",dec(cast(u32,chars(a1)[*])),";"))
      if each chars(a1) & inset(chars(a1)[*],("\n","\r","\"","#","&",";","<",">","[","\\","]"))
  * step(?a, cat(?a,chstr(chars(a1)[*])))
      if !inset(chars(a1)[*],("\n","\r","\"","#","&",";","<",">","[","\\","]")) & each chars(a1)
  * ret(?a)
      if always

fn <crate::error::Error as core::fmt::Display>::fmt
  * out(a1.GenerateError.0)
      if a1~GenerateError
  * out(a1.ParseError.0)
      if a1~ParseError
  * out(a1.ValidationError.0)
      if a1~ValidationError
  * ret(Ok{0:()})
      if always
