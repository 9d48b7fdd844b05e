-- gb_prefix_early_zero
fn crate::grammar::ParseTree::fmt
  let @1 = contains(a3,range(0,a4)[*])
  * out(sadd(a3,a4), disp(a1.lhs), " ::=", loop{[" ", disp(a1.rhs[*].Nonterminal.0.lhs)] if a1.rhs[*]~Nonterminal & each a1.rhs ; [" \"", a1.rhs[*].Terminal.0, "\""] if a1.rhs[*]~Terminal & each a1.rhs}, "\n", loop{["\"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs & eq(0,(a4+1)) ; [loop{["    "] if !@1 & each range(0,a4) ; ["│   "] if @1 & each range(0,a4)}, "├── \"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(0,(a4+1)) & !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs ; [rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,a3,(a4+1),false)] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Nonterminal & each a1.rhs ; [srem(a3,a4), "\"", a1.rhs[*].Terminal.0, "\"\n"] if a1.rhs[*]~Terminal & each a1.rhs & eq(0,(a4+1)) & eq(len(a1.rhs),(#(a1.rhs)+1)) ; [srem(a3,a4), loop{["    "] if !@1 & each range(0,a4) ; ["│   "] if @1 & each range(0,a4)}, "└── \"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(0,(a4+1)) & a1.rhs[*]~Terminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1)) ; [srem(a3,a4), rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,a3,(a4+1),true)] if a1.rhs[*]~Nonterminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))})
      if eq(a4,0)
  * out(sadd(a3,a4), loop{["    "] if !contains(a3,range(0,(a4-1))[*]) & each range(0,(a4-1)) ; ["│   "] if contains(a3,range(0,(a4-1))[*]) & each range(0,(a4-1))}, "└── ", disp(a1.lhs), " ::=", loop{[" ", disp(a1.rhs[*].Nonterminal.0.lhs)] if a1.rhs[*]~Nonterminal & each a1.rhs ; [" \"", a1.rhs[*].Terminal.0, "\""] if a1.rhs[*]~Terminal & each a1.rhs}, "\n", loop{["\"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs & eq(0,(a4+1)) ; [loop{["    "] if !@1 & each range(0,a4) ; ["│   "] if @1 & each range(0,a4)}, "├── \"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(0,(a4+1)) & !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs ; [rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,a3,(a4+1),false)] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Nonterminal & each a1.rhs ; [srem(a3,a4), "\"", a1.rhs[*].Terminal.0, "\"\n"] if a1.rhs[*]~Terminal & each a1.rhs & eq(0,(a4+1)) & eq(len(a1.rhs),(#(a1.rhs)+1)) ; [srem(a3,a4), loop{["    "] if !@1 & each range(0,a4) ; ["│   "] if @1 & each range(0,a4)}, "└── \"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(0,(a4+1)) & a1.rhs[*]~Terminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1)) ; [srem(a3,a4), rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,a3,(a4+1),true)] if a1.rhs[*]~Nonterminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))})
      if !eq(a4,0) & a5
  * out(sadd(a3,a4), loop{["    "] if !contains(a3,range(0,(a4-1))[*]) & each range(0,(a4-1)) ; ["│   "] if contains(a3,range(0,(a4-1))[*]) & each range(0,(a4-1))}, "├── ", disp(a1.lhs), " ::=", loop{[" ", disp(a1.rhs[*].Nonterminal.0.lhs)] if a1.rhs[*]~Nonterminal & each a1.rhs ; [" \"", a1.rhs[*].Terminal.0, "\""] if a1.rhs[*]~Terminal & each a1.rhs}, "\n", loop{["\"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs & eq(0,(a4+1)) ; [loop{["    "] if !@1 & each range(0,a4) ; ["│   "] if @1 & each range(0,a4)}, "├── \"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(0,(a4+1)) & !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs ; [rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,a3,(a4+1),false)] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Nonterminal & each a1.rhs ; [srem(a3,a4), "\"", a1.rhs[*].Terminal.0, "\"\n"] if a1.rhs[*]~Terminal & each a1.rhs & eq(0,(a4+1)) & eq(len(a1.rhs),(#(a1.rhs)+1)) ; [srem(a3,a4), loop{["    "] if !@1 & each range(0,a4) ; ["│   "] if @1 & each range(0,a4)}, "└── \"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(0,(a4+1)) & a1.rhs[*]~Terminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1)) ; [srem(a3,a4), rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,a3,(a4+1),true)] if a1.rhs[*]~Nonterminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))})
      if !a5 & !eq(a4,0)
  * sadd(a3, a4)
      if always
  * srem(a3, a4)
      if each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))
  * ret(Ok{0:()})
      if always


-- gb_prefix_early_zero
fn <crate::grammar::ParseTree as core::fmt::Display>::fmt
  * init(?a, emptymap())
      if always
  * out(disp(a1.lhs), " ::=", loop{[" ", disp(a1.rhs[*].Nonterminal.0.lhs)] if a1.rhs[*]~Nonterminal & each a1.rhs ; [" \"", a1.rhs[*].Terminal.0, "\""] if a1.rhs[*]~Terminal & each a1.rhs}, "\n", loop{["└── \"", a1.rhs[*].Terminal.0, "\"\n"] if a1.rhs[*]~Terminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1)) ; ["├── \"", a1.rhs[*].Terminal.0, "\"\n"] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Terminal & each a1.rhs ; [rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,?a,1,false)] if !eq(len(a1.rhs),(#(a1.rhs)+1)) & a1.rhs[*]~Nonterminal & each a1.rhs ; [rec(crate::grammar::ParseTree::fmt,a1.rhs[*].Nonterminal.0,a2,?a,1,true)] if a1.rhs[*]~Nonterminal & each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))})
      if always
  * sadd(?a, 0)
      if always
  * srem(?a, 0)
      if each a1.rhs & eq(len(a1.rhs),(#(a1.rhs)+1))
  * ret(Ok{0:()})
      if always


-- gb_mermaid_header_display
fn crate::grammar::MermaidParseTree::fmt
  let @1 = a1.parse_tree.rhs[*].Nonterminal.0
  let @2 = rec(crate::grammar::MermaidParseTree::fmt,MermaidParseTree{parse_tree:@1},a2,(a3+1))
  * init(a3, old(a3))
      if always
  * out(loop{[dec(old(a3)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Nonterminal.0), "\"]\n", @2] if @1.lhs~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Terminal.0), "\"]\n", @2] if @1.lhs~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.rhs[*].Terminal.0), "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if a1.parse_tree.lhs~Nonterminal
  * out(loop{[dec(old(a3)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Nonterminal.0), "\"]\n", @2] if @1.lhs~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Terminal.0), "\"]\n", @2] if @1.lhs~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; [dec(old(a3)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((a3+1)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.rhs[*].Terminal.0), "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if a1.parse_tree.lhs~Terminal
  * step(a3, (a3+1))
      if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs
  * ret(Ok{0:()})
      if always


-- gb_mermaid_header_display
fn <crate::grammar::MermaidParseTree as core::fmt::Display>::fmt
  let @1 = a1.parse_tree.rhs[*].Nonterminal.0
  let @2 = rec(crate::grammar::MermaidParseTree::fmt,MermaidParseTree{parse_tree:@1},a2,(?a+1))
  * init(?a, 0)
      if always
  * out("flowchart TD\n", loop{["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Nonterminal.0), "\"]\n", @2] if @1.lhs~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; ["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Terminal.0), "\"]\n", @2] if @1.lhs~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; ["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Nonterminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.rhs[*].Terminal.0), "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if a1.parse_tree.lhs~Nonterminal
  * out("flowchart TD\n", loop{["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Nonterminal.0), "\"]\n", @2] if @1.lhs~Nonterminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; ["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(@1.lhs.Terminal.0), "\"]\n", @2] if @1.lhs~Terminal & a1.parse_tree.rhs[*]~Nonterminal & each a1.parse_tree.rhs ; ["0[\"", grammar::escape_mermaid_label(a1.parse_tree.lhs.Terminal.0), "\"] --> ", dec((?a+1)), "[\"", grammar::escape_mermaid_label(a1.parse_tree.rhs[*].Terminal.0), "\"]\n"] if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs})
      if a1.parse_tree.lhs~Terminal
  * step(?a, (?a+1))
      if a1.parse_tree.rhs[*]~Terminal & each a1.parse_tree.rhs
  * ret(Ok{0:()})
      if always

