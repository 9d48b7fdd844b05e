fn <crate::grammar::Grammar as core::str::traits::FromStr>::from_str
  * ret(Err{0:Error::ParseError{}})
      if parsers::grammar_complete<BNF>(a1)~Err
  * ret(Ok{0:parsers::grammar_complete<BNF>(a1).Ok.0.1})
      if parsers::grammar_complete<BNF>(a1)~Ok
