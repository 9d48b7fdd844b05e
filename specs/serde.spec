fn <crate::term::Term as serde_core::ser::Serialize>::serialize
  * call(serde_core::ser::Serializer::serialize_newtype_variant, a2, "Term", 0, "Terminal", a1.Terminal.0)
      if a1~Terminal
  * call(serde_core::ser::Serializer::serialize_newtype_variant, a2, "Term", 1, "Nonterminal", a1.Nonterminal.0)
      if a1~Nonterminal
  * ret(Serializer::serialize_newtype_variant(a2,"Term",0,"Terminal",a1.Terminal.0))
      if a1~Terminal
  * ret(Serializer::serialize_newtype_variant(a2,"Term",1,"Nonterminal",a1.Nonterminal.0))
      if a1~Nonterminal

fn <crate::term::Term as serde_core::de::Deserialize>::deserialize
  * call(serde_core::de::Deserializer::deserialize_enum, a1, "Term", ["Terminal","Nonterminal"], __Visitor{marker:PhantomData{},lifetime:PhantomData{}})
      if always
  * ret(Deserializer::deserialize_enum(a1,"Term",["Terminal","Nonterminal"],__Visitor{marker:PhantomData{},lifetime:PhantomData{}}))
      if always

fn <<crate::term::Term as serde_core::de::Deserialize>::deserialize::__FieldVisitor as serde_core::de::Visitor>::visit_str
  * call(serde_core::de::Error::unknown_variant, a2, ["Terminal","Nonterminal"])
      if !inset(a2,("Nonterminal","Terminal"))
  * ret(Err{0:Error::unknown_variant(a2,["Terminal","Nonterminal"])})
      if !inset(a2,("Nonterminal","Terminal"))
  * ret(Ok{0:__Field::__field0{}})
      if eq(a2,"Terminal")
  * ret(Ok{0:__Field::__field1{}})
      if eq(a2,"Nonterminal")

fn <<crate::term::Term as serde_core::de::Deserialize>::deserialize::__Visitor as serde_core::de::Visitor>::visit_enum
  let @1 = VariantAccess::newtype_variant(@2.1)
  let @2 = EnumAccess::variant(a2).Ok.0
  * call(serde_core::de::EnumAccess::variant, a2)
      if always
  * call(serde_core::de::VariantAccess::newtype_variant, @2.1)
      if @2.0~__field0 & EnumAccess::variant(a2)~Ok
      if @2.0~__field1 & EnumAccess::variant(a2)~Ok
  * ret(Err{0:@1.Err.0})
      if @2.0~__field0 & EnumAccess::variant(a2)~Ok & @1~Err
      if @2.0~__field1 & EnumAccess::variant(a2)~Ok & @1~Err
  * ret(Err{0:EnumAccess::variant(a2).Err.0})
      if EnumAccess::variant(a2)~Err
  * ret(Ok{0:Term::Nonterminal{0:@1.Ok.0}})
      if @2.0~__field1 & EnumAccess::variant(a2)~Ok & @1~Ok
  * ret(Ok{0:Term::Terminal{0:@1.Ok.0}})
      if @2.0~__field0 & EnumAccess::variant(a2)~Ok & @1~Ok

fn <crate::expression::Expression as serde_core::ser::Serialize>::serialize
  let @1 = Serializer::serialize_struct(a2,"Expression",1)
  let @2 = SerializeStruct::serialize_field(@1.Ok.0,"terms",a1.terms)
  * call(serde_core::ser::SerializeStruct::end, out(@2,0))
      if @2~Ok & @1~Ok
  * call(serde_core::ser::SerializeStruct::serialize_field, @1.Ok.0, "terms", a1.terms)
      if @1~Ok
  * call(serde_core::ser::Serializer::serialize_struct, a2, "Expression", 1)
      if always
  * ret(Err{0:@1.Err.0})
      if @1~Err
  * ret(Err{0:@2.Err.0})
      if @2~Err & @1~Ok
  * ret(SerializeStruct::end(out(@2,0)))
      if @2~Ok & @1~Ok

fn <crate::expression::Expression as serde_core::de::Deserialize>::deserialize
  * call(serde_core::de::Deserializer::deserialize_struct, a1, "Expression", ["terms"], __Visitor{marker:PhantomData{},lifetime:PhantomData{}})
      if always
  * ret(Deserializer::deserialize_struct(a1,"Expression",["terms"],__Visitor{marker:PhantomData{},lifetime:PhantomData{}}))
      if always

fn <<crate::expression::Expression as serde_core::de::Deserialize>::deserialize::__FieldVisitor as serde_core::de::Visitor>::visit_str
  * ret(Ok{0:__Field::__field0{}})
      if eq(a2,"terms")
  * ret(Ok{0:__Field::__ignore{}})
      if !eq(a2,"terms")

fn <<crate::expression::Expression as serde_core::de::Deserialize>::deserialize::__Visitor as serde_core::de::Visitor>::visit_map
  let @1 = MapAccess::next_key(?b).Ok.0
  let @2 = MapAccess::next_value(out(MapAccess::next_key(?b),0))
  * call(serde::private::de::missing_field, "terms")
      if ?a~None & @1~None & MapAccess::next_key(?b)~Ok
  * call(serde_core::de::Error::duplicate_field, "terms")
      if ?a~Some & @1.Some.0~__field0 & @1~Some & MapAccess::next_key(?b)~Ok
  * call(serde_core::de::MapAccess::next_key, ?b)
      if always
  * call(serde_core::de::MapAccess::next_value, out(MapAccess::next_key(?b),0))
      if ?a~None & @1~Some & MapAccess::next_key(?b)~Ok
      if @1.Some.0~__ignore & @1~Some & MapAccess::next_key(?b)~Ok
  * init(?a, None{})
      if always
  * init(?b, a2)
      if always
  * step(?a, Some{0:@2.Ok.0})
      if ?a~None & @1.Some.0~__field0 & @1~Some & @2~Ok
  * ret(Err{0:@2.Err.0})
      if ?a~None & @1~Some & MapAccess::next_key(?b)~Ok & @2~Err
      if @1.Some.0~__ignore & @1~Some & MapAccess::next_key(?b)~Ok & @2~Err
  * ret(Err{0:Error::duplicate_field("terms")})
      if ?a~Some & @1.Some.0~__field0 & @1~Some & MapAccess::next_key(?b)~Ok
  * ret(Err{0:MapAccess::next_key(?b).Err.0})
      if MapAccess::next_key(?b)~Err
  * ret(Err{0:de::missing_field("terms").Err.0})
      if ?a~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("terms")~Err
  * ret(Ok{0:Expression{terms:?a.Some.0}})
      if ?a~Some & @1~None & MapAccess::next_key(?b)~Ok
  * ret(Ok{0:Expression{terms:de::missing_field("terms").Ok.0}})
      if ?a~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("terms")~Ok

fn <<crate::expression::Expression as serde_core::de::Deserialize>::deserialize::__Visitor as serde_core::de::Visitor>::visit_seq
  let @1 = SeqAccess::next_element(a2)
  * call(serde_core::de::Error::invalid_length, 0, "struct Expression with 1 element")
      if @1.Ok.0~None & @1~Ok
  * call(serde_core::de::SeqAccess::next_element, a2)
      if always
  * ret(Err{0:@1.Err.0})
      if @1~Err
  * ret(Err{0:Error::invalid_length(0,"struct Expression with 1 element")})
      if @1.Ok.0~None & @1~Ok
  * ret(Ok{0:Expression{terms:@1.Ok.0.Some.0}})
      if @1.Ok.0~Some & @1~Ok

fn <crate::production::Production as serde_core::ser::Serialize>::serialize
  let @1 = SerializeStruct::serialize_field(@2.Ok.0,"lhs",a1.lhs)
  let @2 = Serializer::serialize_struct(a2,"Production",2)
  let @3 = SerializeStruct::serialize_field(out(@1,0),"rhs",a1.rhs)
  * call(serde_core::ser::SerializeStruct::end, out(@3,0))
      if @1~Ok & @3~Ok & @2~Ok
  * call(serde_core::ser::SerializeStruct::serialize_field, @2.Ok.0, "lhs", a1.lhs)
      if @2~Ok
  * call(serde_core::ser::SerializeStruct::serialize_field, out(@1,0), "rhs", a1.rhs)
      if @1~Ok & @2~Ok
  * call(serde_core::ser::Serializer::serialize_struct, a2, "Production", 2)
      if always
  * ret(Err{0:@1.Err.0})
      if @1~Err & @2~Ok
  * ret(Err{0:@2.Err.0})
      if @2~Err
  * ret(Err{0:@3.Err.0})
      if @1~Ok & @3~Err & @2~Ok
  * ret(SerializeStruct::end(out(@3,0)))
      if @1~Ok & @3~Ok & @2~Ok

fn <crate::production::Production as serde_core::de::Deserialize>::deserialize
  * call(serde_core::de::Deserializer::deserialize_struct, a1, "Production", ["lhs","rhs"], __Visitor{marker:PhantomData{},lifetime:PhantomData{}})
      if always
  * ret(Deserializer::deserialize_struct(a1,"Production",["lhs","rhs"],__Visitor{marker:PhantomData{},lifetime:PhantomData{}}))
      if always

fn <<crate::production::Production as serde_core::de::Deserialize>::deserialize::__FieldVisitor as serde_core::de::Visitor>::visit_str
  * ret(Ok{0:__Field::__field0{}})
      if eq(a2,"lhs")
  * ret(Ok{0:__Field::__field1{}})
      if eq(a2,"rhs")
  * ret(Ok{0:__Field::__ignore{}})
      if !inset(a2,("lhs","rhs"))

fn <<crate::production::Production as serde_core::de::Deserialize>::deserialize::__Visitor as serde_core::de::Visitor>::visit_map
  let @1 = MapAccess::next_key(?b).Ok.0
  let @2 = MapAccess::next_value(out(MapAccess::next_key(?b),0))
  * call(serde::private::de::missing_field, "lhs")
      if ?a~None & @1~None & MapAccess::next_key(?b)~Ok
  * call(serde::private::de::missing_field, "rhs")
      if ?a~Some & ?c~None & @1~None & MapAccess::next_key(?b)~Ok
      if ?c~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("lhs")~Ok
  * call(serde_core::de::Error::duplicate_field, "lhs")
      if ?a~Some & @1.Some.0~__field0 & @1~Some & MapAccess::next_key(?b)~Ok
  * call(serde_core::de::Error::duplicate_field, "rhs")
      if ?c~Some & @1.Some.0~__field1 & @1~Some & MapAccess::next_key(?b)~Ok
  * call(serde_core::de::MapAccess::next_key, ?b)
      if always
  * call(serde_core::de::MapAccess::next_value, out(MapAccess::next_key(?b),0))
      if ?a~None & @1~Some & MapAccess::next_key(?b)~Ok
      if ?c~None & @1.Some.0~__field1 & @1~Some & MapAccess::next_key(?b)~Ok
      if @1.Some.0~__ignore & @1~Some & MapAccess::next_key(?b)~Ok
  * init(?a, None{})
      if always
  * init(?b, a2)
      if always
  * init(?c, None{})
      if always
  * step(?a, Some{0:@2.Ok.0})
      if ?a~None & @1.Some.0~__field0 & @1~Some & @2~Ok
  * step(?c, Some{0:@2.Ok.0})
      if ?c~None & @1.Some.0~__field1 & @1~Some & @2~Ok
  * ret(Err{0:@2.Err.0})
      if ?a~None & @1~Some & MapAccess::next_key(?b)~Ok & @2~Err
      if ?c~None & @1.Some.0~__field1 & @1~Some & MapAccess::next_key(?b)~Ok & @2~Err
      if @1.Some.0~__ignore & @1~Some & MapAccess::next_key(?b)~Ok & @2~Err
  * ret(Err{0:Error::duplicate_field("lhs")})
      if ?a~Some & @1.Some.0~__field0 & @1~Some & MapAccess::next_key(?b)~Ok
  * ret(Err{0:Error::duplicate_field("rhs")})
      if ?c~Some & @1.Some.0~__field1 & @1~Some & MapAccess::next_key(?b)~Ok
  * ret(Err{0:MapAccess::next_key(?b).Err.0})
      if MapAccess::next_key(?b)~Err
  * ret(Err{0:de::missing_field("lhs").Err.0})
      if ?a~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("lhs")~Err
  * ret(Err{0:de::missing_field("rhs").Err.0})
      if ?a~Some & ?c~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("rhs")~Err
      if ?c~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("lhs")~Ok & de::missing_field("rhs")~Err
  * ret(Ok{0:Production{lhs:?a.Some.0,rhs:?c.Some.0}})
      if ?a~Some & ?c~Some & @1~None & MapAccess::next_key(?b)~Ok
  * ret(Ok{0:Production{lhs:?a.Some.0,rhs:de::missing_field("rhs").Ok.0}})
      if ?a~Some & ?c~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("rhs")~Ok
  * ret(Ok{0:Production{lhs:de::missing_field("lhs").Ok.0,rhs:?c.Some.0}})
      if ?a~None & ?c~Some & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("lhs")~Ok
  * ret(Ok{0:Production{lhs:de::missing_field("lhs").Ok.0,rhs:de::missing_field("rhs").Ok.0}})
      if ?a~None & ?c~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("lhs")~Ok & de::missing_field("rhs")~Ok

fn <<crate::production::Production as serde_core::de::Deserialize>::deserialize::__Visitor as serde_core::de::Visitor>::visit_seq
  let @1 = SeqAccess::next_element(a2)
  let @2 = SeqAccess::next_element(out(@1,0))
  * call(serde_core::de::Error::invalid_length, 0, "struct Production with 2 elements")
      if @1.Ok.0~None & @1~Ok
  * call(serde_core::de::Error::invalid_length, 1, "struct Production with 2 elements")
      if @1.Ok.0~Some & @1~Ok & @2.Ok.0~None & @2~Ok
  * call(serde_core::de::SeqAccess::next_element, a2)
      if always
  * call(serde_core::de::SeqAccess::next_element, out(@1,0))
      if @1.Ok.0~Some & @1~Ok
  * ret(Err{0:@1.Err.0})
      if @1~Err
  * ret(Err{0:@2.Err.0})
      if @1.Ok.0~Some & @1~Ok & @2~Err
  * ret(Err{0:Error::invalid_length(0,"struct Production with 2 elements")})
      if @1.Ok.0~None & @1~Ok
  * ret(Err{0:Error::invalid_length(1,"struct Production with 2 elements")})
      if @1.Ok.0~Some & @1~Ok & @2.Ok.0~None & @2~Ok
  * ret(Ok{0:Production{lhs:@1.Ok.0.Some.0,rhs:@2.Ok.0.Some.0}})
      if @1.Ok.0~Some & @1~Ok & @2.Ok.0~Some & @2~Ok

fn <crate::grammar::Grammar as serde_core::ser::Serialize>::serialize
  let @1 = SerializeStruct::serialize_field(@2.Ok.0,"productions",a1.productions)
  let @2 = Serializer::serialize_struct(a2,"Grammar",1)
  * call(serde_core::ser::SerializeStruct::end, out(@1,0))
      if @1~Ok & @2~Ok
  * call(serde_core::ser::SerializeStruct::serialize_field, @2.Ok.0, "productions", a1.productions)
      if @2~Ok
  * call(serde_core::ser::Serializer::serialize_struct, a2, "Grammar", 1)
      if always
  * ret(Err{0:@1.Err.0})
      if @1~Err & @2~Ok
  * ret(Err{0:@2.Err.0})
      if @2~Err
  * ret(SerializeStruct::end(out(@1,0)))
      if @1~Ok & @2~Ok

fn <crate::grammar::Grammar as serde_core::de::Deserialize>::deserialize
  * call(serde_core::de::Deserializer::deserialize_struct, a1, "Grammar", ["productions"], __Visitor{marker:PhantomData{},lifetime:PhantomData{}})
      if always
  * ret(Deserializer::deserialize_struct(a1,"Grammar",["productions"],__Visitor{marker:PhantomData{},lifetime:PhantomData{}}))
      if always

fn <<crate::grammar::Grammar as serde_core::de::Deserialize>::deserialize::__FieldVisitor as serde_core::de::Visitor>::visit_str
  * ret(Ok{0:__Field::__field0{}})
      if eq(a2,"productions")
  * ret(Ok{0:__Field::__ignore{}})
      if !eq(a2,"productions")

fn <<crate::grammar::Grammar as serde_core::de::Deserialize>::deserialize::__Visitor as serde_core::de::Visitor>::visit_map
  let @1 = MapAccess::next_key(?b).Ok.0
  let @2 = MapAccess::next_value(out(MapAccess::next_key(?b),0))
  * call(serde::private::de::missing_field, "productions")
      if ?a~None & @1~None & MapAccess::next_key(?b)~Ok
  * call(serde_core::de::Error::duplicate_field, "productions")
      if ?a~Some & @1.Some.0~__field0 & @1~Some & MapAccess::next_key(?b)~Ok
  * call(serde_core::de::MapAccess::next_key, ?b)
      if always
  * call(serde_core::de::MapAccess::next_value, out(MapAccess::next_key(?b),0))
      if ?a~None & @1~Some & MapAccess::next_key(?b)~Ok
      if @1.Some.0~__ignore & @1~Some & MapAccess::next_key(?b)~Ok
  * init(?a, None{})
      if always
  * init(?b, a2)
      if always
  * step(?a, Some{0:@2.Ok.0})
      if ?a~None & @1.Some.0~__field0 & @1~Some & @2~Ok
  * ret(Err{0:@2.Err.0})
      if ?a~None & @1~Some & MapAccess::next_key(?b)~Ok & @2~Err
      if @1.Some.0~__ignore & @1~Some & MapAccess::next_key(?b)~Ok & @2~Err
  * ret(Err{0:Error::duplicate_field("productions")})
      if ?a~Some & @1.Some.0~__field0 & @1~Some & MapAccess::next_key(?b)~Ok
  * ret(Err{0:MapAccess::next_key(?b).Err.0})
      if MapAccess::next_key(?b)~Err
  * ret(Err{0:de::missing_field("productions").Err.0})
      if ?a~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("productions")~Err
  * ret(Ok{0:Grammar{productions:?a.Some.0}})
      if ?a~Some & @1~None & MapAccess::next_key(?b)~Ok
  * ret(Ok{0:Grammar{productions:de::missing_field("productions").Ok.0}})
      if ?a~None & @1~None & MapAccess::next_key(?b)~Ok & de::missing_field("productions")~Ok

fn <<crate::grammar::Grammar as serde_core::de::Deserialize>::deserialize::__Visitor as serde_core::de::Visitor>::visit_seq
  let @1 = SeqAccess::next_element(a2)
  * call(serde_core::de::Error::invalid_length, 0, "struct Grammar with 1 element")
      if @1.Ok.0~None & @1~Ok
  * call(serde_core::de::SeqAccess::next_element, a2)
      if always
  * ret(Err{0:@1.Err.0})
      if @1~Err
  * ret(Err{0:Error::invalid_length(0,"struct Grammar with 1 element")})
      if @1.Ok.0~None & @1~Ok
  * ret(Ok{0:Grammar{productions:@1.Ok.0.Some.0}})
      if @1.Ok.0~Some & @1~Ok
