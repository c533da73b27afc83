verus! {
/// what a format transports: every value is written and read through the data model of serde
pub enum Val {
    Bytes(Seq<u8>), Bits(Seq<bool>), Num(int), Struct(Seq<Val>),
    U8(u8), U16(u16), U32(u32), U64(u64), Tuple(Seq<u8>), Word(Seq<u64>), Seq(Seq<Val>), Map(Seq<Val>, Seq<Val>),
}

// ---- the fields' types: their own (de)serialization is that of std, serde and bitvec ----
#[verifier::external_body]
pub struct CowBytes<'a> { x: &'a [u8] }
impl<'a> View for CowBytes<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a> PartialEqSpecImpl for CowBytes<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl<'a> PartialEq for CowBytes<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub struct Bits { x: u8 }
impl View for Bits { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl PartialEqSpecImpl for Bits {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialEq for Bits {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}

// ---- serde's traits with the contract of a binary, non-self-describing format (bincode): a struct is the values of
// its fields in the order they are written; a value can be read back with the type it was written with; a byte
// sequence can be read as bytes ----
pub mod _serde {
    #[allow(unused_imports)]
    use super::*;
    pub use self::ser::{Serialize, Serializer};
    pub use self::de::{Deserialize, Deserializer};
    pub mod __private {
        pub use core::result::Result::{self, Ok, Err};
        pub use core::option::Option::{self, Some, None};
        pub use core::marker::PhantomData;
        pub use core::default::Default;
        pub mod de {
            #[allow(unused_imports)]
            use super::super::super::*;
            #[verifier::external_body]
            pub fn borrow_cow_bytes<'de: 'a, 'a, D: _serde::Deserializer<'de>>(d: D) -> (r: Result<CowBytes<'a>, D::Error>)
                ensures d.val() is Bytes ==> r is Ok && Val::Bytes(r->Ok_0@) == d.val(),
            { unimplemented!() }
        }
    }
    pub mod ser {
        #[allow(unused_imports)]
        use super::super::*;
        /// the value a type is written as (apart from Serialize: trait contracts must not be cyclic)
        pub trait Enc { spec fn enc(&self) -> Val; }
        pub trait Serialize: Enc {
            fn serialize<__S: Serializer>(&self, s: __S) -> (r: Result<__S::Ok, __S::Error>)
                ensures r is Ok ==> __S::written(r->Ok_0) == self.enc();
        }
        pub trait Serializer: Sized {
            type Ok;
            type Error;
            type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
            spec fn written(r: Self::Ok) -> Val;
            fn serialize_u8(self, x: u8) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::written(r->Ok_0) == Val::U8(x);
            fn serialize_u16(self, x: u16) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::written(r->Ok_0) == Val::U16(x);
            fn serialize_u32(self, x: u32) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::written(r->Ok_0) == Val::U32(x);
            fn serialize_u64(self, x: u64) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::written(r->Ok_0) == Val::U64(x);
            fn serialize_bytes(self, x: &[u8]) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::written(r->Ok_0) == Val::Bytes(x@);
            fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
                ensures r is Ok ==> r->Ok_0.fields() == Seq::<Val>::empty() && r->Ok_0.len() == len && (forall|o: Self::Ok| #[trigger] Self::SerializeStruct::result(o) == Self::written(o));
        }
        pub trait SerializeStruct: Sized {
            type Ok;
            type Error;
            spec fn fields(&self) -> Seq<Val>;
            spec fn len(&self) -> int;
            spec fn result(r: Self::Ok) -> Val;
            fn serialize_field<T: Enc>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
                ensures r is Ok ==> final(self).fields() == old(self).fields().push(value.enc()) && final(self).len() == old(self).len();
            fn end(self) -> (r: Result<Self::Ok, Self::Error>)
                requires self.fields().len() == self.len(),
                ensures r is Ok ==> Self::result(r->Ok_0) == Val::Struct(self.fields());
        }
    }
    pub mod de {
        #[allow(unused_imports)]
        use super::super::*;
        pub trait Error: Sized {
            fn invalid_length(len: usize, exp: &&'static str) -> Self;
            fn custom<T>(msg: T) -> Self;
        }
        pub trait Dec: Sized {
            /// v was written by a value of this type
            spec fn decodes(v: Val) -> bool;
            /// the value v was written by
            spec fn is(&self, v: Val) -> bool;
        }
        pub trait Deserialize<'de>: Dec {
            fn deserialize<__D: Deserializer<'de>>(d: __D) -> (r: Result<Self, __D::Error>)
                ensures Self::decodes(d.val()) ==> r is Ok && r->Ok_0.is(d.val());
        }
        pub trait Deserializer<'de>: Sized {
            type Error: Error;
            spec fn val(&self) -> Val;
            fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
                ensures self.val() is Struct && fields@.len() <= self.val()->Struct_0.len() && V::accepts(self.val()->Struct_0.take(fields@.len() as int))
                    ==> r is Ok && V::yields(r->Ok_0, self.val()->Struct_0.take(fields@.len() as int));
        }
        pub trait SeqAccess<'de>: Sized {
            type Error: Error;
            spec fn rem(&self) -> Seq<Val>;
            fn next_element<T: Dec>(&mut self) -> (r: Result<Option<T>, Self::Error>)
                ensures
                    old(self).rem().len() == 0 && r is Ok ==> r->Ok_0 is None,
                    old(self).rem().len() > 0 && T::decodes(old(self).rem()[0]) ==> r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0.is(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
        }
        pub trait Visitor<'de>: Sized {
            type Value;
            spec fn accepts(vals: Seq<Val>) -> bool;
            spec fn yields(v: Self::Value, vals: Seq<Val>) -> bool;
            fn visit_seq<__A: SeqAccess<'de>>(self, seq: __A) -> (r: Result<Self::Value, __A::Error>)
                ensures Self::accepts(seq.rem()) ==> r is Ok && Self::yields(r->Ok_0, seq.rem());
        }
    }
}
impl<'a> _serde::ser::Enc for CowBytes<'a> {
    open spec fn enc(&self) -> Val { Val::Bytes(self@) }
}
impl<'a> _serde::Serialize for CowBytes<'a> {
    #[verifier::external_body]
    fn serialize<__S: _serde::Serializer>(&self, s: __S) -> (r: Result<__S::Ok, __S::Error>) { unimplemented!() }
}
impl _serde::ser::Enc for Bits {
    open spec fn enc(&self) -> Val { Val::Bits(self@) }
}
impl _serde::Serialize for Bits {
    #[verifier::external_body]
    fn serialize<__S: _serde::Serializer>(&self, s: __S) -> (r: Result<__S::Ok, __S::Error>) { unimplemented!() }
}
impl _serde::ser::Enc for usize {
    open spec fn enc(&self) -> Val { Val::Num(*self as int) }
}
impl _serde::Serialize for usize {
    #[verifier::external_body]
    fn serialize<__S: _serde::Serializer>(&self, s: __S) -> (r: Result<__S::Ok, __S::Error>) { unimplemented!() }
}
impl _serde::de::Dec for Bits {
    open spec fn decodes(v: Val) -> bool { v is Bits }
    open spec fn is(&self, v: Val) -> bool { v == Val::Bits(self@) }
}
impl<'de> _serde::Deserialize<'de> for Bits {
    #[verifier::external_body]
    fn deserialize<__D: _serde::Deserializer<'de>>(d: __D) -> (r: Result<Self, __D::Error>) { unimplemented!() }
}
impl _serde::de::Dec for usize {
    open spec fn decodes(v: Val) -> bool { v is Num && 0 <= v->Num_0 <= usize::MAX }
    open spec fn is(&self, v: Val) -> bool { v == Val::Num(*self as int) }
}
impl<'de> _serde::Deserialize<'de> for usize {
    #[verifier::external_body]
    fn deserialize<__D: _serde::Deserializer<'de>>(d: __D) -> (r: Result<Self, __D::Error>) { unimplemented!() }
}

// ---- the multiproof ----
//@item ssz-multiproofs/src/multiproof.rs | struct | Multiproof
/// equal multiproofs: the same chunks, mask, shape and hint
pub open spec fn same(a: Multiproof, b: Multiproof) -> bool {
    a.data@ == b.data@ && a.value_mask@ == b.value_mask@ && a.descriptor@ == b.descriptor@ && a.max_stack_depth == b.max_stack_depth
}
/// what is written: every field once, in the order of the declaration (the lines below are put in that order)
pub open spec fn vals(m: Multiproof) -> Seq<Val> { seq![/*order Multiproof*/
        Val::Bytes(m.data@) /*data*/,
        Val::Bits(m.value_mask@) /*value_mask*/,
        Val::Bits(m.descriptor@) /*descriptor*/,
        Val::Num(m.max_stack_depth as int) /*max_stack_depth*/,
    /*order*/] }
pub open spec fn written_by_one(v: Seq<Val>) -> bool {
    exists|m: Multiproof| v == #[trigger] vals(m)
}
/// The property: what `serialize` writes is read by `deserialize` as an equal multiproof.
pub proof fn round_trip(a: Multiproof, b: Multiproof, v: Val)
    requires v == _serde::ser::Enc::enc(&a), _serde::de::Dec::is(&b, v),
    ensures same(a, b),
{
    let (x, y) = (vals(a), vals(b));
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {}
    assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]);
}
impl<'a> _serde::ser::Enc for Multiproof<'a> {
    open spec fn enc(&self) -> Val { Val::Struct(vals(*self)) }
}
impl<'a> _serde::Serialize for Multiproof<'a> {
//@fn @expanded/multiproof.rs | Serialize for Multiproof::serialize | {"vis": ""}
//@tail
        proof { assert(_serde::ser::SerializeStruct::fields(&__serde_state) =~= vals(*self)); }
//@end
}
//@item @expanded/multiproof.rs | struct | __DeserializeWith_Cowau8
impl<'de: 'a, 'a> _serde::de::Dec for __DeserializeWith_Cowau8<'de, 'a> {
    open spec fn decodes(v: Val) -> bool { v is Bytes }
    open spec fn is(&self, v: Val) -> bool { v == Val::Bytes(self.value@) }
}
impl<'de: 'a, 'a> _serde::Deserialize<'de> for __DeserializeWith_Cowau8<'de, 'a> {
//@fn @expanded/multiproof.rs | Deserialize for __DeserializeWith_Cowau8::deserialize | {"vis": ""}
//@end
}
//@item @expanded/multiproof.rs | struct | __Visitor
impl<'de: 'a, 'a> _serde::de::Visitor<'de> for __Visitor<'de, 'a> {
    type Value = Multiproof<'a>;
    open spec fn accepts(v: Seq<Val>) -> bool { written_by_one(v) }
    open spec fn yields(m: Multiproof<'a>, v: Seq<Val>) -> bool { v == vals(m) }
//@fn @expanded/multiproof.rs | Visitor for __Visitor::visit_seq | {"vis": ""}
//@begin
        let ghost v = _serde::de::SeqAccess::rem(&__seq);
//@closure 0
        |$0: __DeserializeWith_Cowau8<'de, 'a>| -> (r: CowBytes<'a>) ensures r == $0.value
//@result
        proof { if written_by_one(v) { assert(v =~= vals(vf_r->Ok_0)); } }
//@end
}
impl<'a> _serde::de::Dec for Multiproof<'a> {
    open spec fn decodes(v: Val) -> bool { v is Struct && written_by_one(v->Struct_0) }
    open spec fn is(&self, v: Val) -> bool { v == Val::Struct(vals(*self)) }
}
impl<'de: 'a, 'a> _serde::Deserialize<'de> for Multiproof<'a> {
//@fn @expanded/multiproof.rs | Deserialize for Multiproof::deserialize | {"vis": ""}
//@tail
        proof {
            let v = _serde::de::Deserializer::val(&__deserializer);
            if v is Struct { assert(v->Struct_0.take(v->Struct_0.len() as int) =~= v->Struct_0); }
        }
//@end
}
impl<'a> PartialEqSpecImpl for Multiproof<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { same(*self, *o) }
}
impl<'a> ::core::cmp::PartialEq for Multiproof<'a> {
//@fn @expanded/multiproof.rs | PartialEq for Multiproof::eq | {"vis": ""}
//@end
}
} // verus!
