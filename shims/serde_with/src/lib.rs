//! Stand-in for `serde_with`: the conversions the code uses.
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::marker::PhantomData;
pub use serde_with_macros::serde_as;

pub trait SerializeAs<T: ?Sized> { fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error>; }
pub trait DeserializeAs<'de, T>: Sized { fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error>; }

pub struct Same;
impl<T: Serialize + ?Sized> SerializeAs<T> for Same { fn serialize_as<S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> { t.serialize(s) } }
impl<'de, T: Deserialize<'de>> DeserializeAs<'de, T> for Same { fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> { T::deserialize(d) } }
pub struct Bytes;
impl<'de> DeserializeAs<'de, &'de [u8]> for Bytes { fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<&'de [u8], D::Error> { <&'de [u8]>::deserialize(d) } }

pub struct As<T: ?Sized>(PhantomData<T>);
impl<A: ?Sized> As<A> {
    pub fn serialize<T, S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> where A: SerializeAs<T> { A::serialize_as(t, s) }
    pub fn deserialize<'de, T, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> where A: DeserializeAs<'de, T> { A::deserialize_as(d) }
}
struct SerWrap<'a, T, A>(&'a T, PhantomData<A>);
impl<T, A: SerializeAs<T>> Serialize for SerWrap<'_, T, A> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { A::serialize_as(self.0, s) } }
struct DeWrap<T, A>(T, PhantomData<A>);
impl<'de, T, A: DeserializeAs<'de, T>> Deserialize<'de> for DeWrap<T, A> { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(DeWrap(A::deserialize_as(d)?, PhantomData)) } }

impl<T, A: SerializeAs<T>> SerializeAs<Vec<T>> for Vec<A> {
    fn serialize_as<S: Serializer>(v: &Vec<T>, s: S) -> Result<S::Ok, S::Error> { s.collect_seq(v.iter().map(|x| SerWrap::<T, A>(x, PhantomData))) }
}
impl<'de, T, A: DeserializeAs<'de, T>> DeserializeAs<'de, Vec<T>> for Vec<A> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Vec<T>, D::Error> {
        Ok(Vec::<DeWrap<T, A>>::deserialize(d)?.into_iter().map(|x| x.0).collect())
    }
}
impl<K, V, KA: SerializeAs<K>, VA: SerializeAs<V>> SerializeAs<BTreeMap<K, V>> for BTreeMap<KA, VA> {
    fn serialize_as<S: Serializer>(m: &BTreeMap<K, V>, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(m.iter().map(|(k, v)| (SerWrap::<K, KA>(k, PhantomData), SerWrap::<V, VA>(v, PhantomData))))
    }
}
impl<'de, K: Ord, V, KA: DeserializeAs<'de, K>, VA: DeserializeAs<'de, V>> DeserializeAs<'de, BTreeMap<K, V>> for BTreeMap<KA, VA> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<BTreeMap<K, V>, D::Error> {
        struct Vis<K, V, KA, VA>(PhantomData<(K, V, KA, VA)>);
        impl<'de, K: Ord, V, KA: DeserializeAs<'de, K>, VA: DeserializeAs<'de, V>> de::Visitor<'de> for Vis<K, V, KA, VA> {
            type Value = BTreeMap<K, V>;
            fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "a map") }
            fn visit_map<M: de::MapAccess<'de>>(self, mut m: M) -> Result<Self::Value, M::Error> {
                let mut out = BTreeMap::new();
                while let Some((k, v)) = m.next_entry::<DeWrap<K, KA>, DeWrap<V, VA>>()? { out.insert(k.0, v.0); }
                Ok(out)
            }
        }
        d.deserialize_map(Vis::<K, V, KA, VA>(PhantomData))
    }
}
