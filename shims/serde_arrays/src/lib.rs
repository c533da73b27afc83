//! Stand-in for `serde_arrays`: fixed-length arrays as tuples.
use serde::{de, ser::SerializeTuple, Deserialize, Deserializer, Serialize, Serializer};
pub fn serialize<T: Serialize, S: Serializer, const N: usize>(a: &[T; N], s: S) -> Result<S::Ok, S::Error> {
    let mut t = s.serialize_tuple(N)?;
    for x in a { t.serialize_element(x)?; }
    t.end()
}
pub fn deserialize<'de, T: Deserialize<'de> + Copy + Default, D: Deserializer<'de>, const N: usize>(d: D) -> Result<[T; N], D::Error> {
    struct V<T, const N: usize>(core::marker::PhantomData<T>);
    impl<'de, T: Deserialize<'de> + Copy + Default, const N: usize> de::Visitor<'de> for V<T, N> {
        type Value = [T; N];
        fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "an array of length {N}") }
        fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<[T; N], A::Error> {
            let mut out = [T::default(); N];
            for (i, o) in out.iter_mut().enumerate() {
                *o = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(i, &"a full array"))?;
            }
            Ok(out)
        }
    }
    d.deserialize_tuple(N, V(core::marker::PhantomData))
}
