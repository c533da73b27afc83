//! Stand-in for `alloy-sol-types`: static structs of `uint64`, `bytes32` and other such structs.
pub use alloy_primitives::B256 as __B256;

#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub String);
impl Error { pub fn custom(s: impl Into<String>) -> Self { Error(s.into()) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = core::result::Result<T, Error>;

pub trait SolValue {
    fn abi_encode(&self) -> Vec<u8>;
    fn abi_encoded_size(&self) -> usize;
}
pub trait SolType {
    type RustType;
    const ENCODED_SIZE: Option<usize>;
    fn abi_decode(data: &[u8]) -> Result<Self::RustType>;
}
#[doc(hidden)]
pub trait __Word: Sized {
    const WORDS: usize;
    fn put(&self, out: &mut Vec<u8>);
    fn get(words: &[u8]) -> Result<Self>;
}
impl __Word for u64 {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) { out.extend_from_slice(&[0; 24]); out.extend_from_slice(&self.to_be_bytes()); }
    fn get(w: &[u8]) -> Result<Self> { Ok(u64::from_be_bytes(w[24..32].try_into().unwrap())) }
}
impl __Word for __B256 {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) { out.extend_from_slice(&self[..]); }
    fn get(w: &[u8]) -> Result<Self> { Ok(__B256::from_slice(&w[..32])) }
}
impl<T: __Word> SolValue for T {
    fn abi_encode(&self) -> Vec<u8> { let mut v = Vec::new(); self.put(&mut v); v }
    fn abi_encoded_size(&self) -> usize { T::WORDS * 32 }
}
impl<T: __Word> SolType for T {
    type RustType = T;
    const ENCODED_SIZE: Option<usize> = Some(T::WORDS * 32);
    fn abi_decode(data: &[u8]) -> Result<T> {
        if data.len() < T::WORDS * 32 { return Err(Error::custom("buffer overrun")); }
        T::get(data)
    }
}
#[macro_export]
#[doc(hidden)]
macro_rules! __sol_ty { (uint64) => { u64 }; (bytes32) => { $crate::__B256 }; ($t:ident) => { $t }; }
#[macro_export]
macro_rules! sol {
    ($(struct $name:ident { $($ty:ident $f:ident;)* })*) => {$(
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $name { $(pub $f: $crate::__sol_ty!($ty),)* }
        impl $crate::__Word for $name {
            const WORDS: usize = 0 $(+ <$crate::__sol_ty!($ty) as $crate::__Word>::WORDS)*;
            fn put(&self, out: &mut Vec<u8>) { $($crate::__Word::put(&self.$f, out);)* }
            fn get(words: &[u8]) -> $crate::Result<Self> {
                let mut _at = 0usize;
                $(let $f = { let n = <$crate::__sol_ty!($ty) as $crate::__Word>::WORDS * 32;
                    let v = <$crate::__sol_ty!($ty) as $crate::__Word>::get(&words[_at.._at + n])?; _at += n; v };)*
                Ok(Self { $($f,)* })
            }
        }
    )*};
}
