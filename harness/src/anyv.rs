//! A self-describing value captured through serde
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    Unit,
    Bool(bool),
    /// Any integer, signedness as delivered is not observable through typed targets
    Int(i128),
    F64(u64),
    Str(String),
    Seq(Vec<A>),
    Map(Vec<(String, A)>),
}

impl A {
    /// Entries of maps sorted by key (blocks come in no particular order)
    pub fn sorted(self) -> A {
        match self {
            A::Seq(v) => A::Seq(v.into_iter().map(A::sorted).collect()),
            A::Map(v) => {
                let mut v: Vec<_> = v.into_iter().map(|(k, v)| (k, v.sorted())).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                A::Map(v)
            }
            a => a,
        }
    }
}

impl<'de> Deserialize<'de> for A {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<A, D::Error> {
        struct Vi;
        impl<'de> Visitor<'de> for Vi {
            type Value = A;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E>(self) -> Result<A, E> {
                Ok(A::Unit)
            }
            fn visit_none<E>(self) -> Result<A, E> {
                Ok(A::Unit)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<A, D::Error> {
                A::deserialize(d)
            }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<A, D::Error> {
                A::deserialize(d)
            }
            fn visit_bool<E>(self, v: bool) -> Result<A, E> {
                Ok(A::Bool(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<A, E> {
                Ok(A::Int(i128::from(v)))
            }
            fn visit_u64<E>(self, v: u64) -> Result<A, E> {
                Ok(A::Int(i128::from(v)))
            }
            fn visit_i128<E>(self, v: i128) -> Result<A, E> {
                Ok(A::Int(v))
            }
            fn visit_u128<E>(self, v: u128) -> Result<A, E> {
                Ok(A::Int(v as i128))
            }
            fn visit_f64<E>(self, v: f64) -> Result<A, E> {
                Ok(A::F64(v.to_bits()))
            }
            fn visit_str<E>(self, v: &str) -> Result<A, E> {
                Ok(A::Str(v.to_string()))
            }
            fn visit_seq<S: SeqAccess<'de>>(self, mut s: S) -> Result<A, S::Error> {
                let mut v = vec![];
                while let Some(x) = s.next_element()? {
                    v.push(x);
                }
                Ok(A::Seq(v))
            }
            fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> Result<A, M::Error> {
                let mut v = vec![];
                while let Some(k) = m.next_key::<String>()? {
                    v.push((k, m.next_value()?));
                }
                Ok(A::Map(v))
            }
        }
        d.deserialize_any(Vi)
    }
}
