//! C14: deserialising yields the document's content or an error; C15: nothing is dropped silently
use crate::anyv::A;
use crate::frame::{Env, Prop, Rec};
use crate::gen::{self, GenCfg, Style};
use crate::model::*;
use crate::props::scalars::{in_range, int_parts};
use crate::rng::Rng;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::serde::de::{self as hcl, Deserializer as BodyDe, Error};
use ferrous_chloride::AsOwned;
use serde::de::{DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

// ---------------------------------------------------------------------------------------------
// Target types made at run time

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Int(I),
    F32,
    F64,
    Char,
    Str,
    /// A borrowed string
    BStr,
    Unit,
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Map(Box<Ty>),
    Struct(Vec<(String, Ty)>),
    Newtype(Box<Ty>),
    Any,
    Ignored,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum I {
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
}

const INTS: &[I] = &[I::I8, I::I16, I::I32, I::I64, I::I128, I::U8, I::U16, I::U32, I::U64, I::U128];

impl I {
    fn limits(self) -> (String, String) {
        macro_rules! l {
            ($t: ty) => {
                (<$t>::min_value().to_string(), <$t>::max_value().to_string())
            };
        }
        match self {
            I::I8 => l!(i8),
            I::I16 => l!(i16),
            I::I32 => l!(i32),
            I::I64 => l!(i64),
            I::I128 => l!(i128),
            I::U8 => l!(u8),
            I::U16 => l!(u16),
            I::U32 => l!(u32),
            I::U64 => l!(u64),
            I::U128 => l!(u128),
        }
    }
}

struct SeqV<'a>(&'a Ty);
struct TupleV<'a>(&'a [Ty]);
struct MapV<'a>(&'a Ty);
struct StructV<'a>(&'a [(String, Ty)]);
struct OptV<'a>(&'a Ty);
struct NewV<'a>(&'a Ty);

impl<'de, 'a> Visitor<'de> for SeqV<'a> {
    type Value = A;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<S: SeqAccess<'de>>(self, mut s: S) -> Result<A, S::Error> {
        let mut v = vec![];
        while let Some(x) = s.next_element_seed(self.0)? {
            v.push(x);
        }
        Ok(A::Seq(v))
    }
}

impl<'de, 'a> Visitor<'de> for TupleV<'a> {
    type Value = A;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of {}", self.0.len())
    }
    fn visit_seq<S: SeqAccess<'de>>(self, mut s: S) -> Result<A, S::Error> {
        let mut v = vec![];
        for t in self.0 {
            match s.next_element_seed(t)? {
                Some(x) => v.push(x),
                None => return Err(serde::de::Error::invalid_length(v.len(), &self)),
            }
        }
        // Like the implementations for tuples in serde: never asks whether there is more
        Ok(A::Seq(v))
    }
}

impl<'de, 'a> Visitor<'de> for MapV<'a> {
    type Value = A;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> Result<A, M::Error> {
        let mut v = vec![];
        while let Some(k) = m.next_key::<String>()? {
            v.push((k, m.next_value_seed(self.0)?));
        }
        Ok(A::Map(v))
    }
}

impl<'de, 'a> Visitor<'de> for StructV<'a> {
    type Value = A;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct")
    }
    fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> Result<A, M::Error> {
        let mut v: BTreeMap<&String, A> = BTreeMap::new();
        while let Some(k) = m.next_key::<String>()? {
            match self.0.iter().find(|f| f.0 == k) {
                Some((name, t)) => {
                    let x = m.next_value_seed(t)?;
                    if v.insert(name, x).is_some() {
                        return Err(serde::de::Error::custom(format!("duplicate field {}", name)));
                    }
                }
                None => {
                    m.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for (name, t) in self.0 {
            match (v.remove(name), t) {
                (Some(x), _) => out.push((name.clone(), x)),
                (None, Ty::Opt(_)) => {}
                (None, _) => return Err(serde::de::Error::custom(format!("missing field {}", name))),
            }
        }
        Ok(A::Map(out))
    }
}

impl<'de, 'a> Visitor<'de> for OptV<'a> {
    type Value = A;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an option")
    }
    fn visit_none<E>(self) -> Result<A, E> {
        Ok(A::Unit)
    }
    fn visit_unit<E>(self) -> Result<A, E> {
        Ok(A::Unit)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<A, D::Error> {
        Ok(A::Seq(vec![self.0.deserialize(d)?]))
    }
}

impl<'de, 'a> Visitor<'de> for NewV<'a> {
    type Value = A;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a newtype")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<A, D::Error> {
        self.0.deserialize(d)
    }
}

#[derive(Deserialize)]
struct UnitStruct;

const FIELDS: &[&str] = &["a", "b", "c"];

impl<'de, 'a> DeserializeSeed<'de> for &'a Ty {
    type Value = A;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<A, D::Error> {
        macro_rules! int {
            ($t: ty) => {
                <$t>::deserialize(d).map(|x| A::Int(x as i128))
            };
        }
        match self {
            Ty::Bool => bool::deserialize(d).map(A::Bool),
            Ty::Int(I::I8) => int!(i8),
            Ty::Int(I::I16) => int!(i16),
            Ty::Int(I::I32) => int!(i32),
            Ty::Int(I::I64) => int!(i64),
            Ty::Int(I::I128) => int!(i128),
            Ty::Int(I::U8) => int!(u8),
            Ty::Int(I::U16) => int!(u16),
            Ty::Int(I::U32) => int!(u32),
            Ty::Int(I::U64) => int!(u64),
            Ty::Int(I::U128) => int!(u128),
            Ty::F32 => f32::deserialize(d).map(|f| A::F64(f64::from(f).to_bits())),
            Ty::F64 => f64::deserialize(d).map(|f| A::F64(f.to_bits())),
            Ty::Char => char::deserialize(d).map(|c| A::Str(c.to_string())),
            Ty::Str => String::deserialize(d).map(A::Str),
            Ty::BStr => <&str>::deserialize(d).map(|s| A::Str(s.to_string())),
            Ty::Unit => {
                if FIELDS.len() % 2 == 0 {
                    <()>::deserialize(d).map(|_| A::Unit)
                } else {
                    UnitStruct::deserialize(d).map(|_| A::Unit)
                }
            }
            Ty::Opt(t) => d.deserialize_option(OptV(t)),
            Ty::Seq(t) => d.deserialize_seq(SeqV(t)),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), TupleV(ts)),
            Ty::TupleStruct(ts) => d.deserialize_tuple_struct("Tup", ts.len(), TupleV(ts)),
            Ty::Map(t) => d.deserialize_map(MapV(t)),
            Ty::Struct(fs) => d.deserialize_struct("Struct", FIELDS, StructV(fs)),
            Ty::Newtype(t) => d.deserialize_newtype_struct("New", NewV(t)),
            Ty::Any => A::deserialize(d),
            Ty::Ignored => IgnoredAny::deserialize(d).map(|_| A::Unit),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// What a target has to receive

/// `Maybe`: nothing is claimed
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Ok(A),
    Err,
    Maybe,
    /// This, or an error
    OkOrErr(A),
}

fn all<I: Iterator<Item = W>>(it: I) -> Result<(Vec<A>, bool), W> {
    let mut out = vec![];
    let mut maybe = false;
    let mut soft = false;
    for w in it {
        match w {
            W::Ok(a) => out.push(a),
            W::OkOrErr(a) => {
                soft = true;
                out.push(a);
            }
            W::Err => return Err(W::Err),
            W::Maybe => maybe = true,
        }
    }
    if maybe {
        return Err(W::Maybe);
    }
    Ok((out, soft))
}

fn done(a: A, soft: bool) -> W {
    if soft {
        W::OkOrErr(a)
    } else {
        W::Ok(a)
    }
}

fn seq<It: Iterator<Item = W>>(it: It) -> W {
    match all(it) {
        Ok((v, soft)) => done(A::Seq(v), soft),
        Err(w) => w,
    }
}

fn map<It: Iterator<Item = (String, W)>>(it: It) -> W {
    let (keys, vals): (Vec<String>, Vec<W>) = it.unzip();
    match all(vals.into_iter()) {
        Ok((v, soft)) => done(A::Map(keys.into_iter().zip(v).collect()), soft),
        Err(w) => w,
    }
}

/// Text of the key of an object, when it is a string
pub fn key_text(k: &K) -> Option<&str> {
    match k {
        K::Ident(s) => Some(s),
        K::Expr(E::Str(s)) => Some(s),
        _ => None,
    }
}

fn unique<'a, It: Iterator<Item = &'a str>>(it: It) -> bool {
    let mut seen = std::collections::BTreeSet::new();
    for k in it {
        if !seen.insert(k) {
            return false;
        }
    }
    true
}

/// The integer, modulo 2^128
fn int_bits(p: &(bool, String)) -> i128 {
    if p.0 {
        format!("-{}", p.1).parse().expect("harness: i128")
    } else {
        p.1.parse::<u128>().expect("harness: u128") as i128
    }
}

fn want_num(t: &Ty, text: &str) -> W {
    let parts = int_parts(text);
    // A sign makes no difference to the exact value
    match t {
        Ty::Int(i) => match &parts {
            None => W::Err,
            Some(p) => {
                let (lo, hi) = i.limits();
                if !in_range(p, &lo, &hi) {
                    return W::Err;
                }
                W::Ok(A::Int(int_bits(p)))
            }
        },
        Ty::F64 | Ty::F32 => {
            let y: f64 = if *t == Ty::F32 {
                // To the nearest at once, not by way of f64
                f64::from(text.parse::<f32>().expect("harness: literal"))
            } else {
                text.parse().expect("harness: literal")
            };
            match &parts {
                // -0 arrives as an integer
                Some(p) if y == 0.0 && in_range(p, "0", "0") => W::Ok(A::F64(0.0f64.to_bits())),
                _ => W::Ok(A::F64(y.to_bits())),
            }
        }
        Ty::Any => match &parts {
            None => want_num(&Ty::F64, text),
            Some(p) if p.0 && in_range(p, &I::I128.limits().0, "0") => want_num(&Ty::Int(I::I128), text),
            Some(p) if !p.0 && in_range(p, "0", &I::U128.limits().1) => want_num(&Ty::Int(I::U128), text),
            // More than 128 bits: no integer of serde holds it
            Some(_) => W::Maybe,
        },
        Ty::Ignored => W::Ok(A::Unit),
        _ => W::Err,
    }
}

/// What is inside of a value that is ignored may be invalid in ways nobody looked at
fn clean(e: &E) -> bool {
    match e {
        E::Tuple(t) => t.iter().all(clean),
        E::Obj(o) => o.iter().all(|(k, v)| key_text(k).is_some() && clean(v)) && unique(o.iter().filter_map(|(k, _)| key_text(k))),
        _ => true,
    }
}

fn clean_doc(d: &Doc) -> bool {
    body_names(d).is_some()
        && d.iter().all(|el| match el {
            El::Attr(_, e) => clean(e),
            El::Block(b) => clean_doc(&b.body),
        })
}

pub fn want(t: &Ty, e: &E) -> W {
    match t {
        Ty::Ignored => return if clean(e) { W::Ok(A::Unit) } else { W::Maybe },
        Ty::Opt(t) => {
            return match e {
                E::Null => W::Ok(A::Unit),
                e => match want(t, e) {
                    W::Ok(a) => W::Ok(A::Seq(vec![a])),
                    W::OkOrErr(a) => W::OkOrErr(A::Seq(vec![a])),
                    w => w,
                },
            }
        }
        Ty::Newtype(t) => return want(t, e),
        _ => {}
    }
    match e {
        E::Null => match t {
            Ty::Unit | Ty::Any => W::Ok(A::Unit),
            _ => W::Err,
        },
        E::Bool(b) => match t {
            Ty::Bool | Ty::Any => W::Ok(A::Bool(*b)),
            _ => W::Err,
        },
        E::Num(text) => want_num(t, text),
        E::Str(s) => match t {
            Ty::Str | Ty::Any => W::Ok(A::Str(s.clone())),
            // Borrowing depends on how the string was written
            Ty::BStr => W::OkOrErr(A::Str(s.clone())),
            Ty::Char if s.chars().count() == 1 => W::Ok(A::Str(s.clone())),
            _ => W::Err,
        },
        E::Tuple(v) => match t {
            Ty::Any => seq(v.iter().map(|e| want(&Ty::Any, e))),
            Ty::Seq(t) => seq(v.iter().map(|e| want(t, e))),
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => {
                if ts.len() != v.len() {
                    return W::Err;
                }
                seq(ts.iter().zip(v).map(|(t, e)| want(t, e)))
            }
            _ => W::Err,
        },
        E::Obj(o) => {
            let keys: Option<Vec<&str>> = o.iter().map(|(k, _)| key_text(k)).collect();
            let keys = match keys {
                Some(k) => k,
                None => return W::Err,
            };
            if !unique(keys.iter().copied()) {
                return W::Err;
            }
            match t {
                Ty::Any => map(keys.iter().zip(o).map(|(k, (_, e))| (k.to_string(), want(&Ty::Any, e)))),
                Ty::Map(t) => map(keys.iter().zip(o).map(|(k, (_, e))| (k.to_string(), want(t, e)))),
                Ty::Struct(fs) => {
                    let rest = keys.iter().zip(o).filter(|(k, _)| !fs.iter().any(|f| f.0 == ***k)).map(|(_, (_, e))| want(&Ty::Ignored, e));
                    strct(fs, |name| keys.iter().position(|k| *k == name).map(|i| &o[i].1), |t, e| want(t, e), rest)
                }
                _ => W::Err,
            }
        }
    }
}

fn strct<'a, X: 'a, F, G, It>(fs: &[(String, Ty)], find: F, want: G, rest: It) -> W
where
    F: Fn(&str) -> Option<&'a X>,
    G: Fn(&Ty, &'a X) -> W,
    It: Iterator<Item = W>,
{
    if let Err(w) = all(rest) {
        return w;
    }
    let mut names = vec![];
    let mut vals = vec![];
    for (name, t) in fs {
        match (find(name), t) {
            (Some(x), t) => {
                names.push(name.clone());
                vals.push(want(t, x));
            }
            (None, Ty::Opt(_)) => {}
            (None, _) => return W::Err,
        }
    }
    map(names.into_iter().zip(vals))
}

pub enum Item<'a> {
    Attr(&'a E),
    Blocks(Vec<&'a Bl>),
}

/// The entries of a body, attributes first; nothing when a name is used twice
pub fn body_names(d: &Doc) -> Option<Vec<(&str, Item<'_>)>> {
    let mut out: Vec<(&str, Item)> = vec![];
    for el in d {
        if let El::Attr(n, e) = el {
            if out.iter().any(|o| o.0 == n) {
                return None;
            }
            out.push((n, Item::Attr(e)));
        }
    }
    let attrs = out.len();
    for el in d {
        if let El::Block(b) = el {
            if out[..attrs].iter().any(|o| o.0 == b.ty) {
                return None;
            }
            match out[attrs..].iter_mut().find(|o| o.0 == b.ty) {
                Some((_, Item::Blocks(v))) => v.push(b),
                _ => out.push((&b.ty, Item::Blocks(vec![b]))),
            }
        }
    }
    Some(out)
}

fn want_item(t: &Ty, i: &Item) -> W {
    match i {
        Item::Attr(e) => want(t, e),
        Item::Blocks(bs) => want_blocks(t, bs),
    }
}

fn want_blocks(t: &Ty, bs: &[&Bl]) -> W {
    match t {
        Ty::Ignored => return if bs.iter().all(|b| clean_doc(&b.body)) { W::Ok(A::Unit) } else { W::Maybe },
        Ty::Opt(t) => {
            return match want_blocks(t, bs) {
                W::Ok(a) => W::Ok(A::Seq(vec![a])),
                W::OkOrErr(a) => W::OkOrErr(A::Seq(vec![a])),
                w => w,
            }
        }
        // Not supported so far; what would be delivered is not specified
        Ty::Newtype(_) => return W::Maybe,
        _ => {}
    }
    if bs.iter().any(|b| !b.labels.is_empty()) {
        return W::Err;
    }
    match t {
        Ty::Seq(t) => seq(bs.iter().map(|b| want_doc(t, &b.body))),
        Ty::Any if bs.len() > 1 => seq(bs.iter().map(|b| want_doc(&Ty::Any, &b.body))),
        Ty::Any | Ty::Map(_) | Ty::Struct(_) if bs.len() == 1 => want_doc(t, &bs[0].body),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => {
            // A single block is taken for a map
            if bs.len() != ts.len() {
                W::Err
            } else if bs.len() == 1 {
                W::Maybe
            } else {
                seq(bs.iter().zip(ts).map(|(b, t)| want_doc(t, &b.body)))
            }
        }
        _ => W::Err,
    }
}

pub fn want_doc(t: &Ty, d: &Doc) -> W {
    let items = match body_names(d) {
        Some(i) => i,
        // Options, newtypes and the like of a body are not specified
        None => return if let Ty::Ignored = t { W::Maybe } else { W::Err },
    };
    match t {
        Ty::Any => map(items.iter().map(|(k, i)| (k.to_string(), want_item(t, i)))),
        Ty::Map(t) => map(items.iter().map(|(k, i)| (k.to_string(), want_item(t, i)))),
        Ty::Struct(fs) => {
            let rest = items.iter().filter(|(k, _)| !fs.iter().any(|f| f.0 == *k)).map(|(_, i)| want_item(&Ty::Ignored, i));
            strct(fs, |name| items.iter().find(|i| i.0 == name).map(|i| &i.1), |t, i| want_item(t, i), rest)
        }
        Ty::Ignored => {
            if clean_doc(d) {
                W::Ok(A::Unit)
            } else {
                W::Maybe
            }
        }
        Ty::Opt(_) | Ty::Newtype(_) | Ty::Unit => W::Maybe,
        _ => W::Err,
    }
}

// ---------------------------------------------------------------------------------------------
// Types that suit a value

fn some_ty(r: &mut Rng) -> Ty {
    match r.below(12) {
        0 => Ty::Bool,
        1 => Ty::Int(r.pickc(INTS)),
        2 => Ty::F64,
        3 => Ty::F32,
        4 => Ty::Char,
        5 => Ty::Str,
        6 => Ty::Unit,
        7 => Ty::Seq(Box::new(Ty::Any)),
        8 => Ty::Map(Box::new(Ty::Any)),
        9 => Ty::Tuple((0..r.range(1, 4)).map(|_| Ty::Any).collect()),
        10 => Ty::Struct(vec![("a".into(), Ty::Any)]),
        _ => Ty::Any,
    }
}

/// One type for all of the values
fn join(r: &mut Rng, ts: Vec<Ty>) -> Ty {
    let mut ts = ts;
    ts.dedup();
    match ts.len() {
        0 => some_ty(r),
        1 => ts.pop().unwrap_or(Ty::Any),
        _ if ts.iter().all(|t| matches!(t, Ty::Int(_))) => Ty::Int(I::I64),
        _ => Ty::Any,
    }
}

pub fn ty_of(r: &mut Rng, e: &E, odd: usize) -> Ty {
    if r.one_in(odd) {
        return some_ty(r);
    }
    match r.below(12) {
        0 => return Ty::Opt(Box::new(ty_of(r, e, odd))),
        1 => return Ty::Newtype(Box::new(ty_of(r, e, odd))),
        2 => return Ty::Any,
        3 if r.one_in(4) => return Ty::Ignored,
        _ => {}
    }
    match e {
        E::Null => Ty::Unit,
        E::Bool(_) => Ty::Bool,
        E::Num(t) => match int_parts(t) {
            None => r.pickc(&[0, 0, 0, 1]).eq(&0).then(|| Ty::F64).unwrap_or(Ty::F32),
            Some(_) => match r.below(8) {
                0 => Ty::F64,
                1 => Ty::F32,
                2 | 3 => Ty::Int(I::I64),
                4 => Ty::Int(I::U64),
                _ => Ty::Int(r.pickc(INTS)),
            },
        },
        E::Str(s) => {
            if s.chars().count() == 1 && r.one_in(2) {
                Ty::Char
            } else if r.one_in(6) {
                Ty::BStr
            } else {
                Ty::Str
            }
        }
        E::Tuple(v) => {
            let ts: Vec<Ty> = v.iter().map(|e| ty_of(r, e, odd)).collect();
            match r.below(4) {
                0 if !ts.is_empty() => Ty::Tuple(fit(r, ts, odd)),
                1 if !ts.is_empty() => Ty::TupleStruct(fit(r, ts, odd)),
                _ => Ty::Seq(Box::new(join(r, ts))),
            }
        }
        E::Obj(o) => {
            let fields: Vec<(String, Ty)> = o
                .iter()
                .map(|(k, v)| (key_text(k).unwrap_or("no text").to_string(), ty_of(r, v, odd)))
                .collect();
            fields_ty(r, fields, odd)
        }
    }
}

/// A tuple is made longer or shorter now and then
fn fit(r: &mut Rng, mut ts: Vec<Ty>, odd: usize) -> Vec<Ty> {
    if r.one_in(odd) {
        if r.one_in(2) && ts.len() > 1 {
            ts.pop();
        } else {
            ts.push(Ty::Any);
        }
    }
    ts
}

fn fields_ty(r: &mut Rng, fields: Vec<(String, Ty)>, odd: usize) -> Ty {
    if r.one_in(3) {
        return Ty::Map(Box::new(join(r, fields.into_iter().map(|f| f.1).collect())));
    }
    let mut out: Vec<(String, Ty)> = vec![];
    for (n, t) in fields {
        if !out.iter().any(|f| f.0 == n) && !r.one_in(8) {
            out.push((n, t));
        }
    }
    if r.one_in(8) {
        out.push(("not there".into(), Ty::Opt(Box::new(Ty::Str))));
    }
    if r.one_in(odd) {
        out.push(("not there either".into(), Ty::Any));
    }
    r.shuffle(&mut out);
    Ty::Struct(out)
}

fn ty_of_blocks(r: &mut Rng, bs: &[&Bl], odd: usize) -> Ty {
    if r.one_in(odd) {
        return some_ty(r);
    }
    if bs.iter().any(|b| !b.labels.is_empty()) && !r.one_in(4) {
        return Ty::Ignored;
    }
    let mut ts: Vec<Ty> = bs.iter().map(|b| ty_of_doc(r, &b.body, odd)).collect();
    match r.below(8) {
        0 => Ty::Any,
        1 => Ty::Ignored,
        2 | 3 if bs.len() > 1 => Ty::Tuple(fit(r, ts, odd)),
        4 if bs.len() > 1 => Ty::TupleStruct(fit(r, ts, odd)),
        5 => Ty::Opt(Box::new(ty_of_blocks(r, bs, odd))),
        _ if bs.len() == 1 && r.one_in(2) => ts.pop().unwrap_or(Ty::Any),
        _ => Ty::Seq(Box::new(join(r, ts))),
    }
}

pub fn ty_of_doc(r: &mut Rng, d: &Doc, odd: usize) -> Ty {
    let items = match body_names(d) {
        None => return r.pickc(&[0, 1]).eq(&0).then(|| Ty::Any).unwrap_or(Ty::Map(Box::new(Ty::Any))),
        Some(i) => i,
    };
    if r.one_in(8) {
        return Ty::Any;
    }
    let fields: Vec<(String, Ty)> = items
        .iter()
        .map(|(n, i)| {
            let t = match i {
                Item::Attr(e) => ty_of(r, e, odd),
                Item::Blocks(bs) => ty_of_blocks(r, bs, odd),
            };
            (n.to_string(), t)
        })
        .collect();
    fields_ty(r, fields, odd)
}

// ---------------------------------------------------------------------------------------------

pub static C14: Prop = Prop {
    id: "C14",
    rule: "Documents and expressions in random spellings are deserialised into target types made at run time to suit the content (all integer widths, floats, char, strings, options, sequences, tuples, maps, structs, newtypes, untyped, ignored), with mismatches mixed in. A reference says for every target and value what has to be delivered, or that it must be an error. The same through borrowed and owned bodies and the several entry points; derived types (flatten, rename, default, tagged and untagged enums) as well. Non-trivial: a case in which a composite target receives a value; distinct by text and type.",
    cases: (60_000, 1_200_000),
    threads: 8,
    run: run_c14,
    need: &["delivered", "refused", "documents", "expressions", "ints", "wide_ints", "floats", "strings", "options", "tuples", "structs", "block_sequences", "labelled_ignored", "derived", "quoted_keys", "midpoints", "borrowed", "large"],
    exhaustive: false,
};

fn wide(a: &A) -> bool {
    match a {
        A::Int(v) => !(-0x8000_0000_0000_0000..=0xffff_ffff_ffff_ffff).contains(v),
        A::Seq(v) => v.iter().any(wide),
        A::Map(v) => v.iter().any(|(_, a)| wide(a)),
        _ => false,
    }
}

fn judge(rec: &mut Rec, what: &str, t: &Ty, w: &W, got: Result<A, String>) {
    match (w, got) {
        (W::Ok(a), Ok(g)) | (W::OkOrErr(a), Ok(g)) => {
            rec.count("delivered");
            if wide(a) {
                rec.count("wide_ints");
            }
            let (a, g) = (a.clone().sorted(), g.sorted());
            rec.check(a == g, "wrong-content", || format!("{} as {:?}: {}", what, t, diff_text(&format!("{:?}", a), &format!("{:?}", g))));
        }
        (W::Ok(a), Err(e)) => rec.fail("refused", format!("{} as {:?}: {} (expected {:?})", what, t, e, a)),
        (W::Err, Ok(g)) => rec.fail("accepted", format!("{} as {:?}: delivered {:?}, has to be an error", what, t, g)),
        (W::Err, Err(_)) => rec.count("refused"),
        (W::OkOrErr(_), Err(_)) | (W::Maybe, _) => {}
    }
}

fn census(rec: &mut Rec, t: &Ty) {
    match t {
        Ty::Int(_) => {
            rec.count("ints");
        }
        Ty::F32 | Ty::F64 => rec.count("floats"),
        Ty::Char | Ty::Str | Ty::BStr => rec.count("strings"),
        Ty::Opt(t) => {
            rec.count("options");
            census(rec, t);
        }
        Ty::Seq(t) | Ty::Map(t) | Ty::Newtype(t) => census(rec, t),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => {
            rec.count("tuples");
            ts.iter().for_each(|t| census(rec, t));
        }
        Ty::Struct(fs) => {
            rec.count("structs");
            fs.iter().for_each(|f| census(rec, &f.1));
        }
        _ => {}
    }
}

pub fn unique_doc(d: Doc) -> Doc {
    // Attributes with names already taken get another one
    let mut seen: BTreeMap<String, bool> = BTreeMap::new();
    let mut out = vec![];
    for (i, el) in d.into_iter().enumerate() {
        match el {
            El::Attr(mut n, e) => {
                if seen.contains_key(&n) {
                    n = format!("{}_{}", n, i);
                }
                seen.insert(n.clone(), true);
                out.push(El::Attr(n, e));
            }
            El::Block(mut b) => {
                if seen.get(&b.ty) == Some(&true) {
                    b.ty = format!("{}_b", b.ty);
                }
                if seen.get(&b.ty) == Some(&true) {
                    continue;
                }
                seen.insert(b.ty.clone(), false);
                b.body = unique_doc(b.body);
                out.push(El::Block(b));
            }
        }
    }
    out
}

fn count_doc(rec: &mut Rec, d: &Doc) {
    if let Some(items) = body_names(d) {
        for (_, i) in items {
            match i {
                Item::Blocks(bs) => {
                    if bs.len() > 1 {
                        rec.count("block_sequences");
                    }
                    if bs.iter().any(|b| !b.labels.is_empty()) {
                        rec.count("labelled_ignored");
                    }
                    bs.iter().for_each(|b| count_doc(rec, &b.body));
                }
                Item::Attr(e) => count_keys(rec, e),
            }
        }
    }
}

fn count_keys(rec: &mut Rec, e: &E) {
    match e {
        E::Tuple(t) => t.iter().for_each(|e| count_keys(rec, e)),
        E::Obj(o) => o.iter().for_each(|(k, e)| {
            if let K::Expr(E::Str(_)) = k {
                rec.count("quoted_keys");
            }
            count_keys(rec, e);
        }),
        _ => {}
    }
}

/// Values rich in numbers near limits, and few labels
fn a_doc(r: &mut Rng) -> Doc {
    let labels = r.one_in(4);
    let cfg = GenCfg {
        labels,
        dup_names: r.one_in(6),
        max_depth: 4,
        ..if r.one_in(6) { GenCfg::FULL } else { GenCfg::COMMON }
    };
    let mut d = gen::doc(r, &cfg);
    if !r.one_in(8) {
        d = unique_doc(d);
    }
    if r.one_in(2) {
        // Repeated blocks of one shape
        let n = r.range(1, 5);
        for i in 0..n {
            let mut body = vec![El::Attr("i".into(), E::Num(i.to_string())), El::Attr("s".into(), E::Str(format!("s{}", i)))];
            if r.one_in(2) {
                body.push(El::Block(Bl {
                    ty: "inner".into(),
                    labels: vec![],
                    body: vec![El::Attr("x".into(), E::Bool(true))],
                }));
            }
            let at = r.below(d.len() + 1);
            d.insert(
                at,
                El::Block(Bl {
                    ty: "rep".into(),
                    labels: vec![],
                    body,
                }),
            );
        }
    }
    d
}

fn style(r: &mut Rng) -> Style {
    Style {
        wild: r.one_in(2),
        ..Style::WILD
    }
}

/// Numbers where rounding once and rounding twice differ
fn floats(r: &mut Rng, rec: &mut Rec) {
    let lits: Vec<String> = (0..1 + r.below(4)).map(|_| super::scalars::midpoint(r).0).collect();
    let e = E::Tuple(lits.iter().map(|l| E::Num(l.clone())).collect());
    let text = format!("[{}]", lits.join(", "));
    rec.input(&text);
    rec.nontrivial(text.as_bytes());
    rec.count("midpoints");
    let d = vec![El::Attr("a".into(), e.clone())];
    let doc = format!("a = {}\n", text);
    for t in [Ty::F32, Ty::F64].iter() {
        let t = match r.below(3) {
            0 => Ty::Opt(Box::new(t.clone())),
            1 => Ty::Newtype(Box::new(t.clone())),
            _ => t.clone(),
        };
        let t = Ty::Seq(Box::new(t));
        census(rec, &t);
        match Expression::parse(&text) {
            Ok(p) => judge(rec, "expression", &t, &want(&t, &e), (&t).deserialize(p).map_err(|e| e.to_string())),
            Err(err) => return rec.fail("rejected", err.to_string()),
        }
        let dt = Ty::Struct(vec![("a".into(), t)]);
        match BodyDe::from_str(&doc) {
            Ok(de) => judge(rec, "document", &dt, &want_doc(&dt, &d), (&dt).deserialize(de).map_err(|e| e.to_string())),
            Err(err) => return rec.fail("rejected", err.to_string()),
        }
    }
}

/// What stands in the document as it is can be borrowed from it
fn borrowed(r: &mut Rng, rec: &mut Rec) {
    let lines: Vec<String> = (0..1 + r.below(4))
        .map(|_| gen::string(r).chars().filter(|c| *c != '\n' && *c != '\r').collect())
        .collect();
    let want = lines.join("\n");
    if lines.iter().any(|l| l.trim_start_matches(|c| c == ' ' || c == '\t') == "MARK") {
        return;
    }
    let text = format!("a = <<MARK\n{}\nMARK\nb = 1\n", want);
    rec.input(&text);
    rec.nontrivial(text.as_bytes());
    rec.count("borrowed");
    let t = match r.below(3) {
        0 => Ty::Opt(Box::new(Ty::BStr)),
        1 => Ty::Newtype(Box::new(Ty::BStr)),
        _ => Ty::BStr,
    };
    let t = Ty::Struct(vec![("a".into(), t)]);
    let d = vec![El::Attr("a".into(), E::Str(want.clone())), El::Attr("b".into(), E::Num("1".into()))];
    let w = match want_doc(&t, &d) {
        W::OkOrErr(a) => W::Ok(a),
        w => w,
    };
    match BodyDe::from_str(&text) {
        Ok(de) => judge(rec, "borrowed", &t, &w, (&t).deserialize(de).map_err(|e| e.to_string())),
        Err(err) => return rec.fail("rejected", err.to_string()),
    }
    let list = format!("[\n<<MARK\n{}\nMARK\n]", want);
    match Expression::parse(&list) {
        Ok(p) => match <Vec<&str>>::deserialize(p) {
            Ok(v) => {
                rec.check(v == [want.as_str()], "borrowed", || format!("{:?} delivered for {:?}", v, want));
                let (from, to) = (list.as_ptr() as usize, list.as_ptr() as usize + list.len());
                let at = v[0].as_ptr() as usize;
                rec.check(want.is_empty() || (at >= from && at < to), "borrowed", || "not a part of the document".into());
            }
            Err(e) => rec.fail("refused", format!("{:?} as Vec<&str>: {}", list, e)),
        },
        Err(err) => rec.fail("rejected", err.to_string()),
    }
}

fn run_c14(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    rec.eval();
    let odd = r.pickc(&[4, 12, 40, 1_000_000, 1_000_000]);
    let large = gen::large_case(i, 60);
    if large.is_none() && i % 8 == 7 {
        return derived(r, rec);
    }
    if large.is_none() && i % 16 == 3 {
        return floats(r, rec);
    }
    if large.is_none() && i % 16 == 5 {
        return borrowed(r, rec);
    }
    if large.is_none() && r.one_in(3) {
        // An expression
        rec.count("expressions");
        let mut budget = r.size(60) + 2;
        let cfg = GenCfg {
            dup_names: r.one_in(8),
            ..if r.one_in(6) { GenCfg::FULL } else { GenCfg::COMMON }
        };
        let depth = if r.one_in(2) { 0 } else { 3 };
        let e = gen::expr(r, &cfg, depth, &mut budget);
        let st = style(r);
        let text = gen::render_expr(r, &e, Style { heredocs: false, ..st });
        rec.input(&text);
        let t = ty_of(r, &e, odd);
        census(rec, &t);
        count_keys(rec, &e);
        let w = want(&t, &e);
        if let (W::Ok(A::Seq(_)), _) | (W::Ok(A::Map(_)), _) = (&w, ()) {
            rec.nontrivial(format!("{:?}{}", t, text).as_bytes());
        }
        let parsed = match Expression::parse(&text) {
            Ok(p) => p,
            Err(err) => return rec.fail("rejected", err.to_string()),
        };
        let owned = parsed.as_owned();
        judge(rec, "expression", &t, &w, (&t).deserialize(parsed).map_err(|e| e.to_string()));
        let w2 = if t == Ty::BStr { W::Maybe } else { w };
        judge(rec, "owned expression", &t, &w2, (&t).deserialize(serde::de::IntoDeserializer::into_deserializer(owned)).map_err(|e| e.to_string()));
        return;
    }
    rec.count("documents");
    if large.is_some() {
        rec.count("large");
    }
    let d = large.unwrap_or_else(|| a_doc(r));
    let st = style(r);
    let (text, _) = gen::render(r, &d, st);
    rec.input(&text);
    if i < 60 {
        rec.sample(&text);
    }
    let t = ty_of_doc(r, &d, odd);
    census(rec, &t);
    count_doc(rec, &d);
    let w = want_doc(&t, &d);
    if let W::Ok(A::Map(m)) = &w {
        if !m.is_empty() {
            rec.nontrivial(format!("{:?}{}", t, text).as_bytes());
        }
    }
    let de = match BodyDe::from_str(&text) {
        Ok(de) => de,
        Err(e) => return rec.fail("rejected", e.to_string()),
    };
    judge(rec, "document", &t, &w, (&t).deserialize(de).map_err(|e| e.to_string()));
    let body = match ferrous_chloride::parse_str(&text) {
        Ok(b) => b,
        Err(e) => return rec.fail("rejected", e.to_string()),
    };
    let owned = BodyDe::new(body.as_owned());
    if !format!("{:?}", t).contains("BStr") {
        judge(rec, "owned document", &t, &w, (&t).deserialize(owned).map_err(|e| e.to_string()));
    }
    let any = want_doc(&Ty::Any, &d);
    judge(rec, "from_str", &Ty::Any, &any, ferrous_chloride::from_str::<A>(&text).map_err(|e| e.to_string()));
    judge(rec, "new", &Ty::Any, &any, A::deserialize(BodyDe::new(body)).map_err(|e| e.to_string()));
    judge(rec, "de::from_str", &Ty::Any, &any, hcl::from_str::<A>(&text).map_err(|e| e.to_string()));
    // Order of what is ordered
    if d.iter().all(|el| matches!(el, El::Attr(..))) {
        if let (W::Ok(w), Ok(g)) = (&any, ferrous_chloride::from_str::<A>(&text)) {
            rec.check(*w == g, "order", || diff_text(&format!("{:?}", w), &format!("{:?}", g)));
            rec.count("orders_compared");
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Derived types

#[derive(Deserialize, Debug, PartialEq)]
#[serde(rename_all = "kebab-case")]
struct Server {
    host_name: String,
    port: u16,
    #[serde(default)]
    weight: Option<f64>,
    #[serde(default = "forty_two")]
    answer: i8,
    tags: Vec<String>,
    #[serde(rename = "limits")]
    bounds: (i64, u64),
    env: HashMap<String, String>,
    #[serde(default)]
    backend: Vec<Backend>,
    main: Option<Backend>,
    kind: Kind,
    probe: Probe,
    #[serde(flatten)]
    rest: BTreeMap<String, A>,
}

fn forty_two() -> i8 {
    42
}

#[derive(Deserialize, Debug, PartialEq, Clone)]
#[serde(deny_unknown_fields)]
struct Backend {
    id: u32,
    addr: Option<String>,
}

#[derive(Deserialize, Debug, PartialEq)]
#[serde(untagged)]
enum Kind {
    Flag(bool),
    Level(i64),
    Name(String),
    Many(Vec<u8>),
}

#[derive(Deserialize, Debug, PartialEq)]
#[serde(tag = "type")]
enum Probe {
    #[serde(rename = "http")]
    Http { path: String },
    #[serde(rename = "tcp")]
    Tcp { port: u16 },
}

fn derived(r: &mut Rng, rec: &mut Rec) {
    rec.count("derived");
    let st = style(r);
    let host = gen::string(r);
    let port = r.below(65536) as u16;
    let weight = if r.one_in(2) { Some(r.below(1000) as f64 / 8.0) } else { None };
    let answer = if r.one_in(2) { Some(r.below(256) as u8 as i8) } else { None };
    let tags: Vec<String> = (0..r.below(4)).map(|_| gen::string(r)).collect();
    let bounds = (r.next() as i64, r.next());
    let env: BTreeMap<String, String> = (0..r.below(4)).map(|i| (format!("K{}", i), gen::string(r))).collect();
    let backends: Vec<Backend> = (0..r.below(4))
        .map(|i| Backend {
            id: i as u32,
            addr: if r.one_in(2) { Some(gen::string(r)) } else { None },
        })
        .collect();
    let main = if r.one_in(2) { Some(Backend { id: 7, addr: None }) } else { None };
    let num = |n: String| E::Num(n);
    let attr = |n: &str, e: E| El::Attr(n.to_string(), e);
    let backend = |ty: &str, b: &Backend| {
        let mut body = vec![attr("id", num(b.id.to_string()))];
        if let Some(a) = &b.addr {
            body.insert(0, attr("addr", E::Str(a.clone())));
        }
        El::Block(Bl {
            ty: ty.to_string(),
            labels: vec![],
            body,
        })
    };
    let (kind, kind_e) = match r.below(4) {
        0 => (Kind::Flag(true), E::Bool(true)),
        1 => (Kind::Level(-5), num("-5".into())),
        2 => (Kind::Name("n".into()), E::Str("n".into())),
        _ => (Kind::Many(vec![1, 255]), E::Tuple(vec![num("1".into()), num("255".into())])),
    };
    let (probe, probe_fields) = match r.below(2) {
        0 => (Probe::Http { path: "/é".into() }, vec![("type", E::Str("http".into())), ("path", E::Str("/é".into()))]),
        _ => (Probe::Tcp { port: 1 }, vec![("port", num("1".into())), ("type", E::Str("tcp".into()))]),
    };
    let mut d: Doc = vec![
        attr("host-name", E::Str(host.clone())),
        attr("port", num(port.to_string())),
        attr("tags", E::Tuple(tags.iter().cloned().map(E::Str).collect())),
        attr("limits", E::Tuple(vec![num(bounds.0.to_string()), num(bounds.1.to_string())])),
        attr("env", E::Obj(env.iter().enumerate().map(|(i, (k, v))| (if i % 2 == 0 { K::Ident(k.clone()) } else { K::Expr(E::Str(k.clone())) }, E::Str(v.clone()))).collect())),
        attr("kind", kind_e),
        attr("extra", E::Tuple(vec![E::Null, num("1".into())])),
    ];
    d.push(if r.one_in(2) {
        El::Block(Bl {
            ty: "probe".into(),
            labels: vec![],
            body: probe_fields.iter().map(|(k, e)| attr(k, e.clone())).collect(),
        })
    } else {
        attr("probe", E::Obj(probe_fields.iter().map(|(k, e)| (K::Ident(k.to_string()), e.clone())).collect()))
    });
    if let Some(w) = weight {
        d.push(attr("weight", num(format!("{:?}", w))));
    } else if r.one_in(2) {
        d.push(attr("weight", E::Null));
    }
    if let Some(a) = answer {
        d.push(attr("answer", num(a.to_string())));
    }
    if let Some(b) = &main {
        d.push(if r.one_in(2) { backend("main", b) } else { attr("main", E::Obj(vec![(K::Ident("id".into()), num("7".into()))])) });
    }
    r.shuffle(&mut d);
    // Backends keep their order among each other
    let mut at = 0;
    for b in &backends {
        at = r.range(at, d.len());
        d.insert(at, backend("backend", b));
        at += 1;
    }
    let fault = r.below(8);
    match fault {
        0 => {
            d.retain(|e| !matches!(e, El::Attr(n, _) if n == "port"));
        }
        1 => {
            d.push(attr("port", num("1".into())));
        }
        2 => {
            for e in d.iter_mut() {
                if let El::Attr(n, e) = e {
                    if n == "port" {
                        *e = num("65536".into());
                    }
                }
            }
        }
        3 => d.push(El::Block(Bl {
            ty: "main2".into(),
            labels: vec![L { quoted: true, text: "x".into() }],
            body: vec![],
        })),
        _ => {}
    }
    let (text, _) = gen::render(r, &d, st);
    rec.input(&text);
    let got = ferrous_chloride::from_str::<Server>(&text);
    if fault < 4 {
        // Missing, duplicate, too large, or (flattened, hence not ignored) with labels
        rec.check(got.is_err(), "accepted", || format!("fault {}: delivered {:?}", fault, got));
        rec.count("refused");
        return;
    }
    let want = Server {
        host_name: host,
        port,
        weight,
        answer: answer.unwrap_or(42),
        tags,
        bounds,
        env: env.into_iter().collect(),
        backend: backends,
        main,
        kind,
        probe,
        rest: Some(("extra".to_string(), A::Seq(vec![A::Unit, A::Int(1)]))).into_iter().collect(),
    };
    match got {
        Ok(g) => {
            rec.count("delivered");
            rec.check(g == want, "wrong-content", || diff_text(&format!("{:?}", want), &format!("{:?}", g)));
        }
        Err(e) => rec.fail("refused", e.to_string()),
    }
}

// ---------------------------------------------------------------------------------------------
// C15

pub static C15: Prop = Prop {
    id: "C15",
    rule: "A document that deserialises is made ambiguous or unrepresentable at a random depth: an attribute repeated, an attribute named like a block, a key of an object repeated in any spelling, a label on a block, one element more than the tuple or the struct takes, a key that is no text. Deserialising into untyped, map and suitable struct targets has to fail, naming the key; the untouched document has to succeed. Non-trivial: every fault planted; distinct by text.",
    cases: (60_000, 1_200_000),
    threads: 8,
    run: run_c15,
    need: &["attr_twice", "attr_and_block", "object_key_twice", "key_respelled", "label", "too_many_elements", "key_no_text", "struct_too_many", "blocks_too_many", "blocks_equal", "blocks_empty", "blocks_differ", "accepted_without_fault", "ignored_part"],
    exhaustive: false,
};

/// Plants one fault; returns (what, name) or nothing when there is no room for it
fn plant(r: &mut Rng, d: &mut Doc, kind: usize) -> Option<(&'static str, String)> {
    // Descend into a block now and then
    let blocks: Vec<usize> = (0..d.len()).filter(|i| matches!(&d[*i], El::Block(b) if b.labels.is_empty())).collect();
    if !blocks.is_empty() && r.one_in(2) {
        let k = blocks[r.below(blocks.len())];
        if let El::Block(b) = &mut d[k] {
            if let Some(x) = plant(r, &mut b.body, kind) {
                return Some(x);
            }
        }
    }
    let attrs: Vec<usize> = (0..d.len()).filter(|i| matches!(&d[*i], El::Attr(..))).collect();
    let at = r.below(d.len() + 1);
    match kind {
        0 => {
            let at = r.below(attrs.len().max(1));
            let k = *attrs.get(at)?;
            let n = match &d[k] {
                El::Attr(n, _) => n.clone(),
                _ => return None,
            };
            // Often a mere repetition
            let e = match &d[k] {
                El::Attr(_, e) if r.one_in(3) => e.clone(),
                _ => unique_e(gen::scalar(r)),
            };
            let at = if r.one_in(2) { r.below(d.len() + 1) } else { at };
            d.insert(at, El::Attr(n.clone(), e));
            Some(("attr_twice", n))
        }
        1 => {
            let el = if !attrs.is_empty() && r.one_in(2) {
                let k = attrs[r.below(attrs.len())];
                match &d[k] {
                    El::Attr(n, _) => El::Block(Bl {
                        ty: n.clone(),
                        labels: vec![],
                        body: vec![],
                    }),
                    _ => return None,
                }
            } else {
                let k = *blocks.get(r.below(blocks.len().max(1)))?;
                match &d[k] {
                    El::Block(b) => El::Attr(b.ty.clone(), E::Null),
                    _ => return None,
                }
            };
            let n = match &el {
                El::Attr(n, _) => n.clone(),
                El::Block(b) => b.ty.clone(),
            };
            d.insert(at, el);
            Some(("attr_and_block", n))
        }
        2 | 3 => {
            let at = r.below(attrs.len().max(1));
            let k = *attrs.get(at)?;
            match &mut d[k] {
                El::Attr(_, e) => plant_e(r, e, kind),
                _ => None,
            }
        }
        _ => {
            let k = *blocks.get(r.below(blocks.len().max(1)))?;
            match &mut d[k] {
                El::Block(b) => {
                    b.labels = vec![L {
                        quoted: r.one_in(2),
                        text: "lab".into(),
                    }];
                    Some(("label", b.ty.clone()))
                }
                _ => None,
            }
        }
    }
}

fn plant_e(r: &mut Rng, e: &mut E, kind: usize) -> Option<(&'static str, String)> {
    match e {
        E::Tuple(t) if !t.is_empty() => {
            let k = r.below(t.len());
            plant_e(r, &mut t[k], kind)
        }
        E::Obj(o) if !o.is_empty() => {
            let k = r.below(o.len());
            if r.one_in(3) {
                if let Some(x) = plant_e(r, &mut o[k].1, kind) {
                    return Some(x);
                }
            }
            let at = r.below(o.len() + 1);
            if kind == 3 {
                let key = match r.below(4) {
                    0 => E::Num("1".into()),
                    1 => E::Tuple(vec![]),
                    2 => E::Num("1.5".into()),
                    _ => E::Tuple(vec![E::Str("a".into())]),
                };
                o.insert(at, (K::Expr(key), E::Null));
                return Some(("key_no_text", String::new()));
            }
            let key = key_text(&o[k].0)?.to_string();
            let same = o[k].0.clone();
            // The other spelling of the same key
            let other = match &same {
                K::Ident(s) => K::Expr(E::Str(s.clone())),
                k => k.clone(),
            };
            let respell = r.one_in(2) && other != same;
            let value = if r.one_in(3) { o[k].1.clone() } else { unique_e(gen::scalar(r)) };
            o.insert(at, (if respell { other } else { same }, value));
            Some((if respell { "key_respelled" } else { "object_key_twice" }, key))
        }
        _ => None,
    }
}

fn unique_e(e: E) -> E {
    match e {
        E::Tuple(t) => E::Tuple(t.into_iter().map(unique_e).collect()),
        E::Obj(o) => {
            let mut out: Vec<(K, E)> = vec![];
            for (k, v) in o {
                let t = key_text(&k).map(str::to_string);
                if t.is_some() && !out.iter().any(|x| key_text(&x.0).map(str::to_string) == t) {
                    out.push((k, unique_e(v)));
                }
            }
            E::Obj(out)
        }
        E::Num(t) if want_num(&Ty::Any, &t) == W::Maybe => E::Num("3".into()),
        e => e,
    }
}

fn unique_all(d: Doc) -> Doc {
    unique_doc(d)
        .into_iter()
        .map(|el| match el {
            El::Attr(n, e) => El::Attr(n, unique_e(e)),
            El::Block(mut b) => {
                b.labels.clear();
                b.body = unique_all(b.body);
                El::Block(b)
            }
        })
        .collect()
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Pair {
    x: i64,
    y: i64,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct HasPair {
    p: Pair,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct HasTuple {
    p: (i64, i64),
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct HasArray {
    p: [i64; 2],
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct TwoBlocks {
    b: (Pair, Pair),
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct ArrayBlocks {
    b: [Pair; 2],
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct OneBlock {
    b: Pair,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct OneMap {
    b: BTreeMap<String, i64>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct OneOptional {
    b: Option<Optional>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Optional {
    x: Option<i64>,
    y: Option<i64>,
}

fn sequences(r: &mut Rng, rec: &mut Rec) {
    let st = style(r);
    let n = r.range(0, 5);
    let v: Vec<E> = (0..n).map(|i| E::Num(i.to_string())).collect();
    let d: Doc = vec![El::Attr("p".into(), E::Tuple(v))];
    let (text, _) = gen::render(r, &d, st);
    rec.input(&text);
    rec.nontrivial(text.as_bytes());
    let t = ferrous_chloride::from_str::<HasTuple>(&text).is_ok();
    let a = ferrous_chloride::from_str::<HasArray>(&text).is_ok();
    let s = ferrous_chloride::from_str::<HasPair>(&text).is_ok();
    rec.check(t == (n == 2) && a == (n == 2), "elements-dropped", || format!("{} elements into a tuple of 2: accepted {}, array {}", n, t, a));
    // Whether a struct may be a sequence is not specified, but nothing may go missing
    rec.check(n == 2 || !s, "elements-dropped", || format!("{} elements into a struct of 2", n));
    rec.count(if n > 2 { "too_many_elements" } else { "sequences_ok" });
    if n > 2 {
        rec.count("struct_too_many");
    }
    // Blocks which differ, are the same, or have no content
    let mode = r.below(4);
    let mut d: Doc = (0..n)
        .map(|i| {
            let x = if mode == 0 { 0 } else { i };
            El::Block(Bl {
                ty: "b".into(),
                labels: vec![],
                body: if mode == 1 {
                    vec![]
                } else {
                    vec![El::Attr("x".into(), E::Num(x.to_string())), El::Attr("y".into(), E::Num("0".into()))]
                },
            })
        })
        .collect();
    rec.count(["blocks_equal", "blocks_empty", "blocks_differ", "blocks_differ"][mode]);
    // Other content in between
    for i in 0..r.below(3) {
        let at = r.below(d.len() + 1);
        let el = if r.one_in(2) {
            El::Attr(format!("o{}", i), E::Num("1".into()))
        } else {
            El::Block(Bl {
                ty: format!("o{}", i),
                labels: vec![],
                body: vec![],
            })
        };
        d.insert(at, el);
    }
    let (text, _) = gen::render(r, &d, st);
    rec.input(&text);
    let t = ferrous_chloride::from_str::<TwoBlocks>(&text).is_ok();
    let a = ferrous_chloride::from_str::<ArrayBlocks>(&text).is_ok();
    let o = ferrous_chloride::from_str::<OneBlock>(&text).is_ok();
    let m = ferrous_chloride::from_str::<OneMap>(&text).is_ok();
    let u = ferrous_chloride::from_str::<OneOptional>(&text);
    rec.check(m == (n == 1), "blocks-dropped", || format!("{} blocks into one map: accepted {}", n, m));
    let fits = match &u {
        Ok(u) => n < 2 && u.b.is_some() == (n == 1),
        Err(_) => n > 1,
    };
    rec.check(fits, "blocks-dropped", || format!("{} blocks into an optional one: {:?}", n, u));
    if mode == 1 {
        let v = ferrous_chloride::from_str::<BTreeMap<String, A>>(&text).map(|m| m.get("b").map(|a| format!("{:?}", a)));
        rec.check(v.is_ok(), "refused", || format!("{} empty blocks: {:?}", n, v));
        if n > 1 {
            rec.check(!t && !a && !o, "blocks-dropped", || format!("{} empty blocks into structs that need content", n));
            rec.count("blocks_too_many");
        }
        return;
    }
    rec.check(t == (n == 2) && a == (n == 2), "blocks-dropped", || format!("{} blocks into a tuple of 2: accepted {}, array {}", n, t, a));
    rec.check(o == (n == 1), "blocks-dropped", || format!("{} blocks into one: accepted {}", n, o));
    if n > 2 {
        rec.count("blocks_too_many");
    }
}

fn run_c15(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    rec.eval();
    if i % 6 == 5 {
        return sequences(r, rec);
    }
    let mut d = unique_all(a_doc(r));
    if r.one_in(2) {
        let mut budget = 20;
        let cfg = GenCfg {
            dup_names: false,
            ..GenCfg::COMMON
        };
        let keys = r.range(1, 5);
        let e = E::Obj((0..keys).map(|k| (if r.one_in(3) { K::Expr(E::Str(format!("k {}", k))) } else { K::Ident(format!("k{}", k)) }, unique_e(gen::expr(r, &cfg, 2, &mut budget)))).collect());
        d.push(El::Attr("object-with-keys".into(), e));
    }
    let st = style(r);
    let (text, _) = gen::render(r, &d, st);
    rec.input(&text);
    let t = ty_of_doc(r, &d, 1_000_000);
    match ferrous_chloride::from_str::<A>(&text) {
        Ok(_) => rec.count("accepted_without_fault"),
        Err(e) => return rec.fail("refused", format!("without any fault: {}", e)),
    }
    let kind = r.below(5);
    let (what, name) = match plant(r, &mut d, kind) {
        Some(x) => x,
        None => return,
    };
    rec.count(what);
    let (text, _) = gen::render(r, &d, st);
    rec.input(&text);
    rec.nontrivial(text.as_bytes());
    if i < 60 {
        rec.sample(&format!("{}: {}", what, text));
    }
    match ferrous_chloride::from_str::<A>(&text) {
        Ok(a) => return rec.fail(what, format!("{} {:?} is accepted: {:?}", what, name, a)),
        Err(e) => {
            let named = match (&e, what) {
                (Error::BodyDuplicateKey(k), "attr_twice") | (Error::BodyDuplicateKey(k), "attr_and_block") => *k == name,
                (Error::ObjectDuplicateKey(k), "object_key_twice") | (Error::ObjectDuplicateKey(k), "key_respelled") => *k == name,
                (Error::BodyDuplicateKey(_), _) | (Error::ObjectDuplicateKey(_), _) => false,
                (_, "label") | (_, "key_no_text") => true,
                _ => false,
            };
            rec.check(named, "error-kind", || format!("{} {:?}: {:?}", what, name, e));
        }
    }
    let m = ferrous_chloride::from_str::<HashMap<String, A>>(&text);
    rec.check(m.is_err(), what, || format!("{} {:?} is accepted as a map: {:?}", what, name, m));
    // The type made for the document without the fault
    let w = want_doc(&t, &d);
    if let W::Maybe = w {
        rec.count("ignored_part");
    }
    match BodyDe::from_str(&text) {
        Ok(de) => {
            let before = rec.nfails;
            judge(rec, "typed", &t, &w, (&t).deserialize(de).map_err(|e| e.to_string()));
            if rec.nfails > before {
                rec.count("typed_failures");
            }
        }
        Err(e) => rec.fail("rejected", e.to_string()),
    }
}
