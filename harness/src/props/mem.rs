//! C20: the workload for the memory checkers (AddressSanitizer, Miri)
use super::exercise as ex;
use crate::gen::{self, Dialect, GenCfg, Style};
use crate::rng::Rng;
use ferrous_chloride::parser::block::Blocks;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::{value, AsOwned, MergeBehaviour};

pub fn text(r: &mut Rng, size: usize) -> String {
    let mut budget = r.size(size) + 2;
    let mut st = Style::WILD;
    let mut cfg = GenCfg::FULL;
    if r.one_in(2) {
        cfg = GenCfg {
            dup_names: r.one_in(2),
            ..GenCfg::COMMON
        };
        st.dialect = if r.one_in(2) { Dialect::Common } else { Dialect::Legacy };
        st.parens = false;
    }
    let d = gen::body(r, &cfg, 0, &mut budget);
    gen::render(r, &d, st).0
}

/// Owned results outlive the input; what they hold is read afterwards. The input lies in a block of the heap of
/// exactly its size, so that reading beyond it or after it is gone is seen.
pub fn ownership(s: &str) -> usize {
    let mut n = 0;
    let input: Box<str> = s.into();
    let a = ferrous_chloride::parse_str(&input).ok().map(|b| b.as_owned());
    let b = value::from_str(&input, None).ok().map(|b| b.as_owned());
    let c = value::from_str(&input, Some(MergeBehaviour::Error)).ok().map(|b| b.as_owned());
    let e = Expression::parse(&input).ok().map(|b| b.as_owned());
    let d = value::from_reader(input.as_bytes(), None).ok();
    let f = ferrous_chloride::parse_reader(input.as_bytes()).ok();
    let g = value::from_reader(input.as_bytes(), Some(MergeBehaviour::Error)).ok();
    let h = value::from_slice(input.as_bytes(), None).ok().map(|b| b.as_owned().merge());
    let h = h.and_then(Result::ok);
    let err = ferrous_chloride::parse_str(&input).err();
    drop(input);
    // Something else in its place
    let filler: Vec<Box<str>> = (0..4).map(|_| "#".repeat(s.len()).into()).collect();
    if let Some(a) = &a {
        n += format!("{:?}", a).len();
        n += (f.as_ref() == Some(a)) as usize;
        n += a.clone().into_iter().count();
    }
    if let Some(e) = &e {
        n += format!("{:?}", e).len();
    }
    for m in &[&b, &c, &d, &g, &h] {
        if let Some(m) = m {
            n += m.keys().filter(|k| m.get_single(&***k).is_some()).count();
            n += format!("{:?}", m).len();
            n += m.values().filter(|v| (*v).clone().merge().is_ok()).count();
            n += m.keys().map(|k| format!("{:?}", k).len()).sum::<usize>();
        }
    }
    if let Some(e) = err {
        n += e.to_string().len();
    }
    n + filler.len()
}

/// Grouping moves blocks about in place
pub fn grouping(s: &str, order: usize) -> usize {
    let mut n = 0;
    let b = match ferrous_chloride::parse_str(s) {
        Ok(b) => b.as_owned(),
        Err(_) => return 0,
    };
    let mut blocks: Vec<_> = b.into_iter().filter(BodyElement::is_block).map(BodyElement::unwrap_block).collect();
    if order % 2 == 1 {
        blocks.reverse();
    }
    let half = blocks.len() / 2;
    let mut g = Blocks::new(blocks[..half].to_vec());
    for b in blocks.drain(half..) {
        g.append(b);
    }
    n += g.len_blocks();
    for (ty, body) in &g {
        n += ty.len() + body.len_blocks();
    }
    let mut it = g.clone().flat_into_iter();
    if let Some(b) = it.next() {
        n += format!("{:?}", b).len();
    }
    drop(it);
    n + outlived(g)
}

/// Collects every text that is delivered, as it is delivered: borrowed where it is borrowed
#[derive(Default)]
struct Delivered<'de>(Vec<std::borrow::Cow<'de, str>>);

impl<'de> serde::Deserialize<'de> for Delivered<'de> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(Collect)
    }
}

struct Collect;

impl<'de> serde::de::Visitor<'de> for Collect {
    type Value = Delivered<'de>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_borrowed_str<E>(self, s: &'de str) -> Result<Self::Value, E> {
        Ok(Delivered(vec![s.into()]))
    }
    fn visit_str<E>(self, s: &str) -> Result<Self::Value, E> {
        Ok(Delivered(vec![s.to_string().into()]))
    }
    fn visit_string<E>(self, s: String) -> Result<Self::Value, E> {
        Ok(Delivered(vec![s.into()]))
    }
    fn visit_bool<E>(self, _: bool) -> Result<Self::Value, E> {
        Ok(Delivered::default())
    }
    fn visit_u64<E>(self, _: u64) -> Result<Self::Value, E> {
        Ok(Delivered::default())
    }
    fn visit_i64<E>(self, _: i64) -> Result<Self::Value, E> {
        Ok(Delivered::default())
    }
    fn visit_u128<E>(self, _: u128) -> Result<Self::Value, E> {
        Ok(Delivered::default())
    }
    fn visit_i128<E>(self, _: i128) -> Result<Self::Value, E> {
        Ok(Delivered::default())
    }
    fn visit_f64<E>(self, _: f64) -> Result<Self::Value, E> {
        Ok(Delivered::default())
    }
    fn visit_unit<E>(self) -> Result<Self::Value, E> {
        Ok(Delivered::default())
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut all = vec![];
        while let Some(d) = a.next_element::<Delivered>()? {
            all.extend(d.0);
        }
        Ok(Delivered(all))
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut all = vec![];
        while let Some((k, v)) = a.next_entry::<Delivered, Delivered>()? {
            all.extend(k.0);
            all.extend(v.0);
        }
        Ok(Delivered(all))
    }
}

/// What is delivered lives as long as the text, which is longer than the tree does
pub fn delivering(s: &str) -> usize {
    use serde::Deserialize;
    let input: Box<str> = s.into();
    let mut all: Vec<std::borrow::Cow<str>> = vec![];
    all.extend(ferrous_chloride::serde::from_str::<Delivered>(&input).unwrap_or_default().0);
    if let Ok(b) = ferrous_chloride::parse_str(&input) {
        // Strings of its own and strings of the text
        for b in vec![b.clone(), b.as_owned()] {
            let de = ferrous_chloride::serde::de::Deserializer::new(b);
            all.extend(Delivered::deserialize(de).unwrap_or_default().0);
        }
        for e in b {
            match e {
                BodyElement::Attribute((name, e)) => {
                    for e in vec![e.clone(), e.as_owned()] {
                        all.extend(Delivered::deserialize(e).unwrap_or_default().0);
                    }
                    if let Expression::Object(o) = e {
                        use ferrous_chloride::parser::object::ObjectElementIdentifier as Key;
                        for (k, _) in o {
                            if let Key::Identifier(_) = &k {
                                all.push(k.as_str());
                                let owned = k.as_owned();
                                all.push(owned.as_str());
                            }
                        }
                    }
                    all.push(name);
                }
                BodyElement::Block(b) => {
                    all.extend(b.labels.iter().map(|l| l.as_cow()));
                    all.extend(b.labels.as_owned().iter().map(|l| l.as_cow()));
                }
            }
        }
    }
    let filler: Vec<String> = (0..8).map(|i| "#".repeat(8 * i)).collect();
    filler.len() + all.iter().map(|t| t.chars().filter(|c| c.is_alphabetic()).count()).sum::<usize>()
}

/// What was taken out of something is used when that is long gone
fn outlived(g: Blocks) -> usize {
    let whole: Vec<_> = g.clone().into_iter().collect();
    let cows: Vec<_> = g
        .clone()
        .flat_into_iter()
        .flat_map(|b| b.1.into_iter().chain(Some(b.0)).collect::<Vec<_>>())
        .collect();
    let copy = g.as_labels();
    let rest: Vec<_> = g.flat_into_iter().collect();
    let filler: Vec<String> = (0..8).map(|i| "#".repeat(8 * i)).collect();
    let mut n = filler.len();
    for (ty, body) in whole {
        n += ty.len() + format!("{:?}", body).len();
        let flat: Vec<_> = body.flat_into_iter().collect();
        n += format!("{:?}", flat).len();
    }
    n += copy.iter().map(|l| l.chars().count()).sum::<usize>();
    n + format!("{:?} {:?}", rest, cows).len()
}

/// The labels on their own
trait Labels<'a> {
    fn as_labels(&self) -> Vec<std::borrow::Cow<'a, str>>;
}

impl<'a> Labels<'a> for Blocks<'a> {
    fn as_labels(&self) -> Vec<std::borrow::Cow<'a, str>> {
        let mut out = vec![];
        for (_, body) in self.clone() {
            let mut open = vec![body];
            while let Some(b) = open.pop() {
                if let ferrous_chloride::parser::block::BlockBody::Labels { labels, .. } = b {
                    for (l, inner) in labels {
                        // (the label goes away here)
                        out.push(l.as_cow());
                        open.push(inner);
                    }
                }
            }
        }
        out
    }
}

/// Every text in a result has to be UTF-8, whatever the bytes were. What is returned is the number of texts seen,
/// and a text that is none.
pub struct Texts {
    pub seen: usize,
    pub bad: Option<Vec<u8>>,
}

impl Texts {
    fn one(&mut self, s: &str) {
        self.seen += 1;
        let b: Vec<u8> = s.bytes().collect();
        if String::from_utf8(b.clone()).is_err() {
            self.bad = Some(b);
        }
    }

    fn expr(&mut self, e: &Expression) {
        match e {
            Expression::String(s) => self.one(s),
            Expression::Tuple(t) => t.iter().for_each(|e| self.expr(e)),
            Expression::Object(o) => o.iter().for_each(|(k, e)| {
                self.one(std::borrow::Borrow::<str>::borrow(k));
                self.expr(e)
            }),
            _ => {}
        }
    }

    fn body(&mut self, b: &ferrous_chloride::parser::Body) {
        for e in b.iter() {
            match e {
                BodyElement::Attribute((k, e)) => {
                    self.one(k);
                    self.expr(e)
                }
                BodyElement::Block(b) => {
                    self.one(&b.r#type);
                    b.labels.iter().for_each(|l| self.one(l.as_str()));
                    self.body(&b.body)
                }
            }
        }
    }

    fn value(&mut self, v: &value::Value) {
        match v {
            value::Value::String(s) => self.one(s),
            value::Value::List(l) => l.iter().for_each(|v| self.value(v)),
            v => {
                if let Ok(ms) = v.borrow_map() {
                    ms.iter().for_each(|m| self.map(m));
                }
                if let Ok(b) = v.borrow_block() {
                    for (k, bs) in b {
                        k.iter().for_each(|k| self.one(k));
                        self.map(bs);
                    }
                }
            }
        }
    }

    fn map(&mut self, m: &value::MapValues) {
        for (k, v) in m {
            self.one(k);
            self.value(v);
        }
    }
}

pub fn texts(b: &[u8]) -> Texts {
    let mut t = Texts {
        seen: 0,
        bad: None,
    };
    if let Ok(b) = ferrous_chloride::parse_slice(b) {
        t.body(&b);
    }
    if let Ok(b) = ferrous_chloride::parse_reader(b) {
        t.body(&b);
    }
    if let Ok(m) = value::from_slice(b, None) {
        t.map(&m);
    }
    for merge in &[None, Some(MergeBehaviour::Error)] {
        if let Ok(m) = value::from_reader(b, *merge) {
            t.map(&m);
        }
    }
    t
}

pub fn all(s: &str, order: usize) -> usize {
    let input: Box<str> = s.into();
    let mut n = ex::str_entry_points(&input) as usize;
    ex::low_level(&input);
    n += ex::bytes_entry_points(input.as_bytes()) as usize;
    n += ownership(s);
    n += delivering(s);
    n + grouping(s, order)
}
