//! Drive every entry point, and everything that can be called on its result, with one input
use crate::anyv::A;
use ferrous_chloride::parser::block::{BlockBody, Blocks};
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::{Body, Expression};
use ferrous_chloride::value::{self, Value};
use ferrous_chloride::{AsOwned, MergeBehaviour, Mergeable, ScalarLength};
use serde::de::IgnoredAny;
use serde::Deserialize;
use std::collections::HashMap;
use std::fmt::Debug;

#[derive(Debug, Deserialize, Clone, PartialEq)]
#[allow(dead_code)]
pub struct Typed {
    a: Option<i64>,
    b: Option<Vec<String>>,
    c: Option<HashMap<String, f64>>,
    foo: Option<Box<Typed>>,
    bar: Option<Vec<Typed>>,
    name: Option<String>,
    x: Option<(u8, bool)>,
    k: Option<u64>,
    v: Option<f32>,
    z: Option<char>,
}

fn dbg<T: Debug>(t: &T) -> usize {
    format!("{:?}", t).len() + format!("{:#?}", t).len()
}

fn err<T, E: std::fmt::Display + Debug>(r: &Result<T, E>) -> bool {
    match r {
        Ok(_) => true,
        Err(e) => {
            let _ = e.to_string();
            let _ = format!("{:?}", e);
            false
        }
    }
}

pub fn use_blocks(b: &Body) {
    let blocks: Vec<_> = b
        .iter()
        .filter(|e| e.is_block())
        .cloned()
        .map(BodyElement::unwrap_block)
        .collect();
    for bl in &blocks {
        use_blocks(&bl.body);
        let _ = bl.as_owned();
    }
    let mut g = Blocks::new(blocks.clone());
    let _ = g.len_blocks();
    let _ = g.label_lens();
    let _ = g.label_lens_uniform();
    let _ = g.is_label_lens_uniform();
    for bl in &blocks {
        let labels: Vec<&str> = bl.labels.iter().map(|l| l.as_str()).collect();
        let _ = g.get(&bl.r#type, &labels).map(|b: &BlockBody| b.len_blocks());
        if let Some(b) = g.get_mut(&bl.r#type, &labels) {
            let _ = b.has_further_labels();
            let _ = b.get_empty().len();
            let _ = b.get_labels().map(|m| m.len());
        }
    }
    let n = g.clone().flat_into_iter().count();
    assert!(n == blocks.len(), "flattening {} blocks yields {}", blocks.len(), n);
    for bl in blocks {
        g.append(bl);
    }
}

pub fn use_value(v: &Value) {
    let _ = v.len();
    let _ = v.is_empty();
    let _ = v.len_scalar();
    let _ = v.is_merged();
    let _ = v.is_unmerged();
    let _ = v.variant_name();
    let _ = v.is_aggregate();
    let _ = v.integer().is_ok();
    let _ = v.float().is_ok();
    let _ = v.boolean().is_ok();
    let _ = v.borrow_str().is_ok();
    let _ = v.clone().string().is_ok();
    if let Ok(l) = v.borrow_list() {
        l.iter().for_each(use_value);
    }
    if let Ok(ms) = v.borrow_map() {
        for m in ms {
            m.values().for_each(use_value);
        }
    }
    if let Ok(b) = v.borrow_block() {
        for m in b.borrow_keys().values() {
            m.values().for_each(use_value);
        }
    }
}

/// Returns how many of the entry points accepted the input
pub fn str_entry_points(input: &str) -> u32 {
    let mut ok = 0;
    let r = ferrous_chloride::parse_str(input);
    if err(&r) {
        ok += 1;
        let b = r.unwrap();
        dbg(&b);
        let o = b.as_owned();
        use_blocks(&b);
        drop(b);
        dbg(&o);
    }
    let r = Expression::parse(input);
    if err(&r) {
        ok += 1;
        let e = r.unwrap();
        dbg(&e.as_owned());
        let _ = err(&A::deserialize(e.clone()));
        let _ = err(&<(i64, String)>::deserialize(e.clone()));
        let _ = err(&Option::<f64>::deserialize(e.clone()));
        let _ = err(&HashMap::<String, A>::deserialize(e));
    }
    for merge in &[None, Some(MergeBehaviour::Error)] {
        let r = value::from_str(input, *merge);
        if err(&r) {
            ok += 1;
            let m = r.unwrap();
            dbg(&m);
            let _ = (m.len_scalar(), m.is_merged(), m.is_unmerged(), m.len());
            m.values().for_each(use_value);
            let _ = err(&m.clone().merge());
            let _ = err(&m.as_merged());
            let _ = m.as_unmerged();
            let _ = m.clone().unmerge();
            let _ = m.as_owned();
            for (_, v) in m {
                let _ = err(&v.merge());
            }
        }
    }
    if err(&ferrous_chloride::from_str::<A>(input)) {
        ok += 1;
    }
    if err(&ferrous_chloride::from_str::<IgnoredAny>(input)) {
        ok += 1;
    }
    let _ = err(&ferrous_chloride::from_str::<Typed>(input));
    let _ = err(&ferrous_chloride::from_str::<HashMap<String, Vec<i64>>>(input));
    let _ = err(&ferrous_chloride::from_str::<HashMap<String, Option<Vec<A>>>>(input));
    ok
}

pub fn low_level(input: &str) {
    use ferrous_chloride::nom::types::CompleteStr as S;
    use ferrous_chloride::parser::*;
    macro_rules! go {
        ($($f:path),* $(,)?) => { $( match $f(S(input)) { Ok((rest, v)) => {
            assert!(input.ends_with(rest.0), "{}: the rest is not a suffix of the input", stringify!($f));
            dbg(&v);
        } Err(e) => { dbg(&e); } } )* };
    }
    go!(
        config_file,
        body::body,
        body::body_element,
        block::block,
        block::block_label,
        block::block_labels,
        block::one_line_block,
        attribute::attribute,
        expression::expression,
        expression::bracket_expression,
        tuple::tuple,
        object::object,
        object::object_element,
        object::object_element_identifier,
        identifier::identifier,
        number::number,
        boolean::boolean,
        null::null,
        string::string,
        string::string_literal,
        string::string_literal_content,
        string::heredoc_begin,
        string::heredoc_string,
        whitespace::inline_comment,
        whitespace::hash_comment,
        whitespace::slash_comment,
        whitespace::line_comment,
        whitespace::inline_whitespace,
        whitespace::whitespace,
        whitespace::newline,
    );
}

pub fn bytes_entry_points(input: &[u8]) -> u32 {
    let mut ok = 0;
    ok += err(&ferrous_chloride::parse_slice(input)) as u32;
    ok += err(&ferrous_chloride::parse_reader(input)) as u32;
    ok += err(&value::from_slice(input, None)) as u32;
    ok += err(&value::from_slice(input, Some(MergeBehaviour::Error))) as u32;
    ok += err(&value::from_reader(input, None)) as u32;
    ok += err(&value::from_reader(input, Some(MergeBehaviour::Error))) as u32;
    ok
}
