//! C26: what is put together by hand equals what is read from a text that says the same
use std::borrow::Cow;
use std::collections::BTreeMap;

use ferrous_chloride::constants;
use ferrous_chloride::parser::block::{Block, BlockBody, BlockLabel, Blocks};
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::number::Number;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::{self, Body, Expression};
use ferrous_chloride::serde::de::Deserializer as BodyDe;
use ferrous_chloride::value::{self, MapValues, Value};
use ferrous_chloride::{AsOwned, KeyValuePairs};
use serde::Deserialize;

use crate::anyv::A;
use crate::frame::{Env, Prop, Rec};
use crate::gen::{self, GenCfg, Style};
use crate::model::*;
use crate::rng::Rng;

pub static C26: Prop = Prop {
    id: "C26",
    rule: "an evaluation is one document whose tree and value were put together by hand and compared with what the library reads; distinct documents with at least three elements count",
    cases: (100_000, 1_200_000),
    threads: 8,
    run,
    need: &[
        "documents", "numbers_from_machine", "floats_from_machine", "tuples_new", "tuples_collected", "tuples_from_vec",
        "objects_new_str", "objects_new_key", "blocks_one_line", "grouped_four_ways", "printed_alike", "values",
        "merged_alike", "merge_refused_alike", "deserialised_alike", "expressions_deserialised", "keys", "value_blocks_new",
        "value_lists_from_option", "variants_named", "label_kinds_compared",
    ],
    exhaustive: false,
};

/// The type of keys has no public path
pub trait KeyOf {
    type Key;
}
impl<K: std::hash::Hash + Eq, V> KeyOf for KeyValuePairs<K, V> {
    type Key = K;
}
type Key<'a> = <MapValues<'a> as KeyOf>::Key;

/// How a tree is put together
struct B<'r> {
    r: &'r mut Rng,
    rec: &'r mut Rec,
    /// Numbers are made from machine numbers where these print the same
    machine: bool,
}

fn number<'a>(b: &mut B, text: &'a str) -> Expression<'a> {
    macro_rules! tryall {
        ($what: expr; $($t: ty)*) => {{
            let mut made: Vec<Expression<'static>> = vec![];
            $(
                if let Ok(n) = text.parse::<$t>() {
                    if n.to_string() == text {
                        made.push(if b.r.one_in(2) { Expression::from(n) } else { Expression::from(Number::from(n)) });
                    }
                }
            )*
            if !made.is_empty() {
                b.rec.count($what);
                let i = b.r.below(made.len());
                let (m, p) = (answers(&made[i]), answers(&Expression::parse(text).expect("harness: a number")));
                b.rec.check(m == p, "number-answers", || format!("{}: made {}\nread {}", text, m, p));
                return made.swap_remove(i);
            }
        }};
    }
    if b.machine {
        tryall!("numbers_from_machine"; u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
        tryall!("floats_from_machine"; f32 f64);
    }
    Expression::parse(text).expect("harness: a number")
}

/// What a number says about itself
fn answers(e: &Expression) -> String {
    match e {
        Expression::Number(n) => {
            let ints = (n.as_u8(), n.as_u16(), n.as_u32(), n.as_u64(), n.as_u128(), n.as_i8(), n.as_i16(), n.as_i32(), n.as_i64(), n.as_i128());
            let floats = (n.as_f32().map(f32::to_bits), n.as_f64().map(f64::to_bits));
            format!("{:?} float {} signed {} unsigned {} {:?} {:?}", &**n, n.is_float(), n.is_signed(), n.is_unsigned(), ints, floats)
        }
        other => format!("{:?}", other),
    }
}

/// `read` is what the library read for the same text: only the spelling of keys is taken from it
fn expr<'a>(b: &mut B, e: &'a E, read: &Expression<'a>) -> Expression<'a> {
    match e {
        E::Null => {
            if b.r.one_in(2) {
                Expression::Null
            } else {
                Expression::from(())
            }
        }
        E::Bool(v) => Expression::from(*v),
        E::Num(t) => number(b, t),
        E::Str(s) => match b.r.below(3) {
            0 => Expression::from(s.as_str()),
            1 => Expression::from(Cow::Borrowed(s.as_str())),
            _ => Expression::from(Cow::Owned::<str>(s.clone())),
        },
        E::Tuple(t) => {
            let none = vec![];
            let r = match read {
                Expression::Tuple(r) => r,
                _ => &none,
            };
            let items: Vec<Expression<'a>> = t
                .iter()
                .enumerate()
                .map(|(i, e)| expr(b, e, r.get(i).unwrap_or(&Expression::Null)))
                .collect();
            match b.r.below(4) {
                0 => {
                    b.rec.count("tuples_new");
                    Expression::new_tuple(items)
                }
                1 => {
                    b.rec.count("tuples_collected");
                    items.into_iter().collect()
                }
                2 => {
                    b.rec.count("tuples_collected");
                    // An iterator that cannot tell its length
                    items.into_iter().filter(|_| true).collect()
                }
                _ => {
                    b.rec.count("tuples_from_vec");
                    Expression::from(items)
                }
            }
        }
        E::Obj(o) => {
            let none = vec![];
            let r = match read {
                Expression::Object(r) => r,
                _ => &none,
            };
            let plain = o.iter().all(|(k, _)| match k {
                K::Ident(_) => true,
                K::Expr(_) => false,
            });
            let items: Vec<Expression<'a>> = o
                .iter()
                .enumerate()
                .map(|(i, (_, e))| expr(b, e, r.get(i).map(|kv| &kv.1).unwrap_or(&Expression::Null)))
                .collect();
            if plain && b.r.one_in(2) {
                b.rec.count("objects_new_str");
                let keys = o.iter().map(|(k, _)| match k {
                    K::Ident(s) => s.as_str(),
                    K::Expr(_) => unreachable!(),
                });
                return Expression::new_object(keys.zip(items).collect::<Vec<_>>());
            }
            b.rec.count("objects_new_key");
            let keys: Vec<ObjectElementIdentifier<'a>> = o
                .iter()
                .enumerate()
                .map(|(i, (k, _))| match k {
                    K::Ident(s) => ObjectElementIdentifier::from(s.as_str()),
                    K::Expr(_) => match r.get(i).map(|kv| &kv.0) {
                        Some(ObjectElementIdentifier::Expression(text)) => ObjectElementIdentifier::Expression(text.clone()),
                        other => ObjectElementIdentifier::Expression(Cow::Owned(format!("no key, but {:?}", other))),
                    },
                })
                .collect();
            Expression::new_object(keys.into_iter().zip(items).filter(|_| true))
        }
    }
}

fn label<'a>(b: &mut B, l: &'a L) -> BlockLabel<'a> {
    if l.quoted {
        BlockLabel::StringLiteral(l.text.clone())
    } else if b.r.one_in(2) {
        BlockLabel::from(l.text.as_str())
    } else {
        BlockLabel::Identifier(Cow::Owned(l.text.clone()))
    }
}

fn body<'a>(b: &mut B, d: &'a Doc, read: &Body<'a>) -> Body<'a> {
    let mut out: Body<'a> = vec![];
    for (i, el) in d.iter().enumerate() {
        match el {
            El::Attr(n, e) => {
                let none = Expression::Null;
                let r = match read.get(i) {
                    Some(BodyElement::Attribute((_, r))) => r,
                    _ => &none,
                };
                let name = if b.r.one_in(2) { Cow::Borrowed(n.as_str()) } else { Cow::Owned(n.clone()) };
                let attribute = (name, expr(b, e, r));
                out.push(BodyElement::from(attribute));
            }
            El::Block(bl) => {
                let none = vec![];
                let r = match read.get(i) {
                    Some(BodyElement::Block(r)) => &r.body,
                    _ => &none,
                };
                let labels = bl.labels.iter().map(|l| label(b, l)).collect();
                let mut inner = body(b, &bl.body, r);
                let ty = if b.r.one_in(2) { Cow::Borrowed(bl.ty.as_str()) } else { Cow::Owned(bl.ty.clone()) };
                let one_line = inner.len() < 2 && inner.iter().all(BodyElement::is_attribute) && b.r.one_in(2);
                let block = if one_line {
                    b.rec.count("blocks_one_line");
                    Block::new_one_line(ty, labels, inner.pop().map(BodyElement::unwrap_attribute))
                } else {
                    Block::new(ty, labels, inner)
                };
                out.push(BodyElement::from(block));
            }
        }
    }
    out
}

fn named(e: &E) -> &'static str {
    match e {
        E::Null => constants::NULL,
        E::Num(_) => constants::NUMBER,
        E::Bool(_) => constants::BOOLEAN,
        E::Str(_) => constants::STRING,
        E::Tuple(_) => constants::TUPLE,
        E::Obj(_) => constants::OBJECT,
    }
}

fn de_body(b: Body) -> Result<A, String> {
    A::deserialize(BodyDe::new(b)).map(A::sorted).map_err(|e| e.to_string())
}

fn de_expr(e: Expression) -> Result<A, String> {
    A::deserialize(e).map(A::sorted).map_err(|e| e.to_string())
}

/// The errors of two readings that came across the duplicates in another order may differ
fn same_result(a: &Result<A, String>, b: &Result<A, String>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

fn collect_blocks<'a>(b: &Body<'a>, deep: bool, out: &mut Vec<Block<'a>>) {
    for e in b {
        if let BodyElement::Block(b) = e {
            out.push(b.clone());
            if deep {
                collect_blocks(&b.body, deep, out);
            }
        }
    }
}

fn bodies_by_label<'a>(blocks: &Blocks<'a>) -> BTreeMap<(String, Vec<String>), Vec<Body<'a>>> {
    let mut m: BTreeMap<(String, Vec<String>), Vec<Body<'a>>> = BTreeMap::new();
    for (ty, labels, body) in blocks.clone().flat_into_iter() {
        m.entry((ty.to_string(), labels.iter().map(|l| l.to_string()).collect())).or_default().push(body);
    }
    m
}

/// The labels in a group as they were written
fn kinds(b: &BlockBody, path: &str, out: &mut Vec<String>) {
    if let Some(labels) = b.get_labels() {
        for (l, inner) in labels {
            let here = format!("{} / {:?}", path, from_label(l));
            kinds(inner, &here, out);
            out.push(here);
        }
    }
}

fn all_kinds(b: &Blocks) -> Vec<String> {
    let mut out = vec![];
    for (t, b) in b.iter() {
        kinds(b, t, &mut out);
    }
    out.sort();
    out
}

fn trees(r: &mut Rng, rec: &mut Rec) {
    let d = gen::doc(r, &GenCfg::FULL);
    let text = if r.one_in(2) { gen::canon(&d) } else { gen::render(r, &d, Style::WILD).0 };
    rec.input(&text);
    rec.eval();
    rec.count("documents");
    if count_elems(&d) >= 3 {
        rec.nontrivial(text.as_bytes());
    }
    let read = match parser::parse_str(&text) {
        Ok(t) => t,
        Err(e) => return rec.fail("not-read", format!("{}", e)),
    };
    let machine = r.one_in(2);
    let mut b = B { r: &mut *r, rec: &mut *rec, machine };
    let built = body(&mut b, &d, &read);
    rec.check(built == read && read == built, "tree-differs", || format!("built {:?}\nread {:?}", built, read));
    rec.check(built.as_owned() == read && read.as_owned() == built, "owned-differs", || format!("built {:?}\nread {:?}", built, read));
    match from_body(&built) {
        Ok(m) => {
            rec.check(m == d, "built-content", || diff(&d, &m));
        }
        Err(e) => rec.fail("built-content", e),
    }
    if !machine {
        rec.count("printed_alike");
        rec.check(format!("{:?}", built) == format!("{:?}", read), "prints-differently", || {
            diff_text(&format!("{:?}", read), &format!("{:?}", built))
        });
    }
    for (el, (bu, re)) in d.iter().zip(built.iter().zip(read.iter())) {
        if let (El::Attr(_, e), BodyElement::Attribute((_, bu)), BodyElement::Attribute((_, re))) = (el, bu, re) {
            rec.count("variants_named");
            rec.check(bu.variant_name() == named(e) && re.variant_name() == named(e), "variant-name", || {
                format!("{} and {} for {:?}", bu.variant_name(), re.variant_name(), e)
            });
            let (a, b) = (de_expr(bu.clone()), de_expr(re.clone()));
            rec.count("expressions_deserialised");
            rec.check(same_result(&a, &b), "expression-deserialises-differently", || format!("built {:?}, read {:?}", a, b));
        }
    }
    // Deserialising what was built, what was read, and the text
    let (x, y) = (de_body(built.clone()), de_body(read.clone()));
    let z = ferrous_chloride::serde::from_str::<A>(&text).map(A::sorted).map_err(|e| e.to_string());
    rec.count("deserialised_alike");
    rec.check(same_result(&x, &y) && same_result(&y, &z), "deserialises-differently", || {
        format!("built {:?}\nread {:?}\ntext {:?}", x, y, z)
    });

    // Grouping, in four ways
    let deep = r.one_in(2);
    let (mut blocks, mut other) = (vec![], vec![]);
    collect_blocks(&built, deep, &mut blocks);
    collect_blocks(&read, deep, &mut other);
    let a = Blocks::new(other.clone());
    let mut ways: Vec<(&str, Blocks)> = vec![("new", Blocks::new(blocks.clone())), ("collect", blocks.iter().cloned().collect())];
    let cut = r.below(blocks.len() + 1);
    let mut c = Blocks::new(blocks[..cut].to_vec());
    c.extend(blocks[cut..].iter().cloned());
    ways.push(("extend", c));
    let cut = r.below(blocks.len() + 1);
    let mut c: Blocks = blocks[..cut].iter().cloned().collect();
    for x in &blocks[cut..] {
        c.append(x.clone());
    }
    ways.push(("append", c));
    let all = bodies_by_label(&a);
    rec.check(all.values().map(Vec::len).sum::<usize>() == blocks.len(), "grouped-count", || format!("{} blocks, {:?}", blocks.len(), all));
    if blocks.len() > 1 {
        rec.count("grouped_four_ways");
    }
    // Labels that are written in one way only stay as they are written
    let mut spelled: BTreeMap<String, bool> = BTreeMap::new();
    let one_way = blocks.iter().flat_map(|b| &b.labels).all(|l| {
        let l = from_label(l);
        *spelled.entry(l.text).or_insert(l.quoted) == l.quoted
    });
    let wanted = all_kinds(&a);
    for (how, w) in &mut ways {
        if one_way {
            rec.count("label_kinds_compared");
            let k = all_kinds(w);
            rec.check(k == wanted, "label-kinds-differ", || format!("by {}: {:?}\nread: {:?}", how, k, wanted));
        }
        rec.check(*w == a && a == *w, "groups-differ", || format!("by {}: {:?}\nread: {:?}", how, w, a));
        rec.check(bodies_by_label(w) == all, "groups-hold-different-bodies", || format!("by {}: {:?}\nread: {:?}", how, w, a));
        // By reference, by mutable reference, and by value
        let shared: BTreeMap<String, usize> = (&*w).into_iter().map(|(t, b)| (t.to_string(), b.len_blocks())).collect();
        let len = w.len();
        let mutable: BTreeMap<String, usize> = (&mut *w).into_iter().map(|(t, b)| (t.to_string(), b.len_blocks())).collect();
        let owned: BTreeMap<String, usize> = w.clone().into_iter().map(|(t, b)| (t.to_string(), b.len_blocks())).collect();
        rec.check(shared == mutable && mutable == owned && len == owned.len(), "group-iterators-differ", || {
            format!("by {}: {:?}, {:?}, {:?}, length {}", how, shared, mutable, owned, len)
        });
    }
    // The bodies of one type, collected and appended
    for ty in a.iter().map(|(t, _)| t.to_string()) {
        let mine: Vec<(Vec<BlockLabel>, Body)> =
            blocks.iter().filter(|b| *b.r#type == *ty).map(|b| (b.labels.clone(), b.body.clone())).collect();
        let collected: BlockBody = mine.iter().cloned().collect();
        let mut appended = BlockBody::new();
        let mut extended = BlockBody::default();
        extended.extend(mine.iter().cloned().filter(|_| true));
        for (l, x) in mine {
            appended.append(l, x);
        }
        let want = a.get(&ty, &[] as &[&str]);
        rec.check(want == Some(&collected) && collected == appended && appended == extended, "bodies-differ", || {
            format!("type {}: {:?}\n{:?}\n{:?}\nread {:?}", ty, collected, appended, extended, want)
        });
    }
}

// ---------------------------------------------------------------------------------------------
// The value interface

fn key<'a>(r: &mut Rng, s: &'a str) -> Key<'a> {
    match r.below(6) {
        0 => Key::new_identifier(s),
        1 => Key::new_identifier_owned(s.to_string()),
        2 => Key::new_string(s),
        3 => Key::new_string_owned(s.to_string()),
        4 => Key::from(s),
        _ => Key::from(s.to_string()),
    }
}

fn map<'a>(r: &mut Rng, rec: &mut Rec, m: &'a M) -> MapValues<'a> {
    let entries = entries(r, rec, m);
    match r.below(3) {
        0 => MapValues::new_unmerged(entries),
        1 => entries.into_iter().collect(),
        _ => {
            let cut = r.below(entries.len() + 1);
            let mut entries = entries;
            let rest = entries.split_off(cut);
            let mut m = MapValues::new_unmerged(entries);
            m.extend(rest);
            m
        }
    }
}

fn entries<'a>(r: &mut Rng, rec: &mut Rec, m: &'a M) -> Vec<(Key<'a>, Value<'a>)> {
    m.entries.iter().map(|(k, v)| (key(r, k), val(r, rec, v))).collect()
}

fn val<'a>(r: &mut Rng, rec: &mut Rec, v: &'a V) -> Value<'a> {
    match v {
        V::Null => Value::Null,
        V::Int(i) => {
            if r.one_in(2) {
                Value::from(*i)
            } else {
                Value::from(i)
            }
        }
        V::Float(f) => {
            let f = f64::from_bits(*f);
            if r.one_in(2) {
                Value::from(f)
            } else {
                Value::from(&f)
            }
        }
        V::Bool(b) => {
            if r.one_in(2) {
                Value::from(*b)
            } else {
                Value::from(b)
            }
        }
        V::Str(s) => match r.below(3) {
            0 => Value::from(s.as_str()),
            1 => Value::from(s.clone()),
            _ => Value::from(s),
        },
        V::List(l) => {
            let items: Vec<Value<'a>> = l.iter().map(|v| val(r, rec, v)).collect();
            match r.below(4) {
                0 => Value::new_list(items),
                1 => items.into_iter().collect(),
                2 => items.into_iter().filter(|_| true).collect(),
                _ => {
                    rec.count("value_lists_from_option");
                    if items.is_empty() {
                        Value::from(None)
                    } else {
                        Value::from(Some(items))
                    }
                }
            }
        }
        V::Obj(ms) => {
            if ms.len() == 1 {
                match r.below(5) {
                    0 => return Value::new_single_map(entries(r, rec, &ms[0])),
                    1 => return Value::from(map(r, rec, &ms[0])),
                    _ => {}
                }
            }
            if r.one_in(2) {
                let all: Vec<_> = ms.iter().map(|m| entries(r, rec, m)).collect();
                Value::new_map(all)
            } else {
                let all: Vec<_> = ms.iter().map(|m| map(r, rec, m)).collect();
                Value::from(all)
            }
        }
        V::Block(b) => {
            if b.len() == 1 && r.one_in(3) {
                rec.count("value_blocks_new");
                return Value::new_block(&b[0].0, entries(r, rec, &b[0].1));
            }
            let all: Vec<(Vec<String>, MapValues)> = b.iter().map(|(k, m)| (k.clone(), map(r, rec, m))).collect();
            match r.below(3) {
                0 => Value::from(value::Block::new_unmerged(all)),
                1 => Value::Block(all.into_iter().collect()),
                _ => {
                    let keys: Vec<Vec<&str>> = b.iter().map(|(k, _)| k.iter().map(String::as_str).collect()).collect();
                    let maps = all.into_iter().map(|x| x.1);
                    Value::from(value::Block::new_unmerged(keys.into_iter().zip(maps)))
                }
            }
        }
    }
}

fn vname(v: &V) -> &'static str {
    match v {
        V::Null => constants::NULL,
        V::Int(_) => constants::INTEGER,
        V::Float(_) => constants::FLOAT,
        V::Bool(_) => constants::BOOLEAN,
        V::Str(_) => constants::STRING,
        V::List(_) => constants::LIST,
        V::Obj(_) => constants::OBJECT,
        V::Block(_) => constants::BLOCK,
    }
}

fn one_key(rec: &mut Rec, k: &Key, want: &str) {
    rec.count("keys");
    let de = String::deserialize(k.clone()).map_err(|e| e.to_string());
    let made = MapValues::new_unmerged(vec![(k.clone(), Value::from(1i64))]);
    rec.check(
        **k == *want
            && k.clone().unwrap() == want
            && k.as_owned() == *k
            && AsOwned::as_owned(k).unwrap() == want
            && made.get_single(want).is_some()
            && de.as_ref().map(String::as_str) == Ok(want),
        "key-text",
        || format!("{:?} for {:?}, deserialised {:?}", k, want, de),
    );
}

fn values(r: &mut Rng, rec: &mut Rec) {
    let cfg = GenCfg { dup_names: r.one_in(3), ..GenCfg::COMMON };
    let d = gen::doc(r, &cfg);
    let dialect = if r.one_in(2) { gen::Dialect::Common } else { gen::Dialect::Legacy };
    let text = gen::render(r, &d, Style { dialect, parens: false, ..Style::WILD }).0;
    rec.input(&text);
    rec.eval();
    rec.count("values");
    if count_elems(&d) >= 3 {
        rec.nontrivial(text.as_bytes());
    }
    let read = match value::from_str(&text, None) {
        Ok(v) => v,
        Err(e) => return rec.fail("value-not-read", format!("{}", e)),
    };
    let m = m_of_doc(&d);
    let built = map(r, rec, &m);
    rec.check(built == read && read == built, "value-differs", || format!("built {:?}\nread {:?}", built, read));
    rec.check(built.as_owned() == read && read.as_owned() == built, "owned-value-differs", || format!("built {:?}\nread {:?}", built, read));
    rec.check(m_from(&built) == m, "built-value-content", || diff_text(&format!("{:?}", m), &format!("{:?}", m_from(&built))));
    for _ in 0..4 {
        let want = gen::label_text(r);
        let k = key(r, &want);
        one_key(rec, &k, &want);
    }
    for ((k, v), (want, wv)) in built.iter().zip(&m.entries) {
        rec.count("variants_named");
        rec.check(v.variant_name() == vname(wv), "value-variant-name", || format!("{} for {:?}", v.variant_name(), wv));
        one_key(rec, k, want);
    }
    // Merged: made so, and made so after reading
    let made = MapValues::new_merged(entries(r, rec, &m));
    let ways: Vec<(&str, Result<MapValues, ferrous_chloride::Error>)> = vec![
        ("merge", built.clone().merge()),
        ("as_merged", built.as_merged()),
        ("merge of the one read", read.clone().merge()),
        ("value merge", Value::from(built.clone()).merge().map(|v| match v {
            Value::Object(mut o) if o.len() == 1 => o.remove(0),
            other => panic!("one map merged to {:?}", other),
        })),
        ("read merged", value::from_str(&text, Some(ferrous_chloride::MergeBehaviour::Error))),
    ];
    for (how, w) in &ways {
        match (&made, w) {
            (Ok(a), Ok(b)) => {
                rec.count("merged_alike");
                rec.check(a == b && b == a && m_from(a) == m_from(b), "merged-differs", || format!("{}: {:?}\nmade {:?}", how, b, a));
                rec.check(a.clone().merge().as_ref().ok() == Some(b) && b.as_merged().as_ref().ok() == Some(a), "merging-again", || {
                    format!("{}: {:?}\nmade {:?}", how, b, a)
                });
            }
            (Err(a), Err(b)) => {
                rec.count("merge_refused_alike");
                rec.check(a.to_string() == b.to_string(), "merge-refused-differently", || format!("{}: {}\nmade: {}", how, b, a));
            }
            _ => rec.fail("merge-result-differs", format!("{}: {:?}\nmade {:?}", how, w, made)),
        }
    }
    // What is not merged is its own unmerged form
    rec.check(built.as_unmerged() == built && built.clone().unmerge() == read, "unmerge-of-unmerged", || format!("{:?}", built));
    // The blocks within
    for (_, v) in built.iter() {
        if let Value::Block(b) = v {
            let again = value::Block::new_merged(b.clone());
            let (x, y) = (b.clone().merge(), b.as_merged());
            match (&again, &x, &y) {
                (Ok(a), Ok(x), Ok(y)) => {
                    let twice = a.clone().merge().ok();
                    rec.check(a == x && x == y && twice.as_ref() == Some(a) && a.as_merged().ok() == twice, "block-merged-differs", || {
                        format!("{:?}\n{:?}\n{:?}", a, x, y)
                    });
                    let back = a.as_unmerged();
                    rec.check(
                        back.len() == b.len() && back == a.clone().unmerge() && matches!(back, KeyValuePairs::Unmerged(_)),
                        "block-unmerged-differs",
                        || format!("{:?}\n{:?}", a, back),
                    );
                    rec.check(b.as_unmerged() == *b && b.clone().unmerge() == *b, "block-unmerge-of-unmerged", || format!("{:?}", b));
                }
                (Err(a), Err(x), Err(y)) => {
                    rec.check(a.to_string() == x.to_string() && x.to_string() == y.to_string(), "block-refused-differently", || {
                        format!("{}\n{}\n{}", a, x, y)
                    });
                }
                _ => rec.fail("block-merge-result-differs", format!("{:?}\n{:?}\n{:?}", again, x, y)),
            }
        }
    }
}

fn run(r: &mut Rng, rec: &mut Rec, case: u64, _: &Env) {
    if case % 2 == 0 {
        trees(r, rec)
    } else {
        values(r, rec)
    }
}
