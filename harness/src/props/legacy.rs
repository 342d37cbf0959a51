//! C12: merging keeps everything or fails; C13: accessors and iterators report what is there
use crate::frame::{guard, Env, Prop, Rec};
use crate::gen::{self, Dialect, Style};
use crate::model::*;
use crate::rng::Rng;
use ferrous_chloride::parser::block::{Block as AstBlock, BlockLabel};
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::value::{self, Block, MapValues, Value};
use ferrous_chloride::{AsOwned, Error, KeyValuePairs, MergeBehaviour, Mergeable, OneOrMany, ScalarLength};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::iter::FromIterator;

pub static C12: Prop = Prop {
    id: "C12",
    rule: "Legacy maps with controlled repetition of keys and labels (scalars, lists, nested maps, blocks with labels) are made by hand and by parsing documents, then merged. A reference merge over the model says whether that has to succeed, and with which content: repeated maps concatenated in source order, blocks united, everything else repeated an error. Also judged: merging by reference, twice, after unmerging, after reordering different keys, while parsing (from str, bytes, reader), of single values and of blocks; the error has to name a repeated key. Non-trivial: an input in which a key is repeated somewhere; distinct by its content.",
    cases: (60_000, 1_500_000),
    threads: 8,
    run: run_c12,
    need: &["merged_ok", "merge_errors", "maps_concatenated", "blocks_united", "parsed_and_merged", "unmerged_again", "reordered", "values_merged", "blocks_merged", "error_illegal_multiple", "error_mixed_kinds", "quoted_and_bare_key", "wide", "large"],
    exhaustive: false,
};

// ---------------------------------------------------------------------------------------------
// Model to crate values, by hand

fn mv(m: &M) -> MapValues<'static> {
    MapValues::new_unmerged(m.entries.iter().map(|(k, v)| (k.clone().into(), val(v))).collect::<Vec<_>>())
}

fn blk(b: &[(Vec<String>, M)]) -> Block<'static> {
    Block::new_unmerged(b.iter().map(|(l, m)| (l.clone(), mv(m))).collect::<Vec<_>>())
}

pub fn val(v: &V) -> Value<'static> {
    match v {
        V::Null => Value::Null,
        V::Int(i) => Value::Integer(*i),
        V::Float(f) => Value::Float(f64::from_bits(*f)),
        V::Bool(b) => Value::Boolean(*b),
        V::Str(s) => Value::String(s.clone()),
        V::List(l) => Value::List(l.iter().map(val).collect()),
        V::Obj(ms) => Value::Object(ms.iter().map(mv).collect()),
        V::Block(b) => Value::Block(blk(b)),
    }
}

// ---------------------------------------------------------------------------------------------
// The reference

enum Conflict {
    Illegal,
    Mixed,
}

fn kind(v: &V) -> &'static str {
    match v {
        V::Obj(_) => "Object",
        V::Block(_) => "Block",
        _ => "other",
    }
}

fn merge_v(v: &V) -> Result<V, Conflict> {
    Ok(match v {
        V::List(l) => V::List(l.iter().map(merge_v).collect::<Result<_, _>>()?),
        V::Obj(ms) => V::Obj(ms.iter().map(merge_m).collect::<Result<_, _>>()?),
        V::Block(b) => V::Block(merge_b(b)?),
        v => v.clone(),
    })
}

fn merge_b(b: &[(Vec<String>, M)]) -> Result<Vec<(Vec<String>, M)>, Conflict> {
    let mut out: BTreeMap<Vec<String>, M> = BTreeMap::new();
    for (l, m) in b {
        if out.insert(l.clone(), merge_m(m)?).is_some() {
            return Err(Conflict::Illegal);
        }
    }
    Ok(out.into_iter().collect())
}

fn merge_m(m: &M) -> Result<M, Conflict> {
    let mut out: BTreeMap<String, V> = BTreeMap::new();
    for (k, v) in &m.entries {
        let v = merge_v(v)?;
        match out.get_mut(k) {
            None => {
                out.insert(k.clone(), v);
            }
            Some(V::Obj(a)) => match v {
                V::Obj(b) => a.extend(b),
                _ => return Err(Conflict::Mixed),
            },
            Some(V::Block(a)) => match v {
                V::Block(b) => {
                    for (l, m) in b {
                        if a.iter().any(|(x, _)| *x == l) {
                            return Err(Conflict::Illegal);
                        }
                        a.push((l, m));
                    }
                    a.sort_by(|x, y| x.0.cmp(&y.0));
                }
                _ => return Err(Conflict::Mixed),
            },
            Some(_) => return Err(Conflict::Illegal),
        }
    }
    Ok(M {
        merged: true,
        entries: out.into_iter().collect(),
    })
}

/// Every key or label path that occurs more than once next to each other
fn repeated(m: &M, out: &mut BTreeSet<String>, rec: &mut Rec) {
    let mut seen: BTreeMap<&str, &V> = BTreeMap::new();
    for (k, v) in &m.entries {
        if let Some(first) = seen.get(k.as_str()) {
            out.insert(k.clone());
            match (kind(first), kind(v)) {
                ("Object", "Object") => rec.count("maps_concatenated"),
                ("Block", "Block") => rec.count("blocks_united"),
                _ => {}
            }
        } else {
            seen.insert(k, v);
        }
        repeated_v(v, out, rec);
    }
}

fn repeated_v(v: &V, out: &mut BTreeSet<String>, rec: &mut Rec) {
    match v {
        V::List(l) => l.iter().for_each(|v| repeated_v(v, out, rec)),
        V::Obj(ms) => ms.iter().for_each(|m| repeated(m, out, rec)),
        V::Block(b) => {
            for (i, (l, m)) in b.iter().enumerate() {
                if b[..i].iter().any(|(x, _)| x == l) {
                    out.insert(l.join(" "));
                }
                repeated(m, out, rec);
            }
        }
        _ => {}
    }
}

fn all_merged_m(m: &MapValues) -> bool {
    match m {
        KeyValuePairs::Merged(h) => h.values().all(all_merged),
        KeyValuePairs::Unmerged(_) => false,
    }
}

fn all_merged(v: &Value) -> bool {
    match v {
        Value::List(l) => l.iter().all(all_merged),
        Value::Object(ms) => ms.iter().all(all_merged_m),
        Value::Block(KeyValuePairs::Merged(h)) => h.values().all(all_merged_m),
        Value::Block(_) => false,
        _ => true,
    }
}

// ---------------------------------------------------------------------------------------------
// Generation

struct G {
    /// One in so many entries repeats a key although it is an error
    clash: usize,
    id: i64,
    /// Once this many entries
    wide: usize,
}

impl G {
    /// How many entries a collection gets
    fn many(&mut self, r: &mut Rng, n: usize) -> usize {
        if self.wide > 0 && r.one_in(2) {
            r.size(std::mem::replace(&mut self.wide, 0))
        } else {
            n
        }
    }
    fn scalar(&mut self, r: &mut Rng) -> V {
        self.id += 1;
        match r.below(8) {
            0 => V::Null,
            1 => V::Bool(r.one_in(2)),
            2 => V::Float((self.id as f64 + 0.5).to_bits()),
            3 => V::Str(if r.one_in(4) { gen::odd_text(r, &format!("s{}", self.id)) } else { format!("s{}", self.id) }),
            _ => V::Int(self.id),
        }
    }
    fn value(&mut self, r: &mut Rng, depth: usize) -> V {
        if depth == 0 || r.pct(60) {
            return self.scalar(r);
        }
        match r.below(4) {
            0 | 1 => {
                let n = r.below(4);
                V::List((0..self.many(r, n)).map(|_| self.value(r, depth - 1)).collect())
            }
            2 => {
                let n = r.pickc(&[1, 1, 1, 0, 2, 3]);
                V::Obj((0..self.many(r, n)).map(|_| self.map(r, depth - 1)).collect())
            }
            _ => self.block(r, depth - 1),
        }
    }
    fn block(&mut self, r: &mut Rng, depth: usize) -> V {
        let n = r.pickc(&[1, 1, 1, 1, 2, 3, 0]);
        let n = self.many(r, n);
        let mut b: Vec<(Vec<String>, M)> = vec![];
        for _ in 0..n {
            let l = if !b.is_empty() && r.one_in(self.clash) {
                let k = r.below(b.len());
                b[k].0.clone()
            } else {
                self.id += 1;
                let pool = ["x", "y", "x y", "", "z"];
                let mut l: Vec<String> = (0..r.range(1, 4)).map(|_| r.pick(&pool).to_string()).collect();
                if !r.one_in(self.clash) {
                    let k = r.below(l.len());
                    l[k] = if r.one_in(3) { gen::odd_text(r, &format!("l{}", self.id)) } else { format!("l{}", self.id) };
                }
                l
            };
            let m = self.map(r, depth);
            b.push((l, m));
        }
        V::Block(b)
    }
    fn map(&mut self, r: &mut Rng, depth: usize) -> M {
        let n = r.pickc(&[0, 1, 1, 2, 2, 3, 4, 6]);
        let n = self.many(r, n);
        let mut entries: Vec<(String, V)> = vec![];
        for _ in 0..n {
            self.id += 1;
            let repeat = !entries.is_empty() && r.one_in(3);
            if repeat {
                let k = r.below(entries.len());
                let (key, of) = (entries[k].0.clone(), kind(&entries[k].1));
                let v = match of {
                    _ if r.one_in(self.clash) => self.value(r, depth.saturating_sub(1)),
                    "Object" => V::Obj((0..r.range(1, 3)).map(|_| self.map(r, depth.saturating_sub(1))).collect()),
                    "Block" => self.block(r, depth.saturating_sub(1)),
                    _ => continue,
                };
                entries.push((key, v));
                continue;
            }
            let key = match r.below(4) {
                0 if r.one_in(self.clash) => r.pick(&["a", "b", "c"]).to_string(),
                1 if r.one_in(2) => format!("藏{}", self.id),
                1 => format!("{}{}{}", r.pick(&["_", "__", "_a-", "A", "é", "k0"]), self.id, r.pick(&["", "", "_", "__", "-", "A", "é", "_-"])),
                2 if r.one_in(4) => match r.below(4) {
                    0 => format!("{}{}", gen::string(r), self.id),
                    1 => format!("{}{}", self.id, gen::string(r)),
                    2 => " ".repeat(1 + self.id as usize % 5),
                    _ => r.pick(&["", "_", "-", ".", "\"", "\n", "'", "{", "null", "true", "0", "A", "\u{301}"]).to_string(),
                },
                2 if r.one_in(2) => gen::odd_text(r, &format!("k{}", self.id)),
                2 => format!("k {}", self.id),
                _ => format!("k{}", self.id),
            };
            let v = match r.below(3) {
                0 if depth > 0 => V::Obj(vec![self.map(r, depth - 1)]),
                1 if depth > 0 => self.block(r, depth - 1),
                _ => self.value(r, depth),
            };
            entries.push((key, v));
        }
        M {
            merged: false,
            entries,
        }
    }
}

/// The document which parses to the map, when it can be written down
fn doc_of(m: &M) -> Option<Doc> {
    fn ident(s: &str) -> bool {
        let mut c = s.chars();
        c.next().map_or(false, |c| unic_ucd_ident::is_id_start(c) || c == '_') && c.all(|c| unic_ucd_ident::is_id_continue(c) || c == '-')
    }
    fn expr(v: &V) -> Option<E> {
        Some(match v {
            V::Null => E::Null,
            V::Int(i) => E::Num(i.to_string()),
            V::Float(f) => E::Num(format!("{:?}", f64::from_bits(*f))),
            V::Bool(b) => E::Bool(*b),
            V::Str(s) => E::Str(s.clone()),
            V::List(l) => E::Tuple(l.iter().map(expr).collect::<Option<_>>()?),
            V::Obj(ms) if ms.len() == 1 => E::Obj(
                ms[0]
                    .entries
                    .iter()
                    .map(|(k, v)| {
                        let k = if ident(k) { K::Ident(k.clone()) } else { K::Expr(E::Str(k.clone())) };
                        Some((k, expr(v)?))
                    })
                    .collect::<Option<_>>()?,
            ),
            _ => return None,
        })
    }
    m.entries
        .iter()
        .map(|(k, v)| {
            if !ident(k) {
                return None;
            }
            Some(match v {
                V::Block(b) if b.len() == 1 => El::Block(Bl {
                    ty: k.clone(),
                    labels: b[0].0.iter().map(|t| L { quoted: true, text: t.clone() }).collect(),
                    body: doc_of(&b[0].1)?,
                }),
                V::Obj(ms) if ms.len() == 1 && ms[0].entries.len() % 2 == 0 => match doc_of(&ms[0]) {
                    Some(body) => El::Block(Bl {
                        ty: k.clone(),
                        labels: vec![],
                        body,
                    }),
                    None => El::Attr(k.clone(), expr(v)?),
                },
                v => El::Attr(k.clone(), expr(v)?),
            })
        })
        .collect()
}

fn judge(rec: &mut Rec, what: &str, want: &Result<M, Conflict>, rep: &BTreeSet<String>, got: Result<MapValues, Error>) {
    match (want, got) {
        (Ok(w), Ok(g)) => {
            let m = m_from(&g);
            rec.check(m == *w, "merged-content", || format!("{}: {}", what, diff_text(&format!("{:?}", w), &format!("{:?}", m))));
            rec.check(all_merged_m(&g) && g.is_merged(), "not-merged", || format!("{}: something is left unmerged, is_merged {}", what, g.is_merged()));
            rec.count("merged_ok");
        }
        (Err(c), Err(e)) => {
            rec.count("merge_errors");
            rec.count(match c {
                Conflict::Illegal => "error_illegal_multiple",
                Conflict::Mixed => "error_mixed_kinds",
            });
            let key = match &e {
                Error::IllegalMultipleEntries { key, .. } => key.clone(),
                Error::ErrorMergingKeys { key, .. } => key.clone(),
                e => return rec.fail("merge-error-kind", format!("{}: {:?}", what, e)),
            };
            // Blocks may be named with or without their labels
            rec.check(rep.contains(&key) || rep.iter().any(|k| key.starts_with(&format!("{} ", k))), "merge-error-key", || {
                format!("{}: the error names {:?}, repeated are {:?}", what, key, rep)
            });
        }
        (Ok(w), Err(e)) => rec.fail("merge-refused", format!("{}: {} for {:?}", what, e, w)),
        (Err(_), Ok(g)) => rec.fail("merge-conflict-accepted", format!("{}: repeated {:?}, merged into {:?}", what, rep, m_from(&g))),
    }
}

fn run_c12(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let mut g = G {
        clash: r.pickc(&[2, 5, 12, 40, 1_000_000, 1_000_000]),
        id: 0,
        wide: 0,
    };
    let wide = r.one_in(60);
    if wide {
        rec.count("wide");
        g.wide = 700;
    }
    let mut m = g.map(r, if wide { 2 } else { 4 });
    if let Some(d) = gen::large_case(i, 62) {
        rec.count("large");
        m = m_of_doc(&d);
        if r.one_in(3) && !m.entries.is_empty() {
            // The first, the last or any entry once more
            let k = r.pickc(&[0, m.entries.len() - 1, r.clone().below(m.entries.len())]);
            let again = m.entries[k].clone();
            m.entries.push(again);
        }
    }
    let shown = format!("{:?}", m);
    rec.input(&shown);
    rec.eval();
    if i < 40 && m.entries.len() > 1 {
        rec.sample(&shown);
    }
    let mut rep = BTreeSet::new();
    repeated(&m, &mut rep, rec);
    if !rep.is_empty() {
        rec.nontrivial(shown.as_bytes());
    }
    let want = merge_m(&m);
    let orig = mv(&m);
    judge(rec, "merge", &want, &rep, orig.clone().merge());
    judge(rec, "as_merged", &want, &rep, orig.as_merged());
    rec.check(m_from(&orig) == m, "as-merged-changes", || "as_merged changed what it was called on".into());
    judge(
        rec,
        "new_merged",
        &want,
        &rep,
        MapValues::new_merged(orig.clone().unwrap_unmerged()),
    );
    // Reordering different keys
    {
        let mut keys: Vec<&String> = m.entries.iter().map(|e| &e.0).collect::<BTreeSet<_>>().into_iter().collect();
        r.shuffle(&mut keys);
        let entries: Vec<(String, V)> = keys.iter().flat_map(|k| m.entries.iter().filter(move |e| e.0 == **k).cloned()).collect();
        let m2 = M { merged: false, entries };
        judge(rec, "merge after reordering", &want, &rep, mv(&m2).merge());
        rec.count("reordered");
    }
    // As a value
    let v = if r.one_in(2) { V::Obj(vec![m.clone()]) } else { V::List(vec![V::Obj(vec![m.clone()]), V::Int(1)]) };
    match (merge_v(&v), val(&v).merge()) {
        (Ok(w), Ok(g)) => {
            let got = v_from(&g);
            rec.check(got == w, "merged-content", || diff_text(&format!("{:?}", w), &format!("{:?}", got)));
            rec.check(all_merged(&g) && g.is_merged(), "not-merged", || "a merged value is not merged".into());
            let again = g.clone().merge();
            rec.check(again.map_or(false, |a| a == g), "merge-twice", || "merging a merged value changes it".into());
        }
        (Err(_), Err(_)) => {}
        (w, g) => rec.fail("value-merge", format!("merging the value: {:?}, expected success: {}", g.is_ok(), w.is_ok())),
    }
    rec.count("values_merged");
    // Blocks
    if let V::Block(b) = g.block(r, 2) {
        rec.count("blocks_merged");
        let orig = blk(&b);
        let sorted = |x: Vec<(Vec<String>, M)>| {
            let mut x = x;
            x.sort_by(|a, b| a.0.cmp(&b.0));
            x
        };
        let content = |b: &Block| -> Vec<(Vec<String>, M)> { b.iter().map(|(l, m)| (l.clone(), m_from(m))).collect() };
        match merge_b(&b) {
            Ok(w) => {
                for (what, g) in vec![
                    ("merge", orig.clone().merge()),
                    ("as_merged", orig.as_merged()),
                    ("new_merged", Block::new_merged(orig.clone().into_iter())),
                ] {
                    match g {
                        Ok(g) => {
                            rec.check(sorted(content(&g)) == w && g.is_merged(), "block-merge", || format!("{}: {:?}, expected {:?}", what, content(&g), w));
                            let u = g.clone().unmerge();
                            rec.check(sorted(content(&u)) == w && !u.is_merged(), "block-unmerge", || format!("{:?}, expected {:?}", content(&u), w));
                            rec.check(sorted(content(&g.as_unmerged())) == w, "block-unmerge", || "as_unmerged".to_string());
                            rec.check(g.clone().merge().map_or(false, |x| x == g), "merge-twice", || "merging merged blocks changes them".into());
                            rec.check(u.merge().map_or(false, |x| x == g), "block-unmerge", || "merging the unmerged blocks again".into());
                        }
                        Err(e) => rec.fail("merge-refused", format!("blocks, {}: {}", what, e)),
                    }
                }
            }
            Err(_) => {
                for (what, g) in vec![
                    ("merge", orig.clone().merge()),
                    ("as_merged", orig.as_merged()),
                    ("new_merged", Block::new_merged(orig.clone().into_iter())),
                ] {
                    rec.check(g.is_err(), "merge-conflict-accepted", || format!("blocks, {}: {:?}", what, b));
                }
            }
        }
        rec.check(content(&orig) == b, "as-merged-changes", || "as_merged changed the blocks it was called on".into());
    }
    // Once merged
    if let (Ok(w), Ok(merged)) = (&want, orig.clone().merge()) {
        rec.check(merged.len_scalar() == scalars_m(&m), "conservation", || format!("{} scalars after merging {}", merged.len_scalar(), scalars_m(&m)));
        rec.check(merged.clone().merge().map_or(false, |a| a == merged), "merge-twice", || "merging twice changes the map".into());
        rec.check(merged.as_merged().map_or(false, |a| a == merged), "merge-twice", || "as_merged of a merged map".into());
        let u = merged.clone().unmerge();
        let back = |u: &MapValues| {
            let mut x = m_from(u);
            x.entries.sort_by(|a, b| a.0.cmp(&b.0));
            x
        };
        let x = back(&u);
        rec.check(!x.merged && x.entries == w.entries, "unmerge", || diff_text(&format!("{:?}", w.entries), &format!("{:?}", x.entries)));
        let x = back(&merged.as_unmerged());
        rec.check(!x.merged && x.entries == w.entries, "unmerge", || "as_unmerged".to_string());
        rec.check(u.as_unmerged() == u && u.clone().unmerge() == u, "unmerge", || "unmerging an unmerged map changes it".into());
        rec.check(u.merge().map_or(false, |a| a == merged), "unmerge", || "merging again after unmerging yields something else".into());
        rec.count("unmerged_again");
    }
    // Documents
    if let Some(d) = doc_of(&m) {
        let quoted = r.one_in(3) && !d.is_empty();
        let st = Style {
            dialect: if quoted { Dialect::Legacy } else { Dialect::Common },
            wild: r.one_in(2),
            parens: false,
            heredocs: true,
            escapes: true,
        };
        let (mut text, _) = gen::render(r, &d, st);
        let mut m = m_of_doc(&d);
        let mut rep = rep;
        if quoted {
            // A quoted attribute which repeats, or not, a bare one
            let k = r.below(m.entries.len());
            let key = if r.one_in(2) { m.entries[k].0.clone() } else { "another one".to_string() };
            let n = m.entries.iter().any(|e| e.0 == key);
            text = format!("{} = [{}]\n{}", gen::quote(r, &key, false, true), if n { "" } else { "1" }, text);
            m.entries.insert(0, (key.clone(), V::List(if n { vec![] } else { vec![V::Int(1)] })));
            if n {
                rec.count("quoted_and_bare_key");
                rep.insert(key);
            }
        }
        rec.input(&text);
        let want = merge_m(&m);
        rec.count("parsed_and_merged");
        match value::from_str(&text, None) {
            Ok(u) => {
                let got = m_from(&u);
                if !rec.check(got == m, "unmerged-content", || diff_text(&format!("{:?}", m), &format!("{:?}", got))) {
                    return;
                }
                judge(rec, "merge of the parsed", &want, &rep, u.merge());
            }
            Err(e) => return rec.fail("rejected", e.to_string()),
        }
        let how = if r.one_in(2) { MergeBehaviour::Error } else { MergeBehaviour::default() };
        judge(rec, "from_str", &want, &rep, value::from_str(&text, Some(how)));
        judge(rec, "from_slice", &want, &rep, value::from_slice(text.as_bytes(), Some(how)));
        judge(rec, "from_reader", &want, &rep, value::from_reader(text.as_bytes(), Some(how)));
    }
}

// ---------------------------------------------------------------------------------------------
// C13

pub static C13: Prop = Prop {
    id: "C13",
    rule: "Random sequences of construction and extension of key-value collections (merged and unmerged, few keys, unique values) are run next to a reference list: length, emptiness, lookups (first, all, indexing, absent), the iterators over entries, keys and values with their announced lengths at every step, ownership conversions, unwrapping. Every typed accessor, conversion, constructor, length and count of scalars of random values is compared with the variant the value is. Non-trivial: a collection with a repeated key or a composite value; distinct by content.",
    cases: (80_000, 2_000_000),
    threads: 8,
    run: run_c13,
    need: &["collections_merged", "collections_unmerged", "lookups", "lookups_absent", "lookups_many", "iterator_steps", "values_inspected", "one_or_many", "unwraps_refused", "body_elements", "block_lookups", "containers", "large_collections", "huge_collections", "adaptors", "vast_collections"],
    exhaustive: false,
};

/// The adaptors an iterator may bring its own version of
fn adaptors<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T>>(r: &mut Rng, rec: &mut Rec, what: &str, mk: &dyn Fn() -> I) {
    let mut all = vec![];
    let mut it = mk();
    while let Some(x) = it.next() {
        all.push(x);
    }
    let n = all.len();
    rec.count("adaptors");
    let mut is = |ok: bool, how: &str| {
        rec.check(ok, "iterator-adaptor", || format!("{}: {} differs from stepping through {:?}", what, how, all));
    };
    is(mk().count() == n, "count");
    is(mk().last().as_ref() == all.last(), "last");
    is(mk().collect::<Vec<_>>() == all, "collect");
    is(mk().fold(vec![], |mut v, x| { v.push(x); v }) == all, "fold");
    let mut v = vec![];
    mk().for_each(|x| v.push(x));
    is(v == all, "for_each");
    for k in [0, 1, 2, n.max(1) - 1, n, n + 1, n + 7, r.below(n + 3)] {
        is(mk().nth(k).as_ref() == all.get(k), "nth");
        // what is left after a jump
        let mut it = mk();
        it.nth(k);
        let left = n.saturating_sub(k + 1);
        let (lo, hi) = it.size_hint();
        is(lo <= left && hi.map_or(true, |h| h >= left), "size_hint after nth");
        let rest: Vec<T> = it.collect();
        is(rest[..] == all[n - left..], "nth, then the rest");
        let rest: Vec<T> = mk().skip(k).collect();
        is(rest[..] == all[n.min(k)..], "skip");
        let mut it = mk();
        let first: Vec<T> = it.by_ref().take(k).collect();
        let rest: Vec<T> = it.collect();
        is(first[..] == all[..n.min(k)] && rest[..] == all[n.min(k)..], "take, then the rest");
        let mut it = mk();
        for _ in 0..k {
            it.next();
        }
        is(it.count() == n.saturating_sub(k), "next, then count");
        let mut it = mk();
        for _ in 0..k.min(n) {
            it.next();
        }
        is(it.last().as_ref() == if k < n { all.last() } else { None }, "next, then last");
        let each: Vec<T> = mk().step_by(k + 1).collect();
        is(each.iter().eq(all.iter().step_by(k + 1)), "step_by");
        if k < n {
            is(mk().position(|x| x == all[k]) == all.iter().position(|x| *x == all[k]), "position");
            is(mk().find(|x| *x == all[k]).as_ref() == Some(&all[k]), "find");
            is(mk().any(|x| x == all[k]), "any");
            is(mk().all(|x| x != all[k]) == false, "all");
        }
    }
    let mut it = mk();
    while it.next().is_some() {}
    is(it.next().is_none() && it.size_hint().0 == 0, "the end");
    is(mk().partition::<Vec<T>, _>(|_| true).0 == all, "partition");
    is(mk().try_fold(0, |k, _| if k < n { Some(k + 1) } else { None }) == Some(n), "try_fold");
    is(mk().zip(0..).map(|x| x.1).last() == n.checked_sub(1), "zip");
    let mut twice: Vec<T> = mk().chain(mk()).collect();
    is(twice.len() == 2 * n && twice.drain(n..).collect::<Vec<_>>() == all, "chain");
    let mut ext = Vec::with_capacity(1);
    ext.extend(mk());
    is(ext == all, "extend");
    is(mk().min_by(|_, _| std::cmp::Ordering::Less).as_ref() == all.first(), "min_by");
    is(mk().max_by(|_, _| std::cmp::Ordering::Less).as_ref() == all.last(), "max_by");
    is(mk().peekable().peek() == all.first(), "peek");
}

fn step_through<T, I: Iterator<Item = T>>(rec: &mut Rec, what: &str, mut it: I, n: usize, exact: bool) -> Vec<T> {
    let mut out = vec![];
    loop {
        let (lo, hi) = it.size_hint();
        let left = n.saturating_sub(out.len());
        let ok = lo <= left && hi.map_or(true, |h| h >= left) && (!exact || (lo == left && hi == Some(left)));
        if !ok {
            rec.fail("iterator-length", format!("{}: announces {:?} with {} left", what, (lo, hi), left));
        }
        rec.count("iterator_steps");
        match it.next() {
            Some(x) => out.push(x),
            None => break,
        }
        if out.len() > n {
            rec.fail("iterator-length", format!("{}: yields more than {}", what, n));
            break;
        }
    }
    if out.len() < n {
        rec.fail("iterator-length", format!("{}: yields {} instead of {}", what, out.len(), n));
    }
    out
}

fn pairs(r: &mut Rng, rec: &mut Rec) {
    // A history over few keys: the reference is a list
    let keys = ["a", "b", "c", "", "藏", "A"];
    let nk = r.range(1, keys.len());
    let big = r.one_in(100);
    let huge = big && r.one_in(12);
    let n = if huge {
        rec.count("huge_collections");
        let sizes = gen::edge_sizes();
        (if r.one_in(3) { 9000 } else { sizes[r.below(sizes.len())] }) + r.below(3)
    } else if big {
        rec.count("large_collections");
        r.below(600)
    } else {
        r.below(9)
    };
    let merged = r.one_in(2);
    let mut reference: Vec<(String, Value<'static>)> = vec![];
    let mut at: BTreeMap<String, usize> = BTreeMap::new();
    let mut put = |reference: &mut Vec<(String, Value<'static>)>, k: String, v: Value<'static>| {
        if merged {
            if let Some(i) = at.get(&k) {
                reference[*i].1 = v;
                return;
            }
            at.insert(k.clone(), reference.len());
        }
        reference.push((k, v));
    };
    let item = |r: &mut Rng, id: usize| {
        let mut g = G { clash: 3, id: 1000 * id as i64, wide: 0 };
        if big {
            let k = if huge && !r.one_in(8) {
                format!("k{}", id)
            } else if r.one_in(4) {
                keys[r.below(nk)].to_string()
            } else {
                format!("k{}", r.below(2000))
            };
            return (k, Value::Integer(id as i64));
        }
        (keys[r.below(nk)].to_string(), val(&g.value(r, 2)))
    };
    let first: Vec<(String, Value)> = (0..n).map(|i| item(r, i)).collect();
    for (k, v) in &first {
        put(&mut reference, k.clone(), v.clone());
    }
    let mut kv: KeyValuePairs<String, Value> = if merged {
        KeyValuePairs::Merged(first.into_iter().collect())
    } else {
        KeyValuePairs::Unmerged(first)
    };
    for round in 0..r.below(3) {
        let more: Vec<(String, Value)> = (0..r.below(4)).map(|i| item(r, 100 * (round + 1) + i)).collect();
        for (k, v) in &more {
            put(&mut reference, k.clone(), v.clone());
        }
        kv.extend(more);
    }
    let n = reference.len();
    rec.count(if merged { "collections_merged" } else { "collections_unmerged" });
    let shown = format!("merged {} {:?}", merged, reference);
    rec.input(&shown);
    let distinct: BTreeSet<&String> = reference.iter().map(|e| &e.0).collect();
    if distinct.len() < n {
        rec.nontrivial(shown.as_bytes());
    }
    rec.sample(&shown);
    rec.check(kv.len() == n && kv.is_empty() == (n == 0), "length", || format!("len {} of {}", kv.len(), n));
    let order = |mut v: Vec<(String, Value<'static>)>| {
        if merged {
            v.sort_by(|a, b| a.0.cmp(&b.0));
        }
        v
    };
    let want = order(reference.clone());
    let own = |v: Vec<(&String, &Value<'static>)>| -> Vec<(String, Value<'static>)> { v.into_iter().map(|(k, v)| (k.clone(), v.clone())).collect() };
    let a = order(own(step_through(rec, "iter", kv.iter(), n, true)));
    rec.check(a == want, "iteration", || "iter".to_string());
    let a = order(own(step_through(rec, "by reference", (&kv).into_iter(), n, true)));
    rec.check(a == want, "iteration", || "by reference".to_string());
    let a = order(step_through(rec, "into_iter", kv.clone().into_iter(), n, true));
    rec.check(a == want, "iteration", || "into_iter".to_string());
    let ks: Vec<String> = step_through(rec, "keys", kv.keys(), n, true).into_iter().cloned().collect();
    let vs: Vec<Value> = step_through(rec, "values", kv.values(), n, true).into_iter().cloned().collect();
    let a = order(ks.into_iter().zip(vs).collect());
    rec.check(a == want, "iteration", || "keys and values".to_string());
    if !big || !huge && r.one_in(4) {
        adaptors(r, rec, "iter", &|| kv.iter());
        adaptors(r, rec, "by reference", &|| (&kv).into_iter());
        if !merged {
            adaptors(r, rec, "into_iter", &|| kv.clone().into_iter());
        } else {
            // (in an order of its own)
            let all = |v: Vec<(String, Value<'static>)>| order(v) == want;
            let mut ok = all(kv.clone().into_iter().collect());
            ok &= all(kv.clone().into_iter().fold(vec![], |mut v, x| {
                v.push(x);
                v
            }));
            ok &= kv.clone().into_iter().count() == n && kv.clone().into_iter().last().is_some() == (n > 0);
            for k in [0, 1, n.max(1) - 1, n, n + 1, r.below(n + 3)] {
                let mut it = kv.clone().into_iter();
                let x = it.nth(k);
                ok &= x.is_some() == (k < n) && x.map_or(true, |x| want.contains(&x));
                ok &= it.size_hint().0 == n.saturating_sub(k + 1) && it.count() == n.saturating_sub(k + 1);
                let mut it = kv.clone().into_iter();
                let mut v: Vec<_> = it.by_ref().take(k).collect();
                v.extend(it);
                ok &= all(v);
            }
            rec.check(ok, "iterator-adaptor", || "into_iter of a merged collection".to_string());
        }
        adaptors(r, rec, "keys", &|| kv.keys());
        adaptors(r, rec, "values", &|| kv.values());
    }
    rec.check(ExactSizeIterator::len(&kv.iter()) == n && ExactSizeIterator::len(&kv.clone().into_iter()) == n, "iterator-length", || "len".to_string());
    // Lookups
    let mut wanted: Vec<&str> = keys.iter().copied().collect();
    wanted.push("absent");
    if big && n > 0 {
        // From everywhere in the collection
        wanted.extend([0, 1, n / 2, n - 1, n.max(2) - 2].iter().map(|i| reference[(*i).min(n - 1)].0.as_str()));
        for _ in 0..6 {
            wanted.push(reference[r.below(n)].0.as_str());
        }
    }
    for k in &wanted {
        let all: Vec<&Value> = reference.iter().filter(|e| e.0 == *k).map(|e| &e.1).collect();
        let one = kv.get_single(*k);
        rec.check(one == all.first().copied(), "lookup", || format!("first of {:?}", k));
        let many = kv.get(*k);
        match &many {
            None => {
                rec.check(all.is_empty(), "lookup", || format!("nothing found for {:?}", k));
                rec.count("lookups_absent");
                let idx = guard(|| kv[*k].clone());
                rec.check(idx.is_err(), "lookup", || format!("indexing with the absent {:?} yields {:?}", k, idx));
            }
            Some(m) => {
                let got: Vec<&Value> = m.iter().copied().collect();
                rec.check(got == all && !all.is_empty(), "lookup", || format!("all of {:?}: {:?} expected {:?}", k, got, all));
                rec.check(m.is_one() == merged, "lookup", || format!("one or many for {:?}", k));
                rec.count("lookups");
                if all.len() > 1 {
                    rec.count("lookups_many");
                }
                let idx = guard(|| kv[*k].clone());
                rec.check(idx.as_ref().ok() == all.first().copied(), "lookup", || format!("indexing with {:?}", k));
            }
        }
    }
    // Scalars, states, ownership
    let scalars: usize = reference.iter().map(|(_, v)| scalars_v(&v_from(v))).sum();
    rec.check(kv.len_scalar() == scalars && kv.is_empty_scalar() == (scalars == 0), "scalars", || format!("{} of {}", kv.len_scalar(), scalars));
    let m = merged && reference.iter().all(|(_, v)| all_merged(v));
    rec.check(kv.is_merged() == m, "merged-state", || format!("is_merged {}", kv.is_merged()));
    let u = !merged && reference.iter().all(|(_, v)| all_unmerged(v));
    rec.check(kv.is_unmerged() == u, "merged-state", || format!("is_unmerged {}", kv.is_unmerged()));
    let o = kv.as_owned();
    rec.check(o == kv, "as-owned", || "as_owned differs".to_string());
    let (a, b) = (guard(|| kv.clone().unwrap_merged().len()), guard(|| kv.clone().unwrap_unmerged().len()));
    let ok = if merged { a == Ok(n) && b.is_err() } else { b == Ok(n) && a.is_err() };
    rec.check(ok, "unwrap", || format!("{:?} {:?}", a, b));
    rec.count("unwraps_refused");
    let mut other = kv.clone();
    other.extend(vec![("zzz".to_string(), Value::Null)]);
    rec.check(other != kv && other.len() == n + 1, "equality", || "equal to a longer one".to_string());
}

fn all_unmerged(v: &Value) -> bool {
    fn m(m: &MapValues) -> bool {
        match m {
            KeyValuePairs::Merged(_) => false,
            KeyValuePairs::Unmerged(v) => v.iter().all(|e| all_unmerged(&e.1)),
        }
    }
    match v {
        Value::List(l) => l.iter().all(all_unmerged),
        Value::Object(ms) => ms.iter().all(m),
        Value::Block(KeyValuePairs::Merged(_)) => false,
        Value::Block(KeyValuePairs::Unmerged(b)) => b.iter().all(|e| m(&e.1)),
        _ => true,
    }
}

fn one_or_many(r: &mut Rng, rec: &mut Rec) {
    rec.count("one_or_many");
    let v: Vec<i64> = (0..r.below(5)).map(|i| i as i64 * 7).collect();
    let one = r.one_in(2) && !v.is_empty();
    let (x, want) = if one { (OneOrMany::One(v[0]), vec![v[0]]) } else { (OneOrMany::Many(v.clone()), v) };
    let n = want.len();
    rec.check(x.len() == n && x.is_empty() == (n == 0), "one-or-many", || format!("{:?}: len {}", x, x.len()));
    rec.check(x.is_one() == one && x.is_many() != one, "one-or-many", || format!("{:?}: is_one", x));
    let a: Vec<i64> = step_through(rec, "one or many", x.iter(), n, true).into_iter().copied().collect();
    let b = step_through(rec, "one or many", x.clone().into_iter(), n, true);
    let c: Vec<i64> = (&x).into_iter().copied().collect();
    adaptors(r, rec, "one or many, iter", &|| x.iter());
    adaptors(r, rec, "one or many, into_iter", &|| x.clone().into_iter());
    rec.check(a == want && b == want && c == want, "one-or-many", || format!("{:?}: {:?} {:?} {:?}", x, a, b, c));
    let (u1, um) = (guard(|| x.clone().unwrap_one()), guard(|| x.clone().unwrap_many()));
    rec.check(if one { u1 == Ok(want[0]) && um.is_err() } else { um == Ok(want) && u1.is_err() }, "one-or-many", || format!("{:?}: {:?} {:?}", x, u1, um));
}

/// A value of which count and state are known
#[derive(Debug, Clone, PartialEq)]
struct Probe {
    n: usize,
    merged: bool,
    unmerged: bool,
}

impl ScalarLength for Probe {
    fn len_scalar(&self) -> usize {
        self.n
    }
}

impl Mergeable for Probe {
    fn is_merged(&self) -> bool {
        self.merged
    }

    fn is_unmerged(&self) -> bool {
        self.unmerged
    }
}

/// A value that leaves `is_unmerged` to the trait
struct Plain(bool);

impl Mergeable for Plain {
    fn is_merged(&self) -> bool {
        self.0
    }
}

/// Counts and states of containers follow from those of what they hold, whatever that is
fn containers(r: &mut Rng, rec: &mut Rec) {
    rec.count("containers");
    let v: Vec<Probe> = (0..r.below(6)).map(|_| Probe { n: r.below(4), merged: !r.one_in(4), unmerged: !r.one_in(4) }).collect();
    let (n, m, u) = (v.iter().map(|p| p.n).sum::<usize>(), v.iter().all(|p| p.merged), v.iter().all(|p| p.unmerged));
    let map: HashMap<usize, Probe> = v.iter().cloned().enumerate().collect();
    let list: Vec<(usize, Probe)> = v.iter().cloned().enumerate().collect();
    let (merged, unmerged): (KeyValuePairs<usize, Probe>, KeyValuePairs<usize, Probe>) = (KeyValuePairs::Merged(map.clone()), KeyValuePairs::Unmerged(list.clone()));
    let many = OneOrMany::Many(v.clone());
    let mut judge = |what: &str, got: (Option<usize>, bool, bool), want: (Option<usize>, bool, bool)| {
        rec.check(got == want, "container", || format!("{} of {:?}: {:?}, expected {:?}", what, v, got, want));
    };
    judge("list", (Some(v.len_scalar()), v.is_merged(), v.is_unmerged()), (Some(n), m, u));
    judge("list by reference", (Some((&v).len_scalar()), Mergeable::is_merged(&&v), Mergeable::is_unmerged(&&v)), (Some(n), m, u));
    judge("hash map", (Some(map.len_scalar()), map.is_merged(), map.is_unmerged()), (Some(n), m, u));
    judge("pairs", (None, list.is_merged(), list.is_unmerged()), (None, m, u));
    judge("merged pairs", (Some(merged.len_scalar()), merged.is_merged(), merged.is_unmerged()), (Some(n), m, false));
    judge("unmerged pairs", (Some(unmerged.len_scalar()), unmerged.is_merged(), unmerged.is_unmerged()), (Some(n), false, u));
    judge("many", (None, many.is_merged(), many.is_unmerged()), (None, m, u));
    if let Some(p) = v.first() {
        let one = OneOrMany::One(p.clone());
        judge("one", (None, one.is_merged(), one.is_unmerged()), (None, p.merged, p.unmerged));
        judge("array of 1", (Some([p.clone()].len_scalar()), true, true), (Some(p.n), true, true));
    }
    judge("no array", (Some(<[Probe; 0] as ScalarLength>::len_scalar(&[])), true, true), (Some(0), true, true));
    if !v.is_empty() {
        // Every length there is
        macro_rules! arrays {
            ($($n:expr)*) => {$({
                let array: [Probe; $n] = std::array::from_fn(|k| v[k % v.len()].clone());
                let sum = array.iter().map(|p| p.n).sum();
                judge(concat!("array of ", $n), (Some(array.len_scalar()), array.is_empty_scalar(), true), (Some(sum), sum == 0, true));
            })*};
        }
        arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    }
    if let [a, b, c, ..] = &v[..] {
        judge("array of 3", (Some([a.clone(), b.clone(), c.clone()].len_scalar()), true, true), (Some(a.n + b.n + c.n), true, true));
        judge("nested", (Some(vec![vec![a.clone(), b.clone()], vec![], vec![c.clone()]].len_scalar()), vec![vec![a.clone(), b.clone()], vec![], vec![c.clone()]].is_merged(), true), (Some(a.n + b.n + c.n), a.merged && b.merged && c.merged, true));
    }
    rec.check(v.is_empty_scalar() == (n == 0) && map.is_empty_scalar() == (n == 0), "container", || format!("is_empty_scalar of {:?}", v));
    for b in &[true, false] {
        rec.check(Plain(*b).is_merged() == *b && Plain(*b).is_unmerged() != *b, "container", || "is_unmerged by default".to_string());
    }
}

/// Every accessor agrees with the variant
fn inspect(rec: &mut Rec, v: &Value<'static>, model: &V) {
    rec.count("values_inspected");
    let name = match model {
        V::Null => "Null",
        V::Int(_) => "Integer",
        V::Float(_) => "Float",
        V::Bool(_) => "Boolean",
        V::Str(_) => "String",
        V::List(_) => "List",
        V::Obj(_) => "Object",
        V::Block(_) => "Block",
    };
    let bad = |rec: &mut Rec, what: &str| rec.fail("accessor", format!("{} of {:?}", what, v));
    if v.variant_name() != name {
        bad(rec, "variant_name");
    }
    let is = [
        ("Null", v.is_null()),
        ("Integer", v.is_integer()),
        ("Float", v.is_float()),
        ("Boolean", v.is_boolean()),
        ("String", v.is_string()),
        ("List", v.is_list()),
        ("Object", v.is_map()),
        ("Object", v.is_body()),
        ("Block", v.is_block()),
    ];
    for (n, b) in &is {
        if *b != (*n == name) {
            bad(rec, &format!("is {}", n));
        }
    }
    let scalar = !["List", "Object", "Block"].contains(&name);
    if v.is_scalar() != scalar || v.is_aggregate() == scalar {
        bad(rec, "is_scalar");
    }
    let len = match model {
        V::List(l) => l.len(),
        V::Obj(l) => l.len(),
        V::Block(l) => l.len(),
        _ => 1,
    };
    if v.len() != len || v.is_empty() != (len == 0) {
        bad(rec, "len");
    }
    let n = scalars_v(model);
    if v.len_scalar() != n || v.is_empty_scalar() != (n == 0) || (&v).len_scalar() != n || vec![v.clone(), v.clone()].len_scalar() != 2 * n || [v.clone()].len_scalar() != n {
        bad(rec, "len_scalar");
    }
    if v.is_merged() != all_merged(v) || v.is_unmerged() != all_unmerged(v) {
        bad(rec, "is_merged or is_unmerged");
    }
    // A refusal says what is there and what was wanted, and gives the value back
    let refusal = |rec: &mut Rec, e: &Error, wanted: &str| match e {
        Error::UnexpectedVariant { expected, actual, .. } if *expected == wanted && *actual == name => {}
        e => rec.fail("accessor", format!("refused with {:?}: wanted {}, is {}", e, wanted, name)),
    };
    macro_rules! copying {
        ($get: ident, $unwrap: ident, $name: expr, $want: expr) => {
            match v.$get() {
                Ok(x) => {
                    if $want(model, &x) != true {
                        bad(rec, stringify!($get));
                    }
                }
                Err(e) => {
                    if name == $name {
                        bad(rec, stringify!($get));
                    }
                    refusal(rec, &e, $name);
                }
            }
            if guard(|| v.$unwrap()).is_ok() != (name == $name) {
                bad(rec, stringify!($unwrap));
            }
        };
    }
    copying!(integer, unwrap_integer, "Integer", |m: &V, x: &i64| *m == V::Int(*x));
    copying!(float, unwrap_float, "Float", |m: &V, x: &f64| *m == V::Float(x.to_bits()));
    copying!(boolean, unwrap_boolean, "Boolean", |m: &V, x: &bool| *m == V::Bool(*x));
    copying!(borrow_str, unwrap_borrow_str, "String", |m: &V, x: &&str| *m == V::Str(x.to_string()));
    copying!(borrow_list, unwrap_borrow_list, "List", |m: &V, x: &&Vec<Value>| *m == V::List(x.iter().map(v_from).collect()));
    copying!(borrow_map, unwrap_borrow_map, "Object", |m: &V, x: &&Vec<MapValues>| *m == V::Obj(x.iter().map(m_from).collect()));
    copying!(borrow_block, unwrap_borrow_block, "Block", |m: &V, x: &&Block| *m == v_from(&Value::Block((*x).clone())));
    macro_rules! consuming {
        ($get: ident, $unwrap: ident, $name: expr, $wrap: expr) => {
            match v.clone().$get() {
                Ok(x) => {
                    if name != $name || $wrap(x) != *v {
                        bad(rec, stringify!($get));
                    }
                }
                Err((e, back)) => {
                    if name == $name || back != *v {
                        bad(rec, stringify!($get));
                    }
                    refusal(rec, &e, $name);
                }
            }
            if guard(|| v.clone().$unwrap()).is_ok() != (name == $name) {
                bad(rec, stringify!($unwrap));
            }
        };
    }
    consuming!(string, unwrap_string, "String", Value::String);
    consuming!(list, unwrap_list, "List", Value::List);
    consuming!(map, unwrap_map, "Object", Value::Object);
    consuming!(block, unwrap_block, "Block", Value::Block);
    macro_rules! mutable {
        ($get: ident, $unwrap: ident, $name: expr, $change: expr, $after: expr) => {{
            let mut c = v.clone();
            match c.$get() {
                Ok(x) => {
                    $change(x);
                    let w = $after(model);
                    if name != $name || Some(v_from(&c)) != w {
                        bad(rec, stringify!($get));
                    }
                }
                Err(e) => {
                    if name == $name {
                        bad(rec, stringify!($get));
                    }
                    refusal(rec, &e, $name);
                }
            }
            let mut c = v.clone();
            if guard(|| $change(c.$unwrap())).is_ok() != (name == $name) {
                bad(rec, stringify!($unwrap));
            }
        }};
    }
    mutable!(borrow_string_mut, unwrap_borrow_string_mut, "String", |s: &mut String| s.push('!'), |m: &V| match m {
        V::Str(s) => Some(V::Str(format!("{}!", s))),
        _ => None,
    });
    mutable!(borrow_list_mut, unwrap_borrow_list_mut, "List", |l: &mut Vec<Value>| l.push(Value::Null), |m: &V| match m {
        V::List(l) => Some(V::List(l.iter().cloned().chain(Some(V::Null)).collect())),
        _ => None,
    });
    mutable!(borrow_map_mut, unwrap_borrow_map_mut, "Object", |l: &mut Vec<MapValues>| l.clear(), |m: &V| match m {
        V::Obj(_) => Some(V::Obj(vec![])),
        _ => None,
    });
    mutable!(
        borrow_block_mut,
        unwrap_borrow_block_mut,
        "Block",
        |b: &mut Block| *b = Block::Unmerged(vec![]),
        |m: &V| match m {
            V::Block(_) => Some(V::Block(vec![])),
            _ => None,
        }
    );
    // Clones and copies are equal
    if v.as_owned() != *v || Value::from(v) != *v {
        bad(rec, "as_owned or from a reference");
    }
    match model {
        V::List(l) => {
            let items: Vec<Value> = v.borrow_list().map(|l| l.clone()).unwrap_or_default();
            if Value::new_list(items.clone()) != *v || Value::from_iter(items.clone()) != *v || Value::from(Some(items.clone())) != *v {
                bad(rec, "constructing the list again");
            }
            for (m, x) in l.iter().zip(&items) {
                inspect(rec, x, m);
            }
        }
        V::Obj(ms) => {
            let maps: Vec<MapValues> = v.borrow_map().map(|l| l.clone()).unwrap_or_default();
            if Value::from(maps.clone()) != *v || Value::new_map(maps.iter().cloned()) != *v {
                bad(rec, "constructing the map again");
            }
            if maps.len() == 1 && (Value::from(maps[0].clone()) != *v || Value::new_single_map(maps[0].clone()) != *v) {
                bad(rec, "constructing the single map again");
            }
            for (m, x) in ms.iter().zip(&maps) {
                for ((k, m), (k2, x)) in m.entries.iter().zip(x.iter()) {
                    let t: &str = k2;
                    rec.check(t == k, "accessor", || format!("key {:?} {:?}", k, t));
                    inspect(rec, x, m);
                }
            }
        }
        V::Block(b) => {
            let got: Block = match v.borrow_block() {
                Ok(b) => b.clone(),
                Err(_) => return bad(rec, "borrow_block"),
            };
            if Value::from(got.clone()) != *v || Value::Block(got.clone().into_iter().collect()) != *v {
                bad(rec, "constructing the block again");
            }
            let by_ref = got.borrow_keys();
            let own: Vec<(Vec<&str>, *const MapValues)> = got.iter().map(|(l, m)| (l.iter().map(String::as_str).collect(), m as *const _)).collect();
            let lent: Vec<(Vec<&str>, *const MapValues)> = by_ref.iter().map(|(l, m)| (l.clone(), *m as *const _)).collect();
            rec.check(own == lent, "block-lookup", || format!("keys {:?} borrowed as {:?}", own, lent));
            for (l, m) in b {
                rec.count("block_lookups");
                let labels: Vec<&str> = l.iter().map(String::as_str).collect();
                let all: Vec<&M> = b.iter().filter(|e| e.0 == *l).map(|e| &e.1).collect();
                let found: Vec<M> = by_ref.get::<[&str]>(&labels).map(|m| m.iter().map(|m| m_from(m)).collect()).unwrap_or_default();
                let found2: Vec<M> = got.get::<[String]>(l).map(|m| m.iter().map(|m| m_from(m)).collect()).unwrap_or_default();
                rec.check(found.iter().collect::<Vec<_>>() == all && found2 == found, "block-lookup", || format!("{:?}: {:?}, expected {:?}", l, found, all));
                if all.len() == 1 && b.len() == 1 {
                    if let KeyValuePairs::Unmerged(e) = &got {
                        let again: Value = Value::new_block(Box::leak(labels.iter().map(|s| s.to_string()).collect::<Vec<_>>().into_boxed_slice()), e[0].1.clone());
                        rec.check(again == *v, "accessor", || "new_block".to_string());
                    }
                }
                for ((k, m), (k2, x)) in m.entries.iter().zip(by_ref.get_single::<[&str]>(&labels).into_iter().flat_map(|m| m.iter())) {
                    let t: &str = k2;
                    if all.len() == 1 {
                        rec.check(t == k, "accessor", || format!("key {:?} {:?}", k, t));
                        inspect(rec, x, m);
                    }
                }
            }
            rec.check(by_ref.get::<[&str]>(&["no", "such"]).is_none() && by_ref.len() == b.len(), "block-lookup", || "absent labels found".to_string());
        }
        _ => {}
    }
}

/// More entries than a number of sixteen bits tells
fn vast(r: &mut Rng, rec: &mut Rec) {
    let n = (1 << r.range(16, 18)) + r.below(5) - 2;
    let first = r.below(1000);
    let list: Vec<(usize, u8)> = (0..n).map(|k| (first + k, k as u8)).collect();
    for kv in vec![KeyValuePairs::Unmerged(list.clone()), KeyValuePairs::Merged(list.iter().cloned().collect())] {
        let merged = matches!(kv, KeyValuePairs::Merged(_));
        rec.input(&format!("{} pairs, merged {}", n, merged));
        rec.eval();
        rec.check(kv.len() == n && !kv.is_empty(), "length", || format!("{} of {}", kv.len(), n));
        let last = first + n - 1;
        rec.check(kv.get_single(&last) == Some(&((n - 1) as u8)) && kv.get_single(&(last + 1)).is_none() && kv[&first] == 0, "lookup", || "the last key".to_string());
        rec.check(matches!(kv.get(&last), Some(ref v) if v.len() == 1), "lookup", || "all of the last key".to_string());
        let mut got: Vec<(usize, u8)> = step_through(rec, "of many", kv.iter(), n, true).into_iter().map(|(k, v)| (*k, *v)).collect();
        got.sort();
        rec.check(got == list, "iteration", || "of many".to_string());
        let keys = step_through(rec, "many keys", kv.keys(), n, true).into_iter().count();
        let values = step_through(rec, "many values", kv.values(), n, true).into_iter().count();
        rec.check(keys == n && values == n, "iteration", || format!("{} keys, {} values", keys, values));
        let mut got = step_through(rec, "many, consumed", kv.into_iter(), n, true);
        got.sort();
        rec.check(got == list, "iteration", || "many, consumed".to_string());
    }
    let many = OneOrMany::Many(list.clone());
    rec.check(many.len() == n, "length", || "many".to_string());
    let a: Vec<_> = step_through(rec, "many", many.iter(), n, true).into_iter().cloned().collect();
    let b: Vec<_> = step_through(rec, "many, consumed", many.into_iter(), n, true);
    rec.check(a == list && b == list, "iteration", || "many".to_string());
    rec.count("vast_collections");
}

fn run_c13(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    rec.eval();
    if i % 10_000 == 3 {
        vast(r, rec);
    }
    pairs(r, rec);
    one_or_many(r, rec);
    containers(r, rec);
    let mut g = G {
        clash: 4,
        id: 0,
        wide: if r.one_in(60) { 400 } else { 0 },
    };
    let m = g.value(r, 3);
    let shown = format!("{:?}", m);
    rec.input(&shown);
    if !["Null", "Int", "Bool"].iter().any(|p| shown.starts_with(p)) {
        rec.nontrivial(shown.as_bytes());
    }
    let v = val(&m);
    inspect(rec, &v, &m);
    if let (Ok(w), Ok(x)) = (merge_v(&m), v.clone().merge()) {
        // The same for merged content: only what does not depend on an order
        rec.check(x.len_scalar() == scalars_v(&w) && x.is_merged(), "accessor", || format!("len_scalar or is_merged of the merged {:?}", w));
        if let Value::Block(b) = &x {
            if let V::Block(entries) = &w {
                for (l, m) in entries {
                    let labels: Vec<&str> = l.iter().map(String::as_str).collect();
                    let k = b.borrow_keys();
                    let one = k.get::<[&str]>(&labels);
                    rec.check(one.map_or(false, |o| o.is_one() && m_from(o.unwrap_one()) == *m), "block-lookup", || format!("merged block {:?}", l));
                    rec.check(k.len() == b.len() && k.keys().all(|l| entries.iter().any(|(e, _)| e.iter().map(String::as_str).eq(l.iter().cloned()))), "block-lookup", || {
                        format!("keys of a merged block {:?}", k.keys().collect::<Vec<_>>())
                    });
                }
            }
        }
    }
    // Body elements
    if i % 4 == 0 {
        rec.count("body_elements");
        let attr = (Cow::from("a"), Expression::from(i));
        let el = BodyElement::from(attr.clone());
        let b = AstBlock::new_one_line(Cow::from("t"), vec![BlockLabel::from("x")], if i % 8 == 0 { Some(attr.clone()) } else { None });
        let bl = BodyElement::from(b.clone());
        rec.check(el.is_attribute() && !el.is_block() && bl.is_block() && !bl.is_attribute(), "body-element", || "is_attribute or is_block".to_string());
        rec.check(el.clone().unwrap_attribute() == attr && bl.clone().unwrap_block() == b, "body-element", || "unwrapping".to_string());
        rec.check(guard(|| el.clone().unwrap_block()).is_err() && guard(|| bl.clone().unwrap_attribute()).is_err(), "body-element", || "unwrapping the other".to_string());
        let body = if i % 8 == 0 { vec![BodyElement::from(attr)] } else { vec![] };
        rec.check(b.body == body && b == AstBlock::new(Cow::from("t"), vec![BlockLabel::from("x")], body.clone()), "body-element", || "one line block".to_string());
    }
}

// ---------------------------------------------------------------------------------------------
// C21: keys are their text

pub static C21: Prop = Prop {
    id: "C21",
    rule: "Labels, map keys and object keys are made with every spelling (quoted, bare; borrowed, owned; built, parsed) from a pool of few texts and compared pairwise: equal exactly when their text is, hashing alike when equal, comparing with plain text alike, found in hash maps and sets by plain text and by any other spelling, absent texts never found; an expression used as a key is found by its spelling. Non-trivial: a pool with at least two texts; distinct by pool.",
    cases: (300_000, 3_000_000),
    threads: 8,
    run: run_c21,
    need: &["label_pairs", "label_lookups", "map_key_lookups", "object_key_lookups", "absent_lookups", "parsed_spellings", "expression_keys", "near_misses"],
    exhaustive: false,
};

/// The text of a key that is an expression is its spelling
fn expression_keys(r: &mut Rng, rec: &mut Rec, pool: &[String]) {
    let mut exprs: Vec<String> = pool.iter().map(|t| gen::quote(r, t, false, true)).collect();
    exprs.push(r.pick(&["(true)", "(1)", "1", "1.5", "[1]", "(\"a\")", "({})", "\"a b\"", "true", "null", "-1", "{a = 1}"]).to_string());
    exprs.sort();
    exprs.dedup();
    let text = format!("{{{}}}", exprs.iter().map(|t| format!("{} = 1", t)).collect::<Vec<_>>().join(","));
    rec.input(&text);
    let o = match Expression::parse(&text) {
        Ok(Expression::Object(o)) if o.len() == exprs.len() => o,
        o => return rec.fail("object-key", format!("keys that are expressions: {:?}", o.map(|_| ()))),
    };
    let map: HashMap<ObjectElementIdentifier, usize> = o.iter().enumerate().map(|(i, (k, _))| (k.as_owned(), i)).collect();
    rec.check(map.len() == exprs.len(), "object-key", || format!("{} entries for {:?}", map.len(), exprs));
    for (i, ((k, _), t)) in o.iter().zip(&exprs).enumerate() {
        if let ObjectElementIdentifier::Expression(x) = k {
            rec.count("expression_keys");
            let b: &str = std::borrow::Borrow::borrow(k);
            rec.check(b == &x[..] && x.trim() == t, "object-key", || format!("{:?}, written {:?}, is looked up as {:?}", k, t, b));
            rec.check(hash_of(k) == hash_of(&x[..]) && hash_of(&k.as_owned()) == hash_of(k), "object-key", || format!("{:?} hashes unlike its text", k));
            rec.check(map.get(&x[..]) == Some(&i) && map.get(k) == Some(&i), "object-key", || format!("{:?} is not found by its spelling", k));
            // What it evaluates to is another text
            for u in pool {
                let found = map.get(u.as_str()).map(|j| std::borrow::Borrow::<str>::borrow(&o[*j].0));
                rec.check(found.map_or(true, |f| f == u), "object-key", || format!("{:?} finds {:?}", u, found));
            }
        }
        for (j, (l, _)) in o.iter().enumerate() {
            rec.check((k == l) == (i == j) && (k == &l.as_owned()) == (i == j), "object-key", || format!("{:?} == {:?}", k, l));
        }
    }
}

fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn run_c21(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    rec.eval();
    let n = r.range(1, 5);
    let mut pool: Vec<String> = (0..n)
        .map(|_| match r.below(4) {
            0 => gen::label_text(r),
            1 => r.pick(&["a", "A", "a ", "", "\"a\"", "a-b", "藏", "é", "e\u{301}", "null", "true", "1"]).to_string(),
            _ => gen::ident(r),
        })
        .collect();
    // Something that is nearly the same
    for _ in 0..2 {
        let t = pool[r.below(pool.len())].clone();
        let near = gen::near_misses(r, &t);
        if !near.is_empty() {
            pool.push(near[r.below(near.len())].clone());
            rec.count("near_misses");
        }
    }
    pool.sort();
    pool.dedup();
    let shown = format!("{:?}", pool);
    rec.input(&shown);
    if pool.len() > 1 {
        rec.nontrivial(shown.as_bytes());
    }
    if i < 10 {
        rec.sample(&shown);
    }
    // Labels
    let spell = |t: &String, k: usize| -> BlockLabel<'static> {
        match k {
            0 => BlockLabel::StringLiteral(t.clone()),
            1 => BlockLabel::Identifier(Cow::Owned(t.clone())),
            _ => {
                let b: BlockLabel = BlockLabel::from(t.as_str());
                b.as_owned()
            }
        }
    };
    let mut labels: Vec<(String, BlockLabel)> = pool.iter().flat_map(|t| (0..3).map(move |k| (t.clone(), spell(t, k)))).collect();
    // Parsed ones
    for t in &pool {
        let q = gen::quote(r, t, false, true);
        let text = format!("t {} {{}}\n", q);
        match ferrous_chloride::parse_str(&text) {
            Ok(b) => match b.first() {
                Some(BodyElement::Block(b)) if b.labels.len() == 1 => {
                    labels.push((t.clone(), b.labels[0].as_owned()));
                    rec.count("parsed_spellings");
                }
                _ => rec.fail("labels", format!("{:?} is no block with one label", text)),
            },
            Err(e) => rec.fail("labels", format!("{:?}: {}", text, e)),
        }
    }
    for (t, a) in &labels {
        rec.check(a.as_str() == t && a.as_cow() == t.as_str(), "label-text", || format!("{:?} as text is {:?}", a, a.as_str()));
        for (u, b) in &labels {
            rec.count("label_pairs");
            let same = t == u;
            rec.check((a == b) == same, "label-equality", || format!("{:?} == {:?} is {}", a, b, a == b));
            rec.check((a == u) == same && (*a == u.as_str()) == same, "label-equality", || format!("{:?} == text {:?} should be {}", a, u, same));
            if same {
                rec.check(hash_of(a) == hash_of(b) && hash_of(a) == hash_of(u.as_str()), "label-hash", || format!("{:?} and {:?} hash differently", a, b));
            }
        }
    }
    let distinct: BTreeSet<&String> = pool.iter().collect();
    let set: HashSet<&BlockLabel> = labels.iter().map(|l| &l.1).collect();
    rec.check(set.len() == distinct.len(), "label-set", || format!("a set of {} labels for {} texts", set.len(), distinct.len()));
    let map: HashMap<BlockLabel, &String> = labels.iter().map(|(t, l)| (l.clone(), t)).collect();
    for (t, l) in &labels {
        rec.count("label_lookups");
        rec.check(map.get(t.as_str()) == Some(&t) && map.get(l) == Some(&t), "label-lookup", || format!("{:?} not found", l));
    }
    // Keys of legacy maps, parsed in both spellings
    let bare_ok = |s: &str| {
        let mut c = s.chars();
        c.next().map_or(false, |f| unic_ucd_ident::is_id_start(f) || f == '_') && c.all(|c| unic_ucd_ident::is_id_continue(c) || c == '-')
    };
    let mut text = String::new();
    let mut want: Vec<(String, i64)> = vec![];
    for (k, t) in distinct.iter().enumerate() {
        for spelling in 0..2 {
            let id = (2 * k + spelling) as i64;
            let key = if spelling == 0 && bare_ok(t) { t.to_string() } else { gen::quote(r, t, false, true) };
            text.push_str(&format!("{} = {}\n", key, id));
            want.push((t.to_string(), id));
        }
    }
    rec.input(&text);
    match value::from_str(&text, None) {
        Ok(m) => {
            for t in &distinct {
                rec.count("map_key_lookups");
                let all: Vec<i64> = m.get(t.as_str()).map(|v| v.iter().filter_map(|v| v.integer().ok()).collect()).unwrap_or_default();
                let w: Vec<i64> = want.iter().filter(|e| e.0 == **t).map(|e| e.1).collect();
                rec.check(all == w, "key-lookup", || format!("{:?}: {:?}, expected {:?}", t, all, w));
                rec.check(m.get_single(t.as_str()).and_then(|v| v.integer().ok()) == w.first().copied(), "key-lookup", || format!("first of {:?}", t));
            }
            rec.count("absent_lookups");
            rec.check(m.get("no such key").is_none() && m.get_single("no such key").is_none(), "key-lookup", || "absent key found".into());
            let keys: Vec<_> = m.keys().collect();
            for (a, (t, _)) in keys.iter().zip(&want) {
                for (b, (u, _)) in keys.iter().zip(&want) {
                    rec.check((a == b) == (t == u), "key-equality", || format!("{:?} == {:?} is {}", a, b, a == b));
                    if t == u {
                        rec.check(hash_of(*a) == hash_of(*b) && hash_of(*a) == hash_of(t.as_str()), "key-hash", || format!("{:?} and {:?}", a, b));
                    }
                }
            }
            // Merged: every key once
            let one: Vec<_> = m.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, e)| e).collect();
            match MapValues::new_merged(one) {
                Ok(m) => {
                    for (t, id) in want.iter().step_by(2) {
                        rec.check(m.get_single(t.as_str()).and_then(|v| v.integer().ok()) == Some(*id), "key-lookup", || format!("merged: {:?}", t));
                    }
                    rec.check(m.get_single("no such key").is_none(), "key-lookup", || "absent key found".into());
                }
                Err(e) => rec.fail("key-lookup", format!("merging distinct keys: {}", e)),
            }
        }
        Err(e) => rec.fail("keys", e.to_string()),
    }
    // Keys of objects
    let bare: Vec<&String> = distinct.iter().filter(|t| bare_ok(t)).copied().collect();
    let o = Expression::new_object(bare.iter().map(|t| (t.as_str(), Expression::Null)));
    let text = format!("{{{}}}", bare.iter().map(|t| format!("{} = null", t)).collect::<Vec<_>>().join(","));
    rec.input(&text);
    match (Expression::parse(&text), o) {
        (Ok(Expression::Object(p)), Expression::Object(o)) => {
            rec.check(p == o, "object-key", || format!("parsed {:?}, built {:?}", p, o));
            let map: HashMap<ObjectElementIdentifier, Expression> = p.iter().cloned().collect();
            for ((k, _), t) in o.iter().zip(&bare) {
                rec.count("object_key_lookups");
                rec.check(map.contains_key(t.as_str()) && map.contains_key(k), "object-key", || format!("{:?} not found", t));
                rec.check(*k == t.as_str() && k.as_str() == t.as_str(), "object-key", || format!("{:?} as text", k));
                for u in &pool {
                    rec.check((*k == u.as_str()) == (*t == u), "object-key", || format!("{:?} == {:?}", k, u));
                }
            }
            rec.check(!map.contains_key("no such key") && map.len() == bare.len(), "object-key", || "absent key found".into());
        }
        (e, _) => rec.fail("object-key", format!("{:?}", e.map(|_| ()))),
    }
    expression_keys(r, rec, &pool);
}
