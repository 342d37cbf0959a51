//! C11: grouping blocks by type and labels loses, duplicates and reorders nothing
use crate::frame::{Env, Prop, Rec};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use ferrous_chloride::parser::block::{Block, BlockBody, BlockLabel, Blocks};
use ferrous_chloride::parser::body::{Body, BodyElement};
use ferrous_chloride::parser::Expression;
use ferrous_chloride::AsOwned;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::iter::FromIterator;

pub static C11: Prop = Prop {
    id: "C11",
    rule: "A random history of blocks (few types and labels, 0 to 6 labels each, quoted or bare; now and then up to 700 blocks, 400 labels, 200 types or 40 labels a block; each body holds a unique number, or in some histories bodies are empty or repeat; built by hand or parsed from a document in which they are interleaved with attributes) is grouped: all at once, by collecting, by appending one after the other, by extending in random portions. The groups are compared with a reference multimap of (type, labels) to the numbers in source order: lookups of every present and many absent prefixes, counts, label lengths, both flattened iterators, changes made through each mutable access. Non-trivial: a history in which a type or a label path occurs at least twice; distinct by the history.",
    cases: (80_000, 900_000),
    threads: 8,
    run,
    need: &["groupings", "lookups", "lookups_absent", "flattened", "mutated", "from_documents", "mixed_label_lengths", "uniform_label_lengths", "quoted_and_bare_same_text", "empty_bodies", "repeated_bodies", "large", "edge_sizes", "odd_ones_out", "both_lookups", "label_kinds"],
    exhaustive: false,
};

#[derive(Clone, Debug)]
struct B {
    ty: String,
    labels: Vec<(bool, String)>,
    id: u64,
}

type Path = (String, Vec<String>);
/// Stands for a body without elements
const EMPTY: u64 = u64::max_value();
/// (type, labels) to the numbers in order
type Multi = BTreeMap<Path, Vec<u64>>;

fn texts(b: &B) -> Vec<String> {
    b.labels.iter().map(|l| l.1.clone()).collect()
}

fn multi(bs: &[B]) -> Multi {
    let mut m = Multi::new();
    for b in bs {
        m.entry((b.ty.clone(), texts(b))).or_default().push(b.id);
    }
    m
}

fn id_of(b: &Body) -> u64 {
    match b.first() {
        Some(BodyElement::Attribute((n, Expression::Number(x)))) if *n == "id" => x.as_u64().unwrap_or(u64::max_value()),
        _ => u64::max_value(),
    }
}

fn label<'a>(l: &(bool, String)) -> BlockLabel<'a> {
    if l.0 {
        BlockLabel::StringLiteral(l.1.clone())
    } else {
        BlockLabel::Identifier(Cow::Owned(l.1.clone()))
    }
}

fn build<'a>(b: &B) -> Block<'a> {
    let mut body: Body = vec![];
    if b.id != EMPTY {
        body.push(From::from((Cow::from("id"), Expression::from(b.id))));
    }
    if b.id != EMPTY && b.id % 3 == 0 {
        body.push(From::from((Cow::from("x"), Expression::from("y"))));
    }
    Block::new(Cow::Owned(b.ty.clone()), b.labels.iter().map(label).collect(), body)
}

fn source(r: &mut Rng, bs: &[B]) -> String {
    let d: Doc = bs
        .iter()
        .flat_map(|b| {
            let mut body = vec![];
            if b.id != EMPTY {
                body.push(El::Attr("id".into(), E::Num(b.id.to_string())));
            }
            if b.id != EMPTY && b.id % 3 == 0 {
                body.push(El::Attr("x".into(), E::Str("y".into())));
            }
            let bl = El::Block(Bl {
                ty: b.ty.clone(),
                labels: b
                    .labels
                    .iter()
                    .map(|l| L {
                        quoted: l.0,
                        text: l.1.clone(),
                    })
                    .collect(),
                body,
            });
            if b.id % 4 == 1 {
                vec![El::Attr(b.ty.clone(), E::Bool(true)), bl]
            } else {
                vec![bl]
            }
        })
        .collect();
    let wild = r.one_in(2);
    let st = gen::Style { wild, ..gen::Style::WILD };
    gen::render(r, &d, st).0
}

fn run(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let nty = r.range(1, 4);
    // Now and then many blocks: of few paths, of many labels, or with many labels each
    let edge = i % 150 == 11;
    let large = if edge { 1 + (i / 150) as usize % 3 } else if r.one_in(60) { 1 + r.below(4) } else { 0 };
    if large > 0 {
        rec.count("large");
    }
    let (nty, nlab) = match large {
        1 => (1, 1),
        2 => (nty, r.range(200, 600)),
        3 => (r.range(4, 200), 4),
        _ => (nty, r.range(1, 4)),
    };
    let maxlab = if large == 4 { 40 } else if large > 0 { 1 } else if r.one_in(10) { 6 } else { 3 };
    let sizes = gen::edge_sizes();
    if edge {
        rec.count("edge_sizes");
    }
    let n = if edge { sizes[(i / 450) as usize % sizes.len()] } else if large == 4 { r.below(30) } else if large > 0 { r.range(100, 900) } else if r.one_in(30) { r.size(200) } else { r.below(14) };
    let uniform = if r.one_in(3) { Some(r.below(maxlab + 1)) } else { None };
    let texts_pool: Vec<String> = (0..nlab)
        .map(|k| match (k, r.below(6)) {
            (0, 0) => "".to_string(),
            (1, 0) => "a b".to_string(),
            (_, 1) => gen::ident(r),
            (_, 2) => gen::label_text(r),
            _ => ["x", "y", "z", "w"].get(k).map_or_else(|| format!("x{}", k), |s| s.to_string()),
        })
        .collect();
    let tys: Vec<String> = (0..nty).map(|k| if r.one_in(5) { gen::ident(r) } else { ["t", "u", "x", "v"].get(k).map_or_else(|| format!("t{}", k), |s| s.to_string()) }).collect();
    let bare_ok = |s: &str| -> bool {
        let mut c = s.chars();
        match c.next() {
            None => false,
            Some(f) => {
                (unic_ucd_ident::is_id_start(f) || f == '_')
                    && c.all(|c| unic_ucd_ident::is_id_continue(c) || c == '-')
            }
        }
    };
    // Most histories number the bodies, some repeat bodies or leave them empty
    let mode = r.below(6);
    let mut bs: Vec<B> = vec![];
    for k in 0..n {
        let id = match mode {
            0 => [0, 1, EMPTY][r.below(3)],
            1 if r.one_in(2) => EMPTY,
            _ => k as u64,
        };
        if id == EMPTY {
            rec.count("empty_bodies");
        } else if id != k as u64 {
            rec.count("repeated_bodies");
        }
        // Repeat an earlier path often
        if k > 0 && r.one_in(3) {
            let mut b = bs[r.below(k)].clone();
            b.id = id;
            if r.one_in(2) {
                for l in b.labels.iter_mut() {
                    if bare_ok(&l.1) {
                        l.0 = !l.0;
                        rec.count("quoted_and_bare_same_text");
                    }
                }
            }
            bs.push(b);
            continue;
        }
        let m = uniform.unwrap_or_else(|| r.below(maxlab + 1));
        bs.push(B {
            ty: tys[r.below(nty)].clone(),
            labels: (0..m)
                .map(|_| {
                    let t = texts_pool[r.below(nlab)].clone();
                    (!bare_ok(&t) || r.one_in(2), t)
                })
                .collect(),
            id,
        });
    }
    if n > 0 && uniform.is_some() && r.one_in(3) {
        // All but one have the same number of labels
        let b = &mut bs[r.below(n)];
        if b.labels.is_empty() || r.one_in(2) {
            b.labels.push((true, "odd".to_string()));
        } else {
            b.labels.pop();
        }
        rec.count("odd_ones_out");
    }
    let hist = format!("{:?} bodies {}", bs.iter().map(|b| (&b.ty, &b.labels)).collect::<Vec<_>>(), mode.min(2));
    rec.input(&hist);
    rec.eval();
    let want = multi(&bs);
    if want.len() < bs.len() {
        rec.nontrivial(hist.as_bytes());
    }
    if i < 20 {
        rec.sample(&hist);
    }
    // Where the blocks come from
    let text;
    let built: Vec<Block> = if r.one_in(3) {
        text = source(r, &bs);
        match ferrous_chloride::parse_str(&text) {
            Ok(b) => {
                rec.count("from_documents");
                b.into_iter().filter(BodyElement::is_block).map(BodyElement::unwrap_block).collect()
            }
            Err(e) => return rec.fail("rejected", format!("{}\n{}", e, text)),
        }
    } else {
        bs.iter().map(build).collect()
    };
    let all = Blocks::new(built.clone());
    let collected = Blocks::from_iter(built.clone());
    let k = r.below(built.len() + 1);
    let mut appended = Blocks::new(built[..k].to_vec());
    for b in &built[k..] {
        appended.append(b.clone());
    }
    let mut extended = Blocks::new(vec![]);
    let mut at = 0;
    while at < built.len() {
        let e = (at + r.range(1, 4)).min(built.len());
        extended.extend(built[at..e].to_vec());
        at = e;
    }
    rec.add("groupings", 4);
    for (name, g) in &[("collecting", &collected), ("appending", &appended), ("extending", &extended)] {
        rec.check(**g == all, "construction", || format!("{} yields other groups than all at once", name));
    }
    let names = ["new", "collect", "append", "extend"];
    for (name, g) in names.iter().zip(&[&all, &collected, &appended, &extended]) {
        if !verify(r, rec, name, g, &bs, &want, &texts_pool) {
            return;
        }
    }
    mutate(r, rec, extended, &bs, &want);
}

/// What a flattened iterator yields, as a multimap
fn tally(items: Vec<(String, Vec<String>, u64)>) -> Multi {
    let mut m = Multi::new();
    for (t, l, id) in items {
        m.entry((t, l)).or_default().push(id);
    }
    m
}

fn show(a: &Multi, b: &Multi) -> String {
    diff_text(&format!("{:?}", a), &format!("{:?}", b))
}

fn verify(r: &mut Rng, rec: &mut Rec, name: &str, g: &Blocks, bs: &[B], want: &Multi, pool: &[String]) -> bool {
    let before = rec.nfails;
    let types: BTreeSet<&String> = bs.iter().map(|b| &b.ty).collect();
    rec.check(g.len() == types.len(), "counts", || format!("{}: {} types, len {}", name, types.len(), g.len()));
    rec.check(g.is_empty() == types.is_empty(), "counts", || format!("{}: is_empty", name));
    rec.check(g.len_blocks() == bs.len(), "counts", || format!("{}: {} blocks, len_blocks {}", name, bs.len(), g.len_blocks()));
    let seen: BTreeSet<String> = g.iter().map(|(t, _)| t.to_string()).collect();
    rec.check(seen.iter().collect::<BTreeSet<_>>() == types && g.iter().count() == types.len(), "counts", || format!("{}: types {:?}", name, seen));
    let seen2: BTreeSet<String> = (&*g).into_iter().map(|(t, _)| t.to_string()).collect();
    rec.check(seen == seen2, "counts", || "iterating by reference differs".to_string());
    // Flattened
    {
        let o: &Blocks<'static> = &*Box::leak(Box::new(g.as_owned_blocks()));
        let items = o.flat_iter().map(|(t, l, b)| (t.to_string(), l.iter().map(|s| s.to_string()).collect(), id_of(b))).collect();
        let m = tally(items);
        rec.check(m == *want, "flat-iter", || format!("{}: {}", name, show(want, &m)));
        // give the memory back
        unsafe { drop(Box::from_raw(o as *const Blocks<'static> as *mut Blocks<'static>)) };
    }
    let items = g.clone().flat_into_iter().map(|(t, l, b)| (t.to_string(), l.iter().map(|s| s.to_string()).collect(), id_of(&b))).collect();
    let m = tally(items);
    rec.check(m == *want, "flat-into-iter", || format!("{}: {}", name, show(want, &m)));
    rec.add("flattened", 2);
    // Label lengths per type
    let lens: BTreeMap<String, BTreeSet<usize>> = types
        .iter()
        .map(|t| ((*t).clone(), bs.iter().filter(|b| b.ty == **t).map(|b| b.labels.len()).collect()))
        .collect();
    let got: BTreeMap<String, BTreeSet<usize>> = g.label_lens().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    rec.check(got == lens, "label-lens", || format!("{}: {:?} expected {:?}", name, got, lens));
    let got: BTreeMap<String, Option<usize>> = g.label_lens_uniform().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    let isu: BTreeMap<String, bool> = g.is_label_lens_uniform().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    for (t, l) in &lens {
        let w = if l.len() == 1 { l.iter().next().copied() } else { None };
        rec.count(if w.is_some() { "uniform_label_lengths" } else { "mixed_label_lengths" });
        rec.check(got.get(t) == Some(&w), "label-lens", || format!("{}: uniform {:?} of {:?}, label lengths {:?}", name, got.get(t), t, l));
        rec.check(isu.get(t) == Some(&w.is_some()), "label-lens", || format!("{}: is uniform {:?} of {:?}, label lengths {:?}", name, isu.get(t), t, l));
    }
    rec.check(got.len() == lens.len() && isu.len() == lens.len(), "label-lens", || format!("{}: number of types", name));
    // Lookups: every prefix of every path, and absent ones
    let mut paths: BTreeSet<Path> = BTreeSet::new();
    for b in bs.iter().take(60) {
        let t = texts(b);
        for k in 0..=t.len() {
            paths.insert((b.ty.clone(), t[..k].to_vec()));
        }
        let mut longer = t.clone();
        longer.push(pool[r.below(pool.len())].clone());
        paths.insert((b.ty.clone(), longer));
        if !t.is_empty() {
            let mut other = t.clone();
            let k = r.below(other.len());
            other[k] = pool[r.below(pool.len())].clone();
            paths.insert((b.ty.clone(), other));
            paths.insert((b.ty.clone(), t[1..].to_vec()));
        }
        paths.insert((format!("{}_", b.ty), t));
    }
    paths.insert(("absent".into(), vec![]));
    for (ty, labels) in &paths {
        let below: Vec<&B> = bs.iter().filter(|b| b.ty == *ty && texts(b).starts_with(labels)).collect();
        let got = g.get(ty, labels);
        let got2: Option<&BlockBody> = g.get(ty.as_str(), &labels.iter().map(String::as_str).collect::<Vec<_>>());
        rec.check(got == got2, "lookup", || "lookup by &str and String differ".to_string());
        if below.is_empty() {
            rec.check(got.is_none(), "lookup-absent", || format!("{}: {:?} {:?} is not there, but found", name, ty, labels));
            rec.count("lookups_absent");
            continue;
        }
        rec.count("lookups");
        let got = match got {
            None => {
                rec.fail("lookup", format!("{}: {:?} {:?} is there, but not found", name, ty, labels));
                continue;
            }
            Some(g) => g,
        };
        let what = || format!("{}: {:?} {:?}", name, ty, labels);
        let depth = labels.len();
        rec.check(got.len_blocks() == below.len(), "lookup", || format!("{}: {} blocks, len_blocks {}", what(), below.len(), got.len_blocks()));
        let exact: Vec<u64> = below.iter().filter(|b| b.labels.len() == depth).map(|b| b.id).collect();
        let empty: Vec<u64> = got.get_empty().iter().map(id_of).collect();
        rec.check(exact == empty, "lookup", || format!("{}: bodies {:?}, expected {:?}", what(), empty, exact));
        let bodies: Vec<Body> = below.iter().filter(|b| b.labels.len() == depth).map(|b| build(b).body).collect();
        rec.check(exact != empty || got.get_empty() == &bodies[..], "lookup", || format!("{}: bodies {:?}, expected {:?}", what(), got.get_empty(), bodies));
        let next: BTreeSet<String> = below.iter().filter(|b| b.labels.len() > depth).map(|b| b.labels[depth].1.clone()).collect();
        rec.check(got.has_further_labels() == !next.is_empty(), "lookup", || format!("{}: has_further_labels", what()));
        let further: BTreeSet<String> = got
            .get_labels()
            .map(|m| m.keys().map(|k| k.as_str().to_string()).collect())
            .unwrap_or_default();
        rec.check(further == next && got.get_labels().map_or(0, |m| m.len()) == next.len(), "lookup", || format!("{}: further labels {:?}, expected {:?}", what(), further, next));
        for t in &next {
            let a = got.get_labels().and_then(|m| m.get(t.as_str()));
            rec.check(a.is_some() && a == got.get(&[t]), "lookup", || format!("{}: label {:?} by text", what(), t));
            // A label stays as quoted or bare as one of those put in
            if let Some((key, _)) = got.get_labels().and_then(|m| m.get_key_value(t.as_str())) {
                let quoted = match key {
                    BlockLabel::StringLiteral(_) => true,
                    BlockLabel::Identifier(_) => false,
                };
                rec.count("label_kinds");
                rec.check(
                    below.iter().any(|b| b.labels.len() > depth && b.labels[depth] == (quoted, t.clone())),
                    "label-kind",
                    || format!("{}: label {:?} is quoted: {}, none put in is", what(), t, quoted),
                );
            }
        }
        let l: BTreeSet<usize> = below.iter().map(|b| b.labels.len() - depth).collect();
        rec.check(got.label_lens() == l, "label-lens", || format!("{}: {:?} expected {:?}", what(), got.label_lens(), l));
        let w = if l.len() == 1 { l.iter().next().copied() } else { None };
        rec.check(got.label_lens_uniform() == w && got.is_label_lens_uniform() == w.is_some(), "label-lens", || {
            format!("{}: uniform {:?} expected {:?}", what(), got.label_lens_uniform(), w)
        });
        let items: Vec<(String, Vec<String>, u64)> = got
            .clone()
            .flat_into_iter()
            .map(|(l, b)| (String::new(), l.iter().map(|s| s.to_string()).collect(), id_of(&b)))
            .collect();
        let w: Multi = tally(below.iter().map(|b| (String::new(), texts(b)[depth..].to_vec(), b.id)).collect());
        let m = tally(items);
        rec.check(m == w, "flat-into-iter", || format!("{}: {}", what(), show(&w, &m)));
    }
    rec.nfails == before
}

fn mark<'a>(b: &mut Body<'a>, v: u64) {
    b.push(From::from((Cow::from("mark"), Expression::from(v))));
}

fn marks(b: &Body) -> Vec<u64> {
    b.iter()
        .filter_map(|e| match e {
            BodyElement::Attribute((n, Expression::Number(x))) if *n == "mark" => x.as_u64().ok(),
            _ => None,
        })
        .collect()
}

/// Changes through mutable accesses stick, and touch nothing else
fn mutate(r: &mut Rng, rec: &mut Rec, mut g: Blocks, bs: &[B], want: &Multi) {
    if bs.is_empty() {
        return;
    }
    // One place by lookup
    let b = &bs[r.below(bs.len())];
    let labels = texts(b);
    let hit: Option<Vec<u64>> = match g.get_mut(&b.ty, &labels) {
        None => None,
        Some(body) => match body {
            BlockBody::Body(ref mut v) => {
                v.iter_mut().for_each(|b| mark(b, 7));
                Some(v.iter().map(|b| id_of(b)).collect())
            }
            BlockBody::Labels { ref mut empty, .. } => {
                empty.iter_mut().for_each(|b| mark(b, 7));
                Some(empty.iter().map(|b| id_of(b)).collect())
            }
        },
    };
    let path = (b.ty.clone(), labels);
    rec.check(hit.as_ref() == want.get(&path), "get-mut", || format!("{:?}: {:?} expected {:?}", path, hit, want.get(&path)));
    // Either lookup finds the same, also half way and beyond
    for _ in 0..6.min(bs.len()) {
        let b = &bs[r.below(bs.len())];
        let mut path: Vec<String> = texts(b);
        let keep = r.below(path.len() + 1);
        path.truncate(keep);
        if r.one_in(6) {
            path.push(r.pick(&["no such label", "", "a", "odd"]).to_string());
        }
        rec.count("both_lookups");
        let one = g.get(&b.ty, &path).cloned();
        let other = g.get_mut(&b.ty, &path).map(|b| b.clone());
        rec.check(one == other, "get-mut", || format!("{} {:?}: get {:?}, get_mut {:?}", b.ty, path, one.is_some(), other.is_some()));
        if let Some(mut body) = g.get(&b.ty, &path[..0]).cloned() {
            let one = body.get(&path).cloned();
            let other = body.get_mut(&path).map(|b| b.clone());
            rec.check(one == other, "get-mut", || format!("body of {} {:?}: get {:?}, get_mut {:?}", b.ty, path, one.is_some(), other.is_some()));
        }
    }
    let absent: Option<&mut BlockBody> = g.get_mut("no such type", &["x"]);
    rec.check(absent.is_none(), "get-mut", || "found what is not there".to_string());
    // All places, by iterating
    for (_, body) in g.iter_mut() {
        let n = body.len_blocks();
        if n == 0 {
            rec.fail("iter-mut", "an empty group");
        }
    }
    let items: Vec<(Path, u64, Vec<u64>)> = {
        let o: *mut Blocks<'static> = Box::into_raw(Box::new(g.as_owned_blocks()));
        let mut k = 0;
        let visited: Vec<(Path, u64)> = unsafe { &mut *o }
            .flat_iter_mut()
            .map(|(t, l, b)| {
                let id = id_of(b);
                mark(b, id.wrapping_add(100));
                k += 1;
                ((t.to_string(), l.iter().map(|s| s.to_string()).collect()), id)
            })
            .collect();
        let m = tally(visited.into_iter().map(|((t, l), id)| (t, l, id)).collect());
        rec.check(m == *want, "flat-iter-mut", || show(want, &m));
        let o = unsafe { Box::from_raw(o) };
        o.flat_into_iter()
            .map(|(t, l, b)| ((t.to_string(), l.iter().map(|s| s.to_string()).collect()), id_of(&b), marks(&b)))
            .collect()
    };
    for (p, id, ms) in &items {
        let mut w = vec![];
        if *p == path {
            w.push(7);
        }
        w.push(id.wrapping_add(100));
        rec.check(*ms == w, "mutation", || format!("{:?} body {}: marks {:?}, expected {:?}", p, id, ms, w));
        rec.count("mutated");
    }
    rec.check(items.len() == bs.len(), "mutation", || format!("{} bodies, expected {}", items.len(), bs.len()));
}

trait AsOwnedBlocks {
    fn as_owned_blocks(&self) -> Blocks<'static>;
}

impl<'a> AsOwnedBlocks for Blocks<'a> {
    /// The same groups, made of owned pieces (the flattened iterators borrow for as long as the
    /// content lives)
    fn as_owned_blocks(&self) -> Blocks<'static> {
        fn walk<'a>(labels: &[BlockLabel<'static>], b: &BlockBody<'a>, ty: &str, out: &mut Vec<Block<'static>>) {
            for body in b.get_empty() {
                out.push(Block::new(Cow::Owned(ty.to_string()), labels.to_vec(), body.as_owned()));
            }
            if let Some(m) = b.get_labels() {
                for (l, nested) in m {
                    let mut labels = labels.to_vec();
                    labels.push(l.as_owned());
                    walk(&labels, nested, ty, out);
                }
            }
        }
        let mut out = vec![];
        for (t, b) in self.iter() {
            walk(&[], b, t, &mut out);
        }
        Blocks::new(out)
    }
}
