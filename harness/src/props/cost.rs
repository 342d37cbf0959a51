//! C18: what reading costs; C22: what stays behind
use super::exercise as ex;
use super::total;
use crate::alloc;
use crate::anyv::A;
use crate::frame::{thread_cpu, Env, Prop, Rec};
use crate::gen::{self, Dialect, GenCfg, Style};
use crate::rng::Rng;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::{value, AsOwned, MergeBehaviour};
use std::sync::atomic::{AtomicI64, Ordering};

pub static C18: Prop = Prop {
    id: "C18",
    rule: "Families of documents (elements, blocks, labels, tuples, objects, strings, escapes, heredocs, comments, white space, digits; closed, unclosed, ending in an error; nests of 5 to 100 levels of every and of mixed kinds) are read by each interface at growing sizes with a counting allocator under it: the bytes allocated may not exceed a constant per input byte, nor more than follow the length (or its square, in depth), and the processor time not more than the square of the length. Generated and mutated documents and token soup get the same constant. Non-trivial: every measured reading; distinct by interface and text.",
    cases: (30_000, 600_000),
    threads: 6,
    run: run_c18,
    need: &["measured", "flat_families", "nest_families", "mixed_nests", "random_documents", "mutated_documents", "accepted", "rejected", "times_judged"],
    exhaustive: false,
};

/// The interfaces measured
const READ: &[(&str, fn(&str) -> bool)] = &[
    ("parse_str", |s| ferrous_chloride::parse_str(s).is_ok()),
    ("value", |s| value::from_str(s, None).is_ok()),
    ("value merged", |s| value::from_str(s, Some(MergeBehaviour::Error)).is_ok()),
    ("serde", |s| ferrous_chloride::from_str::<A>(s).is_ok()),
    ("owned", |s| match ferrous_chloride::parse_str(s) {
        Ok(b) => {
            let o = b.as_owned();
            drop(b);
            ex::use_blocks(&o);
            o.iter().count();
            true
        }
        Err(_) => false,
    }),
    ("reader", |s| ferrous_chloride::parse_reader(s.as_bytes()).is_ok()),
    ("value owned", |s| match value::from_reader(s.as_bytes(), None) {
        Ok(m) => {
            let o = m.as_owned().unmerge();
            o == m
        }
        Err(_) => false,
    }),
    ("expression", |s| Expression::parse(s).is_ok()),
    ("error text", |s| match ferrous_chloride::parse_str(s) {
        Ok(_) => true,
        Err(e) => {
            let _ = e.to_string().len();
            false
        }
    }),
];

struct Cost {
    ok: bool,
    bytes: u64,
    peak: u64,
    cpu: f64,
}

fn measure(f: fn(&str) -> bool, s: &str) -> Cost {
    let a = alloc::heap();
    alloc::reset_peak();
    let t = thread_cpu();
    let ok = f(s);
    let cpu = thread_cpu() - t;
    let b = alloc::heap();
    Cost {
        ok,
        bytes: b.bytes - a.bytes,
        peak: (b.peak - a.live).max(0) as u64,
        cpu,
    }
}

type Family = (&'static str, fn(usize) -> String);

/// Length proportional to the argument, no nesting
const FLAT: &[Family] = &[
    ("attributes", |n| (0..n).map(|i| format!("k{} = {}\n", i, i)).collect()),
    ("strings", |n| (0..n).map(|i| format!("k{} = \"v{}\"\n", i, i)).collect()),
    ("blocks, one type", |n| (0..n).map(|i| format!("b \"l{}\" {{\nx = 1\n}}\n", i)).collect()),
    ("blocks, many types", |n| (0..n).map(|i| format!("b{} {{\nx = 1\n}}\n", i)).collect()),
    ("blocks, no labels", |n| "b {\nx = 1\n}\n".repeat(n)),
    ("one-line blocks", |n| (0..n).map(|i| format!("b \"l{}\" {{ x = 1 }}\n", i)).collect()),
    ("blocks, shared labels", |n| (0..n).map(|i| format!("b \"a\" \"b\" \"{}\" {{\n}}\n", i % 7)).collect()),
    ("two types by turns", |n| (0..n).map(|i| format!("b{} \"{}\" {{\n}}\n", i % 2, i)).collect()),
    ("labels", |n| format!("b {} {{\n}}\n", (0..n).map(|i| format!("\"l{}\" ", i)).collect::<String>())),
    ("labels, unfinished", |n| format!("b {}\n", "\"l\" ".repeat(n))),
    ("tuple", |n| format!("a = [{}]\n", "1, ".repeat(n))),
    ("tuple, unclosed", |n| format!("a = [{}\n", "1, ".repeat(n))),
    ("tuple, bad end", |n| format!("a = [{}]]\n", "\"x\", ".repeat(n))),
    ("object", |n| format!("a = {{{}}}\n", (0..n).map(|i| format!("k{} = 1, ", i)).collect::<String>())),
    ("object, lines", |n| format!("a = {{\n{}}}\n", (0..n).map(|i| format!("k{} = 1\n", i)).collect::<String>())),
    ("object, unclosed", |n| format!("a = {{\n{}", (0..n).map(|i| format!("k{} = 1\n", i)).collect::<String>())),
    ("string", |n| format!("a = \"{}\"\n", "word ".repeat(n))),
    ("escapes", |n| format!("a = \"{}\"\n", "\\n\\u00e9".repeat(n))),
    ("string, unclosed", |n| format!("a = \"{}", "word ".repeat(n))),
    ("string, bad escape", |n| format!("a = \"{}\\q\"\n", "word ".repeat(n))),
    ("heredoc", |n| format!("a = <<E\n{}E\n", "line\n".repeat(n))),
    ("heredoc, indented", |n| format!("a = <<-E\n{}  E\n", "    line\n".repeat(n))),
    ("heredoc, unclosed", |n| format!("a = <<E\n{}", "line\n".repeat(n))),
    ("heredocs", |n| (0..n).map(|i| format!("a{} = <<E\nline\nE\n", i)).collect()),
    ("heredocs, indented", |n| (0..n).map(|i| format!("a{} = <<-E\n line\n E\n", i)).collect()),
    ("heredocs, unclosed", |n| "a = <<E\nline\n".repeat(n)),
    ("heredoc, end far to the right", |n| format!("a = <<-E\n{}{}E\n", "x\n".repeat(n), " ".repeat(n))),
    ("heredoc, all far to the right", |n| format!("a = <<-E\n{}\n{}y\n{}E\n", "\n".repeat(n), " ".repeat(n), " ".repeat(n))),
    ("heredoc, long marker", |n| format!("a = <<{m}\n{l}{m}\n", m = "M".repeat(n), l = "MM\n".repeat(n))),
    ("heredoc, long name", |n| format!("{m} = <<-E\n{l} E\n", m = "m".repeat(n), l = "E x\n".repeat(n))),
    ("long type and labels", |n| format!("{m} \"{m}\" {{\n{l}}}\n", m = "m".repeat(n), l = "x = 1\n".repeat(n))),
    ("long type, many blocks", |n| { let m = "m".repeat(64); (0..n).map(|i| format!("{} \"{}\" \"{}\" {{ }}\n", m, m, i)).collect() }),
    ("long key, many repeats", |n| { let m = "m".repeat(64); (0..n).map(|_| format!("{} = 1\n", m)).collect() }),
    ("many blocks with many labels", |n| { let l = "l ".repeat(16); (0..n).map(|i| format!("b {}k{} {{ }}\n", l, i)).collect() }),
    ("hash comments", |n| "# note\n".repeat(n)),
    ("slash comments", |n| "// note\n".repeat(n)),
    ("inline comments", |n| "/* note */ ".repeat(n)),
    ("inline comments, lines", |n| "/* note */\n".repeat(n)),
    ("inline comments, unclosed", |n| "/* note ".repeat(n)),
    ("comments before a value", |n| format!("a = {}1\n", "/**/ ".repeat(n))),
    ("comments in a tuple", |n| format!("a = [{}]\n", "1, # c\n".repeat(n))),
    ("blank lines", |n| " \n".repeat(n)),
    ("blanks", |n| format!("a = {}1\n", " ".repeat(n))),
    ("blanks after", |n| format!("a = 1{}\n", " ".repeat(n))),
    ("integer", |n| format!("a = {}\n", "1".repeat(n))),
    ("float", |n| format!("a = 1.{}e5\n", "1".repeat(n))),
    ("identifier", |n| format!("{} = 1\n", "ab-".repeat(n))),
    ("wide identifiers", |n| (0..n).map(|i| format!("藏{} = 1\n", i)).collect()),
    ("error at the end", |n| format!("{}a = [\n", "k = 1\n".repeat(n))),
    ("error in a block", |n| format!("b {{\n{}", "k = 1\n".repeat(n))),
    ("error after blocks", |n| format!("{}b {{", "b {\nk = 1\n}\n".repeat(n))),
    ("no newline between", |n| "a = 1 ".repeat(n)),
    ("signs", |n| format!("a = {}1\n", "-".repeat(n))),
    ("commas", |n| format!("a = [{}]\n", ",".repeat(n))),
];

/// Openers and closers of nests
const NEST: &[(&str, &str, &str)] = &[
    ("tuple", "[", "]"),
    ("tuple, more elements", "[1, ", ", 2]"),
    ("tuple, comment", "[ # c\n", "]"),
    ("paren", "(", ")"),
    ("object", "{ k = ", " }"),
    ("object, lines", "{\nk = ", "\n}"),
    ("object, two keys", "{ a = 1, k = ", " }"),
    ("object, quoted", "{ \"k\" = ", ", }"),
    ("object, key", "{ (", ") = 1 }"),
    ("tuple of object", "[{ k = ", " }]"),
    ("paren of tuple", "([", "])"),
];

const NEST_BLOCK: &[(&str, &str, &str)] = &[
    ("block", "b {\n", "}\n"),
    ("block, label", "b \"l\" {\n", "}\n"),
    ("block, two labels", "b l \"m\" {\n", "}\n"),
    ("block, more", "b {\nx = 1\n", "y = 2\n}\n"),
];

/// Bytes allocated per byte of input at most (today: 340), with a flat start
const PER_BYTE: u64 = 2000;
const START: u64 = 60_000;

fn limit(rec: &mut Rec, what: &str, s: &str, c: &Cost) -> bool {
    rec.eval();
    rec.count("measured");
    rec.count(if c.ok { "accepted" } else { "rejected" });
    let per = c.bytes / (s.len() as u64 + 1);
    if s.len() > 200 {
        rec.max("bytes_allocated_per_input_byte", per);
        rec.max("peak_per_input_byte", c.peak / (s.len() as u64 + 1));
    }
    rec.max("input_bytes", s.len() as u64);
    rec.check(c.bytes <= PER_BYTE * s.len() as u64 + START, "allocation", || format!("{}: {} bytes of input, {} bytes allocated", what, s.len(), c.bytes))
}

fn flat(rec: &mut Rec, (name, make): &Family, thorough: bool) {
    rec.count("flat_families");
    let top = if thorough { 4096 } else { 2048 };
    for (iface, f) in READ {
        let mut prev: Option<(u64, u64, f64)> = None;
        let mut n = top / 64;
        while n <= top {
            let s = make(n);
            let what = format!("{} by {} x{}", name, iface, n);
            rec.input(&what);
            rec.nontrivial(what.as_bytes());
            let mut c = measure(*f, &s);
            if !limit(rec, &what, &s, &c) {
                break;
            }
            if let Some((len, bytes, cpu)) = prev {
                // Eight times as long
                let k = s.len() as f64 / len as f64;
                rec.check(c.bytes as f64 <= bytes as f64 * k * 1.5 + START as f64, "allocation-growth", || {
                    format!("{}: {} bytes allocated for {} bytes, {} for {}", what, bytes, len, c.bytes, s.len())
                });
                if c.cpu > 0.2 {
                    // The best of several, so that nothing else on the machine counts
                    for _ in 0..4 {
                        c.cpu = c.cpu.min(measure(*f, &s).cpu);
                    }
                }
                rec.count("times_judged");
                rec.check(c.cpu <= 0.2 || c.cpu <= cpu.max(0.001) * k * k * 4.0, "time-growth", || {
                    format!("{}: {:.4} s for {} bytes, {:.4} s for {}", what, cpu, len, c.cpu, s.len())
                });
            }
            prev = Some((s.len() as u64, c.bytes, c.cpu));
            n *= 8;
        }
    }
}

fn nest_text(open: &[(&str, &str)], core: &str, end: usize, block: bool) -> String {
    let mut s = String::from(if block { "" } else { "a = " });
    for (o, _) in open {
        s.push_str(o);
    }
    s.push_str(core);
    match end {
        // Well formed
        0 => {
            for (_, c) in open.iter().rev() {
                s.push_str(c);
            }
            s.push('\n');
        }
        // Not closed
        1 => {}
        // One closer missing
        2 => {
            for (_, c) in open.iter().rev().take(open.len() - 1) {
                s.push_str(c);
            }
            s.push('\n');
        }
        // A wrong core
        3 => {
            s.push_str(" = ");
            for (_, c) in open.iter().rev() {
                s.push_str(c);
            }
            s.push('\n');
        }
        // One closer too many
        _ => {
            for (_, c) in open.iter().rev() {
                s.push_str(c);
            }
            s.push_str("]})\n");
        }
    }
    s
}

fn nest(rec: &mut Rec, k: usize) {
    rec.count("nest_families");
    let block = k >= NEST.len();
    let (name, o, c) = if block { NEST_BLOCK[k - NEST.len()] } else { NEST[k] };
    for end in 0..5 {
        for (iface, f) in READ {
            for d in &[5usize, 10, 20, 40, 80, 100] {
                let s = nest_text(&vec![(o, c); *d], if block { "x = 1\n" } else { "1" }, end, block);
                let what = format!("{} by {}, {} deep, ending {}", name, iface, d, end);
                rec.input(&what);
                rec.nontrivial(what.as_bytes());
                let c = measure(*f, &s);
                if !limit_nest(rec, &what, &s, *d, &c) {
                    break;
                }
            }
        }
    }
}

/// In a nest every level may cost what it contains
fn limit_nest(rec: &mut Rec, what: &str, s: &str, depth: usize, c: &Cost) -> bool {
    rec.eval();
    rec.count("measured");
    rec.count(if c.ok { "accepted" } else { "rejected" });
    let n = s.len() as u64;
    let unit = n * (depth as u64 + 1) + 1;
    rec.max("nest_bytes_allocated_per_byte_and_level", c.bytes / unit);
    rec.max("nest_microseconds", (c.cpu * 1e6) as u64);
    rec.check(c.bytes <= 300 * unit + START, "nest-allocation", || format!("{}: {} bytes of input, {} bytes allocated", what, n, c.bytes))
        && rec.check(c.cpu < 3.0, "nest-time", || format!("{}: {} bytes of input, {:.2} s", what, n, c.cpu))
}

fn run_c18(r: &mut Rng, rec: &mut Rec, i: u64, env: &Env) {
    let i = i as usize;
    if i < FLAT.len() {
        return flat(rec, &FLAT[i], env.thorough);
    }
    let i = i - FLAT.len();
    if i < NEST.len() + NEST_BLOCK.len() {
        return nest(rec, i);
    }
    match i % 4 {
        0 => {
            rec.count("mixed_nests");
            let block = r.one_in(4);
            let depth = r.range(2, 100);
            let few: Vec<(&str, &str)> = (0..r.range(1, 4))
                .map(|_| {
                    let (_, o, c) = if block { NEST_BLOCK[r.below(NEST_BLOCK.len())] } else { NEST[r.below(NEST.len())] };
                    (o, c)
                })
                .collect();
            let open: Vec<(&str, &str)> = (0..depth).map(|_| few[r.below(few.len())]).collect();
            let core = if block { "x = 1\n" } else { r.pickc(&["1", "\"s\"", "", "null", "<<E\nx\nE\n", "[", "\"", "- 1"]) };
            let end = r.below(5);
            let s = nest_text(&open, core, end, block);
            rec.input(&s);
            rec.nontrivial(s.as_bytes());
            if i < 100 {
                rec.sample(&s);
            }
            for (iface, f) in READ {
                let c = measure(*f, &s);
                limit_nest(rec, &format!("mixed nest by {}", iface), &s, depth, &c);
            }
        }
        k => {
            let mut cfg = GenCfg::FULL;
            let mut st = Style::WILD;
            if r.one_in(2) {
                cfg = GenCfg::COMMON;
                st.dialect = Dialect::Common;
                st.parens = false;
            }
            let d = gen::doc(r, &cfg);
            let (mut s, _) = gen::render(r, &d, st);
            if k >= 2 {
                s = total::mutate(r, &s);
                rec.count("mutated_documents");
            } else {
                rec.count("random_documents");
            }
            rec.input(&s);
            rec.nontrivial(s.as_bytes());
            let depth = crate::model::depth(&d) + 4;
            for (iface, f) in READ {
                let c = measure(*f, &s);
                limit_nest(rec, &format!("document by {}", iface), &s, depth, &c);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C22

pub static C22: Prop = Prop {
    id: "C22",
    rule: "Generated, mutated and malformed documents are read by every interface and everything callable is called on the results (owning, grouping, merging, formatting, iterating, deserialising), with a counting allocator under it; after the results are dropped, the bytes held have to be what they were before, for each single reading after a first one; and hundreds of texts that share nothing, each read once, must not leave more behind with every batch. Non-trivial: a reading that allocates; distinct by interface and text.",
    cases: (8_000, 150_000),
    threads: 8,
    run: run_c22,
    need: &["balanced", "accepted", "rejected", "partly_consumed", "no_growth", "threads_ended"],
    exhaustive: false,
};

fn partly(s: &str) -> bool {
    // Iterators left half way
    let mut ok = false;
    if let Ok(b) = ferrous_chloride::parse_str(s) {
        ok = true;
        let mut it = b.into_iter();
        it.next();
    }
    if let Ok(m) = value::from_str(s, None) {
        let mut it = m.clone().into_iter();
        it.next();
        drop(it);
        let mut it = m.values();
        it.next();
        drop(it);
        let _ = m.merge();
    }
    ok
}

/// A text like no other: fresh names, labels, numbers, escapes
fn unlike(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..4 {
        let (a, b) = (r.next() % 1_000_000_000, r.next() % 1_000_000);
        let u = loop {
            let u = r.below(0x10000);
            if char::from_u32(u as u32).is_some() {
                break u;
            }
        };
        match r.below(8) {
            0 => s.push_str(&format!("k{} = \"\\u{:04x}x{}\"\n", a, u, b)),
            1 => s.push_str(&format!("k{} = \"\\U{:08x}\\x{:02x}\\{:03o}{}\"\n", a, 0x10000 + u, 1 + u % 255, 1 + u % 255, b)),
            2 => s.push_str(&format!("b{} \"l{}\" l{} {{\nn{} = {}.{}\n}}\n", a, a, b, b, a, b)),
            3 => s.push_str(&format!("m{} = {{\nk{} = {}\n}}\n", a, b, a)),
            4 => s.push_str(&format!("h = <<T{}\nx{}\nT{}\n", a, b, a)),
            5 => s.push_str(&format!("e = [{}e{}, -{}, \"{}\"]\n", a, b % 300, b, a)),
            6 => s.push_str(&format!("# c{}\n\"q {}\" = {}\n", a, b, a)),
            // None of these can be read
            _ => s.push_str(&format!("k{} = \"\\ud8{:02x}\\q{}\"\n", a, u % 256, b)),
        }
    }
    s
}

/// Nothing may build up over many different texts, each read once
fn growth(r: &mut Rng, rec: &mut Rec) {
    const ALL: &[(&str, fn(&str) -> bool)] = &[
        ("every interface", |s| ex::str_entry_points(s) > 0),
        ("bytes", |s| ex::bytes_entry_points(s.as_bytes()) > 0),
        ("parts", |s| {
            ex::low_level(s);
            true
        }),
    ];
    let mut grown = vec![];
    for round in 0..5 {
        let texts: Vec<String> = (0..150).map(|_| unlike(r)).collect();
        let a = alloc::heap();
        for s in &texts {
            for (_, f) in ALL {
                f(s);
            }
            rec.count("texts_read_once");
        }
        let b = alloc::heap();
        rec.eval();
        if round > 0 {
            grown.push(b.live - a.live);
        }
        if round == 4 {
            rec.input(&texts.concat());
            rec.nontrivial(texts.concat().as_bytes());
            rec.max("bytes_left_by_many_texts", *grown.iter().max().unwrap_or(&0) as u64);
            if rec.check(grown.iter().any(|g| *g <= 0), "growth", || format!("Memory held after each 150 new texts: {:?} bytes more, each time", grown)) {
                rec.count("no_growth");
            }
        }
    }
}

/// What a thread which reads leaves behind when it has ended
fn by_threads(r: &mut Rng, rec: &mut Rec) {
    let s = unlike(r);
    rec.input(&s);
    rec.eval();
    rec.nontrivial(format!("thread {}", s).as_bytes());
    let at: &'static AtomicI64 = Box::leak(Box::new(AtomicI64::new(0)));
    let run = |what: usize| {
        let s = s.clone();
        at.store(0, Ordering::SeqCst);
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            alloc::watch(at);
            // Set up what this thread needs anyhow
            let _ = crate::frame::guard(|| 1);
            match what {
                0 => {}
                1 => {
                    ex::str_entry_points(&s);
                    ex::bytes_entry_points(s.as_bytes());
                }
                _ => ex::low_level(&s),
            }
        });
        match h.map(|h| h.join()) {
            Ok(Ok(())) => Some(at.load(Ordering::SeqCst)),
            _ => None,
        }
    };
    for what in 1..3 {
        let mut held = vec![];
        for _ in 0..4 {
            if let (Some(a), Some(b)) = (run(0), run(what)) {
                held.push(b - a);
            }
            if held.last() == Some(&0) {
                break;
            }
        }
        rec.count("threads_ended");
        rec.check(held.iter().any(|h| *h <= 0), "thread-residue", || format!("a thread which reads leaves {:?} bytes behind when it ends, each time", held));
    }
    // One more counter stays for good: of this harness, eight bytes
}

fn run_c22(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    if i % 100 == 29 {
        return by_threads(r, rec);
    }
    if i % 400 == 17 {
        return growth(r, rec);
    }
    let mut st = Style::WILD;
    let mut cfg = GenCfg::FULL;
    if r.one_in(2) {
        cfg = GenCfg {
            dup_names: r.one_in(2),
            ..GenCfg::COMMON
        };
        st.dialect = if r.one_in(2) { Dialect::Common } else { Dialect::Legacy };
        st.parens = false;
    }
    let d = gen::doc(r, &cfg);
    let (mut s, _) = gen::render(r, &d, st);
    if r.one_in(3) {
        s = total::mutate(r, &s);
    }
    rec.input(&s);
    if i < 60 {
        rec.sample(&s);
    }
    let all: &[(&str, fn(&str) -> bool)] = &[
        ("every interface", |s| ex::str_entry_points(s) > 0),
        ("bytes", |s| ex::bytes_entry_points(s.as_bytes()) > 0),
        ("parts", |s| {
            ex::low_level(s);
            true
        }),
        ("partly consumed", partly),
    ];
    for (name, f) in READ.iter().chain(all) {
        rec.eval();
        let mut held = 0;
        let mut used = 0;
        let mut ok = false;
        // Whatever is set up once may stay; nothing may grow
        for _ in 0..3 {
            let a = alloc::heap();
            ok = f(&s);
            let b = alloc::heap();
            held = b.live - a.live;
            used = b.bytes - a.bytes;
            if held == 0 {
                break;
            }
        }
        if used > 0 {
            rec.nontrivial(format!("{}{}", name, s).as_bytes());
        }
        rec.count(if ok { "accepted" } else { "rejected" });
        if *name == "partly consumed" && ok {
            rec.count("partly_consumed");
        }
        if rec.check(held == 0, "residue", || format!("{}: {} bytes are held afterwards, each time, of {} allocated", name, held, used)) {
            rec.count("balanced");
        }
        rec.max("bytes_allocated", used);
    }
}
