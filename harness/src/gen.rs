//! Generators of model documents, and renderers which spell a model document as HCL text.
use crate::model::*;
use crate::rng::Rng;

const WORDS: &[&str] = &[
    "a", "b", "foo", "bar", "name", "resource", "instance", "ingress", "x1", "k", "v", "type",
    "count", "image", "user", "root", "region", "zone", "z", "A", "Foo", "null", "true", "false",
    "nullable", "true_", "falsey", "e1", "E", "_", "_x", "a-b", "a-", "x--y", "a1-2", "EOF", "in",
    "for", "if", "inf", "NaN", "藏", "é", "ß1", "Ж_x", "अब", "a\u{301}", "゛藏_a", "ñandú",
];

/// An identifier
pub fn ident(r: &mut Rng) -> String {
    match r.below(10) {
        0..=6 => r.pick(WORDS).to_string(),
        7 => {
            // few distinct names: collisions
            r.pick(&["a", "b", "c"]).to_string()
        }
        8 => {
            let mut s = String::new();
            s.push(r.pickc(&['a', 'b', 'Z', '_', 'é', '藏']));
            for _ in 0..r.size(12) {
                s.push(r.pickc(&['a', 'z', 'A', '0', '9', '_', '-', 'é', '藏', 'ñ']));
            }
            s
        }
        _ => {
            let mut s = String::from("id");
            let n = match r.below(40) {
                0 => r.size(6000),
                1..=4 => r.size(400),
                _ => r.size(30),
            };
            for i in 0..n {
                s.push((b'a' + (i % 26) as u8) as char);
            }
            s
        }
    }
}

pub fn special_char(r: &mut Rng) -> char {
    r.pickc(&[
        '"', '\\', '\n', '\r', '\t', '\0', '\x07', '\x08', '\x0b', '\x0c', '\x1b', '\x7f', '\u{80}',
        '\u{85}', '\u{a0}', '\u{ff}', '\u{100}', '\u{1ff}', 'é', '藏', '老', '\u{2028}', '\u{2029}', '\u{feff}',
        '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '$', '{', '}', '%', '#', '/', '*',
        '<', '>', '[', ']', '(', ')', '=', ',', ' ', '?', '\'', '0', '7', '8', 'f', 'x', 'u', 'n',
        '\u{d7ff}', '\u{e000}', '\u{301}', '-', '+', '.', 'e', '\u{ad}', '\u{200b}', '\u{200d}', '\u{2060}',
        '\u{202e}', '\u{3000}', '\u{fe0f}', '\u{130}', '\u{17f}', '\u{e0001}', '\u{1f1e6}',
    ])
}

/// A text with something odd at its start, in it, or at its end
pub fn odd_text(r: &mut Rng, core: &str) -> String {
    let c = if r.one_in(4) { any_char(r) } else { special_char(r) };
    match r.below(4) {
        0 => format!("{}{}", c, core),
        1 => format!("{}{}", core, c),
        2 => format!("{}{}{}", c, core, c),
        _ => {
            let k = (0..=core.len()).filter(|k| core.is_char_boundary(*k)).nth(r.below(core.chars().count() + 1)).unwrap_or(0);
            format!("{}{}{}", &core[..k], c, &core[k..])
        }
    }
}

/// Texts that are nearly another, but not the same
pub fn near_misses(r: &mut Rng, t: &str) -> Vec<String> {
    let mut v = vec![
        format!("{} ", t),
        format!(" {}", t),
        format!("{}\0", t),
        t.trim().to_string(),
        t.to_uppercase(),
        t.to_lowercase(),
        t.chars().rev().collect(),
        odd_text(r, t),
    ];
    let c: Vec<char> = t.chars().collect();
    if !c.is_empty() {
        // One character in the other case, left out, doubled, another
        let k = r.below(c.len());
        let with = |x: Vec<char>| -> String { c[..k].iter().cloned().chain(x).chain(c[k + 1..].iter().cloned()).collect() };
        v.push(with(c[k].to_uppercase().collect()));
        v.push(with(c[k].to_lowercase().collect()));
        v.push(with(vec![]));
        v.push(with(vec![c[k], c[k]]));
        v.push(with(vec![char::from_u32(c[k] as u32 ^ 1).unwrap_or('x')]));
        v.push(with(vec![char::from_u32(c[k] as u32 ^ 0x80).unwrap_or('x')]));
        v.push(with(vec![char::from_u32(c[k] as u32 ^ 0x100).unwrap_or('x')]));
    }
    v.retain(|u| u != t);
    v
}

pub fn any_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(4) {
            0 => r.below(0x80) as u32,
            1 => r.below(0x800) as u32,
            2 => r.below(0x10000) as u32,
            _ => r.below(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

/// A string value
pub fn string(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(12) {
        0 => {}
        1..=3 => {
            for i in 0..r.range(1, 3) {
                if i > 0 {
                    s.push(' ');
                }
                s.push_str(r.pick(WORDS));
            }
        }
        4..=6 => {
            for _ in 0..r.range(1, 10) {
                s.push(special_char(r));
            }
        }
        7 => {
            for _ in 0..r.range(1, 8) {
                s.push(any_char(r));
            }
        }
        8 => {
            s.push_str(r.pick(&[
                "${var.foo}", "%{ if x }", "<<EOF\nx\nEOF\n", "# not a comment", "// no", "/* no */",
                "a = 1\nb = 2", "\"quoted\"", "\\n", "\\", "\\\\", "{", "}", "[1, 2]", "10.0.0.0/8",
                "null", "true", "1", "trailing ", " leading", "tab\there", "line\n", "\nline", "\r\n",
                "\\x41", "\\u0041", "a\\", "'", "\u{feff}bom", "\\\"",
            ]));
        }
        9 => {
            // lines
            for i in 0..r.range(1, 5) {
                if i > 0 {
                    s.push('\n');
                }
                for _ in 0..r.below(5) {
                    s.push(' ');
                }
                if !r.one_in(4) {
                    s.push_str(r.pick(WORDS));
                }
            }
        }
        10 => {
            for _ in 0..r.size(60) {
                s.push(r.pickc(&['a', 'b', '"', '\\', 'é', ' ', '\n', '1']));
            }
        }
        _ => {
            let n = if r.one_in(30) { r.size(9000) } else { r.size(300) };
            for i in 0..n {
                s.push(if i % 97 == 96 { special_char(r) } else { (b'a' + (i % 26) as u8) as char });
            }
        }
    }
    s
}

/// A string value which may be used where raw or escaped newlines are fine, but keep it short
pub fn label_text(r: &mut Rng) -> String {
    if r.pct(70) {
        r.pick(&[
            "a", "b", "c", "foo", "bar", "web", "aws_instance", "with space", "", "a.b", "1", "é",
            "a\"b", "a\\b", "x\ny", "null", "藏",
        ])
        .to_string()
    } else {
        let mut s = string(r);
        if s.len() > 300 {
            s = s.chars().take(100).collect();
        }
        s
    }
}

pub const INT_EDGES: &[&str] = &[
    "0", "-0", "+0", "1", "-1", "+1", "7", "9", "10", "42", "127", "128", "-128", "-129", "255",
    "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648",
    "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740991",
    "9007199254740992", "9007199254740993", "9223372036854775806", "9223372036854775807",
    "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551614", "18446744073709551615", "18446744073709551616",
    "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
    "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
    "000", "007", "-007", "00012345678901234567890", "100000000000000000000000000000000000000000",
];

pub const FLOAT_EDGES: &[&str] = &[
    "0.0", "-0.0", "1.0", "1.", "-1.", ".5", "-.5", "+.5", "1.5", "-1.5", "1.50", "0.1", "0.2",
    "0.30000000000000004", "123.456", "-123.456", "1e0", "1e1", "1E1", "1e+1", "1e-1", "1.5e3",
    "1.e3", ".5e3", "-.5e-3", "1e308", "1e309", "-1e309", "1e-308", "1e-324", "5e-324", "1e-400",
    "4.9406564584124654e-324", "2.2250738585072014e-308", "1.7976931348623157e308",
    "3.4028234663852886e38", "3.5e38", "1.17549435e-38", "16777217.0", "9007199254740993.0",
    "9223372036854775807.0", "9223372036854775808.0", "18446744073709551616.0", "0e0", "-0e5",
    "00.5", "1e05", "1E+05", "1e-05", "12345678901234567890.12345678901234567890",
    "3.141592653589793238462643383279",
];

/// Source text of a number
pub fn number(r: &mut Rng) -> String {
    match r.below(10) {
        0..=2 => r.below(1000).to_string(),
        3 => format!("-{}", r.below(1000)),
        4..=5 => r.pick(INT_EDGES).to_string(),
        6 => r.pick(FLOAT_EDGES).to_string(),
        7 => {
            let mut s = String::new();
            s.push_str(r.pick(&["", "-", "+"]));
            for _ in 0..r.range(1, 22) {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            s
        }
        8 => {
            let mut s = String::new();
            s.push_str(r.pick(&["", "-", "+", "", "-"]));
            let w = r.below(8);
            for _ in 0..w {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            let mut f = r.below(8);
            if w == 0 {
                f = f.max(1);
            }
            if f > 0 || r.one_in(2) || w == 0 {
                s.push('.');
                for _ in 0..f {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            if r.one_in(2) {
                s.push(r.pickc(&['e', 'E']));
                s.push_str(r.pick(&["", "-", "+"]));
                let m = r.pickc(&[3, 20, 320, 400]);
                s.push_str(&r.below(m).to_string());
            }
            s
        }
        _ => {
            // bits of a float, printed
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                if r.one_in(2) {
                    format!("{:e}", f)
                } else {
                    format!("{}", f)
                }
            } else {
                "1e309".to_string()
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    /// Only what the legacy interface and the new interface understand alike
    pub common: bool,
    /// Numbers which are not ambiguous between interfaces
    pub dup_names: bool,
    pub max_depth: usize,
    /// Whether labels are generated
    pub labels: bool,
}

impl GenCfg {
    pub const FULL: GenCfg = GenCfg {
        common: false,
        dup_names: true,
        max_depth: 5,
        labels: true,
    };
    pub const COMMON: GenCfg = GenCfg {
        common: true,
        dup_names: true,
        max_depth: 5,
        labels: true,
    };
}

pub fn scalar(r: &mut Rng) -> E {
    match r.below(10) {
        0 => E::Null,
        1 => E::Bool(true),
        2 => E::Bool(false),
        3..=5 => E::Num(number(r)),
        _ => E::Str(string(r)),
    }
}

pub fn expr(r: &mut Rng, cfg: &GenCfg, depth: usize, budget: &mut usize) -> E {
    *budget = budget.saturating_sub(1);
    if depth >= cfg.max_depth || *budget == 0 || r.pct(60) {
        return scalar(r);
    }
    let n = if r.one_in(40) {
        r.size(300)
    } else {
        r.below(5)
    };
    let n = n.min(*budget + 1);
    if r.one_in(2) {
        E::Tuple((0..n).map(|_| expr(r, cfg, depth + 1, budget)).collect())
    } else {
        E::Obj(
            (0..n)
                .map(|i| (key(r, cfg, i), expr(r, cfg, depth + 1, budget)))
                .collect(),
        )
    }
}

fn key(r: &mut Rng, cfg: &GenCfg, i: usize) -> K {
    let mut uniq = |r: &mut Rng, s: String| -> String {
        if cfg.dup_names && r.one_in(2) {
            s
        } else {
            format!("{}_{}", s, i)
        }
    };
    match r.below(10) {
        0..=5 => {
            let s = ident(r);
            K::Ident(uniq(r, s))
        }
        6..=7 => {
            let s = label_text(r);
            K::Expr(E::Str(uniq(r, s)))
        }
        _ if cfg.common => {
            let s = ident(r);
            K::Ident(uniq(r, s))
        }
        8 => K::Expr(E::Num(number(r))),
        _ => K::Expr(match r.below(8) {
            0 => E::Tuple(vec![E::Num(number(r)), E::Str("k".into())]),
            1 => E::Obj(vec![(K::Ident("k".into()), scalar(r))]),
            2 => E::Tuple(vec![]),
            _ => {
                let s = label_text(r);
                E::Str(uniq(r, s))
            }
        }),
    }
}

pub fn labels(r: &mut Rng, cfg: &GenCfg) -> Vec<L> {
    if !cfg.labels {
        return vec![];
    }
    let n = match r.below(10) {
        0..=3 => 0,
        4..=6 => 1,
        7..=8 => 2,
        _ => {
            if r.one_in(6) {
                r.size(40)
            } else {
                r.range(3, 6)
            }
        }
    };
    (0..n)
        .map(|_| {
            if !cfg.common && r.one_in(3) {
                L {
                    quoted: false,
                    text: ident(r),
                }
            } else {
                L {
                    quoted: true,
                    text: label_text(r),
                }
            }
        })
        .collect()
}

pub fn body(r: &mut Rng, cfg: &GenCfg, depth: usize, budget: &mut usize) -> Doc {
    let n = if r.one_in(60) {
        r.size(300)
    } else {
        r.below(6)
    };
    let mut out = vec![];
    for i in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        if depth < cfg.max_depth && r.pct(35) {
            let ty = ident(r);
            let labels = labels(r, cfg);
            let body = body(r, cfg, depth + 1, budget);
            out.push(El::Block(Bl { ty, labels, body }));
        } else {
            let mut name = ident(r);
            if !cfg.dup_names || r.one_in(2) {
                name = format!("{}_{}", name, i);
            }
            out.push(El::Attr(name, expr(r, cfg, 0, budget)));
        }
    }
    out
}

/// A document
pub fn doc(r: &mut Rng, cfg: &GenCfg) -> Doc {
    match r.below(40) {
        0 => deep_doc(r, cfg),
        1 => {
            // one long dimension
            let n = r.size(1500);
            match r.below(4) {
                0 => vec![El::Attr(
                    "long".into(),
                    E::Tuple((0..n).map(|i| E::Num(i.to_string())).collect()),
                )],
                1 => (0..n)
                    .map(|i| El::Attr(format!("k{}", i), E::Num(i.to_string())))
                    .collect(),
                2 => (0..n)
                    .map(|i| {
                        El::Block(Bl {
                            ty: format!("t{}", i % 3),
                            labels: vec![],
                            body: vec![El::Attr("i".into(), E::Num(i.to_string()))],
                        })
                    })
                    .collect(),
                _ => vec![El::Attr(
                    "obj".into(),
                    E::Obj(
                        (0..n)
                            .map(|i| (K::Ident(format!("k{}", i)), E::Num(i.to_string())))
                            .collect(),
                    ),
                )],
            }
        }
        2 => {
            let mut budget = 1200;
            let mut d = vec![];
            for _ in 0..r.range(2, 10) {
                d.extend(body(r, cfg, 0, &mut budget));
            }
            d
        }
        _ => {
            let mut budget = r.size(120) + 2;
            body(r, cfg, 0, &mut budget)
        }
    }
}

/// The sizes at which something might give way: around each power of two up to 4096
pub fn edge_sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (0..13).flat_map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    v.extend(&[10, 99, 100, 101, 999, 1000, 1001, 1500, 3000]);
    v.sort();
    v.dedup();
    v
}

pub const LARGE_KINDS: usize = 20;

/// A document which is large (`n`) in one respect, of the subset both interfaces share
pub fn large(kind: usize, n: usize) -> Doc {
    let num = |i: usize| E::Num(i.to_string());
    let attr = |name: &str, e: E| vec![El::Attr(name.into(), e)];
    let quoted = |text: String| L { quoted: true, text };
    let fill = |unit: &str| {
        let mut s: String = unit.chars().cycle().take(n).collect();
        s.push('.');
        s
    };
    match kind {
        0 => (0..n).map(|i| El::Attr(format!("k{}", i), num(i))).collect(),
        1 => (0..n)
            .map(|i| El::Bl_(&format!("t{}", i % 3), vec![], vec![El::Attr("i".into(), num(i))]))
            .collect(),
        2 => attr("a", E::Tuple((0..n).map(num).collect())),
        3 => attr("a", E::Obj((0..n).map(|i| (K::Ident(format!("k{}", i)), num(i))).collect())),
        4 => attr("a", E::Tuple((0..n).map(|i| E::Tuple(vec![num(i)])).collect())),
        5 => attr("a", E::Tuple((0..n).map(|i| E::Obj(vec![(K::Ident("k".into()), num(i))])).collect())),
        6 => vec![El::Bl_("t", (0..n).map(|i| quoted(format!("l{}", i))).collect(), attr("a", num(1)))],
        7 => vec![El::Bl_("t", vec![quoted(fill("label"))], attr("a", num(1)))],
        8 => vec![El::Bl_("t", vec![], (0..n).map(|i| El::Attr(format!("k{}", i), num(i))).collect())],
        9 => vec![El::Attr(format!("k{}", fill("name").replace('.', "")), num(1)), El::Attr("z".into(), num(2))],
        10 => vec![El::Bl_(&format!("k{}", fill("type").replace('.', "")), vec![], attr("a", num(1)))],
        11 => attr("a", E::Str(fill("plain text "))),
        12 => attr("a", E::Str(fill("é€\u{1d11e}x"))),
        13 => attr("a", E::Str(fill("\n"))),
        14 => attr("a", E::Str(fill("\"\\\t\u{7}é"))),
        15 => attr("a", E::Str(fill("one line\n  and another\n"))),
        16 => attr("a", E::Num(format!("1.{}5", fill("1234567890").replace('.', "")))),
        17 => attr("a", E::Tuple((0..n).map(|i| E::Str(format!("é{}", i))).collect())),
        18 => (0..n).map(|i| El::Bl_("same", vec![quoted(i.to_string())], vec![])).collect(),
        _ => attr("a", E::Obj(vec![(K::Ident(format!("k{}", fill("key").replace('.', ""))), num(1))])),
    }
}

/// Every large document in turn, at some of the cases
pub fn large_case(i: u64, every: u64) -> Option<Doc> {
    if i % every != 9 {
        return None;
    }
    let (j, sizes) = ((i / every) as usize, edge_sizes());
    Some(large(j % LARGE_KINDS, sizes[(j / LARGE_KINDS) % sizes.len()]))
}

impl El {
    #[allow(non_snake_case)]
    fn Bl_(ty: &str, labels: Vec<L>, body: Doc) -> El {
        El::Block(Bl { ty: ty.into(), labels, body })
    }
}

/// Narrow but deep (up to 60 levels)
pub fn deep_doc(r: &mut Rng, cfg: &GenCfg) -> Doc {
    let n = r.range(6, 60);
    if r.one_in(2) {
        let mut e = scalar(r);
        for i in 0..n {
            e = if r.one_in(2) {
                let mut v = vec![e];
                if r.one_in(3) {
                    v.push(E::Num(i.to_string()));
                }
                E::Tuple(v)
            } else {
                E::Obj(vec![(K::Ident(format!("k{}", i)), e)])
            };
        }
        vec![El::Attr("deep".into(), e)]
    } else {
        let mut d: Doc = vec![El::Attr("leaf".into(), scalar(r))];
        for i in 0..n {
            let l = labels(r, cfg);
            d = vec![El::Block(Bl {
                ty: format!("b{}", i),
                labels: l,
                body: d,
            })];
            if r.one_in(3) {
                d.push(El::Attr(format!("after{}", i), E::Bool(true)));
            }
        }
        d
    }
}

// ---------------------------------------------------------------------------------------------
// Rendering

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dialect {
    /// Everything the AST interface takes
    New,
    /// What both interfaces take
    Common,
    /// Everything the legacy interface takes
    Legacy,
}

#[derive(Clone, Copy)]
pub struct Style {
    pub dialect: Dialect,
    /// Random layout and comments; otherwise one plain layout
    pub wild: bool,
    /// Use parentheses
    pub parens: bool,
    pub heredocs: bool,
    /// Random escapes inside of quoted strings
    pub escapes: bool,
}

impl Style {
    pub const CANON: Style = Style {
        dialect: Dialect::New,
        wild: false,
        parens: false,
        heredocs: false,
        escapes: false,
    };
    pub const WILD: Style = Style {
        dialect: Dialect::New,
        wild: true,
        parens: true,
        heredocs: true,
        escapes: true,
    };
}

pub struct Rend<'a> {
    pub r: &'a mut Rng,
    pub out: String,
    pub s: Style,
    /// Features exercised
    pub feats: u32,
}

pub const F_HEREDOC: u32 = 1;
pub const F_ESCAPE: u32 = 2;
pub const F_PAREN: u32 = 4;
pub const F_COMMENT: u32 = 8;
pub const F_ONELINE: u32 = 16;
pub const F_CRLF: u32 = 32;
pub const F_TRAILCOMMA: u32 = 64;
pub const F_RETURN: u32 = 128;

pub fn render(r: &mut Rng, d: &Doc, s: Style) -> (String, u32) {
    let mut x = Rend {
        r,
        out: String::new(),
        s,
        feats: 0,
    };
    x.doc(d);
    (x.out, x.feats)
}

pub fn render_expr(r: &mut Rng, e: &E, s: Style) -> String {
    let mut x = Rend {
        r,
        out: String::new(),
        s,
        feats: 0,
    };
    x.expr(e, true);
    x.out
}

pub fn canon(d: &Doc) -> String {
    let mut r = Rng::new(0, "canon", 0);
    render(&mut r, d, Style::CANON).0
}

fn comment_text(r: &mut Rng) -> String {
    let mut s = String::new();
    // Now and then a long one
    let n = if r.one_in(60) { r.size(1500) } else { r.below(4) };
    for _ in 0..n {
        match r.below(8) {
            0 => s.push_str(r.pick(WORDS)),
            // Ends no line
            7 => s.push('\r'),
            6 => {
                // Anything that is not a line end
                let c = if r.one_in(2) { special_char(r) } else { any_char(r) };
                if c != '\n' && c != '\r' {
                    s.push(c);
                }
            }
            1 => s.push(r.pickc(&['"', '{', '}', '[', ']', '=', ',', '#', '\\', '<', '(', ')', '*', '/', '\'', '$'])),
            2 => s.push_str(r.pick(&["<<EOF", "a = 1", "/*", "//", "\"un", "}", "é", "藏 老虎", "]]", "**", "\t", "😀"])),
            _ => s.push(' '),
        }
    }
    s
}

impl<'a> Rend<'a> {
    fn eol(&mut self) {
        if self.s.wild && self.r.one_in(6) {
            self.feats |= F_CRLF;
            self.out.push_str("\r\n");
        } else {
            self.out.push('\n');
        }
    }

    fn inline_comment(&mut self) {
        self.feats |= F_COMMENT;
        let mut t = comment_text(self.r);
        if self.r.one_in(5) {
            t.push_str("\n second line");
        }
        while t.contains("*/") {
            t = t.replace("*/", "* /");
        }
        self.out.push_str("/*");
        self.out.push_str(&t);
        self.out.push_str("*/");
    }

    fn line_comment(&mut self) {
        self.feats |= F_COMMENT;
        let t = comment_text(self.r);
        self.out.push_str(if self.r.one_in(2) { "#" } else { "//" });
        self.out.push_str(&t);
        if t.contains('\r') {
            self.feats |= F_RETURN;
        }
        self.eol();
    }

    /// Optional inline whitespace
    fn iws(&mut self) {
        if !self.s.wild {
            return;
        }
        match self.r.below(12) {
            0..=3 => {}
            4..=7 => self.out.push(' '),
            8 => self.out.push_str("  "),
            9 => self.out.push('\t'),
            10 => {
                let n = if self.r.one_in(20) { 1200 } else { 20 };
                for _ in 0..self.r.size(n) {
                    self.out.push(' ');
                }
            }
            _ => {
                for _ in 0..self.r.range(1, 2) {
                    self.inline_comment();
                    if self.r.one_in(2) {
                        self.out.push(' ');
                    }
                }
            }
        }
    }

    /// At least one separating inline whitespace
    fn iws1(&mut self) {
        if !self.s.wild {
            self.out.push(' ');
            return;
        }
        if self.r.one_in(12) {
            self.inline_comment();
        } else {
            self.out.push(self.r.pickc(&[' ', ' ', ' ', '\t']));
        }
        self.iws();
    }

    /// Whitespace of any kind, newlines and comments included
    fn ws(&mut self) {
        if !self.s.wild {
            return;
        }
        let n = if self.r.one_in(80) { self.r.size(300) } else { self.r.below(4) };
        for _ in 0..n {
            match self.r.below(8) {
                0..=2 => self.iws(),
                3..=5 => self.eol(),
                6 => self.line_comment(),
                _ => self.inline_comment(),
            }
        }
    }

    /// A newline sequence (at least one newline), possibly followed by blank and comment lines
    fn nl(&mut self) {
        if !self.s.wild {
            self.out.push('\n');
            return;
        }
        self.iws();
        if self.r.one_in(6) {
            self.line_comment();
        } else {
            self.eol();
        }
        if self.r.one_in(3) {
            self.ws();
        }
        for _ in 0..self.r.below(3) {
            self.out.push(' ');
        }
    }

    pub fn quoted(&mut self, s: &str, multiline: bool) {
        let s2 = quote(self.r, s, multiline, self.s.escapes);
        if s2.contains('\\') {
            self.feats |= F_ESCAPE;
        }
        self.out.push_str(&s2);
    }

    /// Renders an expression; `heredoc`: whether a newline may follow.
    /// Returns whether a newline *must* follow.
    fn expr(&mut self, e: &E, heredoc: bool) -> bool {
        if self.s.parens && self.s.dialect == Dialect::New && self.r.one_in(10) {
            self.feats |= F_PAREN;
            self.out.push('(');
            self.ws();
            let must = self.expr(e, true);
            if must {
                self.eol();
            }
            self.ws();
            self.out.push(')');
            return false;
        }
        match e {
            E::Null => self.out.push_str("null"),
            E::Num(t) => self.out.push_str(t),
            E::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            E::Str(s) => {
                if heredoc && self.s.heredocs && self.r.one_in(4) {
                    if let Some(h) = heredoc_of(self.r, s) {
                        self.feats |= F_HEREDOC;
                        self.out.push_str(&h);
                        return true;
                    }
                }
                self.quoted(s, true)
            }
            E::Tuple(t) => {
                self.out.push('[');
                self.ws();
                for (i, e) in t.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        if !self.s.wild {
                            self.out.push(' ');
                        }
                        self.ws();
                    }
                    if self.expr(e, true) {
                        self.eol();
                    }
                    self.ws();
                }
                if self.s.wild && !t.is_empty() && self.r.one_in(3) {
                    self.feats |= F_TRAILCOMMA;
                    self.out.push(',');
                    self.ws();
                }
                self.out.push(']');
            }
            E::Obj(o) => {
                self.out.push('{');
                if !self.s.wild && !o.is_empty() {
                    self.out.push('\n');
                }
                self.ws();
                for (i, (k, v)) in o.iter().enumerate() {
                    let last = i + 1 == o.len();
                    self.key(k);
                    if !self.s.wild {
                        self.out.push(' ');
                    }
                    self.iws();
                    self.out.push('=');
                    if !self.s.wild {
                        self.out.push(' ');
                    }
                    self.iws();
                    let must = self.expr(v, true);
                    if must {
                        self.eol();
                        self.ws();
                        continue;
                    }
                    self.iws();
                    if !self.s.wild {
                        self.out.push('\n');
                    } else if last && self.s.dialect == Dialect::New && self.r.one_in(3) {
                        // nothing between the last element and the brace
                    } else if self.r.one_in(2) {
                        self.out.push(',');
                        if last {
                            self.feats |= F_TRAILCOMMA;
                        }
                        self.ws();
                    } else {
                        self.nl();
                    }
                }
                self.out.push('}');
            }
        }
        false
    }

    fn key(&mut self, k: &K) {
        match k {
            K::Ident(s) => self.out.push_str(s),
            K::Expr(E::Str(s)) => {
                let multi = self.s.dialect == Dialect::New;
                if multi && self.s.parens && self.r.one_in(4) {
                    self.out.push('(');
                    self.ws();
                    self.quoted(s, multi);
                    self.ws();
                    self.out.push(')');
                } else {
                    self.quoted(s, multi);
                }
            }
            // An expression which does not begin like an identifier
            K::Expr(e @ E::Null) | K::Expr(e @ E::Bool(_)) => {
                self.out.push('(');
                self.expr(e, true);
                self.out.push(')');
            }
            K::Expr(e) => {
                self.expr(e, false);
            }
        }
    }

    pub fn attr(&mut self, n: &str, e: &E, heredoc: bool) -> bool {
        self.out.push_str(n);
        if !self.s.wild {
            self.out.push(' ');
        }
        self.iws();
        self.out.push('=');
        if !self.s.wild {
            self.out.push(' ');
        }
        self.iws();
        self.expr(e, heredoc)
    }

    pub fn block(&mut self, b: &Bl) {
        self.out.push_str(&b.ty);
        for (i, l) in b.labels.iter().enumerate() {
            if l.quoted {
                // Quotes delimit themselves
                if !self.s.wild || (i == 0 && self.s.dialect != Dialect::New) {
                    self.iws1();
                } else {
                    self.iws();
                }
                self.quoted(&l.text, false);
            } else {
                // an identifier right after a closing quote needs no space, keep one anyway
                self.iws1();
                self.out.push_str(&l.text);
            }
        }
        if !self.s.wild {
            self.out.push(' ');
        }
        self.iws();
        self.out.push('{');
        if b.body.is_empty() && (!self.s.wild || self.r.one_in(2)) {
            self.feats |= F_ONELINE;
            self.iws();
            self.out.push('}');
            return;
        }
        if self.s.wild && self.s.dialect == Dialect::New && b.body.len() == 1 && self.r.one_in(2) {
            if let El::Attr(n, e) = &b.body[0] {
                self.feats |= F_ONELINE;
                self.iws();
                self.attr(n, e, false);
                self.iws();
                self.out.push('}');
                return;
            }
        }
        self.nl();
        self.elems(&b.body, false);
        self.out.push('}');
    }

    fn elems(&mut self, d: &Doc, top: bool) {
        if self.s.wild {
            self.ws();
        }
        for (i, el) in d.iter().enumerate() {
            let last = i + 1 == d.len();
            let must = match el {
                El::Attr(n, e) => self.attr(n, e, true),
                El::Block(b) => {
                    self.block(b);
                    false
                }
            };
            if must {
                self.eol();
                self.ws();
                continue;
            }
            if last && top && self.s.wild && self.r.one_in(4) {
                self.iws();
                break;
            }
            if self.s.dialect == Dialect::Legacy && self.s.wild && self.r.one_in(4) {
                self.iws();
                self.out.push(',');
                self.ws();
                continue;
            }
            self.nl();
        }
    }

    pub fn doc(&mut self, d: &Doc) {
        self.elems(d, true);
    }
}

/// Quote a string; with `escapes`, spell characters in randomly chosen ways
pub fn quote(r: &mut Rng, s: &str, multiline: bool, escapes: bool) -> String {
    let mut out = String::with_capacity(s.len() + 2);
    out.push('"');
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        let next = it.peek().copied();
        let must = c == '"' || c == '\\' || (!multiline && (c == '\n' || c == '\r'));
        if !must && (!escapes || !r.one_in(8)) {
            out.push(c);
            continue;
        }
        if !escapes {
            out.push_str(match c {
                '"' => "\\\"",
                '\\' => "\\\\",
                '\n' => "\\n",
                _ => "\\r",
            });
            continue;
        }
        out.push_str(&escape_char(r, c, next));
    }
    out.push('"');
    out
}

/// One of the escape sequences which denote `c`, given the character that follows
pub fn escape_char(r: &mut Rng, c: char, next: Option<char>) -> String {
    let named = match c {
        '\x07' => Some("\\a"),
        '\x08' => Some("\\b"),
        '\x0c' => Some("\\f"),
        '\n' => Some("\\n"),
        '\r' => Some("\\r"),
        '\t' => Some("\\t"),
        '\x0b' => Some("\\v"),
        '\\' => Some("\\\\"),
        '"' => Some("\\\""),
        '?' => Some("\\?"),
        _ => None,
    };
    if let Some(n) = named {
        if r.one_in(2) {
            return n.to_string();
        }
    }
    let v = c as u32;
    // Short forms are only safe when no further digit follows
    let short = !next.map_or(false, |n| n.is_ascii_hexdigit()) && r.one_in(2);
    let upper = r.one_in(2);
    let hex = |w: usize| -> String {
        if upper {
            format!("{:0w$X}", v, w = w)
        } else {
            format!("{:0w$x}", v, w = w)
        }
    };
    for _ in 0..20 {
        match r.below(4) {
            0 if v <= 0o777 => {
                return if short {
                    format!("\\{:o}", v)
                } else {
                    format!("\\{:03o}", v)
                }
            }
            1 if v <= 0xff => return format!("\\x{}", hex(if short { 1 } else { 2 })),
            2 if v <= 0xffff => {
                let w = if short { r.range(1, 4) } else { 4 };
                return format!("\\u{}", hex(w));
            }
            3 => {
                let w = if short { r.range(1, 8) } else { 8 };
                return format!("\\U{}", hex(w));
            }
            _ => {}
        }
    }
    format!("\\U{:08x}", v)
}

/// Spell a string as a heredoc (without the newline that has to follow), when possible
pub fn heredoc_of(r: &mut Rng, s: &str) -> Option<String> {
    if s.len() > 20000 {
        return None;
    }
    // A line which is entirely made of whitespace at the end is fine, a lone empty content too
    let id = r.pick(&["EOF", "E", "EOH", "_x", "藏", "END_1", "eof2", "1"]);
    let closes = |l: &str| l.trim_end_matches('\r').trim_start_matches(|c| c == ' ' || c == '\t') == id;
    if s.split('\n').any(|l| closes(l)) {
        return None;
    }
    let eol = if r.one_in(8) { "\r\n" } else { "\n" };
    // A carriage return at the end would be taken for a part of the line's end
    let last = if s.ends_with('\r') || r.one_in(20) { "\r\n" } else { "\n" };
    let mut out = String::new();
    if r.one_in(2) {
        out.push_str("<<");
        out.push_str(id);
        out.push_str(eol);
        if !s.is_empty() {
            out.push_str(s);
            out.push_str(last);
        }
        for _ in 0..r.below(4) {
            out.push(' ');
        }
        out.push_str(id);
    } else {
        let n = r.below(6);
        let pad = " ".repeat(n);
        out.push_str("<<-");
        out.push_str(id);
        out.push_str(eol);
        if !s.is_empty() {
            for (k, l) in s.split('\n').enumerate() {
                if k > 0 {
                    out.push('\n');
                }
                out.push_str(&pad);
                out.push_str(l);
            }
            out.push_str(last);
        }
        out.push_str(&pad);
        out.push_str(id);
    }
    Some(out)
}
