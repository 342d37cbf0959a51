//! The reference document model: what a document *means*, independently of the crate's types,
//! plus conversions from the crate's results into the model.
use ferrous_chloride::parser::block::BlockLabel;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::{Block, Body, Expression};
use ferrous_chloride::value::{MapValues, Value};
use ferrous_chloride::KeyValuePairs;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Null,
    /// Literal source text of the number
    Num(String),
    Bool(bool),
    Str(String),
    Tuple(Vec<E>),
    Obj(Vec<(K, E)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Ident(String),
    /// A key written as an expression
    Expr(E),
}

#[derive(Clone, Debug, PartialEq)]
pub struct L {
    pub quoted: bool,
    pub text: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Bl {
    pub ty: String,
    pub labels: Vec<L>,
    pub body: Vec<El>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    Attr(String, E),
    Block(Bl),
}

pub type Doc = Vec<El>;

pub fn from_expr(e: &Expression) -> Result<E, String> {
    Ok(match e {
        Expression::Null => E::Null,
        Expression::Number(n) => E::Num(n.to_string_text()),
        Expression::Boolean(b) => E::Bool(*b),
        Expression::String(s) => E::Str(s.to_string()),
        Expression::Tuple(t) => E::Tuple(t.iter().map(from_expr).collect::<Result<_, _>>()?),
        Expression::Object(o) => E::Obj(
            o.iter()
                .map(|(k, v)| Ok((from_key(k)?, from_expr(v)?)))
                .collect::<Result<_, String>>()?,
        ),
    })
}

trait NumText {
    fn to_string_text(&self) -> String;
}
impl<'a> NumText for ferrous_chloride::parser::number::Number<'a> {
    fn to_string_text(&self) -> String {
        let s: &str = self;
        s.to_string()
    }
}

/// Keys written as expressions are kept as source text by the crate: compare what the text means
pub fn from_key(k: &ObjectElementIdentifier) -> Result<K, String> {
    Ok(match k {
        ObjectElementIdentifier::Identifier(i) => K::Ident(i.to_string()),
        ObjectElementIdentifier::Expression(text) => {
            let e = Expression::parse(text)
                .map_err(|e| format!("object key text {:?} does not parse: {}", text, e))?;
            K::Expr(from_expr(&e)?)
        }
    })
}

pub fn from_label(l: &BlockLabel) -> L {
    match l {
        BlockLabel::StringLiteral(s) => L {
            quoted: true,
            text: s.to_string(),
        },
        BlockLabel::Identifier(s) => L {
            quoted: false,
            text: s.to_string(),
        },
    }
}

pub fn from_block(b: &Block) -> Result<Bl, String> {
    Ok(Bl {
        ty: b.r#type.to_string(),
        labels: b.labels.iter().map(from_label).collect(),
        body: from_body(&b.body)?,
    })
}

pub fn from_body(b: &Body) -> Result<Doc, String> {
    b.iter()
        .map(|el| {
            Ok(match el {
                BodyElement::Attribute((name, e)) => El::Attr(name.to_string(), from_expr(e)?),
                BodyElement::Block(b) => El::Block(from_block(b)?),
            })
        })
        .collect()
}

/// Short description of the first difference between two documents
pub fn diff(expected: &Doc, actual: &Doc) -> String {
    let e = format!("{:?}", expected);
    let a = format!("{:?}", actual);
    diff_text(&e, &a)
}

pub fn diff_text(e: &str, a: &str) -> String {
    let ec: Vec<char> = e.chars().collect();
    let ac: Vec<char> = a.chars().collect();
    let mut i = 0;
    while i < ec.len() && i < ac.len() && ec[i] == ac[i] {
        i += 1;
    }
    let s = i.saturating_sub(40);
    let cut = |v: &Vec<char>| -> String { v[s.min(v.len())..(s + 160).min(v.len())].iter().collect() };
    format!(
        "first difference at char {}: expected ...{}... got ...{}...",
        i,
        cut(&ec),
        cut(&ac)
    )
}

// ---------------------------------------------------------------------------------------------
// Legacy values

/// What a document means to the legacy (`value`) interface
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Int(i64),
    /// Bits of the float
    Float(u64),
    Bool(bool),
    Str(String),
    List(Vec<V>),
    Obj(Vec<M>),
    Block(Vec<(Vec<String>, M)>),
}

/// (merged?, entries in order, or sorted by key when merged)
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub merged: bool,
    pub entries: Vec<(String, V)>,
}

pub fn num_to_v(text: &str) -> V {
    match text.parse::<i64>() {
        Ok(i) => V::Int(i),
        Err(_) => V::Float(text.parse::<f64>().expect("generated literal").to_bits()),
    }
}

pub fn v_of_expr(e: &E) -> V {
    match e {
        E::Null => V::Null,
        E::Num(t) => num_to_v(t),
        E::Bool(b) => V::Bool(*b),
        E::Str(s) => V::Str(s.clone()),
        E::Tuple(t) => V::List(t.iter().map(v_of_expr).collect()),
        E::Obj(o) => V::Obj(vec![M {
            merged: false,
            entries: o
                .iter()
                .map(|(k, v)| {
                    let k = match k {
                        K::Ident(s) => s.clone(),
                        K::Expr(E::Str(s)) => s.clone(),
                        _ => panic!("harness: object key outside of the common subset"),
                    };
                    (k, v_of_expr(v))
                })
                .collect(),
        }]),
    }
}

/// Expected unmerged legacy result
pub fn m_of_doc(d: &Doc) -> M {
    M {
        merged: false,
        entries: d
            .iter()
            .map(|el| match el {
                El::Attr(n, e) => (n.clone(), v_of_expr(e)),
                El::Block(b) => {
                    let m = m_of_doc(&b.body);
                    (
                        b.ty.clone(),
                        if b.labels.is_empty() {
                            V::Obj(vec![m])
                        } else {
                            V::Block(vec![(b.labels.iter().map(|l| l.text.clone()).collect(), m)])
                        },
                    )
                }
            })
            .collect(),
    }
}

pub fn m_from(m: &MapValues) -> M {
    match m {
        KeyValuePairs::Unmerged(v) => M {
            merged: false,
            entries: v.iter().map(|(k, v)| (k.to_string(), v_from(v))).collect(),
        },
        KeyValuePairs::Merged(h) => {
            let mut entries: Vec<_> = h.iter().map(|(k, v)| (k.to_string(), v_from(v))).collect();
            entries.sort_by(|a, b| a.0.cmp(&b.0));
            M {
                merged: true,
                entries,
            }
        }
    }
}

pub fn v_from(v: &Value) -> V {
    match v {
        Value::Null => V::Null,
        Value::Integer(i) => V::Int(*i),
        Value::Float(f) => V::Float(f.to_bits()),
        Value::Boolean(b) => V::Bool(*b),
        Value::String(s) => V::Str(s.clone()),
        Value::List(l) => V::List(l.iter().map(v_from).collect()),
        Value::Object(o) => V::Obj(o.iter().map(m_from).collect()),
        Value::Block(b) => {
            let mut entries: Vec<(Vec<String>, M)> = match b {
                KeyValuePairs::Unmerged(v) => v.iter().map(|(k, m)| (k.clone(), m_from(m))).collect(),
                KeyValuePairs::Merged(h) => h.iter().map(|(k, m)| (k.clone(), m_from(m))).collect(),
            };
            if let KeyValuePairs::Merged(_) = b {
                entries.sort_by(|a, b| a.0.cmp(&b.0));
            }
            V::Block(entries)
        }
    }
}

/// Number of scalars (null included) in a legacy tree
pub fn scalars_v(v: &V) -> usize {
    match v {
        V::List(l) => l.iter().map(scalars_v).sum(),
        V::Obj(ms) => ms.iter().map(scalars_m).sum(),
        V::Block(b) => b.iter().map(|(_, m)| scalars_m(m)).sum(),
        _ => 1,
    }
}

pub fn scalars_m(m: &M) -> usize {
    m.entries.iter().map(|(_, v)| scalars_v(v)).sum()
}

pub fn count_elems(d: &Doc) -> usize {
    d.iter()
        .map(|e| match e {
            El::Attr(..) => 1,
            El::Block(b) => 1 + count_elems(&b.body),
        })
        .sum()
}

pub fn depth_e(e: &E) -> usize {
    match e {
        E::Tuple(t) => 1 + t.iter().map(depth_e).max().unwrap_or(0),
        E::Obj(o) => 1 + o.iter().map(|(_, v)| depth_e(v)).max().unwrap_or(0),
        _ => 0,
    }
}

pub fn depth(d: &Doc) -> usize {
    d.iter()
        .map(|e| match e {
            El::Attr(_, e) => depth_e(e),
            El::Block(b) => 1 + depth(&b.body),
        })
        .max()
        .unwrap_or(0)
}
