//! An independent recognizer of the documented grammar. Its verdict has three values: the text
//! means this document, the text is malformed, or the grammar leaves it open (then nothing is
//! claimed about the text).
use crate::model::*;
use unic_ucd_ident::{is_id_continue, is_id_start};

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict<T> {
    Valid(T),
    Invalid,
    /// Left open whether it is a document; if it is read as one, then as this, if anything is given
    Open(&'static str, Option<T>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Bad {
    No,
    Open(&'static str),
}

type R<T> = Result<T, Bad>;

struct P {
    s: Vec<char>,
    i: usize,
    /// Why it is left open whether what was read so far belongs to the language
    open: Option<&'static str>,
}

pub fn document(text: &str) -> Verdict<Doc> {
    let mut p = P::new(text);
    let r = p.doc();
    wrap(&p, r)
}

pub fn expression(text: &str) -> Verdict<E> {
    let mut p = P::new(text);
    // Layout before an expression on its own: skipped before some kinds, and no rule says
    let lead = p.ws();
    if p.i > 0 {
        p.leave_open("layout before an expression");
    }
    let e = lead.and_then(|_| p.expr()).and_then(|e| if p.eof() { Ok(e) } else { Err(Bad::No) });
    wrap(&p, e)
}

pub fn legacy(text: &str) -> Verdict<M> {
    let mut p = P::new(text);
    let r = p.legacy_doc();
    wrap(&p, r)
}

fn wrap<T>(p: &P, r: R<T>) -> Verdict<T> {
    match (r, p.open) {
        (Ok(t), None) => Verdict::Valid(t),
        (Ok(t), Some(why)) => Verdict::Open(why, Some(t)),
        (Err(Bad::No), _) => Verdict::Invalid,
        (Err(Bad::Open(why)), _) => Verdict::Open(why, None),
    }
}

impl P {
    fn new(text: &str) -> P {
        P {
            s: text.chars().collect(),
            i: 0,
            open: None,
        }
    }
    fn leave_open(&mut self, why: &'static str) {
        self.open = self.open.or(Some(why));
    }
    fn eof(&self) -> bool {
        self.i >= self.s.len()
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<char> {
        self.s.get(self.i + k).copied()
    }
    fn looking(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.at(k) == Some(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(Bad::No)
        }
    }
    fn eol_len(&self, k: usize) -> usize {
        match (self.s.get(k), self.s.get(k + 1)) {
            (Some('\n'), _) => 1,
            (Some('\r'), Some('\n')) => 2,
            _ => 0,
        }
    }

    /// Whitespace within a line, and inline comments
    fn iws(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(' ') | Some('\t') => self.i += 1,
                Some('/') if self.at(1) == Some('*') => {
                    let mut k = self.i + 2;
                    while k + 1 < self.s.len() && !(self.s[k] == '*' && self.s[k + 1] == '/') {
                        k += 1;
                    }
                    if k + 1 >= self.s.len() {
                        return Err(Bad::No);
                    }
                    self.i = k + 2;
                }
                _ => return Ok(()),
            }
        }
    }

    /// One end of line or line comment, if there is one
    fn line_end(&mut self) -> R<bool> {
        let n = self.eol_len(self.i);
        if n > 0 {
            self.i += n;
            return Ok(true);
        }
        if self.peek() == Some('#') || self.looking("//") {
            let mut k = self.i;
            // Up to the next newline sequence: a carriage return alone is none
            while k < self.s.len() && self.eol_len(k) == 0 {
                k += 1;
            }
            if k == self.s.len() {
                self.i = k;
                self.leave_open("a comment which ends with the input");
                return Ok(true);
            }
            self.i = k + self.eol_len(k);
            return Ok(true);
        }
        if self.peek() == Some('\r') {
            return Err(Bad::Open("a lone carriage return"));
        }
        Ok(false)
    }

    /// Anything that separates
    fn ws(&mut self) -> R<()> {
        loop {
            self.iws()?;
            if !self.line_end()? {
                return Ok(());
            }
        }
    }

    fn ident(&mut self) -> Option<String> {
        let c = self.peek()?;
        if !(is_id_start(c) || c == '_') {
            return None;
        }
        let mut s = String::new();
        while let Some(c) = self.peek() {
            if is_id_continue(c) || c == '-' {
                s.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        Some(s)
    }

    fn doc(&mut self) -> R<Doc> {
        let mut d = vec![];
        self.ws()?;
        while !self.eof() {
            d.push(self.elem()?);
            self.iws()?;
            if self.eof() {
                break;
            }
            if !self.line_end()? {
                return Err(Bad::No);
            }
            self.ws()?;
        }
        Ok(d)
    }

    fn elem(&mut self) -> R<El> {
        let name = self.ident().ok_or(Bad::No)?;
        self.iws()?;
        if self.eat('=') {
            self.iws()?;
            return Ok(El::Attr(name, self.expr()?));
        }
        let mut labels = vec![];
        loop {
            self.iws()?;
            if self.eat('{') {
                break;
            }
            if self.peek() == Some('"') {
                labels.push(L {
                    quoted: true,
                    text: self.quoted(false)?,
                });
            } else {
                labels.push(L {
                    quoted: false,
                    text: self.ident().ok_or(Bad::No)?,
                });
            }
        }
        self.iws()?;
        let mut body = vec![];
        if self.line_end()? {
            self.ws()?;
            while !self.eat('}') {
                body.push(self.elem()?);
                self.iws()?;
                if self.eof() || !self.line_end()? {
                    return Err(Bad::No);
                }
                self.ws()?;
            }
        } else if !self.eat('}') {
            let name = self.ident().ok_or(Bad::No)?;
            self.iws()?;
            self.need('=')?;
            self.iws()?;
            body.push(El::Attr(name, self.expr()?));
            self.iws()?;
            if self.line_end()? {
                // `a { b = 1` and a newline
                self.ws()?;
                return Err(Bad::No);
            }
            self.need('}')?;
        }
        Ok(El::Block(Bl {
            ty: name,
            labels,
            body,
        }))
    }

    fn expr(&mut self) -> R<E> {
        for (w, e) in &[("null", E::Null), ("true", E::Bool(true)), ("false", E::Bool(false))] {
            if self.looking(w) {
                self.i += w.len();
                return Ok(e.clone());
            }
        }
        match self.peek() {
            Some('"') => Ok(E::Str(self.quoted(true)?)),
            Some('<') if self.at(1) == Some('<') => Ok(E::Str(self.heredoc()?)),
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws()?;
                while !self.eat(']') {
                    v.push(self.expr()?);
                    self.ws()?;
                    if self.eat(',') {
                        self.ws()?;
                    } else if self.peek() != Some(']') {
                        return Err(Bad::No);
                    }
                }
                Ok(E::Tuple(v))
            }
            Some('{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws()?;
                while !self.eat('}') {
                    let k = match self.ident() {
                        Some(s) => K::Ident(s),
                        None => K::Expr(self.expr()?),
                    };
                    self.iws()?;
                    self.need('=')?;
                    self.iws()?;
                    v.push((k, self.expr()?));
                    self.iws()?;
                    if self.eat(',') {
                        self.ws()?;
                    } else if self.line_end()? {
                        self.ws()?;
                        if self.peek() == Some(',') {
                            self.leave_open("a newline before the comma");
                            self.i += 1;
                            self.ws()?;
                        }
                    } else if self.peek() != Some('}') {
                        return Err(Bad::No);
                    }
                }
                Ok(E::Obj(v))
            }
            Some('(') => {
                self.i += 1;
                self.ws()?;
                let e = self.expr()?;
                self.ws()?;
                self.need(')')?;
                Ok(e)
            }
            Some('\n') | Some('\r') | Some('#') | Some('/') => {
                self.ws()?;
                match self.peek() {
                    Some('{') | Some('(') => {
                        self.leave_open("a newline before an expression");
                        self.expr()
                    }
                    _ => Err(Bad::No),
                }
            }
            _ => self.number(),
        }
    }

    fn number(&mut self) -> R<E> {
        let from = self.i;
        if self.peek() == Some('+') || self.peek() == Some('-') {
            self.i += 1;
        }
        let digits = |p: &mut P| -> usize {
            let k = p.i;
            while p.peek().map_or(false, |c| c.is_ascii_digit()) {
                p.i += 1;
            }
            p.i - k
        };
        let w = digits(self);
        if self.peek() == Some('.') {
            self.i += 1;
            let f = digits(self);
            if w == 0 && f == 0 {
                return Err(Bad::No);
            }
        } else if w == 0 {
            return Err(Bad::No);
        }
        let before = self.i;
        if self.peek() == Some('e') || self.peek() == Some('E') {
            self.i += 1;
            if self.peek() == Some('+') || self.peek() == Some('-') {
                self.i += 1;
            }
            if digits(self) == 0 {
                self.i = before;
            }
        }
        Ok(E::Num(self.s[from..self.i].iter().collect()))
    }

    fn quoted(&mut self, multiline: bool) -> R<String> {
        self.need('"')?;
        let mut out = String::new();
        loop {
            let c = self.peek().ok_or(Bad::No)?;
            self.i += 1;
            match c {
                '"' => return Ok(out),
                '\n' | '\r' if !multiline => return Err(Bad::No),
                '\\' => {
                    let c = self.peek().ok_or(Bad::No)?;
                    self.i += 1;
                    let (radix, max) = match c {
                        'a' => { out.push('\x07'); continue }
                        'b' => { out.push('\x08'); continue }
                        'f' => { out.push('\x0c'); continue }
                        'n' => { out.push('\n'); continue }
                        'r' => { out.push('\r'); continue }
                        't' => { out.push('\t'); continue }
                        'v' => { out.push('\x0b'); continue }
                        '\\' | '"' | '?' => { out.push(c); continue }
                        '0'..='7' => { self.i -= 1; (8, 3) }
                        'x' => (16, 2),
                        'u' => (16, 4),
                        'U' => (16, 8),
                        _ => return Err(Bad::No),
                    };
                    let mut v: u64 = 0;
                    let mut n = 0;
                    while n < max {
                        match self.peek().and_then(|c| c.to_digit(radix)) {
                            Some(d) => {
                                v = v * u64::from(radix) + u64::from(d);
                                n += 1;
                                self.i += 1;
                            }
                            None => break,
                        }
                    }
                    if n == 0 || v > 0x10ffff {
                        return Err(Bad::No);
                    }
                    out.push(std::char::from_u32(v as u32).ok_or(Bad::No)?);
                }
                c => out.push(c),
            }
        }
    }

    fn heredoc(&mut self) -> R<String> {
        self.i += 2;
        let indented = self.eat('-');
        let mut id = vec![];
        while let Some(c) = self.peek() {
            if c.is_alphanumeric() || c == '_' {
                id.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        let n = self.eol_len(self.i);
        if id.is_empty() || n == 0 {
            return Err(Bad::No);
        }
        let start = self.i + n;
        // Line by line
        let mut line = start;
        let mut lines: Vec<String> = vec![];
        loop {
            let mut k = line;
            while k < self.s.len() && (self.s[k] == ' ' || self.s[k] == '\t') {
                k += 1;
            }
            let blank = self.s[line..k].to_vec();
            if self.s[k..].starts_with(&id) {
                let e = k + id.len();
                if self.eol_len(e) > 0 || e >= self.s.len() {
                    if e >= self.s.len() {
                        self.leave_open("a heredoc which ends with the input");
                    }
                    let indent = if indented { blank.len() } else { 0 };
                    if indent > 0 && blank.contains(&'\t') {
                        return Err(Bad::Open("a heredoc indented by tabs"));
                    }
                    self.i = e;
                    // The end of the last line belongs to the terminator
                    if let Some(l) = lines.last_mut() {
                        if l.ends_with('\r') {
                            l.pop();
                        }
                    }
                    let out: Vec<String> = lines
                        .iter()
                        .map(|l| {
                            let sp = l.chars().take(indent).take_while(|c| *c == ' ').count();
                            l[sp..].to_string()
                        })
                        .collect();
                    return Ok(out.join("\n"));
                }
            }
            let mut e = line;
            while e < self.s.len() && self.s[e] != '\n' {
                e += 1;
            }
            if e >= self.s.len() {
                return Err(Bad::No);
            }
            lines.push(self.s[line..e].iter().collect());
            line = e + 1;
        }
    }

    // -----------------------------------------------------------------------------------------
    // The legacy interface

    fn legacy_doc(&mut self) -> R<M> {
        let m = self.legacy_map()?;
        if self.eof() {
            Ok(m)
        } else {
            Err(Bad::No)
        }
    }

    /// Everything up to the end or a closing brace
    fn legacy_map(&mut self) -> R<M> {
        let mut entries = vec![];
        self.ws()?;
        while !self.eof() && self.peek() != Some('}') {
            entries.push(self.legacy_elem()?);
            self.iws()?;
            if self.eof() {
                break;
            }
            if self.peek() == Some('}') {
                self.leave_open("no separator after the last element of a map");
                break;
            }
            if !self.eat(',') {
                if !self.line_end()? {
                    return Err(Bad::No);
                }
                self.ws()?;
                // The comma may be on another line
                self.eat(',');
            }
            self.ws()?;
        }
        Ok(M {
            merged: false,
            entries,
        })
    }

    fn legacy_elem(&mut self) -> R<(String, V)> {
        let (name, quoted) = if self.peek() == Some('"') {
            (self.quoted(false)?, true)
        } else {
            (self.ident().ok_or(Bad::No)?, false)
        };
        self.iws()?;
        if self.eat('=') {
            self.iws()?;
            return Ok((name, self.legacy_value()?));
        }
        if quoted {
            return Err(Bad::No);
        }
        let mut labels = vec![];
        loop {
            self.iws()?;
            if self.peek() == Some('"') {
                labels.push(self.quoted(false)?);
            } else {
                break;
            }
        }
        if self.peek() != Some('{') {
            self.ws()?;
            if self.peek() != Some('{') {
                return Err(Bad::No);
            }
            self.leave_open("a newline before a brace");
        }
        self.i += 1;
        let m = self.legacy_map()?;
        self.need('}')?;
        Ok((
            name,
            if labels.is_empty() {
                V::Obj(vec![m])
            } else {
                V::Block(vec![(labels, m)])
            },
        ))
    }

    fn legacy_value(&mut self) -> R<V> {
        match self.peek() {
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws()?;
                while !self.eat(']') {
                    v.push(self.legacy_value()?);
                    self.ws()?;
                    if self.eat(',') {
                        self.ws()?;
                    } else if self.peek() != Some(']') {
                        return Err(Bad::No);
                    }
                }
                Ok(V::List(v))
            }
            Some('{') => {
                self.i += 1;
                let m = self.legacy_map()?;
                self.need('}')?;
                Ok(V::Obj(vec![m]))
            }
            Some('(') => Err(Bad::Open("parentheses in the legacy interface")),
            Some('\n') | Some('\r') | Some('#') | Some('/') => {
                self.ws()?;
                if self.peek() != Some('{') {
                    return Err(Bad::No);
                }
                self.leave_open("a newline before a brace");
                self.legacy_value()
            }
            _ => Ok(v_of_expr(&self.expr()?)),
        }
    }
}
