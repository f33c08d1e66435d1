//! JSON: an independent strict parser, the expected document for a tree, and sinks that misbehave.
use crate::tree::*;
use crate::*;
use std::fmt;
use std::io;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

/// RFC 8259, nothing more.
pub fn parse(s: &str) -> Result<J, String> {
    let b: Vec<char> = s.chars().collect();
    let mut p = 0;
    ws(&b, &mut p);
    let v = value(&b, &mut p)?;
    ws(&b, &mut p);
    if p != b.len() {
        return Err(format!("trailing characters at {}", p));
    }
    Ok(v)
}
fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], ' ' | '\t' | '\n' | '\r') {
        *p += 1;
    }
}
fn lit(b: &[char], p: &mut usize, l: &str, v: J) -> Result<J, String> {
    for c in l.chars() {
        if b.get(*p) != Some(&c) {
            return Err(format!("bad literal at {}", p));
        }
        *p += 1;
    }
    Ok(v)
}
fn value(b: &[char], p: &mut usize) -> Result<J, String> {
    match b.get(*p) {
        None => Err("unexpected end".into()),
        Some('n') => lit(b, p, "null", J::Null),
        Some('t') => lit(b, p, "true", J::Bool(true)),
        Some('f') => lit(b, p, "false", J::Bool(false)),
        Some('"') => Ok(J::Str(string(b, p)?)),
        Some('[') => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b.get(*p) == Some(&']') {
                *p += 1;
                return Ok(J::Arr(v));
            }
            loop {
                ws(b, p);
                v.push(value(b, p)?);
                ws(b, p);
                match b.get(*p) {
                    Some(',') => *p += 1,
                    Some(']') => {
                        *p += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return Err(format!("expected , or ] at {}", p)),
                }
            }
        }
        Some('{') => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b.get(*p) == Some(&'}') {
                *p += 1;
                return Ok(J::Obj(v));
            }
            loop {
                ws(b, p);
                let k = string(b, p)?;
                ws(b, p);
                if b.get(*p) != Some(&':') {
                    return Err(format!("expected : at {}", p));
                }
                *p += 1;
                ws(b, p);
                v.push((k, value(b, p)?));
                ws(b, p);
                match b.get(*p) {
                    Some(',') => *p += 1,
                    Some('}') => {
                        *p += 1;
                        return Ok(J::Obj(v));
                    }
                    _ => return Err(format!("expected , or }} at {}", p)),
                }
            }
        }
        Some(_) => {
            let st = *p;
            number(b, p)?;
            Ok(J::Num(b[st..*p].iter().collect()))
        }
    }
}
fn number(b: &[char], p: &mut usize) -> Result<(), String> {
    let dig = |p: &mut usize| {
        let s = *p;
        while matches!(b.get(*p), Some('0'..='9')) {
            *p += 1;
        }
        *p - s
    };
    if b.get(*p) == Some(&'-') {
        *p += 1;
    }
    if b.get(*p) == Some(&'0') {
        *p += 1;
    } else if dig(p) == 0 {
        return Err(format!("expected a value at {}", p));
    }
    if b.get(*p) == Some(&'.') {
        *p += 1;
        if dig(p) == 0 {
            return Err(format!("expected a digit at {}", p));
        }
    }
    if matches!(b.get(*p), Some('e' | 'E')) {
        *p += 1;
        if matches!(b.get(*p), Some('+' | '-')) {
            *p += 1;
        }
        if dig(p) == 0 {
            return Err(format!("expected a digit at {}", p));
        }
    }
    Ok(())
}
fn string(b: &[char], p: &mut usize) -> Result<String, String> {
    if b.get(*p) != Some(&'"') {
        return Err(format!("expected a string at {}", p));
    }
    *p += 1;
    let mut s = String::new();
    loop {
        match b.get(*p) {
            None => return Err("unterminated string".into()),
            Some('"') => {
                *p += 1;
                return Ok(s);
            }
            Some('\\') => {
                *p += 1;
                let c = match b.get(*p) {
                    Some('"') => '"',
                    Some('\\') => '\\',
                    Some('/') => '/',
                    Some('b') => '\u{8}',
                    Some('f') => '\u{c}',
                    Some('n') => '\n',
                    Some('r') => '\r',
                    Some('t') => '\t',
                    Some('u') => {
                        let h = hex(b, p)?;
                        if (0xD800..0xDC00).contains(&h) {
                            *p += 1;
                            if b.get(*p) != Some(&'\\') || b.get(*p + 1) != Some(&'u') {
                                return Err("lone surrogate".into());
                            }
                            *p += 1;
                            let l = hex(b, p)?;
                            if !(0xDC00..0xE000).contains(&l) {
                                return Err("lone surrogate".into());
                            }
                            char::from_u32(0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)).ok_or("bad surrogate")?
                        } else {
                            char::from_u32(h).ok_or("lone surrogate")?
                        }
                    }
                    _ => return Err(format!("bad escape at {}", p)),
                };
                *p += 1;
                s.push(c);
            }
            Some(c) if (*c as u32) < 0x20 => return Err(format!("unescaped control character at {}", p)),
            Some(c) => {
                s.push(*c);
                *p += 1;
            }
        }
    }
}
fn hex(b: &[char], p: &mut usize) -> Result<u32, String> {
    let mut v = 0;
    for _ in 0..4 {
        *p += 1;
        v = v * 16 + b.get(*p).and_then(|c| c.to_digit(16)).ok_or("bad hex")?;
    }
    Ok(v)
}

/// A decimal as (negative, digits without leading or trailing zeroes, exponent of the last digit).
pub fn decimal(s: &str) -> Option<(bool, String, i64)> {
    let (neg, s) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&s[..i], s[i + 1..].parse::<i64>().ok()?),
        None => (s, 0),
    };
    let (i, f) = match m.find('.') {
        Some(p) => (&m[..p], &m[p + 1..]),
        None => (m, ""),
    };
    if i.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut d: String = format!("{}{}", i, f).trim_start_matches('0').to_string();
    let mut e = e - f.len() as i64;
    while d.ends_with('0') {
        d.pop();
        e += 1;
    }
    if d.is_empty() {
        return Some((false, d, 0));
    }
    Some((neg, d, e))
}

/// What a document must contain.
#[derive(Clone, Debug)]
pub enum X {
    Null,
    Bool(bool),
    Num(Ev<'static>),
    Decimal(String),
    Str(String),
    Arr(Vec<X>),
    Obj(Vec<(X, X)>),
    Json(J),
}

pub const INVALID_KEY: &str = "key";
pub const FAILED: &str = "value";

/// The document for a tree, or why there's none.
pub fn expected(n: &Node, in_enum: bool, key: bool) -> Result<X, &'static str> {
    let wrap = |m: &Meta, inner: &dyn Fn(bool) -> Result<X, &'static str>| -> Result<X, &'static str> {
        if in_enum {
            let k = match (&m.label, &m.index) {
                (Some(l), _) => Some(X::Str(l.text.to_string())),
                (None, Some(i)) => Some(X::Str(i.v.to_string())),
                _ => None,
            };
            if let Some(k) = k {
                if key {
                    return Err(INVALID_KEY);
                }
                return Ok(X::Obj(vec![(k, inner(false)?)]));
            }
        }
        inner(key)
    };
    let tag = |m: &Meta| {
        if same_tag(m.tag, Some(&T_NONE)) {
            X::Null
        } else if let Some(l) = &m.label {
            X::Str(l.text.to_string())
        } else if let Some(i) = &m.index {
            X::Decimal(i.v.to_string())
        } else {
            X::Null
        }
    };
    let structured = |key: bool| if key { Err(INVALID_KEY) } else { Ok(()) };
    Ok(match n {
        Node::Null => X::Null,
        Node::Bool(b) => X::Bool(*b),
        Node::Num(e) => match e.float() {
            Some(f) if !f.is_finite() => X::Null,
            Some(_) => X::Num(*e),
            None => {
                let (neg, m) = e.int().unwrap();
                X::Decimal(format!("{}{}", if neg { "-" } else { "" }, m))
            }
        },
        Node::Text(f, _) => X::Str(f.iter().map(|t| t.0).collect()),
        Node::Binary(f, _) => {
            structured(key)?;
            X::Arr(f.iter().flat_map(|t| t.0.iter()).map(|b| X::Decimal(b.to_string())).collect())
        }
        Node::Seq(v, _) => {
            structured(key)?;
            X::Arr(v.iter().map(|n| expected(n, false, false)).collect::<Result<_, _>>()?)
        }
        Node::Map(v, _) => {
            structured(key)?;
            X::Obj(v.iter().map(|(k, n)| Ok((expected(k, false, true)?, expected(n, false, false)?))).collect::<Result<_, _>>()?)
        }
        Node::Tag(m) => tag(m),
        Node::Tagged(m, None) => wrap(m, &|_| Ok(tag(m)))?,
        Node::Enum(m, None) => wrap(m, &|_| Ok(tag(m)))?,
        Node::Tagged(m, Some(n)) => wrap(m, &|k| {
            let text = || match normal(n) {
                Node::Text(f, _) => f[0].0,
                _ => unreachable!(),
            };
            if same_tag(m.tag, Some(&T_NUMBER)) || same_tag(m.tag, Some(&T_JNUMBER)) {
                Ok(X::Decimal(text().to_string()))
            } else if same_tag(m.tag, Some(&T_JVALUE)) {
                Ok(X::Json(parse(text()).unwrap()))
            } else if same_tag(m.tag, Some(&T_JTEXT)) {
                match parse(&format!("\"{}\"", text())).unwrap() {
                    J::Str(s) => Ok(X::Str(s)),
                    _ => unreachable!(),
                }
            } else {
                expected(n, false, k)
            }
        })?,
        Node::Enum(m, Some(n)) => wrap(m, &|k| expected(n, true, k))?,
        Node::Record(m, f, _) => wrap(m, &|k| {
            structured(k)?;
            Ok(X::Obj(f.iter().map(|(_, l, n)| Ok((X::Str(l.text.to_string()), expected(n, false, false)?))).collect::<Result<_, &str>>()?))
        })?,
        Node::RecordTuple(m, f, _) => wrap(m, &|k| {
            structured(k)?;
            Ok(X::Obj(f.iter().map(|(_, l, _, n)| Ok((X::Str(l.text.to_string()), expected(n, false, false)?))).collect::<Result<_, &str>>()?))
        })?,
        Node::Tuple(m, f, _) => wrap(m, &|k| {
            structured(k)?;
            Ok(X::Arr(f.iter().map(|(_, _, n)| expected(n, false, false)).collect::<Result<_, &str>>()?))
        })?,
        Node::Via(_, n) | Node::Hinted(_, n) => expected(n, in_enum, key)?,
        Node::Fail | Node::After(_) => return Err(FAILED),
    })
}

fn num_text(e: &Ev<'_>, s: &str) -> bool {
    match *e {
        Ev::F32(v) => s.parse::<f32>().map(|x| x.to_bits() == v.to_bits()).unwrap_or(false),
        Ev::F64(v) => s.parse::<f64>().map(|x| x.to_bits() == v.to_bits()).unwrap_or(false),
        _ => false,
    }
}
fn dec_text(d: &str, s: &str) -> bool {
    let a = decimal(d);
    a.is_some() && a == decimal(s)
}
pub fn matches_key(x: &X, s: &str) -> bool {
    match x {
        X::Null => s == "null",
        X::Bool(b) => s == if *b { "true" } else { "false" },
        X::Num(e) => num_text(e, s),
        X::Decimal(d) => dec_text(d, s),
        X::Str(t) => t == s,
        _ => false,
    }
}
pub fn matches_doc(x: &X, j: &J) -> bool {
    match (x, j) {
        (X::Null, J::Null) => true,
        (X::Bool(a), J::Bool(b)) => a == b,
        (X::Num(e), J::Num(s)) => num_text(e, s),
        (X::Decimal(d), J::Num(s)) => dec_text(d, s),
        (X::Str(a), J::Str(b)) => a == b,
        (X::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| matches_doc(a, b)),
        (X::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| matches_key(&a.0, &b.0) && matches_doc(&a.1, &b.1)),
        (X::Json(a), b) => a == b,
        _ => false,
    }
}

pub fn check_doc(n: &Node, got: Result<String, sval_json::Error>) {
    let want = expected(n, false, false);
    match (want, got) {
        (Ok(x), Ok(s)) => {
            let j = match parse(&s) {
                Ok(j) => j,
                Err(e) => panic!("not well-formed JSON: {}\n  document: {}\n  value: {:?}", e, s, n),
            };
            assert!(matches_doc(&x, &j), "the document doesn't mirror the value\n  document: {}\n  value: {:?}", s, n);
        }
        (Ok(_), Err(e)) => panic!("encoding failed: {}\n  value: {:?}", e, n),
        (Err(w), Ok(s)) => panic!("encoding should have failed ({})\n  document: {}\n  value: {:?}", w, s, n),
        (Err(w), Err(e)) => {
            if w == INVALID_KEY {
                assert!(e.to_string().contains("key"), "a structured key was rejected with the wrong error: {}", e);
            }
        }
    }
}

pub fn all_writers(n: &Node) {
    let s = sval_json::stream_to_string(n);
    let ok = s.is_ok();
    let text = s.as_ref().ok().cloned();
    check_doc(n, s);
    let v = sval_json::stream_to_vec(n);
    assert!(v.is_ok() == ok);
    if let Ok(v) = v {
        assert!(Some(&*v) == text.as_ref().map(|t| t.as_bytes()), "the byte and string writers disagree");
    }
    let mut f = String::new();
    assert!(sval_json::stream_to_fmt_write(&mut f, n).is_ok() == ok);
    if ok {
        assert!(Some(&f) == text.as_ref());
    }
    let js = sval_json::stream_to_json_str(n);
    assert!(js.is_ok() == ok);
    if let Ok(js) = js {
        assert!(Some(js.as_str()) == text.as_deref());
    }
}

pub const JVALUES: &[&str] = &["null", "1", "{\"a\":[1,2]}", "\"x\\n\"", "[]", "-1.5e3", "{}"];
pub const JTEXTS: &[&str] = &["", "a", "\\n", "\\u0001", "日本", "a\\\"b"];
pub const JNUMS: &[&str] = &["0", "-1", "1.5", "1e5", "-0.5E-3", "123456789012345678901234567890"];

/// A tree that also uses the JSON tags.
pub fn gen_json_node(g: &mut Gen, sh: Shape) -> Node {
    let mut n = gen_node(g, sh);
    sprinkle(g, &mut n, false);
    n
}
fn json_leaf(g: &mut Gen, key: bool) -> Node {
    let k = g.choose(3);
    let (t, s): (&'static sval::Tag, &'static str) = match k {
        0 if !key => (&T_JVALUE, JVALUES[g.choose(JVALUES.len())]),
        1 => (&T_JTEXT, JTEXTS[g.choose(JTEXTS.len())]),
        _ => (&T_JNUMBER, JNUMS[g.choose(JNUMS.len())]),
    };
    let f = split(g, s);
    Node::Tagged(Meta { tag: Some(t), ..gen_meta(g) }, Some(Node::Text(f, None).boxed()))
}
fn sprinkle(g: &mut Gen, n: &mut Node, key: bool) {
    match n {
        Node::Text(..) if g.choose(8) == 0 => *n = json_leaf(g, key),
        Node::Seq(v, _) => v.iter_mut().for_each(|n| sprinkle(g, n, false)),
        Node::Map(v, _) => v.iter_mut().for_each(|(k, n)| {
            sprinkle(g, k, true);
            sprinkle(g, n, false)
        }),
        Node::Tagged(m, Some(i)) if m.tag.map(|t| *t == T_NUMBER) == Some(true) => { let _ = i; }
        Node::Tagged(_, Some(i)) | Node::Enum(_, Some(i)) | Node::Via(_, i) | Node::Hinted(_, i) => sprinkle(g, i, key),
        Node::Record(_, f, _) => f.iter_mut().for_each(|f| sprinkle(g, &mut f.2, false)),
        Node::Tuple(_, f, _) => f.iter_mut().for_each(|f| sprinkle(g, &mut f.2, false)),
        Node::RecordTuple(_, f, _) => f.iter_mut().for_each(|f| sprinkle(g, &mut f.3, false)),
        _ => (),
    }
}

/// A writer that misbehaves in every way `io::Write` allows.
pub struct BadIo {
    pub out: Vec<u8>,
    /// Bytes after which it misbehaves for good.
    pub limit: usize,
    /// 0: error, 1: accepts nothing, 2: never misbehaves
    pub how: usize,
    /// Accept at most this many bytes per call.
    pub chunk: usize,
    /// Interrupt every n-th call.
    pub interrupt: usize,
    pub calls: usize,
    pub misbehaved: bool,
    /// Calls after the terminal failure.
    pub after: usize,
}
impl io::Write for BadIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.how < 2 && self.out.len() >= self.limit {
            if self.misbehaved {
                self.after += 1;
            }
            self.misbehaved = true;
            // any kind of error but an interruption is a failure
            const KINDS: &[io::ErrorKind] = &[
                io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero,
                io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::ConnectionReset, io::ErrorKind::NotFound,
                io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidData, io::ErrorKind::InvalidInput, io::ErrorKind::AlreadyExists,
                io::ErrorKind::ConnectionAborted, io::ErrorKind::ConnectionRefused, io::ErrorKind::NotConnected,
                io::ErrorKind::AddrInUse, io::ErrorKind::AddrNotAvailable, io::ErrorKind::OutOfMemory, io::ErrorKind::Unsupported,
                io::ErrorKind::StorageFull,
            ];
            assert!(self.after < 64, "the sink failed, and is written to again and again");
            return if self.how == 0 { Err(io::Error::new(KINDS[(self.limit + self.chunk) % KINDS.len()], "disk full")) } else { Ok(0) };
        }
        let mut n = b.len().min(self.chunk);
        if self.how < 2 {
            n = n.min(self.limit - self.out.len());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub struct BadFmt {
    pub out: String,
    pub left: usize,
    pub failed: bool,
    pub after: bool,
}
impl fmt::Write for BadFmt {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
        }
        if self.left == 0 {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.out.push_str(s);
        Ok(())
    }
}

/// A string made of arbitrary characters, for the escaping harnesses.
fn any_string(g: &mut Gen) -> String {
    let n = g.choose(12);
    let mut s = String::new();
    for _ in 0..n {
        match g.choose(8) {
            0 | 1 => s.push(g.choose(0x20) as u8 as char),
            2 => s.push(['"', '\\', '/', '\u{7f}', '\'', 'u', 'n', '0'][g.choose(8)]),
            3 => s.push(g.choose(0x80) as u8 as char),
            4 => s.push(char::from_u32(0x80 + g.choose(0x780) as u32).unwrap()),
            5 => s.push(char::from_u32(0x800 + g.choose(0xd000) as u32).unwrap_or('\u{fffd}')),
            6 => s.push(char::from_u32(0x10000 + g.choose(0x100000) as u32).unwrap()),
            _ => s.push_str(gen_str(g)),
        }
    }
    s
}

fn text_doc(s: &str) -> String {
    match parse(s) {
        Ok(J::Str(s)) => s,
        Ok(o) => panic!("expected a string document, got {:?}", o),
        Err(e) => panic!("not well-formed JSON: {} in {}", e, s),
    }
}

harnesses! {
    // ------------------------------------------------------------ C01
    ["C01", none, unwind 1, random 60000, exhaustive true, "trees of depth <= 3 and width <= 3 over every construct"]
    fn json_tree(g) {
        let n = gen_node(g, SHAPE);
        all_writers(&n);
    }
    ["C01", none, unwind 1, random 60000, exhaustive true, "trees of depth <= 2 and width <= 2 over every construct and the JSON tags"]
    fn json_tree_tags(g) {
        let n = gen_json_node(g, Shape { depth: 2, width: 2, ..SHAPE });
        all_writers(&n);
    }
    ["C01", none, unwind 1, random 20000, exhaustive true, "maps whose keys are any tree"]
    fn json_keys(g) {
        let sh = Shape { depth: 2, width: 1, ..SHAPE };
        let c = 1 + g.choose(2);
        let v: Vec<_> = (0..c).map(|_| (gen_node(g, sh), gen_node(g, sh))).collect();
        all_writers(&Node::Map(v, None));
    }
    ["C01", none, unwind 1, random 20000, exhaustive true, "enums nested in every construct"]
    fn json_enums(g) {
        let sh = Shape { depth: 3, width: 2, ..SHAPE };
        let n = Node::Enum(gen_meta(g), gen_variant(g, sh).map(Box::new));
        let m = gen_node(g, Shape { depth: 1, ..sh });
        let n = match g.choose(5) {
            0 => Node::Seq(vec![n.clone(), m, n], None),
            1 => Node::Record(gen_meta(g), vec![(None, Lab::st("p"), n), (None, Lab::st("q"), m)], None),
            2 => Node::Map(vec![(Node::text("k"), n), (m, Node::Null)], None),
            3 => Node::Tagged(gen_meta(g), Some(n.boxed())),
            _ => n,
        };
        all_writers(&n);
    }
    ["C01", none, unwind 1, random 5000, exhaustive true, "a value that fails part way never yields a document"]
    fn json_failing_value(g) {
        let mut v = vec![gen_node(g, Shape { depth: 2, ..SHAPE }); 1];
        v.push(Node::Fail);
        if g.bool() { v.push(gen_scalar(g)); }
        let n = match g.choose(3) {
            0 => Node::Seq(v, None),
            1 => Node::Map(v.into_iter().map(|n| (Node::text("k"), n)).collect(), None),
            _ => Node::Tagged(META, Some(Node::Fail.boxed())),
        };
        assert!(sval_json::stream_to_string(&n).is_err(), "a failing value was encoded: {:?}", n);
        assert!(sval_json::stream_to_vec(&n).is_err());
    }

    ["C01", none, unwind 1, random 10000, exhaustive true, "documents embedded as JsonStr, alone and inside other values"]
    fn json_embedded(g) {
        use sval_json::JsonStr;
        let n = gen_node(g, Shape { depth: 2, ..SHAPE });
        let d = match sval_json::stream_to_string(&n) { Ok(s) => s, Err(_) => return };
        let j = JsonStr::new(&d);
        assert!(j.as_str() == d && j.as_bytes() == d.as_bytes() && AsRef::<str>::as_ref(j) == d && j == &*d);
        let b = JsonStr::boxed(d.clone());
        let c: Box<JsonStr> = d.clone().into_boxed_str().into();
        assert!(*b == *j && *c == *j, "the same text, boxed, differs");
        for j in [j, &*b, &*c] {
            assert!(sval_json::stream_to_string(j).ok().as_deref() == Some(&*d), "embedded JSON changed: {}", d);
            let two = sval_json::stream_to_string(&[j, j]).unwrap();
            assert!(two == format!("[{},{}]", d, d), "embedded JSON changed: {}", two);
            let some = sval_json::stream_to_string(&(Some(j), "\"")).unwrap();
            assert!(some == format!("[{},\"\\\"\"]", d), "embedded JSON changed: {}", some);
        }
        // and what is sent stops where the stream fails
        let want = [Ev::TaggedBegin(Some(&sval_json::tags::JSON_VALUE), None, None), Ev::TextBegin(Some(d.len())), Ev::Text(&d), Ev::TextEnd,
            Ev::TaggedEnd(Some(&sval_json::tags::JSON_VALUE), None, None)];
        for at in 0..=want.len() {
            let mut x = Expect::failing(&want, (at < want.len()).then_some(at));
            let r = sval::Value::stream(j, &mut x);
            x.done(r);
        }
    }

    // ------------------------------------------------------------ C02
    ["C02", none, unwind 1, random 60000, exhaustive true, "strings of up to 12 arbitrary characters in arbitrary fragments"]
    fn json_text_roundtrip(g) {
        let s = any_string(g);
        let st = intern(&s);
        let f = split(g, st);
        let out = sval_json::stream_to_string(&Node::Text(f, gen_hint(g, st.len()))).unwrap();
        assert!(text_doc(&out) == s, "{:?} was encoded as {}", s, out);
        assert!(out == sval_json::stream_to_string(&s).unwrap(), "fragmentation changed the document of {:?}", s);
        // as a key
        let out = sval_json::stream_to_string(&Node::Map(vec![(Node::Text(split(g, st), None), Node::Null)], None)).unwrap();
        assert!(parse(&out) == Ok(J::Obj(vec![(s.clone(), J::Null)])), "key {:?} was encoded as {}", s, out);
        // as a label
        let l = Lab { text: st, stat: if g.bool() { Some(st) } else { None }, tag: None };
        let out = sval_json::stream_to_string(&Node::Record(META, vec![(None, l, Node::Null)], None)).unwrap();
        assert!(parse(&out) == Ok(J::Obj(vec![(s.clone(), J::Null)])), "label {:?} was encoded as {}", s, out);
        let m = Meta { label: Some(l), ..META };
        let out = sval_json::stream_to_string(&Node::Tag(m)).unwrap();
        assert!(text_doc(&out) == s, "tag label {:?} was encoded as {}", s, out);
        let out = sval_json::stream_to_string(&Node::Enum(META, Some(Node::Tagged(m, Some(Node::Null.boxed())).boxed()))).unwrap();
        assert!(parse(&out) == Ok(J::Obj(vec![(s.clone(), J::Null)])), "variant {:?} was encoded as {}", s, out);
    }
    ["C02", none, unwind 1, random 400, exhaustive true, "every single character"]
    fn json_every_char(g) {
        // blocks of 4096 code points
        let b = g.choose(272) as u32;
        for c in b * 4096..(b + 1) * 4096 {
            if let Some(c) = char::from_u32(c) {
                let s = c.to_string();
                let out = sval_json::stream_to_string(&s).unwrap();
                assert!(text_doc(&out) == s, "{:?} was encoded as {}", s, out);
                let out = sval_json::stream_to_string(&c).unwrap();
                assert!(text_doc(&out) == s, "{:?} was encoded as {}", s, out);
            }
        }
    }
    ["C02", none, unwind 1, random 400, exhaustive true, "every pair of bytes below 0x80"]
    fn json_every_ascii_pair(g) {
        let a = g.choose(128) as u8 as char;
        for b in 0..128u8 {
            let s: String = [a, b as char].iter().collect();
            let out = sval_json::stream_to_string(&s).unwrap();
            assert!(text_doc(&out) == s, "{:?} was encoded as {}", s, out);
        }
    }
    ["C02", none, unwind 1, random 400, exhaustive true, "strings of up to 70000 bytes"]
    fn json_long_text(g) {
        let n = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 70000][g.choose(20)];
        let u = gen_str(g);
        let mut s = String::new();
        while s.len() < n { s.push('x'); if g.choose(50) == 0 || s.len() + 1 == n { s.push_str(u); } }
        let out = sval_json::stream_to_string(&s).unwrap();
        assert!(text_doc(&out) == s);
    }

    // ------------------------------------------------------------ C03
    ["C03", none, unwind 1, random 40000, exhaustive true, "every integer width and floats"]
    fn json_numbers(g) {
        let n = gen_num(g);
        all_writers(&n);
        all_writers(&Node::Map(vec![(n.clone(), n.clone())], None));
        let n = Node::Seq(vec![n.clone(), Node::Tagged(gen_meta(g), Some(n.boxed()))], None);
        all_writers(&n);
    }
    ["C03", none, unwind 1, random 60000, exhaustive true, "text conforming to the number grammar, in arbitrary fragments"]
    fn json_number_text(g) {
        let t = gen_number_text(g);
        let f = split(g, t);
        let n = Node::Tagged(Meta { tag: Some(&T_NUMBER), ..META }, Some(Node::Text(f, None).boxed()));
        check_doc(&n, sval_json::stream_to_string(&n));
        all_writers(&Node::Map(vec![(n.clone(), n.clone())], None));
        all_writers(&Node::Seq(vec![n.clone(), n, Node::text("1")], None));
    }
    ["C03", none, unwind 1, random 4000, exhaustive true, "text for non-finite numbers, in arbitrary fragments"]
    fn json_number_nonfinite(g) {
        let t = ["nan", "NaN", "inf", "-inf", "+inf", "Infinity", "-Infinity", "snan", "sNaN", "-nan", "NAN(0x1)", "INF"][g.choose(12)];
        let f = split(g, t);
        let n = Node::Tagged(Meta { tag: Some(&T_NUMBER), ..META }, Some(Node::Text(f, None).boxed()));
        let out = sval_json::stream_to_string(&n).unwrap();
        assert!(parse(&out) == Ok(J::Null), "{} was encoded as {}", t, out);
        let out = sval_json::stream_to_string(&Node::Seq(vec![n.clone(), n, Node::Num(Ev::U8(1))], None)).unwrap();
        assert!(parse(&out) == Ok(J::Arr(vec![J::Null, J::Null, J::Num("1".into())])), "{} was encoded as {}", t, out);
    }
    ["C03", none, unwind 1, random 300, exhaustive true, "every 8 and 16 bit integer, and floats in bulk"]
    fn json_numbers_bulk(g) {
        let hi = g.choose(256) as u16;
        for lo in 0..256u16 {
            let v = hi << 8 | lo;
            assert!(sval_json::stream_to_string(v).unwrap() == v.to_string());
            assert!(sval_json::stream_to_string(v as i16).unwrap() == (v as i16).to_string());
            assert!(sval_json::stream_to_string(v as u8).unwrap() == (v as u8).to_string());
            assert!(sval_json::stream_to_string(v as i8).unwrap() == (v as i8).to_string());
            let f = f32::from_bits((v as u32) << 16 | (lo as u32) * 257);
            let n = Node::Num(Ev::F32(f));
            check_doc(&n, sval_json::stream_to_string(&n));
            let f = f64::from_bits((v as u64) << 48 | (lo as u64) * 0x0101_0101_0101);
            let n = Node::Num(Ev::F64(f));
            check_doc(&n, sval_json::stream_to_string(&n));
        }
    }

    ["C01", none, unwind 1, random 20000, exhaustive true, "text tagged as a number that is not one never panics"]
    fn json_number_garbage(g) {
        let mut s = String::new();
        for _ in 0..g.choose(6) {
            s.push_str(["0", "\u{e9}", "-", "+", "x", ".", "1", "\u{1f600}", "e", " ", "n"][g.choose(11)]);
        }
        let s: &'static str = Box::leak(s.into_boxed_str());
        let f = split(g, s);
        let n = Node::Tagged(Meta { tag: Some(&T_NUMBER), ..META }, Some(Node::Text(f, None).boxed()));
        let _ = sval_json::stream_to_string(&n);
        let _ = sval_json::stream_to_string(&Node::Map(vec![(n.clone(), n)], None));
    }

    // ------------------------------------------------------------ C04
    ["C04", none, unwind 1, random 30000, exhaustive true, "writers that fail, accept nothing, accept part, or are interrupted, at every position"]
    fn json_io_faults(g) {
        let n = gen_node(g, Shape { depth: 2, ..SHAPE });
        let full = match sval_json::stream_to_string(&n) { Ok(s) => s, Err(_) => return };
        let mut io = BadIo {
            out: vec![], limit: g.choose(full.len() + 3), how: g.choose(3), chunk: [1, 2, 3, 7, 1000][g.choose(5)],
            interrupt: [0, 2, 3][g.choose(3)], calls: 0, misbehaved: false, after: 0,
        };
        let r = sval_json::stream_to_io_write(&mut io, &n);
        assert!(full.as_bytes().starts_with(&io.out), "what was written isn't a prefix of the document");
        if r.is_ok() {
            assert!(io.out == full.as_bytes(), "success was reported but only {} of {} bytes were accepted", io.out.len(), full.len());
        } else {
            assert!(io.misbehaved, "failure was reported although the writer never failed");
            assert!(io.after == 0, "the writer was called again after it failed");
        }
    }
    ["C04", none, unwind 1, random 20000, exhaustive true, "formatters that fail at every call"]
    fn json_fmt_faults(g) {
        let n = gen_node(g, Shape { depth: 2, ..SHAPE });
        let full = match sval_json::stream_to_string(&n) { Ok(s) => s, Err(_) => return };
        for left in 0..200 {
            let mut f = BadFmt { out: String::new(), left, failed: false, after: false };
            let r = sval_json::stream_to_fmt_write(&mut f, &n);
            assert!(full.starts_with(&f.out));
            assert!(!f.after, "the writer was called again after it failed");
            if f.failed {
                assert!(r.is_err(), "a write error was swallowed");
            } else {
                assert!(r.is_ok() && f.out == full);
                break;
            }
        }
    }
    ["C04", none, unwind 1, random 2000, exhaustive true, "the error carries the writer's own error"]
    fn json_io_error_source(g) {
        use std::error::Error as _;
        let n = gen_node(g, Shape { depth: 2, ..SHAPE });
        let full = match sval_json::stream_to_string(&n) { Ok(s) => s, Err(_) => return };
        let mut io = BadIo { out: vec![], limit: g.choose(full.len()), how: 0, chunk: 1000, interrupt: 0, calls: 0, misbehaved: false, after: 0 };
        let e = sval_json::stream_to_io_write(&mut io, &n).expect_err("a write error was swallowed");
        let src = e.source().expect("the writer's error was dropped");
        assert!(src.to_string() == "disk full");
    }
}
