//! sval_fmt: the Debug-like text of a tree, token by token, and sinks that fail.
use crate::json_props::BadFmt;
use crate::tree::*;
use crate::*;
use std::fmt;

/// Which kind of token a piece of text belongs to.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Atom,
    Num,
    Ident,
    Punct,
    Ws,
    Text,
}

#[derive(Default, Debug, PartialEq, Clone)]
pub struct Toks(pub Vec<(K, String)>);
impl Toks {
    fn put(&mut self, k: K, s: &str) {
        if s.is_empty() {
            return;
        }
        match self.0.last_mut() {
            Some((l, t)) if *l == k => t.push_str(s),
            _ => self.0.push((k, s.into())),
        }
    }
    fn text(&self) -> String {
        self.0.iter().map(|t| t.1.as_str()).collect()
    }
}

/// What Rust's Debug would look like, from the tree alone.
fn render(n: &Node, number: bool, float: &dyn Fn(&Ev<'_>) -> String, o: &mut Toks) {
    match n {
        Node::Null => o.put(K::Atom, "()"),
        Node::Bool(b) => o.put(K::Atom, if *b { "true" } else { "false" }),
        Node::Num(e) => {
            let s = match e.int() {
                Some((neg, v)) => format!("{}{}", if neg { "-" } else { "" }, v),
                None => float(e),
            };
            o.put(K::Num, &s)
        }
        Node::Text(f, _) => {
            if number {
                for (t, _) in f {
                    o.put(K::Num, t);
                }
            } else {
                o.put(K::Text, "\"");
                for (t, _) in f {
                    for c in t.chars() {
                        o.put(K::Text, &c.escape_debug().to_string());
                    }
                }
                o.put(K::Text, "\"");
            }
        }
        Node::Binary(f, _) => {
            o.put(K::Punct, "[");
            let mut first = true;
            for (t, _) in f {
                for b in *t {
                    if !first {
                        o.put(K::Punct, ",");
                        o.put(K::Ws, " ");
                    }
                    first = false;
                    o.put(K::Num, &b.to_string());
                }
            }
            o.put(K::Punct, "]");
        }
        Node::Seq(v, _) => {
            o.put(K::Punct, "[");
            for (i, n) in v.iter().enumerate() {
                if i > 0 {
                    o.put(K::Punct, ",");
                    o.put(K::Ws, " ");
                }
                render(n, false, float, o);
            }
            o.put(K::Punct, "]");
        }
        Node::Map(v, _) => {
            o.put(K::Punct, "{");
            for (i, (k, n)) in v.iter().enumerate() {
                if i > 0 {
                    o.put(K::Punct, ",");
                }
                o.put(K::Ws, " ");
                render(k, false, float, o);
                o.put(K::Punct, ":");
                o.put(K::Ws, " ");
                render(n, false, float, o);
            }
            if !v.is_empty() {
                o.put(K::Ws, " ");
            }
            o.put(K::Punct, "}");
        }
        Node::Tag(m) => name(m, o),
        Node::Tagged(m, n) => {
            if let Some(l) = &m.label {
                o.put(K::Ident, l.text);
                o.put(K::Punct, "(");
            }
            if let Some(n) = n {
                render(n, number || m.tag.map_or(false, |t| *t == sval::tags::NUMBER), float, o);
            }
            if m.label.is_some() {
                o.put(K::Punct, ")");
            }
        }
        Node::Enum(m, None) => name(m, o),
        Node::Enum(_, Some(n)) => render(n, number, float, o),
        Node::Record(m, f, _) => {
            record(m, f.iter().map(|(_, l, n)| (l, n)).collect(), float, o);
        }
        Node::RecordTuple(m, f, _) => {
            record(m, f.iter().map(|(_, l, _, n)| (l, n)).collect(), float, o);
        }
        Node::Tuple(m, f, _) => {
            if let Some(l) = &m.label {
                o.put(K::Ident, l.text);
            }
            o.put(K::Punct, "(");
            for (i, (_, _, n)) in f.iter().enumerate() {
                if i > 0 {
                    o.put(K::Punct, ",");
                    o.put(K::Ws, " ");
                }
                render(n, false, float, o);
            }
            o.put(K::Punct, ")");
        }
        Node::Via(_, n) | Node::Hinted(_, n) => render(n, number, float, o),
        Node::Fail | Node::After(_) => unreachable!(),
    }
}
fn name(m: &Meta, o: &mut Toks) {
    match &m.label {
        Some(l) => o.put(K::Ident, l.text),
        None => o.put(K::Atom, "()"),
    }
}
fn record(m: &Meta, f: Vec<(&Lab<'static>, &Node)>, float: &dyn Fn(&Ev<'_>) -> String, o: &mut Toks) {
    if let Some(l) = &m.label {
        o.put(K::Ident, l.text);
        o.put(K::Ws, " ");
    }
    o.put(K::Punct, "{");
    for (i, (l, n)) in f.iter().enumerate() {
        if i > 0 {
            o.put(K::Punct, ",");
        }
        o.put(K::Ws, " ");
        o.put(K::Ident, l.text);
        o.put(K::Punct, ":");
        o.put(K::Ws, " ");
        render(n, false, float, o);
    }
    if !f.is_empty() {
        o.put(K::Ws, " ");
    }
    o.put(K::Punct, "}");
}

fn display_float(e: &Ev<'_>) -> String {
    match e {
        Ev::F32(v) => v.to_string(),
        Ev::F64(v) => v.to_string(),
        _ => unreachable!(),
    }
}
fn ryu_float(e: &Ev<'_>) -> String {
    match e {
        Ev::F32(v) => ryu::Buffer::new().format(*v).to_string(),
        Ev::F64(v) => ryu::Buffer::new().format(*v).to_string(),
        _ => unreachable!(),
    }
}

/// Collects tokens with their kinds.
#[derive(Default)]
struct Tw(Toks);
impl fmt::Write for Tw {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        panic!("text was written outside of any token")
    }
}
impl sval_fmt::TokenWrite for Tw {
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, token: T) -> fmt::Result {
        use sval_fmt::tags::*;
        let k = if *tag == ATOM {
            K::Atom
        } else if *tag == NUMBER {
            K::Num
        } else if *tag == IDENT {
            K::Ident
        } else if *tag == PUNCT {
            K::Punct
        } else if *tag == WS {
            K::Ws
        } else if *tag == TEXT {
            K::Text
        } else {
            panic!("unknown token tag {:?}", tag)
        };
        self.0.put(k, &token.to_string());
        Ok(())
    }
}

/// A Debug or Display that writes in pieces and may fail between them.
struct Pieces(Vec<(&'static str, bool)>, bool);
impl fmt::Debug for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("<")?;
        fmt::Display::fmt(self, f)?;
        f.write_str(">")
    }
}
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (s, c) in &self.0 {
            if *c { f.write_str(s)? } else { for c in s.chars() { fmt::Write::write_char(f, c)? } }
        }
        if self.1 { Err(fmt::Error) } else { Ok(()) }
    }
}

fn shape() -> Shape {
    Shape { empty_tagged: true, ..SHAPE }
}

harnesses! {
    ["C15", none, unwind 1, random 60000, exhaustive true, "trees up to depth 3, width 3"]
    fn fmt_text(g) {
        let n = gen_node(g, shape());
        let mut want = Toks::default();
        render(&n, false, &ryu_float, &mut want);
        let got = sval_fmt::stream_to_string(&n);
        assert!(got == want.text(), "{:?} was formatted as {:?}, not {:?}", n, got, want.text());
        let mut s = String::new();
        sval_fmt::stream_to_write(&mut s, &n).expect("formatting into a string failed");
        assert!(s == got);
    }
    ["C15", none, unwind 1, random 40000, exhaustive true, "trees up to depth 3, width 3"]
    fn fmt_tokens(g) {
        let n = gen_node(g, shape());
        let mut want = Toks::default();
        render(&n, false, &display_float, &mut want);
        let mut w = Tw::default();
        sval_fmt::stream_to_token_write(&mut w, &n).expect("formatting tokens failed");
        assert!(w.0 == want, "{:?} gave tokens {:?}, not {:?}", n, w.0, want);
        // the adapter for formatters
        assert!(format!("{}", sval_fmt::ToFmt::new(&n)) == want.text());
        assert!(format!("{:?}", sval_fmt::ToFmt::new_borrowed(&n)) == want.text());
    }
    ["C15", none, unwind 1, random 20000, exhaustive true, "every failing write, trees up to depth 2"]
    fn fmt_faults(g) {
        let n = gen_node(g, Shape { depth: 2, ..shape() });
        let full = sval_fmt::stream_to_string(&n);
        for left in 0..300 {
            let mut f = BadFmt { out: String::new(), left, failed: false, after: false };
            let r = sval_fmt::stream_to_write(&mut f, &n);
            assert!(full.starts_with(&f.out));
            assert!(!f.after, "the writer was called again after it failed");
            assert!(r.is_err() == f.failed, "a write error was swallowed");
            if !f.failed {
                assert!(f.out == full);
                break;
            }
        }
    }
    ["C15", none, unwind 1, random 20000, exhaustive true, "text written in up to 3 pieces by Debug and Display"]
    fn fmt_to_value(g) {
        let p = Pieces(gen_text(g), g.choose(4) == 0);
        let text: String = p.0.iter().map(|t| t.0).collect();
        let joined = |n: &Node| match n {
            Node::Text(f, _) => f.iter().map(|t| t.0).collect::<String>(),
            n => panic!("not text: {:?}", n),
        };
        let mut b = Builder::new();
        let r = sval_fmt::stream_display(&mut b, &p);
        assert!(r.is_err() == p.1, "an error of the formatted value was swallowed or invented");
        let mut b2 = Builder::new();
        let r2 = sval_fmt::stream_debug(&mut b2, &p);
        assert!(r2.is_err() == p.1);
        if !p.1 {
            assert!(joined(&b.finish(r)) == text);
            assert!(joined(&b2.finish(r2)) == format!("<{}>", text));
            assert!(joined(&rebuild(&sval_fmt::DisplayToValue::new(&p))) == text);
            assert!(joined(&rebuild(sval_fmt::DebugToValue::new_borrowed(&p))) == format!("<{}>", text));
        }
        check_errors_propagate(&sval_fmt::DisplayToValue::new(&p), 64);
        check_errors_propagate(&sval_fmt::DebugToValue::new(&p), 64);
    }
}
