//! An independent JSON reader and writer (RFC 8259), used as the other end of the link.
use crate::core::{chance, draw};
use crate::model::Node;
use deser::Atom;

// ---------------------------------------------------------------- reader

pub struct Reader<'a> {
    data: &'a [u8],
    pos: usize,
    /// a number right at the edge of the float range was seen
    pub borderline: bool,
}

type R<T> = Result<T, &'static str>;

enum Open {
    Seq(Vec<Node>),
    Map(Vec<(Node, Node)>, Option<Node>),
}

/// Parses a whole document.  The flag tells if a number at the edge of the float range is
/// in there (whether that is an error or not can't be predicted).
pub fn parse(data: &[u8]) -> (Result<Node, &'static str>, bool) {
    let mut r = Reader {
        data,
        pos: 0,
        borderline: false,
    };
    let rv = r.document();
    (rv, r.borderline)
}

impl<'a> Reader<'a> {
    fn peek(&self) -> Option<u8> {
        self.data.get(self.pos).copied()
    }

    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.pos += 1;
        }
    }

    fn document(&mut self) -> R<Node> {
        let mut stack: Vec<Open> = Vec::new();
        'value: loop {
            // a value (or the end of an empty container) has to follow
            self.ws();
            let mut done = match self.peek() {
                None => return Err("end of input"),
                Some(b'[') => {
                    self.pos += 1;
                    self.ws();
                    if self.peek() == Some(b']') {
                        self.pos += 1;
                        Node::Seq(Vec::new())
                    } else {
                        stack.push(Open::Seq(Vec::new()));
                        continue 'value;
                    }
                }
                Some(b'{') => {
                    self.pos += 1;
                    self.ws();
                    if self.peek() == Some(b'}') {
                        self.pos += 1;
                        Node::Map(Vec::new())
                    } else {
                        let key = self.key()?;
                        stack.push(Open::Map(Vec::new(), Some(key)));
                        continue 'value;
                    }
                }
                Some(b'"') => Node::Atom(Atom::Str(self.string()?.into())),
                Some(b'n') => self.word("null", Atom::Null)?,
                Some(b't') => self.word("true", Atom::Bool(true))?,
                Some(b'f') => self.word("false", Atom::Bool(false))?,
                Some(b'-' | b'0'..=b'9') => self.number()?,
                Some(_) => return Err("unexpected character"),
            };
            // close as many containers as possible
            loop {
                self.ws();
                match stack.last_mut() {
                    None => {
                        if self.pos != self.data.len() {
                            return Err("trailing data");
                        }
                        return Ok(done);
                    }
                    Some(Open::Seq(items)) => {
                        items.push(done);
                        match self.peek() {
                            Some(b',') => {
                                self.pos += 1;
                                continue 'value;
                            }
                            Some(b']') => {
                                self.pos += 1;
                                done = Node::Seq(std::mem::take(items));
                                stack.pop();
                            }
                            _ => return Err("expected , or ]"),
                        }
                    }
                    Some(Open::Map(items, key)) => {
                        items.push((key.take().unwrap(), done));
                        match self.peek() {
                            Some(b',') => {
                                self.pos += 1;
                                self.ws();
                                let k = self.key()?;
                                if let Some(Open::Map(_, key)) = stack.last_mut() {
                                    *key = Some(k);
                                }
                                continue 'value;
                            }
                            Some(b'}') => {
                                self.pos += 1;
                                done = Node::Map(std::mem::take(items));
                                stack.pop();
                            }
                            _ => return Err("expected , or }"),
                        }
                    }
                }
            }
        }
    }

    fn key(&mut self) -> R<Node> {
        if self.peek() != Some(b'"') {
            return Err("expected a key");
        }
        let rv = Node::Atom(Atom::Str(self.string()?.into()));
        self.ws();
        if self.peek() != Some(b':') {
            return Err("expected :");
        }
        self.pos += 1;
        Ok(rv)
    }

    fn word(&mut self, word: &str, atom: Atom<'static>) -> R<Node> {
        if self.data[self.pos..].starts_with(word.as_bytes()) {
            self.pos += word.len();
            Ok(Node::Atom(atom))
        } else {
            Err("unknown word")
        }
    }

    fn digits(&mut self) -> R<usize> {
        let start = self.pos;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.pos += 1;
        }
        if self.pos == start {
            return Err("expected digits");
        }
        Ok(self.pos - start)
    }

    fn number(&mut self) -> R<Node> {
        let start = self.pos;
        let negative = self.peek() == Some(b'-');
        if negative {
            self.pos += 1;
        }
        let first = self.peek();
        let n = self.digits()?;
        if first == Some(b'0') && n > 1 {
            return Err("leading zero");
        }
        let mut integer = true;
        if self.peek() == Some(b'.') {
            integer = false;
            self.pos += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            integer = false;
            self.pos += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.pos += 1;
            }
            self.digits()?;
        }
        let text = std::str::from_utf8(&self.data[start..self.pos]).unwrap();
        if integer {
            if negative {
                if let Ok(n) = text.parse::<i64>() {
                    return Ok(Node::Atom(Atom::I64(n)));
                }
            } else if let Ok(n) = text.parse::<u64>() {
                return Ok(Node::Atom(Atom::U64(n)));
            }
        }
        let f: f64 = text.parse().map_err(|_| "bad float")?;
        if f.abs() > f64::MAX * 0.999999999 {
            if f.is_infinite() {
                // just outside?  Dividing by ten makes it representable.
                let near = scaled_down(text)
                    .map_or(false, |x| x.abs() <= f64::MAX / 10.0 * 1.000000001);
                if !near {
                    return Err("infinite number");
                }
            }
            self.borderline = true;
            if f.is_infinite() {
                return Err("infinite number");
            }
        }
        Ok(Node::Atom(Atom::F64(f)))
    }

    fn string(&mut self) -> R<String> {
        self.pos += 1;
        let mut out: Vec<u8> = Vec::new();
        loop {
            match self.peek() {
                None => return Err("unterminated string"),
                Some(b'"') => {
                    self.pos += 1;
                    return String::from_utf8(out).map_err(|_| "invalid utf-8");
                }
                Some(b'\\') => {
                    self.pos += 1;
                    let c = self.peek().ok_or("unterminated escape")?;
                    self.pos += 1;
                    let c = match c {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                if self.peek() != Some(b'\\')
                                    || self.data.get(self.pos + 1) != Some(&b'u')
                                {
                                    return Err("lone surrogate");
                                }
                                self.pos += 2;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return Err("lone surrogate");
                                }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00))
                                    .ok_or("bad surrogate pair")?
                            } else {
                                char::from_u32(a).ok_or("lone surrogate")?
                            }
                        }
                        _ => return Err("bad escape"),
                    };
                    let mut buf = [0; 4];
                    out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                }
                Some(c) if c < 0x20 => return Err("control character"),
                Some(c) => {
                    out.push(c);
                    self.pos += 1;
                }
            }
        }
    }

    fn hex4(&mut self) -> R<u32> {
        let mut n = 0;
        for _ in 0..4 {
            let c = self.peek().ok_or("unterminated escape")?;
            n = n * 16 + (c as char).to_digit(16).ok_or("bad hex digit")?;
            self.pos += 1;
        }
        Ok(n)
    }
}

/// The number divided by ten.
fn scaled_down(text: &str) -> Option<f64> {
    match text.find(['e', 'E']) {
        Some(at) => {
            let exp: i64 = text[at + 1..].parse().ok()?;
            format!("{}e{}", &text[..at], exp.checked_sub(1)?).parse().ok()
        }
        None => format!("{}e-1", text).parse().ok(),
    }
}

// ---------------------------------------------------------------- writer

/// Can this be written as JSON at all?
pub fn representable(node: &Node) -> bool {
    match node {
        Node::Atom(Atom::Bytes(_)) => false,
        Node::Atom(Atom::F64(f)) => f.is_finite(),
        Node::Atom(_) => true,
        Node::Seq(items) => items.iter().all(representable),
        Node::Map(items) => items.iter().all(|(k, v)| {
            matches!(k, Node::Atom(Atom::Str(_) | Atom::Char(_))) && representable(v)
        }),
    }
}

/// How a document is spelled is up to the writer.
pub struct Style {
    pub spaces: bool,
    pub escapes: bool,
    pub numbers: bool,
}

pub fn write(node: &Node, style: &Style) -> String {
    let mut out = String::new();
    ws(style, &mut out);
    write_node(node, style, &mut out);
    ws(style, &mut out);
    out
}

fn ws(style: &Style, out: &mut String) {
    if style.spaces {
        while chance(1, 4) {
            out.push([' ', '\n', '\t', '\r'][draw(4) as usize]);
        }
    }
}

pub fn write_str(s: &str, style: &Style, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let must = c < ' ' || c == '"' || c == '\\';
        if style.escapes && (must || chance(1, 3)) {
            let short = match c {
                '"' => "\\\"",
                '\\' => "\\\\",
                '/' => "\\/",
                '\u{8}' => "\\b",
                '\u{c}' => "\\f",
                '\n' => "\\n",
                '\r' => "\\r",
                '\t' => "\\t",
                _ => "",
            };
            if !short.is_empty() && draw(2) == 0 {
                out.push_str(short);
            } else {
                let mut buf = [0; 2];
                for unit in c.encode_utf16(&mut buf) {
                    if draw(2) == 0 {
                        out.push_str(&format!("\\u{:04x}", unit));
                    } else {
                        out.push_str(&format!("\\u{:04X}", unit));
                    }
                }
            }
        } else if must {
            out.push_str(&format!("\\u{:04x}", c as u32));
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn write_node(node: &Node, style: &Style, out: &mut String) {
    match node {
        Node::Atom(a) => match a {
            Atom::Null => out.push_str("null"),
            Atom::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Atom::Str(s) => write_str(s, style, out),
            Atom::Char(c) => write_str(&c.to_string(), style, out),
            Atom::U64(n) => out.push_str(&n.to_string()),
            Atom::I64(n) => out.push_str(&n.to_string()),
            Atom::F64(f) if f.is_finite() => {
                let which = if style.numbers { draw(5) } else { 0 };
                let text = match which {
                    // always a float on the other side
                    1 => format!("{:e}", f),
                    2 => format!("{:E}", f),
                    3 => format!("{:e}", f).replace("e", "e+").replace("e+-", "e-"),
                    4 => {
                        let t = format!("{:e}", f);
                        let at = t.find('e').unwrap();
                        if t[..at].contains('.') {
                            format!("{}00{}", &t[..at], &t[at..])
                        } else {
                            format!("{}.0{}", &t[..at], &t[at..])
                        }
                    }
                    _ => {
                        let t = format!("{:?}", f);
                        if t.contains('.') || t.contains('e') {
                            t
                        } else {
                            format!("{}.0", t)
                        }
                    }
                };
                out.push_str(&text);
            }
            _ => out.push_str("null"),
        },
        Node::Seq(items) => {
            out.push('[');
            for (i, item) in items.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(style, out);
                write_node(item, style, out);
                ws(style, out);
            }
            if items.is_empty() {
                ws(style, out);
            }
            out.push(']');
        }
        Node::Map(items) => {
            out.push('{');
            for (i, (k, v)) in items.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(style, out);
                write_node(k, style, out);
                ws(style, out);
                out.push(':');
                ws(style, out);
                write_node(v, style, out);
                ws(style, out);
            }
            if items.is_empty() {
                ws(style, out);
            }
            out.push('}');
        }
    }
}

/// What a value which was written as JSON looks like to the reader.
pub fn project(node: &Node) -> Node {
    match node {
        Node::Atom(a) => Node::Atom(match a {
            Atom::Char(c) => Atom::Str(c.to_string().into()),
            Atom::F64(f) if !f.is_finite() => Atom::Null,
            other => other.to_static(),
        }),
        Node::Seq(items) => Node::Seq(items.iter().map(project).collect()),
        Node::Map(items) => Node::Map(
            items
                .iter()
                .map(|(k, v)| (project(k), project(v)))
                .collect(),
        ),
    }
}

/// Compares documents: numbers by their value.
pub fn same_doc(a: &Node, b: &Node) -> bool {
    fn num(a: &Atom) -> Option<f64> {
        match a {
            Atom::U64(n) => Some(*n as f64),
            Atom::I64(n) => Some(*n as f64),
            Atom::F64(n) => Some(*n),
            _ => None,
        }
    }
    match (a, b) {
        (Node::Atom(x), Node::Atom(y))
            if matches!(x, Atom::F64(_)) || matches!(y, Atom::F64(_)) =>
        {
            match (num(x), num(y)) {
                // whatever way a number is written, it has to stand for the same float
                (Some(x), Some(y)) => x == y,
                _ => false,
            }
        }
        (Node::Atom(Atom::U64(x)), Node::Atom(Atom::I64(y)))
        | (Node::Atom(Atom::I64(y)), Node::Atom(Atom::U64(x))) => *x as i128 == *y as i128,
        (Node::Atom(x), Node::Atom(y)) => x == y,
        (Node::Seq(x), Node::Seq(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_doc(x, y))
        }
        (Node::Map(x), Node::Map(y)) => {
            x.len() == y.len()
                && x.iter()
                    .zip(y)
                    .all(|(x, y)| same_doc(&x.0, &y.0) && same_doc(&x.1, &y.1))
        }
        _ => false,
    }
}
