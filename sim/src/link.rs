//! The unreliable link between a serializer and a deserializer: what gets lost, doubled,
//! reordered, replaced or damaged on the way.
use crate::core::{chance, count, draw, pick, small, tr};
use crate::model::{Node, Schema};
use deser::{Atom, Event};

fn push_names(schema: &Schema, out: &mut Vec<String>, depth: u32) {
    if depth > 6 {
        return;
    }
    match schema {
        Schema::Struct(s) => {
            for f in &s.fields {
                out.push(f.name.to_string());
                out.extend(f.aliases.iter().map(|x| x.to_string()));
                push_names(&f.schema, out, depth + 1);
            }
        }
        Schema::Enum(variants) => {
            for (name, aliases) in variants.iter() {
                out.push(name.to_string());
                out.extend(aliases.iter().map(|x| x.to_string()));
            }
        }
        Schema::Vec(s)
        | Schema::Array(_, s)
        | Schema::Set(_, s)
        | Schema::Opt(s)
        | Schema::Wrap(s)
        | Schema::Probe(s)
        | Schema::Named(_, s) => push_names(s, out, depth + 1),
        Schema::Map(_, k, v) => {
            push_names(k, out, depth + 1);
            push_names(v, out, depth + 1);
        }
        Schema::Tuple(items) => items.iter().for_each(|s| push_names(s, out, depth + 1)),
        Schema::Lazy(f) if depth < 3 => push_names(&f(), out, depth + 3),
        _ => {}
    }
}

/// All keys and variants which mean something to a type.
pub fn names(schema: &Schema) -> Vec<String> {
    let mut rv = vec!["zz_unknown".to_string(), String::new(), "Red".to_string()];
    push_names(schema, &mut rv, 0);
    // and some which are almost like them
    let near: Vec<String> = rv
        .iter()
        .enumerate()
        .map(|(i, name)| match i % 6 {
            0 => name.to_ascii_uppercase(),
            1 => name.to_ascii_lowercase(),
            2 => name.chars().skip(1).collect(),
            3 => format!("{}_", name),
            4 => format!(" {}", name),
            _ => name.replace('_', ""),
        })
        .collect();
    for name in near {
        if !rv.contains(&name) {
            rv.push(name);
        }
    }
    rv
}

pub fn random_atom(names: &[String]) -> Atom<'static> {
    match draw(12) {
        0 => Atom::Null,
        1 => Atom::Bool(draw(2) == 1),
        2 => Atom::U64(draw(300)),
        3 => Atom::I64(draw(300) as i64 - 150),
        4 => Atom::Str(pick(names).into()),
        5 => Atom::F64(draw(100) as f64 / 4.0),
        6 => Atom::Char(pick(&['x', '\0', '\u{10ffff}'])),
        7 => Atom::Bytes((0..draw(6)).map(|x| x as u8).collect::<Vec<_>>().into()),
        8 => Atom::U64(pick(&[
            256,
            65536,
            1 << 31,
            1 << 32,
            1 << 63,
            u64::MAX,
            i64::MAX as u64,
            127,
            128,
        ])),
        9 => Atom::I64(pick(&[
            i64::MIN,
            i64::MAX,
            -1,
            -129,
            -32769,
            -(1 << 31) - 1,
            128,
            32768,
        ])),
        10 => Atom::Str(pick(&["", "a", "é", "ab", "null", "x", "😀"]).into()),
        _ => Atom::F64(pick(&[0.0, -0.0, 1e300, 1e-300, 0.5, 3.0])),
    }
}

/// An atom which is almost the given one.
pub fn near_atom(atom: &Atom, names: &[String]) -> Atom<'static> {
    const CHARS: [char; 16] = [
        '\0', ' ', '\n', 'a', '_', '\u{300}', '\u{301}', '\u{200d}', '\u{fe0f}', '\u{feff}', '\u{7f}', '\u{80}', '"',
        '\u{10ffff}', 'A', '0',
    ];
    let text = |s: &str| {
        let mut chars: Vec<char> = s.chars().collect();
        let n = chars.len() as u64;
        match draw(8) {
            7 if n > 0 => {
                let c = &mut chars[draw(n) as usize];
                *c = match c.is_ascii_lowercase() {
                    true => c.to_ascii_uppercase(),
                    false => c.to_ascii_lowercase(),
                };
            }
            0 => chars.push(pick(&CHARS)),
            1 => chars.insert(0, pick(&CHARS)),
            2 if n > 0 => {
                chars.remove(draw(n) as usize);
            }
            3 if n > 0 => {
                let c = chars[draw(n) as usize];
                chars.insert(draw(n + 1) as usize, c);
            }
            4 if n > 0 => chars[draw(n) as usize] = pick(&CHARS),
            5 => return Atom::Bytes(s.as_bytes().to_vec().into()),
            _ if n == 1 => return Atom::Char(chars[0]),
            _ => chars.insert(draw(n + 1) as usize, pick(&CHARS)),
        }
        Atom::Str(chars.into_iter().collect::<String>().into())
    };
    let number = |v: i128| {
        let v = match draw(8) {
            0 => v + 1,
            1 => v - 1,
            2 => -v,
            3 => v + (1 << pick(&[8, 16, 32, 64])),
            4 => v - (1 << pick(&[8, 16, 32, 64])),
            _ => v,
        };
        let as_u = u64::try_from(v).ok().map(Atom::U64);
        let as_i = i64::try_from(v).ok().map(Atom::I64);
        match draw(6) {
            0 => Atom::F64(v as f64),
            1 => Atom::Str(v.to_string().into()),
            2 | 3 => as_u.or(as_i).unwrap_or(Atom::F64(v as f64)),
            _ => as_i.or(as_u).unwrap_or(Atom::F64(v as f64)),
        }
    };
    match atom {
        Atom::Str(s) => text(s),
        Atom::Char(c) => match draw(3) {
            0 => Atom::U64(*c as u64),
            1 => Atom::Str(c.to_string().into()),
            _ => text(&c.to_string()),
        },
        Atom::U64(v) => number(*v as i128),
        Atom::I64(v) => number(*v as i128),
        Atom::Bool(v) => match draw(4) {
            0 => Atom::U64(*v as u64),
            1 => Atom::Str(v.to_string().into()),
            2 => Atom::I64(*v as i64),
            _ => Atom::Bool(!v),
        },
        Atom::F64(v) => match draw(4) {
            0 if v.fract() == 0.0 && v.abs() < 1e18 => number(*v as i128),
            1 => Atom::F64(-v),
            2 => Atom::F64(f64::from_bits(v.to_bits() ^ 1)),
            _ => Atom::Str(v.to_string().into()),
        },
        Atom::Bytes(b) => match draw(3) {
            0 => Atom::Str(String::from_utf8_lossy(b).into_owned().into()),
            1 => Atom::Bytes(b.iter().skip(1).copied().collect::<Vec<_>>().into()),
            _ => Atom::Bytes(b.iter().copied().chain(Some(draw(256) as u8)).collect::<Vec<_>>().into()),
        },
        Atom::Null => match draw(4) {
            0 => Atom::Str("null".into()),
            1 => Atom::Str("".into()),
            2 => Atom::U64(0),
            _ => Atom::Bool(false),
        },
        _ => random_atom(names),
    }
}

pub fn random_node(names: &[String], depth: u32) -> Node {
    match if depth == 0 { 0 } else { draw(4) } {
        2 => Node::Seq((0..small(3)).map(|_| random_node(names, depth - 1)).collect()),
        3 => Node::Map(
            (0..small(3))
                .map(|_| (Node::str(&pick(names)), random_node(names, depth - 1)))
                .collect(),
        ),
        _ => Node::Atom(random_atom(names)),
    }
}

fn count_nodes(n: &Node) -> u64 {
    1 + match n {
        Node::Atom(_) => 0,
        Node::Seq(items) => items.iter().map(count_nodes).sum(),
        Node::Map(items) => items
            .iter()
            .map(|(k, v)| count_nodes(k) + count_nodes(v))
            .sum(),
    }
}

fn nth<'a>(n: &'a mut Node, at: &mut u64) -> Option<&'a mut Node> {
    if *at == 0 {
        return Some(n);
    }
    *at -= 1;
    match n {
        Node::Atom(_) => None,
        Node::Seq(items) => items.iter_mut().find_map(|x| nth(x, at)),
        Node::Map(items) => {
            for (k, v) in items {
                if let Some(rv) = nth(k, at) {
                    return Some(rv);
                }
                if let Some(rv) = nth(v, at) {
                    return Some(rv);
                }
            }
            None
        }
    }
}

fn edit_list<T: Clone>(
    items: &mut Vec<T>,
    fresh: impl FnOnce() -> T,
    near: impl FnOnce(T) -> T,
) -> &'static str {
    let n = items.len() as u64;
    let how = if n == 0 { 4 } else { draw(6) };
    match how {
        0 => {
            items.remove(draw(n) as usize);
            "fault.loss"
        }
        1 => {
            let mut item = items[draw(n) as usize].clone();
            if draw(2) == 1 {
                item = near(item);
            }
            items.insert(draw(n + 1) as usize, item);
            "fault.duplication"
        }
        2 => {
            items.swap(draw(n) as usize, draw(n) as usize);
            "fault.reorder"
        }
        3 => {
            items.rotate_left(draw(n) as usize);
            "fault.reorder"
        }
        4 => {
            items.insert(draw(n + 1) as usize, fresh());
            "fault.insertion"
        }
        _ => {
            items.truncate(draw(n) as usize);
            "fault.loss"
        }
    }
}

/// The node, but for something small.
fn near_node(node: Node, names: &[String]) -> Node {
    match node {
        Node::Atom(ref atom) => Node::Atom(near_atom(atom, names)),
        other => other,
    }
}

/// Damages one place of the tree.  The result is still a well formed tree.
pub fn mutate(root: &mut Node, names: &[String]) {
    let total = count_nodes(root);
    let mut at = draw(total);
    let node = match nth(root, &mut at) {
        Some(node) => node,
        None => return,
    };
    let kind = match node {
        Node::Seq(items) if chance(5, 6) => edit_list(
            items,
            || random_node(names, 2),
            |n| near_node(n, names),
        ),
        Node::Map(items) if chance(5, 6) => match draw(4) {
            // keys are where it gets interesting
            0 if !items.is_empty() => {
                let i = draw(items.len() as u64) as usize;
                items[i].0 = Node::str(&pick(names));
                "fault.replacement"
            }
            1 if !items.is_empty() => {
                // the same entry with another value
                let i = draw(items.len() as u64) as usize;
                let k = items[i].0.clone();
                let v = match draw(3) {
                    0 => Node::Atom(Atom::Null),
                    1 => items[draw(items.len() as u64) as usize].1.clone(),
                    _ => random_node(names, 2),
                };
                items.insert(draw(items.len() as u64 + 1) as usize, (k, v));
                "fault.duplication"
            }
            _ => edit_list(
                items,
                || (Node::str(&pick(names)), random_node(names, 3)),
                |(k, v)| (near_node(k, names), v),
            ),
        },
        Node::Atom(Atom::Str(_)) if draw(3) == 0 => {
            *node = Node::str(&pick(names));
            "fault.replacement"
        }
        Node::Atom(atom) if draw(4) > 0 => {
            *node = Node::Atom(match draw(2) {
                0 => near_atom(atom, names),
                _ => random_atom(names),
            });
            "fault.replacement"
        }
        _ => {
            *node = random_node(names, 2);
            "fault.replacement"
        }
    };
    count(kind);
    tr(|| format!("link: {} -> {:?}", kind, root));
}

/// Any event at all.
pub fn random_event(names: &[String]) -> Event<'static> {
    match draw(6) {
        0 => Event::MapEnd,
        1 => Event::SeqEnd,
        2 => Event::MapStart,
        3 => Event::SeqStart,
        _ => Event::Atom(random_atom(names)),
    }
}

/// Damages the raw event stream, which is not balanced after this.
pub fn mutate_events(events: &mut Vec<Event<'static>>, names: &[String]) {
    let n = events.len() as u64;
    if n == 0 {
        return;
    }
    match draw(5) {
        0 => {
            events.remove(draw(n) as usize);
            count("fault.loss");
        }
        1 => {
            let i = draw(n) as usize;
            let e = events[i].to_static();
            events.insert(i, e);
            count("fault.duplication");
        }
        2 => {
            events.swap(draw(n) as usize, draw(n) as usize);
            count("fault.reorder");
        }
        3 => {
            events.insert(draw(n + 1) as usize, random_event(names));
            count("fault.insertion");
        }
        _ => {
            events[draw(n) as usize] = random_event(names);
            count("fault.replacement");
        }
    }
}

/// Damages bytes.
pub fn mutate_bytes(data: &mut Vec<u8>) {
    const POOL: [&[u8]; 58] = [
        b"\"", b"\\", b"{", b"}", b"[", b"]", b",", b":", b"null", b"true", b"false", b"0", b"-", b"1",
        b"e", b"E", b".", b"+", b" ", b"\n", b"\t", b"\r", b"\x00", b"\x1f", b"\x7f", b"\x80", b"\xff",
        b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf", b"\\u", b"\\ud800",
        b"\\udc00", b"\\ud83d\\ude00", b"\\u0000", b"\\u00e9", b"\\x", b"\\/", b"1e400", b"-0", b"00",
        b"18446744073709551616", b"9223372036854775808", b"-9223372036854775808",
        b"-9223372036854775809", b"1e-400", b"1.", b".5", b"nul", b"/*", b"\x0c", b"\xe9", b"\\\"", b"\xf0\x9f",
        b"1E+2", b"[]", b"{}",
    ];
    let n = data.len() as u64;
    match draw(11) {
        0 if n > 0 => {
            data.remove(draw(n) as usize);
            count("fault.loss");
        }
        1 if n > 0 => {
            let i = draw(n) as usize;
            data[i] ^= 1 << draw(8);
            count("fault.bit_flip");
        }
        2 if n > 0 => {
            data.truncate(draw(n) as usize);
            count("fault.truncation");
        }
        3 if n > 0 => {
            let a = draw(n) as usize;
            let b = (a + 1 + draw(6) as usize).min(n as usize);
            let part = data[a..b].to_vec();
            let to = draw(n + 1) as usize;
            data.splice(to..to, part);
            count("fault.duplication");
        }
        4 if n > 1 => {
            let a = draw(n - 1) as usize;
            data.swap(a, a + 1);
            count("fault.reorder");
        }
        5 if n > 0 => {
            let a = draw(n) as usize;
            let b = (a + 1 + draw(8) as usize).min(n as usize);
            data.drain(a..b);
            count("fault.loss");
        }
        6 if n > 0 => {
            let i = draw(n) as usize;
            let with = POOL[draw(POOL.len() as u64) as usize];
            data.splice(i..i + 1, with.iter().copied());
            count("fault.replacement");
        }
        7 if n > 0 => {
            data[draw(n) as usize] = draw(256) as u8;
            count("fault.replacement");
        }
        // the other case of a letter
        10 if data.iter().any(|b| b.is_ascii_alphabetic()) => {
            let mut i = draw(n) as usize;
            while !data[i].is_ascii_alphabetic() {
                i = (i + 1) % data.len();
            }
            data[i] ^= 0x20;
            count("fault.bit_flip");
        }
        _ => {
            let i = draw(n + 1) as usize;
            let with = POOL[draw(POOL.len() as u64) as usize];
            data.splice(i..i, with.iter().copied());
            count("fault.insertion");
        }
    }
}

/// The tokens of a document, each of them with the space in front of it.
fn tokens(data: &[u8]) -> Vec<Vec<u8>> {
    let mut rv: Vec<Vec<u8>> = Vec::new();
    let mut current = Vec::new();
    let mut i = 0;
    while i < data.len() {
        match data[i] {
            b'"' => {
                let start = i;
                i += 1;
                while i < data.len() && data[i] != b'"' {
                    i += if data[i] == b'\\' { 2 } else { 1 };
                }
                i = (i + 1).min(data.len());
                current.extend_from_slice(&data[start..i]);
                rv.push(std::mem::take(&mut current));
            }
            b'{' | b'}' | b'[' | b']' | b',' | b':' => {
                current.push(data[i]);
                i += 1;
                rv.push(std::mem::take(&mut current));
            }
            b' ' | b'\n' | b'\t' | b'\r' => {
                current.push(data[i]);
                i += 1;
            }
            _ => {
                while i < data.len() && !b"\"{}[],: \n\t\r".contains(&data[i]) {
                    current.push(data[i]);
                    i += 1;
                }
                rv.push(std::mem::take(&mut current));
            }
        }
    }
    if !current.is_empty() {
        rv.push(current);
    }
    rv
}

/// Changes the grammar of a document.
pub fn mutate_tokens(data: &mut Vec<u8>) {
    const POOL: [&[u8]; 14] = [
        b",", b",", b",", b":", b":", b"[", b"]", b"]", b"{", b"}", b"}", b"null", b"1", b"\"\"",
    ];
    let mut all = tokens(data);
    for _ in 0..1 + if draw(4) == 3 { 1 } else { 0 } {
        let n = all.len() as u64;
        if n == 0 {
            return;
        }
        let at = draw(n) as usize;
        match draw(8) {
            0 | 1 => {
                all.remove(at);
                count("fault.loss");
            }
            2 => {
                let token = all[at].clone();
                all.insert(at, token);
                count("fault.duplication");
            }
            3 => {
                let token = all[at].clone();
                all.insert(draw(n) as usize, token);
                count("fault.duplication");
            }
            4 => {
                let with = draw(n) as usize;
                all.swap(at, with);
                count("fault.reorder");
            }
            5 => {
                all[at] = pick(&POOL).to_vec();
                count("fault.replacement");
            }
            _ => {
                all.insert(draw(n + 1) as usize, pick(&POOL).to_vec());
                count("fault.insertion");
            }
        }
    }
    *data = all.concat();
}
