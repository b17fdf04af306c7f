//! Definition documents that are not right.
use crate::gen::*;
use crate::pbt::*;
use crate::yaml::{self, Style, Y};

/// Where a node stands, and what it is.
#[derive(Clone, Debug)]
struct Spot {
    path: Vec<usize>,
    kind: String,
}

const KINDS: &[&str] = &[
    "foreign key", "initially deferred", "on delete", "on update", "owned by", "primary key", "as", "cache", "check", "column",
    "constraint", "cycle", "deferrable", "function", "volatility", "increment", "index", "language", "match", "maxvalue", "minvalue",
    "on", "references", "returns", "schema", "sequence", "start", "table", "unique", "using", "view",
];

pub fn kind_of(key: &str, parent: &str) -> String {
    let l = key.to_lowercase();
    if parent == "index" && l.starts_with("on ") {
        return "on".into();
    }
    for k in KINDS {
        if l == *k || l.starts_with(k) && l[k.len()..].starts_with(char::is_whitespace) {
            return k.to_string();
        }
    }
    "?".into()
}

fn spots(y: &Y, path: &mut Vec<usize>, parent: &str, out: &mut Vec<Spot>) {
    if let Y::Map(m) = y {
        for (i, (k, v)) in m.iter().enumerate() {
            path.push(i);
            let kind = kind_of(k, parent);
            out.push(Spot { path: path.clone(), kind: kind.clone() });
            spots(v, path, &kind, out);
            path.pop();
        }
    }
}

fn at<'a>(y: &'a mut Y, path: &[usize]) -> &'a mut (String, Y) {
    let (first, rest) = path.split_first().unwrap();
    match y {
        Y::Map(m) => {
            let e = &mut m[*first];
            if rest.is_empty() {
                e
            } else {
                at(&mut e.1, rest)
            }
        }
        _ => panic!("harness: path"),
    }
}

/// the mapping that holds the node at the path
fn parent<'a>(y: &'a mut Y, path: &[usize]) -> &'a mut Vec<(String, Y)> {
    if path.len() == 1 {
        match y {
            Y::Map(m) => m,
            _ => panic!("harness: path"),
        }
    } else {
        match &mut at(y, &path[..path.len() - 1]).1 {
            Y::Map(m) => m,
            _ => panic!("harness: path"),
        }
    }
}

fn pick_spot(s: &mut Src, all: &[Spot], kinds: &[&str]) -> Option<Spot> {
    let v: Vec<&Spot> = all.iter().filter(|x| kinds.contains(&x.kind.as_str())).collect();
    if v.is_empty() {
        None
    } else {
        Some((*s.pick(&v)).clone())
    }
}

fn insert(s: &mut Src, m: &mut Y, e: (String, Y)) {
    if !matches!(m, Y::Map(_)) {
        *m = Y::Map(vec![]);
    }
    if let Y::Map(v) = m {
        let i = s.n(v.len() + 1);
        v.insert(i, e);
    }
}

fn st(x: &str) -> Y {
    Y::Str(x.into())
}

/// Puts one fault in; says which, or none if the document has no place for it.
pub fn damage(s: &mut Src, y: &mut Y) -> Option<String> {
    let mut all = vec![];
    spots(y, &mut vec![], "", &mut all);
    let ids = |k: &str| Y::Map(vec![("column id".to_string(), st(k))]);
    match s.n(11) {
        0 => {
            // unknown key, anywhere a mapping may stand
            let k = *s.pick(&[
                "frobnicate", "columns id", "colum id", "tablex", "primary_key", "indexes", "", "comment", "schemata s", "uniquely", "checks",
                "onn t", "foreign_key", "primarykey", "asx", "references_t", "viewer v", "1", "primary", "foreign", "owned", "initially", "null",
            ]);
            let sp = pick_spot(s, &all, &["schema", "table", "constraint", "index", "view", "sequence", "function"]);
            let e = (k.to_string(), s.pick(&[st("x"), Y::Map(vec![]), Y::Bool(true)]).clone());
            match sp {
                Some(sp) if s.chance(85) => insert(s, &mut at(y, &sp.path).1, e),
                _ => insert(s, y, e),
            }
            Some(format!("unknown key {k:?}"))
        }
        1 => {
            let sp = pick_spot(s, &all, &["schema", "table", "column", "constraint", "index", "view", "sequence", "function", "references", "owned by", "on"])?;
            let e = at(y, &sp.path);
            e.0 = sp.kind.clone();
            if s.chance(20) {
                e.0.push(' ');
            }
            Some(format!("missing name of {}", sp.kind))
        }
        2 => {
            // a required attribute left out
            let sp = pick_spot(s, &all, &["as", "on", "references", "foreign key", "primary key", "unique", "check"])?;
            let owner = at(y, &sp.path[..sp.path.len() - 1]).0.to_lowercase();
            if sp.kind == "as" && owner.starts_with("sequence") || sp.kind == "unique" && owner.starts_with("index") {
                return None;
            }
            let last = *sp.path.last().unwrap();
            parent(y, &sp.path).remove(last);
            Some(format!("{owner} without {}", sp.kind))
        }
        3 | 4 => {
            // wrong type
            let sp = pick_spot(s, &all, KINDS)?;
            let owner = if sp.path.len() > 1 { at(y, &sp.path[..sp.path.len() - 1]).0.to_lowercase() } else { String::new() };
            let text = [Y::Int(5), Y::Bool(true), Y::Null, Y::List(vec![st("x")]), Y::Map(vec![]), Y::Raw("1.5".into())];
            let list = [
                Y::Int(5), Y::Bool(false), Y::Null, Y::Map(vec![("a".into(), st("b"))]), Y::List(vec![Y::Int(1)]), Y::List(vec![Y::List(vec![st("a")])]),
                Y::List(vec![Y::Map(vec![("a".into(), st("b"))])]), Y::List(vec![st("a"), Y::Null]), Y::List(vec![st("a"), Y::Bool(true)]), Y::List(vec![]),
            ];
            let int = [st("x"), st("5"), Y::Bool(true), Y::Null, Y::Raw("1.5".into()), Y::List(vec![Y::Int(1)]), Y::Raw("9223372036854775808".into()), Y::Raw("1e3".into())];
            let boolean = [st("true"), st("yes"), Y::Int(1), Y::Null, Y::List(vec![Y::Bool(true)]), Y::Raw("yes".into()), Y::Raw("on".into())];
            let object = [st("x"), Y::Int(5), Y::Bool(true), Y::List(vec![st("a")]), Y::List(vec![])];
            let v = match sp.kind.as_str() {
                "as" | "language" | "returns" | "volatility" | "match" | "on update" | "on delete" | "using" | "check" | "owned by" | "column" => s.pick(&text).clone(),
                "unique" if owner.starts_with("index") => s.pick(&boolean).clone(),
                "deferrable" | "initially deferred" | "cycle" => s.pick(&boolean).clone(),
                "primary key" | "unique" | "foreign key" | "references" | "on" => s.pick(&list).clone(),
                "increment" | "minvalue" | "maxvalue" | "start" | "cache" => s.pick(&int).clone(),
                "schema" | "table" | "constraint" | "index" | "view" | "sequence" | "function" => s.pick(&object).clone(),
                _ => return None,
            };
            at(y, &sp.path).1 = v.clone();
            Some(format!("wrong type of {}: {v:?}", sp.kind))
        }
        5 => {
            // misplaced
            let (host, k): (&[&str], &[&str]) = match s.n(8) {
                0 => (&["schema"], &["column c", "constraint c", "schema s", "primary key", "as", "on t", "references t"]),
                1 => (&["table"], &["table t", "view v", "index i", "sequence q", "function f", "schema s", "primary key", "unique", "check", "on t"]),
                2 => (&["index"], &["column c", "table t", "references t", "primary key", "deferrable", "as"]),
                3 => (&["view"], &["column c", "on t", "language", "table t"]),
                4 => (&["sequence"], &["column c", "unique", "language", "returns"]),
                5 => (&["function"], &["column c", "cycle", "using", "deferrable"]),
                6 => (&["constraint"], &["column c", "constraint c", "as", "on t", "using", "cycle"]),
                _ => (&[], &["table t", "column c", "view v", "index i", "sequence q", "function f", "constraint c", "primary key", "as"]),
            };
            let k = s.pick(k).to_string();
            let v = if k.starts_with("table") { ids("integer") } else { s.pick(&[st("a"), Y::Bool(true), Y::Map(vec![])]).clone() };
            if host.is_empty() {
                insert(s, y, (k.clone(), v));
            } else {
                let sp = pick_spot(s, &all, host)?;
                insert(s, &mut at(y, &sp.path).1, (k.clone(), v));
            }
            Some(format!("{k} in {}", host.first().unwrap_or(&"the document")))
        }
        6 => {
            let sp = pick_spot(s, &all, &["column"])?;
            let e = *s.pick(&[
                "", "!", "= 1", "! = 1", "integer =", "integer! =", "integer !!", "integer!!", "integer !x", "integer! x", "integer! default 1", " ",
                "integer = ", " !", "integer!\t=\t", " = 1", "integer! 1", "integer!! = 1", "=", "\n", "\n!", "integer =\n",
            ]);
            at(y, &sp.path).1 = st(e);
            Some(format!("column expression {e:?}"))
        }
        7 => {
            let sp = pick_spot(s, &all, &["references"])?;
            let r = *s.pick(&["references a.b.c", "references .", "references a.", "references .b", "references ..", "references a..b", "references a.b.c.d"]);
            at(y, &sp.path).0 = r.to_string();
            Some(format!("reference {r:?}"))
        }
        8 => {
            // the same object again, under a key that YAML tells apart
            let sp = pick_spot(s, &all, &["table", "column", "constraint", "index", "view", "sequence", "function"])?;
            let (k, v) = at(y, &sp.path).clone();
            let name = k[sp.kind.len()..].trim().to_string();
            let k2 = match s.n(3) {
                0 => format!("{}   {name}", sp.kind),
                1 => format!("{} {name}  ", sp.kind.to_uppercase()),
                _ => format!("{} {name}", sp.kind.chars().enumerate().map(|(i, c)| if i == 1 { c.to_ascii_uppercase() } else { c }).collect::<String>()),
            };
            if k2 == k {
                return None;
            }
            let m = parent(y, &sp.path);
            let i = s.n(m.len() + 1);
            m.insert(i, (k2, v));
            Some(format!("{} {name:?} twice", sp.kind))
        }
        9 => {
            // relations of different kinds share one name
            let sp = pick_spot(s, &all, &["table", "index", "view", "sequence"])?;
            let (k, _) = at(y, &sp.path).clone();
            let name = k[sp.kind.len()..].trim().to_string();
            let other = *s.pick(&["table", "view", "sequence"]);
            if other == sp.kind {
                return None;
            }
            let v = match other {
                "table" => ids("integer"),
                "view" => Y::Map(vec![("as".into(), st("SELECT 1"))]),
                _ => Y::Map(vec![]),
            };
            let m = parent(y, &sp.path);
            let i = s.n(m.len() + 1);
            m.insert(i, (format!("{other} {name}"), v));
            Some(format!("{name:?} both {} and {other}", sp.kind))
        }
        _ => {
            // the same key twice, or a constraint of two kinds
            if s.flag() {
                let sp = pick_spot(s, &all, &["table", "column", "constraint", "index", "view", "sequence", "function", "schema"])?;
                let e = at(y, &sp.path).clone();
                parent(y, &sp.path).push(e);
                Some(format!("{} under one key twice", sp.kind))
            } else {
                let sp = pick_spot(s, &all, &["constraint"])?;
                let has: Vec<String> = match &at(y, &sp.path).1 {
                    Y::Map(m) => m.iter().map(|(k, _)| kind_of(k, "constraint")).collect(),
                    _ => return None,
                };
                let k = *s.pick(&["primary key", "unique", "check", "foreign key"]);
                if has.iter().any(|h| h == k) {
                    return None;
                }
                insert(s, &mut at(y, &sp.path).1, (k.to_string(), st("a")));
                Some(format!("constraint {has:?} and {k}"))
            }
        }
    }
}

pub fn tree(s: &mut Src, depth: usize) -> Y {
    let leafs = ["x", "", "a.b", "integer! = 1", "SELECT 1", "é", "5", "true", "\n"];
    match s.weighted(&[4, 2, 2, 2, 1, if depth > 0 { 3 } else { 0 }, if depth > 0 { 9 } else { 0 }]) {
        0 => st(s.pick(&leafs)),
        1 => Y::Int(*s.pick(&[0, 1, -1, i64::MAX, i64::MIN])),
        2 => Y::Bool(s.flag()),
        3 => Y::Null,
        4 => Y::Raw(s.pick(&["1.5", ".nan", "!tag x", "!!int 5", "1e999", "0x1F", "0o7", "2001-01-01", "[", "*a", "&a x", "18446744073709551615", "- -"]).to_string()),
        5 => Y::List((0..s.n(4)).map(|_| tree(s, depth - 1)).collect()),
        _ => Y::Map(
            (0..s.range(1, 5))
                .map(|_| {
                    let k = *s.pick(KINDS);
                    let key = match s.n(5) {
                        0 => k.to_string(),
                        1 => format!("{k} é"),
                        2 => format!("{k}x"),
                        _ => format!("{k} {}", s.pick(&["a", "b", "t", "日本", " ", "\u{a0}"])),
                    };
                    (key, tree(s, depth - 1))
                })
                .collect(),
        ),
    }
}

/// Text of any kind: a document damaged in places, or words and characters.
pub fn any_document(s: &mut Src) -> String {
    let chars: Vec<char> = "ab:-#!=\"'|>{}[],&*?%@` \n\n  \t\\/.~0é日\u{0}\u{feff}".chars().collect();
    let words = ["schema s:", "table t:", "column c:", "  ", "\n", "primary key", "- ", ": ", "references a.b:", "on", "as:", "!", "integer", "{", "}", "[", "]", "é", "on é"];
    if s.chance(25) {
        (0..s.n(40)).map(|_| if s.flag() { s.pick(&words).to_string() } else { s.pick(&chars).to_string() }).collect::<String>()
    } else {
        let db = gen_db(s, &Opts { quirky: 30, ..Opts::small() });
        let mut t: Vec<char> = yaml::document(s, &Style::any(), &db).chars().collect();
        for _ in 0..s.range(1, 4) {
            if t.is_empty() {
                break;
            }
            let i = s.n(t.len());
            match s.n(5) {
                0 => {
                    t.remove(i);
                }
                1 => t.insert(i, *s.pick(&chars)),
                2 => t[i] = *s.pick(&chars),
                3 => {
                    let j = (i + s.range(1, 30)).min(t.len());
                    t.drain(i..j);
                }
                _ => {
                    let j = (i + s.range(1, 30)).min(t.len());
                    let part: Vec<char> = t[i..j].to_vec();
                    let k = s.n(t.len());
                    for (n, c) in part.into_iter().enumerate() {
                        t.insert(k + n, c);
                    }
                }
            }
        }
        t.into_iter().collect()
    }
}
