//! A lexer for PostgreSQL's SQL: enough of its lexical rules to read statements exactly.

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// unquoted word, folded to lower case
    Word(String),
    /// "quoted identifier"
    Quoted(String),
    /// string constant (plain, escape or dollar-quoted), by value
    Str(String),
    Num(String),
    Op(String),
    /// $1
    Param(usize),
}

impl Tok {
    pub fn ident(&self) -> Option<&str> {
        match self {
            Tok::Word(w) => Some(w),
            Tok::Quoted(q) => Some(q),
            _ => None,
        }
    }
    pub fn is_op(&self, o: &str) -> bool {
        matches!(self, Tok::Op(x) if x == o)
    }
    pub fn is_word(&self, o: &str) -> bool {
        matches!(self, Tok::Word(x) if x == o)
    }
    pub fn text(&self) -> String {
        match self {
            Tok::Word(w) => w.clone(),
            // a quoted identifier that needs no quotes is the same as the bare word
            Tok::Quoted(q) => {
                if is_simple(q) {
                    q.clone()
                } else {
                    quote_ident(q)
                }
            }
            Tok::Str(s) => format!("'{}'", s.replace('\'', "''")),
            Tok::Num(n) => n.clone(),
            Tok::Op(o) => o.clone(),
            Tok::Param(n) => format!("${n}"),
        }
    }
}

pub fn quote_ident(s: &str) -> String {
    format!("\"{}\"", s.replace('"', "\"\""))
}

const RESERVED: &[&str] = &[
    "all", "analyse", "analyze", "and", "any", "array", "as", "asc", "asymmetric", "both", "case", "cast", "check", "collate",
    "column", "constraint", "create", "current_date", "current_role", "current_time", "current_timestamp", "current_user",
    "default", "deferrable", "desc", "distinct", "do", "else", "end", "except", "false", "fetch", "for", "foreign", "from",
    "grant", "group", "having", "in", "initially", "intersect", "into", "lateral", "leading", "limit", "localtime",
    "localtimestamp", "not", "null", "offset", "on", "only", "or", "order", "placing", "primary", "references", "returning",
    "select", "session_user", "some", "symmetric", "table", "then", "to", "trailing", "true", "union", "unique", "user", "using",
    "variadic", "when", "where", "window", "with",
];

pub fn is_reserved(w: &str) -> bool {
    RESERVED.contains(&w)
}

pub fn is_simple(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() {
        Some(c) if c.is_ascii_lowercase() || c == '_' => {}
        _ => return false,
    }
    it.all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_') && !is_reserved(s)
}

fn word_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0x80
}

pub fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_ascii_whitespace() || ch == '\u{b}' {
            i += 1;
            continue;
        }
        if ch == '-' && c.get(i + 1) == Some(&'-') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if ch == '/' && c.get(i + 1) == Some(&'*') {
            let mut depth = 0;
            loop {
                if i + 1 >= c.len() {
                    return Err("unterminated comment".into());
                }
                if c[i] == '/' && c[i + 1] == '*' {
                    depth += 1;
                    i += 2;
                } else if c[i] == '*' && c[i + 1] == '/' {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            continue;
        }
        if ch == '"' {
            let (v, j) = quoted(&c, i + 1, '"')?;
            if v.is_empty() {
                return Err("zero-length delimited identifier".into());
            }
            out.push(Tok::Quoted(v));
            i = j;
            continue;
        }
        if ch == '\'' {
            let (v, j) = quoted(&c, i + 1, '\'')?;
            out.push(Tok::Str(v));
            i = j;
            continue;
        }
        if (ch == 'e' || ch == 'E') && c.get(i + 1) == Some(&'\'') {
            let mut v = String::new();
            let mut j = i + 2;
            loop {
                match c.get(j) {
                    None => return Err("unterminated quoted string".into()),
                    Some('\'') if c.get(j + 1) == Some(&'\'') => {
                        v.push('\'');
                        j += 2;
                    }
                    Some('\'') => {
                        j += 1;
                        break;
                    }
                    Some('\\') => {
                        let n = *c.get(j + 1).ok_or("unterminated quoted string")?;
                        v.push(match n {
                            'n' => '\n',
                            't' => '\t',
                            'r' => '\r',
                            'b' => '\u{8}',
                            'f' => '\u{c}',
                            o => o,
                        });
                        j += 2;
                    }
                    Some(x) => {
                        v.push(*x);
                        j += 1;
                    }
                }
            }
            out.push(Tok::Str(v));
            i = j;
            continue;
        }
        if word_start(ch) {
            let mut w = String::new();
            while i < c.len() && (word_start(c[i]) || c[i].is_ascii_digit() || c[i] == '$') {
                w.push(c[i].to_ascii_lowercase());
                i += 1;
            }
            out.push(Tok::Word(w));
            continue;
        }
        if ch.is_ascii_digit() || (ch == '.' && c.get(i + 1).map(|d| d.is_ascii_digit()).unwrap_or(false)) {
            let mut w = String::new();
            while i < c.len()
                && (c[i].is_ascii_digit()
                    || c[i] == '.'
                    || c[i] == 'e' && c.get(i + 1).map(|d| d.is_ascii_digit() || *d == '-').unwrap_or(false))
            {
                w.push(c[i]);
                i += 1;
            }
            out.push(Tok::Num(w));
            continue;
        }
        if ch == '$' {
            if c.get(i + 1).map(|d| d.is_ascii_digit()).unwrap_or(false) {
                let mut n = 0;
                i += 1;
                while i < c.len() && c[i].is_ascii_digit() {
                    n = n * 10 + c[i].to_digit(10).unwrap() as usize;
                    i += 1;
                }
                out.push(Tok::Param(n));
                continue;
            }
            // $tag$ ... $tag$
            let mut j = i + 1;
            while j < c.len() && (word_start(c[j]) || c[j].is_ascii_digit()) {
                j += 1;
            }
            if c.get(j) != Some(&'$') {
                return Err("stray $".into());
            }
            let tag: Vec<char> = c[i..=j].to_vec();
            let mut k = j + 1;
            loop {
                if k + tag.len() > c.len() {
                    return Err("unterminated dollar-quoted string".into());
                }
                if c[k..k + tag.len()] == tag[..] {
                    break;
                }
                k += 1;
            }
            out.push(Tok::Str(c[j + 1..k].iter().collect()));
            i = k + tag.len();
            continue;
        }
        if "(),;[].:".contains(ch) {
            if ch == ':' && c.get(i + 1) == Some(&':') {
                out.push(Tok::Op("::".into()));
                i += 2;
            } else if ch == ':' && c.get(i + 1) == Some(&'=') {
                out.push(Tok::Op(":=".into()));
                i += 2;
            } else {
                out.push(Tok::Op(ch.to_string()));
                i += 1;
            }
            continue;
        }
        if "+-*/<>=~!@#%^&|`?".contains(ch) {
            let mut o = String::new();
            while i < c.len() && "+-*/<>=~!@#%^&|`?".contains(c[i]) {
                if c[i] == '-' && c.get(i + 1) == Some(&'-') || c[i] == '/' && c.get(i + 1) == Some(&'*') {
                    break;
                }
                o.push(c[i]);
                i += 1;
            }
            // a multi-character operator does not end in + or - unless it holds special characters
            while o.len() > 1
                && (o.ends_with('+') || o.ends_with('-'))
                && !o.chars().any(|x| "~!@#%^&|`?".contains(x))
            {
                o.pop();
                i -= 1;
            }
            out.push(Tok::Op(o));
            continue;
        }
        return Err(format!("unexpected character {ch:?}"));
    }
    Ok(out)
}

fn quoted(c: &[char], mut i: usize, q: char) -> Result<(String, usize), String> {
    let mut v = String::new();
    loop {
        match c.get(i) {
            None => return Err("unterminated quoted text".into()),
            Some(x) if *x == q => {
                if c.get(i + 1) == Some(&q) {
                    v.push(q);
                    i += 2;
                } else {
                    return Ok((v, i + 1));
                }
            }
            Some(x) => {
                v.push(*x);
                i += 1;
            }
        }
    }
}

pub fn join(t: &[Tok]) -> String {
    t.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")
}

/// The text with spacing, letter case of bare words and needless identifier quotes evened out.
pub fn norm(s: &str) -> String {
    match lex(s) {
        Ok(mut t) => {
            while t.last().map(|x| x.is_op(";")).unwrap_or(false) {
                t.pop();
            }
            join(&t)
        }
        Err(_) => s.to_string(),
    }
}

/// As norm, without parentheses that enclose the whole.
pub fn norm_expr(s: &str) -> String {
    match lex(s) {
        Ok(mut t) => {
            while enclosed(&t) {
                t = t[1..t.len() - 1].to_vec();
            }
            join(&t)
        }
        Err(_) => s.to_string(),
    }
}

fn enclosed(t: &[Tok]) -> bool {
    if t.len() < 2 || !t[0].is_op("(") {
        return false;
    }
    let mut d = 0;
    for (i, x) in t.iter().enumerate() {
        if x.is_op("(") {
            d += 1;
        } else if x.is_op(")") {
            d -= 1;
            if d == 0 {
                return i == t.len() - 1;
            }
        }
    }
    false
}

/// Quoted identifiers and bare words of an expression that stand for columns: not function names,
/// type names after ::, nor keywords.
/// The column an index key names when it is no expression.
pub fn plain_key(k: &str) -> Option<String> {
    let t = lex(k).ok()?;
    let plain = t.iter().skip(1).all(|x| ["asc", "desc", "nulls", "first", "last"].iter().any(|w| x.is_word(w)));
    if plain {
        t.first()?.ident().map(|s| s.to_string())
    } else {
        None
    }
}

pub fn column_refs(s: &str) -> Vec<String> {
    let t = match lex(s) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let mut out = vec![];
    for (i, x) in t.iter().enumerate() {
        let next_paren = t.get(i + 1).map(|n| n.is_op("(")).unwrap_or(false);
        let dotted = t.get(i + 1).map(|n| n.is_op(".")).unwrap_or(false) || i > 0 && t[i - 1].is_op(".");
        let cast = i > 0 && t[i - 1].is_op("::");
        if next_paren || dotted || cast {
            continue;
        }
        match x {
            Tok::Quoted(q) => out.push(q.clone()),
            Tok::Word(w)
                if !is_reserved(w)
                    && !["is", "like", "between", "ilike", "nulls", "first", "last", "cross", "join", "left", "inner"].contains(&w.as_str()) =>
            {
                out.push(w.clone())
            }
            _ => {}
        }
    }
    out
}

/// Sequences named by nextval('...'::regclass), as (schema, name).
pub fn nextval_refs(s: &str) -> Vec<(String, String)> {
    let t = lex(s).unwrap_or_default();
    let mut out = vec![];
    for w in t.windows(3) {
        if w[0].is_word("nextval") && w[1].is_op("(") {
            if let Tok::Str(v) = &w[2] {
                if let Ok(p) = lex(v) {
                    if let [a, d, b] = &p[..] {
                        if d.is_op(".") {
                            if let (Some(a), Some(b)) = (a.ident(), b.ident()) {
                                out.push((a.to_string(), b.to_string()));
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

/// Functions called by qualified name: "s"."f"(
pub fn func_refs(s: &str) -> Vec<(String, String)> {
    let t = lex(s).unwrap_or_default();
    let mut out = vec![];
    for w in t.windows(4) {
        if w[1].is_op(".") && w[3].is_op("(") {
            if let (Some(a), Some(b)) = (w[0].ident(), w[2].ident()) {
                out.push((a.to_string(), b.to_string()));
            }
        }
    }
    out
}

/// Tables named in FROM/JOIN of a view query written by the generator: ((schema, table), columns used).
pub fn view_refs(q: &str) -> Vec<((String, String), Vec<String>)> {
    let t = lex(q).unwrap_or_default();
    let mut tables = vec![];
    let mut skip = vec![];
    for i in 0..t.len() {
        if (t[i].is_word("from") || t[i].is_word("join")) && i + 3 < t.len() + 0 && t[i + 2].is_op(".") {
            if let (Some(a), Some(b)) = (t[i + 1].ident(), t[i + 3].ident()) {
                tables.push((a.to_string(), b.to_string()));
                skip.extend([i + 1, i + 3]);
            }
        }
    }
    let mut cols = vec![];
    for (i, x) in t.iter().enumerate() {
        if skip.contains(&i) {
            continue;
        }
        if let Tok::Quoted(c) = x {
            if i > 0 && t[i - 1].is_word("as") {
                continue;
            }
            cols.push(c.clone());
        }
    }
    tables.into_iter().map(|x| (x, cols.clone())).collect()
}

/// The tokens as text again, quoted names staying quoted.
pub fn raw(t: &[Tok]) -> String {
    t.iter()
        .map(|x| match x {
            Tok::Quoted(q) => quote_ident(q),
            o => o.text(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
