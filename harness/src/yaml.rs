//! Writes databases as definition documents, in any of the forms a user may choose.
use crate::model::*;
use crate::pbt::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Y {
    Str(String),
    Int(i64),
    Bool(bool),
    Null,
    /// a scalar as it stands
    Raw(String),
    List(Vec<Y>),
    Map(Vec<(String, Y)>),
}

// ---------- documents ----------

#[derive(Clone, Copy)]
pub struct Style {
    /// chance of writing an attribute that has its default
    pub explicit: u64,
    pub shuffle: bool,
    pub keyword_case: u64,
    pub fancy: bool,
}

impl Style {
    pub fn any() -> Style {
        Style { explicit: 30, shuffle: true, keyword_case: 15, fancy: true }
    }
    pub fn plain() -> Style {
        Style { explicit: 0, shuffle: false, keyword_case: 0, fancy: false }
    }
}

fn kw(s: &mut Src, st: &Style, k: &str, name: Option<&str>) -> String {
    let mut w = k.to_string();
    if st.keyword_case > 0 && s.chance(st.keyword_case) {
        w = match s.n(3) {
            0 => w.to_uppercase(),
            1 => w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            _ => w.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
        };
    }
    if let Some(n) = name {
        // an index on a table called update or delete reads that word as part of its keyword
        let gap = if st.fancy && k != "on" && s.chance(3) { *s.pick(&["  ", "\t", " \t "]) } else { " " };
        w.push_str(gap);
        w.push_str(n);
    }
    if st.fancy && s.chance(1) {
        w.push_str(s.pick(&[" ", "  ", "\t"]));
    }
    w
}

fn list(s: &mut Src, v: &[String]) -> Y {
    if v.len() == 1 && !s.chance(30) {
        Y::Str(v[0].clone())
    } else {
        Y::List(v.iter().map(|x| Y::Str(x.clone())).collect())
    }
}

fn arrange<T>(s: &mut Src, st: &Style, v: &mut [T]) {
    if st.shuffle && s.chance(60) {
        s.shuffle(v);
    }
}

pub fn table_y(s: &mut Src, st: &Style, sch: &str, t: &Table) -> Y {
    // columns keep their order; constraints stand anywhere among them
    let mut cols: Vec<(String, Y)> = vec![];
    for c in &t.cols {
        let mut e = c.ty.clone();
        if c.not_null {
            e.push_str(if st.fancy && s.chance(10) { " !" } else { "!" });
        }
        if let Some(d) = &c.default {
            let eq = if st.fancy { *s.pick(&[" = ", " = ", " = ", "=", "  =  ", " =\n  "]) } else { " = " };
            e.push_str(eq);
            e.push_str(d);
        }
        cols.push((kw(s, st, "column", Some(&c.name)), Y::Str(e)));
    }
    let mut cons: Vec<(String, Y)> = vec![];
    for (n, c) in &t.cons {
        let mut m: Vec<(String, Y)> = vec![];
        let (df, dd) = c.deferral();
        match c {
            Con::Pk(k) => m.push((kw(s, st, "primary key", None), list(s, &k.cols))),
            Con::Unique(k) => m.push((kw(s, st, "unique", None), list(s, &k.cols))),
            Con::Check(k) => m.push((kw(s, st, "check", None), Y::Str(k.expr.clone()))),
            Con::Fk(f) => {
                m.push((kw(s, st, "foreign key", None), list(s, &f.cols)));
                let target = if f.tschema == sch && !s.chance(30) { f.ttable.clone() } else { format!("{}.{}", f.tschema, f.ttable) };
                m.push((kw(s, st, "references", Some(&target)), list(s, &f.tcols)));
                if f.mat != "SIMPLE" || s.chance(st.explicit) {
                    m.push((kw(s, st, "match", None), Y::Str(f.mat.clone())));
                }
                if f.upd != "NO ACTION" || s.chance(st.explicit) {
                    m.push((kw(s, st, "on update", None), Y::Str(f.upd.clone())));
                }
                if f.del != "NO ACTION" || s.chance(st.explicit) {
                    m.push((kw(s, st, "on delete", None), Y::Str(f.del.clone())));
                }
            }
        }
        if df || s.chance(st.explicit) {
            m.push((kw(s, st, "deferrable", None), Y::Bool(df)));
        }
        if dd || s.chance(st.explicit) {
            m.push((kw(s, st, "initially deferred", None), Y::Bool(dd)));
        }
        arrange(s, st, &mut m);
        cons.push((kw(s, st, "constraint", Some(n)), Y::Map(m)));
    }
    arrange(s, st, &mut cons);
    let mut all = vec![];
    if st.shuffle && s.chance(30) {
        let mut ci = cols.into_iter().peekable();
        let mut ki = cons.into_iter().peekable();
        while ci.peek().is_some() || ki.peek().is_some() {
            if ki.peek().is_none() || ci.peek().is_some() && s.flag() {
                all.push(ci.next().unwrap());
            } else {
                all.push(ki.next().unwrap());
            }
        }
    } else {
        all.extend(cols);
        all.extend(cons);
    }
    if all.is_empty() {
        return if s.flag() { Y::Null } else { Y::Map(vec![]) };
    }
    Y::Map(all)
}

pub fn rel_y(s: &mut Src, st: &Style, sch: &str, n: &str, r: &Rel) -> (String, Y) {
    match r {
        Rel::Table(t) => {
            let k = kw(s, st, "table", Some(n));
            (k, table_y(s, st, sch, t))
        }
        Rel::View(v) => (kw(s, st, "view", Some(n)), Y::Map(vec![(kw(s, st, "as", None), Y::Str(v.query.clone()))])),
        Rel::Index(ix) => {
            let mut m = vec![(kw(s, st, "on", Some(&ix.table)), list(s, &ix.keys))];
            if ix.unique || s.chance(st.explicit) {
                m.push((kw(s, st, "unique", None), Y::Bool(ix.unique)));
            }
            if ix.method != "btree" || s.chance(st.explicit) {
                m.push((kw(s, st, "using", None), Y::Str(ix.method.clone())));
            }
            arrange(s, st, &mut m);
            (kw(s, st, "index", Some(n)), Y::Map(m))
        }
        Rel::Seq(q) => {
            let mut m: Vec<(String, Y)> = vec![];
            let d = seq_default(&q.ty, q.inc);
            if q.ty != "int8" || s.chance(st.explicit) {
                m.push((kw(s, st, "as", None), Y::Str(q.ty.clone())));
            }
            if q.inc != 1 || s.chance(st.explicit) {
                m.push((kw(s, st, "increment", None), Y::Int(q.inc)));
            }
            if q.min != d.min || s.chance(st.explicit) {
                m.push((kw(s, st, "minvalue", None), Y::Int(q.min)));
            }
            if q.max != d.max || s.chance(st.explicit) {
                m.push((kw(s, st, "maxvalue", None), Y::Int(q.max)));
            }
            let dstart = if q.inc > 0 { q.min } else { q.max };
            if q.start != dstart || s.chance(st.explicit) {
                m.push((kw(s, st, "start", None), Y::Int(q.start)));
            }
            if q.cache != 1 || s.chance(st.explicit) {
                m.push((kw(s, st, "cache", None), Y::Int(q.cache)));
            }
            if q.cycle || s.chance(st.explicit) {
                m.push((kw(s, st, "cycle", None), Y::Bool(q.cycle)));
            }
            if let Some((t, c)) = &q.owned {
                m.push((kw(s, st, "owned by", Some(t)), Y::Str(c.clone())));
            }
            arrange(s, st, &mut m);
            let k = kw(s, st, "sequence", Some(n));
            if m.is_empty() && s.flag() {
                return (k, Y::Null);
            }
            (k, Y::Map(m))
        }
    }
}

pub fn func_y(s: &mut Src, st: &Style, n: &str, f: &Func) -> (String, Y) {
    let mut m = vec![(kw(s, st, "as", None), Y::Str(f.body.clone()))];
    if f.lang != "SQL" || s.chance(st.explicit) {
        m.push((kw(s, st, "language", None), Y::Str(f.lang.clone())));
    }
    if f.returns != "void" || s.chance(st.explicit) {
        m.push((kw(s, st, "returns", None), Y::Str(f.returns.clone())));
    }
    if f.vol != "VOLATILE" || s.chance(st.explicit) {
        m.push((kw(s, st, "volatility", None), Y::Str(f.vol.clone())));
    }
    arrange(s, st, &mut m);
    (kw(s, st, "function", Some(n)), Y::Map(m))
}

pub fn db_y(s: &mut Src, st: &Style, db: &Db) -> Y {
    let mut top: Vec<(String, Y)> = vec![];
    for (sn, sc) in &db.schemas {
        let mut m = vec![];
        for (n, r) in &sc.rels {
            m.push(rel_y(s, st, sn, n, r));
        }
        for (n, f) in &sc.funcs {
            m.push(func_y(s, st, n, f));
        }
        arrange(s, st, &mut m);
        if st.keyword_case > 0 && m.len() > 1 && s.chance(4) {
            // one schema under two keys that differ in letter case
            let k = s.range(1, m.len() - 1);
            let rest = m.split_off(k);
            top.push((format!("SCHEMA {sn}"), Y::Map(rest)));
            top.push((format!("schema {sn}"), Y::Map(m)));
            continue;
        }
        let y = if m.is_empty() && s.flag() { Y::Null } else { Y::Map(m) };
        top.push((kw(s, st, "schema", Some(sn)), y));
    }
    arrange(s, st, &mut top);
    Y::Map(top)
}

pub fn document(s: &mut Src, st: &Style, db: &Db) -> String {
    let y = db_y(s, st, db);
    emit(s, st.fancy, &y)
}

/// A plain document, without any choices.
pub fn simple(db: &Db) -> String {
    let mut s = Src::replay(vec![]);
    document(&mut s, &Style::plain(), db)
}

// ---------- YAML text ----------

pub fn emit(s: &mut Src, fancy: bool, y: &Y) -> String {
    let mut out = String::new();
    if fancy && s.chance(10) {
        out.push_str("# a definition\n");
    }
    if fancy && s.chance(10) {
        out.push_str("---\n");
    }
    match y {
        Y::Map(m) if !m.is_empty() => {
            let step = if fancy && s.chance(20) { 4 } else { 2 };
            block_map(s, fancy, m, 0, step, &mut out);
        }
        _ => {
            flow(s, y, &mut out);
            out.push('\n');
        }
    }
    out
}

fn block_map(s: &mut Src, fancy: bool, m: &[(String, Y)], ind: usize, step: usize, out: &mut String) {
    for (k, v) in m {
        if fancy && s.chance(3) {
            out.push_str(&" ".repeat(ind));
            out.push_str("# note: x\n");
        }
        if fancy && s.chance(3) {
            out.push('\n');
        }
        out.push_str(&" ".repeat(ind));
        out.push_str(&scalar(s, fancy, k, true, false));
        out.push(':');
        match v {
            Y::Map(c) if !c.is_empty() => {
                if fancy && s.chance(8) {
                    out.push(' ');
                    flow(s, v, out);
                    out.push('\n');
                } else {
                    out.push('\n');
                    block_map(s, fancy, c, ind + step, step, out);
                }
            }
            Y::List(c) if !c.is_empty() && !(fancy && s.chance(50)) && c.iter().all(|x| !matches!(x, Y::Map(_) | Y::List(_))) => {
                out.push('\n');
                for x in c {
                    out.push_str(&" ".repeat(ind + step));
                    out.push_str("- ");
                    value(s, fancy, x, out);
                    out.push('\n');
                }
            }
            Y::Map(_) | Y::List(_) => {
                out.push(' ');
                flow(s, v, out);
                out.push('\n');
            }
            Y::Str(t) if fancy && t.contains('\n') && literal_ok(t) && s.chance(70) => {
                let body = t.trim_end_matches('\n');
                let ends = t.len() - body.len();
                out.push_str(match ends {
                    0 => " |-",
                    _ => " |",
                });
                out.push('\n');
                for l in body.split('\n') {
                    if !l.is_empty() {
                        out.push_str(&" ".repeat(ind + step));
                        out.push_str(l);
                    }
                    out.push('\n');
                }
            }
            Y::Null => out.push_str(if fancy { *s.pick(&["\n", " ~\n", " null\n"]) } else { "\n" }),
            _ => {
                out.push(' ');
                value(s, fancy, v, out);
                if fancy && s.chance(2) {
                    out.push_str(" # trailing");
                }
                out.push('\n');
            }
        }
    }
}

fn value(s: &mut Src, fancy: bool, y: &Y, out: &mut String) {
    match y {
        Y::Str(t) => out.push_str(&scalar(s, fancy, t, false, false)),
        _ => flow(s, y, out),
    }
}

fn flow(s: &mut Src, y: &Y, out: &mut String) {
    match y {
        Y::Str(t) => out.push_str(&scalar(s, true, t, false, true)),
        Y::Int(i) => out.push_str(&i.to_string()),
        Y::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Y::Null => out.push_str("null"),
        Y::Raw(r) => out.push_str(r),
        Y::List(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                flow(s, x, out);
            }
            out.push(']');
        }
        Y::Map(m) => {
            out.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                out.push_str(&scalar(s, true, k, true, true));
                out.push_str(": ");
                flow(s, v, out);
            }
            out.push('}');
        }
    }
}

fn literal_ok(t: &str) -> bool {
    let first = t.trim_start_matches('\n');
    !t.trim_matches('\n').is_empty()
        && t == t.trim_start_matches('\n')
        && !t.ends_with("\n\n")
        && !first.starts_with(' ')
        && !first.starts_with('\t')
        && t.chars().all(|c| c == '\n' || c == '\t' || (c >= ' ' && c != '\u{7f}' && c != '\u{85}' && c != '\u{2028}' && c != '\u{2029}' && c != '\u{feff}'))
        && t.split('\n').all(|l| l.is_empty() || !l.trim().is_empty())
}

fn plain_ok(t: &str, flow: bool) -> bool {
    let lower = t.to_lowercase();
    let first = match t.chars().next() {
        Some(c) => c,
        None => return false,
    };
    !["true", "false", "null", "yes", "no", "on", "off", "y", "n", ".inf", ".nan", "inf", "nan"].contains(&lower.as_str())
        && (first.is_ascii_alphabetic() || first == '_' || first == '(' || first == '/')
        && t.chars().all(|c| c == ' ' || c.is_ascii_graphic() || c == 'é' || c == '日')
        && !t.ends_with(' ')
        && !t.ends_with(':')
        && !t.contains(": ")
        && !t.contains(" #")
        && !(flow && t.chars().any(|c| ",[]{}:?".contains(c)))
}

fn double(s: &mut Src, t: &str) -> String {
    let mut o = String::from("\"");
    let esc = s.chance(20);
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\x{:02x}", c as u32)),
            c if (c as u32) > 0x7e && (esc || (c as u32) < 0xa1 || c as u32 == 0x2028 || c as u32 == 0x2029 || c as u32 == 0xfeff) => {
                if c as u32 > 0xffff {
                    o.push_str(&format!("\\U{:08x}", c as u32))
                } else {
                    o.push_str(&format!("\\u{:04x}", c as u32))
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn single_ok(t: &str) -> bool {
    t.chars().all(|c| c >= ' ' && c as u32 != 0x7f && !((c as u32) >= 0x80 && (c as u32) < 0xa1) && c != '\u{2028}' && c != '\u{2029}' && c != '\u{feff}')
}

fn scalar(s: &mut Src, fancy: bool, t: &str, _key: bool, flow: bool) -> String {
    let can_plain = plain_ok(t, flow);
    let can_single = single_ok(t);
    if can_plain && !(fancy && s.chance(15)) {
        return t.to_string();
    }
    if can_single && !(fancy && s.chance(50)) {
        return format!("'{}'", t.replace('\'', "''"));
    }
    double(s, t)
}
