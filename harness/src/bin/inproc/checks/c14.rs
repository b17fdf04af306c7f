use super::*;
use vcore::damage::*;
use yaml::Style;

pub fn c14() -> Check {
    Check {
        id: "C14",
        level: "exploration",
        rule: "malformed: a valid random document with one fault put in (unknown key, missing name, missing or wrongly typed attribute, \
               misplaced object, malformed column expression or reference, object defined twice), which must be refused; trees: arbitrary \
               YAML of podo's vocabulary; text: valid documents damaged byte by byte, and arbitrary text; these last two must load or be \
               refused without a crash; program, program-text: the same documents staged by the podo binary; non-trivial: the document differs from any valid one (malformed), or parses as YAML (others)",
        assumptions: vec![],
        parts: vec![
            Part { name: "malformed", quick: 16000, thorough: 400000, f: malformed },
            Part { name: "trees", quick: 8000, thorough: 200000, f: trees },
            Part { name: "text", quick: 10000, thorough: 300000, f: text },
        ],
        fixed: vec![],
    }
}

fn malformed(s: &mut Src, ctx: &mut Ctx) -> Res {
    for _ in 0..10 {
        let db = gen_db(s, &Opts::pure());
        let mut y = yaml::db_y(s, &Style { fancy: false, ..Style::any() }, &db);
        let what = match damage(s, &mut y) {
            Some(w) => w,
            None => continue,
        };
        let text = yaml::emit(s, true, &y);
        ctx.case(format!("# {what}\n{text}"));
        ctx.label(what.split(|c: char| c == '"' || c == ':').next().unwrap_or("").trim().to_string());
        ctx.nontrivial = true;
        return match load(&text)? {
            Err(m) => {
                ensure!(!m.trim().is_empty(), "no-message", "refused without a message");
                Ok(())
            }
            Ok(_) => fail("accepted", format!("the document is accepted in spite of: {what}")),
        };
    }
    Ok(())
}

fn trees(s: &mut Src, ctx: &mut Ctx) -> Res {
    let y = tree(s, 5);
    let text = yaml::emit(s, true, &y);
    ctx.case(&text);
    ctx.nontrivial = serde_yaml::from_str::<serde_yaml::Value>(&text).is_ok();
    match load(&text)? {
        Ok(m) => {
            ctx.label("loaded");
            // what loads is kept whole: as many objects as keys that make one
            if let Ok(serde_yaml::Value::Mapping(top)) = serde_yaml::from_str(&text) {
                let mut n = 0;
                let mut schemas = std::collections::BTreeSet::new();
                for (k, v) in &top {
                    schemas.insert(k.as_str().unwrap_or("").get(6..).unwrap_or("").trim().to_string());
                    if let serde_yaml::Value::Mapping(sc) = v {
                        for (k2, v2) in sc {
                            n += 1;
                            if kind_of(k2.as_str().unwrap_or(""), "schema") == "table" {
                                if let serde_yaml::Value::Mapping(t) = v2 {
                                    n += t.len();
                                }
                            }
                        }
                    }
                }
                ensure!(m.objects() == n + schemas.len(), "lost", "the document holds {} objects, {} were loaded", n + schemas.len(), m.objects());
            }
        }
        Err(e) => {
            ctx.label("refused");
            ensure!(!e.trim().is_empty(), "no-message", "refused without a message");
        }
    }
    Ok(())
}

fn text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = any_document(s);
    ctx.case(&t);
    ctx.nontrivial = serde_yaml::from_str::<serde_yaml::Value>(&t).is_ok();
    match load(&t)? {
        Ok(_) => ctx.label("loaded"),
        Err(e) => {
            ctx.label("refused");
            ensure!(!e.trim().is_empty(), "no-message", "refused without a message");
        }
    }
    Ok(())
}
