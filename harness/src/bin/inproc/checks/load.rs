use super::*;

pub fn c01() -> Check {
    Check {
        id: "C01",
        level: "exploration",
        rule: "random databases (every kind of object, quirky names, defaults written or omitted) written as YAML in random forms \
               (block and flow, quoting, key order, keyword case, comments, one document), loaded by podo and compared with the model; program: the same documents staged by the podo binary; \
               non-trivial: the database holds at least one table and five objects",
        assumptions: vec!["names begin and end with non-blank characters; YAML as serde_yaml reads it"],
        parts: vec![
            Part { name: "documents", quick: 14000, thorough: 400000, f: documents },
            Part { name: "free-texts", quick: 8000, thorough: 200000, f: free_texts },
            Part { name: "same-meaning", quick: 4000, thorough: 100000, f: same_meaning },
        ],
        fixed: vec![],
    }
}

fn expect_loads(text: &str, db: &Db, ctx: &mut Ctx) -> Res {
    ctx.case(text);
    labels(db, &mut ctx.labels);
    ctx.nontrivial = !db.tables().is_empty() && db.objects() >= 5;
    match load(text)? {
        Ok(m) => {
            ensure!(m == *db, "differs", "the loaded database differs from what the document states: {}", describe_diff(db, &m));
            Ok(())
        }
        Err(e) => fail("refused", format!("a valid document is refused: {e}")),
    }
}

fn documents(s: &mut Src, ctx: &mut Ctx) -> Res {
    let db = gen_db(s, &Opts::pure());
    let text = yaml::document(s, &yaml::Style::any(), &db);
    expect_loads(&text, &db, ctx)
}

fn free_texts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut db = gen_db(s, &Opts::pure());
    with_free_texts(s, &mut db);
    let text = yaml::document(s, &yaml::Style::any(), &db);
    expect_loads(&text, &db, ctx)
}

/// Two ways of writing one database load alike.
fn same_meaning(s: &mut Src, ctx: &mut Ctx) -> Res {
    let db = gen_db(s, &Opts::pure());
    let a = yaml::document(s, &yaml::Style::any(), &db);
    let b = yaml::document(s, &yaml::Style::any(), &db);
    ctx.case(format!("{a}\n=====\n{b}"));
    ctx.nontrivial = a != b && db.objects() >= 3;
    let (x, y) = (guarded("loading", || pd::load_yaml_string(&a))?, guarded("loading", || pd::load_yaml_string(&b))?);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            ensure!(x == y, "differs", "two ways of writing one database load differently");
            Ok(())
        }
        (Err(e), _) | (_, Err(e)) => fail("refused", format!("a valid document is refused: {e}")),
    }
}
