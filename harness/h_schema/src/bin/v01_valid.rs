use h_schema::valid::*;
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "V01",
        "Random valid schemas with covariant fields, directives, interfaces of interfaces, default values and renamed roots, in any \
         order, some parts (or all) of definitions in extensions, under every set of options: no error. Validity is decided by an \
         independent implementation of the rules. Distinct: hash of the document and options.",
    );
    c.require("documents", 40_000);
    c.require("documents with extensions", 15_000);
    c.require("types with extensions only", 3_000);
    c.assume("documents async-graphql-parser does not read (a description on a schema definition, an interface with nothing in it) are left out");
    c.cases("documents", 200_000, 4_000_000, |case| {
        let rng = &mut case.rng;
        let Some(base) = valid(rng) else { return Ok(()) };
        let (forbid, draft) = (rng.bool(), rng.bool());
        let mut doc = base.clone();
        // What only an option forbids is fine without it.
        if !draft && rng.pct(20) {
            break_rule(rng, &mut doc, "required-deprecated");
        }
        if !forbid && rng.pct(20) {
            break_rule(rng, &mut doc, "extension-of-unknown");
        }
        if rng.pct(60) {
            doc = extended(rng, &doc, forbid);
        }
        if !problems(&doc, forbid, draft).is_empty() {
            return Ok(());
        }
        let text = written(rng, &doc);
        case.input(format!("# forbid: {forbid}, draft: {draft}\n{text}"));
        let got = validate(&text, forbid, draft)?;
        if got.syntax {
            case.count("not read by the parser", 1);
            return Ok(());
        }
        case.count("documents", 1);
        if doc.types().any(|t| t.ext) {
            case.count("documents with extensions", 1);
        }
        case.count("types with extensions only", doc.types().filter(|t| t.ext && doc.ty(&t.name).is_none()).count() as u64);
        for t in doc.types() {
            case.seen("kinds", &format!("{:?} extension={}", t.kind, t.ext));
        }
        if let Some(m) = got.messages.first() {
            // Which message: without the names in it.
            let names = |w: &str| text.contains(&format!("{w} ")) || text.contains(&format!("{w}:")) || text.contains(&format!("@{w}"));
            let sig: String =
                m.split(|c: char| !c.is_ascii_alphabetic()).filter(|w| w.len() > 2 && !names(w)).take(6).collect::<Vec<_>>().join(" ");
            return viol(format!("false: {sig}"), format!("a valid document is refused: {:#?}", got.messages));
        }
        case.nontrivial(&(&text, forbid, draft));
        case.sample(text);
        Ok(())
    });
    // Other documents that turn out to be valid.
    c.require("scrambled documents", 3_000);
    c.cases("scrambled", 150_000, 3_000_000, |case| {
        let rng = &mut case.rng;
        let Some(doc) = valid(rng) else { return Ok(()) };
        let (forbid, draft) = (rng.bool(), rng.bool());
        let doc = if rng.bool() { extended(rng, &doc, forbid) } else { doc };
        let text = written(rng, &doc);
        let text = scrambled(rng, &text);
        let Ok(doc) = vgql::parse(&text) else { return Ok(()) };
        if !problems(&doc, forbid, draft).is_empty() {
            return Ok(());
        }
        case.input(format!("# forbid: {forbid}, draft: {draft}\n{text}"));
        let got = validate(&text, forbid, draft)?;
        if got.syntax {
            case.count("not read by the parser", 1);
            return Ok(());
        }
        case.count("scrambled documents", 1);
        ensure!(got.messages.is_empty(), "false on scrambled", "a valid document is refused: {:#?}", got.messages);
        case.nontrivial(&(&text, forbid, draft));
        Ok(())
    });
    c.finish();
}
