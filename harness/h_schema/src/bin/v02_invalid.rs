use h_schema::valid::*;
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "V02",
        "Random valid schemas are changed to break one rule (45 classes, in definitions and in extensions, in random order, under every \
         set of options that has the rule); the validator must report an error, one of its errors must name what is wrong, and it must \
         not panic. Distinct: hash of the document and options.",
    );
    c.require("invalid documents", 20_000);
    c.require("invalid documents with extensions", 8_000);
    for class in CLASSES {
        c.require(&format!("class {class}"), 60);
    }
    c.cases("documents", 250_000, 5_000_000, |case| {
        let rng = &mut case.rng;
        let Some(mut doc) = valid(rng) else { return Ok(()) };
        let class = *rng.pick(&CLASSES);
        let Some(says) = break_rule(rng, &mut doc, class) else { return Ok(()) };
        let (mut forbid, mut draft) = (rng.bool(), rng.bool());
        forbid |= class == "extension-of-unknown";
        draft |= class == "required-deprecated";
        if rng.pct(60) {
            doc = extended(rng, &doc, forbid);
        }
        let broken = problems(&doc, forbid, draft);
        if !broken.iter().any(|p| p.0 == rule(class)) {
            return Ok(());
        }
        let text = written(rng, &doc);
        case.input(format!("# forbid: {forbid}, draft: {draft}, broken: {broken:?}\n{text}"));
        let got = validate(&text, forbid, draft)?;
        case.append_input(&format!("### errors\n{:#?}", got.messages));
        // The parser itself refuses some of them; otherwise a document it does not read says nothing.
        let by_parser = ["empty-enum", "empty-union", "duplicate-operation", "empty-input", "empty-type"].contains(&class);
        if got.syntax && !by_parser {
            case.count("not read by the parser", 1);
            return Ok(());
        }
        case.count("invalid documents", 1);
        if doc.types().any(|t| t.ext) {
            case.count("invalid documents with extensions", 1);
        }
        case.count(&format!("class {class}"), 1);
        ensure!(!got.messages.is_empty(), format!("missed-{class}"), "{broken:?}: no error");
        // A change of an interface field can break only the implementers of that interface.
        let elsewhere = class.starts_with("interface-") && !broken.iter().any(|p| says.iter().all(|s| p.1.contains(s.as_str())));
        ensure!(
            got.syntax || elsewhere || got.messages.iter().any(|m| says.iter().all(|s| m.contains(s.as_str()))),
            format!("names-{class}"),
            "{broken:?}: no error names {says:?}: {:#?}",
            got.messages
        );
        case.nontrivial(&(&text, forbid, draft));
        case.sample(text);
        Ok(())
    });
    // Documents that may be broken in several ways at once, or unreadable.
    c.require("scrambled documents", 10_000);
    c.require("unreadable documents", 10_000);
    c.cases("scrambled", 150_000, 3_000_000, |case| {
        let rng = &mut case.rng;
        let Some(doc) = valid(rng) else { return Ok(()) };
        let (forbid, draft) = (rng.bool(), rng.bool());
        let doc = if rng.bool() { extended(rng, &doc, forbid) } else { doc };
        let text = written(rng, &doc);
        let text = scrambled(rng, &text);
        case.input(format!("# forbid: {forbid}, draft: {draft}\n{text}"));
        let got = validate(&text, forbid, draft)?;
        case.append_input(&format!("### errors\n{:#?}", got.messages));
        if got.syntax {
            case.count("unreadable documents", 1);
            ensure!(!got.messages.is_empty(), "unreadable", "no error for what the parser refuses");
        } else if let Ok(doc) = vgql::parse(&text) {
            let broken = problems(&doc, forbid, draft);
            if let Some((rule, _)) = broken.iter().find(|p| p.0 != "undecided") {
                case.count("scrambled documents", 1);
                case.seen("scrambled", rule);
                ensure!(!got.messages.is_empty(), format!("missed-{rule}"), "{broken:?}: no error");
            }
        }
        case.nontrivial(&(&text, forbid, draft));
        Ok(())
    });
    c.finish();
}
