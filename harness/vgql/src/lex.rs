#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Name(String),
    Int(String),
    Float(String),
    Str(String),
    P(char),
    Spread,
}

pub fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\n' | '\r' | ',' | '\u{feff}' => i += 1,
            '#' => {
                while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                    i += 1;
                }
            }
            '.' => {
                if c.get(i + 1) == Some(&'.') && c.get(i + 2) == Some(&'.') {
                    out.push(Tok::Spread);
                    i += 3;
                } else {
                    return Err(format!("lone dot at {i}"));
                }
            }
            ch @ ('!' | '$' | '&' | '(' | ')' | ':' | '=' | '@' | '[' | ']' | '{' | '|' | '}') => {
                out.push(Tok::P(ch));
                i += 1;
            }
            '"' => {
                if c.get(i + 1) == Some(&'"') && c.get(i + 2) == Some(&'"') {
                    i += 3;
                    let mut raw = String::new();
                    loop {
                        if i >= c.len() {
                            return Err("unterminated block string".into());
                        }
                        if c[i] == '"' && c.get(i + 1) == Some(&'"') && c.get(i + 2) == Some(&'"') {
                            i += 3;
                            break;
                        }
                        if c[i] == '\\' && c.get(i + 1) == Some(&'"') && c.get(i + 2) == Some(&'"') && c.get(i + 3) == Some(&'"') {
                            raw.push_str("\"\"\"");
                            i += 4;
                            continue;
                        }
                        raw.push(c[i]);
                        i += 1;
                    }
                    out.push(Tok::Str(block_value(&raw)));
                } else {
                    i += 1;
                    let mut s = String::new();
                    loop {
                        let Some(&ch) = c.get(i) else { return Err("unterminated string".into()) };
                        match ch {
                            '"' => {
                                i += 1;
                                break;
                            }
                            '\n' | '\r' => return Err("newline in string".into()),
                            '\\' => {
                                let Some(&e) = c.get(i + 1) else { return Err("bad escape".into()) };
                                i += 2;
                                match e {
                                    '"' | '\\' | '/' => s.push(e),
                                    'b' => s.push('\u{8}'),
                                    'f' => s.push('\u{c}'),
                                    'n' => s.push('\n'),
                                    'r' => s.push('\r'),
                                    't' => s.push('\t'),
                                    'u' => {
                                        let hex: String = if c.get(i) == Some(&'{') {
                                            let e = c[i..].iter().position(|x| *x == '}').ok_or("bad unicode escape")?;
                                            let h = c[i + 1..i + e].iter().collect();
                                            i += e + 1;
                                            h
                                        } else {
                                            let h = c.get(i..i + 4).ok_or("bad unicode escape")?.iter().collect();
                                            i += 4;
                                            h
                                        };
                                        let n = u32::from_str_radix(&hex, 16).map_err(|_| "bad unicode escape")?;
                                        s.push(char::from_u32(n).ok_or("bad code point")?);
                                    }
                                    _ => return Err(format!("bad escape \\{e}")),
                                }
                            }
                            _ => {
                                s.push(ch);
                                i += 1;
                            }
                        }
                    }
                    out.push(Tok::Str(s));
                }
            }
            ch if ch.is_ascii_alphabetic() || ch == '_' => {
                let s = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                out.push(Tok::Name(c[s..i].iter().collect()));
            }
            ch if ch.is_ascii_digit() || ch == '-' => {
                let s = i;
                let mut float = false;
                i += 1;
                while i < c.len() && (c[i].is_ascii_digit() || matches!(c[i], '.' | 'e' | 'E' | '+' | '-')) {
                    float |= !c[i].is_ascii_digit();
                    i += 1;
                }
                let t: String = c[s..i].iter().collect();
                if t.parse::<f64>().is_err() {
                    return Err(format!("bad number {t}"));
                }
                out.push(if float { Tok::Float(t) } else { Tok::Int(t) });
            }
            ch => return Err(format!("unexpected character {ch:?}")),
        }
    }
    Ok(out)
}

/// https://spec.graphql.org/October2021/#BlockStringValue()
pub fn block_value(raw: &str) -> String {
    let lines: Vec<&str> = {
        let mut v = Vec::new();
        for l in raw.split('\n') {
            let l = l.strip_suffix('\r').unwrap_or(l);
            v.extend(l.split('\r'));
        }
        v
    };
    let ws = |l: &str| l.chars().take_while(|c| *c == ' ' || *c == '\t').count();
    let common = lines
        .iter()
        .skip(1)
        .filter(|l| ws(l) < l.chars().count())
        .map(|l| ws(l))
        .min();
    let mut out: Vec<String> = lines
        .iter()
        .enumerate()
        .map(|(i, l)| match common {
            Some(n) if i > 0 => l.chars().skip(n).collect(),
            _ => l.to_string(),
        })
        .collect();
    let blank = |l: &String| l.chars().all(|c| c == ' ' || c == '\t');
    while out.first().is_some_and(blank) {
        out.remove(0);
    }
    while out.last().is_some_and(blank) {
        out.pop();
    }
    out.join("\n")
}
