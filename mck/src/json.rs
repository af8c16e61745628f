//! Just enough JSON.
use std::collections::BTreeMap;

pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn obj(f: &[(&str, String)]) -> String {
    let v: Vec<String> = f.iter().map(|(k, v)| format!("{}: {}", s(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

/// Parses a flat object whose values are strings, numbers or booleans.
pub fn parse_flat(t: &str) -> Option<BTreeMap<String, String>> {
    let c: Vec<char> = t.trim().chars().collect();
    let mut i = 0;
    let mut m = BTreeMap::new();
    let ws = |i: &mut usize| while *i < c.len() && (c[*i].is_whitespace() || c[*i] == ',') { *i += 1 };
    fn string(c: &[char], i: &mut usize) -> Option<String> {
        if c.get(*i)? != &'"' {
            return None;
        }
        *i += 1;
        let mut o = String::new();
        loop {
            match *c.get(*i)? {
                '"' => {
                    *i += 1;
                    return Some(o);
                }
                '\\' => {
                    *i += 1;
                    match *c.get(*i)? {
                        'n' => o.push('\n'),
                        'r' => o.push('\r'),
                        't' => o.push('\t'),
                        'u' => {
                            let h: String = c.get(*i + 1..*i + 5)?.iter().collect();
                            o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            *i += 4;
                        }
                        x => o.push(x),
                    }
                    *i += 1;
                }
                x => {
                    o.push(x);
                    *i += 1;
                }
            }
        }
    }
    if *c.first()? != '{' {
        return None;
    }
    i += 1;
    loop {
        ws(&mut i);
        if *c.get(i)? == '}' {
            return Some(m);
        }
        let k = string(&c, &mut i)?;
        ws(&mut i);
        if *c.get(i)? != ':' {
            return None;
        }
        i += 1;
        ws(&mut i);
        let v = if c[i] == '"' {
            string(&c, &mut i)?
        } else {
            let st = i;
            while i < c.len() && c[i] != ',' && c[i] != '}' {
                i += 1;
            }
            c[st..i].iter().collect::<String>().trim().to_string()
        };
        m.insert(k, v);
    }
}
