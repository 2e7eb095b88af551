pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Finds `"key": "string"` in a file this module wrote.
pub fn get_str(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\": \"");
    let i = text.find(&k)? + k.len();
    let mut out = String::new();
    let mut it = text[i..].chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}

pub fn get_u64s(text: &str, key: &str) -> Option<Vec<u64>> {
    let k = format!("\"{key}\": [");
    let i = text.find(&k)? + k.len();
    let j = text[i..].find(']')? + i;
    let body = text[i..j].trim();
    if body.is_empty() {
        return Some(vec![]);
    }
    body.split(',').map(|x| x.trim().parse().ok()).collect()
}
