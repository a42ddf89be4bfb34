//! Model of the target language: RFC 4647 ranges in canonical case, POSIX locale names mapped to them, otherwise the
//! invariant (empty) language.

fn alpha(s: &str, a: usize, b: usize) -> bool {
    (a..=b).contains(&s.len()) && s.bytes().all(|c| c.is_ascii_alphabetic())
}

fn alnum(s: &str, a: usize, b: usize) -> bool {
    (a..=b).contains(&s.len()) && s.bytes().all(|c| c.is_ascii_alphanumeric())
}

fn region(s: &str) -> bool {
    alpha(s, 2, 2) || (s.len() == 3 && s.bytes().all(|c| c.is_ascii_digit()))
}

fn range(l: &str) -> Option<String> {
    let parts: Vec<&str> = l.split('-').collect();
    if !(parts[0] == "*" || alpha(parts[0], 1, 8)) || !parts[1..].iter().all(|p| *p == "*" || alnum(p, 1, 8)) {
        return None;
    }
    let mut out: Vec<String> = parts.iter().map(|p| p.to_ascii_lowercase()).collect();
    if parts[0] == "*" || parts[0].len() == 2 || parts[0].len() == 3 {
        let mut i = 1;
        if parts[0] != "*" {
            while i < parts.len() && i <= 3 && alpha(parts[i], 3, 3) {
                i += 1;
            }
        }
        if i < parts.len() && (parts[i] == "*" || alpha(parts[i], 4, 4)) {
            out[i] = parts[i][..1].to_ascii_uppercase() + &parts[i][1..].to_ascii_lowercase();
            i += 1;
        }
        if i < parts.len() && (parts[i] == "*" || region(parts[i])) {
            out[i] = parts[i].to_ascii_uppercase();
        }
    }
    Some(out.join("-"))
}

fn posix(l: &str) -> Option<String> {
    let (rest, variant) = match l.split_once('@') {
        Some((r, v)) => (r, Some(v)),
        None => (l, None),
    };
    let (rest, enc) = match rest.split_once('.') {
        Some((r, e)) => (r, Some(e)),
        None => (rest, None),
    };
    let (lang, reg) = match rest.split_once('_') {
        Some((l, r)) => (l, Some(r)),
        None => (rest, None),
    };
    let enc_ok = |e: &str| (1..=20).contains(&e.len()) && e.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-');
    if enc.is_some_and(|e| !enc_ok(e)) {
        return None;
    }
    if variant.is_none() && reg.is_none() && ["c", "posix"].contains(&lang.to_ascii_lowercase().as_str()) {
        return Some(String::new());
    }
    if !alpha(lang, 2, 3) || reg.is_some_and(|r| !region(r)) || variant.is_some_and(|v| !alnum(v, 1, 20)) {
        return None;
    }
    let mut res = lang.to_ascii_lowercase();
    let variant = variant.unwrap_or("").to_ascii_lowercase();
    let (script, sub, user) = match variant.as_str() {
        "" | "euro" => ("", "", ""),
        "saaho" if res == "aa" => {
            res = "ssy".into();
            ("", "", "")
        }
        "arabic" => ("Arab", "", ""),
        "cyrl" | "cyrillic" => ("Cyrl", "", ""),
        "devanagari" => ("Deva", "", ""),
        "hebrew" => ("Hebr", "", ""),
        "iqtelif" | "latn" | "latin" => ("Latn", "", ""),
        "shaw" => ("Shaw", "", ""),
        "ijekavianlatin" => ("Latn", "ijekavsk", ""),
        "ije" | "ijekavian" => ("", "ijekavsk", ""),
        "valencia" => ("", "valencia", ""),
        v => ("", "", &v[..v.len().min(8)]),
    };
    for (pre, part) in [("-", script), ("-", &reg.unwrap_or("").to_ascii_uppercase()), ("-", sub), ("-u-va-", user)] {
        if !part.is_empty() {
            res.push_str(pre);
            res.push_str(part);
        }
    }
    Some(res)
}

/// The tag reported for a `Language` property.
pub fn tag(l: &str) -> String {
    if l.is_empty() || !l.is_ascii() {
        return String::new();
    }
    range(l).or_else(|| posix(l)).unwrap_or_default()
}
