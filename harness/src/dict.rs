//! Words, characters and numbers that the code under test mentions. They only steer what is generated, as a fuzzer's
//! dictionary does: what behaves differently for a special word is reached by using that word. The verdicts know nothing of it.

use crate::rng::Rng;
use std::{collections::BTreeSet, env, fs, path::Path, sync::OnceLock};

#[derive(Debug, Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub chars: Vec<char>,
    pub nums: Vec<u64>,
}

const KEEP: usize = 600;

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = env::var("POMON_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        walk(&Path::new(&root).join("src"), &mut files);
        files.sort();
        let (mut words, mut chars, mut nums) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for f in files {
            if let Ok(s) = fs::read_to_string(f) {
                // without the module of its tests
                let end = s.match_indices("#[cfg(test)]").map(|(i, _)| i).find(|i| s[*i..].lines().nth(1).is_some_and(|l| l.contains("mod tests")));
                scan(&s[..end.unwrap_or(s.len())], &mut words, &mut chars, &mut nums);
            }
        }
        Dict {
            words: words.into_iter().take(KEEP).collect(),
            chars: chars.into_iter().take(KEEP).collect(),
            nums: nums.into_iter().take(KEEP).collect(),
        }
    })
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    for e in fs::read_dir(p).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs" || x == "lalrpop") {
            out.push(p);
        }
    }
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('0') => o.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('\n') => while it.next_if(|c| c.is_whitespace()).is_some() {},
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

/// Literals of Rust text: good enough for what is usually written, and nothing depends on more.
fn scan(text: &str, words: &mut BTreeSet<String>, chars: &mut BTreeSet<char>, nums: &mut BTreeSet<u64>) {
    let s: Vec<char> = text.chars().collect();
    let at = |i: usize| s.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == '/' && at(i + 1) == '/' {
            while i < s.len() && s[i] != '\n' {
                i += 1;
            }
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') && !(i > 0 && (s[i - 1].is_alphanumeric() || s[i - 1] == '_') && s[i - 1] != 'b') {
            let mut h = 0;
            while at(i + 1 + h) == '#' {
                h += 1;
            }
            if at(i + 1 + h) != '"' {
                i += 1;
                continue;
            }
            let from = i + 2 + h;
            let mut j = from;
            while j < s.len() && !(s[j] == '"' && (0..h).all(|k| at(j + 1 + k) == '#')) {
                j += 1;
            }
            put(s[from..j.min(s.len())].iter().collect(), words, chars);
            i = j + 1 + h;
        } else if c == '"' {
            let mut j = i + 1;
            while j < s.len() && s[j] != '"' {
                j += if s[j] == '\\' { 2 } else { 1 };
            }
            put(unescape(&s[i + 1..j.min(s.len())].iter().collect::<String>()), words, chars);
            i = j + 1;
        } else if c == '\'' {
            if at(i + 1) == '\\' {
                let mut j = i + 3;
                while j < s.len() && s[j] != '\'' && s[j] != '\n' {
                    j += 1;
                }
                chars.extend(unescape(&s[i + 1..j.min(s.len())].iter().collect::<String>()).chars());
                i = j + 1;
            } else if at(i + 2) == '\'' {
                chars.insert(s[i + 1]);
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && !(i > 0 && (s[i - 1].is_alphanumeric() || s[i - 1] == '_')) {
            let mut j = i;
            while j < s.len() && (s[j].is_ascii_alphanumeric() || s[j] == '_') {
                j += 1;
            }
            let t: String = s[i..j].iter().filter(|c| **c != '_').collect();
            let t = ["usize", "isize", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "u128", "i128"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(&t).to_string();
            let n = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(b) = t.strip_prefix("0b") {
                u64::from_str_radix(b, 2).ok()
            } else {
                t.parse().ok()
            };
            if let Some(n) = n {
                nums.insert(n);
                // shifts and products of two
                let rest: String = s[j..s.len().min(j + 24)].iter().collect();
                let rest = rest.trim_start();
                let num = |r: &str| r.trim_start().chars().filter(|c| *c != '_').take_while(char::is_ascii_digit).collect::<String>().parse::<u64>().ok();
                if let Some(k) = rest.strip_prefix("<<").and_then(num) {
                    nums.extend(n.checked_shl(k as u32));
                } else if let Some(k) = rest.strip_prefix('*').and_then(num) {
                    nums.extend(n.checked_mul(k));
                }
                if let Some(c) = char::from_u32(n as u32).filter(|_| n < 0x110000) {
                    if t.starts_with("0x") {
                        chars.insert(c);
                    }
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

fn put(w: String, words: &mut BTreeSet<String>, chars: &mut BTreeSet<char>) {
    let mut it = w.chars();
    if let (Some(c), None) = (it.next(), it.next()) {
        chars.insert(c);
    }
    for part in w.split("{}") {
        if part.len() <= 200 && part.len() > 1 && part != w {
            words.insert(part.to_string());
        }
    }
    if w.len() <= 200 && !w.is_empty() {
        words.insert(w);
    }
}

/// A word of the dictionary, or one near it, in one line; what it has for sure is no line feed.
pub fn word(rng: &mut Rng) -> String {
    let d = dict();
    if d.words.is_empty() || rng.chance(1, 8) {
        return if d.chars.is_empty() { "x".into() } else { rng.pick(&d.chars).to_string().replace('\n', " ") };
    }
    let w = rng.pick(&d.words).replace('\n', " ");
    match rng.below(16) {
        0 => w.to_uppercase(),
        1 => w.to_lowercase(),
        2 => w.split_inclusive(|c: char| !c.is_alphanumeric()).map(title).collect(),
        3 => format!("{w}{w}"),
        4 => format!("{w}x"),
        5 => format!("x{w}"),
        6 => w.chars().skip(1).collect(),
        7 => format!("{w} "),
        8 => format!(" {w}"),
        _ => w,
    }
}

fn title(s: &str) -> String {
    let mut it = s.chars();
    it.next().map(|c| c.to_uppercase().collect::<String>() + it.as_str()).unwrap_or_default()
}

/// A number the code mentions, or one next to it.
pub fn number(rng: &mut Rng) -> u64 {
    let d = dict();
    if d.nums.is_empty() {
        return 0;
    }
    let n = *rng.pick(&d.nums);
    match rng.below(4) {
        0 => n.wrapping_sub(1),
        1 => n.saturating_add(1),
        _ => n,
    }
}

/// Numbers of the code and the ones next to them, within limits, for lists of sizes to try; not those that are there already.
pub fn near(from: usize, to: usize, but: &[usize]) -> Vec<usize> {
    let v: BTreeSet<usize> = dict()
        .nums
        .iter()
        .filter(|n| (from as u64..=to as u64).contains(*n))
        .flat_map(|n| [(*n as usize).saturating_sub(1), *n as usize, *n as usize + 1])
        .filter(|n| !but.contains(n))
        .collect();
    v.into_iter().take(60).collect()
}

/// Sizes around the numbers of the code that are not too large to be tried.
pub fn sizes() -> &'static [usize] {
    static S: OnceLock<Vec<usize>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: BTreeSet<usize> = crate::checks::SIZES.iter().copied().collect();
        let near: BTreeSet<usize> =
            dict().nums.iter().filter(|n| (9..=70_000).contains(*n)).flat_map(|n| [*n as usize - 1, *n as usize, *n as usize + 1]).collect();
        // the ones not yet among them, the large ones sparingly
        let mut budget = 400_000usize;
        for n in near {
            if !v.contains(&n) && n <= budget {
                budget -= n;
                v.insert(n);
            }
        }
        v.into_iter().collect()
    })
}
