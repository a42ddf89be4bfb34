//! Reference reader: a direct, whole-input transcription of the format, without regular expressions and without
//! look-ahead state. It shares no code with the library.
use crate::{
    formula,
    lang,
    obs::{End, ErrObs, FormsObs, HeaderObs, MsgObs, Obs, St, UnitObs},
};
use std::{collections::BTreeMap, io::ErrorKind};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RLine {
    Comment(char, String),
    Msg { prefix: String, tag: String, val: String },
    Cont { prefix: String, val: String },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cls {
    Blank,
    Line(RLine),
    Bad,
}

pub fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            let dec = match it.peek() {
                Some('n') => Some('\n'),
                Some('t') => Some('\t'),
                Some('r') => Some('\r'),
                Some('"') => Some('"'),
                Some('\\') => Some('\\'),
                _ => None,
            };
            if let Some(d) = dec {
                it.next();
                out.push(d);
                continue;
            }
        }
        out.push(c);
    }
    out
}

/// The text between the first character, a quote, and the last quote, if only spaces follow.
fn quoted(s: &str) -> Option<&str> {
    let t = s.trim_end();
    if t.len() >= 2 && t.starts_with('"') && t.ends_with('"') {
        Some(&t[1..t.len() - 1])
    } else {
        None
    }
}

fn tag_of(s: &str) -> Option<(&str, &str)> {
    for t in ["msgctxt", "msgid_plural", "msgid", "msgstr"] {
        if let Some(rest) = s.strip_prefix(t) {
            if t == "msgstr" {
                if let Some(r) = rest.strip_prefix('[') {
                    let end = r.find(']')?;
                    let num = &r[..end];
                    let ok = num == "0"
                        || (!num.is_empty() && !num.starts_with('0') && num.chars().all(|c| c.is_numeric() && is_nd(c)));
                    if !ok {
                        return None;
                    }
                    let len = t.len() + 1 + end + 1;
                    return Some((&s[..len], &s[len..]));
                }
            }
            return Some((t, rest));
        }
    }
    None
}

/// Only ASCII digits matter to a catalogue; others never appear in the generated inputs.
fn is_nd(c: char) -> bool {
    c.is_ascii_digit()
}

fn message(line: &str) -> Option<RLine> {
    let s = line.trim_start();
    for (pre, prefix) in [("#~|", "~|"), ("#~", "~"), ("#|", "|"), ("", "")] {
        if let Some(r) = s.strip_prefix(pre) {
            let r = r.trim_start();
            if let Some((tag, rest)) = tag_of(r) {
                if let Some(q) = quoted(rest.trim_start()) {
                    let tag = if prefix.ends_with('|') { format!("|{tag}") } else { tag.to_string() };
                    return Some(RLine::Msg { prefix: prefix.to_string(), tag, val: unescape(q) });
                }
            }
            if let Some(q) = quoted(r) {
                return Some(RLine::Cont { prefix: prefix.to_string(), val: unescape(q) });
            }
            return None;
        }
    }
    None
}

pub fn classify(line: &str) -> Cls {
    if line.chars().all(char::is_whitespace) {
        return Cls::Blank;
    }
    if let Some(m) = message(line) {
        return Cls::Line(m);
    }
    match line.trim_start().strip_prefix('#') {
        None => Cls::Bad,
        Some(rest) => {
            let mut it = rest.chars();
            let kind = it.next().unwrap_or(' ');
            Cls::Line(RLine::Comment(kind, it.as_str().trim_start().to_string()))
        }
    }
}

/// The lines that matter with their numbers, up to and including the first failure.
pub fn lex(input: &[u8]) -> Vec<(usize, Result<RLine, ErrObs>)> {
    let mut v = Vec::new();
    let mut n = 0;
    let mut rest = input;
    while !rest.is_empty() {
        n += 1;
        let (mut raw, next) = match rest.iter().position(|&b| b == b'\n') {
            Some(i) => {
                let mut l = &rest[..i];
                if l.ends_with(b"\r") {
                    l = &l[..l.len() - 1];
                }
                (l, &rest[i + 1..])
            }
            None => (rest, &rest[rest.len()..]),
        };
        rest = next;
        let text = match std::str::from_utf8(raw) {
            Ok(t) => t,
            Err(_) => {
                v.push((n, Err(ErrObs::Io { line: n, kind: ErrorKind::InvalidData, msg: String::new() })));
                break;
            }
        };
        raw = &[];
        let _ = raw;
        match classify(text) {
            Cls::Blank => (),
            Cls::Line(l) => v.push((n, Ok(l))),
            Cls::Bad => {
                v.push((n, Err(ErrObs::Parse { line: n, got: text.to_string(), exp: String::new() })));
                break;
            }
        }
    }
    v
}

pub struct Ref {
    pub obs: Obs,
    /// The input stops within an entry (a recorded finding of C15): what follows the units is not compared.
    pub cut: bool,
    /// Line of the first comment, prefix or field of each unit, and of its last line (1-based).
    pub spans: Vec<(usize, usize)>,
}

struct P<'a> {
    lines: &'a [(usize, Result<RLine, ErrObs>)],
    pos: usize,
    forms: Option<FormsObs>,
    cut: bool,
}

impl<'a> P<'a> {
    fn peek(&self) -> Result<Option<(usize, &'a RLine)>, ErrObs> {
        match self.lines.get(self.pos) {
            None => Ok(None),
            Some((n, Ok(l))) => Ok(Some((*n, l))),
            Some((_, Err(e))) => Err(e.clone()),
        }
    }

    fn field(&mut self, want: &str, obsolete: bool) -> Result<Option<String>, ErrObs> {
        let (pre, mut s) = match self.peek()? {
            Some((_, RLine::Msg { prefix, tag, val })) if tag == want && prefix.starts_with('~') == obsolete => {
                (prefix.clone(), val.clone())
            }
            _ => return Ok(None),
        };
        self.pos += 1;
        while let Some((_, RLine::Cont { prefix, val })) = self.peek()? {
            if *prefix != pre {
                break;
            }
            s.push_str(val);
            self.pos += 1;
        }
        Ok(Some(s))
    }

    /// Ok at the end of the input, otherwise the error that names the line found.
    fn expected(&mut self, exp: &str) -> Result<(), ErrObs> {
        let (line, got) = match self.peek()? {
            None => {
                self.cut = true;
                return Ok(());
            }
            Some((n, RLine::Msg { prefix, .. })) => (n, prefix.clone()),
            Some((n, RLine::Cont { .. })) => (n, "\"".to_string()),
            Some((n, RLine::Comment(k, _))) => (n, format!("#{k}")),
        };
        Err(ErrObs::Parse { line, got, exp: exp.to_string() })
    }

    fn unit(&mut self, first: bool) -> Result<Option<UnitObs>, ErrObs> {
        let mut u = UnitObs::default();
        let mut fuzzy = false;
        while let Some((_, RLine::Comment(k, text))) = self.peek()? {
            self.pos += 1;
            match k {
                ',' => {
                    for f in text.split(',').map(str::trim).filter(|f| !f.is_empty()) {
                        fuzzy |= f == "fuzzy";
                        if !u.flags.iter().any(|x| x == f) {
                            u.flags.push(f.to_string());
                        }
                    }
                }
                ':' => u.locations.extend(text.split_whitespace().map(str::to_string)),
                '.' => u.notes.push((true, text.clone())),
                k if k.is_whitespace() => u.notes.push((false, text.clone())),
                k => u.comments.push((*k, text.clone())),
            }
        }
        u.flags.sort();
        let start = match self.peek()? {
            None => return Ok(None),
            Some((n, l)) => {
                u.obsolete = matches!(l, RLine::Msg { prefix, .. } if prefix.starts_with('~'));
                n
            }
        };
        let ob = u.obsolete;
        u.prev_context = self.field("|msgctxt", ob)?;
        if let Some(id) = self.field("|msgid", ob)? {
            u.prev = match self.field("|msgid_plural", ob)? {
                None => MsgObs::Simple { id, text: String::new() },
                Some(plural) => MsgObs::Plural { id, plural, values: vec![], forms: self.forms.clone() },
            };
        }
        u.context = self.field("msgctxt", ob)?;
        match self.field("msgid", ob)? {
            None => {
                self.expected("msgid")?;
                if !first {
                    return Ok(None);
                }
            }
            Some(id) => match self.field("msgid_plural", ob)? {
                None => match self.field("msgstr", ob)? {
                    None => {
                        self.expected("msgstr")?;
                        return Ok(None);
                    }
                    Some(text) => u.msg = MsgObs::Simple { id, text },
                },
                Some(plural) => {
                    let count = self.forms.as_ref().map_or(2, |f| f.count);
                    let mut values = vec![];
                    while values.len() < count {
                        match self.field(&format!("msgstr[{}]", values.len()), ob)? {
                            Some(v) => values.push(v),
                            None => break,
                        }
                    }
                    if values.is_empty() {
                        self.expected("msgstr[0]")?;
                        return Ok(None);
                    }
                    u.msg = MsgObs::Plural { id, plural, values, forms: self.forms.clone() };
                }
            },
        }
        let plural = matches!(u.msg, MsgObs::Plural { .. });
        if (!first || plural) && u.msg.id().is_empty() {
            return Err(ErrObs::Unexpected { line: start, msg: "Source should not be empty".into() });
        }
        u.state = if fuzzy {
            St::NeedsWork
        } else if u.msg.is_blank() {
            St::Empty
        } else {
            St::Final
        };
        u.translated = u.state == St::Final;
        Ok(Some(u))
    }

    fn span(&self, from: usize) -> (usize, usize) {
        (self.lines[from].0, self.lines[self.pos - 1].0)
    }
}

/// `key = value ;` pairs.
pub fn value_list(text: &str) -> Option<BTreeMap<String, String>> {
    let t = text.trim();
    let ok = t.is_empty()
        || t.char_indices().any(|(p, c)| {
            let key = t[..p].trim_end();
            c == '=' && !key.is_empty() && !key.contains(char::is_whitespace) && t.ends_with(';') && p < t.len() - 1
        });
    if !ok {
        return None;
    }
    let mut map = BTreeMap::new();
    let mut rest = t;
    'outer: while !rest.is_empty() {
        // the first run of key characters that is followed by '='
        let mut from = 0;
        loop {
            let key_char = |c: char| !c.is_whitespace() && c != ';' && c != '=';
            let Some(a) = rest[from..].find(key_char).map(|i| i + from) else { break 'outer };
            let b = rest[a..].find(|c| !key_char(c)).map_or(rest.len(), |i| i + a);
            let after = rest[b..].trim_start();
            if let Some(v) = after.strip_prefix('=') {
                let Some(end) = v.find(';') else { break 'outer };
                map.insert(rest[a..b].to_string(), v[..end].trim().to_string());
                rest = &v[end + 1..];
                break;
            }
            from = b;
        }
    }
    Some(map)
}

pub fn forms(def: &str) -> Result<FormsObs, ErrObs> {
    let Some(map) = value_list(def) else {
        return Err(ErrObs::Unexpected { line: 0, msg: String::new() });
    };
    let formula = map.get("plural").cloned().unwrap_or_default();
    if !formula.is_empty() && (formula.len() > 4096 || formula::parse(&formula).is_none()) {
        return Err(ErrObs::Plural { msg: String::new() });
    }
    let count = match map.get("nplurals") {
        None => 2,
        Some(s) => s.parse().map_err(|_| ErrObs::Plural { msg: String::new() })?,
    };
    Ok(FormsObs { count, definition: def.to_string(), formula })
}

pub fn properties(text: &str) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for line in text.split('\n') {
        if let Some((k, v)) = line.split_once(':') {
            match m.get_mut(k.trim()) {
                Some(old) => {
                    old.push(' ');
                    old.push_str(v.trim());
                }
                None => {
                    m.insert(k.trim().to_string(), v.trim().to_string());
                }
            }
        }
    }
    m
}

pub fn read(input: &[u8]) -> Ref {
    read_lines(&lex(input))
}

/// What must be read from a stream that fails with `err` after `input`.
pub fn read_broken(input: &[u8], err: impl FnOnce(usize) -> ErrObs) -> Ref {
    let end = input.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let whole = &input[..end];
    let mut lines = lex(whole);
    if !matches!(lines.last(), Some((_, Err(_)))) {
        let n = whole.iter().filter(|b| **b == b'\n').count() + 1;
        lines.push((n, Err(err(n))));
    }
    read_lines(&lines)
}

pub fn read_lines(lines: &[(usize, Result<RLine, ErrObs>)]) -> Ref {
    let mut p = P { lines, pos: 0, forms: None, cut: false };
    let mut r = Ref {
        obs: Obs { refused: false, header: HeaderObs::default(), units: vec![], end: End::Clean },
        cut: false,
        spans: vec![],
    };
    let refuse = |mut r: Ref, e: ErrObs| {
        r.obs.refused = true;
        r.obs.end = End::Err(e);
        r
    };
    let mut next = match p.unit(true) {
        Err(e) => return refuse(r, e),
        Ok(n) => n,
    };
    let mut span = if next.is_some() && p.pos > 0 { p.span(0) } else { (0, 0) };
    let mut start = p.pos;
    if let Some(MsgObs::Simple { id, text }) = next.as_ref().map(|u| &u.msg) {
        if id.is_empty() {
            let props = properties(text);
            let u = next.as_ref().unwrap();
            r.obs.header.notes = u.notes.clone();
            r.obs.header.comments = u.comments.clone();
            if let Some(l) = props.get("Language") {
                r.obs.header.lang = lang::tag(l);
            }
            if let Some(def) = props.get("Plural-Forms").filter(|d| !d.is_empty()) {
                match forms(def) {
                    Ok(f) => p.forms = Some(f),
                    Err(e) => {
                        r.obs.header = HeaderObs::default();
                        return refuse(r, e);
                    }
                }
            }
            r.obs.header.props = props;
            next = match p.unit(false) {
                Err(e) => {
                    r.obs.end = End::Err(e);
                    r.cut = p.cut;
                    return r;
                }
                Ok(n) => n,
            };
            if next.is_some() {
                span = p.span(start);
            }
            start = p.pos;
        }
    }
    while let Some(u) = next {
        r.obs.units.push(u);
        r.spans.push(span);
        next = match p.unit(false) {
            Err(e) => {
                r.obs.end = End::Err(e);
                break;
            }
            Ok(n) => n,
        };
        if next.is_some() {
            span = p.span(start);
        }
        start = p.pos;
    }
    r.cut = p.cut;
    r
}
