//! Random catalogues: an abstract catalogue, what a reader must report for it, and many ways to write it down.
use crate::{
    dict,
    formula,
    lang,
    obs::{End, FormsObs, HeaderObs, MsgObs, Obs, St, UnitObs},
    rng::Rng,
};
use std::collections::BTreeMap;

/// A string field: the raw text between the quotes of each line, and the value they spell.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Str {
    pub segs: Vec<String>,
    pub value: String,
}

impl Str {
    pub fn plain(s: &str) -> Str {
        Str { segs: vec![escape(s)], value: s.to_string() }
    }
    fn push(&mut self, raw: String, val: &str) {
        self.segs.push(raw);
        self.value.push_str(val);
    }
}

pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Note {
    Translator(String),
    Developer(String),
    /// the items of one `#:` line
    Locations(Vec<String>),
    /// the items of one `#,` line
    Flags(Vec<String>),
    Custom(char, String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Body {
    Simple(Str),
    Plural(Str, Vec<Str>),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Prev {
    pub context: Option<Str>,
    pub id: Option<Str>,
    pub plural: Option<Str>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    pub notes: Vec<Note>,
    pub prev: Prev,
    pub context: Option<Str>,
    pub id: Str,
    pub body: Body,
    pub obsolete: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Header {
    pub notes: Vec<Note>,
    pub context: Option<Str>,
    pub text: Str,
    pub props: BTreeMap<String, String>,
    pub forms: Option<FormsObs>,
    pub obsolete: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Catalogue {
    pub header: Option<Header>,
    pub entries: Vec<Entry>,
}

/// What a generator may vary.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub header: (usize, usize),
    pub entries: (usize, usize),
    pub notes: bool,
    pub prev: bool,
    pub obsolete: bool,
    pub plurals: bool,
    /// one in this many strings is long
    pub long: usize,
    pub hostile: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            header: (3, 4),
            entries: (0, 6),
            notes: true,
            prev: true,
            obsolete: true,
            plurals: true,
            long: 200,
            hostile: true,
        }
    }
}

const WORDS: &[&str] = &[
    "a",
    "b",
    "x",
    "Open",
    "file",
    "%d files",
    "Save as…",
    "été",
    "日本語",
    "Привет",
    "𝔘𝔫𝔦",
    " ",
    "  ",
    "",
    "fuzzy",
    "msgid",
    "msgstr",
    "msgctxt",
    "msgid_plural",
    "msgstr[0]",
    "#",
    "# ",
    "#~",
    "#,",
    "#|",
    "//",
    "n",
    "t",
    "r",
    "0",
    "100%",
    "{}",
    "[1]",
    "é\u{301}",
    "\u{a0}",
    "\u{2028}",
    "\u{feff}",
    "\u{85}",
    "\u{0}",
    "\u{7f}",
    "ß",
    "'",
    "`",
    ":",
    ";",
    "=",
    ",",
    "\u{200b}",
    "\u{10ffff}",
    "\u{b}",
    "\u{c}",
];

/// Raw pieces and the text they stand for.
const ESCAPES: &[(&str, &str)] = &[
    ("\\n", "\n"),
    ("\\t", "\t"),
    ("\\r", "\r"),
    ("\\\"", "\""),
    ("\\\\", "\\"),
    ("\\\\n", "\\n"),
    ("\\\\t", "\\t"),
    ("\\\\r", "\\r"),
    ("\\\\\\n", "\\\n"),
    ("\\\\\\\"", "\\\""),
    ("\\\\\\\\", "\\\\"),
    ("\\n\\n", "\n\n"),
    ("\\r\\n", "\r\n"),
    ("\\nn", "\nn"),
    ("\\\"\\\"", "\"\""),
    // not escapes: kept as they are
    ("\\a", "\\a"),
    ("\\x41", "\\x41"),
    ("\\0", "\\0"),
    ("\\101", "\\101"),
    ("\\u00e9", "\\u00e9"),
    ("\\é", "\\é"),
    ("\\ ", "\\ "),
    ("\\'", "\\'"),
    ("\\N", "\\N"),
    ("\\T", "\\T"),
    ("\\R", "\\R"),
    ("\\v", "\\v"),
    ("\\f", "\\f"),
    ("\\b", "\\b"),
    ("\\/", "\\/"),
    ("\\p", "\\p"),
    ("\\l", "\\l"),
    ("\\s", "\\s"),
    ("\\j", "\\j"),
    ("\\$", "\\$"),
    ("\\$1", "\\$1"),
    ("$1", "$1"),
    ("${0}", "${0}"),
];

/// A piece of raw text and its value, on one line and without unescaped quotes.
fn piece(rng: &mut Rng, hostile: bool, raw: &mut String, val: &mut String) {
    if hostile && rng.chance(1, 3) {
        let (r, v) = rng.pick(ESCAPES);
        raw.push_str(r);
        val.push_str(v);
    } else if hostile && rng.chance(1, 40) {
        // any character that can stand in a line
        let c = loop {
            let c = match rng.below(4) {
                0 => rng.below(0x80) as u32,
                1 => rng.below(0x800) as u32,
                2 => rng.below(0x10000) as u32,
                _ => rng.below(0x110000) as u32,
            };
            match char::from_u32(c) {
                Some(c) if !['\n', '"', '\\'].contains(&c) => break c,
                _ => (),
            }
        };
        raw.push(c);
        val.push(c);
    } else if hostile && rng.chance(1, 12) {
        let w = dict::word(rng);
        raw.push_str(&escape(&w));
        val.push_str(&w);
    } else {
        let w = rng.pick(WORDS);
        raw.push_str(w);
        val.push_str(w);
    }
}

pub fn string(rng: &mut Rng, cfg: &Cfg) -> Str {
    let mut s = Str::default();
    let segs = match rng.below(10) {
        0..=5 => 1,
        6 | 7 => 2,
        8 => rng.range(3, 5),
        _ => {
            if cfg.long > 0 && rng.chance(1, cfg.long / 10 + 1) {
                rng.range(6, 600)
            } else {
                rng.range(2, 8)
            }
        }
    };
    for i in 0..segs {
        let mut raw = String::new();
        let mut val = String::new();
        let pieces = if i == 0 && segs > 1 && rng.chance(1, 2) {
            0
        } else if cfg.long > 0 && rng.chance(1, cfg.long) {
            rng.range(20, 4000)
        } else {
            rng.below(5)
        };
        for _ in 0..pieces {
            piece(rng, cfg.hostile, &mut raw, &mut val);
        }
        s.push(raw, &val);
    }
    s
}

pub fn nonempty(rng: &mut Rng, cfg: &Cfg) -> Str {
    let mut s = string(rng, cfg);
    if s.value.is_empty() {
        let w = format!("id{}", rng.below(1000));
        s.push(w.clone(), &w);
    }
    s
}

/// Text of a note: no line feed, no leading space (the spaces after the marker belong to the marker), no carriage
/// return at its end (it would belong to the end of line).
pub fn note_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.below(5) {
        match rng.below(4) {
            0 => s.push_str(rng.pick(&[
                "\"quoted\"",
                "\"",
                "msgid \"x\"",
                "msgstr \"y\"",
                "\\n",
                "\\",
                "fuzzy",
                "TODO: check",
                "msgctxt \"c\"",
                "say \"hi\" twice \"hi\"",
                ", fuzzy",
                "~",
                "|",
                "=",
                "#",
                "msgid_plural \"p\"",
                "msgstr[0] \"z\"",
                "SOME DESCRIPTIVE TITLE.",
                "FIRST AUTHOR <EMAIL@ADDRESS>, YEAR.",
                "TRANSLATORS: keep short",
                "xgettext:no-c-format",
                "type: Content of: <p>",
                "-*- coding: utf-8 -*-",
                "--",
                "...",
                "@:",
            ])),
            1 if rng.chance(1, 3) => s.push_str(&dict::word(rng).replace('\r', " ")),
            _ => s.push_str(rng.pick(WORDS)),
        }
        if rng.chance(1, 2) {
            s.push(' ');
        }
    }
    let t = s.trim_start().trim_end_matches('\r');
    t.to_string()
}

fn token(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => format!("src/main.c:{}", rng.below(5000)),
        1 => format!("файл.rs:{}", rng.below(5000)),
        2 => "\"a.c\":1".into(),
        3 => "C:\\x.c:3".into(),
        4 => "a,b.c:1".into(),
        5 => "#:x".into(),
        6 => "msgid".into(),
        7 if rng.chance(1, 3) => {
            let w = dict::word(rng).split(char::is_whitespace).collect::<String>();
            if w.is_empty() { "x:1".into() } else { w }
        }
        7 if rng.chance(1, 4) => rng.pick(&["\u{2068}a", "b.c\u{2069}:1", "a.c:", ":12", "-", "a.c:1-2", "./a.c:1,"]).to_string(),
        _ => format!("f{}.c:{}", rng.below(10), rng.below(10)),
    }
}

pub const FLAGS: &[&str] = &[
    "c-format",
    "no-wrap",
    "python-format",
    "no-c-format",
    "range: 0..10",
    "Fuzzy",
    "FUZZY",
    "fuzzy2",
    "not-fuzzy",
    "un fuzzy",
    "fuzz",
    "fuzzy-ish",
    "\u{66}uzzy\u{301}",
    "é-format",
    "C-Format",
    "No-Wrap",
    "no-wrap x",
    "range: 1..2",
    "range:",
    "possible-c-format",
    "no-python-brace-format",
    "fuzzy:",
    "wrap",
    "ignore-same",
    "read-only",
    "priority:high",
];

fn flags(rng: &mut Rng, fuzzy: (usize, usize)) -> Vec<String> {
    (0..rng.range(1, 4))
        .map(|_| {
            if rng.chance(fuzzy.0, fuzzy.1) {
                "fuzzy".to_string()
            } else if rng.chance(1, 8) {
                let w = dict::word(rng).replace(',', ".");
                if w.trim().is_empty() { "x".into() } else { w.trim().to_string() }
            } else {
                rng.pick(FLAGS).to_string()
            }
        })
        .collect()
}

pub fn note(rng: &mut Rng) -> Note {
    match rng.below(9) {
        0 | 1 => Note::Translator(note_text(rng)),
        2 | 3 => Note::Developer(note_text(rng)),
        4 | 5 => Note::Locations((0..if rng.chance(1, 12) { 0 } else { rng.range(1, 4) }).map(|_| token(rng)).collect()),
        6 | 7 => Note::Flags(if rng.chance(1, 12) { vec![] } else { flags(rng, (1, 3)) }),
        _ => {
            let mut k = *rng.pick(&['=', '!', '*', '@', '?', '-', '>', '^', '+', '%', '&', ';', '~', '|']);
            if rng.chance(1, 8) && !dict::dict().chars.is_empty() {
                let d = *rng.pick(&dict::dict().chars);
                if !d.is_whitespace() && ![',', ':', '.'].contains(&d) {
                    k = d;
                }
            }
            let mut t = note_text(rng);
            // `#~ "…"` and `#| msgid "…"` are not comments
            if ['~', '|'].contains(&k) {
                t = t.replace('"', "'");
            }
            Note::Custom(k, t)
        }
    }
}

pub fn notes(rng: &mut Rng) -> Vec<Note> {
    let n = match rng.below(8) {
        0..=2 => 0,
        3..=5 => rng.range(1, 3),
        6 => rng.range(2, 7),
        _ => rng.range(1, 12),
    };
    (0..n).map(|_| note(rng)).collect()
}

pub fn text(rng: &mut Rng, cfg: &Cfg) -> Str {
    match rng.below(4) {
        0 => {
            // empty in several spellings
            let n = rng.range(1, 3);
            Str { segs: vec![String::new(); n], value: String::new() }
        }
        _ => string(rng, cfg),
    }
}

pub fn entry(rng: &mut Rng, cfg: &Cfg, count: usize) -> Entry {
    let prev = if cfg.prev && rng.chance(1, 4) {
        let context = rng.chance(1, 2).then(|| string(rng, cfg));
        let id = rng.chance(4, 5).then(|| string(rng, cfg));
        let plural = (id.is_some() && rng.chance(1, 3)).then(|| string(rng, cfg));
        Prev { context, id, plural }
    } else {
        Prev::default()
    };
    let body = if cfg.plurals && count > 0 && rng.chance(1, 3) {
        let k = if rng.chance(3, 4) { count.min(40) } else { rng.range(1, count.min(40)) };
        Body::Plural(string(rng, cfg), (0..k).map(|_| text(rng, cfg)).collect())
    } else {
        Body::Simple(text(rng, cfg))
    };
    Entry {
        notes: if cfg.notes { notes(rng) } else { vec![] },
        prev,
        context: rng.chance(1, 4).then(|| string(rng, cfg)),
        id: nonempty(rng, cfg),
        body,
        obsolete: cfg.obsolete && rng.chance(1, 5),
    }
}

pub const LANGS: &[&str] = &[
    "fr", "en_US", "pt-BR", "pt_BR.UTF-8", "sr@latin", "zh-Hans-CN", "ZH-hant-tw", "C", "POSIX", "de_DE@euro", "", "not a language",
    "en@quot", "ca@valencia", "*", "x-klingon", "i-navajo", "es-419", "es_419", "été", "fil", "en-", "C.UTF-8", "ast_ES", "nb", "a",
];

pub fn forms(rng: &mut Rng) -> (String, FormsObs) {
    let (count, formula) = if rng.chance(2, 3) {
        let (c, f) = *rng.pick(formula::REAL);
        (c, f.to_string())
    } else {
        let size = rng.range(1, 12);
        let e = formula::gen(rng, size);
        let mut count = *rng.pick(&[1, 2, 3, 4, 6, 8, 10, 11, 12, 16, 17, 32, 33, 40]);
        if rng.chance(1, 16) {
            count = dict::number(rng).clamp(1, 1 << 40) as usize;
        }
        (count, e.text(rng))
    };
    let mut definition = String::new();
    let sp = |rng: &mut Rng| if rng.chance(1, 6) { " " } else { "" };
    let nplurals = format!("nplurals{}={}{count}{};", sp(rng), sp(rng), sp(rng));
    let plural = format!("plural{}={}{formula}{};", sp(rng), sp(rng), sp(rng));
    if rng.chance(7, 8) {
        definition.push_str(&nplurals);
        definition.push(' ');
        definition.push_str(&plural);
    } else {
        definition.push_str(&plural);
        definition.push_str(&nplurals);
    }
    (definition.clone(), FormsObs { count, definition, formula })
}

/// Keys of headers in use.
pub const KEYS: &[&str] = &[
    "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date",
    "Last-Translator", "Language-Team", "Project-Id-Version", "X-Generator", "X-Language", "X-Poedit-Language", "X-Poedit-Country",
    "X-Poedit-SourceCharset", "X-Poedit-Basepath", "X-Source-Language", "X-Launchpad-Export-Date", "X-Domain", "X-Locale", "Lang",
    "Locale", "Source-Language", "Target-Language", "language", "LANGUAGE", "Language ", "X-Plural-Forms", "Plurals", "Plural-forms",
    "PLURAL-FORMS", "plural-forms", "Plural Forms", "Plural_Forms", "Plural-Form", "X-Crowdin-Language", "X-Accelerator-Marker",
];

pub fn header(rng: &mut Rng, cfg: &Cfg) -> Header {
    let mut lines: Vec<(String, String)> = vec![];
    let mut h_forms = None;
    if rng.chance(3, 4) {
        let (d, f) = forms(rng);
        lines.push(("Plural-Forms".into(), d));
        h_forms = Some(f);
    }
    if rng.chance(2, 3) {
        let l = if rng.chance(1, 12) { dict::word(rng).trim().to_string() } else { rng.pick(LANGS).to_string() };
        lines.push(("Language".into(), l));
    }
    if rng.chance(2, 3) {
        lines.push(("Content-Type".into(), "text/plain; charset=UTF-8".into()));
    }
    for _ in 0..rng.below(5) {
        let k = rng.pick(&["Project-Id-Version", "X-Generator", "PO-Revision-Date", "X Y", "языки", "", "X-Dup", "plural-forms", "language"]);
        let d = dict::word(rng).replace([':', '\r'], " ");
        let k = match rng.below(12) {
            0 | 1 => rng.pick(KEYS),
            2 if !["Language", "Plural-Forms"].contains(&d.trim()) => d.trim(),
            _ => k,
        };
        let d = dict::word(rng);
        let v = if rng.chance(1, 12) { d.trim() } else { rng.pick(&["foo 1.0", "2020-01-01 10:30+0200", "a: b: c", "", "\"q\"", "x\ty", "été", "back\\slash", "C:\\new", "#", "fr", "nplurals=1; plural=0;"]) };
        lines.push((k.to_string(), v.to_string()));
    }
    rng.shuffle(&mut lines);
    let mut text = Str::default();
    if rng.chance(1, 2) {
        text.push(String::new(), "");
    }
    let mut props: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let n = lines.len();
    for (i, (k, v)) in lines.iter().enumerate() {
        let sp = |rng: &mut Rng, a: &'static str| if rng.chance(1, 6) { *rng.pick(&["", " ", "  ", "\t"]) } else { a };
        let mut l = format!("{}{k}{}:{}{v}{}", sp(rng, ""), sp(rng, ""), sp(rng, " "), sp(rng, ""));
        if i + 1 < n || rng.chance(3, 4) {
            l.push('\n');
        }
        if rng.chance(1, 12) {
            l.insert_str(0, "no property here\n");
        }
        // sometimes a property is cut over two lines of the file
        let esc = escape(&l);
        if rng.chance(1, 6) {
            let mut cut = rng.below(esc.len() + 1);
            while !esc.is_char_boundary(cut) || esc[..cut].ends_with('\\') {
                cut -= 1;
            }
            let (a, b) = (esc[..cut].to_string(), esc[cut..].to_string());
            text.segs.push(a);
            text.segs.push(b);
            text.value.push_str(&l);
        } else {
            text.push(esc, &l);
        }
        props.entry(k.trim().to_string()).or_default().push(v.trim().to_string());
    }
    if text.segs.is_empty() {
        text.push(String::new(), "");
    }
    Header {
        notes: if cfg.notes { notes(rng) } else { vec![] },
        context: rng.chance(1, 20).then(|| string(rng, cfg)),
        text,
        props: props.into_iter().map(|(k, v)| (k, v.join(" "))).collect(),
        forms: h_forms,
        obsolete: false,
    }
}

pub fn catalogue(rng: &mut Rng, cfg: &Cfg) -> Catalogue {
    let header = rng.chance(cfg.header.0, cfg.header.1).then(|| header(rng, cfg));
    let count = header.as_ref().and_then(|h| h.forms.as_ref()).map_or(2, |f| f.count);
    let n = rng.range(cfg.entries.0, cfg.entries.1);
    let kin = rng.chance(1, 4);
    let mut entries: Vec<Entry> = vec![];
    for i in 0..n {
        let e = if kin && i > 0 && rng.chance(4, 5) {
            let base = rng.pick(&entries).clone();
            nearly(rng, cfg, count, &base)
        } else {
            entry(rng, cfg, count)
        };
        entries.push(e);
    }
    Catalogue { entries, header }
}

/// Another string that is easily taken for this one.
pub fn near(rng: &mut Rng, s: &Str) -> Str {
    let mut v: Vec<char> = s.value.chars().collect();
    if v.is_empty() {
        return Str::plain(*rng.pick(&["x", " ", ""]));
    }
    let i = rng.below(v.len());
    match rng.below(9) {
        0 | 1 => v[i] = if v[i] == 'k' { 'j' } else { 'k' },
        2 => {
            let j = rng.below(v.len());
            v.swap(i, j);
        }
        3 => v.push(*rng.pick(&['x', ' ', '\n'])),
        4 if v.len() > 1 => {
            v.pop();
        }
        5 => v.reverse(),
        6 => {
            let c = v[i];
            v[i] = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
        }
        7 => v.rotate_left(i),
        _ => v.insert(i, '0'),
    }
    Str::plain(&v.into_iter().collect::<String>())
}

/// Another entry that is easily taken for this one, or the same again.
pub fn nearly(rng: &mut Rng, cfg: &Cfg, count: usize, e: &Entry) -> Entry {
    let mut e = e.clone();
    for _ in 0..rng.range(0, 2) {
        match rng.below(12) {
            0 => e.id = near(rng, &e.id),
            1 => {
                e.context = match &e.context {
                    None => Some(if rng.chance(1, 3) { Str::plain("") } else { string(rng, cfg) }),
                    Some(_) => None,
                }
            }
            2 => {
                if let Some(c) = &e.context {
                    e.context = Some(near(rng, c));
                }
            }
            3 | 4 => match &mut e.body {
                Body::Simple(t) => *t = near(rng, t),
                Body::Plural(p, v) => {
                    if rng.chance(1, 3) {
                        *p = near(rng, p);
                    } else {
                        let i = rng.below(v.len());
                        v[i] = near(rng, &v[i]);
                    }
                }
            },
            5 => e.obsolete = cfg.obsolete && !e.obsolete,
            6 => {
                if let Body::Simple(t) = &mut e.body {
                    if !t.value.is_empty() {
                        std::mem::swap(t, &mut e.id);
                    }
                }
            }
            7 => {
                if !e.notes.is_empty() {
                    let i = rng.below(e.notes.len());
                    if rng.chance(1, 2) {
                        e.notes.remove(i);
                    } else {
                        let n = e.notes[i].clone();
                        e.notes.insert(i, n);
                    }
                }
            }
            8 => rng.shuffle(&mut e.notes),
            9 => {
                if let Some(p) = &e.prev.id {
                    e.prev.id = Some(near(rng, p));
                }
            }
            10 => e.prev = Prev::default(),
            _ => {
                e.body = match &e.body {
                    Body::Simple(t) if cfg.plurals && count > 0 => Body::Plural(e.id.clone(), vec![t.clone()]),
                    Body::Plural(_, v) => Body::Simple(v[0].clone()),
                    b => b.clone(),
                }
            }
        }
    }
    if e.id.value.is_empty() {
        e.id = Str::plain("x");
    }
    e
}

/// Another catalogue that is easily taken for this one, whatever may have become of its validity.
pub fn near_text(rng: &mut Rng, t: &[u8]) -> Vec<u8> {
    let mut v = t.to_vec();
    for _ in 0..rng.range(1, 3) {
        let n = v.len();
        let pick = |rng: &mut Rng, v: &[u8], ok: &dyn Fn(u8) -> bool| {
            let at: Vec<usize> = (0..n.min(v.len())).filter(|i| ok(v[*i])).collect();
            (!at.is_empty()).then(|| at[rng.below(at.len())])
        };
        match rng.below(6) {
            // the declaration of the plural forms
            0 | 1 => {
                let text = String::from_utf8_lossy(&v).into_owned();
                let Some(a) = text.find("plural") else { continue };
                if text.len() != v.len() {
                    continue;
                }
                let end = v[a..].iter().position(|b| *b == b'\n').map_or(v.len(), |k| a + k);
                let at: Vec<usize> = (a..end).filter(|i| b"0123456789<>%=n!".contains(&v[*i])).collect();
                if !at.is_empty() {
                    let i = *rng.pick(&at);
                    v[i] = match v[i] {
                        b'<' => b'>',
                        b'>' => b'<',
                        b'%' => b'-',
                        b @ b'0'..=b'9' => (b - b'0' + rng.range(1, 4) as u8) % 10 + b'0',
                        b => b,
                    };
                }
            }
            // the language
            2 => {
                let text = String::from_utf8_lossy(&v).into_owned();
                if text.len() != v.len() {
                    continue;
                }
                if let Some(l) = text.lines().find_map(|l| l.split_once("Language: ").map(|x| x.1)) {
                    let l = l.split("\\n").next().unwrap_or("").to_string();
                    if !l.is_empty() {
                        let o = *rng.pick(LANGS);
                        v = text.replacen(&format!("Language: {l}"), &format!("Language: {o}"), 1).into_bytes();
                    }
                }
            }
            3 | 4 => {
                if let Some(i) = pick(rng, &v, &|b| b.is_ascii_digit() || b.is_ascii_uppercase() || b"abxyz".contains(&b)) {
                    v[i] = match v[i] {
                        b @ b'0'..=b'9' => (b - b'0' + 1) % 10 + b'0',
                        b if b.is_ascii_uppercase() => b.to_ascii_lowercase(),
                        b'a' => b'b',
                        b => b - 1,
                    };
                }
            }
            _ => {
                // two neighbouring lines change places
                let mut l: Vec<Vec<u8>> = v.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                let q: Vec<usize> = (1..l.len()).filter(|i| l[*i].starts_with(b"\"") && l[*i - 1].starts_with(b"\"")).collect();
                if !q.is_empty() {
                    let i = *rng.pick(&q);
                    l.swap(i, i - 1);
                    v = l.join(&b'\n');
                }
            }
        }
    }
    v
}

#[derive(Default)]
struct Notes {
    flags: Vec<String>,
    notes: Vec<(bool, String)>,
    locations: Vec<String>,
    comments: Vec<(char, String)>,
    fuzzy: bool,
}

fn collect(v: &[Note]) -> Notes {
    let mut n = Notes::default();
    for x in v {
        match x {
            Note::Translator(t) => n.notes.push((false, t.clone())),
            Note::Developer(t) => n.notes.push((true, t.clone())),
            Note::Locations(l) => n.locations.extend(l.iter().cloned()),
            Note::Flags(f) => {
                n.fuzzy |= f.iter().any(|x| x == "fuzzy");
                n.flags.extend(f.iter().cloned());
            }
            Note::Custom(k, t) => n.comments.push((*k, t.clone())),
        }
    }
    n.flags.sort();
    n.flags.dedup();
    n
}

pub fn expect_unit(e: &Entry, forms: Option<&FormsObs>) -> UnitObs {
    let n = collect(&e.notes);
    let val = |s: &Option<Str>| s.as_ref().map(|s| s.value.clone());
    let msg = match &e.body {
        Body::Simple(t) => MsgObs::Simple { id: e.id.value.clone(), text: t.value.clone() },
        Body::Plural(p, v) => MsgObs::Plural {
            id: e.id.value.clone(),
            plural: p.value.clone(),
            values: v.iter().map(|s| s.value.clone()).collect(),
            forms: forms.cloned(),
        },
    };
    let prev = match (&e.prev.id, &e.prev.plural) {
        (None, _) => MsgObs::default(),
        (Some(id), None) => MsgObs::Simple { id: id.value.clone(), text: String::new() },
        (Some(id), Some(p)) => MsgObs::Plural {
            id: id.value.clone(),
            plural: p.value.clone(),
            values: vec![],
            forms: forms.cloned(),
        },
    };
    let state = if n.fuzzy {
        St::NeedsWork
    } else if msg.is_blank() {
        St::Empty
    } else {
        St::Final
    };
    UnitObs {
        context: val(&e.context),
        msg,
        prev_context: val(&e.prev.context),
        prev,
        flags: n.flags,
        notes: n.notes,
        locations: n.locations,
        comments: n.comments,
        state,
        translated: state == St::Final,
        obsolete: e.obsolete,
    }
}

impl Catalogue {
    pub fn forms(&self) -> Option<&FormsObs> {
        self.header.as_ref().and_then(|h| h.forms.as_ref())
    }

    pub fn expect(&self) -> Obs {
        let mut header = HeaderObs::default();
        if let Some(h) = &self.header {
            let n = collect(&h.notes);
            header = HeaderObs {
                lang: h.props.get("Language").map(|l| lang::tag(l)).unwrap_or_default(),
                notes: n.notes,
                comments: n.comments,
                props: h.props.clone(),
            };
        }
        Obs {
            refused: false,
            header,
            units: self.entries.iter().map(|e| expect_unit(e, self.forms())).collect(),
            end: End::Clean,
        }
    }

    /// One group of lines per entry, the header first, without line ends.
    pub fn groups(&self, lay: &mut Layout) -> Vec<Vec<String>> {
        let mut g = vec![];
        if let Some(h) = &self.header {
            let mut o = vec![];
            lay.notes(&h.notes, &mut o);
            let p = if h.obsolete { "#~" } else { "" };
            if let Some(c) = &h.context {
                lay.field(p, "msgctxt", c, &mut o);
            }
            lay.field(p, "msgid", &Str { segs: vec![String::new()], value: String::new() }, &mut o);
            lay.field(p, "msgstr", &h.text, &mut o);
            g.push(o);
        }
        for e in &self.entries {
            g.push(lay.entry(e));
        }
        g
    }

    pub fn text(&self, lay: &mut Layout) -> Vec<u8> {
        let g = self.groups(lay);
        lay.join(&g)
    }
}

/// How a catalogue is written down. None of it may change what is read.
#[derive(Clone)]
pub struct Layout {
    pub rng: Rng,
    /// out of 8
    pub indent: usize,
    pub blank: usize,
    /// 0 LF, 1 CRLF, 2 mixed
    pub crlf: usize,
    pub trailing: usize,
    pub spacing: usize,
    pub tight: bool,
    pub final_newline: bool,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout {
            rng: Rng::new(1),
            indent: 0,
            blank: 0,
            crlf: 0,
            trailing: 0,
            spacing: 0,
            tight: false,
            final_newline: true,
        }
    }

    pub fn random(rng: &mut Rng) -> Layout {
        let odd = |rng: &mut Rng| if rng.chance(1, 2) { 0 } else { rng.below(5) };
        let l = Layout {
            rng: rng.clone(),
            indent: odd(rng),
            blank: odd(rng),
            crlf: if rng.chance(1, 2) { 0 } else { rng.below(3) },
            trailing: odd(rng),
            spacing: odd(rng),
            tight: rng.chance(1, 4),
            final_newline: rng.chance(3, 4),
        };
        rng.next();
        l
    }

    fn ws(&mut self) -> &'static str {
        // long white space is white space
        if self.rng.chance(1, 60) {
            const LONG: &str = "                                                                                                                                                                                                                                                                                  \t    ";
            return &LONG[LONG.len() - *self.rng.pick(&[17, 65, 81, 100, 129, 257])..];
        }
        *self.rng.pick(&[" ", "\t", "  ", " \t ", "\u{a0}", "\u{3000}", "\u{2003}", "\u{c}", "\u{b}", "\u{85}", "        "])
    }

    fn sometimes(&mut self, n: usize, default: &'static str) -> &'static str {
        if n > 0 && self.rng.chance(n, 8) {
            if self.rng.chance(1, 4) && default == " " {
                ""
            } else {
                self.ws()
            }
        } else {
            default
        }
    }

    pub fn field(&mut self, prefix: &str, tag: &str, s: &Str, out: &mut Vec<String>) {
        for (i, seg) in s.segs.iter().enumerate() {
            let mut l = String::new();
            l.push_str(self.sometimes(self.indent, ""));
            l.push_str(prefix);
            if !prefix.is_empty() {
                l.push_str(self.sometimes(self.spacing, " "));
            }
            if i == 0 {
                l.push_str(tag);
                l.push_str(self.sometimes(self.spacing, " "));
            }
            l.push('"');
            l.push_str(seg);
            l.push('"');
            l.push_str(self.sometimes(self.trailing, ""));
            out.push(l);
        }
    }

    fn comment(&mut self, kind: char, text: &str, trail: bool, out: &mut Vec<String>) {
        let mut l = String::new();
        l.push_str(self.sometimes(self.indent, ""));
        l.push('#');
        if kind == ' ' {
            if !text.is_empty() || self.rng.chance(1, 2) {
                // any white space makes a translator comment
                if self.spacing > 0 && self.rng.chance(1, 6) {
                    l.push_str(self.ws());
                } else {
                    l.push(' ');
                }
                if self.spacing > 0 && self.rng.chance(self.spacing, 8) {
                    l.push_str(self.ws());
                }
            }
        } else {
            l.push(kind);
            l.push_str(self.sometimes(self.spacing, " "));
        }
        l.push_str(text);
        if trail {
            l.push_str(self.sometimes(self.trailing, ""));
        }
        out.push(l);
    }

    pub fn notes(&mut self, notes: &[Note], out: &mut Vec<String>) {
        for n in notes {
            match n {
                Note::Translator(t) => self.comment(' ', t, false, out),
                Note::Developer(t) => self.comment('.', t, false, out),
                Note::Custom(k, t) => self.comment(*k, t, false, out),
                Note::Locations(v) => {
                    let sep = if self.spacing > 0 && self.rng.chance(1, 3) { self.ws() } else { " " };
                    self.comment(':', &v.join(sep), true, out);
                }
                Note::Flags(v) => {
                    let sep = if self.spacing > 0 {
                        *self.rng.pick(&[", ", ",", " ,", " , ", ",\t", ",, ", ", ,"])
                    } else {
                        ", "
                    };
                    let mut t = v.join(sep);
                    if self.spacing > 0 && self.rng.chance(1, 8) {
                        t.push(',');
                    }
                    self.comment(',', &t, true, out);
                }
            }
        }
    }

    pub fn entry(&mut self, e: &Entry) -> Vec<String> {
        let mut o = vec![];
        self.notes(&e.notes, &mut o);
        let (p, q) = if e.obsolete { ("#~", "#~|") } else { ("", "#|") };
        for (tag, s) in [("msgctxt", &e.prev.context), ("msgid", &e.prev.id), ("msgid_plural", &e.prev.plural)] {
            if let Some(s) = s {
                self.field(q, tag, s, &mut o);
            }
        }
        if let Some(c) = &e.context {
            self.field(p, "msgctxt", c, &mut o);
        }
        self.field(p, "msgid", &e.id, &mut o);
        match &e.body {
            Body::Simple(t) => self.field(p, "msgstr", t, &mut o),
            Body::Plural(pl, v) => {
                self.field(p, "msgid_plural", pl, &mut o);
                for (i, s) in v.iter().enumerate() {
                    self.field(p, &format!("msgstr[{i}]"), s, &mut o);
                }
            }
        }
        o
    }

    pub fn join(&mut self, groups: &[Vec<String>]) -> Vec<u8> {
        let mut out = String::new();
        for g in groups {
            for l in g {
                while self.blank > 0 && self.rng.chance(self.blank, 12) {
                    if self.rng.chance(1, 2) {
                        let w = self.ws();
                        out.push_str(w);
                    }
                    self.nl(&mut out);
                }
                out.push_str(l);
                self.nl(&mut out);
            }
            if !self.tight {
                self.nl(&mut out);
            }
        }
        if !self.final_newline {
            while out.ends_with('\n') {
                out.pop();
                if out.ends_with('\r') {
                    out.pop();
                }
            }
        }
        out.into_bytes()
    }

    fn nl(&mut self, out: &mut String) {
        let cr = self.crlf == 1 || (self.crlf == 2 && self.rng.chance(1, 2));
        out.push_str(if cr { "\r\n" } else { "\n" });
    }
}

/// Damage an input: the result may be anything.
pub fn mutate(rng: &mut Rng, input: &[u8]) -> Vec<u8> {
    let mut v = input.to_vec();
    for _ in 0..rng.range(1, 4) {
        let mut lines: Vec<Vec<u8>> = v.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
        let i = rng.below(lines.len());
        match rng.below(14) {
            0 => {
                lines.remove(i);
            }
            1 => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
            2 => {
                let j = rng.below(lines.len());
                lines.swap(i, j);
            }
            3 => {
                let l = rng.pick(LINES).as_bytes().to_vec();
                lines.insert(i, l);
            }
            4 => {
                let l = rng.pick(LINES).as_bytes().to_vec();
                lines[i] = l;
            }
            5 => {
                if !lines[i].is_empty() {
                    let k = rng.below(lines[i].len());
                    lines[i].remove(k);
                }
            }
            6 => {
                let k = rng.below(lines[i].len() + 1);
                let c = *rng.pick(b"\"\\#~|,:. \tmn[]01=;\r");
                lines[i].insert(k, c);
            }
            7 => {
                let k = rng.below(lines[i].len() + 1);
                let rest = lines[i].split_off(k);
                lines.insert(i + 1, rest);
            }
            8 => {
                if i + 1 < lines.len() {
                    let l = lines.remove(i + 1);
                    lines[i].extend(l);
                }
            }
            9 => lines.truncate(i + 1),
            10 => {
                for p in [&b"#~ "[..], b"#| ", b"#~| "] {
                    if rng.chance(1, 2) {
                        let mut l = p.to_vec();
                        l.extend(&lines[i]);
                        lines[i] = l;
                        break;
                    }
                }
            }
            11 => {
                for p in [&b"#~ "[..], b"#| ", b"#~| ", b"#~", b"#"] {
                    if lines[i].starts_with(p) {
                        lines[i].drain(..p.len());
                        break;
                    }
                }
            }
            12 => {
                if rng.chance(1, 3) && !lines[i].is_empty() {
                    let k = rng.below(lines[i].len());
                    lines[i][k] = rng.next() as u8;
                }
            }
            _ => {
                let k = rng.below(lines[i].len() + 1);
                let w = if rng.chance(1, 5) { dict::word(rng).into_bytes() } else { rng.pick(WORDS).as_bytes().to_vec() };
                lines[i].splice(k..k, w);
            }
        }
        v = lines.join(&b'\n');
    }
    v
}

pub const LINES: &[&str] = &[
    "msgid \"a\"",
    "msgid \"\"",
    "msgstr \"b\"",
    "msgstr \"\"",
    "msgid_plural \"c\"",
    "msgstr[0] \"d\"",
    "msgstr[1] \"e\"",
    "msgstr[2] \"f\"",
    "msgstr[10] \"f\"",
    "msgstr[01] \"f\"",
    "msgctxt \"g\"",
    "\"h\"",
    "#~ msgid \"i\"",
    "#~ msgstr \"j\"",
    "#~ \"k\"",
    "#~ msgctxt \"l\"",
    "#| msgid \"m\"",
    "#| msgctxt \"o\"",
    "#| msgid_plural \"p\"",
    "#| \"q\"",
    "#~| msgid \"r\"",
    "#~| \"s\"",
    "#~| msgctxt \"s\"",
    "# t",
    "#",
    "#. u",
    "#: v:1",
    "#, fuzzy",
    "#= w",
    "#~",
    "#|",
    "",
    "   ",
    "# \"y\"",
    "# msgid \"z\"",
    "#.\"y\"",
    "garbage",
    "msgid",
    "msgid a",
    "\"",
    "msgid \"x",
    "msgid x\"",
    "msgstr \"Plural-Forms: nplurals=3; plural=n;\\n\"",
    "\"Language: fr\\n\"",
    "domain \"x\"",
];

/// A text that repeats itself, of a length near the usual limits.
pub fn alike(rng: &mut Rng) -> String {
    let n = *rng.pick(&[1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 5000]);
    let alphabet: Vec<char> = match rng.below(4) {
        0 => vec!['a'],
        1 => "ab".chars().collect(),
        2 => "ab c%d".chars().collect(),
        _ => "aé漢😀".chars().collect(),
    };
    (0..n).map(|_| *rng.pick(&alphabet)).collect()
}

pub const TWINS: &[&str] = &["same", "one character", "last", "first", "cut", "longer", "swapped", "case", "blank", "normal form"];

/// A text like `s`, but for what `how` says.
pub fn twin(rng: &mut Rng, s: &str, how: &'static str) -> (String, &'static str) {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    let other = |c: char| if c == 'b' { 'c' } else { 'b' };
    match how {
        "one character" => {
            let i = rng.below(n);
            v[i] = other(v[i]);
        }
        "last" => v[n - 1] = other(v[n - 1]),
        "first" => v[0] = other(v[0]),
        "cut" => {
            v.truncate(rng.range(0, n - 1));
            if v.is_empty() {
                v.push('z');
            }
        }
        "longer" => v.push(*rng.pick(&['a', 'b', '.'])),
        "swapped" => {
            let (i, j) = (rng.below(n), rng.below(n));
            v.swap(i, j);
        }
        "case" => {
            let i = rng.below(n);
            v[i] = v[i].to_ascii_uppercase();
        }
        "blank" => {
            let i = rng.below(n);
            v.insert(i + 1, ' ');
            if i + 2 == v.len() {
                v.push('.');
            }
        }
        "normal form" => return (s.replace('é', "e\u{301}"), how),
        _ => (),
    }
    (v.into_iter().collect(), how)
}

/// Catalogues whose texts are nearly the same everywhere: what is remembered by anything less than all of a text, of its
/// place and of its catalogue shows. Each text is read behind its near twins in every kind of field.
pub fn twins(rng: &mut Rng, catalogues: usize) -> Vec<Catalogue> {
    let mut pool = vec![loop {
        let s = alike(rng);
        if s.len() < 300 && (s.len() > 20 || rng.chance(1, 4)) {
            break s;
        }
    }];
    for _ in 0..rng.range(1, 6) {
        let how = *rng.pick(TWINS);
        let base = rng.pick(&pool).clone();
        let (mut t, _) = twin(rng, &base, how);
        if rng.chance(1, 4) {
            // with an escape in it
            let at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
            t.insert_str(*rng.pick(&at), rng.pick(&["\n", "\t", "\"", "\\", "\\n"]));
        }
        pool.push(t);
    }
    let pick = |rng: &mut Rng| -> Str {
        let s = rng.pick(&pool).clone();
        if rng.chance(1, 4) && s.len() > 3 {
            // over two lines
            let at: Vec<usize> = s.char_indices().map(|x| x.0).collect();
            let k = *rng.pick(&at);
            let (a, b) = s.split_at(k);
            return Str { segs: vec![escape(a), escape(b)], value: s.clone() };
        }
        Str::plain(&s)
    };
    let line = |rng: &mut Rng| -> String { rng.pick(&pool).replace(['\n', '\t', '\r', '"', '\\'], "_").trim().to_string() };
    (0..catalogues)
        .map(|_| {
            let header = rng.chance(1, 2).then(|| {
                let mut text = String::new();
                let mut props: BTreeMap<String, String> = BTreeMap::new();
                for _ in 0..rng.range(0, 4) {
                    let (k, v) = (format!("X-{}", line(rng)), line(rng));
                    text.push_str(&format!("{k}: {v}\n"));
                    let p = props.entry(k.trim().to_string());
                    p.and_modify(|o| {
                        o.push(' ');
                        o.push_str(&v);
                    })
                    .or_insert(v.clone());
                }
                Header { notes: vec![], context: None, text: Str::plain(&text), props, forms: None, obsolete: false }
            });
            let entries = (0..rng.range(1, 6))
                .map(|_| {
                    let mut notes = vec![];
                    for _ in 0..rng.below(3) {
                        let l = line(rng);
                        notes.push(match rng.below(5) {
                            0 => Note::Translator(l),
                            1 => Note::Developer(l),
                            2 => Note::Custom(*rng.pick(&['=', '!', '$']), l),
                            3 => Note::Locations(l.split_whitespace().map(str::to_string).collect()),
                            _ => Note::Flags(vec![l].into_iter().filter(|s| !s.is_empty()).collect()),
                        });
                    }
                    let prev = if rng.chance(1, 4) {
                        Prev {
                            context: rng.chance(1, 2).then(|| pick(rng)),
                            id: Some(pick(rng)),
                            plural: rng.chance(1, 3).then(|| pick(rng)),
                        }
                    } else {
                        Prev::default()
                    };
                    Entry {
                        notes,
                        prev,
                        context: rng.chance(1, 3).then(|| pick(rng)),
                        id: pick(rng),
                        body: if rng.chance(1, 4) {
                            Body::Plural(pick(rng), (0..rng.range(1, 2)).map(|_| pick(rng)).collect())
                        } else {
                            Body::Simple(if rng.chance(1, 8) { Str::plain("") } else { pick(rng) })
                        },
                        obsolete: rng.chance(1, 8),
                    }
                })
                .collect();
            Catalogue { header, entries }
        })
        .collect()
}
