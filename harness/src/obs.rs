//! Driving the real reader and recording everything it lets a user observe.
use crate::ctx;
use poreader::{
    comment::Comment, error::Error, note::Note, plural::Plural, unit::Unit, CatalogueReader, Message, Origin, PoParser,
    PoReader, State,
};
use std::{
    collections::BTreeMap,
    io::Read,
    panic::{catch_unwind, AssertUnwindSafe},
};

pub fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct FormsObs {
    pub count: usize,
    pub definition: String,
    pub formula: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MsgObs {
    /// An empty text is the same as no text.
    Simple { id: String, text: String },
    Plural { id: String, plural: String, values: Vec<String>, forms: Option<FormsObs> },
}

impl Default for MsgObs {
    fn default() -> Self {
        MsgObs::Simple { id: String::new(), text: String::new() }
    }
}

impl MsgObs {
    pub fn id(&self) -> &str {
        match self {
            MsgObs::Simple { id, .. } | MsgObs::Plural { id, .. } => id,
        }
    }
    pub fn is_blank(&self) -> bool {
        match self {
            MsgObs::Simple { text, .. } => text.is_empty(),
            MsgObs::Plural { values, .. } => values.iter().all(|v| v.is_empty()),
        }
    }
    pub fn text(&self) -> &str {
        match self {
            MsgObs::Simple { text, .. } => text,
            MsgObs::Plural { values, .. } => values.first().map(|s| s.as_str()).unwrap_or(""),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum St {
    #[default]
    Empty,
    NeedsWork,
    Final,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct UnitObs {
    pub context: Option<String>,
    pub msg: MsgObs,
    pub prev_context: Option<String>,
    pub prev: MsgObs,
    /// sorted
    pub flags: Vec<String>,
    /// (by the developer, text)
    pub notes: Vec<(bool, String)>,
    pub locations: Vec<String>,
    pub comments: Vec<(char, String)>,
    pub state: St,
    pub translated: bool,
    pub obsolete: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrObs {
    Io { line: usize, kind: std::io::ErrorKind, msg: String },
    Parse { line: usize, got: String, exp: String },
    Unexpected { line: usize, msg: String },
    Plural { msg: String },
}

impl ErrObs {
    pub fn of(e: &Error) -> ErrObs {
        match e {
            Error::Io(line, e) => ErrObs::Io { line: *line, kind: e.kind(), msg: e.to_string() },
            Error::Parse(line, got, exp) => ErrObs::Parse { line: *line, got: got.clone(), exp: exp.clone() },
            Error::Unexpected(line, msg) => ErrObs::Unexpected { line: *line, msg: msg.clone() },
            Error::PluralForms(msg) => ErrObs::Plural { msg: msg.clone() },
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            ErrObs::Io { .. } => "io",
            ErrObs::Parse { .. } => "parse",
            ErrObs::Unexpected { .. } => "unexpected",
            ErrObs::Plural { .. } => "plural",
        }
    }
    pub fn line(&self) -> usize {
        match self {
            ErrObs::Io { line, .. } | ErrObs::Parse { line, .. } | ErrObs::Unexpected { line, .. } => *line,
            ErrObs::Plural { .. } => 0,
        }
    }
    /// A line that is neither blank, nor a comment, nor part of an entry.
    pub fn unreadable(&self) -> bool {
        matches!(self, ErrObs::Parse { exp, .. } if exp.is_empty())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct HeaderObs {
    pub lang: String,
    pub notes: Vec<(bool, String)>,
    pub comments: Vec<(char, String)>,
    pub props: BTreeMap<String, String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Clean,
    Err(ErrObs),
    Panic(String),
    /// More units than the input has bytes.
    Runaway,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    /// `parse` itself failed: there is no header and no unit.
    pub refused: bool,
    pub header: HeaderObs,
    pub units: Vec<UnitObs>,
    pub end: End,
}

impl Obs {
    pub fn err(&self) -> Option<&ErrObs> {
        match &self.end {
            End::Err(e) => Some(e),
            _ => None,
        }
    }
    pub fn clean(&self) -> bool {
        self.end == End::Clean
    }
}

pub fn notes(v: &[Note]) -> Vec<(bool, String)> {
    v.iter().map(|n| (*n.origin() == Origin::Developer, n.value().to_string())).collect()
}

pub fn comments(v: &[Comment]) -> Vec<(char, String)> {
    v.iter().map(|c| (c.kind(), c.comment().to_string())).collect()
}

pub fn plural(p: &Plural) -> MsgObs {
    MsgObs::Plural {
        id: p.singular().to_string(),
        plural: p.plural().to_string(),
        values: p.values().clone(),
        forms: p.get_forms().map(|f| FormsObs {
            count: f.get_count(),
            definition: f.get_definition().to_string(),
            formula: f.get_formula().to_string(),
        }),
    }
}

pub fn msg(m: &Message) -> MsgObs {
    match m {
        Message::Simple { id, text } => MsgObs::Simple { id: id.clone(), text: text.clone().unwrap_or_default() },
        Message::Plural(p) => plural(p),
    }
}

pub fn st(s: State) -> St {
    match s {
        State::Empty => St::Empty,
        State::NeedsWork => St::NeedsWork,
        State::Final => St::Final,
    }
}

pub fn unit(u: &Unit) -> UnitObs {
    let mut flags: Vec<String> = u.flags().iter().cloned().collect();
    flags.sort();
    UnitObs {
        context: u.context().map(str::to_string),
        msg: msg(u.message()),
        prev_context: u.prev_context().map(str::to_string),
        prev: msg(u.prev_message()),
        flags,
        notes: notes(u.notes()),
        locations: u.locations().clone(),
        comments: comments(u.comments()),
        state: st(u.state()),
        translated: u.is_translated(),
        obsolete: u.is_obsolete(),
    }
}

pub fn header<R: Read>(r: &PoReader<R>) -> HeaderObs {
    HeaderObs {
        lang: r.target_language().as_ref().to_string(),
        notes: notes(r.header_notes()),
        comments: comments(r.header_comments()),
        props: r.header_properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
    }
}

/// Read `r` to its end, calling `on_unit` on every real unit.
pub fn drive<R: Read>(parser: &PoParser, r: R, cap: usize, mut on_unit: impl FnMut(&Unit)) -> Obs {
    let mut o = Obs { refused: false, header: HeaderObs::default(), units: Vec::new(), end: End::Clean };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut reader = match parser.parse(r) {
            Ok(r) => r,
            Err(e) => {
                o.refused = true;
                o.end = End::Err(ErrObs::of(&e));
                return;
            }
        };
        o.header = header(&reader);
        loop {
            match reader.next() {
                None => break,
                Some(Ok(u)) => {
                    on_unit(&u);
                    o.units.push(unit(&u));
                    if o.units.len() > cap {
                        o.end = End::Runaway;
                        return;
                    }
                }
                Some(Err(e)) => {
                    o.end = End::Err(ErrObs::of(&e));
                    break;
                }
            }
        }
    }));
    if let Err(p) = res {
        let (loc, _) = ctx::last_panic();
        let msg = ctx::payload(&*p);
        if is_harness(&loc) {
            panic!("harness: {loc}: {msg}");
        }
        o.end = End::Panic(format!("{loc}: {msg}"));
    }
    o
}

thread_local! {
    static PARSER: PoParser = PoParser::new();
}

pub fn with_parser<T>(f: impl FnOnce(&PoParser) -> T) -> T {
    PARSER.with(|p| f(p))
}

pub fn read(input: &[u8]) -> Obs {
    with_parser(|p| drive(p, input, input.len() + 16, |_| ()))
}

/// The real units of an input that has to be readable.
pub fn units_of(input: &[u8]) -> Result<Vec<Unit>, String> {
    let mut v = Vec::new();
    let o = with_parser(|p| drive(p, input, input.len() + 16, |u| v.push(u.clone())));
    if o.clean() {
        Ok(v)
    } else {
        Err(format!("{:?}", o.end))
    }
}
