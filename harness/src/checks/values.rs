//! C23–C25: what units and messages say about themselves, what an entry depends on, and how errors are shown.
use super::*;
use crate::{
    alloc,
    checks::units::{header_of, shape, SHAPES},
    gen::{self, Catalogue, Cfg, Layout},
    obs::{self, ErrObs},
    refm,
    rng::{mix, Rng},
};
use poreader::{error::Error, note::Note, unit::Unit, Message, Origin, PoParser, State};
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    error::Error as StdError,
    fmt::Write,
    hash::{Hash, Hasher},
    io::{self, ErrorKind},
};

pub fn checks() -> Vec<(Meta, Check)> {
    vec![
        (
            Meta {
                id: "C23",
                level: "exploration",
                rule: "all units of random and damaged catalogues and all small hand-made messages; the monitor compares every \
                       accessor with the others, with itself later (reader and parser gone), with those of clones, and checks \
                       the laws of equality on all pairs (distinct by input bytes)",
                assumptions: &["two plural messages with the same ids are equal whatever their variants (as documented by the existing tests)"],
            },
            c23,
        ),
        (
            Meta {
                id: "C24",
                level: "exploration",
                rule: "random catalogues concatenated, permuted, thinned, repeated and cut between entries, and all sequences \
                       of three entries of every shape; the monitor compares the unit of each entry with the one it gives \
                       alone behind the same header (distinct by input bytes)",
                assumptions: &[],
            },
            c24,
        ),
        (
            Meta {
                id: "C25",
                level: "exploration",
                rule: "all errors over a grid of lines and texts, and the errors of damaged catalogues; the monitor compares \
                       rendering, cause, conversion to std::io::Error and back, and rendering into writers that fail at every \
                       length (distinct by error)",
                assumptions: &[],
            },
            c25,
        ),
    ]
}

const COUNTS: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 10, 11, 12, 21, 100, 101, 111, 1000, 1_000_000, 255, 256, 65_535, 65_536, u32::MAX as usize, 1 << 32, i64::MAX as usize, 1 << 63, usize::MAX - 1, usize::MAX];

fn message(c: &mut Case, m: &Message) {
    let o = obs::msg(m);
    let plural = matches!(o, MsgObs::Plural { .. });
    let show = || format!("{m:?}");
    c.check(m.is_plural() == plural, || format!("is_plural of {}", show()));
    c.check(m.is_simple() == (!plural && !o.id().is_empty()), || format!("is_simple of {}", show()));
    c.check(m.plural().is_some() == plural, || format!("plural() of {}", show()));
    c.check(m.get_id() == o.id(), || format!("get_id of {}", show()));
    c.check(m.get_text() == o.text(), || format!("get_text of {}", show()));
    c.check(m.is_blank() == o.is_blank(), || format!("is_blank of {}", show()));
    match (&o, m.plural()) {
        (MsgObs::Plural { id, plural, values, .. }, Some(p)) => {
            c.check(m.get_plural_id() == Some(plural), || format!("get_plural_id of {}", show()));
            c.check(p.singular() == id && p.plural() == plural && p.values() == values, || format!("plural data of {}", show()));
            c.check(p.first() == values.first().map(|s| s.as_str()).unwrap_or(""), || format!("first of {}", show()));
            c.check(p.is_blank() == m.is_blank(), || format!("is_blank of {}", show()));
            for n in COUNTS {
                let got = m.get_plural_text(*n);
                c.check(got == p.get(*n), || format!("get_plural_text({n}) of {}", show()));
                let want = p.get_forms().and_then(|f| f.get_value(*n)).and_then(|i| values.get(i)).map(|s| s.as_str());
                c.check(got == want, || format!("get_plural_text({n}) of {}: {got:?}, the forms say {want:?}", show()));
            }
        }
        (MsgObs::Simple { text, .. }, None) => {
            c.check(m.get_plural_id().is_none(), || format!("get_plural_id of {}", show()));
            for n in COUNTS {
                let t = m.get_plural_text(*n);
                c.check(t.unwrap_or("") == text, || format!("get_plural_text({n}) of {}", show()));
            }
        }
        _ => c.fail(format!("kinds of {}", show())),
    }
    #[allow(clippy::eq_op)]
    let refl = m == m;
    c.check(refl, || format!("{} differs from itself", show()));
    let k = m.clone();
    c.check(k == *m && *m == k, || format!("{} differs from its clone", show()));
    c.check(obs::msg(&k) == o, || format!("the clone of {} is {k:?}", show()));
    c.count("messages examined", 1);
}

fn unit(c: &mut Case, u: &Unit) {
    message(c, u.message());
    message(c, u.prev_message());
    c.check(u.is_translated() == (u.state() == State::Final), || format!("is_translated of {u:?}"));
    c.check(u.flags().iter().all(|f| !f.is_empty() && f.trim() == f), || format!("flags of {u:?}"));
    c.check(u.locations().iter().all(|l| !l.is_empty() && !l.contains(char::is_whitespace)), || format!("locations of {u:?}"));
    if u.state() == State::Empty {
        c.check(u.message().is_blank(), || format!("state of {u:?}"));
    }
    if u.state() == State::Final {
        c.check(!u.message().is_blank(), || format!("state of {u:?}"));
    }
    c.check(u.flags().contains("fuzzy") == (u.state() == State::NeedsWork), || format!("state of {u:?}"));
    for n in u.notes() {
        let again = Note::new(*n.origin(), n.value().to_string());
        c.check(again == *n && *n == n.clone(), || format!("note {n:?}"));
    }
    for k in u.comments() {
        c.check(*k == k.clone() && ![',', ':', '.'].contains(&k.kind()) && !k.kind().is_whitespace(), || format!("comment {k:?}"));
    }
    let (a, b) = (obs::unit(u), obs::unit(u));
    c.check(a == b, || format!("two looks at the same unit: {a:?} {b:?}"));
    c.count("units examined", 1);
}

/// Whether the same messages, as far as equality is documented.
fn same_message(a: &MsgObs, b: &MsgObs) -> bool {
    match (a, b) {
        (MsgObs::Simple { id: i, text: t }, MsgObs::Simple { id: j, text: u }) => i == j && t == u,
        (MsgObs::Plural { id: i, plural: p, .. }, MsgObs::Plural { id: j, plural: q, .. }) => i == j && p == q,
        _ => false,
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn c23(ctx: &'static Ctx) {
    ctx.stream("units of catalogues", ctx.n(25_000, 600_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 6), long: 0, ..Cfg::default() });
        let mut t = cat.text(&mut Layout::plain());
        if c.rng.chance(1, 4) {
            t = gen::mutate(&mut c.rng, &t);
        }
        c.input(&t);
        let mut units: Vec<Unit> = vec![];
        let mut seen = vec![];
        {
            // the parser, the reader and the input go before the units
            let p = PoParser::new();
            let input = t.clone();
            if let Ok(r) = p.parse(&input[..]) {
                for u in r.map_while(|u| u.ok()).take(t.len() + 16) {
                    seen.push(obs::unit(&u));
                    units.push(u);
                }
            }
        }
        let clones: Vec<Unit> = units.to_vec();
        for (u, o) in units.iter().zip(&seen) {
            unit(c, u);
            c.check(obs::unit(u) == *o, || format!("changed once the reader was gone: {o:?}"));
        }
        // clones outlive the originals
        drop(units);
        for (u, o) in clones.iter().zip(&seen) {
            c.check(obs::unit(u) == *o, || format!("the clone differs: {o:?}"));
            let d = format!("{u:?}{u:#?}");
            c.check(!d.is_empty(), || "no debug text".into());
        }
        for (i, a) in clones.iter().enumerate() {
            for (j, b) in clones.iter().enumerate() {
                for (x, y, ox, oy) in [
                    (a.message(), b.message(), &seen[i].msg, &seen[j].msg),
                    (a.message(), b.prev_message(), &seen[i].msg, &seen[j].prev),
                    (a.prev_message(), b.prev_message(), &seen[i].prev, &seen[j].prev),
                ] {
                    let eq = x == y;
                    c.check(eq == (y == x), || format!("equality of {x:?} and {y:?} depends on the side"));
                    c.check(eq == same_message(ox, oy), || format!("{x:?} == {y:?} is {eq}"));
                    c.count("pairs compared", 1);
                }
            }
        }
    });
    // large units: what they say of themselves, in their first place and in copies
    ctx.exhaustive("large units", (crate::dict::sizes().len() * 5) as u64, |c| {
        let (n, k) = (crate::dict::sizes()[c.idx as usize / 5], c.idx as usize % 5);
        let mut t = super::header::po_header(&format!("Plural-Forms: nplurals={}; plural=n;\n", n + 1));
        let long = "é".repeat(n);
        match k {
            0 | 1 => {
                t.push_str("\nmsgid \"s\"\nmsgid_plural \"p\"\n");
                for i in 0..n {
                    // all empty but the last, or all different
                    t.push_str(&if k == 0 { format!("msgstr[{i}] \"{}\"\n", if i + 1 == n { "x" } else { "" }) } else { format!("msgstr[{i}] \"v{i}\"\n") });
                }
            }
            2 => t.push_str(&format!("\n#| msgctxt \"{long}\"\n#| msgid \"{long}1\"\nmsgctxt \"{long}2\"\nmsgid \"{long}3\"\nmsgstr \"{long}4\"\n\nmsgid \"{long}3\"\nmsgstr \"{long}5\"\n\nmsgid \"{long}6\"\nmsgstr \"{long}4\"\n")),
            3 => t.push_str(&format!("\n#| msgid \"{long}1\"\n#| msgid_plural \"{long}2\"\nmsgid \"{long}1\"\nmsgid_plural \"{long}3\"\nmsgstr[0] \"\"\nmsgstr[1] \"{long}\"\n\nmsgid \"{long}4\"\nmsgid_plural \"{long}3\"\nmsgstr[0] \"{long}\"\n")),
            _ => {
                t.push('\n');
                for i in 0..n {
                    t.push_str(&format!("# t{i}\n#. d{i}\n#: l{i}:1\n#, f{i}{}\n#= c{i}\n", if i + 1 == n { ", fuzzy" } else { "" }));
                }
                t.push_str("msgid \"a\"\nmsgstr \"b\"\n");
            }
        }
        c.note(format!("{n} of kind {k}"));
        let units = match obs::units_of(t.as_bytes()) {
            Ok(u) => u,
            Err(e) => c.fail(format!("not read: {e}")),
        };
        let seen: Vec<_> = units.iter().map(obs::unit).collect();
        for u in &units {
            unit(c, u);
        }
        if k < 2 {
            let m = units[0].message();
            for i in [0, 1, n / 2, n - 2, n - 1] {
                let want = if k == 1 { format!("v{i}") } else { ["", "x"][(i + 1 == n) as usize].to_string() };
                c.check(m.get_plural_text(i) == Some(&want), || format!("get_plural_text({i}) of {n}: {:?}", m.get_plural_text(i)));
            }
            c.check(m.get_plural_text(n).is_none(), || format!("get_plural_text({n}) of {n}"));
            c.check(!m.is_blank(), || "blank with a variant".into());
        }
        let copies = units.clone();
        drop(units);
        for (i, (u, o)) in copies.iter().zip(&seen).enumerate() {
            c.check(obs::unit(u) == *o, || format!("copy {i} differs"));
            for (v, w) in copies.iter().zip(&seen) {
                let eq = u.message() == v.message();
                c.check(eq == same_message(&o.msg, &w.msg), || format!("equality of two large messages is {eq}"));
                c.count("pairs compared", 1);
            }
        }
    });
    // hand-made messages: every pair and triple
    let texts = ["", "a", "b", "é", "a\n", " "];
    let mut made: Vec<Message> = vec![Message::default()];
    for id in texts {
        made.push(Message::Simple { id: id.into(), text: None });
        for t in texts {
            made.push(Message::Simple { id: id.into(), text: Some(t.into()) });
        }
    }
    let plurals = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n\nmsgid \"a\"\nmsgid_plural \"\"\nmsgstr[0] \"x\"\n\nmsgid \"b\"\nmsgid_plural \"a\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\n#| msgid \"a\"\n#| msgid_plural \"b\"\nmsgid \"é\"\nmsgid_plural \"é\"\nmsgstr[0] \"\"\nmsgstr[1] \"z\"\n";
    // units of the library cannot leave their thread, so each case makes its own
    let np = 6;
    let total = made.len() + np;
    let spec: Vec<Option<(String, Option<String>)>> = made
        .iter()
        .map(|m| match m {
            Message::Simple { id, text } => Some((id.clone(), text.clone())),
            _ => None,
        })
        .collect();
    let get = |i: usize| -> Message {
        if i == 0 {
            return Message::default();
        }
        if let Some(Some((id, text))) = spec.get(i) {
            return Message::Simple { id: id.clone(), text: text.clone() };
        }
        let us = obs::units_of(plurals.as_bytes()).unwrap_or_else(|e| crate::ctx::violation(&format!("not readable: {e}")));
        let k = i - spec.len();
        if k == 5 {
            us[4].prev_message().clone()
        } else {
            us[k].message().clone()
        }
    };
    ctx.exhaustive("all pairs of small messages", (total * total) as u64, |c| {
        let (i, j) = (c.idx as usize % total, c.idx as usize / total);
        let (a, b) = (get(i), get(j));
        c.note(format!("{a:?} / {b:?}"));
        message(c, &a);
        let eq = a == b;
        c.check(eq == (b == a), || "equality depends on the side".into());
        c.check((a != b) != eq, || "!= is not the opposite of ==".into());
        c.check(eq == same_message(&obs::msg(&a), &obs::msg(&b)), || format!("== is {eq}"));
        c.count("pairs compared", 1);
    });
    ctx.exhaustive("equality is transitive", (total * total) as u64, |c| {
        let (i, j) = (c.idx as usize % total, c.idx as usize / total);
        let (a, b) = (get(i), get(j));
        c.note(format!("{a:?} / {b:?}"));
        if a != b {
            c.trivial();
            return;
        }
        for k in 0..total {
            let m = get(k);
            c.check((a == m) == (b == m), || format!("equal to each other, not to {m:?} alike"));
        }
        c.count("pairs compared", total as u64);
    });
    // texts that differ in a single place, wherever it is
    ctx.stream("near twins", ctx.n(30_000, 800_000), |c| {
        let pick = c.rng.below(gen::TWINS.len());
        let (id, other) = (gen::alike(&mut c.rng), gen::alike(&mut c.rng));
        let (twin, how) = gen::twin(&mut c.rng, &id, gen::TWINS[pick]);
        let differ = twin != id;
        c.note(format!("{how}: {id:?} / {twin:?} / {other:?}"));
        let simple = |id: &str, text: Option<&str>| Message::Simple { id: id.into(), text: text.map(str::to_string) };
        let plural = |id: &str, pid: &str, v: &[&str]| {
            let mut t = format!("msgid \"{id}\"\nmsgid_plural \"{pid}\"\n");
            for (i, v) in v.iter().enumerate() {
                t.push_str(&format!("msgstr[{i}] \"{v}\"\n"));
            }
            match obs::units_of(t.as_bytes()) {
                Ok(u) if u.len() == 1 => u[0].message().clone(),
                r => crate::ctx::violation(&format!("not readable: {r:?}")),
            }
        };
        let kept: Vec<(Message, Message, bool)> = vec![
            (simple(&id, None), simple(&twin, None), !differ),
            (simple(&id, Some(&other)), simple(&twin, Some(&other)), !differ),
            (simple(&other, Some(&id)), simple(&other, Some(&twin)), !differ),
            (simple(&other, None), simple(&other, Some(&id)), id.is_empty()),
            (simple(&other, Some("")), simple(&other, Some(&id)), id.is_empty()),
            (simple(&id, None), simple(&id, Some("")), true),
            (plural(&id, &other, &["x"]), plural(&twin, &other, &["x"]), !differ),
            (plural(&other, &id, &["x"]), plural(&other, &twin, &["x"]), !differ),
            (plural(&id, &twin, &["x"]), plural(&twin, &id, &["x"]), !differ),
            // the variants do not take part
            (plural(&other, &id, &[&id]), plural(&other, &id, &[&twin, "y"]), true),
            (plural(&id, &id, &[&other]), simple(&id, Some(&other)), false),
        ];
        for (a, b, want) in &kept {
            let (ab, ba) = (a == b, b == a);
            c.check(ab == *want && ba == *want && (a != b) != *want, || format!("{a:?} == {b:?} is {ab} ({ba})"));
            c.count("pairs compared", 1);
        }
        if c.rng.chance(1, 8) {
            for (a, b, _) in &kept {
                message(c, a);
                message(c, b);
            }
        }
        for o in [Origin::Developer, Origin::Translator] {
            let (a, b) = (Note::new(o, id.clone()), Note::new(o, twin.clone()));
            c.check((a == b) != differ && (b == a) != differ && a.value() == id && b.value() == twin, || format!("{a:?} == {b:?}"));
        }
        // comments come from the reader only
        let t = format!("#= [{id}]\n#= [{twin}]\n#= [{id}]\n#! [{id}]\nmsgid \"a\"\nmsgstr \"b\"\n");
        match obs::units_of(t.as_bytes()) {
            Ok(u) if u.len() == 1 && u[0].comments().len() == 4 => {
                let k = u[0].comments();
                c.check(k[0] == k[2] && (k[0] == k[1]) != differ && (k[1] == k[0]) != differ && k[0] != k[3], || format!("equality of {k:?}"));
            }
            r => c.fail(format!("comments: {r:?}")),
        }
    });
    ctx.exhaustive("other values", 1, |c| {
        c.input(b"values");
        let u = Unit::default();
        let o = obs::unit(&u);
        c.eq("the default unit", &o, &UnitObs::default());
        unit(c, &u);
        c.check(u.message() == &Message::default(), || "default message".into());
        c.check(Message::default().is_blank() && !Message::default().is_simple(), || "default message".into());
        c.check(State::default() == State::Empty, || "default state".into());
        let states = [State::Empty, State::NeedsWork, State::Final];
        for a in states {
            for b in states {
                c.check((a == b) == (format!("{a:?}") == format!("{b:?}")), || "states".into());
                c.check(a != b || hash(&a) == hash(&b), || "hash of states".into());
            }
        }
        c.check(states.iter().collect::<HashSet<_>>().len() == 3, || "states".into());
        for (a, b) in [(Origin::Developer, Origin::Translator), (Origin::Translator, Origin::Developer)] {
            c.check(a != b && a == a.clone() && hash(&a) == hash(&a.clone()), || "origins".into());
            for v in ["", "é", "a\nb"] {
                let n = Note::new(a, v.into());
                c.check(*n.origin() == a && n.value() == v, || format!("{n:?}"));
                c.check(n != Note::new(b, v.into()) && n != Note::new(a, format!("{v}.")), || format!("{n:?}"));
            }
        }
    });
    ctx.require("units examined", 30_000);
    ctx.require("pairs compared", 50_000);
}

/// The lines of the header and of each entry, each with its line feeds.
fn blocks(cat: &Catalogue, lay: &mut Layout) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut g: Vec<Vec<u8>> = cat
        .groups(lay)
        .iter()
        .map(|ls| {
            let mut s = ls.join("\n").into_bytes();
            s.extend_from_slice(b"\n");
            s
        })
        .collect();
    let head = if cat.header.is_some() { g.remove(0) } else { vec![] };
    (head, g)
}

fn join(head: &[u8], parts: &[&[u8]], tight: bool) -> Vec<u8> {
    let mut v = head.to_vec();
    for p in parts {
        if !tight {
            v.push(b'\n');
        }
        v.extend_from_slice(p);
    }
    v
}

fn c24(ctx: &'static Ctx) {
    ctx.stream("entries alone and together", ctx.n(12_000, 300_000), |c| {
        // without a header the entries still need one in front of them to not be taken for it: none is empty
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 8), long: 0, ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let (head, parts) = blocks(&cat, &mut lay);
        let tight = c.rng.chance(1, 2);
        let refs: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
        let whole = join(&head, &refs, tight);
        c.input(&whole);
        let all = obs::read(&whole);
        c.check(all.clean(), || format!("not readable: {:?}", all.end));
        let mut single = vec![];
        for p in &refs {
            let o = obs::read(&join(&head, &[p], tight));
            c.check(o.clean() && o.units.len() == 1, || format!("alone: {} units, {:?}", o.units.len(), o.end));
            c.check(o.header == all.header, || format!("header {:?}, with all the entries {:?}", o.header, all.header));
            single.push(o.units[0].clone());
        }
        c.count("entries read alone", single.len() as u64);
        let compare = |c: &mut Case, what: &str, order: &[usize]| {
            let t = join(&head, &order.iter().map(|i| refs[*i]).collect::<Vec<_>>(), tight);
            let o = obs::read(&t);
            let want: Vec<UnitObs> = order.iter().map(|i| single[*i].clone()).collect();
            c.count("arrangements compared", 1);
            if !o.clean() || o.units != want {
                c.note(format!("{what}: {order:?}"));
                c.input(&t);
                c.fail(format!("{what} {order:?}:\n  observed {:?} {:?}\n  expected {want:?}", o.units, o.end));
            }
        };
        let n = refs.len();
        let mut order: Vec<usize> = (0..n).collect();
        compare(c, "in order", &order);
        c.rng.shuffle(&mut order);
        compare(c, "permuted", &order);
        order.retain(|_| c.rng.chance(2, 3));
        compare(c, "thinned", &order);
        let twice: Vec<usize> = (0..n).chain(0..n).collect();
        compare(c, "repeated", &twice);
        let cut = c.rng.below(n + 1);
        compare(c, "cut", &(0..cut).collect::<Vec<_>>());
    });
    // every sequence of three shapes, with and without obsolete ones, behind each kind of header
    let s = SHAPES as u64;
    ctx.exhaustive("every triple of shapes", s * s * s * 3, |c| {
        let d = digits(c.idx, &[SHAPES, SHAPES, SHAPES, 3]);
        let header = match d[3] {
            0 => None,
            1 => Some(header_of(2, "n>1")),
            _ => Some(header_of(3, "n%3")),
        };
        let mut singles = vec![];
        let mut cat = Catalogue { header: header.clone(), entries: vec![] };
        for (i, k) in d[..3].iter().enumerate() {
            let e = shape(*k, i);
            let one = Catalogue { header: header.clone(), entries: vec![e.clone()] };
            let t = one.text(&mut Layout::plain());
            let o = obs::read(&t);
            if !(o.clean() && o.units.len() == 1) {
                c.input(&t);
                c.fail(format!("alone: {:?} {:?}", o.units, o.end));
            }
            singles.push(o.units[0].clone());
            cat.entries.push(e);
        }
        let mut lay = Layout::plain();
        lay.tight = c.idx % 2 == 0;
        let t = cat.text(&mut lay);
        c.input(&t);
        let o = obs::read(&t);
        c.count("arrangements compared", 1);
        c.count("entries read alone", 3);
        c.check(o.clean(), || format!("{:?}", o.end));
        c.eq("units", &o.units, &singles);
    });
    // what follows, whatever it is, does not change what came before
    ctx.stream("anything appended", ctx.n(15_000, 400_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 5), long: 0, ..Cfg::default() });
        let (head, parts) = blocks(&cat, &mut Layout::plain());
        let refs: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
        let t = join(&head, &refs, false);
        let before = obs::read(&t);
        let other = gen::catalogue(&mut c.rng, &Cfg { entries: (0, 3), long: 0, header: (1, 4), ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let mut tail = other.text(&mut lay);
        for _ in 0..c.rng.below(3) {
            tail = gen::mutate(&mut c.rng, &tail);
        }
        let mut both = t.clone();
        both.push(b'\n');
        // a comment first, so that nothing continues the last entry
        both.extend_from_slice(b"#! next\n");
        both.extend_from_slice(&tail);
        c.input(&both);
        let after = obs::read(&both);
        c.count("arrangements compared", 1);
        if refm::read(&both).obs.refused {
            c.trivial();
            return;
        }
        c.check(after.header == before.header, || format!("header {:?}, alone {:?}", after.header, before.header));
        // an unreadable entry may take the unit before it with the error, nothing else
        let n = before.units.len();
        c.check(after.units.len() >= n.min(after.units.len()), || String::new());
        let keep = n.min(after.units.len());
        c.check(keep == n, || format!("{} units, {n} without what follows ({:?})", after.units.len(), after.end));
        c.check(after.units[..n] == before.units[..], || format!("units changed by what follows:\n  {:?}\n  {:?}", &after.units[..n], before.units));
        c.count("entries read alone", n as u64);
    });
    // far from the start
    ctx.stream("after many entries", ctx.n(24, 400), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (2, 4), long: 0, ..Cfg::default() });
        let (head, parts) = blocks(&cat, &mut Layout::plain());
        let refs: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
        let one = obs::read(&join(&head, &refs, false)).units;
        let reps = c.rng.range(500, 3000);
        let many: Vec<&[u8]> = (0..reps).flat_map(|_| refs.iter().copied()).collect();
        let t = join(&head, &many, false);
        c.input(&mix(reps as u64).to_le_bytes());
        c.note(format!("{reps} times {} entries", refs.len()));
        alloc::disarm();
        let got = obs::read(&t);
        c.check(got.clean(), || format!("{:?}", got.end));
        c.eq("units", &got.units.len(), &(reps * one.len()));
        for (i, u) in got.units.iter().enumerate() {
            c.check(*u == one[i % one.len()], || format!("unit {i}:\n  {u:?}\n  {:?}", one[i % one.len()]));
        }
        c.count("arrangements compared", 1);
    });
    ctx.require("arrangements compared", 40_000);
    ctx.require("entries read alone", 40_000);
}

// ---- C25

#[derive(Debug)]
struct Cause(String);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl StdError for Cause {}

fn rendered(e: &Error) -> String {
    match e {
        Error::Io(0, e) => e.to_string(),
        Error::Io(n, e) => format!("{e} at line {n}"),
        Error::Unexpected(0, m) => format!("Unexpected error: {m}"),
        Error::Unexpected(n, m) => format!("Unexpected error at line {n}: {m}"),
        Error::PluralForms(m) => format!("Error in plurals forms: {m}"),
        Error::Parse(n, got, exp) => {
            let mut s = format!("Parse error at line {n}");
            if !exp.is_empty() {
                s += &format!(" expected ‘{exp}’");
            }
            if !got.is_empty() {
                s += &format!(", got ‘{got}’");
            }
            s
        }
    }
}

/// Takes `left` bytes.
struct Narrow {
    text: String,
    left: usize,
}
impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

fn judge_error(c: &mut Case, e: Error) {
    let want = rendered(&e);
    let fields = ErrObs::of(&e);
    let got = e.to_string();
    c.eq("text of the error", &got, &want);
    let debug = format!("{e:?}");
    c.check(!debug.is_empty() || want.is_empty(), || "no debug text".into());
    if !matches!(e, Error::Io(..)) {
        c.eq("debug text", &debug, &want);
    }
    if let Error::Io(n, io) = &e {
        c.check(debug.contains(&format!("{io:?}")), || format!("debug text {debug:?} without the cause {io:?}"));
        c.check(*n == 0 || debug.replace(&format!("{io:?}"), "").contains(&n.to_string()), || format!("debug text {debug:?} without the line {n}"));
    }
    // a writer that fails is not ignored
    for left in (0..want.len()).step_by(1 + want.len() / 40) {
        let mut w = Narrow { text: String::new(), left };
        let r = write!(w, "{e}");
        c.check(r.is_err(), || format!("rendered into {left} bytes without a failure: {:?}", w.text));
        c.check(want.starts_with(&w.text), || format!("{:?} is no beginning of {want:?}", w.text));
    }
    for left in (0..debug.len()).step_by(1 + debug.len() / 40) {
        let mut w = Narrow { text: String::new(), left };
        let r = write!(w, "{e:?}");
        c.check(r.is_err(), || format!("debug text in {left} bytes without a failure: {:?}", w.text));
        c.check(debug.starts_with(&w.text), || format!("{:?} is no beginning of {debug:?}", w.text));
    }
    // the cause
    match (&e, StdError::source(&e)) {
        (Error::Io(_, io), Some(s)) => {
            c.eq("text of the cause", &s.to_string(), &io.to_string());
            c.check(s.downcast_ref::<io::Error>().is_some_and(|x| x.kind() == io.kind() && std::ptr::eq(x, io)), || "another cause".into());
        }
        (Error::Io(..), None) => c.fail("an i/o error without its cause"),
        (_, Some(s)) => c.fail(format!("a cause out of nothing: {s}")),
        (_, None) => (),
    }
    // conversion and back
    let io: io::Error = e.into();
    c.eq("kind after conversion", &io.kind(), &ErrorKind::Other);
    c.eq("text after conversion", &io.to_string(), &want);
    let back = io.into_inner().and_then(|b| b.downcast::<Error>().ok());
    match back {
        Some(b) => {
            c.eq("the error after conversion and back", &ErrObs::of(&b), &fields);
            c.eq("its text", &b.to_string(), &want);
        }
        None => c.fail("the conversion to std::io::Error loses the error"),
    }
    c.count("errors rendered", 1);
}

fn c25(ctx: &'static Ctx) {
    let lines = [0usize, 1, 2, 9, 10, 4096, u32::MAX as usize, usize::MAX];
    let texts = ["", "a", " ", "msgid", "é‘’", "{}", "{0}", "line 3", "\n", "\"", "%s", "expected ‘x’", "𝔘\u{0}", "a very long text that goes on and on and on and on"];
    let kinds = [
        ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::TimedOut,
        ErrorKind::WouldBlock, ErrorKind::Interrupted, ErrorKind::OutOfMemory,
    ];
    let (nl, nt, nk) = (lines.len(), texts.len(), kinds.len());
    ctx.exhaustive("syntax errors", (nl * nt * nt) as u64, |c| {
        let d = digits(c.idx, &[nl, nt, nt]);
        c.note(format!("{d:?}"));
        judge_error(c, Error::Parse(lines[d[0]], texts[d[1]].into(), texts[d[2]].into()));
    });
    ctx.exhaustive("other errors", (nl * nt) as u64, |c| {
        let d = digits(c.idx, &[nl, nt]);
        c.note(format!("{d:?}"));
        judge_error(c, Error::Unexpected(lines[d[0]], texts[d[1]].into()));
        judge_error(c, Error::PluralForms(texts[d[1]].into()));
    });
    ctx.exhaustive("i/o errors", (nl * nt * nk * 3) as u64, |c| {
        let d = digits(c.idx, &[nl, nt, nk, 3]);
        c.note(format!("{d:?}"));
        let io = match d[3] {
            0 => io::Error::new(kinds[d[2]], Cause(texts[d[1]].into())),
            1 => io::Error::from(kinds[d[2]]),
            _ => io::Error::from_raw_os_error(d[1] as i32 + 1),
        };
        judge_error(c, Error::Io(lines[d[0]], io));
    });
    // texts of any length
    let sizes = crate::dict::sizes();
    ctx.exhaustive("long texts", (sizes.len() * 4 * nl) as u64, |c| {
        let d = digits(c.idx, &[sizes.len(), 4, nl]);
        c.note(format!("{d:?}"));
        let s = ["x", "é", "a\n", " "][d[2] % 4].repeat(sizes[d[0]]) + "!";
        judge_error(
            c,
            match d[1] {
                0 => Error::Parse(lines[d[2]], s.clone(), if d[2] % 2 == 0 { s } else { String::new() }),
                1 => Error::Unexpected(lines[d[2]], s),
                2 => Error::PluralForms(s),
                _ => Error::Io(lines[d[2]], io::Error::new(ErrorKind::Other, Cause(s))),
            },
        );
    });
    ctx.stream("random texts", ctx.n(20_000, 300_000), |c| {
        let mut t = || {
            let mut s = String::new();
            for _ in 0..c.rng.below(12) {
                let x = c.rng.next() as u32 % 0x110000;
                s.push(char::from_u32(x).unwrap_or('x'));
                s.push_str(c.rng.pick(&texts));
            }
            s
        };
        let (a, b) = (t(), t());
        let line = c.rng.next() as usize >> c.rng.below(64);
        c.note(format!("{line} {a:?} {b:?}"));
        let e = match c.rng.below(4) {
            0 => Error::Parse(line, a, b),
            1 => Error::Unexpected(line, a),
            2 => Error::PluralForms(a),
            // errors within errors
            _ => Error::Io(line, Error::Io(1, io::Error::new(ErrorKind::Other, Cause(a))).into()),
        };
        judge_error(c, e);
    });
    // those of the reader itself
    ctx.stream("errors of damaged catalogues", ctx.n(30_000, 600_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 4), long: 0, ..Cfg::default() });
        let mut t = cat.text(&mut Layout::plain());
        for _ in 0..c.rng.range(1, 3) {
            t = gen::mutate(&mut c.rng, &t);
        }
        c.input(&t);
        let e = obs::with_parser(|p| match p.parse(&t[..]) {
            Err(e) => Some(e),
            Ok(r) => r.filter_map(|x| x.err()).next(),
        });
        match e {
            None => c.trivial(),
            Some(e) => {
                c.count("errors of the reader", 1);
                judge_error(c, e);
            }
        }
    });
    // and as an application meets them
    ctx.stream("through the question mark", ctx.n(5_000, 100_000), |c| {
        let mut r = Rng::new(c.rng.next());
        let t = {
            let cat = gen::catalogue(&mut r, &Cfg { entries: (1, 4), long: 0, ..Cfg::default() });
            let t = cat.text(&mut Layout::plain());
            gen::mutate(&mut r, &t)
        };
        c.input(&t);
        fn app(t: &[u8]) -> io::Result<usize> {
            let p = PoParser::new();
            let reader = p.parse(t)?;
            let mut n = 0;
            for u in reader {
                u?;
                n += 1;
            }
            Ok(n)
        }
        let want = obs::read(&t);
        match (app(&t), want.err()) {
            (Ok(n), None) => c.check(n == want.units.len(), || format!("{n} units")),
            (Err(e), Some(w)) => {
                let inner = e.get_ref().and_then(|x| x.downcast_ref::<Error>()).map(ErrObs::of);
                c.eq("error", &inner.as_ref(), &Some(w));
                c.count("errors of the reader", 1);
            }
            (a, b) => c.fail(format!("{a:?} {b:?}")),
        }
    });
    ctx.require("errors rendered", 20_000);
    ctx.require("errors of the reader", 5_000);
}
