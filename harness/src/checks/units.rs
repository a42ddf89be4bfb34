//! C01–C06: what a unit says is what its entry says.
use super::*;
use crate::{
    gen::{self, Body, Catalogue, Cfg, Entry, Header, Layout, Note, Prev, Str},
    obs, refm,
    rng::Rng,
};

pub fn checks() -> Vec<(Meta, Check)> {
    vec![
        (
            Meta {
                id: "C01",
                level: "exploration",
                rule: "random, exhaustive small and very large catalogues written by a generator that knows the entries; \
                       an online monitor compares the sequence of units of the real reader with the sequence of entries \
                       (a case is non-trivial when at least one entry had to be delivered; distinct by input bytes)",
                assumptions: &["the generator's catalogues follow the accepted subset of the PO grammar"],
            },
            c01,
        ),
        (
            Meta {
                id: "C02",
                level: "exploration",
                rule: "every raw string up to length 6 over an alphabet of escapes, every character after a backslash, \
                       every way of cutting a string into continuation lines, and random strings in every field; the \
                       monitor compares the reported text with an independent decoder (non-trivial: the text holds a \
                       backslash or more than one line; distinct by input bytes)",
                assumptions: &["quotes inside a string are escaped and a closing quote is not (anything else is outside the format)"],
            },
            c02,
        ),
        (
            Meta {
                id: "C03",
                level: "exploration",
                rule: "every sequence of up to 4 comment lines over 14 kinds, every marker character, comments that look \
                       like message text, and random catalogues; the monitor compares notes, locations, flags and custom \
                       comments of every unit with those of its own entry (non-trivial: at least one comment)",
                assumptions: &[],
            },
            c03,
        ),
        (
            Meta {
                id: "C04",
                level: "exploration",
                rule: "every combination of flag lines, kind of entry and blank/non-blank variants, then random \
                       catalogues and damaged ones; the monitor recomputes the state from flags and text",
                assumptions: &[],
            },
            c04,
        ),
        (
            Meta {
                id: "C05",
                level: "exploration",
                rule: "every sequence of up to 5 live and obsolete entries of several shapes, random catalogues with half \
                       the entries obsolete, and damaged ones; the monitor compares obsolescence and content",
                assumptions: &[],
            },
            c05,
        ),
        (
            Meta {
                id: "C06",
                level: "exploration",
                rule: "every combination of previous context, id and plural on live and obsolete entries next to entries \
                       without any, then random catalogues; the monitor compares the previous data of every unit",
                assumptions: &[],
            },
            c06,
        ),
    ]
}

fn cats(ctx: &Ctx, name: &str, n: u64, cfg: Cfg, mask: u32) {
    ctx.stream(name, n, |c| {
        let cat = gen::catalogue(&mut c.rng, &cfg);
        let mut lay = Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        let got = obs::read(&text);
        tally(c, &got);
        if cat.entries.is_empty() {
            c.trivial();
        }
        same(c, &got, &cat.expect(), mask);
    });
}

/// Catalogues whose texts are nearly the same everywhere.
pub fn near_twins(ctx: &Ctx, n: u64, mask: u32) {
    ctx.stream("near twins", n, |c| {
        let cat = gen::twins(&mut c.rng, 1).remove(0);
        let mut lay = if c.rng.chance(1, 2) { Layout::plain() } else { Layout::random(&mut c.rng) };
        let text = cat.text(&mut lay);
        c.input(&text);
        let got = obs::read(&text);
        tally(c, &got);
        same(c, &got, &cat.expect(), mask | END);
    });
}

/// Line counts to go down before the entries that are looked at.
pub fn far_sizes(ctx: &Ctx) -> Vec<usize> {
    let mut v = vec![300, 1_100, 4_200, 10_100, 33_000, 65_400, 66_000, 101_000];
    if ctx.thorough() {
        v.extend([260_000, 525_000, 1_050_000]);
    }
    v.extend(crate::dict::near(5, 150_000, &v).into_iter().map(|n| n + 5));
    v
}

pub const FILLERS: usize = 4;

/// The entries that fill about `n` lines; kind 0 has none, and leaves as many blank lines to its caller.
pub fn filler(kind: usize, n: usize) -> Vec<Entry> {
    match kind {
        0 => vec![],
        1 => (0..n.div_ceil(3)).map(|i| simple(&format!("f{i}"), "x")).collect(),
        2 => {
            let mut e = simple("f", "x");
            e.notes = (0..n).map(|i| if i % 2 == 0 { Note::Translator(format!("n{i}")) } else { Note::Locations(vec![format!("a:{i}")]) }).collect();
            vec![e]
        }
        _ => {
            let mut e = simple("f", "");
            e.body = Body::Simple(Str { segs: vec!["line of text\\n".into(); n], value: "line of text\n".repeat(n) });
            vec![e]
        }
    }
}

/// An entry for each combination of what an entry may have.
pub fn of_every_kind(count: usize) -> Vec<Entry> {
    let s = |t: &str, i: usize| Str::plain(&format!("{t}{i}"));
    (0..72)
        .map(|i| {
            let mut e = simple(&format!("far{i}"), &format!("t{i}"));
            e.obsolete = i % 2 == 1;
            match i / 2 % 3 {
                0 => (),
                1 => e.context = Some(Str::plain("")),
                _ => e.context = Some(s("c", i)),
            }
            match i / 6 % 4 {
                0 => (),
                1 => e.prev = Prev { context: Some(s("pc", i)), id: Some(s("pi", i)), plural: Some(s("pp", i)) },
                2 => e.prev = Prev { context: None, id: Some(s("pi", i)), plural: None },
                _ => e.prev = Prev { context: Some(Str::plain("")), id: Some(s("pi", i)), plural: None },
            }
            match i / 24 {
                0 => (),
                1 => e.body = Body::Plural(s("p", i), (0..count).map(|k| s("v", k)).collect()),
                _ => e.body = Body::Simple(Str::plain("")),
            }
            if i % 5 == 1 {
                e.notes.push(Note::Flags(vec!["fuzzy".into(), "c-format".into()]));
            }
            if i % 7 < 3 {
                e.notes.push(Note::Translator(format!("note {i}")));
                e.notes.push(Note::Developer(format!("dev {i}")));
                e.notes.push(Note::Locations(vec![format!("f.c:{i}"), "g.c".into()]));
                e.notes.push(Note::Custom('=', format!("x{i}")));
            }
            e
        })
        .collect()
}

/// Entries of every kind, and random ones, far down in a catalogue.
pub fn far_down(ctx: &Ctx, mask: u32) {
    let sizes = far_sizes(ctx);
    let n = (sizes.len() * FILLERS) as u64;
    ctx.run("far down", n * ctx.n(1, 10), false, 60_000, |c| {
        let (size, kind) = (sizes[(c.idx % n) as usize / FILLERS], c.idx as usize % FILLERS);
        let cfg = Cfg { entries: (1, 8), header: (5, 6), long: 0, ..Cfg::default() };
        let mut cat = gen::catalogue(&mut c.rng, &cfg);
        let count = cat.forms().map_or(2, |f| f.count);
        let mut v = vec![simple("first", "x")];
        v.extend(filler(kind, size));
        let head = v.len() + cat.header.is_some() as usize;
        v.extend(of_every_kind(count));
        v.append(&mut cat.entries);
        cat.entries = v;
        let groups = cat.groups(&mut Layout::plain());
        let mut text = Layout::plain().join(&groups[..head]);
        if kind == 0 {
            text.extend("\n".repeat(size).bytes());
        }
        let mut lay = Layout::random(&mut c.rng);
        text.extend(lay.join(&groups[head..]));
        c.note(format!("behind {size} lines of kind {kind}"));
        let got = obs::read(&text);
        tally(c, &got);
        same(c, &got, &cat.expect(), mask | END);
    });
}

/// Damaged catalogues against the reference reader.
pub fn damaged(ctx: &Ctx, name: &str, n: u64, mask: u32) {
    let cfg = Cfg { entries: (1, 5), long: 0, ..Cfg::default() };
    ctx.stream(name, n, |c| {
        let cat = gen::catalogue(&mut c.rng, &cfg);
        let text = if c.rng.chance(1, 2) {
            let mut lay = Layout::random(&mut c.rng);
            cat.text(&mut lay)
        } else {
            cat.text(&mut Layout::plain())
        };
        let text = gen::mutate(&mut c.rng, &text);
        c.input(&text);
        let got = obs::read(&text);
        tally(c, &got);
        same_ref(c, &got, &refm::read(&text), mask);
    });
}

/// Every sequence of at most `max` lines over `lines`, against the reference reader.
pub fn sequences(ctx: &Ctx, name: &str, lines: &[&str], max: u32, pre: &str, post: &str, mask: u32) {
    let k = lines.len() as u64;
    ctx.exhaustive(name, words(k, max), |c| {
        let w = word(c.idx, k, max);
        let mut t = String::from(pre);
        for i in w {
            t.push_str(lines[i]);
            t.push('\n');
        }
        t.push_str(post);
        c.input(t.as_bytes());
        let got = obs::read(t.as_bytes());
        tally(c, &got);
        same_ref(c, &got, &refm::read(t.as_bytes()), mask);
    });
}

pub fn simple(id: &str, text: &str) -> Entry {
    Entry {
        notes: vec![],
        prev: Prev::default(),
        context: None,
        id: Str::plain(id),
        body: Body::Simple(Str::plain(text)),
        obsolete: false,
    }
}

pub fn header_of(count: usize, formula: &str) -> Header {
    let def = format!("nplurals={count}; plural={formula};");
    let text = format!("Language: fr\nPlural-Forms: {def}\n");
    Header {
        notes: vec![],
        context: None,
        props: refm::properties(&text),
        text: Str { segs: vec![String::new(), gen::escape(&text)], value: text },
        forms: Some(obs::FormsObs { count, definition: def, formula: formula.to_string() }),
        obsolete: false,
    }
}


pub const SHAPES: usize = 13;

pub fn shape(k: usize, i: usize) -> Entry {
    let mut e = simple(&format!("id{i}"), &format!("text{i}"));
    let s = |t: &str| Str::plain(&format!("{t}{i}"));
    match k {
        0 => (),
        1 => e.context = Some(s("ctx")),
        2 => e.body = Body::Plural(s("pl"), vec![s("v0-"), s("v1-")]),
        3 => e.obsolete = true,
        4 => {
            e.obsolete = true;
            e.body = Body::Plural(s("pl"), vec![s("v0-"), s("v1-")]);
            e.context = Some(s("ctx"));
        }
        5 => e.prev = Prev { context: Some(s("pc")), id: Some(s("pi")), plural: None },
        6 => {
            e.notes = vec![
                Note::Translator(format!("t{i}")),
                Note::Flags(vec!["fuzzy".into()]),
                Note::Locations(vec![format!("l{i}:1")]),
            ]
        }
        7 => {
            e.id = Str { segs: vec!["".into(), format!("id{i}\\n"), "rest".into()], value: format!("id{i}\nrest") };
            e.body = Body::Simple(Str {
                segs: vec!["".into(), format!("te{i}\\n"), "xt".into()],
                value: format!("te{i}\nxt"),
            });
        }
        8 => e.body = Body::Simple(Str::plain("")),
        9 => e.body = Body::Plural(s("pl"), vec![s("only")]),
        10 => {
            e.obsolete = true;
            e.prev = Prev { context: None, id: Some(s("pi")), plural: Some(s("pp")) };
            e.notes = vec![Note::Flags(vec!["fuzzy".into(), "c-format".into()])];
        }
        11 => {
            // the same id as its neighbours, without context
            e.id = Str::plain("same");
        }
        _ => {
            e.id = Str::plain("same");
            e.context = Some(Str::plain(["x", "", "y"][i % 3]));
        }
    }
    e
}



fn c01(ctx: &'static Ctx) {
    let mask = IDS | TEXT | END;
    far_down(ctx, mask);
    cats(ctx, "catalogues", ctx.n(60_000, 1_500_000), Cfg::default(), mask);
    cats(
        ctx,
        "dense catalogues",
        ctx.n(3_000, 80_000),
        Cfg { entries: (5, 60), notes: false, long: 0, ..Cfg::default() },
        mask,
    );
    near_twins(ctx, ctx.n(6_000, 150_000), mask);
    // every sequence of shapes, with and without header, tight and spaced
    let max = if ctx.thorough() { 5 } else { 4 };
    let nw = words(SHAPES as u64, max);
    ctx.exhaustive("sequences of entry shapes", nw * 4, |c| {
        let (w, v) = (word(c.idx / 4, SHAPES as u64, max), c.idx % 4);
        let cat = Catalogue {
            header: (v & 1 == 1).then(|| header_of(2, "n>1")),
            entries: w.iter().enumerate().map(|(i, k)| shape(*k, i)).collect(),
        };
        let mut lay = Layout { tight: v & 2 == 2, ..Layout::plain() };
        let text = cat.text(&mut lay);
        c.input(&text);
        let got = obs::read(&text);
        tally(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    // every set of optional fields
    let bases = [2, 2, 2, 2, 2, 5, 2, 2, 2, 3];
    ctx.exhaustive("sets of optional fields", product(&bases), |c| {
        let d = digits(c.idx, &bases);
        let mk = |i: usize| {
            let s = |t: &str| Str::plain(&format!("{t}{i}"));
            let seg = |t: &str| {
                if d[8] == 0 {
                    s(t)
                } else {
                    Str { segs: vec![String::new(), format!("{t}"), format!("{i}")], value: format!("{t}{i}") }
                }
            };
            Entry {
                notes: if d[7] == 1 { vec![Note::Developer(format!("n{i}"))] } else { vec![] },
                prev: Prev {
                    context: (d[0] == 1).then(|| seg("pc")),
                    id: (d[1] == 1).then(|| seg("pi")),
                    plural: (d[1] == 1 && d[2] == 1).then(|| seg("pp")),
                },
                context: (d[3] == 1).then(|| if d[9] == 1 { Str::plain("") } else { seg("c") }),
                id: seg("id"),
                body: match d[5] {
                    0 => Body::Simple(seg("t")),
                    k => Body::Plural(if d[9] == 2 { Str::plain("") } else { seg("pl") }, (0..k).map(|j| seg(&format!("v{j}-"))).collect()),
                },
                obsolete: d[4] == 1,
            }
        };
        let cat = Catalogue {
            header: Some(header_of(4, "n%4")),
            entries: vec![mk(0), simple("between", "b"), mk(1), mk(2)],
        };
        let text = cat.text(&mut Layout { tight: d[6] == 1, ..Layout::plain() });
        c.input(&text);
        let got = obs::read(&text);
        tally(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    // the reader is an iterator: every way of using one gives the same units
    ctx.stream("through iterator adaptors", ctx.n(6_000, 150_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (0, 9), long: 0, ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        let want: Vec<UnitObs> = cat.expect().units.iter().map(|u| project(u, IDS | TEXT)).collect();
        let (k, m) = (c.rng.below(want.len() + 2), c.rng.range(1, 3));
        c.note(format!("{k} {m}"));
        let one = |u: Result<poreader::unit::Unit, poreader::error::Error>| match u {
            Ok(u) => project(&obs::unit(&u), IDS | TEXT),
            Err(e) => c.fail(format!("a well-formed catalogue gives {e:?}")),
        };
        obs::with_parser(|p| {
            let open = || p.parse(&text[..]).unwrap_or_else(|e| c.fail(format!("a well-formed catalogue is refused: {e:?}")));
            c.eq("collect", &open().map(one).collect::<Vec<_>>(), &want);
            match open().collect::<Result<Vec<_>, _>>() {
                Ok(v) => c.eq("collect to a result", &v.into_iter().map(|u| one(Ok(u))).collect::<Vec<_>>(), &want),
                Err(e) => c.fail(format!("collect gives {e:?}")),
            }
            c.eq("count", &open().count(), &want.len());
            c.eq("last", &open().last().map(one), &want.last().cloned());
            c.eq("skip", &open().skip(k).map(one).collect::<Vec<_>>(), &want.iter().skip(k).cloned().collect());
            c.eq("step_by", &open().step_by(m).map(one).collect::<Vec<_>>(), &want.iter().step_by(m).cloned().collect());
            let mut r = open();
            c.eq("nth", &r.nth(k).map(one), &want.get(k).cloned());
            c.eq("after nth", &r.map(one).collect::<Vec<_>>(), &want.iter().skip(k + 1).cloned().collect());
            let mut r = open();
            c.eq("take", &r.by_ref().take(k).map(one).collect::<Vec<_>>(), &want.iter().take(k).cloned().collect());
            c.eq("after take", &r.map(one).collect::<Vec<_>>(), &want.iter().skip(k).cloned().collect());
            let mut folded = vec![];
            open().for_each(|u| folded.push(one(u)));
            c.eq("for_each", &folded, &want);
            let mut peeked = vec![];
            let mut it = open().peekable();
            while it.peek().is_some() {
                peeked.extend(it.next().map(one));
            }
            c.eq("peekable", &peeked, &want);
            let mut r = open();
            for i in 0..=want.len() {
                let (lo, hi) = r.size_hint();
                let left = want.len() - i;
                c.check(lo <= left && hi.map_or(true, |h| left <= h), || format!("size_hint gives ({lo}, {hi:?}) before the last {left} units"));
                r.next();
            }
        });
        c.count("ways of iterating", 12);
    });
    // numbers of entries, variants and lines around the usual limits
    let sizes: Vec<usize> = {
        let mut v = vec![];
        for b in [7u32, 8, 10, 12, 13, 15, 16] {
            for d in [-1i64, 0, 1, 2] {
                v.push(((1i64 << b) + d) as usize);
            }
        }
        v.extend([100, 1000, 10_000, 100_000]);
        if ctx.thorough() {
            v.extend([200_000, (1 << 17) + 1, 1_000_000, (1 << 20) + 1]);
        }
        v.extend(crate::dict::near(5, 100_000, &v));
        v
    };
    ctx.exhaustive("long catalogues", sizes.len() as u64 * 3, |c| {
        let n = sizes[c.idx as usize / 3];
        let kind = c.idx % 3;
        let mut t = String::from("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n%3;\\n\"\n\n");
        for i in 0..n {
            let o = if kind == 1 && i % 3 == 0 { "#~ " } else { "" };
            if kind == 2 {
                t.push_str(&format!("msgid \"i{i}\"\nmsgid_plural \"p{i}\"\nmsgstr[0] \"a{i}\"\nmsgstr[1] \"\"\n\"b{i}\"\nmsgstr[2] \"c{i}\"\n"));
            } else {
                t.push_str(&format!("{o}msgid \"i{i}\"\n{o}msgstr \"t{i}\"\n"));
            }
        }
        c.note(format!("{n} entries of kind {kind}"));
        c.count("entries in long catalogues", n as u64);
        let mut i = 0usize;
        let got = obs::with_parser(|p| {
            crate::stress::visit(p, t.as_bytes(), |u| {
                let ok = match kind {
                    2 => {
                        let v = u.message().plural().map(|p| p.values().clone()).unwrap_or_default();
                        u.message().get_id() == format!("i{i}")
                            && u.message().get_plural_id() == Some(&format!("p{i}"))
                            && v == [format!("a{i}"), format!("b{i}"), format!("c{i}")]
                    }
                    _ => u.message().get_id() == format!("i{i}") && u.message().get_text() == format!("t{i}"),
                };
                i += 1;
                if ok {
                    Ok(())
                } else {
                    Err(format!("unit {} is {:?}", i - 1, u))
                }
            })
        });
        if let Err(e) = got {
            c.fail(e);
        }
        c.check(i == n, || format!("{i} units for {n} entries"));
        c.count("units delivered", i as u64);
    });
    // more than anybody holds in memory
    ctx.run("endless catalogues", 3, true, 600_000, |c| {
        let n = ctx.n(1_200_000, 20_000_000) as usize;
        let kind = c.idx;
        let entry = |i: usize| match kind {
            0 => format!("msgid \"i{i}\"\nmsgstr \"t{i}\"\n"),
            1 => format!("#: f:{i}\n#~ msgctxt \"c\"\n#~ msgid \"i{i}\"\n#~ msgstr \"t{i}\"\n\n"),
            _ => format!("\n\n#, fuzzy\n\n\nmsgid \"i{i}\"\n\nmsgstr \"t{i}\"\n"),
        };
        c.note(format!("{n} entries of kind {kind}"));
        let src = Written { next: 0, n, entry, buf: vec![], at: 0 };
        let mut i = 0usize;
        let got = obs::with_parser(|p| {
            crate::stress::visit(p, src, |u| {
                let ok = u.message().get_id().strip_prefix('i').and_then(|s| s.parse().ok()) == Some(i)
                    && u.message().get_text().strip_prefix('t').and_then(|s| s.parse().ok()) == Some(i)
                    && u.context().is_some() == (kind == 1);
                i += 1;
                if ok {
                    Ok(())
                } else {
                    Err(format!("unit {} is {:?}", i - 1, u))
                }
            })
        });
        if let Err(e) = got {
            c.fail(e);
        }
        c.check(i == n, || format!("{i} units for {n} entries"));
        c.count("units delivered", i as u64);
    });
    long_strings(ctx, mask);
    damaged(ctx, "damaged catalogues", ctx.n(60_000, 1_500_000), mask & !END);
    ctx.require("units delivered", 100_000);
}

/// A source that writes its entries while they are read.
struct Written<F> {
    next: usize,
    n: usize,
    entry: F,
    buf: Vec<u8>,
    at: usize,
}

impl<F: Fn(usize) -> String> std::io::Read for Written<F> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.at == self.buf.len() {
            self.buf.clear();
            self.at = 0;
            while self.buf.len() < 8192 && self.next < self.n {
                self.buf.extend((self.entry)(self.next).bytes());
                self.next += 1;
            }
        }
        let k = out.len().min(self.buf.len() - self.at);
        out[..k].copy_from_slice(&self.buf[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

fn long_strings(ctx: &Ctx, mask: u32) {
    // long strings and many continuation lines
    let mut lens = vec![1000usize, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 300_000, 1_000_000, 5_000_000];
    lens.extend(crate::dict::near(16, 1_000_000, &lens));
    ctx.exhaustive("long strings", lens.len() as u64 * 3, |c| {
        let n = lens[c.idx as usize / 3];
        let one = match c.idx % 3 {
            0 => Str::plain(&"é".repeat(n / 2)),
            1 => {
                let k = n / 16;
                Str { segs: (0..k).map(|i| format!("line {i}\\n")).collect(), value: (0..k).map(|i| format!("line {i}\n")).collect() }
            }
            _ => Str::plain(&"\\\"\n".repeat(n / 6)),
        };
        let mut a = simple("before", "x");
        a.context = Some(one.clone());
        let mut b = simple("after", "y");
        b.body = Body::Simple(one.clone());
        let mut d = simple("d", "");
        d.body = Body::Plural(one.clone(), vec![one.clone(), one.clone()]);
        d.id = one;
        let cat = Catalogue { header: None, entries: vec![a, b, d, simple("last", "z")] };
        let text = cat.text(&mut Layout::plain());
        c.input(&text);
        let got = obs::read(&text);
        tally(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
}

/// A catalogue that carries raw strings in every kind of field; returns the text and the expected units.
fn carry(items: &[(Str, usize)]) -> Catalogue {
    let mut entries = vec![];
    for (i, (s, f)) in items.iter().enumerate() {
        let mut e = simple(&format!("k{i}"), "t");
        match f {
            0 => e.body = Body::Simple(s.clone()),
            1 => {
                let mut id = s.clone();
                // ids must not be empty
                id.segs.push("!".into());
                id.value.push('!');
                e.id = id;
            }
            2 => e.context = Some(s.clone()),
            3 => e.body = Body::Plural(s.clone(), vec![Str::plain("a"), s.clone()]),
            4 => e.body = Body::Plural(Str::plain("p"), vec![s.clone(), Str::plain("b")]),
            5 => {
                e.prev = Prev { context: Some(s.clone()), id: Some(s.clone()), plural: Some(s.clone()) };
            }
            _ => {
                e.obsolete = true;
                e.body = Body::Simple(s.clone());
                e.context = Some(s.clone());
            }
        }
        entries.push(e);
    }
    Catalogue { header: None, entries }
}

const FIELDS: usize = 7;

fn c02(ctx: &'static Ctx) {
    let mask = IDS | TEXT | PREV | END;
    long_strings(ctx, mask);
    far_down(ctx, mask);
    near_twins(ctx, ctx.n(10_000, 300_000), mask);
    let batch = 32u64;
    // a raw string is in the format when every quote is escaped and the last backslash is not loose
    let valid = |s: &str| {
        let mut esc = false;
        for ch in s.chars() {
            if !esc && ch == '"' {
                return false;
            }
            esc = !esc && ch == '\\';
        }
        !esc
    };
    let letters = ['\\', 'n', 't', 'r', '"', 'a', ' ', 'é'];
    let max = if ctx.thorough() { 7 } else { 6 };
    let total = words(letters.len() as u64, max);
    ctx.exhaustive("every raw string", total.div_ceil(batch), |c| {
        let mut items = vec![];
        for i in c.idx * batch..((c.idx + 1) * batch).min(total) {
            let raw: String = word(i, letters.len() as u64, max).iter().map(|k| letters[*k]).collect();
            if valid(&raw) {
                let value = refm::unescape(&raw);
                items.push((Str { segs: vec![raw], value }, (i as usize + c.idx as usize) % FIELDS));
            }
        }
        if items.is_empty() {
            c.trivial();
            return;
        }
        c.count("strings decoded", items.len() as u64);
        let cat = carry(&items);
        let text = cat.text(&mut Layout::plain());
        c.input(&text);
        same(c, &obs::read(&text), &cat.expect(), mask);
    });
    // every character after a backslash, and on its own
    let chars = if ctx.thorough() { 0x110000u64 } else { 0x30000 };
    ctx.exhaustive("every character", chars.div_ceil(64), |c| {
        let mut items = vec![];
        for u in c.idx * 64..(c.idx + 1) * 64 {
            let Some(ch) = char::from_u32(u as u32) else { continue };
            if ch == '\n' {
                continue;
            }
            let value = match ch {
                'n' => "\n".to_string(),
                't' => "\t".to_string(),
                'r' => "\r".to_string(),
                '"' => "\"".to_string(),
                '\\' => "\\".to_string(),
                ch => format!("\\{ch}"),
            };
            let f = (u as usize + c.idx as usize) % FIELDS;
            items.push((Str { segs: vec![format!("\\{ch}")], value: value.clone() }, f));
            items.push((Str { segs: vec![format!("x\\{ch}n")], value: format!("x{value}n") }, (f + 1) % FIELDS));
            if !['"', '\\'].contains(&ch) {
                items.push((Str { segs: vec![format!("{ch}a{ch}")], value: format!("{ch}a{ch}") }, (f + 2) % FIELDS));
                items.push((Str { segs: vec![format!("\\\\{ch}")], value: format!("\\{ch}") }, (f + 3) % FIELDS));
            }
        }
        if items.is_empty() {
            c.trivial();
            return;
        }
        c.count("strings decoded", items.len() as u64);
        let cat = carry(&items);
        let text = cat.text(&mut Layout::plain());
        c.input(&text);
        same(c, &obs::read(&text), &cat.expect(), mask);
    });
    // every cut of a string into lines: escapes stay within a line
    let tokens: &[(&str, &str)] = &[
        ("\\n", "\n"),
        ("n", "n"),
        ("\\\\", "\\"),
        ("\\\"", "\""),
        ("\\a", "\\a"),
        (" ", " "),
        ("t", "t"),
        ("é", "é"),
    ];
    let len = if ctx.thorough() { 6u32 } else { 5 };
    let combos = (tokens.len() as u64).pow(len);
    ctx.exhaustive("every cut into lines", combos, |c| {
        let w = digits(c.idx, &vec![tokens.len(); len as usize]);
        let mut items = vec![];
        for cut in 0..1u64 << (len - 1) {
            let mut segs = vec![String::new()];
            let mut value = String::new();
            for (i, k) in w.iter().enumerate() {
                segs.last_mut().unwrap().push_str(tokens[*k].0);
                value.push_str(tokens[*k].1);
                if i + 1 < w.len() && cut >> i & 1 == 1 {
                    segs.push(String::new());
                }
            }
            items.push((Str { segs, value }, (cut as usize + c.idx as usize) % FIELDS));
        }
        c.count("strings decoded", items.len() as u64);
        let cat = carry(&items);
        let text = cat.text(&mut Layout { tight: true, ..Layout::plain() });
        c.input(&text);
        same(c, &obs::read(&text), &cat.expect(), mask);
    });
    // escapes and characters at every place near the usual limits of a long string
    let lens: Vec<usize> = {
        let mut v = vec![];
        for b in [6usize, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16] {
            v.extend((1 << b) - 3..=(1 << b) + 2);
        }
        if ctx.thorough() {
            for b in [17usize, 20] {
                v.extend((1 << b) - 3..=(1 << b) + 2);
            }
        }
        v.extend(crate::dict::near(5, 1_000_000, &v));
        v
    };
    let ends: &[(&str, &str)] = &[("\\n", "\n"), ("\\\\", "\\"), ("\\\\n", "\\n"), ("\\\"", "\""), ("é", "é"), ("𝔘\\t", "𝔘\t"), (" ", " "), ("\\x\\r", "\\x\r")];
    ctx.exhaustive("escapes far into a string", (lens.len() * ends.len() * 3) as u64, |c| {
        let d = digits(c.idx, &[lens.len(), ends.len(), 3]);
        let (raw, val) = ends[d[1]];
        let n = lens[d[0]];
        let s = match d[2] {
            // far into one line, at its end and behind it
            0 => Str { segs: vec![format!("{}{raw}tail{raw}", "x".repeat(n))], value: format!("{}{val}tail{val}", "x".repeat(n)) },
            // the text so far is long, the line is not
            1 => Str { segs: vec!["y".repeat(n), raw.to_string(), format!("z{raw}")], value: format!("{}{val}z{val}", "y".repeat(n)) },
            // many of them
            _ => Str { segs: vec![raw.repeat(n / raw.len())], value: val.repeat(n / raw.len()) },
        };
        c.note(format!("{n} {raw:?} {}", d[2]));
        let items: Vec<(Str, usize)> = (0..FIELDS).filter(|f| n < 5000 || (f + c.idx as usize) % FIELDS < 2).map(|f| (s.clone(), f)).collect();
        c.count("strings decoded", items.len() as u64);
        let cat = carry(&items);
        let text = cat.text(&mut Layout::plain());
        same(c, &obs::read(&text), &cat.expect(), mask);
    });
    // strings cut in very many lines
    let cuts = crate::dict::sizes();
    ctx.exhaustive("very many continuation lines", (cuts.len() * FIELDS) as u64, |c| {
        let (n, f) = (cuts[c.idx as usize / FIELDS], c.idx as usize % FIELDS);
        let mut s = Str { segs: vec![String::new()], value: String::new() };
        for i in 0..n {
            let (raw, val) = match i % 5 {
                0 => (format!("{i}\\n"), format!("{i}\n")),
                1 => (String::new(), String::new()),
                2 => (format!("é{i}"), format!("é{i}")),
                3 => ("\\\\".into(), "\\".into()),
                _ => (" same ".into(), " same ".into()),
            };
            s.segs.push(raw);
            s.value.push_str(&val);
        }
        c.note(format!("{n} continuation lines, field {f}"));
        c.count("strings decoded", 1);
        let cat = carry(&[(s, f), (Str::plain("next"), f)]);
        let text = cat.text(&mut Layout::plain());
        same(c, &obs::read(&text), &cat.expect(), mask);
    });
    cats(
        ctx,
        "random strings",
        ctx.n(40_000, 1_000_000),
        Cfg { notes: false, long: 60, header: (1, 3), ..Cfg::default() },
        mask,
    );
    // header text goes through the same decoding
    ctx.stream("header text", ctx.n(10_000, 300_000), |c| {
        let cfg = Cfg { long: 0, ..Cfg::default() };
        let mut s = gen::string(&mut c.rng, &cfg);
        s.segs.insert(0, "K: <".into());
        s.segs.push(">".into());
        let value = format!("K: <{}>", s.value);
        let cat = Catalogue {
            header: Some(Header {
                notes: vec![],
                context: None,
                text: s,
                props: refm::properties(&value),
                forms: None,
                obsolete: false,
            }),
            entries: vec![],
        };
        if value.contains("\nLanguage:") || value.contains("Plural-Forms") {
            c.trivial();
            return;
        }
        let text = cat.text(&mut Layout::plain());
        c.input(&text);
        let got = obs::read(&text);
        c.eq("properties", &got.header.props, &cat.expect().header.props);
        c.count("strings decoded", 1);
    });
    ctx.require("strings decoded", 1_000_000);
}

fn comment_lines() -> Vec<(&'static str, Note)> {
    let s = |x: &str| x.to_string();
    vec![
        ("# tr one", Note::Translator(s("tr one"))),
        ("#", Note::Translator(s(""))),
        ("# msgid \"fake\"", Note::Translator(s("msgid \"fake\""))),
        ("# \"quoted\"", Note::Translator(s("\"quoted\""))),
        ("#. dev, two: x", Note::Developer(s("dev, two: x"))),
        ("#.", Note::Developer(s(""))),
        ("#. \"dev\"", Note::Developer(s("\"dev\""))),
        ("#: a.c:1 b.c:2", Note::Locations(vec![s("a.c:1"), s("b.c:2")])),
        ("#: a.c:1", Note::Locations(vec![s("a.c:1")])),
        ("#, fuzzy", Note::Flags(vec![s("fuzzy")])),
        ("#, c-format, no-wrap", Note::Flags(vec![s("c-format"), s("no-wrap")])),
        ("#,", Note::Flags(vec![])),
        ("#= custom = 1", Note::Custom('=', s("custom = 1"))),
        ("#!", Note::Custom('!', s(""))),
    ]
}

fn c03(ctx: &'static Ctx) {
    let mask = NOTES;
    far_down(ctx, mask);
    near_twins(ctx, ctx.n(10_000, 300_000), mask);
    let lines = comment_lines();
    let k = lines.len() as u64;
    let max = if ctx.thorough() { 5 } else { 4 };
    let nw = words(k, max);
    // the entry with the comments, preceded and followed by others with and without comments
    ctx.exhaustive("sequences of comment lines", nw * 2, |c| {
        let (w, v) = (word(c.idx / 2, k, max), c.idx % 2);
        let mut t = String::from("msgid \"first\"\nmsgstr \"f\"\n");
        let mut first = simple("first", "f");
        if v == 1 {
            t.insert_str(0, "# before\n#: z.c:9\n#, python-format\n#@ at\n");
            first.notes = vec![
                Note::Translator("before".into()),
                Note::Locations(vec!["z.c:9".into()]),
                Note::Flags(vec!["python-format".into()]),
                Note::Custom('@', "at".into()),
            ];
        } else {
            t.push('\n');
        }
        let mut e = simple("e", "x");
        for i in &w {
            t.push_str(lines[*i].0);
            t.push('\n');
            e.notes.push(lines[*i].1.clone());
        }
        e.obsolete = w.len() % 2 == 1;
        let p = if e.obsolete { "#~ " } else { "" };
        t.push_str(&format!("{p}msgid \"e\"\n{p}msgstr \"x\"\nmsgid \"last\"\nmsgstr \"\"\n"));
        let cat = Catalogue { header: None, entries: vec![first, e, simple("last", "")] };
        c.input(t.as_bytes());
        c.count("comment lines", w.len() as u64);
        let got = obs::read(t.as_bytes());
        tally(c, &got);
        same(c, &got, &cat.expect(), mask | END);
    });
    // every marker
    ctx.exhaustive("every marker", 0x3000, |c| {
        let Some(ch) = char::from_u32(c.idx as u32) else {
            c.trivial();
            return;
        };
        if ['\n', ',', ':', '.'].contains(&ch) {
            c.trivial();
            return;
        }
        let t = format!(
            "msgid \"a\"\nmsgstr \"b\"\n#{ch} some text, fuzzy: x\n#{ch}  msgid\n#{ch}{ch}\n#{ch}\n#{ch} é . , : ~\nmsgid \"c\"\nmsgstr \"d\"\n"
        );
        c.input(t.as_bytes());
        let got = obs::read(t.as_bytes());
        let mut e = simple("c", "d");
        e.notes = ["some text, fuzzy: x", "msgid", &ch.to_string(), "", "é . , : ~"]
            .iter()
            .map(|s| if ch.is_whitespace() { Note::Translator(s.trim_start().to_string()) } else { Note::Custom(ch, s.to_string()) })
            .collect();
        c.count("comment lines", 5);
        same(c, &got, &Catalogue { header: None, entries: vec![simple("a", "b"), e] }.expect(), mask | END);
    });
    cats(ctx, "catalogues", ctx.n(60_000, 1_500_000), Cfg { long: 0, ..Cfg::default() }, mask | END);
    // many comments on one entry, long ones included
    ctx.stream("many comments", ctx.n(300, 6_000), |c| {
        let cfg = Cfg { long: 0, ..Cfg::default() };
        let mut cat = gen::catalogue(&mut c.rng, &cfg);
        let mut e = simple("many", "x");
        let n = c.rng.range(50, 2000);
        for i in 0..n {
            e.notes.push(gen::note(&mut c.rng));
            if i % 97 == 0 {
                e.notes.push(Note::Developer("long ".repeat(c.rng.range(1, 3000)) + "end"));
                e.notes.push(Note::Locations((0..c.rng.range(1, 300)).map(|j| format!("f{j}.c:{i}")).collect()));
            }
        }
        cat.entries.push(e);
        cat.entries.push(simple("after", "y"));
        let mut lay = Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        c.count("comment lines", n as u64);
        same(c, &obs::read(&text), &cat.expect(), mask | END);
    });
    // very many comments of one kind
    ctx.exhaustive("very many of one kind", (crate::dict::sizes().len() * KINDS) as u64, |c| {
        let (n, k) = (crate::dict::sizes()[c.idx as usize / KINDS], c.idx as usize % KINDS);
        let mut e = simple("many", "x");
        e.notes = many_notes(n, k);
        // the rest of the entry stays what it is
        if n % 2 == 1 {
            e.notes.push(Note::Flags(vec!["fuzzy".into()]));
            e.notes.push(Note::Translator("last".into()));
            e.prev = Prev { context: Some(Str::plain("pc")), id: Some(Str::plain("pi")), plural: Some(Str::plain("pp")) };
            e.context = Some(Str::plain("c"));
            e.body = Body::Plural(Str::plain("p"), vec![Str::plain("a"), Str::plain("b")]);
            e.obsolete = n % 4 == 1;
        }
        let mut next = simple("next", "y");
        next.notes = vec![Note::Flags(vec!["b".into()]), Note::Locations(vec!["b:1".into()])];
        let cat = Catalogue { header: None, entries: vec![e, next] };
        let text = cat.text(&mut Layout::plain());
        c.note(format!("{n} of kind {k}"));
        c.count("comment lines", n as u64);
        same(c, &obs::read(&text), &cat.expect(), mask | END);
    });
    // every character in every place of a comment
    ctx.exhaustive("every character in comments", char_cases(ctx), |c| {
        let mut t = String::from("msgid \"a\"\nmsgstr \"b\"\n");
        for ch in chars_of(ctx, c.idx) {
            t.push_str(&format!(
                "#: {ch}a.c:1 b{ch}c.c:2 d.c:3{ch} {ch} {ch}a b{ch}\n#, {ch}c-format, no{ch}wrap, fuzzy{ch},{ch}\n# {ch}text{ch}more {ch}\n# end{ch}\n#. {ch}{ch}text {ch}\n#={ch} x {ch}\n#{ch}\n#{ch}{ch}text\n\
                 {}msgid \"{ch}x\"\nmsgstr \"{ch}\"\n",
                if ch == '"' || ch == '\\' { "#. quote\n#~ msgid \"q\"\n#~ msgstr \"\"\n" } else { "" }
            ));
            c.count("comment lines", 8);
        }
        c.input(t.as_bytes());
        same_ref(c, &obs::read(t.as_bytes()), &refm::read(t.as_bytes()), mask | END);
    });
    // location and flag lists: any separator, any number
    ctx.stream("lists", ctx.n(20_000, 400_000), |c| {
        let mut e = simple("e", "x");
        for _ in 0..c.rng.range(1, 4) {
            let tok = |r: &mut Rng| {
                let n = r.range(1, 6);
                (0..n).map(|_| *r.pick(&['a', '.', ':', '1', '/', '#', '"', '\\', '~', '|', 'é', ';', '-', '(', '['])).collect::<String>()
            };
            if c.rng.chance(1, 2) {
                e.notes.push(Note::Locations((0..c.rng.below(6)).map(|_| tok(&mut c.rng)).collect()));
            } else {
                e.notes.push(Note::Flags((0..c.rng.below(6)).map(|_| tok(&mut c.rng)).collect()));
            }
        }
        let mut lay = Layout::random(&mut c.rng);
        lay.spacing = c.rng.below(8);
        let cat = Catalogue { header: None, entries: vec![simple("a", "b"), e, simple("z", "b")] };
        let text = cat.text(&mut lay);
        c.input(&text);
        c.count("comment lines", 2);
        same(c, &obs::read(&text), &cat.expect(), mask | END);
    });
    sequences(
        ctx,
        "line sequences",
        &["# t", "#. d", "#: l:1", "#, fuzzy", "#~ \"k\"", "#| \"q\"", "msgid \"i\"", "msgstr \"s\"", "\"c\"", "#~ msgid \"o\"", "#~ msgstr \"p\"", "# \"n\""],
        if ctx.thorough() { 6 } else { 5 },
        "",
        "",
        mask,
    );
    damaged(ctx, "damaged catalogues", ctx.n(40_000, 1_000_000), mask);
    ctx.require("comment lines", 50_000);
}

const FLAG_LINES: &[&[&[&str]]] = &[
    &[],
    &[&["fuzzy"]],
    &[&["c-format"]],
    &[&["fuzzy", "c-format"]],
    &[&["c-format", "fuzzy"]],
    &[&["c-format"], &["fuzzy"]],
    &[&["fuzzy"], &["c-format"]],
    &[&["fuzzy"], &["fuzzy"]],
    &[&["Fuzzy", "fuzzy2", "not-fuzzy", "fuzz", "unfuzzy"]],
    &[&["FUZZY"]],
    &[&[]],
    &[&["no fuzzy"]],
    &[&["no-wrap", "python-format", "fuzzy", "x"]],
];

const BLANKS: &[&str] = &["", "x", " ", "\n", "\\", "0", "\u{0}", "\u{a0}"];

fn c04(ctx: &'static Ctx) {
    let mask = STATE | END;
    far_down(ctx, mask);
    // flags × shape × blankness of up to four variants
    let bases = [FLAG_LINES.len(), 5, 4, 4, 4, 4, 2, 3, 2];
    let total = product(&bases);
    ctx.exhaustive("flags and blankness", total, |c| {
        let d = digits(c.idx, &bases);
        let mk = |k: usize| {
            let mut e = simple(&format!("e{k}"), "");
            for l in FLAG_LINES[d[0]] {
                e.notes.push(Note::Flags(l.iter().map(|s| s.to_string()).collect()));
            }
            if d[8] == 1 {
                e.notes.insert(0, Note::Translator("fuzzy".into()));
                e.notes.push(Note::Developer(", fuzzy".into()));
                e.notes.push(Note::Custom('=', "fuzzy".into()));
            }
            let s = |i: usize| {
                let t = match d[2 + i] {
                    0 => "",
                    1 => "x",
                    2 => BLANKS[2 + (c.idx as usize + i) % (BLANKS.len() - 2)],
                    _ => "",
                };
                let mut s = Str::plain(t);
                if d[2 + i] == 3 {
                    s.segs = vec![String::new(); 3];
                }
                s
            };
            e.body = match d[1] {
                0 => Body::Simple(s(0)),
                k => Body::Plural(Str::plain("p"), (0..k).map(s).collect()),
            };
            e.obsolete = d[6] == 1;
            match d[7] {
                1 => e.context = Some(Str::plain("c")),
                2 => e.prev = Prev { context: None, id: Some(Str::plain("old")), plural: None },
                _ => (),
            }
            e
        };
        // a neighbour of each state, so that a state that leaks is seen
        let mut nb = simple("nb", "done");
        if c.idx % 3 == 1 {
            nb.body = Body::Simple(Str::plain(""));
        } else if c.idx % 3 == 2 {
            nb.notes = vec![Note::Flags(vec!["fuzzy".into()])];
        }
        let cat = Catalogue { header: Some(header_of(4, "n%4")), entries: vec![nb.clone(), mk(0), nb, mk(1)] };
        let text = cat.text(&mut Layout { tight: c.idx % 2 == 0, ..Layout::plain() });
        c.input(&text);
        let got = obs::read(&text);
        count_states(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    // the state of the header does not reach the first entry
    ctx.exhaustive("header flags", FLAG_LINES.len() as u64 * 4, |c| {
        let mut h = header_of(2, "n>1");
        for l in FLAG_LINES[c.idx as usize / 4] {
            h.notes.push(Note::Flags(l.iter().map(|s| s.to_string()).collect()));
        }
        let mut e = simple("a", if c.idx % 2 == 0 { "x" } else { "" });
        if c.idx / 2 % 2 == 1 {
            e.notes = vec![Note::Flags(vec!["c-format".into()])];
        }
        let cat = Catalogue { header: Some(h), entries: vec![e, simple("b", "y")] };
        let text = cat.text(&mut Layout::plain());
        c.input(&text);
        let got = obs::read(&text);
        count_states(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    ctx.stream("catalogues", ctx.n(60_000, 1_500_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { long: 0, ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        let got = obs::read(&text);
        count_states(c, &got);
        same(c, &got, &cat.expect(), mask);
        // and from what the unit itself says
        for u in &got.units {
            let fuzzy = u.flags.iter().any(|f| f == "fuzzy");
            let want = if fuzzy {
                St::NeedsWork
            } else if u.msg.is_blank() {
                St::Empty
            } else {
                St::Final
            };
            c.eq("state of a unit with its flags and text", &u.state, &want);
            c.eq("is_translated", &u.translated, &(want == St::Final));
        }
    });
    // more variants than a word has bits
    ctx.stream("many variants", ctx.n(2_000, 40_000), |c| {
        let n = c.rng.range(1, 90);
        let at = c.rng.below(n + 1);
        let mut e = simple("many", "");
        e.body = Body::Plural(
            Str::plain("p"),
            (0..n).map(|i| Str::plain(if i == at { "x" } else { "" })).collect(),
        );
        let cat = Catalogue { header: Some(header_of(n + c.rng.below(3), "0")), entries: vec![e, simple("z", "")] };
        let text = cat.text(&mut Layout::plain());
        c.input(&text);
        let got = obs::read(&text);
        count_states(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    // behind very many comments of any kind
    ctx.exhaustive("behind very many comments", (crate::dict::sizes().len() * KINDS) as u64, |c| {
        let (n, k) = (crate::dict::sizes()[c.idx as usize / KINDS], c.idx as usize % KINDS);
        let mut v = vec![];
        for (i, (t, o)) in [("x", false), ("x", true), ("", false), ("y", false)].iter().enumerate() {
            let mut e = simple(&format!("id{i}"), t);
            e.notes = many_notes(if n > 5_000 && i != c.idx as usize % 2 { 3 } else { n }, k);
            e.obsolete = *o;
            if i < 2 {
                e.notes.push(Note::Flags(vec!["fuzzy".into()]));
            }
            v.push(e);
        }
        let cat = Catalogue { header: None, entries: v };
        let text = cat.text(&mut Layout::plain());
        c.note(format!("{n} of kind {k}"));
        let got = obs::read(&text);
        count_states(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    // very many flags, very many variants
    ctx.exhaustive("very many", (crate::dict::sizes().len() * 12) as u64, |c| {
        let (n, k) = (crate::dict::sizes()[c.idx as usize / 12], c.idx as usize % 12);
        let mut e = simple("many", "x");
        let mut f: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        let at = [n, 0, n / 2, n - 1][k % 4];
        if k < 8 {
            if at < n {
                f[at] = "fuzzy".into();
            }
            e.notes = if k < 4 { vec![Note::Flags(f)] } else { f.into_iter().map(|f| Note::Flags(vec![f])).collect() };
        } else {
            e.body = Body::Plural(Str::plain("p"), (0..n).map(|i| Str::plain(if i == at { "x" } else { "" })).collect());
        }
        let cat = Catalogue { header: Some(header_of(n, "0")), entries: vec![e, simple("z", ""), simple("y", "y")] };
        let text = cat.text(&mut Layout::plain());
        c.note(format!("{n} of kind {k}"));
        let got = obs::read(&text);
        count_states(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    damaged(ctx, "damaged catalogues", ctx.n(40_000, 1_000_000), STATE);
    ctx.require("units Final", 10_000);
    ctx.require("units NeedsWork", 10_000);
    ctx.require("units Empty", 10_000);
}

/// Kinds of `many_notes`.
const KINDS: usize = 9;

/// `n` comments of one kind, or one that is as long.
fn many_notes(n: usize, k: usize) -> Vec<Note> {
    let name = |i: usize| if i % 3 == 0 { format!("é{i}") } else { format!("n{i}") };
    match k {
        0 => (0..n).map(|i| Note::Translator(name(i))).collect(),
        1 => (0..n).map(|i| Note::Developer(name(i))).collect(),
        2 => (0..n).map(|i| Note::Custom(['=', '@', '!'][i % 3], name(i))).collect(),
        3 => vec![Note::Flags((0..n).map(name).collect())],
        4 => (0..n).map(|i| Note::Flags(vec![name(i)])).collect(),
        5 => vec![Note::Locations((0..n).map(name).collect())],
        6 => (0..n).map(|i| Note::Locations(vec![name(i)])).collect(),
        // the same again and again
        7 => (0..n)
            .flat_map(|i| [Note::Flags(vec!["same".into()]), Note::Locations(vec!["a:1".into()]), Note::Translator(["t", ""][i % 2].into())])
            .collect(),
        // and the text of one is as long
        _ => {
            let long = "é".repeat(n);
            vec![
                Note::Translator(long.clone()),
                Note::Developer(long.clone()),
                Note::Custom('=', long.clone()),
                Note::Flags(vec![long.clone(), "b".into()]),
                Note::Locations(vec!["a".into(), long.clone(), "b".into()]),
            ]
        }
    }
}

fn count_states(c: &mut Case, o: &Obs) {
    for u in &o.units {
        c.count(
            match u.state {
                St::Final => "units Final",
                St::NeedsWork => "units NeedsWork",
                St::Empty => "units Empty",
            },
            1,
        );
    }
}

fn c05(ctx: &'static Ctx) {
    let mask = OBSOLETE | IDS | TEXT | PREV | END;
    // a line of the other kind behind a string of any length
    let sizes = crate::dict::sizes();
    ctx.exhaustive("the other kind behind long strings", (sizes.len() * 36) as u64, |c| {
        let d = digits(c.idx, &[sizes.len(), 3, 3, 4]);
        let n = sizes[d[0]];
        let kinds = ["", "#~ ", "#~| "];
        let (one, other) = (kinds[d[1]], kinds[(d[1] + 1 + d[2] % 2) % 3]);
        let s = match d[3] {
            0 => format!("\"{}\"\n", "x".repeat(n)),
            1 => format!("\"\"\n{}", format!("{one}\"x\"\n").repeat(n)),
            2 => format!("\"\"\n{}", format!("{one}\"line of text\\n\"\n").repeat(n / 8)),
            _ => format!("\"\"\n{one}\"{}\"\n", "é".repeat(n)),
        };
        let t = match (d[1], d[2]) {
            (2, _) => format!("#~| msgid {s}{other}\"y\"\n#~ msgid \"i\"\n#~ msgstr \"t\"\n"),
            (_, 2) => format!("{one}msgid {s}{other}msgstr \"y\"\n"),
            _ => format!("{one}msgid \"i\"\n{one}msgstr {s}{other}\"y\"\n"),
        };
        let t = format!("msgid \"first\"\nmsgstr \"x\"\n\n{t}\nmsgid \"next\"\nmsgstr \"n\"\n");
        c.note(format!("{d:?} with a string of {n}"));
        let want = refm::read(t.as_bytes());
        same_ref(c, &obs::read(t.as_bytes()), &want, mask);
    });
    far_down(ctx, mask);
    let shapes = 8usize;
    let mk = |k: usize, i: usize| {
        let mut e = simple(&format!("id{i}"), &format!("t{i}"));
        let s = |t: &str| Str::plain(&format!("{t}{i}"));
        e.obsolete = k % 2 == 1;
        match k / 2 {
            0 => (),
            1 => {
                e.context = Some(s("c"));
                e.body = Body::Plural(s("p"), vec![s("a"), s("b")]);
            }
            2 => {
                e.prev = Prev { context: Some(s("pc")), id: Some(s("pi")), plural: Some(s("pp")) };
                e.notes = vec![Note::Flags(vec!["fuzzy".into()]), Note::Translator(format!("n{i}"))];
            }
            _ => {
                e.notes = vec![Note::Custom('~', format!("old {i}"))];
                e.body = Body::Simple(Str {
                    segs: vec!["".into(), format!("l{i}\\n"), "m".into()],
                    value: format!("l{i}\nm"),
                });
            }
        }
        e
    };
    let max = if ctx.thorough() { 6 } else { 5 };
    ctx.exhaustive("sequences", words(shapes as u64, max), |c| {
        let w = word(c.idx, shapes as u64, max);
        let cat = Catalogue {
            header: (c.idx % 2 == 0).then(|| header_of(2, "n>1")),
            entries: w.iter().enumerate().map(|(i, k)| mk(*k, i)).collect(),
        };
        let text = cat.text(&mut Layout { tight: c.idx % 3 == 0, ..Layout::plain() });
        c.input(&text);
        let got = obs::read(&text);
        count_obsolete(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    ctx.stream("catalogues", ctx.n(50_000, 1_500_000), |c| {
        let mut cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 6), ..Cfg::default() });
        for e in &mut cat.entries {
            e.obsolete = c.rng.chance(1, 2);
        }
        let mut lay = Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        let got = obs::read(&text);
        count_obsolete(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    // the marker decides by itself: the same catalogue with and without it
    ctx.stream("marked and unmarked", ctx.n(20_000, 400_000), |c| {
        let mut cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 4), long: 0, obsolete: false, ..Cfg::default() });
        let mut lay = Layout::plain();
        let live = cat.text(&mut lay);
        for e in &mut cat.entries {
            e.obsolete = true;
        }
        let old = cat.text(&mut lay);
        c.input(&old);
        let (a, b) = (obs::read(&live), obs::read(&old));
        count_obsolete(c, &b);
        same(c, &b, &cat.expect(), mask);
        let mut b2 = b.clone();
        for u in &mut b2.units {
            c.check(u.obsolete, || "an obsolete entry was reported as live".into());
            u.obsolete = false;
        }
        same(c, &b2, &a, ALL);
    });
    // an entry is obsolete as a whole: an entry whose lines are marked only in part is refused
    let lines = [
        "msgctxt \"c\"", "msgid \"i\"", "\"j\"", "msgid_plural \"p\"", "msgstr[0] \"a\"", "msgstr[1] \"b\"", "\"d\"", // and in front
        "| msgctxt \"pc\"", "| \"pd\"", "| msgid \"pi\"", "| \"pj\"", "| msgid_plural \"pp\"", "| \"pq\"",
    ];
    ctx.exhaustive("partly marked entries", 1 << 13, |c| {
        let marks = c.idx;
        let mut t = String::from("msgid \"first\"\nmsgstr \"f\"\n\n");
        for i in (7..13).chain(0..7) {
            match (marks >> i & 1 == 1, i > 6) {
                (true, true) => t.push_str("#~"),
                (false, true) => t.push('#'),
                (true, false) => t.push_str("#~ "),
                (false, false) => (),
            }
            t.push_str(lines[i]);
            t.push('\n');
        }
        t.push_str("\nmsgid \"last\"\nmsgstr \"l\"\n");
        c.input(t.as_bytes());
        let got = obs::read(t.as_bytes());
        tally(c, &got);
        let want = refm::read(t.as_bytes());
        let whole = marks == 0 || marks == 0x1fff;
        c.check(want.obs.clean() == whole, || "the reference disagrees with the rule".into());
        same_ref(c, &got, &want, mask);
    });
    sequences(
        ctx,
        "line sequences",
        &["msgid \"a\"", "msgstr \"b\"", "#~ msgid \"c\"", "#~ msgstr \"d\"", "#~ msgctxt \"e\"", "#~| msgid \"f\"", "#| msgid \"g\"", "#~ \"h\"", "\"i\"", "#~", "# j"],
        if ctx.thorough() { 6 } else { 5 },
        "",
        "",
        mask & !END,
    );
    damaged(ctx, "damaged catalogues", ctx.n(40_000, 1_000_000), mask & !END);
    ctx.require("obsolete units", 10_000);
    ctx.require("live units", 10_000);
}

fn count_obsolete(c: &mut Case, o: &Obs) {
    let n = o.units.iter().filter(|u| u.obsolete).count() as u64;
    c.count("obsolete units", n);
    c.count("live units", o.units.len() as u64 - n);
}

fn c06(ctx: &'static Ctx) {
    let mask = PREV | IDS | TEXT | FORMS | END;
    far_down(ctx, mask);
    near_twins(ctx, ctx.n(6_000, 150_000), mask);
    let variants = [
        Str::plain("old"),
        Str::plain(""),
        Str { segs: vec!["".into(), "o\\n".into(), "l\\\"d".into()], value: "o\nl\"d".into() },
    ];
    // previous context, id, plural (absent or one of three spellings) × obsolete × context × body, two in a row
    let bases = [4, 4, 4, 2, 2, 2, 3, 2];
    ctx.exhaustive("sets of previous fields", product(&bases), |c| {
        let d = digits(c.idx, &bases);
        let f = |k: usize| (k > 0).then(|| variants[k - 1].clone());
        let mut e = simple("new", "t");
        e.prev = Prev { context: f(d[0]), id: f(d[1]), plural: if d[1] > 0 { f(d[2]) } else { None } };
        if d[1] == 0 && d[2] > 0 {
            c.trivial();
            return;
        }
        e.obsolete = d[3] == 1;
        e.context = (d[4] == 1).then(|| Str::plain("ctx"));
        if d[5] == 1 {
            e.body = Body::Plural(Str::plain("pl"), vec![Str::plain("a"), Str::plain("b")]);
        }
        match d[6] {
            1 => e.notes = vec![Note::Flags(vec!["fuzzy".into()])],
            2 => e.notes = vec![Note::Custom('|', "no field".into()), Note::Translator("x".into())],
            _ => (),
        }
        let mut e2 = e.clone();
        e2.id = Str::plain("second");
        e2.prev = Prev { context: e.prev.id.clone(), id: e.prev.context.clone(), plural: None };
        let mut cat = Catalogue {
            header: (d[7] == 1).then(|| header_of(2, "n>1")),
            entries: vec![e.clone(), simple("plain", "t"), e2, e, simple("last", "")],
        };
        cat.entries[3].id = Str::plain("third");
        let text = cat.text(&mut Layout { tight: c.idx % 2 == 0, ..Layout::plain() });
        c.input(&text);
        let got = obs::read(&text);
        count_prev(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    ctx.stream("catalogues", ctx.n(50_000, 1_500_000), |c| {
        let mut cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 5), ..Cfg::default() });
        let cfg = Cfg::default();
        for e in &mut cat.entries {
            if c.rng.chance(1, 2) {
                e.prev.id = Some(gen::string(&mut c.rng, &cfg));
                e.prev.context = c.rng.chance(1, 2).then(|| gen::string(&mut c.rng, &cfg));
                e.prev.plural = c.rng.chance(1, 2).then(|| gen::string(&mut c.rng, &cfg));
            }
        }
        let mut lay = Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        let got = obs::read(&text);
        count_prev(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    // previous data never changes the rest of the unit
    ctx.stream("with and without", ctx.n(20_000, 400_000), |c| {
        let mut cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 4), long: 0, ..Cfg::default() });
        let cfg = Cfg { long: 0, ..Cfg::default() };
        for e in &mut cat.entries {
            e.prev = Prev::default();
        }
        let bare = cat.text(&mut Layout::plain());
        for e in &mut cat.entries {
            e.prev = Prev {
                context: c.rng.chance(1, 2).then(|| gen::string(&mut c.rng, &cfg)),
                id: Some(gen::string(&mut c.rng, &cfg)),
                plural: c.rng.chance(1, 2).then(|| gen::string(&mut c.rng, &cfg)),
            };
        }
        let full = cat.text(&mut Layout::plain());
        c.input(&full);
        let (a, b) = (obs::read(&bare), obs::read(&full));
        count_prev(c, &b);
        same(c, &b, &cat.expect(), mask);
        same(c, &b, &a, ALL & !PREV);
    });
    sequences(
        ctx,
        "line sequences",
        &["#| msgid \"a\"", "#| msgctxt \"b\"", "#| msgid_plural \"c\"", "#| \"d\"", "msgid \"e\"", "msgstr \"f\"", "msgctxt \"g\"", "#~| msgid \"h\"", "#~ msgid \"i\"", "#~ msgstr \"j\"", "#| x"],
        if ctx.thorough() { 6 } else { 5 },
        "",
        "",
        PREV | IDS,
    );
    damaged(ctx, "damaged catalogues", ctx.n(40_000, 1_000_000), PREV);
    ctx.require("units with previous data", 10_000);
}

fn count_prev(c: &mut Case, o: &Obs) {
    let n = o.units.iter().filter(|u| u.prev_context.is_some() || u.prev != MsgObs::default()).count() as u64;
    c.count("units with previous data", n);
    c.count("units without previous data", o.units.len() as u64 - n);
}
