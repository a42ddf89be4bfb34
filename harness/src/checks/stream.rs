//! C18–C22: how the input arrives, how it is laid out, how much of it is taken, who else is reading, and what it costs.
use super::*;
use crate::{
    alloc, ctx, formula,
    checks::units::{header_of, simple},
    gen::{self, Body, Catalogue, Cfg, Layout, Str},
    obs, refm,
    rng::Rng,
    stress::{visit, Chunks, Rng2, Source},
};
use poreader::{unit::Unit, PoParser, PoReader};
use std::{
    borrow::Borrow,
    cell::{Cell, RefCell},
    io::{Read, Result as IoResult},
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering::*},
        Barrier,
    },
    thread,
};

pub fn checks() -> Vec<(Meta, Check)> {
    vec![
        (
            Meta {
                id: "C18",
                level: "exploration",
                rule: "whole and damaged catalogues delivered in chunks of every size, cut at every pair of offsets, cut at \
                       random, and shifted over every buffer boundary; the monitor compares the whole outcome with that of one \
                       single read and with the reference (distinct by input and chunking)",
                assumptions: &[],
            },
            c18,
        ),
        (
            Meta {
                id: "C19",
                level: "exploration",
                rule: "random catalogues written in pairs of random layouts (blank lines, indentation, line ends, trailing \
                       space, order of nothing else), their strings respelled and cut elsewhere, and raw line-level \
                       rewritings of damaged ones; the monitor compares what is read (distinct by both texts)",
                assumptions: &["spaces at the end of a translator's or developer's comment are part of it"],
            },
            c19,
        ),
        (
            Meta {
                id: "C20",
                level: "exploration",
                rule: "metered sources of random catalogues, endless sources, and sources that hand out one line at a time; \
                       the monitor compares the bytes taken when unit k is delivered with the end of entry k+2 (distinct by \
                       input and chunking)",
                assumptions: &["read-ahead of up to 64 KiB (1 MiB for sources that offer everything at once) is buffering"],
            },
            c20,
        ),
        (
            Meta {
                id: "C21",
                level: "exploration",
                rule: "sequences of catalogues through one parser, readers interleaved by random and by all short schedules, \
                       readers dropped midway, and up to 8 threads on one parser with delays injected at reads; every \
                       outcome is compared with that of a parser of its own (distinct by inputs and schedule)",
                assumptions: &["threads share a parser only as long as its type allows it (Sync), which is detected"],
            },
            c21,
        ),
        (
            Meta {
                id: "C22",
                level: "exploration",
                rule: "families of inputs of growing size in every dimension; monitors: bytes and number of allocations per \
                       input byte and their growth, CPU time growth, live heap along long streams, heap after everything is \
                       dropped (distinct by family and size)",
                assumptions: &["bounds are several times what linear behaviour needs; CPU time is confirmed by repetition"],
            },
            c22,
        ),
    ]
}

fn read_in(data: &[u8], chunks: Chunks) -> (Obs, u64) {
    let src = Source::new(data, chunks);
    let reads = src.reads.clone();
    let o = obs::with_parser(|p| obs::drive(p, src, data.len() + 16, |_| ()));
    (o, reads.get())
}

fn chunked(c: &mut Case, data: &[u8], want: &Obs, chunks: Chunks) {
    let how = format!("{chunks:?}");
    let (got, reads) = read_in(data, chunks);
    c.count("chunkings observed", 1);
    c.count("reads observed", reads);
    if got != *want {
        c.note(how.clone());
        c.fail(format!("delivered as {how}:\n  observed {got:?}\n  in one piece {want:?}"));
    }
}

/// A catalogue, whole or damaged.
fn any_text(rng: &mut Rng, cfg: &Cfg) -> Vec<u8> {
    let cat = gen::catalogue(rng, cfg);
    let mut lay = Layout::random(rng);
    let t = cat.text(&mut lay);
    match rng.below(4) {
        0 => gen::mutate(rng, &t),
        _ => t,
    }
}

const RICH: &str = "# né\r\nmsgid \"\"\r\nmsgstr \"Language: fr\\n\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\r\n\n#: a b\n#, c-format, fuzzy\n#| msgid \"o\\\"\\\\ld\"\nmsgctxt \"é𝔘\"\nmsgid \"日本\"\n\"x\"\nmsgid_plural \"k\"\nmsgstr[0] \"l\\n\"\nmsgstr[1] \"\"\n\n#~ msgid \"m\"\r\n#~ msgstr \"é\"";

fn c18(ctx: &'static Ctx) {
    // small catalogues: every chunk size, every single cut, every pair of cuts
    let data = RICH.as_bytes();
    let n = data.len() as u64 + 1;
    ctx.exhaustive("every pair of cuts", n * n, |c| {
        let (a, b) = ((c.idx % n) as usize, (c.idx / n) as usize);
        if a > b {
            c.trivial();
            return;
        }
        c.input(data);
        c.note(format!("cuts {a} {b}"));
        let want = obs::read(data);
        c.check(want.clean() && want.units.len() == 2, || format!("{want:?}"));
        chunked(c, data, &want, Chunks::At(vec![a, b]));
    });
    ctx.stream("every chunk size", ctx.n(500, 40_000), |c| {
        let t = any_text(&mut c.rng, &Cfg { entries: (0, 3), long: 0, ..Cfg::default() });
        c.input(&t);
        let want = obs::read(&t);
        same_ref(c, &want, &refm::read(&t), ALL);
        for k in 1..=t.len().min(120) {
            chunked(c, &t, &want, Chunks::Fixed(k));
        }
    });
    ctx.stream("every cut", ctx.n(150, 15_000), |c| {
        let t = any_text(&mut c.rng, &Cfg { entries: (0, 3), long: 0, ..Cfg::default() });
        c.input(&t);
        let want = obs::read(&t);
        for k in 0..t.len().min(800) {
            chunked(c, &t, &want, Chunks::At(vec![k]));
        }
    });
    ctx.stream("random chunks", ctx.n(2_500, 200_000), |c| {
        let t = any_text(&mut c.rng, &Cfg { entries: (0, 12), long: 30, ..Cfg::default() });
        c.input(&t);
        let want = obs::read(&t);
        for _ in 0..4 {
            let max = *c.rng.pick(&[1usize, 2, 3, 5, 17, 300, 5000, 20_000]);
            let r = Rng2(Rng::new(c.rng.next()));
            chunked(c, &t, &want, Chunks::Random(r, max));
        }
    });
    // everything of the rich catalogue, at every place around the ends of likely buffers
    let shift = data.len() as u64 + 8;
    let bounds = [4096usize, 8192, 16384, 32768, 65536];
    ctx.exhaustive("across buffer ends", shift * bounds.len() as u64 * 2, |c| {
        let b = bounds[(c.idx / 2 / shift) as usize];
        let s = (c.idx / 2 % shift) as usize;
        let pad = b - s;
        // the padding is one comment line, or many blank ones, so that the text starts `s` bytes before the end
        let mut t = if c.idx % 2 == 0 { [b"#! ".to_vec(), vec![b'p'; pad.saturating_sub(4)], b"\n".to_vec()].concat() } else { vec![b'\n'; pad] };
        t.extend_from_slice(data);
        c.input(&t);
        let mut want = obs::read(data);
        if c.idx % 2 == 0 {
            want.header.comments.insert(0, ('!', "p".repeat(pad.saturating_sub(4))));
        }
        let (got, reads) = read_in(&t, Chunks::Whole);
        c.count("chunkings observed", 1);
        c.count("reads observed", reads);
        if got != want {
            c.fail(format!("{s} bytes before offset {b}:\n  observed {got:?}\n  expected {want:?}"));
        }
        let small = c.idx as usize % 97 + 1;
        chunked(c, &t, &want, Chunks::Fixed(small * 100));
    });
    ctx.require("chunkings observed", 100_000);
}

/// The same strings, escaped and cut differently.
fn respell(rng: &mut Rng, s: &Str) -> Str {
    let esc = gen::escape(&s.value);
    let chars: Vec<char> = esc.chars().collect();
    let mut segs = vec![String::new()];
    if rng.chance(1, 3) {
        segs.push(String::new());
    }
    let mut i = 0;
    while i < chars.len() {
        let n = if chars[i] == '\\' { 2 } else { 1 };
        let last = segs.last_mut().unwrap();
        last.extend(&chars[i..(i + n).min(chars.len())]);
        i += n;
        if rng.chance(1, 8) {
            segs.push(String::new());
        }
    }
    if rng.chance(1, 4) {
        segs.push(String::new());
    }
    Str { segs, value: s.value.clone() }
}

fn respell_all(rng: &mut Rng, cat: &Catalogue) -> Catalogue {
    let mut cat = cat.clone();
    if let Some(h) = &mut cat.header {
        h.text = respell(rng, &h.text);
    }
    for e in &mut cat.entries {
        e.id = respell(rng, &e.id);
        for s in [&mut e.context, &mut e.prev.context, &mut e.prev.id, &mut e.prev.plural].into_iter().flatten() {
            *s = respell(rng, s);
        }
        match &mut e.body {
            Body::Simple(t) => *t = respell(rng, t),
            Body::Plural(p, v) => {
                *p = respell(rng, p);
                for s in v {
                    *s = respell(rng, s);
                }
            }
        }
    }
    cat
}

/// Nothing of `e` that depends on where the lines stand.
fn placeless(mut o: Obs) -> Obs {
    if let End::Err(e) = &mut o.end {
        match e {
            obs::ErrObs::Parse { line, .. } | obs::ErrObs::Unexpected { line, .. } | obs::ErrObs::Io { line, .. } => *line = 0,
            _ => (),
        }
    }
    o
}

fn c19(ctx: &'static Ctx) {
    ctx.stream("two layouts", ctx.n(14_000, 1_000_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { long: 60, ..Cfg::default() });
        let a = cat.text(&mut Layout::plain());
        let mut lay = Layout::random(&mut c.rng);
        let b = cat.text(&mut lay);
        c.input(&[&a[..], b"\n-----\n", &b].concat());
        let (x, y) = (obs::read(&a), obs::read(&b));
        c.count("pairs compared", 1);
        c.count("units compared", x.units.len() as u64);
        if a != b {
            c.count("pairs of different texts", 1);
        }
        c.check(x.clean(), || format!("not readable: {:?}", x.end));
        same(c, &y, &x, ALL);
    });
    ctx.stream("strings respelled", ctx.n(10_000, 800_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { long: 60, ..Cfg::default() });
        let a = cat.text(&mut Layout::plain());
        let cat2 = respell_all(&mut c.rng, &cat);
        let mut lay = if c.rng.chance(1, 2) { Layout::plain() } else { Layout::random(&mut c.rng) };
        let b = cat2.text(&mut lay);
        c.input(&[&a[..], b"\n-----\n", &b].concat());
        let (x, y) = (obs::read(&a), obs::read(&b));
        c.count("pairs compared", 1);
        c.count("units compared", x.units.len() as u64);
        if a != b {
            c.count("pairs of different texts", 1);
        }
        c.check(x.clean(), || format!("not readable: {:?}", x.end));
        same(c, &y, &x, ALL);
    });
    // raw rewritings that keep every line, of inputs that may be broken
    ctx.stream("lines rewritten", ctx.n(30_000, 800_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { long: 0, ..Cfg::default() });
        let mut a = cat.text(&mut Layout::plain());
        if c.rng.chance(2, 3) {
            a = gen::mutate(&mut c.rng, &a);
        }
        a.retain(|b| *b != b'\r');
        if std::str::from_utf8(&a).is_err() {
            c.trivial();
            return;
        }
        let how = c.rng.below(4);
        let mut b: Vec<u8> = vec![];
        let lines: Vec<&[u8]> = a.split(|b| *b == b'\n').collect();
        for (i, l) in lines.iter().enumerate() {
            let (first, last) = (i == 0, i + 1 == lines.len());
            match how {
                // blank lines anywhere
                0 if c.rng.chance(1, 4) => b.extend_from_slice(c.rng.pick(&[&b"\n"[..], b"\n\n\n", b"  \n", b"\t\r\n", b"\xc2\xa0\n"])),
                // indentation of what is not unreadable
                1 if c.rng.chance(1, 3) => {
                    if matches!(refm::classify(&String::from_utf8_lossy(l)), refm::Cls::Line(_)) {
                        b.extend_from_slice(c.rng.pick(&[&b" "[..], b"\t", b"      ", b"\xe3\x80\x80"]));
                    }
                }
                // fewer blank lines
                2 if l.is_empty() && !last && !first && c.rng.chance(1, 2) => continue,
                _ => (),
            }
            b.extend_from_slice(l);
            if how == 3 && !last {
                b.push(b'\r');
            }
            if !last {
                b.push(b'\n');
            }
        }
        if b == a {
            c.trivial();
        } else {
            c.count("pairs of different texts", 1);
        }
        c.input(&[&a[..], b"\n-----\n", &b].concat());
        let (x, y) = (placeless(obs::read(&a)), placeless(obs::read(&b)));
        c.count("pairs compared", 1);
        c.count("units compared", x.units.len() as u64);
        if x != y {
            c.fail(format!("rewriting {how} of the lines changed what is read:\n  before {x:?}\n  after  {y:?}"));
        }
    });
    ctx.require("pairs of different texts", 20_000);
    ctx.require("units compared", 40_000);
}

/// Hands out whole lines (or everything), counting.
struct Meter<'a> {
    src: Source<'a>,
}

impl Read for Meter<'_> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        self.src.read(b)
    }
}

const AHEAD: usize = 64 << 10;
const AHEAD_WHOLE: usize = 1 << 20;

/// `ends[k]` is the offset of the end of entry k.
fn metered(c: &mut Case, data: &[u8], ends: &[usize], chunks: Chunks) {
    let ahead = if matches!(chunks, Chunks::Whole) { AHEAD_WHOLE } else { AHEAD };
    let src = Source::new(data, chunks);
    let given = src.given.clone();
    let mut k = 0usize;
    let mut worst = 0usize;
    let limit = |k: usize| ends.get(k + 2).copied().unwrap_or(data.len()) + ahead;
    let p = PoParser::new();
    let mut reader = match p.parse(Meter { src }) {
        Ok(r) => r,
        Err(e) => c.fail(format!("refused: {e}")),
    };
    // nothing is delivered yet: at most the header and one more entry
    c.check(given.get() <= limit(0), || format!("parse took {} bytes, entry 2 ends at {:?}", given.get(), ends.get(2)));
    loop {
        match reader.next() {
            Some(Ok(_)) => {
                let g = given.get();
                c.check(g <= limit(k), || {
                    format!("unit {k} was delivered when {g} bytes were taken; two entries later ends at {:?}, the input at {}", ends.get(k + 2), data.len())
                });
                worst = worst.max(g.saturating_sub(ends.get(k).copied().unwrap_or(g)));
                k += 1;
            }
            Some(Err(e)) => c.fail(format!("unit {k}: {e}")),
            None => break,
        }
    }
    c.check(k == ends.len(), || format!("{k} units of {}", ends.len()));
    c.count("deliveries observed", k as u64);
    if data.len() > limit(0) {
        c.count("catalogues longer than the read-ahead", 1);
    }
    let _ = worst;
}

/// An endless catalogue.
struct Endless {
    header: bool,
    n: u64,
    buf: Vec<u8>,
    pos: usize,
    kind: u64,
    step: usize,
    given: Rc<Cell<u64>>,
    entries: Rc<Cell<u64>>,
}

impl Endless {
    fn new(kind: u64, header: bool, step: usize) -> Endless {
        Endless { header, n: 0, buf: vec![], pos: 0, kind, step, given: Rc::default(), entries: Rc::default() }
    }
}

fn endless_entry(kind: u64, n: u64) -> String {
    match kind % ENDLESS {
        0 => format!("msgid \"id{n}\"\nmsgstr \"t{n}\"\n\n"),
        1 => format!("# note {n}\n#: f.c:{n}\n#, c-format\nmsgctxt \"c{n}\"\nmsgid \"id{n}\"\nmsgid_plural \"ids{n}\"\nmsgstr[0] \"a{n}\"\nmsgstr[1] \"b{n}\"\n\n"),
        2 => format!("#~| msgid \"old{n}\"\n#~ msgid \"id{n}\"\n#~ msgstr \"t{n}\"\n\n"),
        3 => format!("#, fuzzy, f{n}\n#| msgctxt \"o\"\n#| msgid \"old{n}\"\nmsgid \"\"\n\"id{n}\"\nmsgstr \"\"\n\"t{n}\\n\"\n\"u\"\n\n"),
        4 => format!("\n\n\n#. d{n}\r\nmsgid \"id{n}\"\r\nmsgstr \"\"\r\n\r\n"),
        5 => format!("#| msgctxt \"pc{n}\"\n#| msgid \"p{n}\"\n#| msgid_plural \"pp{n}\"\nmsgid \"id{n}\"\nmsgid_plural \"ids{n}\"\nmsgstr[0] \"\"\n\n"),
        6 => {
            let long = "long ".repeat(40 + (n % 50) as usize);
            format!("# {long}{n}\n#={long}\n#: {long}\nmsgctxt \"{long}{n}\"\nmsgid \"id{n} {long}\"\nmsgstr \"{long}\"\n\n")
        }
        // any subset of what an entry may have
        _ => {
            let r = crate::rng::mix(n);
            let on = |k: u64| r >> k & 1 == 1;
            let mark = if on(0) { "#~" } else { "" };
            let prev = if on(0) { "#~|" } else { "#|" };
            let mut s = String::new();
            let mut put = |on: bool, l: String| {
                if on {
                    s.push_str(&l);
                    s.push('\n');
                }
            };
            put(on(1), format!("# note {n}"));
            put(on(2), format!("#. note {n}\n#."));
            put(on(3), format!("#: f.c:{n} g.c:{n}"));
            put(on(4), ["#, fuzzy", "#, no-wrap, x", "#,", "#, fuzzy, y"][(r >> 20) as usize % 4].to_string());
            put(on(5), format!("#={n}\n#@ other {n}"));
            put(on(6), format!("{prev} msgctxt \"pc{n}\""));
            put(on(7), format!("{prev} msgid \"p{n}\"\n{prev} \"more\""));
            put(on(7) && on(8), format!("{prev} msgid_plural \"pp{n}\""));
            put(on(9), format!("{mark} msgctxt \"c{n}\""));
            put(true, format!("{mark} msgid \"id{n}\"\n{mark} \"\\n{n}\""));
            if on(10) {
                put(true, format!("{mark} msgid_plural \"ids{n}\""));
                put(true, format!("{mark} msgstr[0] \"{}\"", if on(11) { "a" } else { "" }));
                put(on(12), format!("{mark} msgstr[1] \"{}\"", if on(13) { "b" } else { "" }));
            } else {
                put(true, format!("{mark} msgstr \"{}\"", if on(11) { "a\\tb" } else { "" }));
            }
            put(on(14), String::new());
            s + "\n"
        }
    }
}

/// Kinds of `endless_entry`.
const ENDLESS: u64 = 8;

impl Read for Endless {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        if self.pos == self.buf.len() {
            self.pos = 0;
            self.buf.clear();
            if std::mem::take(&mut self.header) {
                self.buf.extend_from_slice(b"msgid \"\"\nmsgstr \"Language: fr\\n\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\n");
            }
            while self.buf.len() < self.step {
                self.buf.extend_from_slice(endless_entry(self.kind, self.n).as_bytes());
                self.n += 1;
            }
            self.entries.set(self.n);
        }
        let n = b.len().min(self.buf.len() - self.pos);
        b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
        self.pos += n;
        self.given.set(self.given.get() + n as u64);
        Ok(n)
    }
}

/// Sum of what an endless source may give in a case before the case is declared lost.
struct Fuse<R: Read> {
    inner: R,
    left: u64,
}

impl<R: Read> Read for Fuse<R> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        let n = self.inner.read(b)?;
        if n as u64 > self.left {
            ctx::violation("the reader takes an endless source without delivering what was asked of it");
        }
        self.left -= n as u64;
        Ok(n)
    }
}

fn c20(ctx: &'static Ctx) {
    ctx.stream("metered catalogues", ctx.n(400, 30_000), |c| {
        let cfg = Cfg { entries: (10, 60), long: 100, ..Cfg::default() };
        let mut cat = gen::catalogue(&mut c.rng, &cfg);
        // enough entries to exceed any buffer
        let copies = if c.rng.chance(1, 6) { 60 } else { 4 };
        let base = cat.entries.clone();
        for _ in 0..copies {
            cat.entries.extend(base.iter().cloned());
        }
        let mut lay = Layout::random(&mut c.rng);
        let groups = cat.groups(&mut lay);
        let mut data: Vec<u8> = vec![];
        let mut ends = vec![];
        for g in &groups {
            for l in g {
                data.extend_from_slice(l.as_bytes());
                data.push(b'\n');
            }
            data.push(b'\n');
            ends.push(data.len());
        }
        let all = ends.clone();
        if cat.header.is_some() {
            ends.remove(0);
        }
        c.input(&data);
        let how = match c.rng.below(4) {
            0 => Chunks::At(all),
            1 => Chunks::Fixed(c.rng.range(1, 500)),
            2 => Chunks::Random(Rng2(Rng::new(c.rng.next())), 4000),
            _ => Chunks::Fixed(8192),
        };
        c.note(format!("{} entries, {}", ends.len(), if let Chunks::At(_) = how { "one entry per read".into() } else { format!("{how:?}") }));
        metered(c, &data, &ends, how);
    });
    ctx.stream("large catalogues", ctx.n(8, 120), |c| {
        let mut data: Vec<u8> = vec![];
        let mut ends = vec![];
        for i in 0..60_000u64 {
            data.extend_from_slice(endless_entry(c.idx, i).as_bytes());
            ends.push(data.len());
        }
        c.note(format!("{} bytes of entries of kind {}", data.len(), c.idx % ENDLESS));
        let how = if c.idx % 2 == 0 { Chunks::Whole } else { Chunks::Fixed(4096) };
        metered(c, &data, &ends, how);
    });
    ctx.stream("endless catalogues", ctx.n(300, 5_000), |c| {
        let want = *c.rng.pick(&[0usize, 1, 2, 3, 10, 100, 3000]);
        let kind = c.rng.next();
        let header = c.rng.chance(1, 2);
        let step = *c.rng.pick(&[1usize, 1, 100, 5000, 100_000]);
        c.note(format!("{want} units of an endless source of kind {}, header {header}, {step} bytes at a time", kind % ENDLESS));
        let src = Endless::new(kind, header, step);
        let (given, entries) = (src.given.clone(), src.entries.clone());
        let per = 4000 * (want as u64 + 4);
        let fuse = Fuse { inner: src, left: per + (2 << 20) };
        let p = PoParser::new();
        let mut r = match p.parse(fuse) {
            Ok(r) => r,
            Err(e) => c.fail(format!("{e}")),
        };
        for k in 0..want {
            match r.next() {
                Some(Ok(u)) => {
                    let id = format!("id{k}");
                    let got = u.message().get_id();
                    let same = got.strip_prefix(id.as_str()).is_some_and(|rest| !rest.starts_with(|x: char| x.is_ascii_digit()));
                    c.check(same, || format!("unit {k} is {:?}", u.message().get_id()));
                }
                x => c.fail(format!("unit {k}: {x:?}")),
            }
            if step == 1 {
                let e = entries.get();
                c.check(e as usize <= k + 3 + AHEAD / 30, || format!("{e} entries taken when unit {k} was delivered"));
            }
        }
        c.count("deliveries observed", want as u64);
        c.count("endless sources left behind", 1);
        c.count("bytes taken from endless sources", given.get());
    });
    // what an entry depends on is known once the one after the next begins: a source that then blocks must not matter
    ctx.stream("nothing beyond what is needed", ctx.n(250, 80_000), |c| {
        // entries longer than any buffer: taking one entry more than necessary shows at once
        let n = c.rng.range(4, 9);
        let big = c.rng.range(70_000, 140_000);
        let mut cat = Catalogue::default();
        if c.rng.chance(1, 2) {
            cat.header = Some(header_of(2, "n>1"));
        }
        for i in 0..n {
            let mut e = simple(&format!("id{i}"), "t");
            match c.rng.below(3) {
                0 => e.notes.push(gen::Note::Translator("x".repeat(big))),
                1 => e.body = Body::Simple(Str::plain(&"y".repeat(big))),
                _ => e.id = Str::plain(&format!("id{i}{}", "z".repeat(big))),
            }
            e.obsolete = c.rng.chance(1, 4);
            cat.entries.push(e);
        }
        let groups = cat.groups(&mut Layout::plain());
        let mut data: Vec<u8> = vec![];
        let mut ends = vec![];
        for g in &groups {
            for l in g {
                data.extend_from_slice(l.as_bytes());
                data.push(b'\n');
            }
            data.push(b'\n');
            ends.push(data.len());
        }
        if cat.header.is_some() {
            ends.remove(0);
        }
        c.input(&data);
        let size = c.rng.range(1000, 10_000);
        metered(c, &data, &ends, Chunks::Fixed(size));
    });
    ctx.require("deliveries observed", 100_000);
    ctx.require("catalogues longer than the read-ahead", 100);
    ctx.require("endless sources left behind", 100);
}

// ---- C21

struct Wrap<T>(T);

/// One job: the text, and the seed of its delays (0: none).
type Job = (Vec<u8>, u64);

struct Lazy<'a> {
    src: Source<'a>,
    rng: Rng,
    on: bool,
    spins: &'a AtomicU64,
}

impl Read for Lazy<'_> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        if self.on {
            match self.rng.below(8) {
                0 => thread::yield_now(),
                1 => {
                    for _ in 0..self.rng.below(2000) {
                        std::hint::spin_loop();
                    }
                }
                2 if self.rng.chance(1, 20) => thread::sleep(std::time::Duration::from_micros(self.rng.below(200) as u64)),
                _ => (),
            }
            self.spins.fetch_add(1, Relaxed);
        }
        self.src.read(b)
    }
}

/// A source that itself reads with the parser whenever it is asked for bytes.
struct Busy<'a> {
    src: Source<'a>,
    rng: Rng,
    parser: &'a PoParser,
    texts: &'a [Vec<u8>],
    /// which text, and what reading it gave
    got: &'a RefCell<Vec<(usize, Obs)>>,
    /// a reader that stays open from one call to the next
    open: Option<(usize, PoReader<'a, &'a [u8]>, Obs)>,
    /// a number of calls after which it panics
    panics: Option<usize>,
}

impl Busy<'_> {
    fn close(&mut self) {
        if let Some((k, _, o)) = self.open.take() {
            self.got.borrow_mut().push((k, o));
        }
    }
}

impl Read for Busy<'_> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        match &mut self.panics {
            // without the hook, which would take it for a panic of the library
            Some(0) => std::panic::resume_unwind(Box::new("the source gives up")),
            Some(n) => *n -= 1,
            None => (),
        }
        let k = self.rng.below(self.texts.len());
        match self.rng.below(6) {
            0 => {
                let o = obs::drive(self.parser, &self.texts[k][..], self.texts[k].len() + 16, |_| ());
                self.got.borrow_mut().push((k, o));
            }
            1 if self.open.is_none() => {
                let mut o = Obs { refused: false, header: HeaderObs::default(), units: vec![], end: End::Clean };
                match self.parser.parse(&self.texts[k][..]) {
                    Ok(r) => {
                        o.header = obs::header(&r);
                        self.open = Some((k, r, o));
                    }
                    Err(e) => {
                        o.refused = true;
                        o.end = End::Err(obs::ErrObs::of(&e));
                        self.got.borrow_mut().push((k, o));
                    }
                }
            }
            2 | 3 => {
                if let Some((_, r, o)) = &mut self.open {
                    match r.next() {
                        Some(Ok(u)) => o.units.push(obs::unit(&u)),
                        Some(Err(e)) => {
                            o.end = End::Err(obs::ErrObs::of(&e));
                            self.close();
                        }
                        None => self.close(),
                    }
                }
            }
            _ => (),
        }
        let n = self.src.read(b)?;
        if n == 0 {
            // read the rest of what is open
            while let Some((_, r, o)) = &mut self.open {
                match r.next() {
                    Some(Ok(u)) => o.units.push(obs::unit(&u)),
                    Some(Err(e)) => {
                        o.end = End::Err(obs::ErrObs::of(&e));
                        self.close();
                    }
                    None => self.close(),
                }
            }
        }
        Ok(n)
    }
}

fn job(p: &PoParser, j: &Job, spins: &AtomicU64) -> Obs {
    let mut rng = Rng::new(j.1);
    let chunks = Chunks::Random(Rng2(Rng::new(rng.next())), rng.range(1, 200));
    let src = Lazy { src: Source::new(&j.0, chunks), rng, on: j.1 != 0, spins };
    obs::drive(p, src, j.0.len() + 16, |_| ())
}

trait SharedParser {
    fn together(&self, jobs: &[Vec<Job>], spins: &AtomicU64) -> (bool, Vec<Vec<Obs>>);
}
impl<T: Sync + Borrow<PoParser>> SharedParser for Wrap<T> {
    fn together(&self, jobs: &[Vec<Job>], spins: &AtomicU64) -> (bool, Vec<Vec<Obs>>) {
        let p = &self.0;
        (true, threads(jobs, |v| v.iter().map(|j| job(p.borrow(), j, spins)).collect()))
    }
}
/// The parser cannot be shared between threads any more: one for each.
trait OwnParser {
    fn together(&self, jobs: &[Vec<Job>], spins: &AtomicU64) -> (bool, Vec<Vec<Obs>>);
}
impl<T> OwnParser for &Wrap<T> {
    fn together(&self, jobs: &[Vec<Job>], spins: &AtomicU64) -> (bool, Vec<Vec<Obs>>) {
        (
            false,
            threads(jobs, |v| {
                let p = PoParser::new();
                v.iter().map(|j| job(&p, j, spins)).collect()
            }),
        )
    }
}

fn threads(jobs: &[Vec<Job>], f: impl Fn(&[Job]) -> Vec<Obs> + Sync) -> Vec<Vec<Obs>> {
    let gate = Barrier::new(jobs.len());
    thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|v| {
                let (gate, f) = (&gate, &f);
                s.spawn(move || {
                    gate.wait();
                    f(v)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| crate::ctx::violation("a reading thread panicked"))).collect()
    })
}

/// The outcome with a parser of its own.
fn alone(t: &[u8]) -> Obs {
    let p = PoParser::new();
    obs::drive(&p, t, t.len() + 16, |_| ())
}

fn isolated_text(rng: &mut Rng) -> Vec<u8> {
    match rng.below(12) {
        0 => {
            let n = rng.below(30);
            let broken = match rng.below(4) {
                0 => format!("{}+", "n + ".repeat(n)),
                1 => format!("{}n", "(".repeat(n + 1)),
                2 => format!("{}n ? {n}", "n == 1 ? 0 : ".repeat(n)),
                _ => format!("n{} @", " % 10".repeat(n)),
            };
            format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural={broken};\\n\"\n").into_bytes()
        }
        1 => b"garbage\nmsgid \"a\"\nmsgstr \"b\"\n".to_vec(),
        2 => b"msgid \"a\"\nmsgstr \"b\\\nx\n".to_vec(),
        _ => any_text(rng, &Cfg { entries: (0, 5), long: 0, header: (2, 3), ..Cfg::default() }),
    }
}

/// What the plural messages answer for a few counts.
fn choices(u: &Unit) -> Vec<Option<String>> {
    [0usize, 1, 2, 3, 5, 11, 21, 100, 1_000_003].iter().map(|n| u.message().get_plural_text(*n).map(str::to_string)).collect()
}

/// What it must answer, from the reference reader and evaluator; nothing where the grammars differ.
fn choices_of(m: &obs::MsgObs) -> Option<Vec<Option<String>>> {
    let obs::MsgObs::Plural { values, forms: Some(f), .. } = m else { return None };
    let e = if f.formula.trim().is_empty() { formula::E::N } else { formula::parse(&f.formula)? };
    Some(
        [0i64, 1, 2, 3, 5, 11, 21, 100, 1_000_003]
            .iter()
            .map(|n| usize::try_from(e.eval(*n)).ok().filter(|i| *i < f.count).and_then(|i| values.get(i).cloned()))
            .collect(),
    )
}

fn c21(ctx: &'static Ctx) {
    // catalogues that are nearly the same through one parser, in turn and side by side
    ctx.stream("catalogues nearly the same", ctx.n(2_500, 100_000), |c| {
        let cfg = Cfg { entries: (1, 4), long: 0, header: (7, 8), ..Cfg::default() };
        let cat = gen::catalogue(&mut c.rng, &cfg);
        let mut texts = vec![cat.text(&mut Layout::plain())];
        for _ in 0..c.rng.range(2, 7) {
            let t = c.rng.pick(&texts).clone();
            let t = gen::near_text(&mut c.rng, &t);
            texts.push(t);
        }
        texts.push(texts[0].clone());
        c.input(&texts.join(&b"\n-----\n"[..]));
        let p = PoParser::new();
        for (i, t) in texts.iter().enumerate() {
            let want = refm::read(t);
            let mut said = vec![];
            let got = obs::drive(&p, &t[..], t.len() + 16, |u| said.push(choices(u)));
            c.count("outcomes compared", 1);
            if let Err(e) = diff(&got, &want.obs, want.cut, ALL) {
                c.fail(format!("catalogue {i} of {} nearly the same: {e}", texts.len()));
            }
            for (k, s) in said.iter().enumerate() {
                if let Some(w) = choices_of(&got.units[k].msg) {
                    c.count("choices of a form compared", 1);
                    c.check(*s == w, || format!("catalogue {i}, unit {k} chooses {s:?}, its own forms say {w:?}"));
                }
            }
        }
    });
    ctx.stream("one parser after another", ctx.n(250, 40_000), |c| {
        let texts: Vec<Vec<u8>> = (0..c.rng.range(2, 8)).map(|_| isolated_text(&mut c.rng)).collect();
        c.input(&texts.join(&b"\n-----\n"[..]));
        let p = PoParser::new();
        for (i, t) in texts.iter().enumerate() {
            let want = alone(t);
            let got = obs::drive(&p, &t[..], t.len() + 16, |_| ());
            c.count("outcomes compared", 1);
            if got != want {
                c.fail(format!("catalogue {i} read with a used parser:\n  observed {got:?}\n  alone    {want:?}"));
            }
        }
    });
    // very many of them, however small
    let texts: &[&str] = &[
        "msgid \"a\"\nmsgstr \"b\"\n",
        "\n\n \n\t\n# n\n\n",
        "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n>1;\\nLanguage: fr\\n\"\n\n#, fuzzy\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\\t\"\nmsgstr[1] \"d\"\n",
        "msgid \"a\"\nmsgstr \"b\"\n\ngarbage\n",
        "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=x;\\n\"\n",
        "#~| msgctxt \"x\"\n#~ msgid \"a\"\n#~ \"b\"\n#~ msgstr \"c\"\n",
        "",
    ];
    ctx.run("very many readers of one parser", texts.len() as u64 * 2, true, 120_000, |c| {
        let (t, other) = (texts[c.idx as usize / 2], c.idx % 2 == 1);
        let p = PoParser::new();
        let want = obs::drive(&p, t.as_bytes(), 16, |_| ());
        let firsts: Vec<Obs> = texts.iter().map(|t| alone(t.as_bytes())).collect();
        c.eq("the first of all", &want, &alone(t.as_bytes()));
        let rounds = if t.len() < 40 { ctx.n(70_000, 1_000_000) } else { ctx.n(15_000, 300_000) };
        c.note(format!("{rounds} readers of {t:?}, others between them: {other}"));
        for i in 1..rounds {
            if other && i % 16 == 0 {
                let o = (i / 16) as usize % texts.len();
                c.check(obs::drive(&p, texts[o].as_bytes(), 16, |_| ()) == firsts[o], || format!("{:?} with a parser that was used {i} times", texts[o]));
            }
            let got = obs::drive(&p, t.as_bytes(), 16, |_| ());
            c.check(got == want, || format!("with a parser that was used {i} times:\n  observed {got:?}\n  first    {want:?}"));
        }
        c.count("outcomes compared", rounds);
    });
    // and very many that are open at once
    ctx.run("very many open readers", 4, true, 120_000, |c| {
        let n = [70u64, 300, 3_000, 20_000][c.idx as usize];
        let p = PoParser::new();
        let t = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgid_plural \"d\"\nmsgstr[0] \"e\"\n\nmsgid \"f\"\nmsgstr \"\"\n";
        let want = alone(t.as_bytes());
        let mut v = vec![];
        for i in 0..n {
            match p.parse(t.as_bytes()) {
                Ok(r) => v.push(r),
                Err(e) => c.fail(format!("reader {i}: {e}")),
            }
        }
        let mut got: Vec<Vec<obs::UnitObs>> = vec![vec![]; n as usize];
        for _ in 0..4 {
            for (r, g) in v.iter_mut().zip(&mut got) {
                match r.next() {
                    Some(Ok(u)) => g.push(obs::unit(&u)),
                    Some(Err(e)) => c.fail(format!("{e}")),
                    None => (),
                }
            }
        }
        for (i, g) in got.iter().enumerate() {
            c.check(*g == want.units, || format!("reader {i} of {n}: {g:?}"));
        }
        c.count("outcomes compared", n);
    });
    // readers that advance in turns
    let step = |c: &mut Case, texts: &[Vec<u8>], schedule: &mut dyn FnMut(usize) -> usize, drops: bool| {
        let want: Vec<Obs> = texts.iter().map(|t| alone(t)).collect();
        let p = PoParser::new();
        let mut readers: Vec<Option<PoReader<&[u8]>>> = vec![];
        let mut got: Vec<Obs> = vec![];
        let mut kept: Vec<(Unit, obs::UnitObs)> = vec![];
        for t in texts {
            let mut o = Obs { refused: false, header: HeaderObs::default(), units: vec![], end: End::Clean };
            match p.parse(&t[..]) {
                Ok(r) => {
                    o.header = obs::header(&r);
                    readers.push(Some(r));
                }
                Err(e) => {
                    o.refused = true;
                    o.end = End::Err(obs::ErrObs::of(&e));
                    readers.push(None);
                }
            }
            got.push(o);
        }
        let mut dropped = vec![false; texts.len()];
        let mut live: Vec<usize> = (0..texts.len()).filter(|i| readers[*i].is_some()).collect();
        let mut steps = 0u64;
        while !live.is_empty() {
            let at = schedule(live.len()) % live.len();
            let i = live[at];
            steps += 1;
            if drops && c.rng.chance(1, 12) {
                readers[i] = None;
                dropped[i] = true;
                live.remove(at);
                continue;
            }
            let r = readers[i].as_mut().unwrap();
            let done = match r.next() {
                Some(Ok(u)) => {
                    let o = obs::unit(&u);
                    if steps % 3 == 0 {
                        kept.push((u, o.clone()));
                    }
                    got[i].units.push(o);
                    got[i].units.len() > texts[i].len() + 16
                }
                Some(Err(e)) => {
                    got[i].end = End::Err(obs::ErrObs::of(&e));
                    true
                }
                None => true,
            };
            // the header stays what it was
            let h = obs::header(readers[i].as_ref().unwrap());
            c.check(h == got[i].header, || format!("the header of reader {i} changed: {h:?} from {:?}", got[i].header));
            if done {
                live.remove(at);
            }
        }
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            let w = if dropped[i] {
                let mut w = w.clone();
                w.units.truncate(g.units.len());
                w.end = End::Clean;
                w
            } else {
                w.clone()
            };
            if *g != w {
                c.fail(format!("reader {i} of {} interleaved:\n  observed {g:?}\n  alone    {w:?}", got.len()));
            }
            c.count("outcomes compared", 1);
        }
        for (u, o) in &kept {
            c.check(obs::unit(u) == *o, || format!("a unit changed while others were read: {o:?}"));
        }
        c.count("interleaved steps", steps);
        c.count("units kept while others were read", kept.len() as u64);
    };
    ctx.stream("interleaved readers", ctx.n(400, 60_000), |c| {
        let texts: Vec<Vec<u8>> = (0..c.rng.range(2, 6)).map(|_| isolated_text(&mut c.rng)).collect();
        c.input(&texts.join(&b"\n-----\n"[..]));
        let mut r = Rng::new(c.rng.next());
        let drops = c.rng.chance(1, 2);
        step(c, &texts, &mut |n| r.below(n), drops);
    });
    // texts that are nearly the same in all of the catalogues, against what was written
    ctx.stream("near twins", ctx.n(1_500, 100_000), |c| {
        let n = c.rng.range(2, 5);
        let cats = gen::twins(&mut c.rng, n);
        let texts: Vec<Vec<u8>> = cats.iter().map(|k| k.text(&mut Layout::plain())).collect();
        for (i, (t, k)) in texts.iter().zip(&cats).enumerate() {
            let (got, want) = (alone(t), k.expect());
            if let Err(e) = diff(&got, &want, false, ALL) {
                c.input(t);
                c.fail(format!("catalogue {i}: {e}"));
            }
        }
        c.input(&texts.join(&b"\n-----\n"[..]));
        let mut r = Rng::new(c.rng.next());
        step(c, &texts, &mut |n| r.below(n), false);
    });
    // all schedules of three readers with three steps each
    let cats: Vec<Vec<u8>> = (0..3)
        .map(|k| {
            let mut cat = Catalogue { header: Some(header_of(2 + k, ["n>1", "n%3", "n%4"][k])), entries: vec![] };
            for i in 0..2 {
                let mut e = simple(&format!("id{k}{i}"), &format!("t{k}{i}"));
                if i == 1 {
                    e.body = Body::Plural(Str::plain("p"), (0..2 + k).map(|v| Str::plain(&format!("v{k}{v}"))).collect());
                }
                cat.entries.push(e);
            }
            cat.text(&mut Layout::plain())
        })
        .collect();
    let schedules: Vec<Vec<usize>> = {
        fn go(left: [usize; 3], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if left == [0; 3] {
                out.push(cur.clone());
                return;
            }
            for i in 0..3 {
                if left[i] > 0 {
                    let mut l = left;
                    l[i] -= 1;
                    cur.push(i);
                    go(l, cur, out);
                    cur.pop();
                }
            }
        }
        let mut out = vec![];
        go([3; 3], &mut vec![], &mut out);
        out
    };
    ctx.exhaustive("every schedule of three readers", schedules.len() as u64, |c| {
        let sch = &schedules[c.idx as usize];
        c.input(&cats.concat());
        c.note(format!("{sch:?}"));
        let mut live = vec![3usize; 3];
        let mut at = 0;
        // the schedule names readers; `step` wants the position among the live ones
        step(
            c,
            &cats,
            &mut |_| {
                let who = sch[at];
                at += 1;
                let pos = (0..who).filter(|i| live[*i] > 0).count();
                live[who] -= 1;
                pos
            },
            false,
        );
    });
    // sources that read other catalogues with the same parser while they are read, some of which panic
    ctx.stream("readers within sources", ctx.n(600, 60_000), |c| {
        let texts: Vec<Vec<u8>> = (0..c.rng.range(2, 5)).map(|_| isolated_text(&mut c.rng)).collect();
        c.input(&texts.join(&b"\n-----\n"[..]));
        let want: Vec<Obs> = texts.iter().map(|t| alone(t)).collect();
        let p = PoParser::new();
        let got = RefCell::new(vec![]);
        for (i, t) in texts.iter().enumerate() {
            let mut rng = Rng::new(c.rng.next());
            let size = rng.range(1, 60);
            let panics = rng.chance(1, 4).then(|| rng.below(t.len() / size + 2));
            let chunks = Chunks::Random(Rng2(Rng::new(rng.next())), size);
            let src = Busy { src: Source::new(t, chunks), rng, parser: &p, texts: &texts, got: &got, open: None, panics };
            if panics.is_some() {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if let Ok(r) = p.parse(src) {
                        r.for_each(drop);
                    }
                }));
                c.count("sources that panicked", r.is_err() as u64);
            } else {
                let o = obs::drive(&p, src, t.len() + 16, |_| ());
                got.borrow_mut().push((i, o));
            }
            // and the parser goes on
            let o = obs::drive(&p, &t[..], t.len() + 16, |_| ());
            got.borrow_mut().push((i, o));
        }
        for (k, o) in got.into_inner() {
            c.count("outcomes compared", 1);
            if o != want[k] {
                c.fail(format!("catalogue {k} read within or beside another:\n  observed {o:?}\n  alone    {:?}", want[k]));
            }
        }
    });
    // threads
    let shared = AtomicU64::new(0);
    ctx.run("threads on one parser", ctx.n(40, 3_000), false, 120_000, |c| {
        let n = c.rng.range(2, 8);
        let jobs: Vec<Vec<Job>> = (0..n)
            .map(|_| (0..c.rng.range(2, 8)).map(|_| (isolated_text(&mut c.rng), c.rng.next() | 1)).collect())
            .collect();
        c.input(&jobs.iter().flatten().map(|j| j.0.clone()).collect::<Vec<_>>().join(&b"\n-----\n"[..]));
        let spins = AtomicU64::new(0);
        // a parser nobody used before: its first uses race as well
        let w = Wrap(PoParser::new());
        let (sh, got) = (&w).together(&jobs, &spins);
        if sh {
            shared.fetch_add(1, Relaxed);
        }
        for (i, v) in jobs.iter().enumerate() {
            for (k, j) in v.iter().enumerate() {
                let want = alone(&j.0);
                c.count("outcomes compared", 1);
                if got[i][k] != want {
                    c.fail(format!("thread {i}, catalogue {k}:\n  observed {:?}\n  alone    {want:?}", got[i][k]));
                }
            }
        }
        c.count("threads run", n as u64);
        c.count("delays injected", spins.load(Relaxed));
    });
    ctx.add("rounds with a parser shared between threads", shared.load(Relaxed));
    // plural rules of several catalogues used side by side
    ctx.stream("units of several catalogues", ctx.n(150, 60_000), |c| {
        let mut units = vec![];
        let p = PoParser::new();
        let mut all = vec![];
        for k in 0..c.rng.range(2, 5) {
            let (d, f) = gen::forms(&mut c.rng);
            let n = f.count.min(8);
            let mut t = super::header::po_header(&format!("Plural-Forms: {d}\n"));
            t.push_str("\nmsgid \"s\"\nmsgid_plural \"p\"\n");
            for i in 0..n {
                t.push_str(&format!("msgstr[{i}] \"{k}-{i}\"\n"));
            }
            all.extend_from_slice(t.as_bytes());
            let mut r = match p.parse(t.as_bytes()) {
                Ok(r) => r,
                Err(e) => c.fail(format!("{e}")),
            };
            if n == 0 {
                continue;
            }
            match r.next() {
                Some(Ok(u)) => units.push((t.clone(), u)),
                x => c.fail(format!("{x:?}")),
            }
        }
        c.input(&all);
        for _ in 0..200 {
            if units.is_empty() {
                break;
            }
            let (t, u) = &units[c.rng.below(units.len())];
            let n = c.rng.below(1000);
            let v = u.message().get_plural_text(n).map(str::to_string);
            let fresh = PoParser::new();
            if c.rng.chance(1, 20) {
                let w = fresh.parse(t.as_bytes()).ok().and_then(|mut r| r.next()).and_then(|x| x.ok());
                let w = w.and_then(|u| u.message().get_plural_text(n).map(str::to_string));
                c.eq(&format!("text for {n}"), &v, &w);
                c.count("outcomes compared", 1);
            }
        }
    });
    ctx.require("outcomes compared", 4_000);
    ctx.require("interleaved steps", 3_000);
}

// ---- C22

struct Family {
    name: &'static str,
    make: fn(usize) -> Vec<u8>,
    /// units expected
    units: fn(usize) -> usize,
}

const FAMILIES: &[Family] = &[
    Family { name: "many simple entries", make: |n| (0..n).flat_map(|i| endless_entry(0, i as u64).into_bytes()).collect(), units: |n| n },
    Family {
        name: "many plural entries",
        make: |n| {
            let mut v = b"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\n".to_vec();
            v.extend((0..n).flat_map(|i| endless_entry(1, i as u64).into_bytes()));
            v
        },
        units: |n| n,
    },
    Family { name: "many obsolete entries", make: |n| (0..n).flat_map(|i| endless_entry(2, i as u64).into_bytes()).collect(), units: |n| n },
    Family { name: "many fuzzy entries", make: |n| (0..n).flat_map(|i| endless_entry(3, i as u64).into_bytes()).collect(), units: |n| n },
    Family { name: "one long line", make: |n| format!("msgid \"a\"\nmsgstr \"{}\"\n", "word ".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "one long line of escapes", make: |n| format!("msgid \"a\"\nmsgstr \"{}\"\n", "\\n\\\\x".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "one long line of quotes", make: |n| format!("msgid \"a\"\nmsgstr \"{}\"\n", "\\\"x".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "one long line beyond ASCII", make: |n| format!("msgid \"a\"\nmsgstr \"{}\"\n", "é日𝔘".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "a long id", make: |n| format!("msgid \"{}\"\nmsgstr \"b\"\n", "word ".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "many continuation lines", make: |n| format!("msgid \"a\"\nmsgstr \"\"\n{}", "\"line\\n\"\n".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "many continuation lines of the id", make: |n| format!("msgid \"\"\n{}msgstr \"x\"\n", "\"line\\n\"\n".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "many comment lines", make: |n| format!("{}msgid \"a\"\nmsgstr \"b\"\n", "# note of some length\n".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "many extracted comments", make: |n| format!("{}msgid \"a\"\nmsgstr \"b\"\n", "#. note\n#= other\n".repeat(n)).into_bytes(), units: |_| 1 },
    Family {
        name: "many locations",
        make: |n| format!("#: {}\nmsgid \"a\"\nmsgstr \"b\"\n", (0..n).map(|i| format!("f.c:{i} ")).collect::<String>()).into_bytes(),
        units: |_| 1,
    },
    Family {
        name: "many location lines",
        make: |n| format!("{}msgid \"a\"\nmsgstr \"b\"\n", (0..n).map(|i| format!("#: f.c:{i}\n")).collect::<String>()).into_bytes(),
        units: |_| 1,
    },
    Family {
        name: "many flags",
        make: |n| format!("#, {}\nmsgid \"a\"\nmsgstr \"b\"\n", (0..n).map(|i| format!("flag{i}, ")).collect::<String>()).into_bytes(),
        units: |_| 1,
    },
    Family {
        name: "many flag lines",
        make: |n| format!("{}msgid \"a\"\nmsgstr \"b\"\n", (0..n).map(|i| format!("#, flag{i}\n")).collect::<String>()).into_bytes(),
        units: |_| 1,
    },
    Family {
        name: "many variants",
        make: |n| {
            let mut s = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={n}; plural=n;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\n");
            for i in 0..n {
                s.push_str(&format!("msgstr[{i}] \"v{i}\"\n"));
            }
            s.into_bytes()
        },
        units: |_| 1,
    },
    Family {
        name: "many header properties",
        make: |n| {
            let mut s = String::from("msgid \"\"\nmsgstr \"\"\n");
            for i in 0..n {
                s.push_str(&format!("\"Key-{i}: value {i}\\n\"\n"));
            }
            s.push_str("\nmsgid \"a\"\nmsgstr \"b\"\n");
            s.into_bytes()
        },
        units: |_| 1,
    },
    Family {
        name: "one repeated header property",
        make: |n| format!("msgid \"\"\nmsgstr \"\"\n{}\nmsgid \"a\"\nmsgstr \"b\"\n", "\"Key: value\\n\"\n".repeat(n)).into_bytes(),
        units: |_| 1,
    },
    Family { name: "many blank lines", make: |n| format!("{}msgid \"a\"\nmsgstr \"b\"\n{}", "\n".repeat(n), "   \r\n".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "long blank lines", make: |n| format!("{}\nmsgid \"a\"\nmsgstr \"b\"\n{}", " ".repeat(n), "\t".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "indented deeply", make: |n| format!("{0}msgid{0}\"a\"{0}\n{0}msgstr{0}\"b\"{0}\n", " ".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "a long comment line", make: |n| format!("# {}\nmsgid \"a\"\nmsgstr \"b\"\n", "word ".repeat(n)).into_bytes(), units: |_| 1 },
    Family { name: "comments after the last entry", make: |n| format!("msgid \"a\"\nmsgstr \"b\"\n{}", "# trailing\n".repeat(n)).into_bytes(), units: |_| 1 },
    Family {
        name: "many previous ids",
        make: |n| format!("#| msgid \"\"\n{}msgid \"a\"\nmsgstr \"b\"\n", "#| \"old\"\n".repeat(n)).into_bytes(),
        units: |_| 1,
    },
    Family {
        name: "a long plural declaration",
        make: |n| format!("msgid \"\"\nmsgstr \"Plural-Forms: {}nplurals=2; plural=n>1;\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n", "k=v; ".repeat(n)).into_bytes(),
        units: |_| 1,
    },
    Family {
        name: "few variants of very many",
        make: |n| {
            let mut s = String::from("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=1000000; plural=n;\\n\"\n\n");
            (0..n).for_each(|i| s.push_str(&endless_entry(5, i as u64)));
            s.into_bytes()
        },
        units: |n| n,
    },
    Family {
        name: "few variants of as many as can be",
        make: |n| {
            let mut s = String::from("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=18446744073709551615; plural=n;\\n\"\n\n");
            (0..n).for_each(|i| s.push_str(&endless_entry(5, i as u64)));
            s.into_bytes()
        },
        units: |n| n,
    },
    Family {
        name: "entries of all kinds",
        make: |n| (0..n).flat_map(|i| endless_entry(if i % 16 == 0 { 6 } else { 7 }, i as u64).into_bytes()).collect(),
        units: |n| n,
    },
    // dimensions that must add up and not multiply
    Family {
        name: "many plural entries under a long declaration",
        make: |n| {
            let mut v = format!("msgid \"\"\nmsgstr \"Plural-Forms: {}nplurals=2; plural=n>1;\\n\"\n\n", "k=v; ".repeat(n)).into_bytes();
            v.extend((0..n).flat_map(|i| endless_entry(1, i as u64).into_bytes()));
            v
        },
        units: |n| n,
    },
    Family {
        name: "many plural entries under a long formula",
        make: |n| {
            let mut v = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n>1{};\\n\"\n\n", "&&n".repeat(n.min(1300))).into_bytes();
            v.extend((0..n).flat_map(|i| endless_entry(1, i as u64).into_bytes()));
            v
        },
        units: |n| n,
    },
    Family {
        name: "many entries under a large header",
        make: |n| {
            let mut s = format!("{}msgid \"\"\nmsgstr \"Language: fr\\n\"\n", "# note\n#= other\n".repeat(n / 2));
            for i in 0..n / 2 {
                s.push_str(&format!("\"Key-{i}: value {i}\\n\"\n"));
            }
            s.push('\n');
            (0..n).for_each(|i| s.push_str(&endless_entry(i as u64, i as u64)));
            s.into_bytes()
        },
        units: |n| n,
    },
    Family {
        name: "many comments, flags and locations behind each other",
        make: |n| {
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("# note {i}\n#, flag{i}\n#: f.c:{i}\n#. more {i}\n#= custom {i}\n"));
            }
            s.push_str("msgid \"a\"\nmsgstr \"b\"\n");
            s.into_bytes()
        },
        units: |_| 1,
    },
    Family {
        name: "a large entry before many small ones",
        make: |n| {
            let mut s = format!("{}#| msgid \"{1}\"\nmsgctxt \"{1}\"\nmsgid \"{1}\"\nmsgstr \"{1}\"\n\n", "# note\n".repeat(n), "x".repeat(n));
            (0..n).for_each(|i| s.push_str(&endless_entry(i as u64, i as u64)));
            s.into_bytes()
        },
        units: |n| n + 1,
    },
    Family {
        name: "entries with many variants each",
        make: |n| {
            let k = (n as f64).sqrt() as usize;
            let mut s = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={k}; plural=n;\\n\"\n\n");
            for i in 0..k {
                s.push_str(&format!("msgid \"a{i}\"\nmsgid_plural \"b\"\n"));
                (0..k).for_each(|j| s.push_str(&format!("msgstr[{j}] \"v{j}\"\n")));
            }
            s.into_bytes()
        },
        units: |n| (n as f64).sqrt() as usize,
    },
];

/// Bytes and count of allocations, peak, CPU ms, units.
fn cost(c: &Case, p: &PoParser, data: &[u8]) -> (u64, u64, i64, u64, usize) {
    let t0 = ctx::my_cpu_ms();
    let m = alloc::measure();
    let mut units = 0;
    let r = visit(p, data, |_| {
        units += 1;
        Ok(())
    });
    let used = m.used();
    if let Err(e) = r {
        c.fail(e);
    }
    (used.bytes, used.count, used.peak, ctx::my_cpu_ms() - t0, units)
}

fn c22(ctx: &'static Ctx) {
    let nf = FAMILIES.len() as u64;
    // allocations grow with the input, no faster: a logical measure, the same on every run
    let top = if ctx.thorough() { 7 } else { 5 };
    ctx.run("allocations by size", nf, true, 400_000, |c| {
        let f = &FAMILIES[c.idx as usize];
        let p = PoParser::new();
        cost(c, &p, &(f.make)(50));
        let mut last: Option<(f64, f64)> = None;
        for k in 0..top {
            let n = 500 << k;
            let data = (f.make)(n);
            c.note(format!("{}: {n} ({} bytes)", f.name, data.len()));
            let (bytes, count, peak, _, units) = cost(c, &p, &data);
            c.check(units == (f.units)(n), || format!("{units} units"));
            let len = data.len() as f64;
            let fixed = 4e6;
            c.check(bytes as f64 <= fixed + 400.0 * len, || format!("{}: {bytes} bytes allocated for {len} bytes of input", f.name));
            c.check(count as f64 <= 50_000.0 + 4.0 * len, || format!("{}: {count} allocations for {len} bytes of input", f.name));
            c.check(peak as f64 <= fixed + 100.0 * len, || format!("{}: {peak} live bytes for {len} bytes of input", f.name));
            // growth per doubling, beyond a constant
            let per = (bytes as f64 / len, count as f64 / len);
            if let Some((b, n)) = last {
                c.check(per.0 <= 1.5 * b + 16.0, || format!("{}: {:.1} bytes allocated per byte of input, {b:.1} at half the size", f.name, per.0));
                c.check(per.1 <= 1.5 * n + 0.05, || format!("{}: {:.3} allocations per byte of input, {n:.3} at half the size", f.name, per.1));
            }
            last = Some(per);
            c.count("sizes measured", 1);
            c.count("bytes read", data.len() as u64);
        }
    });
    // entries read one by one leave nothing behind in the reader
    let total: u64 = ctx.n(60_000, 1_000_000);
    ctx.run("live heap along a stream", 2 * ENDLESS, true, 600_000, |c| {
        let (kind, header) = (c.idx % ENDLESS, c.idx / ENDLESS == 1);
        c.note(format!("{total} entries of kind {kind}, header {header}"));
        let p = PoParser::new();
        let m = alloc::measure();
        let mut r = match p.parse(Endless::new(kind, header, 5000)) {
            Ok(r) => r,
            Err(e) => c.fail(format!("{e}")),
        };
        let mut base = 0;
        for k in 0..total {
            match r.next() {
                Some(Ok(u)) => drop(u),
                x => c.fail(format!("unit {k}: {x:?}")),
            }
            let used = m.used();
            if k == 2_000 {
                base = used.live.max(0);
            }
            if k > 2_000 && k % 1000 == 0 {
                c.check(used.live <= base + (256 << 10), || format!("{} live bytes after {k} units, {base} after 2000", used.live));
            }
            if k % 1000 == 0 {
                c.count("heap samples", 1);
            }
        }
        let used = m.used();
        c.check(used.peak <= 4 << 20, || format!("peak of {} bytes", used.peak));
        drop(r);
    });
    // a large entry gone by is not kept either
    ctx.run("large entries go", 4, true, 300_000, |c| {
        let mut data = vec![];
        for i in 0..40 {
            let e = match c.idx {
                0 => format!("msgid \"a{i}\"\nmsgstr \"{}\"\n\n", "x".repeat(500_000)),
                1 => format!("{}msgid \"a{i}\"\nmsgstr \"b\"\n\n", "# note\n".repeat(60_000)),
                2 => format!("#| msgid \"{}\"\nmsgid \"a{i}\"\nmsgstr \"b\"\n\n", "x".repeat(500_000)),
                _ => format!("msgctxt \"{}\"\nmsgid \"a{i}\"\nmsgstr \"\"\n{}\n", "x".repeat(100_000), "\"cont\"\n".repeat(60_000)),
            };
            data.extend_from_slice(e.as_bytes());
        }
        c.note(format!("{} bytes", data.len()));
        let p = PoParser::new();
        let m = alloc::measure();
        let mut n = 0;
        let r = visit(&p, &data[..], |_| {
            n += 1;
            Ok(())
        });
        c.check(r.is_ok() && n == 40, || format!("{r:?} {n}"));
        let per = data.len() as i64 / 40;
        let used = m.used();
        c.check(used.peak < 4 * (1 << 20) + 60 * per && used.peak < data.len() as i64 * 2, || {
            format!("peak of {} bytes for entries of {per} bytes", used.peak)
        });
        c.count("heap samples", n);
    });
    // nothing stays once reader, units and parser are gone, however the reading ended
    ctx.stream("nothing leaks", ctx.n(300, 6_000), |c| {
        let mut texts: Vec<Vec<u8>> = (0..3).map(|_| isolated_text(&mut c.rng)).collect();
        texts.push((FAMILIES[c.idx as usize % FAMILIES.len()].make)(20));
        c.input(&texts.join(&b"\n-----\n"[..]));
        let keep = PoParser::new();
        let seed = c.rng.next();
        let round = |i: u64| {
            let mut r = Rng::new(seed ^ (i % 7));
            let own = i % 16 == 0;
            let fresh = if own { Some(PoParser::new()) } else { None };
            let p = fresh.as_ref().unwrap_or(&keep);
            for t in &texts {
                let chunks = Chunks::Fixed(r.range(1, 400));
                let stop = if r.chance(1, 3) { r.below(3) } else { usize::MAX };
                let fail_at = if r.chance(1, 4) { r.below(t.len() + 1) } else { usize::MAX };
                let src = Source::new(t, chunks);
                let f = crate::stress::Faulty {
                    how: crate::stress::How::Payload,
                    src,
                    at: fail_at,
                    kind: std::io::ErrorKind::Other,
                    tag: i,
                    failed: Rc::default(),
                    after: Rc::default(),
                };
                if let Ok(rd) = p.parse(f) {
                    let mut units = vec![];
                    for u in rd.take(stop.min(t.len() + 16)) {
                        units.push(u);
                    }
                    drop(units);
                }
            }
        };
        for i in 0..32 {
            round(i);
        }
        let m = alloc::measure();
        let mut lives = vec![0];
        for i in 32..144 {
            round(i);
            // seven rounds, and all of them have been
            if i % 28 == 3 {
                lives.push(m.used().live);
            }
        }
        let live = *lives.last().unwrap();
        c.check(live < 1024, || format!("{live} bytes stay after 112 rounds of reading"));
        // and however little it is, it does not become more and more
        c.check(lives.windows(2).any(|w| w[1] <= w[0]), || format!("live bytes after every 28 rounds: {lives:?}"));
        c.count("rounds without a leak", 112);
    });
    // time: the ratio between sizes on the thread's own clock, confirmed before it counts
    ctx.run("time by size", nf, true, 600_000, |c| {
        let f = &FAMILIES[c.idx as usize];
        let p = PoParser::new();
        // a size that takes some 40 ms
        let mut n = 1000;
        loop {
            let (.., ms, _) = cost(c, &p, &(f.make)(n));
            // not so large that the memory itself becomes slow
            if ms >= 40 || (f.make)(n).len() >= 2 << 20 {
                break;
            }
            n *= 2;
        }
        c.note(format!("{}: {n} against {}", f.name, 20 * n));
        let (small, large) = ((f.make)(n), (f.make)(20 * n));
        let grow = large.len() as f64 / small.len() as f64;
        let mut seen = vec![];
        for _ in 0..4 {
            let a = cost(c, &p, &small).3.max(20) as f64;
            let b = cost(c, &p, &large).3 as f64;
            seen.push((a, b));
            if seen.len() == 2 && seen.iter().all(|(a, b)| *b > 9.0 * grow * a) {
                break;
            }
            // below 30 ns per byte the time goes into the pages of memory
            if b <= 3.0 * grow * a || b * 1e6 <= 30.0 * large.len() as f64 {
                c.count("time ratios measured", 1);
                return;
            }
        }
        c.fail(format!("{}: ms of CPU time for {} and {} bytes, again and again: {seen:?}", f.name, small.len(), large.len()));
    });
    ctx.require("sizes measured", 100);
    ctx.require("heap samples", 500);
    ctx.require("rounds without a leak", 10_000);
    ctx.require("time ratios measured", nf);
}
