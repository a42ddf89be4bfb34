//! C13–C17: hostile inputs and failing sources.
use super::{units::FILLERS, *};
use crate::{
    alloc, ctx,
    checks::units::{damaged, header_of, sequences, simple},
    gen::{self, Catalogue, Cfg, Layout},
    obs::{self, ErrObs},
    refm,
    rng::{hash_bytes, Rng},
    stress::{steps, Chunks, Faulty, How, Pausing, Rng2, Source, Step, Tag},
};
use poreader::error::Error;
use std::{cell::Cell, io::ErrorKind, rc::Rc};

pub fn checks() -> Vec<(Meta, Check)> {
    vec![
        (
            Meta {
                id: "C13",
                level: "exploration",
                rule: "random bytes, token soup, damaged catalogues, every short byte string over the significant bytes, \
                       one strange character in every place, and oversized inputs; every accessor and formatter is called \
                       on what comes out; monitors: panics (overflow checks on), aborts, stack overflow on a 2 MiB stack, \
                       CPU time per case, allocation budget, more units than bytes (distinct by input bytes)",
                assumptions: &[],
            },
            c13,
        ),
        (
            Meta {
                id: "C14",
                level: "exploration",
                rule: "damaged catalogues, every kind of damage at every line, refused headers and failing sources; a trace \
                       monitor accepts only unit* (error | nothing) nothing*, with the units being those of the reference \
                       (distinct by input bytes)",
                assumptions: &[],
            },
            c14,
        ),
        (
            Meta {
                id: "C15",
                level: "exploration",
                rule: "every sequence of up to 5 (thorough: 6) lines over three alphabets of fields, and structural damage of \
                       each known kind at random places of random catalogues; the monitor compares acceptance and the kind \
                       of the error with the reference reader (non-trivial: every case; distinct by input bytes)",
                assumptions: &["an entry cut off by the end of the input is a recorded finding and is only probed"],
            },
            c15,
        ),
        (
            Meta {
                id: "C16",
                level: "exploration",
                rule: "damaged catalogues in every layout, every kind of damage at every line, and damage after up to a \
                       million lines; the monitor compares line, unexpected and expected token with the position of the \
                       damage (non-trivial: an error had to be reported; distinct by input bytes)",
                assumptions: &["an unreadable line is reported one line too far (recorded finding): both numbers are accepted for it"],
            },
            c16,
        ),
        (
            Meta {
                id: "C17",
                level: "fault_enumeration",
                rule: "a read failure of each of 12 kinds at every byte offset of random catalogues, invalid UTF-8 at every \
                       offset, interrupted reads everywhere; the monitor compares units, error, line, cause and the trace \
                       after the failure with the reference for a stream that breaks there (distinct by input, offset and kind)",
                assumptions: &["complete lines before the failure are read, the broken one is not"],
            },
            c17,
        ),
    ]
}

const SOUP: &[&[u8]] = &[
    b"msgid", b"msgstr", b"msgctxt", b"msgid_plural", b"msgstr[", b"msgstr[0]", b"msgstr[1]", b"[", b"]", b"\"", b"\"\"", b"\\", b"\\n", b"\\\"", b"#", b"#~", b"#|", b"#~|",
    b"#,", b"#:", b"#.", b"# ", b" ", b"\t", b"\n", b"\r\n", b"\r", b"a", b"fuzzy", b",", b":", b"Plural-Forms:", b"nplurals=", b"plural=", b"n", b"0", b"1", b"9223372036854775807",
    b"18446744073709551615", b";", b"?", b"(", b")", b"-", b"!", b"%", b"/", b"*", b"||", b"Language: ", b"en", b"_", b"@", b"\xc3\xa9", b"\xff", b"\xc3", b"\0", b"\xef\xbb\xbf",
    b"\xe2\x80\xa8", b"\xf0\x9d\x94\x98", b"\xc5\xbf", b"msgid \"\"\nmsgstr \"\"\n", b"\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n", b"msgid \"a\"\nmsgstr \"b\"\n",
];

/// Read an input that may be anything, using everything that comes out of it.
fn survive(c: &mut Case, input: &[u8]) {
    c.input(input);
    alloc::arm(64 * (1 << 20) + 20_000 * input.len() as u64);
    let before = alloc::measure();
    let mut uses = 0u64;
    let o = obs::with_parser(|p| {
        obs::drive(p, input, input.len() + 16, |u| {
            // anything a user may ask of a unit
            let copy = u.clone();
            let _ = (u.message() == copy.message(), u.is_translated(), u.is_obsolete(), u.context(), u.prev_context());
            for m in [u.message(), u.prev_message()] {
                let _ = (m.is_simple(), m.is_plural(), m.is_blank(), m.get_id(), m.get_text(), m.get_plural_id());
                for n in [0usize, 1, 2, 3, 11, 101, i64::MAX as usize, i64::MAX as usize + 1, usize::MAX] {
                    let _ = m.get_plural_text(n);
                }
                if let Some(p) = m.plural() {
                    let _ = (p.first(), p.is_blank(), p.values().len());
                    if let Some(f) = p.get_forms() {
                        for n in [0usize, 1, 5, usize::MAX] {
                            let v = f.get_value(n);
                            if v.is_some_and(|v| v >= f.get_count()) {
                                ctx::violation("an index beyond nplurals");
                            }
                        }
                    }
                }
            }
            if input.len() < 4096 {
                let _ = format!("{u:?}");
            }
            uses += 1;
        })
    });
    let used = before.used();
    alloc::disarm();
    c.count("units used", uses);
    c.count("bytes read", input.len() as u64);
    tally(c, &o);
    match &o.end {
        End::Panic(p) => c.fail(format!("panic {p}")),
        End::Runaway => c.fail(format!("{} units out of {} bytes", o.units.len(), input.len())),
        _ => (),
    }
    c.check(used.peak >= 0, || "harness".into());
    // errors can be shown
    let e = obs::with_parser(|p| match p.parse(input) {
        Err(e) => Some(e),
        Ok(r) => r.filter_map(|x| x.err()).next(),
    });
    if let Some(e) = e {
        let text = format!("{e} {e:?}");
        c.check(!text.trim().is_empty(), || "an error without text".into());
        let io: std::io::Error = e.into();
        let _ = io.to_string();
    }
}

fn c13(ctx: &'static Ctx) {
    let bytes: &[u8] = b"\"\\#~|,n \nms\xc3\xa9\r";
    let k = bytes.len() as u64;
    let max = if ctx.thorough() { 6 } else { 5 };
    ctx.exhaustive("every short byte string", words(k, max), |c| {
        let v: Vec<u8> = word(c.idx, k, max).iter().map(|i| bytes[*i]).collect();
        survive(c, &v);
    });
    ctx.stream("random bytes", ctx.n(20_000, 400_000), |c| {
        let n = if c.rng.chance(1, 50) { c.rng.below(50_000) } else { c.rng.below(200) };
        let v: Vec<u8> = (0..n).map(|_| if c.rng.chance(1, 6) { b'\n' } else { c.rng.next() as u8 }).collect();
        survive(c, &v);
    });
    ctx.stream("token soup", ctx.n(60_000, 1_500_000), |c| {
        let mut v = vec![];
        let n = if c.rng.chance(1, 100) { c.rng.below(2000) } else { c.rng.below(40) };
        for _ in 0..n {
            v.extend_from_slice(c.rng.pick(SOUP));
        }
        survive(c, &v);
    });
    ctx.stream("soup in a header", ctx.n(60_000, 1_500_000), |c| {
        let mut t = String::from("msgid \"\"\nmsgstr \"");
        t.push_str(c.rng.pick(&["Plural-Forms: ", "Plural-Forms: nplurals=2; plural=", "Language: ", "", "Plural-Forms: nplurals="]));
        let n = if c.rng.chance(1, 100) { c.rng.below(3000) } else { c.rng.below(14) };
        for _ in 0..n {
            let w = c.rng.pick(SOUP);
            if let Ok(s) = std::str::from_utf8(w) {
                t.push_str(&s.replace('"', "\\\"").replace('\n', ""));
            }
        }
        t.push_str(c.rng.pick(&[";\\n\"\n", "\"\n", ";\"\n", "\\n\"\n"]));
        t.push_str("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"d\"\n");
        survive(c, t.as_bytes());
    });
    ctx.stream("damaged catalogues", ctx.n(60_000, 1_500_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (0, 5), ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let mut v = cat.text(&mut lay);
        for _ in 0..c.rng.below(4) {
            v = gen::mutate(&mut c.rng, &v);
        }
        survive(c, &v);
    });
    // one strange character in every place of a catalogue
    let base = "# t\n#. d\n#: l:1 m:2\n#, fuzzy, c\n#| msgctxt \"p\"\nmsgctxt \"c\"\nmsgid \"i\"\n\"j\\n\"\nmsgid_plural \"k\"\nmsgstr[0] \"l\"\nmsgstr[1] \"\"\n\n#~ msgid \"m\"\n#~ msgstr \"n\"\n";
    let head = "msgid \"\"\nmsgstr \"Language: en_US@quot\\n\"\n\"Plural-Forms: nplurals=2; plural=n%10==1?0:1;\\n\"\n\n";
    let whole = format!("{head}{base}");
    let chars: Vec<char> = "\u{0}\u{7f}\u{80}\u{85}\u{a0}é\u{130}\u{131}\u{149}\u{17f}\u{1c5}\u{301}\u{660}\u{1e9e}\u{200b}\u{2028}\u{212a}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{1d518}\u{10ffff}\"\\#\r\n;=(?9-".chars().collect();
    let len = whole.len() as u64 + 1;
    ctx.exhaustive("one character in every place", len * chars.len() as u64 * 2, |c| {
        let at = (c.idx % len) as usize;
        let k = (c.idx / len) as usize;
        let mut v = whole.as_bytes().to_vec();
        let mut b = [0u8; 4];
        let s = chars[k / 2].encode_utf8(&mut b).as_bytes().to_vec();
        if k % 2 == 0 {
            v.splice(at..at, s);
        } else if at < v.len() {
            v.splice(at..at + 1, s);
        }
        survive(c, &v);
    });
    // sizes
    let sizes = [1usize << 12, 1 << 16, 1 << 18, 1 << 20, if ctx.thorough() { 1 << 23 } else { 1 << 21 }];
    ctx.run("oversized", (sizes.len() * 14) as u64, true, 300_000, |c| {
        let n = sizes[c.idx as usize / 14];
        let v: Vec<u8> = match c.idx % 14 {
            0 => vec![b'\n'; n],
            1 => vec![b'"'; n],
            2 => vec![b'#'; n],
            3 => vec![b' '; n],
            4 => [b"msgid \"".to_vec(), vec![b'\\'; n], b"\"\nmsgstr \"x\"\n".to_vec()].concat(),
            5 => [b"msgid \"".to_vec(), "é".repeat(n / 2).into_bytes(), b"\"\nmsgstr \"x\"\n".to_vec()].concat(),
            6 => [b"msgid \"a\"\nmsgstr \"\"\n".to_vec(), b"\"b\"\n".repeat(n / 4)].concat(),
            7 => [b"#, ".to_vec(), b"a,".repeat(n / 2), b"\n#: ".to_vec(), b"l ".repeat(n / 2), b"\nmsgid \"a\"\nmsgstr \"b\"\n".to_vec()].concat(),
            8 => b"# c\n".repeat(n / 4),
            9 => b"msgid \"a\"\nmsgstr \"b\"\n".repeat(n / 22 + 1),
            10 => [b"msgid \"\"\nmsgstr \"".to_vec(), b"K: v\\n".repeat(n / 6), b"\"\n".to_vec()].concat(),
            11 => [b"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=18446744073709551615; plural=n;\\n\"\nmsgid \"a\"\nmsgid_plural \"b\"\n".to_vec(), (0..n / 20).flat_map(|i| format!("msgstr[{i}] \"v\"\n").into_bytes()).collect()].concat(),
            12 => [b"msgid \"\"\nmsgstr \"Plural-Forms: ".to_vec(), b"a=b; ".repeat(n / 5), b"\\n\"\n".to_vec()].concat(),
            _ => [b"msgid \"\"\nmsgstr \"Language: ".to_vec(), b"a-".repeat(n / 2), b"b\\n\"\n".to_vec()].concat(),
        };
        survive(c, &v);
    });
    // and with the stack a thread has by default
    ctx.stream("default stack", ctx.n(400, 8_000), |c| {
        let mut v = vec![];
        let n = c.rng.below(3000);
        let w = c.rng.pick(SOUP).to_vec();
        let w2 = c.rng.pick(SOUP).to_vec();
        let pre: &[u8] = if c.rng.chance(1, 2) { b"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=" } else { b"" };
        v.extend_from_slice(pre);
        for _ in 0..n {
            v.extend_from_slice(&w);
            v.extend_from_slice(&w2);
        }
        if !pre.is_empty() {
            v.extend_from_slice(b";\\n\"\nmsgid \"a\"\nmsgstr \"b\"\n");
        }
        c.input(&v);
        let o = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, || {
                    let p = poreader::PoParser::new();
                    obs::drive(&p, &v[..], v.len() + 16, |_| ())
                })
                .unwrap()
                .join()
        });
        match o {
            Ok(o) => {
                tally(c, &o);
                if let End::Panic(p) = o.end {
                    c.fail(format!("panic {p}"));
                }
            }
            Err(_) => c.fail("the thread died"),
        }
    });
    ctx.require("bytes read", 1_000_000);
    ctx.require("units used", 10_000);
}

/// The shape every reading must have, and the units it must have.
fn judge_trace(c: &mut Case, refused: bool, v: &[Step], want: &refm::Ref) {
    let mut units = vec![];
    let mut errors = 0u64;
    let mut over = false;
    for s in v {
        match s {
            Step::Panic(p) => c.fail(format!("panic {p}")),
            Step::Unit(u) => {
                c.check(!over, || format!("a unit after the end: {u:?}"));
                units.push((**u).clone());
            }
            Step::Err(e) => {
                c.check(!over, || format!("an error after the end: {e:?}"));
                errors += 1;
                over = true;
            }
            Step::None => over = true,
        }
    }
    c.count("steps observed", v.len() as u64);
    c.count("errors observed", errors);
    c.check(refused || matches!(v.last(), Some(Step::None)), || "the iterator did not end".into());
    let got = Obs {
        refused,
        header: HeaderObs::default(),
        units,
        end: v.iter().find_map(|s| if let Step::Err(e) = s { Some(End::Err(e.clone())) } else { None }).unwrap_or(End::Clean),
    };
    same_ref(c, &got, want, IDS | TEXT | OBSOLETE | END);
}

/// Ways to make a line unacceptable, wherever it stands.
const BAD: &[&str] = &[
    "garbage", "msgid", "msgid x", "msgid \"x", "msgid x\"", "\"", "msgid \"x\" y", "MSGID \"x\"", "domain \"x\"", "msgstr[00] \"x\"", "msgstr[-1] \"x\"", "msgstr[1 \"x\"", "msgstr[] \"x\"",
    "msgstr[ 1] \"x\"", "\u{feff}msgid \"x\"", "msgid: \"x\"", "msg id \"x\"", "~ msgid \"x\"", "; comment", "'x'", "msgid_plurals \"x\"", "msgctx \"x\"", "/* */", "0", "|", "~", "msgid_plural[0] \"x\"",
    "msgid[0] \"x\"", "msgstr [0] \"x\"", "msgidx \"\"", "é",
];

fn c14(ctx: &'static Ctx) {
    // a small catalogue, broken at every line in every way, whole afterwards
    let mut cat = Catalogue { header: Some(header_of(2, "n>1")), entries: vec![] };
    for i in 0..5 {
        let mut e = simple(&format!("id{i}"), &format!("t{i}"));
        if i == 1 {
            e.body = gen::Body::Plural(gen::Str::plain("p"), vec![gen::Str::plain("a"), gen::Str::plain("b")]);
        }
        if i == 2 {
            e.obsolete = true;
        }
        if i == 3 {
            e.notes = vec![gen::Note::Translator("n".into())];
        }
        cat.entries.push(e);
    }
    let base = String::from_utf8(cat.text(&mut Layout::plain())).unwrap();
    let lines: Vec<&str> = base.lines().collect();
    let mut inserts: Vec<String> = BAD.iter().map(|s| s.to_string()).collect();
    inserts.extend(gen::LINES.iter().map(|s| s.to_string()));
    let places = lines.len() + 1;
    ctx.exhaustive("every damage at every line", (places * inserts.len() * 2) as u64, |c| {
        let d = digits(c.idx, &[places, inserts.len(), 2]);
        let mut v: Vec<&str> = lines.clone();
        if d[2] == 0 {
            v.insert(d[0], &inserts[d[1]]);
        } else if d[0] < v.len() {
            v[d[0]] = &inserts[d[1]];
        }
        let t = v.join("\n") + "\n";
        c.input(t.as_bytes());
        let want = refm::read(t.as_bytes());
        let (refused, s) = obs::with_parser(|p| steps(p, t.as_bytes(), t.len(), 6, |_| ()));
        judge_trace(c, refused, &s, &want);
    });
    ctx.stream("damaged catalogues", ctx.n(60_000, 1_500_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 8), long: 0, ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let mut t = cat.text(&mut lay);
        match c.rng.below(3) {
            0 => t = gen::mutate(&mut c.rng, &t),
            1 => {
                // one bad line, the rest is good
                let mut l: Vec<Vec<u8>> = t.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                let at = c.rng.below(l.len());
                l.insert(at, c.rng.pick(BAD).as_bytes().to_vec());
                t = l.join(&b'\n');
            }
            _ => {
                // several
                let mut l: Vec<Vec<u8>> = t.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                for _ in 0..3 {
                    let at = c.rng.below(l.len() + 1);
                    l.insert(at, c.rng.pick(BAD).as_bytes().to_vec());
                }
                t = l.join(&b'\n');
            }
        }
        c.input(&t);
        let want = refm::read(&t);
        let (refused, s) = obs::with_parser(|p| steps(p, &t[..], t.len(), 12, |_| ()));
        judge_trace(c, refused, &s, &want);
    });
    // and very far away, behind lines of every kind
    let sizes = super::units::far_sizes(ctx);
    let tails = [
        "msgid \"open\"\ngarbage\n", "msgid \"\"\nmsgstr \"x\"\n", "msgstr \"x\"\n", "# c\nmsgid \"x\"\nmsgid_plural \"y\"\nmsgstr \"z\"\n", "msgid \"x\"\n# c\nmsgstr \"y\"\n",
        "#~ msgid \"x\"\nmsgstr \"y\"\n", "msgid \"x\"\n", "# only a comment\n",
    ];
    ctx.run("damage very far away", (sizes.len() * FILLERS * tails.len() * 2) as u64, true, 60_000, |c| {
        let d = digits(c.idx, &[sizes.len(), FILLERS, tails.len(), 2]);
        let head = Catalogue { header: None, entries: [vec![simple("first", "x")], super::units::filler(d[1], sizes[d[0]])].concat() };
        let mut t = head.text(&mut Layout::plain());
        if d[1] == 0 {
            t.extend("\n".repeat(sizes[d[0]]).bytes());
        }
        t.extend(tails[d[2]].bytes());
        if d[3] == 1 {
            t.extend("\nmsgid \"after\"\nmsgstr \"t\"\n\ngarbage\n\nmsgid \"after2\"\nmsgstr \"t\"\n".bytes());
        }
        c.note(format!("damage {d:?} behind {} lines", sizes[d[0]]));
        let want = refm::read(&t);
        let (refused, s) = obs::with_parser(|p| steps(p, &t[..], t.len(), 6, |_| ()));
        judge_trace(c, refused, &s, &want);
    });
    // the entries before the damage are all delivered, one by one
    ctx.stream("damage far away", ctx.n(3_000, 60_000), |c| {
        let n = c.rng.range(1, 200);
        let mut t = String::new();
        for i in 0..n {
            t.push_str(&format!("msgid \"i{i}\"\nmsgstr \"t{i}\"\n\n"));
        }
        let how = c.rng.below(4);
        t.push_str(match how {
            0 => "msgid \"open\"\ngarbage\n",
            1 => "msgid \"\"\nmsgstr \"x\"\n",
            2 => "msgstr \"x\"\n",
            _ => "# c\nmsgid \"x\"\nmsgid_plural \"y\"\nmsgstr \"z\"\n",
        });
        for i in 0..c.rng.below(20) {
            t.push_str(&format!("msgid \"after{i}\"\nmsgstr \"t{i}\"\n\n"));
        }
        c.input(t.as_bytes());
        let want = refm::read(t.as_bytes());
        assert_eq!(want.obs.units.len(), n);
        let (refused, s) = obs::with_parser(|p| steps(p, t.as_bytes(), t.len(), 6, |_| ()));
        judge_trace(c, refused, &s, &want);
    });
    // a source that fails once and then goes on
    ctx.stream("failing sources", ctx.n(30_000, 600_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (0, 6), long: 0, ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let t = cat.text(&mut lay);
        let at = c.rng.below(t.len() + 1);
        c.input(&t);
        c.note(format!("failure at {at}"));
        let failed = Rc::new(Cell::new(false));
        let f = Faulty {
            how: How::Payload,
            src: Source::new(&t, Chunks::Fixed(c.rng.range(1, 64))),
            at,
            kind: ErrorKind::Other,
            tag: 1,
            failed: failed.clone(),
            after: Rc::default(),
        };
        let want = refm::read_broken(&t[..at], |line| ErrObs::Io { line, kind: ErrorKind::Other, msg: String::new() });
        let (refused, s) = obs::with_parser(|p| steps(p, f, t.len(), 12, |_| ()));
        if !failed.get() {
            // the reader stopped earlier
            c.trivial();
        }
        judge_trace(c, refused, &s, &want);
    });
    // a source that reports its end more than once: whatever the reader takes for the end is the end
    ctx.stream("sources that end more than once", ctx.n(20_000, 400_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (0, 6), long: 0, ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let mut t = cat.text(&mut lay);
        if c.rng.chance(1, 3) {
            t = gen::mutate(&mut c.rng, &t);
        }
        let mut ends: Vec<usize> = (0..c.rng.range(1, 4)).map(|_| c.rng.below(t.len() + 1)).collect();
        ends.sort();
        c.input(&t);
        c.note(format!("ends at {ends:?}"));
        let cap = t.len();
        let src = Pausing { src: Source::new(&t, Chunks::Fixed(c.rng.range(1, 64))), ends };
        let (_, s) = obs::with_parser(|p| steps(p, src, cap, 12, |_| ()));
        let mut over = false;
        for st in &s {
            match st {
                Step::Panic(m) => c.fail(format!("panic: {m}")),
                Step::Unit(u) if over => c.fail(format!("a unit after the end or an error: {u:?}")),
                Step::Err(e) if over => c.fail(format!("an error after the end or another error: {e:?}")),
                Step::Unit(_) => (),
                Step::Err(_) | Step::None => over = true,
            }
        }
        c.check(over, || "no end".into());
        c.count("steps observed", s.len() as u64);
    });
    ctx.require("errors observed", 20_000);
}

/// Structural damage of one known kind. Returns the damaged lines, or None when the catalogue has no place for it.
fn structural(rng: &mut Rng, groups: &[Vec<String>], has_header: bool, kind: usize) -> Option<Vec<Vec<String>>> {
    let mut g = groups.to_vec();
    let first = has_header as usize;
    if g.len() <= first {
        return None;
    }
    let i = rng.range(first, g.len() - 1);
    let is_field = |l: &str, t: &str| {
        let s = l.trim_start().trim_start_matches("#~").trim_start();
        !s.starts_with('|') && !s.starts_with('#') && s.starts_with(t) && !s[t.len()..].starts_with('_') && !s[t.len()..].starts_with(|c: char| c.is_alphabetic())
    };
    let at = |g: &[String], t: &str| g.iter().position(|l| is_field(l, t));
    // [a, b): the lines of a field
    let span = |g: &[String], a: usize| {
        let mut b = a + 1;
        while b < g.len() && (g[b].trim_start().starts_with('"') || (g[b].trim_start().starts_with("#~") && g[b].trim_start()[2..].trim_start().starts_with('"')))
        {
            b += 1;
        }
        (a, b)
    };
    let old = g[i].iter().any(|l| is_field(l, "msgid") && l.trim_start().starts_with("#~"));
    let p = if old { "#~ " } else { "" };
    let id = at(&g[i], "msgid")?;
    let st = at(&g[i], "msgstr");
    let pl = at(&g[i], "msgid_plural");
    if st.is_some_and(|s| s <= id) {
        // a comment that looks like a field
        return None;
    }
    match kind {
        0 => {
            let (a, b) = span(&g[i], id);
            g[i].drain(a..b);
        }
        1 => {
            // no translation at all, something follows
            let a = st?;
            g[i].truncate(a);
            if i + 1 == g.len() {
                g.push(vec!["msgid \"next\"".into(), "msgstr \"n\"".into()]);
            }
        }
        2 => {
            let (a, b) = span(&g[i], st?);
            let f: Vec<String> = g[i].drain(a..b).collect();
            g[i].splice(id..id, f);
        }
        3 => {
            let a = at(&g[i], "msgctxt")?;
            let (a, b) = span(&g[i], a);
            let f: Vec<String> = g[i].drain(a..b).collect();
            let id = at(&g[i], "msgid")?;
            let (_, e) = span(&g[i], id);
            g[i].splice(e..e, f);
        }
        4 => {
            // a field twice
            let t = *rng.pick(&["msgctxt", "msgid", "msgid_plural", "msgstr"]);
            let a = at(&g[i], t)?;
            let (a, b) = span(&g[i], a);
            let f: Vec<String> = g[i][a..b].to_vec();
            g[i].splice(b..b, f);
        }
        5 => {
            // a comment in the middle
            let a = st?;
            let a = rng.range(id + 1, a);
            g[i].insert(a, rng.pick(&["# c", "#. d", "#: l", "#, fuzzy", "#= x", "#"]).to_string());
        }
        6 => {
            let (a, b) = span(&g[i], id);
            if !has_header && i == 0 {
                return None;
            }
            g[i].splice(a..b, [format!("{p}msgid \"\"")]);
        }
        7 => {
            // the plural is gone, its variants are not
            let (a, b) = span(&g[i], pl?);
            g[i].drain(a..b);
        }
        8 => {
            // a plural without variants of its own
            if pl.is_some() {
                return None;
            }
            let a = st?;
            g[i].insert(a, format!("{p}msgid_plural \"p\""));
        }
        9 => {
            // the first variant is missing
            pl?;
            let (a, b) = span(&g[i], st?);
            g[i].drain(a..b);
            if !g[i].iter().any(|l| is_field(l, "msgstr")) {
                return None;
            }
        }
        10 => {
            // one variant twice
            pl?;
            let (a, b) = span(&g[i], st?);
            let f: Vec<String> = g[i][a..b].to_vec();
            g[i].extend(f);
        }
        11 => {
            // a variant far out
            pl?;
            g[i].push(format!("{p}msgstr[99] \"z\""));
        }
        12 => {
            // one line of the other kind
            let a = rng.range(id, g[i].len() - 1);
            let l = g[i][a].clone();
            let t = l.trim_start();
            g[i][a] = if old { t.trim_start_matches("#~").trim_start().to_string() } else { format!("#~ {t}") };
            if g[i].len() == 1 {
                return None;
            }
        }
        13 => {
            // previous data after the current
            let q = if old { "#~| " } else { "#| " };
            let a = rng.range(id, st?);
            g[i].insert(a.max(id + 1), format!("{q}msgid \"old\""));
        }
        14 => {
            let q = if old { "#~| " } else { "#| " };
            let l = *rng.pick(&["msgstr \"old\"", "msgstr[0] \"old\"", "\"old\""]);
            let a = at(&g[i], "msgctxt").unwrap_or(id);
            g[i].insert(a, format!("{q}{l}"));
            if l.starts_with('"') && a > 0 {
                return None;
            }
        }
        15 => {
            // an unreadable line anywhere in the entry
            let a = rng.range(id, g[i].len());
            g[i].insert(a, rng.pick(BAD).to_string());
        }
        16 => {
            // a continuation of nothing
            let a = at(&g[i], "msgctxt").unwrap_or(id);
            g[i].splice(0..a, ["# c".to_string(), format!("{p}\"lost\"")]);
        }
        17 => {
            // a continuation of the other kind
            let (_, b) = span(&g[i], st?);
            g[i].insert(b, if old { "\"lost\"".into() } else { "#~ \"lost\"".into() });
        }
        18 => {
            // a plain translation on a plural, and the other way round
            let a = st?;
            let l = g[i][a].clone();
            g[i][a] = if pl.is_some() { l.replacen("msgstr[0]", "msgstr", 1) } else { l.replacen("msgstr", "msgstr[0]", 1) };
        }
        _ => {
            // a second header
            g.insert(i + 1, vec!["msgid \"\"".into(), "msgstr \"Language: xx\\n\"".into()]);
        }
    }
    Some(g)
}

const KINDS: usize = 20;

const STRUCT_LINES: &[&str] = &[
    "msgid \"a\"", "msgid \"\"", "msgid_plural \"b\"", "msgstr \"c\"", "msgstr[0] \"d\"", "msgstr[1] \"e\"", "msgctxt \"f\"", "\"g\"", "# h", "#~ msgid \"i\"", "#~ msgstr \"j\"", "#| msgid \"k\"", "garbage",
];
const OLD_LINES: &[&str] = &[
    "#~ msgid \"a\"", "#~ msgid_plural \"b\"", "#~ msgstr \"c\"", "#~ msgstr[0] \"d\"", "#~ msgstr[1] \"e\"", "#~ msgctxt \"f\"", "#~ \"g\"", "#~| msgid \"k\"", "#~| msgctxt \"k\"", "#~| \"l\"", "#~", "msgid \"x\"", "msgstr \"y\"",
];
const PREV_LINES: &[&str] = &[
    "#| msgid \"a\"", "#| msgid_plural \"b\"", "#| msgctxt \"c\"", "#| msgstr \"d\"", "#| \"e\"", "msgctxt \"f\"", "msgid \"g\"", "msgid_plural \"h\"", "msgstr \"i\"", "msgstr[0] \"j\"", "#, fuzzy", "#|",
];

fn c15(ctx: &'static Ctx) {
    let mask = IDS | END;
    let max = if ctx.thorough() { 6 } else { 5 };
    sequences(ctx, "sequences of fields", STRUCT_LINES, max, "", "", mask);
    sequences(ctx, "sequences of fields after a header", STRUCT_LINES, max - 1, "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n;\\n\"\n\n", "\nmsgid \"z\"\nmsgstr \"z\"\n", mask);
    sequences(ctx, "sequences of obsolete fields", OLD_LINES, max - 1, "", "", mask);
    sequences(ctx, "sequences of previous fields", PREV_LINES, max, "", "", mask);
    // each known kind of damage
    ctx.stream("structural damage", ctx.n(100_000, 2_000_000), |c| {
        let kind = c.idx as usize % KINDS;
        let cfg = Cfg { entries: (1, 5), long: 0, ..Cfg::default() };
        let cat = gen::catalogue(&mut c.rng, &cfg);
        let mut lay = if c.rng.chance(1, 2) { Layout::plain() } else { Layout::random(&mut c.rng) };
        lay.final_newline = true;
        let groups = cat.groups(&mut lay);
        let Some(bad) = structural(&mut c.rng, &groups, cat.header.is_some(), kind) else {
            c.trivial();
            return;
        };
        let t = lay.join(&bad);
        c.input(&t);
        let want = refm::read(&t);
        let got = obs::read(&t);
        tally(c, &got);
        if !want.obs.clean() && !want.cut {
            c.count(KIND_NAMES[kind], 1);
        }
        same_ref(c, &got, &want, mask);
    });
    // and far down
    let sizes = super::units::far_sizes(ctx);
    ctx.run("structural damage far down", (sizes.len() * FILLERS * KINDS) as u64, false, 60_000, |c| {
        let d = digits(c.idx, &[sizes.len(), FILLERS, KINDS]);
        let cfg = Cfg { entries: (2, 5), long: 0, ..Cfg::default() };
        let t = loop {
            let mut cat = gen::catalogue(&mut c.rng, &cfg);
            cat.header = None;
            cat.entries.push(simple("one", "x"));
            let mut lay = Layout::plain();
            let groups = cat.groups(&mut lay);
            let Some(bad) = structural(&mut c.rng, &groups, false, d[2]) else {
                if c.rng.chance(1, 20) {
                    c.trivial();
                    return;
                }
                continue;
            };
            let head = Catalogue { header: None, entries: [vec![simple("first", "x")], super::units::filler(d[1], sizes[d[0]])].concat() };
            let mut t = head.text(&mut lay);
            if d[1] == 0 {
                t.extend("\n".repeat(sizes[d[0]]).bytes());
            }
            t.extend(lay.join(&bad));
            break t;
        };
        c.note(format!("damage of kind {} behind {} lines of kind {}", d[2], sizes[d[0]], d[1]));
        let want = refm::read(&t);
        let got = obs::read(&t);
        tally(c, &got);
        same_ref(c, &got, &want, mask);
        if !want.obs.clean() && !want.cut {
            c.count("refused far down", 1);
        }
        // nothing comes after it
        let (refused, s) = obs::with_parser(|p| steps(p, &t[..], t.len(), 6, |_| ()));
        judge_trace(c, refused, &s, &want);
    });
    // every line that is not of the format, at every place of an entry
    let base = ["msgctxt \"c\"", "msgid \"i\"", "msgid_plural \"p\"", "msgstr[0] \"s\"", "\"t\"", "msgstr[1] \"u\"", "", "msgid \"x\"", "msgstr \"y\""];
    ctx.exhaustive("unreadable lines", (BAD.len() * (base.len() + 1)) as u64, |c| {
        let d = digits(c.idx, &[BAD.len(), base.len() + 1]);
        let mut v: Vec<&str> = base.to_vec();
        v.insert(d[1], BAD[d[0]]);
        let t = v.join("\n") + "\n";
        c.input(t.as_bytes());
        let got = obs::read(t.as_bytes());
        tally(c, &got);
        c.check(got.err().is_some_and(|e| e.class() == "parse"), || format!("an unreadable line gave {:?} and {} units", got.end, got.units.len()));
        c.count("unreadable lines refused", 1);
    });
    // every character in front of, within and behind the parts of a line
    ctx.exhaustive("every character in a line", char_cases(ctx), |c| {
        for ch in chars_of(ctx, c.idx) {
            let lines = [
                format!("{ch}"),
                format!("{ch}msgid \"x\"\nmsgstr \"y\""),
                format!("msgid{ch}\"x\"\nmsgstr \"y\""),
                format!("msgid \"x\"{ch}\nmsgstr \"y\""),
                format!("msgid \"x\"\nmsgstr \"y\"\n{ch}\"z\""),
                format!("msgid \"x\"\nmsgstr \"y\"\n\"z\"{ch}"),
                format!("#{ch}msgid \"x\"\n#{ch}msgstr \"y\""),
                format!("#~{ch}msgid \"x\"\n#~ msgstr{ch}\"y\"\n#~{ch}\"z\""),
                format!("{ch}#~ msgid \"x\"\n{ch}#~ msgstr \"y\"{ch}"),
                format!("#|{ch}msgid \"o\"\nmsgid \"x\"\nmsgstr \"y\"\n{ch}# note"),
                format!("msg{ch}id \"x\"\nmsgstr \"y\""),
                format!("msgid \"x\"\nmsgid_plural \"y\"\nmsgstr[{}0] \"y\"\nmsgstr[1{}] \"z\"", if ch.is_numeric() { ' ' } else { ch }, if ch.is_numeric() { ' ' } else { ch }),
            ];
            for l in lines {
                let t = format!("msgid \"a\"\nmsgstr \"b\"\n# c\n{l}\n\nmsgid \"d\"\nmsgstr \"e\"\n");
                c.input(t.as_bytes());
                let got = obs::read(t.as_bytes());
                tally(c, &got);
                same_ref(c, &got, &refm::read(t.as_bytes()), mask);
            }
        }
    });
    // valid catalogues are not refused
    ctx.stream("valid catalogues", ctx.n(20_000, 500_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg::default());
        let mut lay = Layout::random(&mut c.rng);
        let t = cat.text(&mut lay);
        c.input(&t);
        let got = obs::read(&t);
        tally(c, &got);
        same(c, &got, &cat.expect(), mask);
    });
    // plural entries: the set of variants has to be whole (see C11 for what they answer)
    ctx.exhaustive("sets of variants", 32 * 6, |c| {
        let d = digits(c.idx, &[32, 6]);
        let set: Vec<usize> = (0..5).filter(|i| d[0] >> i & 1 == 1).collect();
        let mut t = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={}; plural=0;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\n", d[1]);
        for i in &set {
            t.push_str(&format!("msgstr[{i}] \"x\"\n"));
        }
        t.push_str("msgid \"z\"\nmsgstr \"\"\n");
        c.input(t.as_bytes());
        let got = obs::read(t.as_bytes());
        tally(c, &got);
        let good = !set.is_empty() && set.len() <= d[1] && set.iter().enumerate().all(|(i, x)| i == *x);
        c.check(got.clean() == good, || format!("variants {set:?} of {}: {:?}", d[1], got.end));
    });
    damaged(ctx, "damaged catalogues", ctx.n(60_000, 1_500_000), mask);
    // recorded finding: an entry cut off by the end of the input
    if ctx.only.is_none() {
        for (key, t) in [
            ("cut-after-msgid", "msgid \"a\"\n"),
            ("cut-after-msgctxt", "msgctxt \"c\"\n"),
            ("cut-after-msgid_plural", "msgid \"a\"\nmsgid_plural \"b\"\n"),
            ("cut-after-previous", "#| msgid \"x\"\n"),
            ("cut-after-msgid-of-the-last", "msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\n"),
        ] {
            let got = obs::read(t.as_bytes());
            if got.err().is_some() {
                continue;
            }
            let what = format!("{t:?} is read without an error ({} units)", got.units.len());
            if got.clean() && got.units.len() == t.contains("msgstr") as usize {
                ctx.known(key, &what);
            } else {
                ctx::violation(&what);
            }
        }
    }
    if ctx.only.is_none() {
        for k in KIND_NAMES {
            ctx.require(k, 50);
        }
    }
}

const KIND_NAMES: [&str; KINDS] = [
    "refused: no msgid",
    "refused: no msgstr",
    "refused: msgstr before msgid",
    "refused: msgctxt after msgid",
    "refused: a field twice",
    "refused: a comment within an entry",
    "refused: empty msgid",
    "refused: variants without plural",
    "refused: plural without variants",
    "refused: first variant missing",
    "refused: a variant twice",
    "refused: a variant out of range",
    "refused: partly obsolete",
    "refused: previous data after current",
    "refused: bad previous data",
    "refused: unreadable line",
    "refused: orphan continuation",
    "refused: continuation of another kind",
    "refused: wrong kind of translation",
    "refused: second header",
];

/// Line and tokens of an error. Returns whether it is the recorded finding.
fn judge_location(c: &mut Case, got: &ErrObs, want: &ErrObs) -> bool {
    match (got, want) {
        (ErrObs::Parse { line: g, got: gt, exp: ge }, ErrObs::Parse { line: w, got: wt, exp: we }) => {
            c.check(gt == wt && ge == we, || format!("reported {got:?}, expected {want:?}"));
            if want.unreadable() {
                c.check(g == w || *g == w + 1, || format!("reported {got:?} for line {w}"));
                return *g == w + 1;
            }
            c.check(g == w, || format!("reported {got:?}, expected {want:?}"));
        }
        _ => c.check(got.class() == want.class() && got.line() == want.line(), || format!("reported {got:?}, expected {want:?}")),
    }
    false
}

fn locate(c: &mut Case, t: &[u8]) {
    let want = refm::read(t);
    let got = obs::read(t);
    tally(c, &got);
    if let End::Panic(p) = &got.end {
        c.fail(format!("panic {p}"));
    }
    if want.cut {
        c.trivial();
        return;
    }
    match (got.err(), want.obs.err()) {
        (Some(g), Some(w)) => {
            c.count("locations compared", 1);
            if judge_location(c, &g.clone(), w) {
                c.count("unreadable lines reported one line too far", 1);
                ctx::ctx().known("unreadable-line-number", "the line number of an unreadable line is one too large");
            }
        }
        (None, None) => c.trivial(),
        (g, w) => c.fail(format!("ended with {g:?}, expected {w:?}")),
    }
}

fn c16(ctx: &'static Ctx) {
    ctx.stream("damaged catalogues", ctx.n(80_000, 2_000_000), |c| {
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 6), long: 0, ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let t = cat.text(&mut lay);
        let t = gen::mutate(&mut c.rng, &t);
        c.input(&t);
        locate(c, &t);
    });
    ctx.stream("structural damage", ctx.n(80_000, 2_000_000), |c| {
        let kind = c.idx as usize % KINDS;
        let cat = gen::catalogue(&mut c.rng, &Cfg { entries: (1, 6), long: 0, ..Cfg::default() });
        let mut lay = Layout::random(&mut c.rng);
        let groups = cat.groups(&mut lay);
        let Some(bad) = structural(&mut c.rng, &groups, cat.header.is_some(), kind) else {
            c.trivial();
            return;
        };
        let t = lay.join(&bad);
        c.input(&t);
        locate(c, &t);
    });
    let mut inserts: Vec<&str> = BAD.to_vec();
    inserts.extend(gen::LINES);
    let base = "# c\nmsgid \"\"\nmsgstr \"\"\n\"X: y\\n\"\n\n\nmsgid \"a\"\n\"b\"\n\nmsgstr \"c\"\n\n#| msgid \"o\"\n#, fuzzy\nmsgctxt \"d\"\nmsgid \"e\"\nmsgid_plural \"f\"\nmsgstr[0] \"g\"\n   \nmsgstr[1] \"h\"\n\n#~ msgid \"i\"\n#~ msgstr \"j\"\n\nmsgid \"k\"\nmsgstr \"l\"\n"
        .replace("#| msgid \"o\"\n#, fuzzy\n", "#, fuzzy\n#| msgid \"o\"\n");
    let lines: Vec<&str> = base.lines().collect();
    let places = lines.len() + 1;
    ctx.exhaustive("every damage at every line", (places * inserts.len() * 3) as u64, |c| {
        let d = digits(c.idx, &[places, inserts.len(), 3]);
        let mut v: Vec<&str> = lines.clone();
        match d[2] {
            0 => v.insert(d[0], inserts[d[1]]),
            1 if d[0] < v.len() => v[d[0]] = inserts[d[1]],
            _ => {
                // the second of two lines of damage does not matter
                v.insert(d[0], inserts[d[1]]);
                v.push("garbage");
            }
        }
        let sep = if c.idx % 2 == 0 { "\n" } else { "\r\n" };
        let t = v.join(sep) + sep;
        c.input(t.as_bytes());
        locate(c, t.as_bytes());
    });
    // what ends a line: only a line feed
    let seps = ["\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}", "\r", "\r\r", "\n\r", "\u{1c}", "\u{1e}", "\\n"];
    ctx.exhaustive("line ends", seps.len() as u64 * 8, |c| {
        let d = digits(c.idx, &[seps.len(), 8]);
        let s = seps[d[0]];
        let t = match d[1] {
            0 => format!("# a{s}b\nmsgid \"x\"\nmsgstr \"y\"\ngarbage\n"),
            1 => format!("msgid \"x{s}y\"\nmsgstr \"y\"\n\nmsgstr \"z\"\n"),
            2 => format!("# {s}\n{s}\nmsgid \"x\"\nmsgid \"y\"\n"),
            3 => format!("msgid \"x\"{s}\nmsgstr \"y\"{s}\nmsgstr \"y\"\n"),
            4 => format!("#: a{s}b{s}c\n#, d{s}e\n#. f{s}g\n#~ h{s}i\nbad line\n"),
            5 => format!("gar{s}bage\n"),
            6 => format!("\n\n{s}\n\nmsgid \"\"\nmsgstr \"\"\n\nmsgid \"\"\nmsgstr \"\"\n"),
            _ => format!("msgid \"a\"\nmsgstr \"b\"\n{s}{s}\n#~ msgstr \"c\"\n"),
        };
        c.input(t.as_bytes());
        locate(c, t.as_bytes());
    });
    // what was found is told in full, however long it is
    let lens: Vec<usize> = [0usize, 1, 40, 63, 64, 72, 79, 80, 99, 100, 120, 127, 128, 200, 255, 256, 257, 500, 512, 1000, 1024, 2000, 4095, 4096, 8192, 65_536, 300_000].to_vec();
    let lens: Vec<usize> = lens.iter().copied().chain(crate::dict::near(2, 300_000, &lens)).collect();
    ctx.exhaustive("long unreadable lines", (lens.len() * 6) as u64, |c| {
        let d = digits(c.idx, &[lens.len(), 6]);
        let n = lens[d[0]];
        let l = match d[1] {
            0 => format!("bad{}", "x".repeat(n)),
            1 => format!("msgid \"{}", "word ".repeat(n / 5)),
            2 => format!("é{}", "日".repeat(n / 3)),
            3 => format!("  msgstr x{} end  ", "\t".repeat(n)),
            4 => format!("msgid \"a\"{}b", " ".repeat(n)),
            _ => format!("𝔘\"{}\"‘’", "\"\\".repeat(n / 2)),
        };
        c.note(format!("{} bytes: {}…", l.len(), l.chars().take(20).collect::<String>()));
        let t = format!("msgid \"a\"\nmsgstr \"b\"\n# c\n\n{l}\nmsgid \"d\"\nmsgstr \"e\"\n");
        locate(c, t.as_bytes());
    });
    // long lines of every kind before what cannot be read: each counts as one line
    let damage = ["garbage\n", "msgstr \"z\"\n", "msgid \"q\"\nmsgid \"r\"\n"];
    ctx.exhaustive("damage after long lines", (lens.len() * 10 * damage.len()) as u64, |c| {
        let d = digits(c.idx, &[lens.len(), 10, damage.len()]);
        let n = lens[d[0]];
        let (w, x) = (" ".repeat(n), "x".repeat(n));
        let t = match d[1] {
            0 => format!("{w}\n\n{w}\n"),
            1 => format!("{}\r\n", "\t\u{a0}".repeat(n / 3)),
            2 => format!("# {x}\n#{w}\n"),
            3 => format!("#: {}\n#:{w}\n", "a ".repeat(n / 2)),
            4 => format!("#, {}\n#,{w}\n", "f, ".repeat(n / 3)),
            5 => format!("#| msgid \"{x}\"\n#|{w}\"\"{w}\n"),
            6 => format!("#~ msgid \"{x}\"\n{w}#~{w}msgstr{w}\"{x}\"\n{w}\n"),
            7 => format!("msgid \"{x}\"\n{w}\n\"\"{w}\nmsgstr \"\"{w}\r\n"),
            8 => format!("#. {x}\r\n\r\n{w}\r\n"),
            _ => format!("msgid \"\"\nmsgstr \"X: {x}\\n\"\n\n{w}\n"),
        };
        c.note(format!("damage {d:?} after a line of {n}"));
        let t = t + damage[d[2]];
        locate(c, t.as_bytes());
    });
    // far down
    let offs: Vec<usize> = {
        let mut v = vec![];
        for b in [8u32, 12, 13, 15, 16] {
            v.extend([(1usize << b) - 2, (1 << b) - 1, 1 << b, (1 << b) + 1]);
        }
        v.extend([100_000, 200_000]);
        if ctx.thorough() {
            v.extend([1_000_000, (1 << 20) + 1, 3_000_000]);
        }
        v.extend(crate::dict::near(5, 300_000, &v));
        v
    };
    let tails = ["garbage\n", "msgstr \"z\"\n", "msgid \"\"\nmsgstr \"\"\n", "msgid \"q\"\n# c\nmsgstr \"\"\n", "\u{0}\n", "msgid \"q\"\nmsgid_plural \"r\"\nmsgstr \"\"\n"];
    ctx.exhaustive("far down", (offs.len() * tails.len() * 3) as u64, |c| {
        let d = digits(c.idx, &[offs.len(), tails.len(), 3]);
        let n = offs[d[0]];
        let mut t = String::from("msgid \"first\"\nmsgstr \"\"\n");
        match d[2] {
            0 => t.push_str(&"\n".repeat(n - 2)),
            1 => t.push_str(&"\"x\"\n".repeat(n - 2)),
            _ => {
                t.push_str(&"# c\n".repeat((n - 2) / 3));
                t.push_str(&"\r\n".repeat((n - 2) / 3));
                t.push_str(&"# d\n".repeat(n - 2 - 2 * ((n - 2) / 3)));
            }
        }
        t.push_str(tails[d[1]]);
        c.note(format!("damage {d:?} after {n} lines"));
        locate(c, t.as_bytes());
    });
    ctx.require("locations compared", 50_000);
}

const FAULTS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::NotFound,
    ErrorKind::BrokenPipe,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::Unsupported,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::ResourceBusy,
    ErrorKind::IsADirectory,
    ErrorKind::NotADirectory,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StorageFull,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::NotSeekable,
    ErrorKind::Deadlock,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::ArgumentListTooLong,
];

/// Codes of the operating system (Linux): EIO, EAGAIN, EPIPE, ECONNRESET, ETIMEDOUT, EISDIR, ENOENT, EBADF, ESTALE, ENODATA, no such code.
const CODES: &[i32] = &[5, 11, 32, 104, 110, 21, 2, 9, 116, 61, 99_999];

fn c17(ctx: &'static Ctx) {
    let small = |rng: &mut Rng| {
        let cfg = Cfg { entries: (1, 4), long: 0, ..Cfg::default() };
        loop {
            let cat = gen::catalogue(rng, &cfg);
            let mut lay = Layout::random(rng);
            let t = cat.text(&mut lay);
            if t.len() <= 1500 {
                return t;
            }
        }
    };
    // each case enumerates every offset of one catalogue
    ctx.stream("a failure at every offset", ctx.n(250, 6_000), |c| {
        let t = small(&mut c.rng);
        c.input(&t);
        let chunk = *c.rng.pick(&[1usize, 2, 3, 7, 64, 4096, 100_000]);
        for at in 0..=t.len() {
            let kind = FAULTS[(at + c.idx as usize) % FAULTS.len()];
            let how = match c.rng.below(4) {
                0 => How::Simple,
                1 => How::Os(*c.rng.pick(CODES)),
                _ => How::Payload,
            };
            fault_as(c, &t, at, kind, chunk, 1 + at as u64 + c.idx * 10_000, how);
        }
    });
    ctx.exhaustive("every kind at every offset", FAULTS.len() as u64 * 3, |c| {
        let base: &[u8] = match c.idx % 3 {
            0 => b"# c\nmsgid \"\"\nmsgstr \"Language: fr\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgid_plural \"d\"\nmsgstr[0] \"e\"\nmsgstr[1] \"f\"\n",
            1 => b"msgid \"a\"\r\nmsgstr \"\xc3\xa9\"\r\n\r\n#~ msgid \"c\"\r\n#~ msgstr \"d\"\r\n\r\n#| msgid \"x\"\r\nmsgid \"e\"\r\nmsgstr \"\"\r\n\"f\"\r\n\r\n",
            _ => b"msgid \"a\"\nmsgstr \"b\"\n\n# trailing\n",
        };
        c.input(base);
        for at in 0..=base.len() {
            fault(c, base, at, FAULTS[c.idx as usize / 3], 1 + at % 5, at as u64 + 77);
            fault_as(c, base, at, FAULTS[c.idx as usize / 3], 1 + at % 7, 0, How::Simple);
        }
    });
    ctx.exhaustive("every code of the operating system", CODES.len() as u64, |c| {
        let base = b"# c\nmsgid \"\"\nmsgstr \"Language: fr\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n\n#~ msgid \"c\"\n#~ msgstr \"\"\n#~ \"d\"\n\n";
        c.input(base);
        for at in 0..=base.len() {
            fault_as(c, base, at, ErrorKind::Other, 1 + at % 7, 0, How::Os(CODES[c.idx as usize]));
        }
    });
    // damage before the failure wins, damage after it is never seen
    ctx.stream("failures in damaged input", ctx.n(20_000, 400_000), |c| {
        let t = small(&mut c.rng);
        let t = gen::mutate(&mut c.rng, &t);
        c.input(&t);
        let at = c.rng.below(t.len() + 1);
        let kind = *c.rng.pick(FAULTS);
        let chunk = c.rng.range(1, 200);
        fault(c, &t, at, kind, chunk, c.idx);
    });
    // beyond the buffer
    ctx.stream("failures in long input", ctx.n(400, 8_000), |c| {
        let n = c.rng.range(300, 3000);
        let mut t = String::from("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\n");
        for i in 0..n {
            t.push_str(&format!("#: f:{i}\nmsgid \"é{i}\"\nmsgstr \"t{i}\"\n\n"));
        }
        let near = *c.rng.pick(&[8192usize, 16384, 4096, 24576]);
        let at = if c.rng.chance(1, 2) { near - 3 + c.rng.below(7) } else { c.rng.below(t.len()) };
        let at = at.min(t.len());
        c.input(t.as_bytes());
        let kind = *c.rng.pick(FAULTS);
        let chunk = *c.rng.pick(&[1000usize, 8192, 8191, 100_000, 17]);
        fault(c, t.as_bytes(), at, kind, chunk, c.idx);
    });
    // and behind very many lines, or within a very long one
    let sizes = super::units::far_sizes(ctx);
    ctx.run("failures far down", (sizes.len() * FILLERS * 12) as u64, false, 60_000, |c| {
        let d = digits(c.idx, &[sizes.len(), FILLERS, 3, 4]);
        let head = Catalogue { header: None, entries: [vec![simple("first", "x")], super::units::filler(d[1], sizes[d[0]])].concat() };
        let mut t = head.text(&mut Layout::plain());
        if d[1] == 0 {
            match d[2] {
                0 => t.extend("\n".repeat(sizes[d[0]]).bytes()),
                1 => t.extend(format!("# {}", "x".repeat(sizes[d[0]])).bytes()),
                _ => t.extend(format!("#~ msgid \"a\"\n#~ msgstr \"{}\\n", "x".repeat(sizes[d[0]])).bytes()),
            }
        }
        let from = t.len();
        if d[1] != 0 || d[2] == 0 {
            t.extend("# c\n#| msgid \"o\"\nmsgid \"é\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n\"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n".bytes());
        }
        let at = from + c.rng.below(t.len() - from + 1);
        c.note(format!("failure at {at}, behind {} lines of kind {}", sizes[d[0]], d[1]));
        if d[3] == 3 {
            t.insert(at, *c.rng.pick(b"\xff\x80\xc3\xf5"));
            t.extend(b"\nmsgid \"g\"\nmsgstr \"h\"\n");
            let want = refm::read(&t);
            let (refused, s) = obs::with_parser(|p| steps(p, &t[..], t.len(), 6, |_| ()));
            judge_fault(c, refused, &s, &want, ErrorKind::InvalidData);
        } else {
            let how = [How::Simple, How::Os(5), How::Payload][d[3]];
            let kind = *c.rng.pick(FAULTS);
            let chunk = *c.rng.pick(&[8192usize, 1 << 20, 4096, 997]);
            fault_as(c, &t, at, kind, chunk, 3, how);
        }
    });
    // invalid UTF-8 at every offset is such a failure as well
    ctx.stream("invalid UTF-8 at every offset", ctx.n(100, 2_500), |c| {
        let t = small(&mut c.rng);
        let bad: &[u8] = *c.rng.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xf0\x9f\x92", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5", b"\x80"]);
        for at in 0..=t.len() {
            let mut v = t.clone();
            v.splice(at..at, bad.iter().copied());
            if std::str::from_utf8(&v).is_ok() {
                continue;
            }
            c.input(&v);
            let want = refm::read(&v);
            let mut causes = vec![];
            let (refused, s) = obs::with_parser(|p| {
                steps(p, Source::new(&v, Chunks::Fixed(1 + at % 9)), v.len(), 4, |e| {
                    if let Error::Io(_, e) = e {
                        causes.push(e.kind());
                    }
                })
            });
            judge_fault(c, refused, &s, &want, ErrorKind::InvalidData);
            c.count("invalid encodings injected", 1);
        }
    });
    // interrupted reads are no failures
    ctx.stream("interrupted reads", ctx.n(20_000, 400_000), |c| {
        let t = small(&mut c.rng);
        c.input(&t);
        let mut src = Source::new(&t, Chunks::Random(Rng2(c.rng.clone()), 40));
        src.interrupt = c.rng.range(2, 6);
        src.rng = Rng::new(c.idx);
        let reads = src.reads.clone();
        let got = obs::with_parser(|p| obs::drive(p, src, t.len() + 16, |_| ()));
        c.count("reads, interrupted or not", reads.get());
        let want = obs::read(&t);
        if got != want {
            c.fail(format!("interrupted reads changed the outcome:\n  {got:?}\n  {want:?}"));
        }
        same_ref(c, &got, &refm::read(&t), IDS | TEXT | END);
    });
    ctx.require("failures injected", 50_000);
    ctx.require("invalid encodings injected", 10_000);
}

fn fault(c: &mut Case, t: &[u8], at: usize, kind: ErrorKind, chunk: usize, tag: u64) {
    fault_as(c, t, at, kind, chunk, tag, How::Payload)
}

fn fault_as(c: &mut Case, t: &[u8], at: usize, kind: ErrorKind, chunk: usize, tag: u64, how: How) {
    let kind = if let How::Os(code) = how { std::io::Error::from_raw_os_error(code).kind() } else { kind };
    if kind == ErrorKind::Interrupted {
        return;
    }
    c.note(format!("{kind:?} ({how:?}) at offset {at}, chunks of {chunk}"));
    let failed = Rc::new(Cell::new(false));
    let f = Faulty {
        how,
        src: Source::new(t, Chunks::Fixed(chunk)),
        at,
        kind,
        tag,
        failed: failed.clone(),
        after: Rc::default(),
    };
    let want = refm::read_broken(&t[..at], |line| ErrObs::Io { line, kind, msg: String::new() });
    let mut cause = None;
    let mut code = None;
    let (refused, s) = obs::with_parser(|p| {
        steps(p, f, t.len(), 4, |e| {
            if let Error::Io(_, e) = e {
                cause = e.get_ref().and_then(|x| x.downcast_ref::<Tag>()).map(|t| t.0);
                code = e.raw_os_error();
            }
        })
    });
    c.count("failures injected", 1);
    judge_fault(c, refused, &s, &want, kind);
    if matches!(want.obs.err(), Some(ErrObs::Io { kind: k, .. }) if *k == kind) && failed.get() {
        let utf8 = kind == ErrorKind::InvalidData && std::str::from_utf8(&t[..at]).is_err();
        match how {
            How::Payload => {
                c.check(utf8 || cause == Some(tag), || format!("the cause of the failure is lost: {cause:?}"));
                c.count("causes found again", 1);
            }
            How::Os(n) => {
                c.check(utf8 || code == Some(n), || format!("the code {n} of the operating system is lost: {code:?}"));
                c.count("codes of the operating system found again", 1);
            }
            How::Simple => c.count("failures without a cause", 1),
        }
    }
}

fn judge_fault(c: &mut Case, refused: bool, s: &[Step], want: &refm::Ref, kind: ErrorKind) {
    judge_trace(c, refused, s, want);
    let got = s.iter().find_map(|x| if let Step::Err(e) = x { Some(e) } else { None });
    if let Some(ErrObs::Io { line, kind: wk, .. }) = want.obs.err() {
        match got {
            Some(ErrObs::Io { line: gl, kind: gk, .. }) => {
                c.check(gl == line, || format!("failure reported at line {gl}, it is at line {line}"));
                c.check(gk == wk, || format!("failure of kind {gk:?}, it was {wk:?} ({kind:?})"));
            }
            g => c.fail(format!("the failure was reported as {g:?}")),
        }
    }
    let _ = hash_bytes;
}
