//! C07, C08, C12: the header entry.
use super::*;
use crate::{
    dict,
    formula,
    gen::{self, Catalogue, Cfg, Layout, Note, Str},
    lang,
    obs::{self, ErrObs},
    refm,
    rng::Rng,
};
use poreader::{CatalogueReader, PoParser};

pub fn checks() -> Vec<(Meta, Check)> {
    vec![
        (
            Meta {
                id: "C07",
                level: "exploration",
                rule: "every short header text over a hostile alphabet, every sequence of header comments, random and huge \
                       headers, and catalogues without header; the monitor compares properties, notes and comments after \
                       parse, after every unit and after the end or the error (distinct by input bytes)",
                assumptions: &[],
            },
            c07,
        ),
        (
            Meta {
                id: "C08",
                level: "exploration",
                rule: "every short Language value over an alphabet of tag characters, every combination of RFC 4647 and \
                       POSIX name parts, random and non-ASCII values; the monitor compares the reported tag with an \
                       independent model (non-trivial: the header has a Language property; distinct by input bytes)",
                assumptions: &["the known POSIX modifiers are those of locale_config 0.3"],
            },
            c08,
        ),
        (
            Meta {
                id: "C12",
                level: "exploration",
                rule: "every formula of up to 5 (thorough: 6) tokens, every value list of up to 6 (thorough: 7) pieces, every kind of nplurals, \
                       mutations of the declarations in use; the monitor compares acceptance, count, formula and \
                       definition with an independent parser of both grammars (distinct by declaration)",
                assumptions: &[
                    "formulas on which C's grammar and the library's narrower one disagree (stacked unary operators, ! under arithmetic) are not judged",
                ],
            },
            c12,
        ),
    ]
}

pub fn po_header(text: &str) -> String {
    format!("msgid \"\"\nmsgstr \"{}\"\n", gen::escape(text))
}

fn c07(ctx: &'static Ctx) {
    super::units::near_twins(ctx, ctx.n(6_000, 150_000), HEADER | IDS);
    let letters = [":", "\n", " ", "a", "Key", "é", "\t", "\r", "X: y", "-"];
    let k = letters.len() as u64;
    let max = if ctx.thorough() { 6 } else { 5 };
    ctx.exhaustive("every header text", words(k, max), |c| {
        let t: String = word(c.idx, k, max).iter().map(|i| letters[*i]).collect();
        let text = po_header(&t) + "\n# n\nmsgid \"a\"\nmsgstr \"b\"\n";
        c.input(text.as_bytes());
        let got = obs::read(text.as_bytes());
        let want = HeaderObs { props: refm::properties(&t), ..HeaderObs::default() };
        c.count("properties observed", got.header.props.len() as u64);
        c.eq("header", &got.header, &want);
        c.check(got.clean() && got.units.len() == 1, || format!("{} units, {:?}", got.units.len(), got.end));
    });
    ctx.stream("random headers", ctx.n(50_000, 1_000_000), |c| {
        let cfg = Cfg { header: (5, 6), entries: (0, 2), long: 0, ..Cfg::default() };
        let cat = gen::catalogue(&mut c.rng, &cfg);
        let mut lay = Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        let got = obs::read(&text);
        c.count("properties observed", got.header.props.len() as u64);
        tally(c, &got);
        let want = cat.expect();
        c.eq("header", &got.header, &want.header);
        c.eq("ids of the units", &ids(&got), &ids(&want));
    });
    // free text
    ctx.stream("header text", ctx.n(40_000, 1_000_000), |c| {
        let mut t = String::new();
        for _ in 0..c.rng.below(12) {
            t.push_str(c.rng.pick(&[
                ":", "\n", " ", "\t", "K", "Key", "Last-Translator", "a b", "é", "\u{a0}", "\r", "::", ": ", "\n\n", "http://x/y", "\\", "\"", "k", ";", "=",
                "Key: v", "Key:", "\nKey: w\n", "X-Language: de", "language: de", "XPlural-Forms: nplurals=1;", "\u{2028}", "\u{85}",
            ]));
        }
        let text = po_header(&t);
        c.input(text.as_bytes());
        let got = obs::read(text.as_bytes());
        c.count("properties observed", got.header.props.len() as u64);
        c.eq("header", &got.header, &HeaderObs { props: refm::properties(&t), ..HeaderObs::default() });
    });
    // every character in every place of a property
    ctx.exhaustive("every character in a header", char_cases(ctx), |c| {
        for ch in chars_of(ctx, c.idx) {
            let t = format!("{ch}Key{ch}: {ch}val{ch}ue{ch}\nB:x{ch}\nC{ch}:\n{ch}: y\n{ch}\n{ch}{ch}Key:{ch}\\n\nD : {ch}x \nD:{ch}");
            let text = po_header(&t) + "\nmsgid \"a\"\nmsgstr \"b\"\n";
            c.input(text.as_bytes());
            let got = obs::read(text.as_bytes());
            c.count("properties observed", got.header.props.len() as u64);
            c.eq("header", &got.header, &HeaderObs { props: refm::properties(&t), ..HeaderObs::default() });
        }
    });
    // what a value may end with
    let ends = ["\\n", "\\", "\"", ";", ":", "-", ",", ".", "'", "\\t", "\\\\", "\0", "\u{200b}", "\u{feff}", "%", ">", ")", "=", "\\\"", "n", "/"];
    ctx.exhaustive("ends of properties", (ends.len() * ends.len() * 3) as u64, |c| {
        let d = digits(c.idx, &[ends.len(), ends.len(), 3]);
        let (a, b) = (ends[d[0]], ends[d[1]]);
        let t = match d[2] {
            0 => format!("{a}Key{b}: {b}value{a}\n{b}K{a}:{a}\nX: {b}{a}\n"),
            1 => format!("K: {a}\nK: {b}\nK: \nK: {a}\n"),
            _ => format!("K{a}: {a}\nK{b}: {b}\n{a}{b}: {b}{a} {a}"),
        };
        let text = po_header(&t) + "\nmsgid \"a\"\nmsgstr \"b\"\n";
        c.input(text.as_bytes());
        let got = obs::read(text.as_bytes());
        c.count("properties observed", got.header.props.len() as u64);
        c.eq("header", &got.header, &HeaderObs { props: refm::properties(&t), ..HeaderObs::default() });
    });
    // header comments stay with the header, those of the first entry with the entry
    let kinds: Vec<(&str, Note)> = vec![
        ("# copyright", Note::Translator("copyright".into())),
        ("#", Note::Translator("".into())),
        ("#. dev", Note::Developer("dev".into())),
        ("#: h.c:1", Note::Locations(vec!["h.c:1".into()])),
        ("#, fuzzy", Note::Flags(vec!["fuzzy".into()])),
        ("#= custom", Note::Custom('=', "custom".into())),
        ("# msgid \"x\"", Note::Translator("msgid \"x\"".into())),
        ("#~ old", Note::Custom('~', "old".into())),
    ];
    let k = kinds.len() as u64;
    let max = if ctx.thorough() { 5 } else { 4 };
    ctx.exhaustive("header comments", words(k, max) * 3, |c| {
        let w = word(c.idx / 3, k, max);
        let mut t = String::new();
        let mut h = super::units::header_of(2, "n>1");
        for i in &w {
            t.push_str(kinds[*i].0);
            t.push('\n');
            h.notes.push(kinds[*i].1.clone());
        }
        t.push_str(&po_header(&h.text.value));
        let mut cat = Catalogue { header: Some(h), entries: vec![] };
        if c.idx % 3 > 0 {
            t.push_str("# own\n#= mine\nmsgid \"a\"\nmsgstr \"b\"\n");
            let mut e = super::units::simple("a", "b");
            e.notes = vec![Note::Translator("own".into()), Note::Custom('=', "mine".into())];
            cat.entries.push(e);
        }
        if c.idx % 3 > 1 {
            t.push_str("msgid \"b\"\nmsgstr \"\"\n");
            cat.entries.push(super::units::simple("b", ""));
        }
        c.input(t.as_bytes());
        let got = obs::read(t.as_bytes());
        tally(c, &got);
        same(c, &got, &cat.expect(), HEADER | NOTES | IDS | END);
    });
    // no header: nothing to report
    ctx.stream("no header", ctx.n(15_000, 300_000), |c| {
        let cfg = Cfg { header: (0, 1), entries: (0, 3), long: 0, ..Cfg::default() };
        let mut cat = gen::catalogue(&mut c.rng, &cfg);
        for e in &mut cat.entries {
            if c.rng.chance(1, 3) {
                e.body = gen::Body::Simple(Str::plain("Language: fr\nPlural-Forms: nplurals=1; plural=0;\nX: y\n"));
            }
        }
        let mut lay = Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        let got = obs::read(&text);
        tally(c, &got);
        c.eq("header of a catalogue without one", &got.header, &HeaderObs::default());
        same(c, &got, &cat.expect(), HEADER | IDS | FORMS | END);
    });
    // the metadata does not move while the units are read
    ctx.stream("stability", ctx.n(15_000, 300_000), |c| {
        let cfg = Cfg { header: (5, 6), entries: (0, 6), long: 0, ..Cfg::default() };
        let mut cat = gen::catalogue(&mut c.rng, &cfg);
        for e in &mut cat.entries {
            if c.rng.chance(1, 4) {
                e.body = gen::Body::Simple(Str::plain("Language: xx\nX-New: y\n"));
            }
        }
        let mut lay = Layout::random(&mut c.rng);
        let mut text = cat.text(&mut lay);
        if c.rng.chance(1, 3) {
            text = gen::mutate(&mut c.rng, &text);
        }
        c.input(&text);
        let want = refm::read(&text);
        let res = obs::with_parser(|p| {
            let mut r = match p.parse(&text[..]) {
                Ok(r) => r,
                Err(_) => return None,
            };
            let first = obs::header(&r);
            let mut n = 0u64;
            for _ in 0..text.len() + 4 {
                let x = r.next();
                let now = obs::header(&r);
                if now != first {
                    return Some(Err(format!("after {n} units the header became {now:?}, it was {first:?}")));
                }
                n += 1;
                match x {
                    Some(Ok(_)) => (),
                    Some(Err(_)) | None => {
                        if n > 2 && x.is_none() {
                            break;
                        }
                    }
                }
            }
            Some(Ok((first, n)))
        });
        match res {
            None => c.check(want.obs.refused, || "parse refused a readable header".into()),
            Some(Err(e)) => c.fail(e),
            Some(Ok((h, n))) => {
                c.count("header looked at between units", n);
                c.check(!want.obs.refused, || "parse accepted what it must refuse".into());
                c.eq("header", &h, &want.obs.header);
            }
        }
    });
    const HUGE: usize = 6;
    ctx.exhaustive("huge headers", (crate::dict::sizes().len() * HUGE) as u64, |c| {
        let (n, kind) = (crate::dict::sizes()[c.idx as usize / HUGE], c.idx as usize % HUGE);
        let mut t = String::new();
        let mut notes = String::new();
        for i in 0..n {
            match kind {
                0 => t.push_str(&format!("K{i}: v{i}\n")),
                1 => t.push_str(&format!("Dup: v{i}\n")),
                2 => t.push_str(&format!("K{}: {}\n", i % 7, "x".repeat(i % 300))),
                3 => t.push_str("no colon here\n"),
                4 => notes.push_str(&format!("# note {i}\n{}", ["#. d\n", "#: a:1\n", "#, no-wrap\n"][i % 3])),
                _ => (),
            }
        }
        if kind == 5 {
            // one of that length
            t = format!("Name: {}\n{}: value\n{}\n", "é".repeat(n), "N".repeat(n), "-".repeat(n));
        }
        t.push_str("Last: one\n");
        let text = notes + &po_header(&t) + "\nmsgid \"a\"\nmsgstr \"b\"\n";
        c.note(format!("{n} of kind {kind}"));
        let got = obs::read(text.as_bytes());
        c.count("properties observed", got.header.props.len() as u64);
        super::same_ref(c, &got, &refm::read(text.as_bytes()), HEADER);
    });
    super::units::damaged(ctx, "damaged catalogues", ctx.n(30_000, 800_000), HEADER);
    ctx.require("properties observed", 100_000);
}

fn ids(o: &Obs) -> Vec<String> {
    o.units.iter().map(|u| u.msg.id().to_string()).collect()
}

fn lang_case(c: &mut Case, l: &str, v: u64) {
    // the value is trimmed and stands somewhere in the header
    let value = l.trim();
    let t = match v % 4 {
        0 => format!("Language: {l}\n"),
        1 => format!("X: y\nLanguage:{l}\nContent-Type: text/plain\n"),
        2 => format!("Language : {l}"),
        _ => format!("Plural-Forms: nplurals=1; plural=0;\n\tLanguage:\t{l} \nZ: Language: xx\n"),
    };
    let text = po_header(&t);
    c.input(text.as_bytes());
    let got = obs::read(text.as_bytes());
    c.count("languages observed", 1);
    c.check(got.clean(), || format!("{:?}", got.end));
    let want = lang::tag(value);
    if !want.is_empty() {
        c.count("languages other than the invariant one", 1);
    }
    c.eq("target language", &got.header.lang, &want);
    c.eq("Language property", &got.header.props.get("Language").map(|s| s.as_str()), &Some(value));
}

fn c08(ctx: &'static Ctx) {
    let letters = ["e", "N", "1", "-", "_", ".", "@", "*", "é"];
    let k = letters.len() as u64;
    let max = if ctx.thorough() { 7 } else { 6 };
    ctx.exhaustive("every short value", words(k, max), |c| {
        let l: String = word(c.idx, k, max).iter().map(|i| letters[*i]).collect();
        lang_case(c, &l, c.idx);
    });
    // parts of RFC 4647 ranges
    let parts: [&[&str]; 5] = [
        &["en", "EN", "eN", "gsw", "*", "i", "x", "abcd", "abcdefgh", "abcdefghi", "e1", ""],
        &["", "-abc", "-ABC-def", "-abc-def-ghi", "-a"],
        &["", "-Latn", "-latn", "-LATN", "-lATn", "-*", "-La1n"],
        &["", "-US", "-us", "-419", "-*", "-u1", "-USA", "-41"],
        &["", "-valencia", "-VALENCIA", "-u-ca-gregory", "-x-Private", "-1901", "-abcdefghi", "-", "-*"],
    ];
    let bases: Vec<usize> = parts.iter().map(|p| p.len()).collect();
    ctx.exhaustive("language ranges", product(&bases), |c| {
        let d = digits(c.idx, &bases);
        let l: String = (0..5).map(|i| parts[i][d[i]]).collect();
        lang_case(c, &l, c.idx);
    });
    // POSIX names
    let parts: [&[&str]; 4] = [
        &["en", "DE", "aa", "ast", "sr", "C", "c", "POSIX", "Posix", "e", "abcd", "é", "e1", ""],
        &["", "_US", "_us", "_419", "_", "_USA", "_u1", "_ER"],
        &["", ".UTF-8", ".utf8", ".ISO-8859-15", ".", ".abcdefghijklmnopqrstu", ".é", ".a_b"],
        &[
            "", "@latin", "@Latin", "@LATN", "@cyrillic", "@cyrl", "@arabic", "@devanagari", "@hebrew", "@iqtelif", "@shaw",
            "@ijekavianlatin", "@ije", "@ijekavian", "@valencia", "@euro", "@EURO", "@saaho", "@quot", "@boldquot", "@cjknarrow",
            "@abcdefgh", "@abcdefghi", "@12345678901234567890", "@123456789012345678901", "@", "@é", "@abcdefgſ", "@a b", "@a-b",
        ],
    ];
    let bases: Vec<usize> = parts.iter().map(|p| p.len()).collect();
    ctx.exhaustive("POSIX names", product(&bases), |c| {
        let d = digits(c.idx, &bases);
        let l: String = (0..4).map(|i| parts[i][d[i]]).collect();
        lang_case(c, &l, c.idx);
    });
    // every language, in several spellings, and every region
    let az = |i: u64| (b'a' + (i % 26) as u8) as char;
    ctx.exhaustive("every language", 26 * 26 * 27, |c| {
        let i = c.idx;
        let l: String = if i < 676 { [az(i / 26), az(i)].iter().collect() } else { [az((i - 676) / 676), az((i - 676) / 26), az(i - 676)].iter().collect() };
        let r = format!("{}{}", az(i / 7), az(i / 3)).to_uppercase();
        let forms: Vec<String> = vec![
            l.clone(),
            format!("{l}_{r}"),
            format!("{l}-{r}"),
            format!("{l}_{r}.UTF8"),
            format!("{l}_{r}.utf-8"),
            format!("{l}@latin"),
            format!("{l}_{r}@cyrillic"),
            format!("{l}_Latn_{r}"),
            format!("{l}-Cyrl-{r}"),
            format!("{l}-Hant"),
            format!("{l}.UTF-8"),
            format!("{l}_Hans_{r}.GB18030"),
            l.to_uppercase(),
        ];
        // all spellings for the codes of two letters, one for each of the others
        let k = i as usize % forms.len();
        for f in if i < 676 { &forms[..] } else { &forms[k..=k] } {
            lang_case(c, f, i);
        }
    });
    ctx.exhaustive("every region", 676 * 16, |c| {
        let r = format!("{}{}", az(c.idx / 16 / 26), az(c.idx / 16)).to_uppercase();
        let l = ["en", "zh", "pt", "sr", "nb", "no", "he", "iw", "de", "ca", "be", "uz", "in", "yi", "fil", "C"][c.idx as usize % 16];
        for f in [format!("{l}_{r}"), format!("{l}-{r}"), format!("{l}_{r}.UTF8"), format!("{l}_{r}@latin"), format!("{l}-Hant-{r}")] {
            lang_case(c, &f, c.idx);
        }
    });
    ctx.stream("random values", ctx.n(60_000, 1_500_000), |c| {
        let mut l = String::new();
        for _ in 0..c.rng.below(8) {
            let p = c.rng.pick(&[
                "en", "-", "_", "@", ".", "US", "Latn", "latin", "é", "ſ", "K", "日本", "𝔘", "1", "*", "C", "POSIX", "UTF-8", "x", " ", "euro", "İ", "ǅ", "ı",
                "abcdefgh", "\u{301}", "\t", "\"", "\\", ":", "#", "\u{0}", "valencia", "q",
            ]);
            l.push_str(p);
            if c.rng.chance(1, 30) {
                l.push_str(&dict::word(&mut c.rng));
            }
        }
        if c.rng.chance(1, 50) {
            l.push_str(&"a-".repeat(c.rng.below(2000)));
            l.push('b');
        }
        if c.rng.chance(1, 50) {
            l = "x".repeat(c.rng.below(5000));
        }
        let v = c.rng.next();
        lang_case(c, &l, v);
    });
    // none, or more than one
    ctx.exhaustive("absent and repeated", 4 * 30 * 30, |c| {
        let d = digits(c.idx, &[4, 30, 30]);
        let (a, b) = (gen::LANGS[d[1] % gen::LANGS.len()], gen::LANGS[d[2] % gen::LANGS.len()]);
        let (t, want) = match d[0] {
            0 => (format!("language: {a}\nX-Language: {b}\n"), String::new()),
            1 => (format!("Language: {a}\nLanguage: {b}\n"), lang::tag(&format!("{a} {b}"))),
            2 => (format!("Language: {a}\nLanguage-Team: {b}\n"), lang::tag(a)),
            _ => (format!("Language-Team: {a}\nX: Language: {b}\n"), String::new()),
        };
        let text = po_header(&t);
        c.input(text.as_bytes());
        let got = obs::read(text.as_bytes());
        c.count("languages observed", 1);
        c.eq("target language", &got.header.lang, &want);
    });
    // no other property stands in
    let keys: Vec<String> = gen::KEYS.iter().map(|k| k.to_string()).chain(dict::dict().words.iter().map(|w| w.replace(['\n', '\r', ':'], " "))).collect();
    let given = [None, Some(""), Some("été"), Some("de_AT")];
    let values = ["fr", "pt_BR", "nplurals=1; plural=0;", "French <fr@li.org>", "fr (France)"];
    ctx.exhaustive("other properties", (keys.len() * given.len() * values.len() * 2) as u64, |c| {
        let d = digits(c.idx, &[keys.len(), given.len(), values.len(), 2]);
        let k = keys[d[0]].trim();
        if ["Language", "Plural-Forms"].contains(&k) {
            c.trivial();
            return;
        }
        let mut t = vec![format!("{k}: {}", values[d[2]])];
        if let Some(l) = given[d[1]] {
            t.insert(d[3], format!("Language: {l}"));
        }
        let text = po_header(&(t.join("\n") + "\n"));
        c.input(text.as_bytes());
        let got = obs::read(text.as_bytes());
        c.count("languages observed", 1);
        c.eq("target language", &got.header.lang, &given[d[1]].map(lang::tag).unwrap_or_default());
    });
    ctx.exhaustive("no header", 3, |c| {
        let t = ["", "msgid \"a\"\nmsgstr \"Language: fr\\n\"\n", "# Language: fr\n\nmsgid \"x\"\nmsgstr \"\"\n"][c.idx as usize];
        c.input(t.as_bytes());
        let r = PoParser::new();
        let got = r.parse(t.as_bytes()).map(|r| r.target_language().as_ref().to_string());
        c.check(matches!(&got, Ok(s) if s.is_empty()), || format!("{got:?}"));
    });
    ctx.require("languages other than the invariant one", 10_000);
}

/// The whole observable outcome of a declaration.
pub fn declare(def: &str) -> (String, Obs) {
    let t = format!("Plural-Forms: {def}\n");
    let text = po_header(&t)
        + "\nmsgid \"s\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\n\nmsgid \"x\"\nmsgstr \"y\"\n\n#~| msgid \"u\"\n#~| msgid_plural \"v\"\n#~ msgid \"w\"\n#~ msgstr \"\"\n";
    let o = obs::read(text.as_bytes());
    (text, o)
}

/// Whether both grammars (C's and the accepted one) say the same of this formula: Some(accepted).
fn agreed(f: &str) -> Option<bool> {
    let (a, b) = (formula::parse(f), formula::parse_c(f));
    if a == b {
        Some(a.is_some())
    } else {
        None
    }
}

fn judge(c: &mut Case, def: &str) {
    let (text, got) = declare(def);
    c.input(text.as_bytes());
    let def = def.trim();
    if def.is_empty() {
        c.count("absent", 1);
        c.check(got.clean() && got.units.len() == 3, || format!("an empty declaration: {:?}", got.end));
        c.check(matches!(&got.units[0].msg, MsgObs::Plural { forms: None, .. }), || "forms out of nothing".into());
        return;
    }
    let formula = refm::value_list(def).and_then(|m| m.get("plural").cloned()).unwrap_or_default();
    if !formula.is_empty() && agreed(&formula).is_none() {
        c.count("not judged", 1);
        c.trivial();
        return;
    }
    match refm::forms(def) {
        Err(e) => {
            c.count("refused", 1);
            c.check(got.refused, || {
                format!("the declaration {def:?} must be refused by parse ({e:?}), but it gave {:?} and {} units", got.end, got.units.len())
            });
            let class = got.err().map(|e| e.class());
            c.eq("kind of the error", &class, &Some(e.class()));
            if let Some(ErrObs::Plural { msg }) = got.err() {
                c.check(!msg.is_empty(), || "the error says nothing".into());
            }
        }
        Ok(f) if f.count == 0 => {
            c.count("no forms at all", 1);
            c.check(!got.refused, || format!("refused {def:?}: {:?}", got.end));
            // no message can have variants then, but a previous message shows what was declared
            let text = po_header(&format!("Plural-Forms: {def}\n")) + "\n#| msgid \"a\"\n#| msgid_plural \"b\"\nmsgid \"c\"\nmsgstr \"d\"\n";
            let got = obs::read(text.as_bytes());
            match got.units.first().map(|u| &u.prev) {
                Some(MsgObs::Plural { forms, .. }) => c.eq("forms", forms, &Some(f)),
                m => c.fail(format!("not a plural message: {m:?}, {:?}", got.end)),
            }
            let text = text.replace("#| ", "") .replace("msgid \"c\"\nmsgstr ", "msgstr[0] ");
            let got = obs::read(text.as_bytes());
            c.check(got.err().is_some() && got.units.is_empty(), || format!("a variant of no forms at all: {:?}", got.units));
        }
        Ok(f) => {
            c.count("accepted", 1);
            c.check(got.clean(), || format!("the declaration {def:?} was not accepted: {:?}", got.end));
            let seen: Vec<_> = got
                .units
                .iter()
                .flat_map(|u| [&u.msg, &u.prev])
                .filter_map(|m| match m {
                    MsgObs::Plural { forms, .. } => Some(forms.clone()),
                    _ => None,
                })
                .collect();
            c.eq("forms of the plural messages", &seen, &vec![Some(f.clone()), Some(f)]);
        }
    }
}

fn c12(ctx: &'static Ctx) {
    super::units::far_down(ctx, IDS | TEXT | FORMS);
    // formulas: every short sequence of tokens
    let toks = ["n", "1", "?", ":", "||", "&&", "==", "!=", "<", ">=", "!", "+", "-", "%", "(", ")", "="];
    let k = toks.len() as u64;
    let max = if ctx.thorough() { 6 } else { 4 };
    let total = words(k, max);
    ctx.exhaustive("every short formula", total, |c| {
        let w = word(c.idx, k, max);
        let f: String = w.iter().map(|i| toks[*i]).collect();
        judge(c, &format!("nplurals=2; plural={f};"));
    });
    // value lists: every short sequence of pieces
    let pieces = ["nplurals", "plural", "=", "3", "n", ";", " ", "x"];
    let k = pieces.len() as u64;
    let max = if ctx.thorough() { 7 } else { 6 };
    ctx.exhaustive("every short value list", words(k, max), |c| {
        let d: String = word(c.idx, k, max).iter().map(|i| pieces[*i]).collect();
        judge(c, &d);
    });
    // counts
    let counts = [
        "0", "1", "2", "3", "10", "007", "65536", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
        "18446744073709551616", "99999999999999999999999", "-1", "-0", "2.0", "2.5", "1e3", "0x2", "two", "", " ", "2 3", "n", "INTEGER", "٣", "２", "2u", "+", "2,",
        "1_000", "½", "NaN", "2\t", "\"2\"", "++2", "+-2", "-+2", "--2", "2+", "00", "000", "0000000000000000000000003", "0b1", "0o2", "b", "2;2", "2:", "2 .", "2=2", "2==2",
        "=2", "== 2", "(2)", "n+1", "2L", "2l", "2ul", "1+1", "'2'", "４", "𝟚", "²", "①", "二", "\u{200b}2", "2\u{200b}", "\u{feff}2", "\u{a0}2", "2\u{2003}", "256", "257", "32768",
        "65535", "65537", "2147483647", "2147483648", "4294967295", "4294967297", "18446744073709551617", "340282366920938463463374607431768211456",
    ];
    ctx.exhaustive("every kind of nplurals", counts.len() as u64 * 4, |c| {
        let n = counts[c.idx as usize / 4];
        match c.idx % 4 {
            0 => judge(c, &format!("nplurals={n}; plural=n;")),
            1 => judge(c, &format!("plural = n ; nplurals = {n} ;")),
            2 => judge(c, &format!("nplurals={n};")),
            _ => judge(c, &format!("nplurals={n}; plural=bad;")),
        }
    });
    // words of the trade, and those of the code, in place of the whole, a key, a count or a formula
    ctx.stream("words", ctx.n(20_000, 400_000), |c| {
        const WORDS: &[&str] = &[
            "nplurals=INTEGER; plural=EXPRESSION;", "INTEGER", "EXPRESSION", "nPlurals", "NPLURALS", "Plural", "PLURAL", "plurals", "nplural", "n_plurals", "formula",
            "count", "N", "n\u{a0}", "(n)", "\"n\"", "'n'", "\"2\"", "n;plural=n", "nplurals", "plural", "n mod 10", "n is 1", "n in 1..3", "one", "other",
        ];
        let mut w = || if c.rng.chance(1, 2) { c.rng.pick(WORDS).to_string() } else { dict::word(&mut c.rng) };
        let (a, b) = (w(), w());
        let d = match c.rng.below(7) {
            0 => a,
            1 => format!("{a}=3; plural=n;"),
            2 => format!("nplurals=3; {a}=n;"),
            3 => format!("nplurals={a}; plural=n;"),
            4 => format!("nplurals=3; plural={a};"),
            5 => format!("nplurals=3; plural=n; {a}={b};"),
            _ => format!("{a}={b}; nplurals={}; plural={};", dict::number(&mut c.rng), dict::number(&mut c.rng)),
        };
        judge(c, &d.replace(['\n', '\r'], " "));
    });
    // and no other property declares anything
    let keys: Vec<String> = gen::KEYS.iter().map(|k| k.to_string()).chain(dict::dict().words.iter().map(|w| w.replace(['\n', '\r', ':'], " "))).collect();
    ctx.exhaustive("other properties", keys.len() as u64 * 3, |c| {
        let k = keys[c.idx as usize / 3].trim();
        if k == "Plural-Forms" {
            c.trivial();
            return;
        }
        let t = ["", "Plural-Forms:\n", "Language: fr\n"][c.idx as usize % 3];
        let body = "\nmsgid \"s\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\n";
        for v in ["nplurals=1; plural=0;", "nplurals=3; plural=broken;", "fr"] {
            let text = po_header(&format!("{k}: {v}\n{t}")) + body;
            c.input(text.as_bytes());
            let got = obs::read(text.as_bytes());
            c.check(got.clean() && got.units.len() == 1, || format!("{:?}", got.end));
            c.check(matches!(&got.units[0].msg, MsgObs::Plural { forms: None, values, .. } if values.len() == 2), || format!("forms out of nothing: {:?}", got.units[0].msg));
        }
    });
    // declarations in use, whole, respelled and damaged
    ctx.stream("declarations", ctx.n(60_000, 1_500_000), |c| {
        let (mut d, _) = gen::forms(&mut c.rng);
        let how = c.rng.below(4);
        if how == 1 {
            d = respell(&mut c.rng, &d);
        } else if how >= 2 {
            for _ in 0..how - 1 {
                d = damage(&mut c.rng, &d);
            }
        }
        judge(c, &d);
    });
    ctx.stream("random formulas", ctx.n(30_000, 800_000), |c| {
        let size = c.rng.range(1, 60);
        let f = formula::gen(&mut c.rng, size).text(&mut c.rng);
        let d = format!("nplurals={}; plural={f};", c.rng.range(1, 12));
        let d = if c.rng.chance(1, 3) { damage(&mut c.rng, &d) } else { d };
        judge(c, &d);
    });
    // lengths around the limit, filled up in several ways
    let lens: Vec<usize> = (4080..4112).chain([1000, 2048, 4000, 4300, 8191, 8192, 8193]).collect();
    ctx.exhaustive("lengths around the limit", (lens.len() * 9) as u64, |c| {
        let (n, how) = (lens[c.idx as usize / 9], c.idx as usize % 9);
        let tail = |s: String| {
            // the last bytes are spaces within parentheses
            let k = n - s.len();
            if k == 0 { s } else { s.replacen('n', &format!("n{}", " ".repeat(k)), 1) }
        };
        let f = match how {
            0 => tail(format!("n{}", "+n".repeat((n - 1) / 2))),
            1 => tail(format!("{}n{}", "(".repeat((n - 1) / 2), ")".repeat((n - 1) / 2))),
            2 => tail(format!("{}0", "n?1:".repeat((n - 1) / 4))),
            3 => format!("n+{}1", "0".repeat(n - 3)),
            4 => format!("(n{})", " ".repeat(n - 3)),
            5 => format!("n{}>1", "\u{2003}".repeat((n - 3) / 3) + &" ".repeat((n - 3) % 3)),
            6 => tail(format!("n{}", "||n".repeat((n - 1) / 3))),
            // white space around it does not count
            7 => format!("{}n{}", " ".repeat(200), " ".repeat(1) + &">0".repeat(0) + &"+1".repeat((n - 2) / 2) + &" ".repeat(300)),
            _ => format!("{}n?0:1", " ".repeat(n)),
        };
        let long = f.trim().len();
        assert!(how >= 7 || long == n, "{how} {n} {long}");
        c.note(format!("{long} bytes, filled in way {how}"));
        c.count("lengths around the limit", 1);
        match c.rng.below(3) {
            0 => judge(c, &format!("nplurals=3; plural={f};")),
            1 => judge(c, &format!("plural = {f} ; nplurals = 3;")),
            _ => judge(c, &format!("x=y; plural={f}; nplurals=3;")),
        }
    });
    // the header may also be the only thing there, and the declaration may be cut in lines or repeated
    ctx.stream("places", ctx.n(10_000, 200_000), |c| {
        let (a, f) = gen::forms(&mut c.rng);
        let t = match c.rng.below(4) {
            0 => format!("X: y\nPlural-Forms: {a}"),
            1 => format!("Plural-Forms:{a}\nLanguage: fr\n"),
            2 => format!(" Plural-Forms : {a} \n"),
            _ => format!("plural-forms: nplurals=9; plural=bad;\nXPlural-Forms: bad\nPlural-Forms:\t{a}\n"),
        };
        let mut text = po_header(&t);
        if c.rng.chance(1, 2) {
            // continuation lines anywhere between two characters of the value
            let at = text.find("Plural-Forms").unwrap() + c.rng.range(12, 12 + a.len());
            if text.is_char_boundary(at) && !text[..at].ends_with('\\') {
                text.insert_str(at, "\"\n\"");
            }
        }
        text.push_str("\nmsgid \"s\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\n");
        c.input(text.as_bytes());
        let got = obs::read(text.as_bytes());
        c.check(got.clean() && got.units.len() == 1, || format!("{:?}", got.end));
        c.count("accepted", 1);
        match &got.units[0].msg {
            MsgObs::Plural { forms, .. } => c.eq("forms", forms, &Some(f)),
            m => c.fail(format!("not a plural message: {m:?}")),
        }
    });
    ctx.stream("repeated declarations", ctx.n(4_000, 50_000), |c| {
        // values of a repeated property are joined with a space before they are read
        let (a, _) = gen::forms(&mut c.rng);
        let (b, _) = gen::forms(&mut c.rng);
        let t = format!("Plural-Forms: {a}\nPlural-Forms: {b}\n");
        let text = po_header(&t) + "\nmsgid \"s\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\n";
        c.input(text.as_bytes());
        let got = obs::read(text.as_bytes());
        c.count("accepted", 1);
        let want = refm::forms(&format!("{a} {b}"));
        match (got.units.first().map(|u| &u.msg), want) {
            (Some(MsgObs::Plural { forms, .. }), Ok(f)) => c.eq("forms", forms, &Some(f)),
            (m, w) => c.fail(format!("{m:?} {w:?} {:?}", got.end)),
        }
    });
    ctx.require("accepted", 20_000);
    ctx.require("refused", 20_000);
}

fn respell(rng: &mut Rng, d: &str) -> String {
    let mut o = String::new();
    for ch in d.chars() {
        if ch == ';' {
            for _ in 0..rng.below(3) {
                o.push_str(rng.pick(&[" ", "\t", "\u{a0}"]));
            }
        }
        o.push(ch);
        if ch == ';' {
            for _ in 0..rng.below(3) {
                o.push_str(rng.pick(&[" ", "\t", ";", "extra=1;", "x = y = z ; "]));
            }
        }
    }
    if rng.chance(1, 6) {
        o.push_str("nplurals=7;");
    }
    if rng.chance(1, 6) {
        o.insert_str(0, "lead=1; ");
    }
    o
}

fn damage(rng: &mut Rng, d: &str) -> String {
    let mut v: Vec<char> = d.chars().collect();
    let i = rng.below(v.len().max(1));
    match rng.below(5) {
        0 if !v.is_empty() => {
            v.remove(i);
        }
        1 => {
            let s = *rng.pick(&[
                "n", "1", "?", ":", "||", "|", "&&", "&", "==", "=", "!=", "<", "<<", ">=", "!", "+", "-", "*", "/", "%", "(", ")", ";", " ", "x", "99999999999999999999",
                "9223372036854775807", "9223372036854775808", "or", "and", "not", "~", "^", "é", "N", "0x1", "1.5", "nn", "n n", "\u{0}", "[", ",",
            ]);
            for (j, ch) in s.chars().enumerate() {
                v.insert((i + j).min(v.len()), ch);
            }
        }
        2 => {
            let j = rng.below(v.len().max(1));
            if !v.is_empty() {
                v.swap(i, j);
            }
        }
        3 => v.truncate(i),
        _ => {
            let tail: Vec<char> = v[i.min(v.len())..].to_vec();
            let k = rng.below(tail.len() + 1);
            v.extend(&tail[k..]);
        }
    }
    v.into_iter().collect()
}
