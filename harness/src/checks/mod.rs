use crate::{
    ctx::{Case, Ctx, Meta},
    obs::{End, HeaderObs, MsgObs, Obs, St, UnitObs},
    refm::Ref,
};

mod header;
mod plural;
mod robust;
mod stream;
mod units;
mod values;

pub type Check = fn(&'static Ctx);

pub fn all() -> Vec<(Meta, Check)> {
    let mut v = vec![];
    v.extend(units::checks());
    v.extend(header::checks());
    v.extend(plural::checks());
    v.extend(robust::checks());
    v.extend(stream::checks());
    v.extend(values::checks());
    v.sort_by_key(|(m, _)| m.id);
    v
}

/// What a property looks at; everything else is left to the other properties.
pub const IDS: u32 = 1;
pub const TEXT: u32 = 2;
pub const NOTES: u32 = 4;
pub const STATE: u32 = 8;
pub const OBSOLETE: u32 = 16;
pub const PREV: u32 = 32;
pub const FORMS: u32 = 64;
pub const HEADER: u32 = 128;
pub const END: u32 = 256;
pub const LOC: u32 = 512;
pub const ALL: u32 = 1023 & !LOC;

fn msg(m: &MsgObs, ids: bool, text: bool, forms: bool) -> MsgObs {
    let s = |keep: bool, s: &String| if keep { s.clone() } else { String::new() };
    match m {
        MsgObs::Simple { id, text: t } => MsgObs::Simple { id: s(ids, id), text: s(text, t) },
        MsgObs::Plural { id, plural, values, forms: f } if ids || text || forms => MsgObs::Plural {
            id: s(ids, id),
            plural: s(ids, plural),
            values: if text { values.clone() } else { vec![] },
            forms: if forms { f.clone() } else { None },
        },
        _ => MsgObs::default(),
    }
}

pub fn project(u: &UnitObs, mask: u32) -> UnitObs {
    let d = UnitObs::default();
    let on = |m: u32| mask & m != 0;
    UnitObs {
        context: if on(IDS) { u.context.clone() } else { None },
        msg: msg(&u.msg, on(IDS), on(TEXT), on(FORMS)),
        prev_context: if on(PREV) { u.prev_context.clone() } else { None },
        prev: if on(PREV) { msg(&u.prev, true, true, on(FORMS)) } else { d.prev },
        flags: if on(NOTES) { u.flags.clone() } else { vec![] },
        notes: if on(NOTES) { u.notes.clone() } else { vec![] },
        locations: if on(NOTES) { u.locations.clone() } else { vec![] },
        comments: if on(NOTES) { u.comments.clone() } else { vec![] },
        state: if on(STATE) { u.state } else { St::Empty },
        translated: on(STATE) && u.translated,
        obsolete: on(OBSOLETE) && u.obsolete,
    }
}

fn end_class(e: &End) -> String {
    match e {
        End::Err(e) => format!("error ({})", e.class()),
        End::Clean => "end of catalogue".into(),
        End::Panic(p) => format!("panic {p}"),
        End::Runaway => "endless units".into(),
    }
}

/// Compare what was observed with what had to be, as far as `mask` goes.
pub fn diff(got: &Obs, want: &Obs, cut: bool, mask: u32) -> Result<(), String> {
    match &got.end {
        End::Panic(p) => return Err(format!("the library panicked: {p}")),
        End::Runaway => return Err("the reader delivers units without end".into()),
        _ => (),
    }
    let n = got.units.len().min(want.units.len());
    for i in 0..n {
        let (g, w) = (project(&got.units[i], mask), project(&want.units[i], mask));
        if g != w {
            return Err(format!("unit {i}:\n  observed {g:?}\n  expected {w:?}"));
        }
    }
    if got.units.len() != want.units.len() {
        return Err(format!(
            "{} units delivered then {}, expected {} then {}; first difference: {:?}",
            got.units.len(),
            end_class(&got.end),
            want.units.len(),
            end_class(&want.end),
            got.units.get(n).or(want.units.get(n)).map(|u| project(u, mask | IDS)),
        ));
    }
    if mask & HEADER != 0 && !want.refused && !got.refused {
        let strip = |h: &HeaderObs| h.clone();
        if strip(&got.header) != strip(&want.header) {
            return Err(format!("header:\n  observed {:?}\n  expected {:?}", got.header, want.header));
        }
    }
    if cut {
        return Ok(());
    }
    let ok = match (&got.end, &want.end) {
        (End::Clean, End::Clean) => true,
        (End::Err(g), End::Err(w)) => {
            (mask & END == 0 || (g.class() == w.class() && got.refused == want.refused)) && (mask & LOC == 0 || g == w)
        }
        _ => mask & END == 0,
    };
    if !ok {
        return Err(format!("ended with {:?} (refused: {}), expected {:?} (refused: {})", got.end, got.refused, want.end, want.refused));
    }
    Ok(())
}

pub fn same(c: &Case, got: &Obs, want: &Obs, mask: u32) {
    if let Err(e) = diff(got, want, false, mask) {
        c.fail(e);
    }
}

pub fn same_ref(c: &Case, got: &Obs, want: &Ref, mask: u32) {
    if let Err(e) = diff(got, &want.obs, want.cut, mask) {
        c.fail(e);
    }
}

/// Count what a run of the real reader showed.
pub fn tally(c: &mut Case, o: &Obs) {
    c.count("units delivered", o.units.len() as u64);
    match &o.end {
        End::Clean => c.count("catalogues read to the end", 1),
        End::Err(e) => c.count(
            match e.class() {
                "io" => "i/o errors reported",
                "parse" => "syntax errors reported",
                "plural" => "plural-forms errors reported",
                _ => "other errors reported",
            },
            1,
        ),
        _ => (),
    }
}

/// Characters that deserve a look beyond the first three thousand hexadecimal.
const FAR: &[(u32, u32)] = &[
    (0x3000, 0x3004), (0xa000, 0xa004), (0xd7fc, 0xd7ff), (0xe000, 0xe004), (0xf8ff, 0xf900), (0xfb00, 0xfb06), (0xfdd0, 0xfdd2), (0xfe00, 0xfe20),
    (0xfefe, 0xffff), (0x10000, 0x10004), (0x1d510, 0x1d520), (0x1f600, 0x1f604), (0x2fffe, 0x30000), (0xe0000, 0xe0080), (0xfffff, 0x100001),
    (0x10fffc, 0x10ffff),
];

pub const CHARS_PER_CASE: u64 = 8;

/// How many cases it takes to see every character (thorough) or every one of the first planes and some far away (quick).
pub fn char_cases(ctx: &Ctx) -> u64 {
    let n = if ctx.thorough() { 0x110000 } else { 0x3000 + FAR.iter().map(|(a, b)| (b - a + 1) as u64).sum::<u64>() };
    n.div_ceil(CHARS_PER_CASE)
}

/// The characters of a case, without the line feed.
pub fn chars_of(ctx: &Ctx, idx: u64) -> Vec<char> {
    (idx * CHARS_PER_CASE..(idx + 1) * CHARS_PER_CASE)
        .filter_map(|i| {
            if ctx.thorough() || i < 0x3000 {
                return char::from_u32(i as u32);
            }
            let mut i = i as u32 - 0x3000;
            for (a, b) in FAR {
                if i <= b - a {
                    return char::from_u32(a + i);
                }
                i -= b - a + 1;
            }
            None
        })
        .filter(|c| *c != '\n')
        .collect()
}

/// Digits of `idx` in a mixed base.
pub fn digits(mut idx: u64, bases: &[usize]) -> Vec<usize> {
    bases
        .iter()
        .map(|b| {
            let d = (idx % *b as u64) as usize;
            idx /= *b as u64;
            d
        })
        .collect()
}

pub fn product(bases: &[usize]) -> u64 {
    bases.iter().map(|b| *b as u64).product()
}

/// The `idx`-th word over `k` letters of length at most `max` (shortest first).
pub fn word(mut idx: u64, k: u64, max: u32) -> Vec<usize> {
    for len in 0..=max {
        let n = k.pow(len);
        if idx < n {
            return digits(idx, &vec![k as usize; len as usize]);
        }
        idx -= n;
    }
    vec![]
}

pub fn words(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

/// Around every size at which something may change: a buffer, a counter, a round number.
pub const SIZES: &[usize] = &[
    9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048,
    2049, 4095, 4096, 4097, 8192, 10_001, 32_768, 65_534, 65_535, 65_536, 65_537, 66_000,
];
