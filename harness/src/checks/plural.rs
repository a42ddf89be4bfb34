//! C09–C11: plural formulas and the choice of a variant.
use super::*;
use crate::{
    checks::header::po_header,
    ctx,
    formula::{self, Op, E, OPS},
    gen, obs,
    rng::Rng,
};
use poreader::{
    plural::{Plural, PluralForms},
    Message, PoParser,
};
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    thread,
};

pub fn checks() -> Vec<(Meta, Check)> {
    vec![
        (
            Meta {
                id: "C09",
                level: "exploration",
                rule: "every expression tree of up to 5 nodes (thorough: 6), the formulas in actual use on every count up \
                       to 20 000 (thorough: 2 000 000), random trees in random spellings and random token strings; the \
                       monitor compares the selected index with a C evaluator of the tree (distinct by formula)",
                assumptions: &[
                    "counts from 0 to i64::MAX and no overflow or division by zero (see C10 for those)",
                    "the operand of ! is parenthesised or a single term, and ! under arithmetic is parenthesised (recorded finding)",
                ],
            },
            c09,
        ),
        (
            Meta {
                id: "C10",
                level: "exploration",
                rule: "formulas made to overflow, divide by zero, nest and chain up to and beyond any length limit, \
                       evaluated on extreme counts over the whole of usize, on a thread with the default 2 MiB stack and \
                       with overflow checks on; the monitor sees panics, stack overflows, endless evaluation, and \
                       indexes outside 0..nplurals (distinct by formula)",
                assumptions: &[],
            },
            c10,
        ),
        (
            Meta {
                id: "C11",
                level: "exploration",
                rule: "every set of up to 6 variant indexes under every small nplurals, permuted and repeated indexes, \
                       random catalogues with up to 90 variants; the monitor computes which variant a count selects from \
                       an independent evaluation of the formula and the variants as written (distinct by input bytes)",
                assumptions: &[],
            },
            c11,
        ),
    ]
}

/// The forms of a catalogue that declares them, as a user gets hold of them.
pub fn forms_of(nplurals: &str, formula: &str) -> Result<Plural, String> {
    let text = po_header(&format!("Plural-Forms: nplurals={nplurals}; plural={formula};\n"))
        + "\nmsgid \"s\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\n";
    let u = obs::units_of(text.as_bytes())?;
    match u.first().and_then(|u| u.message().plural()) {
        Some(p) if p.get_forms().is_some() => Ok(p.clone()),
        _ => Err(format!("no plural forms in {u:?}")),
    }
}

fn with_forms(c: &Case, nplurals: &str, f: &str, mut run: impl FnMut(&PluralForms)) {
    match forms_of(nplurals, f) {
        Ok(p) => run(p.get_forms().unwrap()),
        Err(e) => c.fail(format!("the formula {f:?} was not accepted: {e}")),
    }
}

/// Big enough for every non-negative value to be an index.
const OPEN: &str = "18446744073709551615";

fn compare_c(c: &mut Case, e: &E, text: &str, counts: &[i64]) {
    c.note(text);
    let mut seen = 0;
    with_forms(c, OPEN, text, |f| {
        for &n in counts {
            let Some(want) = e.eval_c(n) else { continue };
            seen += 1;
            let want = usize::try_from(want).ok();
            let got = f.get_value(n as usize);
            if got != want {
                c.fail(format!("{text:?} with n = {n} selects {got:?}, C gives {want:?}"));
            }
        }
    });
    if seen == 0 {
        c.trivial();
    }
    c.count("evaluations compared", seen);
}

const EXTREME: &[i64] = &[
    255,
    256,
    257,
    999,
    1000,
    1001,
    65535,
    65536,
    999_999,
    1_000_000,
    1_000_001,
    i32::MAX as i64 - 1,
    i32::MAX as i64,
    i32::MAX as i64 + 1,
    u32::MAX as i64 - 1,
    u32::MAX as i64,
    u32::MAX as i64 + 1,
    1_000_000_000_001,
    1 << 53,
    (1 << 53) + 1,
    1 << 62,
    i64::MAX - 1,
    i64::MAX,
];

fn counts(rng: &mut Rng, small: i64, random: usize) -> Vec<i64> {
    let mut v: Vec<i64> = (0..small).collect();
    v.extend(EXTREME);
    // ones that are the same in their low bits, one after the other
    for k in [8, 16, 32, 62] {
        let n = rng.below(8) as i64;
        v.extend([n, n + (1 << k), n + 1]);
    }
    for _ in 0..random {
        let bits = rng.range(1, 63);
        v.push((rng.next() >> (64 - bits)) as i64);
    }
    for _ in 0..2 {
        v.push((crate::dict::number(rng) & i64::MAX as u64) as i64);
    }
    v
}

/// All trees of exactly `size` nodes over a few leaves.
fn trees(size: usize, memo: &mut Vec<Option<Vec<E>>>) -> Vec<E> {
    if let Some(Some(v)) = memo.get(size) {
        return v.clone();
    }
    let mut v = vec![];
    match size {
        0 => (),
        1 => v.extend([E::N, E::Num(1), E::Num(2), E::Num(3)]),
        _ => {
            for a in trees(size - 1, memo) {
                v.push(E::Neg(Box::new(a.clone())));
                v.push(E::Not(Box::new(a)));
            }
            for l in 1..size - 1 {
                let (ls, rs) = (trees(l, memo), trees(size - 1 - l, memo));
                for a in &ls {
                    for b in &rs {
                        for op in OPS {
                            v.push(E::Bin(op, Box::new(a.clone()), Box::new(b.clone())));
                        }
                    }
                }
            }
            for t in 1..size.saturating_sub(2) {
                for a in 1..size - 1 - t {
                    let b = size - 1 - t - a;
                    if b == 0 {
                        continue;
                    }
                    for x in &trees(t, memo) {
                        for y in &trees(a, memo) {
                            for z in &trees(b, memo) {
                                v.push(E::Cond(Box::new(x.clone()), Box::new(y.clone()), Box::new(z.clone())));
                            }
                        }
                    }
                }
            }
        }
    }
    while memo.len() <= size {
        memo.push(None);
    }
    memo[size] = Some(v.clone());
    v
}

fn c09(ctx: &'static Ctx) {
    // every small tree
    let mut memo = vec![];
    let max = 5;
    let all: Vec<E> = (1..=max).flat_map(|s| trees(s, &mut memo)).collect();
    let small: Vec<i64> = (0..13).chain([19, 20, 21, 100, 111, i64::MAX]).collect();
    ctx.exhaustive("every small tree", all.len() as u64, |c| {
        let e = &all[c.idx as usize];
        compare_c(c, e, &e.plain(), &small);
    });
    if ctx.thorough() {
        let six = trees(6, &mut memo);
        ctx.exhaustive("every tree of six nodes", six.len() as u64, |c| {
            let e = &six[c.idx as usize];
            compare_c(c, e, &e.plain(), &small);
        });
    }
    drop(memo);
    // every pair and triple of operators without parentheses: precedence and associativity
    let leaves = ["n", "2", "5", "3"];
    let triples = 13u64 * 13 * 13;
    ctx.exhaustive("every triple of operators", triples * 3, |c| {
        let d = digits(c.idx, &[13, 13, 13, 3]);
        let ops: Vec<&str> = d[..3].iter().map(|i| OPS[*i].text()).collect();
        let text = match d[3] {
            0 => format!("{} {} {} {} {} {} {}", leaves[0], ops[0], leaves[1], ops[1], leaves[2], ops[2], leaves[3]),
            1 => format!("1{}n{}2{}n", ops[0], ops[1], ops[2]),
            _ => format!("n{}3?n{}2:4{}n", ops[0], ops[1], ops[2]),
        };
        let Some(e) = formula::parse_c(&text) else {
            c.fail(format!("the reference does not read {text:?}"));
        };
        compare_c(c, &e, &text, &small);
    });
    // formulas in actual use
    let span = ctx.n(20_000, 2_000_000) as i64;
    let parts = 16;
    ctx.exhaustive("formulas in use", (formula::REAL.len() * parts) as u64, |c| {
        let (count, text) = formula::REAL[c.idx as usize / parts];
        let part = (c.idx as usize % parts) as i64;
        let e = formula::parse_c(text).expect("reference");
        let from = part * (span / parts as i64);
        let mut v: Vec<i64> = (from..from + span / parts as i64).collect();
        v.extend(EXTREME);
        compare_c(c, &e, text, &v);
        with_forms(c, &count.to_string(), text, |f| {
            for &n in &v {
                let want = e.eval_c(n).and_then(|x| usize::try_from(x).ok());
                let got = f.get_value(n as usize);
                c.check(got == want && got.is_some_and(|g| g < count), || {
                    format!("{text:?} with n = {n} selects {got:?} of {count} forms, C gives {want:?}")
                });
            }
        });
    });
    ctx.stream("random trees", ctx.n(60_000, 2_000_000), |c| {
        let size = if c.rng.chance(1, 20) { c.rng.range(60, 500) } else { c.rng.range(2, 40) };
        let e = formula::gen(&mut c.rng, size);
        let text = e.text(&mut c.rng);
        if text.len() > 3500 {
            c.trivial();
            return;
        }
        let v = counts(&mut c.rng, 40, 10);
        compare_c(c, &e, &text, &v);
    });
    // random token strings that both grammars read alike
    ctx.stream("random tokens", ctx.n(100_000, 2_000_000), |c| {
        let mut text = String::new();
        let mut open = 0;
        for i in 0..c.rng.range(1, 14) {
            if i > 0 {
                text.push_str(match c.rng.below(16) {
                    0 => " or ",
                    1 => " and ",
                    2 => "?",
                    _ => c.rng.pick(&OPS).text(),
                });
            }
            match c.rng.below(12) {
                0 => text.push('-'),
                1 => text.push('!'),
                2 => text.push_str("not "),
                _ => (),
            }
            if c.rng.chance(1, 4) {
                text.push('(');
                open += 1;
            }
            text.push_str(c.rng.pick(&["n", "n", "n", "0", "1", "2", "10", "100", "7"]));
            if open > 0 && c.rng.chance(1, 3) {
                text.push(')');
                open -= 1;
            }
        }
        text.push_str(&")".repeat(open));
        // close the conditionals
        let q = text.matches('?').count();
        for _ in 0..q {
            if c.rng.chance(7, 8) {
                text.push_str(":n");
            }
        }
        let (a, b) = (formula::parse(&text), formula::parse_c(&text));
        match (a, b) {
            (Some(a), Some(b)) if a == b => {
                let v = counts(&mut c.rng, 25, 3);
                compare_c(c, &a, &text, &v);
            }
            _ => c.trivial(),
        }
    });
    // recorded findings
    if ctx.only.is_none() {
        for (key, f, n, right, wrong) in [
            ("not-under-plus", "!n+1", 1u64, Some(1), Some(0)),
            ("not-under-modulo", "!n%2", 2, Some(0), Some(1)),
            ("not-under-times", "!n*5", 0, Some(5), Some(1)),
            ("count-above-i64-max", "n>1", 1 << 63, Some(1), Some(0)),
            ("count-usize-max", "n>1", u64::MAX, Some(1), Some(0)),
        ] {
            let got = forms_of("18446744073709551615", f).ok().and_then(|p| p.get_forms().unwrap().get_value(n as usize));
            if got == right {
                continue;
            }
            let what = format!("{f} with n = {n} selects {got:?}, C gives {right:?}");
            if got == wrong {
                ctx.known(key, &what);
            } else {
                ctx::violation(&what);
            }
        }
    }
    ctx.require("evaluations compared", 1_000_000);
}

/// Counts over the whole of usize.
fn wild(rng: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3, 5, 10, 11, 21, 100, 101, 111, 1000];
    for b in [7u32, 8, 15, 16, 31, 32, 52, 53, 62, 63] {
        let p = 1usize << b;
        v.extend([p - 1, p, p + 1, p.wrapping_neg(), !p]);
    }
    v.extend([usize::MAX, usize::MAX - 1, i64::MAX as usize, i64::MAX as usize - 1, i64::MIN as usize]);
    for _ in 0..8 {
        let b = rng.below(64);
        v.push((rng.next() >> b) as usize);
    }
    v
}

/// Run on a thread with the stack a user's thread has.
fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    thread::scope(|s| {
        let h = thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || {
                catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
                    let (loc, _) = ctx::last_panic();
                    let m = ctx::payload(&*p);
                    if obs::is_harness(&loc) {
                        panic!("harness {loc}: {m}");
                    }
                    format!("panic at {loc}: {m}")
                })
            })
            .expect("spawn");
        h.join().unwrap_or_else(|_| Err("the thread died".into()))
    })
}

pub struct Ran {
    pub accepted: bool,
    pub refused_as_plural: bool,
    pub clone_differs: bool,
    pub values: Vec<Option<usize>>,
}

/// Declare, evaluate, clone, print and drop a formula.
fn ride(nplurals: &str, f: &str, counts: &[usize]) -> Ran {
    let text = po_header(&format!("Plural-Forms: nplurals={nplurals}; plural={f};\n"))
        + "\nmsgid \"s\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\n";
    let parser = PoParser::new();
    let mut ran = Ran { accepted: false, refused_as_plural: false, clone_differs: false, values: vec![] };
    match parser.parse(text.as_bytes()) {
        Err(e) => ran.refused_as_plural = matches!(e, poreader::error::Error::PluralForms(_)),
        Ok(reader) => {
            let units: Vec<_> = reader.filter_map(|u| u.ok()).collect();
            if let Some(p) = units.first().and_then(|u| u.message().plural()) {
                if let Some(forms) = p.get_forms() {
                    ran.accepted = true;
                    let copy = forms.clone();
                    ran.values = counts.iter().map(|n| forms.get_value(*n)).collect();
                    let again: Vec<_> = counts.iter().map(|n| copy.get_value(*n)).collect();
                    ran.clone_differs = again != ran.values;
                    for n in counts {
                        let _ = p.get(*n);
                    }
                    if f.len() < 512 {
                        let _ = format!("{forms:?}");
                    }
                    drop(copy);
                }
            }
        }
    }
    ran
}

fn judge_ride(c: &mut Case, nplurals: usize, f: &str, counts: &[usize], ran: &Ran, must_accept: bool) {
    c.check(ran.accepted || !must_accept, || format!("the formula of {} bytes was not accepted", f.len()));
    c.check(ran.accepted || ran.refused_as_plural, || "refused without an Error::PluralForms".into());
    if !ran.accepted {
        c.count("formulas refused", 1);
        return;
    }
    c.check(!ran.clone_differs, || "the same counts select other indexes the second time".into());
    c.count("formulas evaluated", 1);
    c.count("evaluations", counts.len() as u64);
    let e = if f.len() <= 10_000 { formula::parse(f) } else { None };
    for (n, got) in counts.iter().zip(&ran.values) {
        c.check(got.map_or(true, |g| g < nplurals), || format!("index {got:?} of {nplurals} forms for n = {n}"));
        if let Some(e) = &e {
            let want = usize::try_from(e.eval(*n as i64)).ok().filter(|v| *v < nplurals);
            // beyond i64::MAX only the absence of failures is claimed
            if *n <= i64::MAX as usize && *got != want {
                c.fail(format!("n = {n} selects {got:?}, wrapping 64-bit arithmetic gives {want:?} (of {nplurals} forms)"));
            }
        }
    }
}

fn c10(ctx: &'static Ctx) {
    let nps: [usize; 6] = [1, 2, 3, 6, 100, usize::MAX];
    // the cost of one evaluation: microseconds per thousand nodes, whatever the shape
    let lens = [60usize, 250, 1000, 4000];
    ctx.run("cost of an evaluation", (lens.len() * 16) as u64, true, 8_000, |c| {
        let (len, kind) = (lens[c.idx as usize % lens.len()], c.idx as usize / lens.len());
        let mut f = String::from("n");
        for i in 0.. {
            let g = match kind {
                0 => format!("n=={i}?{}:{f}", i % 3),
                1 => format!("n!={i}?{f}:{}", i % 3),
                2 => format!("({f})?{}:{}", i % 3, (i + 1) % 3),
                3 => format!("n>{i}&&({f})"),
                4 => format!("({f})&&n>{i}"),
                5 => format!("n<{i}||({f})"),
                6 => format!("({f})||n<{i}"),
                7 => format!("n+({f})"),
                8 => format!("{f}-n"),
                9 => format!("-({f})"),
                10 => format!("!({f})"),
                11 => format!("({f})%7"),
                12 => format!("n/({f})"),
                13 => format!("({f})==n"),
                14 => format!("n<({f})"),
                _ => format!("({f})"),
            };
            if g.len() > len {
                break;
            }
            f = g;
        }
        c.note(format!("kind {kind}: {f}"));
        let v = [0usize, 1, 2, 3, 12, 1000, 1 << 40];
        let t0 = crate::ctx::my_cpu_ms();
        let ran = ride("3", &f, &v);
        let t = crate::ctx::my_cpu_ms() - t0;
        c.check(t < 4_000, || format!("{t} ms of CPU time to declare the formula and to evaluate it for {} counts", v.len()));
        judge_ride(c, 3, &f, &v, &ran, true);
    });
    // operators on extreme operands
    let vals = [
        "0",
        "1",
        "2",
        "(0-1)",
        "-2",
        "9223372036854775807",
        "(0-9223372036854775807)",
        "(0-9223372036854775807-1)",
        "4294967296",
        "n",
        "(0-n)",
        "-n",
        "(n-9223372036854775807)",
        "(n*n)",
    ];
    let shapes: &[&str] = &["A o B", "-(A o B)", "!(A o B)", "(A o B) o B", "A o (B o A)", "A ? B o A : A o B", "(A o B) ? A : B", "-(A) o -(B)"];
    let bases = [vals.len(), vals.len(), 13, shapes.len()];
    ctx.exhaustive("operators on extremes", product(&bases), |c| {
        let d = digits(c.idx, &bases);
        let f: String = shapes[d[3]]
            .chars()
            .map(|ch| match ch {
                'A' => vals[d[0]].to_string(),
                'B' => vals[d[1]].to_string(),
                'o' => OPS[d[2]].text().to_string(),
                ch => ch.to_string(),
            })
            .collect();
        // a sign may not follow a sign
        let f = f.replace("-(-", "-(0-").replace("--", "-(0)-").replace("- -", "- 0-");
        if formula::parse(&f).is_none() {
            c.trivial();
            return;
        }
        c.note(f.clone());
        let v = wild(&mut c.rng);
        let np = nps[c.idx as usize % nps.len()];
        let ran = ride(&np.to_string(), &f, &v);
        judge_ride(c, np, &f, &v, &ran, true);
    });
    ctx.run("random formulas", ctx.n(40_000, 1_000_000), false, 10_000, |c| {
        let size = c.rng.range(2, 80);
        let mut e = formula::gen(&mut c.rng, size);
        // products and quotients of large numbers
        for _ in 0..c.rng.below(3) {
            let k = *c.rng.pick(&[i64::MAX, i64::MAX - 1, 1 << 62, 1 << 32, 3_037_000_500, 0]);
            let op = *c.rng.pick(&[Op::Mul, Op::Add, Op::Sub, Op::Div, Op::Mod]);
            e = if c.rng.chance(1, 2) {
                E::Bin(op, Box::new(e), Box::new(E::Num(k)))
            } else {
                E::Bin(op, Box::new(E::Num(k)), Box::new(e))
            };
            if c.rng.chance(1, 3) {
                e = E::Neg(Box::new(e));
            }
        }
        let f = e.text(&mut c.rng);
        if f.len() > 4000 {
            c.trivial();
            return;
        }
        c.note(f.clone());
        let v = wild(&mut c.rng);
        let np = *c.rng.pick(&nps);
        let ran = ride(&np.to_string(), &f, &v);
        judge_ride(c, np, &f, &v, &ran, true);
    });
    // long and deep formulas, on the default stack
    let lens: Vec<usize> = vec![
        100, 500, 1000, 1365, 2000, 2046, 2047, 2048, 3000, 4000, 4094, 4095, 4096, 4097, 4098, 5000, 8191, 8192, 10_000, 16_384, 32_768, 65_536, 131_072, 300_000, 1_000_000,
    ];
    let kinds = 16usize;
    ctx.run("long and deep formulas", (lens.len() * kinds) as u64, true, 120_000, |c| {
        let (len, kind) = (lens[c.idx as usize / kinds], c.idx as usize % kinds);
        let rep = |unit: &str, fixed: usize| unit.repeat(len.saturating_sub(fixed) / unit.len());
        let f = match kind {
            0 => format!("n{}", rep("+n", 1)),
            1 => format!("{}n{}", "(".repeat(len / 2), ")".repeat(len / 2)),
            2 => format!("{}n", rep("n?1:", 1)),
            3 => {
                let k = len / 4;
                format!("{}n{}", "-(".repeat(k), ")".repeat(k))
            }
            4 => {
                let k = len / 3;
                format!("{}n{}", "!(".repeat(k), ")".repeat(k))
            }
            5 => format!("n{}", rep("||n", 1)),
            6 => format!("{}n{}", "1+(".repeat(len / 4), ")".repeat(len / 4)),
            7 => {
                let k = len / 6;
                format!("n{}n{}", "?n".repeat(k), ":n".repeat(k)).replacen("n?nn", "n?n", 1)
            }
            8 => format!("n{}", rep("*9", 1)),
            9 => rep("9", 0),
            10 => format!("n{}", rep(" ", 1)),
            11 => format!("n{}", rep("%7-n", 1)),
            12 => format!("{}n{}", "(n<".repeat(len / 4), ")".repeat(len / 4)),
            13 => rep("(", 0),
            14 => format!("{}n{}", "n==1?0:(".repeat(len / 9), ")".repeat(len / 9)),
            _ => format!("n{}", rep("/0", 1)),
        };
        c.note(format!("kind {kind}, {} bytes: {}…", f.len(), f.chars().take(40).collect::<String>()));
        let v: Vec<usize> = vec![0, 1, 2, 7, 1000, i64::MAX as usize, usize::MAX];
        // only the length can be a reason to refuse these
        let valid = ![9, 13].contains(&kind);
        let res = on_small_stack(|| ride("3", &f, &v));
        match res {
            Err(e) => c.fail(e),
            Ok(ran) => {
                assert!(f.len() > 10_000 || formula::parse(&f).is_some() == valid, "kind {kind}");
                c.check(valid || !ran.accepted, || "accepted what is not a formula".into());
                judge_ride(c, 3, &f, &v, &ran, valid && f.trim().len() <= 2000);
            }
        }
    });
    // evaluation on every count in long runs
    ctx.run("runs of counts", ctx.n(200, 4_000), false, 10_000, |c| {
        let f = if c.rng.chance(1, 2) {
            c.rng.pick(formula::REAL).1.to_string()
        } else {
            let size = c.rng.range(2, 30);
            formula::gen(&mut c.rng, size).text(&mut c.rng)
        };
        let from = match c.rng.below(4) {
            0 => 0,
            1 => i64::MAX as usize - 1000,
            2 => usize::MAX - 1999,
            _ => c.rng.next() as usize & (usize::MAX >> 1),
        };
        let v: Vec<usize> = (0..2000).map(|i| from.wrapping_add(i)).collect();
        c.note(format!("{f} from {from}"));
        let ran = ride("4", &f, &v);
        judge_ride(c, 4, &f, &v, &ran, true);
    });
    ctx.require("evaluations", 500_000);
}

/// What a plural message must answer, from the variants as written and the formula.
fn judge_plural(c: &mut Case, m: &Message, values: &[String], forms: Option<(usize, &E)>, rng: &mut Rng) {
    let Some(p) = m.plural() else {
        c.fail(format!("not a plural message: {m:?}"));
    };
    c.eq("values", p.values(), &values.to_vec());
    c.eq("first", &p.first(), &values.first().map(|s| s.as_str()).unwrap_or(""));
    c.eq("get_text", &m.get_text(), &values.first().map(|s| s.as_str()).unwrap_or(""));
    let mut v: Vec<i64> = (0..30).chain([100, 101, 102, 111, 1000, 1_000_000, i64::MAX]).chain((0..6).map(|_| (rng.next() >> 1) as i64)).collect();
    // ones that are the same in their low bits, one after the other
    for k in [8, 16, 32, 62] {
        let n = rng.below(8) as i64;
        v.extend([n, n + (1 << k), n]);
    }
    if values.len() > 30 {
        v.extend((0..6).map(|i| (values.len() + i) as i64 - 3));
        v.extend((0..8).map(|_| (rng.next() % values.len() as u64) as i64));
    }
    for n in v {
        let want = forms.and_then(|(count, e)| {
            let i = usize::try_from(e.eval(n)).ok().filter(|i| *i < count)?;
            values.get(i).map(|s| s.as_str())
        });
        c.count("selections", 1);
        if want.is_some() {
            c.count("variants selected", 1);
        }
        let got = p.get(n as usize);
        c.check(got == want, || format!("get({n}) is {got:?}, expected {want:?} of {values:?}"));
        let got = m.get_plural_text(n as usize);
        c.check(got == want, || format!("get_plural_text({n}) is {got:?}, expected {want:?}"));
    }
}

fn c11(ctx: &'static Ctx) {
    super::units::far_down(ctx, IDS | TEXT | FORMS);
    // every set of indexes: variants keep their places or the entry is refused
    let idx_max = 6usize;
    let bases = [1 << idx_max, 8, 3];
    ctx.exhaustive("every set of indexes", product(&bases), |c| {
        let d = digits(c.idx, &bases);
        let set: Vec<usize> = (0..idx_max).filter(|i| d[0] >> i & 1 == 1).collect();
        indexed(c, &set, d[1], d[2]);
    });
    // no forms at all leave no place for a variant
    ctx.exhaustive("no forms", 16 * 3, |c| {
        let set: Vec<usize> = (0..4).filter(|i| c.idx / 3 >> i & 1 == 1).collect();
        forms_indexed(c, &set, Some(0), c.idx as usize % 3);
    });
    // orders and repetitions of up to four indexes
    let k = 5u64;
    ctx.exhaustive("every order of indexes", words(k, 4) * 5, |c| {
        let w = word(c.idx / 5, k, 4);
        indexed(c, &w, (c.idx % 5) as usize + 1, 1);
    });
    // two-digit indexes, huge nplurals
    ctx.stream("many variants", ctx.n(4_000, 100_000), |c| {
        let most = if c.rng.chance(1, 8) { 300 } else { 90 };
        let n = c.rng.range(1, most);
        let mut v: Vec<usize> = (0..n).collect();
        match c.rng.below(8) {
            0 => {
                let i = c.rng.below(n);
                v.remove(i);
            }
            1 => {
                let (i, j) = (c.rng.below(n), c.rng.below(n));
                v.swap(i, j);
            }
            2 => {
                let i = c.rng.below(n);
                v.insert(i, i);
            }
            3 | 4 => {
                // an index that is nearly the one that is due: in its last or first digits, or modulo a power of two
                let i = c.rng.below(n);
                let far = *c.rng.pick(&[10usize, 100, 200, 1000, 10_000, 256, 1 << 16, 1 << 32, 1 << 63]);
                v[i] = if c.rng.chance(1, 4) { format!("{i}{}", c.rng.below(200)).parse().unwrap() } else { i.wrapping_add(far) };
            }
            _ => (),
        }
        let np = match c.rng.below(4) {
            0 => n,
            1 => c.rng.range(1, 100),
            2 => *c.rng.pick(&[1000, 65536, 1 << 32, usize::MAX, i64::MAX as usize]),
            _ => n + c.rng.below(3),
        };
        indexed(c, &v, np, c.idx as usize % 3);
    });
    // any number of them
    ctx.exhaustive("very many variants", (crate::dict::sizes().len() * 4) as u64, |c| {
        let n = crate::dict::sizes()[c.idx as usize / 4];
        let mut v: Vec<usize> = (0..n).collect();
        match c.idx % 4 {
            0 => (),
            // an index that comes back
            1 => v.push(0),
            2 => v[n - 1] = n - 2,
            _ => v.push(n - 1),
        }
        indexed(c, &v, n + 1 - c.idx as usize % 2, c.idx as usize / 4 % 2 * 2);
    });
    // random catalogues
    ctx.stream("catalogues", ctx.n(30_000, 800_000), |c| {
        let cfg = gen::Cfg { entries: (1, 5), long: 0, header: (5, 6), ..gen::Cfg::default() };
        let mut cat = gen::catalogue(&mut c.rng, &cfg);
        let count = cat.forms().map_or(2, |f| f.count);
        for e in &mut cat.entries {
            if c.rng.chance(1, 2) {
                let k = c.rng.range(1, count.min(300));
                e.body = gen::Body::Plural(gen::string(&mut c.rng, &cfg), (0..k).map(|_| gen::text(&mut c.rng, &cfg)).collect());
            }
        }
        let mut lay = gen::Layout::random(&mut c.rng);
        let text = cat.text(&mut lay);
        c.input(&text);
        let e = cat.forms().and_then(|f| formula::parse(&f.formula).map(|e| (f.count, e)));
        let want = cat.expect();
        let units = match obs::units_of(&text) {
            Ok(u) => u,
            Err(e) => c.fail(format!("not read: {e}")),
        };
        c.eq("number of units", &units.len(), &want.units.len());
        let mut rng = c.rng.clone();
        for (u, w) in units.iter().zip(&want.units) {
            match &w.msg {
                MsgObs::Plural { values, .. } => judge_plural(c, u.message(), values, e.as_ref().map(|(n, e)| (*n, e)), &mut rng),
                MsgObs::Simple { text, .. } => {
                    // a simple message has the same text for every count
                    for n in [0usize, 1, 2, 5, 1 << 40, usize::MAX] {
                        c.eq("get_plural_text of a simple message", &u.message().get_plural_text(n).unwrap_or(""), &text.as_str());
                    }
                }
            }
            // a previous message has no translation
            if let Some(p) = u.prev_message().plural() {
                c.check(p.values().is_empty() && (0..9).all(|n| p.get(n).is_none()), || "a previous message with variants".into());
            }
        }
    });
    // without Plural-Forms nothing can be selected
    ctx.exhaustive("no declaration", 3 * 6, |c| {
        let d = digits(c.idx, &[3, 6]);
        let head = ["", "msgid \"\"\nmsgstr \"Language: fr\\n\"\n\n", "msgid \"\"\nmsgstr \"Plural-Forms: \\n\"\n\n"][d[0]];
        let values: Vec<String> = match d[1] {
            0 => vec!["a".into()],
            1 => vec!["".into()],
            2 => vec!["a".into(), "b".into()],
            3 => vec!["".into(), "b".into()],
            4 => vec!["a".into(), "".into()],
            _ => vec!["".into(), "".into()],
        };
        let mut t = String::from(head) + "msgid \"s\"\nmsgid_plural \"p\"\n";
        for (i, v) in values.iter().enumerate() {
            t.push_str(&format!("msgstr[{i}] \"{v}\"\n"));
        }
        c.input(t.as_bytes());
        match obs::units_of(t.as_bytes()) {
            Ok(u) if u.len() == 1 => {
                let mut rng = c.rng.clone();
                judge_plural(c, u[0].message(), &values, None, &mut rng)
            }
            r => c.fail(format!("{r:?}")),
        }
    });
    ctx.require("variants selected", 100_000);
}

/// An entry whose variants are written with these indexes in this order, between two others.
fn indexed(c: &mut Case, idx: &[usize], nplurals: usize, kind: usize) {
    forms_indexed(c, idx, (nplurals > 0).then_some(nplurals), kind);
}

fn forms_indexed(c: &mut Case, idx: &[usize], nplurals: Option<usize>, kind: usize) {
    let declared = nplurals.is_some();
    let count = nplurals.unwrap_or(2);
    let formula = ["n", "n%7", "n==1 ? 0 : n<4 ? 1 : 2"][kind];
    let mut t = String::new();
    if declared {
        t.push_str(&po_header(&format!("Plural-Forms: nplurals={count}; plural={formula};\n")));
    }
    t.push_str("\nmsgid \"before\"\nmsgstr \"b\"\n\nmsgid \"s\"\nmsgid_plural \"p\"\n");
    for i in idx {
        if kind == 1 {
            t.push_str(&format!("msgstr[{i}] \"v\"\n\"{i}\"\n"));
        } else {
            t.push_str(&format!("msgstr[{i}] \"v{i}\"\n"));
        }
    }
    t.push_str("\nmsgid \"after\"\nmsgstr \"a\"\n");
    c.input(t.as_bytes());
    let mut units = vec![];
    let o = obs::with_parser(|p| obs::drive(p, t.as_bytes(), 16, |u| units.push(u.clone())));
    tally(c, &o);
    if let End::Panic(p) = &o.end {
        c.fail(format!("panic {p}"));
    }
    let good = !idx.is_empty() && idx.len() <= count && idx.iter().enumerate().all(|(i, x)| i == *x);
    if good {
        c.check(o.clean() && units.len() == 3, || format!("{} units, {:?}", units.len(), o.end));
        let values: Vec<String> = idx.iter().map(|i| format!("v{i}")).collect();
        let e = formula::parse(formula).unwrap();
        let mut rng = c.rng.clone();
        judge_plural(c, units[1].message(), &values, declared.then_some((count, &e)), &mut rng);
    } else {
        c.count("broken sets of variants", 1);
        // never shifted: the catalogue is refused
        c.check(o.err().is_some(), || format!("variants {idx:?} of {count} were accepted: {units:?}"));
        for u in &units {
            for (i, v) in u.message().plural().map(|p| p.values().clone()).unwrap_or_default().iter().enumerate() {
                c.check(*v == format!("v{i}"), || format!("variant {v:?} at index {i}"));
            }
        }
    }
}
