//! Small hostile workloads for the undefined-behaviour interpreter (Miri): it is some ten thousand times slower than the
//! machine, so the inputs are few and short. Ends with status 0 and the number of outcomes observed.
use poreader::{CatalogueReader, PoParser};
use std::{io::Read, sync::Barrier, thread, time::Instant};

/// Gives its bytes in pieces of `n`.
struct Pieces<'a>(&'a [u8], usize);

impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(self.0.len()).min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

const HOSTILE: &[&[u8]] = &[
    b"",
    b"\n",
    b"#\n#,\n#:\n#.\n#~\n#|\n",
    b"msgid \"a\"\nmsgstr \"\\n\\t\\\"\\\\\\x41\\101\\u00e9\"\n",
    "#, fuzzy\r\n#| msgid \"p\"\r\nmsgctxt \"é\"\r\nmsgid \"\" \"漢\"\r\nmsgstr \"😀\"\r\n".as_bytes(),
    b"msgid \"\xff\xfe\"\nmsgstr \"\xc3\"\n",
    b"msgid \"a\\",
    b"msgid \"a\\xZZ\\8\\q\"\nmsgstr \"\\uD800\"\n",
    b"msgid \"\"\nmsgstr \"Language: \xf0\x9f\x98\x80\\nX:y\\n\"\n",
    "msgid \"\"\nmsgstr \"Language: é_É@é.é\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n".as_bytes(),
    b"#~ msgid \"o\"\n#~ msgstr \"p\"\n#~| msgid \"q\"\n",
    b"msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[99999999999999999999] \"c\"\n",
    b"msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[1] \"c\"\nmsgstr[0] \"d\"\n",
    b"\xef\xbb\xbfmsgid \"a\"\nmsgstr \"b\"\n",
    b"msgid \"a\" junk\nmsgstr \"b\"\n",
];

const FORMULAS: &[&str] = &["n", "n%0", "n/n", "-9223372036854775807-n-n", "n*n*n*4611686018427387904", "n?n:n&&!n"];

fn outcome(p: &PoParser, t: &[u8], piece: usize) -> String {
    let mut s = String::new();
    match p.parse(Pieces(t, piece)) {
        Err(e) => s += &format!("{e} {e:?}"),
        Ok(r) => {
            s += r.target_language().as_ref();
            for u in r {
                match u {
                    Ok(u) => {
                        let k = u.clone();
                        drop(u);
                        s += &format!("{k:?}");
                        for n in [0, 1, 2, usize::MAX, i64::MAX as usize] {
                            s += k.message().get_plural_text(n).unwrap_or("-");
                        }
                    }
                    Err(e) => {
                        s += &format!("{e} {e:?}");
                        s += &std::io::Error::from(e).to_string();
                        break;
                    }
                }
            }
        }
    }
    s
}

fn main() {
    let limit: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(600);
    let t0 = Instant::now();
    let p = PoParser::new();
    let mut seen = 0;
    match std::env::args().nth(1).as_deref() {
        Some("threads") => {
            let texts: Vec<String> = (0..3)
                .map(|i| format!("#, fuzzy\n#: a.c:{i}\nmsgid \"id{i}\"\nmsgstr \"té\\n{i}\"\n\nmsgid \"x\"\nmsgstr \"\"\n"))
                .collect();
            let gate = Barrier::new(texts.len());
            let got: Vec<String> = thread::scope(|s| {
                let h: Vec<_> = texts
                    .iter()
                    .map(|t| {
                        let (p, gate) = (&p, &gate);
                        s.spawn(move || {
                            gate.wait();
                            outcome(p, t.as_bytes(), 7)
                        })
                    })
                    .collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (t, g) in texts.iter().zip(got) {
                assert!(g == outcome(&p, t.as_bytes(), 1000), "differs: {g}");
                seen += 1;
            }
        }
        _ => {
            for (i, t) in HOSTILE.iter().enumerate() {
                let a = outcome(&p, t, 1 + i % 5);
                seen += 1;
                eprintln!("{i}: {a}");
            }
            // damaged mixtures of the above, until the time is up
            let mut x: u64 = 0x9e37_79b9_7f4a_7c15;
            let mut rnd = |n: usize| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 11) as usize % n
            };
            while t0.elapsed().as_secs() < limit {
                let (a, b) = (HOSTILE[rnd(HOSTILE.len())], HOSTILE[rnd(HOSTILE.len())]);
                let (i, j) = (rnd(a.len() + 1), rnd(b.len() + 1));
                let mut t = [&a[..i], b"\n", &b[j..]].concat();
                for _ in 0..rnd(3) {
                    let k = rnd(t.len());
                    t[k] = [b'"', b'\\', 0xff, b'\n', b'#', 0xc3, 0, b'['][rnd(8)];
                }
                outcome(&p, &t, 1 + rnd(20));
                seen += 1;
            }
            for f in FORMULAS {
                let t = format!(
                    "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural={f};\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n"
                );
                let a = outcome(&p, t.as_bytes(), 1000);
                seen += 1;
                eprintln!("{f}: {a}");
            }
        }
    }
    println!("UB-FREE on {seen} cases");
}
