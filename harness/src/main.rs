//! Runtime monitors for poreader.
//!
//! `pomon check ID` runs the monitor of one property in a worker process and judges how the worker ended, so that a
//! crash (abort, stack overflow, sanitizer report) is a verdict about the case that was running.
mod alloc;
mod checks;
mod ctx;
mod dict;
mod formula;
mod gen;
mod lang;
mod obs;
mod refm;
mod rng;
mod stress;

use ctx::{Tier, EXIT_INCONCLUSIVE};
use std::{
    env, fs,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{exit, Command, ExitStatus},
};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn dir() -> PathBuf {
    env::var_os("POMON_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn tier() -> Tier {
    match env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed() -> u64 {
    env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn worker(id: &str, only: Option<(String, u64)>) -> ! {
    let Some((meta, f)) = checks::all().into_iter().find(|(m, _)| m.id == id) else {
        eprintln!("no such property: {id}");
        exit(2);
    };
    let c = ctx::install(meta, tier(), seed(), dir(), only);
    f(c);
    c.finish();
    exit(0)
}

fn spawn(id: &str, cur: &Path, only: Option<&(String, u64)>) -> ExitStatus {
    let exe = env::current_exe().expect("exe");
    let mut cmd = Command::new(exe);
    cmd.arg("worker").arg(id).env("POMON_CUR", cur);
    if let Some((s, i)) = only {
        cmd.arg(s).arg(i.to_string()).env("POMON_NO_EVIDENCE", "1");
    }
    cmd.status().expect("spawn")
}

const SIGNALS: &[(i32, &str)] = &[(4, "SIGILL"), (6, "SIGABRT"), (7, "SIGBUS"), (8, "SIGFPE"), (11, "SIGSEGV")];

/// Sanitizers end a process with this (set by run.sh).
const EXIT_SANITIZER: i32 = 66;

fn crash(st: &ExitStatus) -> Option<String> {
    if let Some(s) = st.signal() {
        return SIGNALS.iter().find(|x| x.0 == s).map(|x| x.1.to_string());
    }
    (st.code() == Some(EXIT_SANITIZER)).then(|| "a sanitizer report".to_string())
}

fn check(id: &str) -> ! {
    let tmp = env::temp_dir().join(format!("pomon-{}-{id}", std::process::id()));
    fs::create_dir_all(&tmp).expect("tmp");
    let cur = tmp.join("cur");
    let st = spawn(id, &cur, None);
    let code = match crash(&st) {
        None => match st.code() {
            Some(c @ (0 | 1)) => c,
            Some(c) => {
                println!("INCONCLUSIVE property={id} worker ended with {c}");
                EXIT_INCONCLUSIVE
            }
            None => {
                println!("INCONCLUSIVE property={id} worker killed: {st:?}");
                EXIT_INCONCLUSIVE
            }
        },
        Some(how) => {
            // which of the running cases was it?
            let mut found = None;
            for s in ctx::slots_of(&cur) {
                println!("re-running {} #{}", s.0, s.1);
                let again = spawn(id, &tmp.join("again"), Some(&s));
                if crash(&again).is_some() || again.code() == Some(1) {
                    found = Some(s);
                    break;
                }
            }
            let (stream, idx) = found.clone().unwrap_or(("unknown".into(), 0));
            let msg = format!("the process died with {how} while reading");
            let note = if found.is_some() { "reproduced alone" } else { "not reproduced by a single case" };
            let path = ctx::write_replay(&dir(), id, seed(), tier(), &stream, idx, &[], note, &msg);
            if let Some((meta, _)) = checks::all().into_iter().find(|(m, _)| m.id == id) {
                ctx::crash_evidence(&dir(), &meta, tier(), seed(), &msg);
            }
            println!("{msg} ({stream} #{idx}, {note})\nVIOLATION property={id} replay={}", path.display());
            1
        }
    };
    let _ = fs::remove_dir_all(&tmp);
    exit(code)
}

fn replay(path: &str) -> ! {
    let text = fs::read_to_string(path).expect("replay file");
    let get = |k: &str| {
        text.lines().take(5).find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('='))).unwrap_or_default().to_string()
    };
    env::set_var("VERIF_SEED", get("seed"));
    env::set_var("VERIF_TIER", get("tier"));
    let tmp = env::temp_dir().join(format!("pomon-replay-{}", std::process::id()));
    let id = get("property");
    let st = spawn(&id, &tmp, Some(&(get("stream"), get("idx").parse().unwrap_or(0))));
    let _ = fs::remove_file(&tmp);
    if let Some(how) = crash(&st) {
        println!("died with {how}\nVIOLATION property={id} replay={path}");
        exit(1);
    }
    exit(st.code().unwrap_or(EXIT_INCONCLUSIVE))
}

fn main() {
    let args: Vec<String> = env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[..] {
        ["check", id] => check(id),
        ["worker", id] => worker(id, None),
        ["worker", id, stream, idx] => worker(id, Some((stream.into(), idx.parse().expect("idx")))),
        ["replay", path] => replay(path),
        ["dict"] => println!("{:#?}\n{:?}", dict::dict(), dict::sizes()),
        ["list"] => {
            for (m, _) in checks::all() {
                println!("{} {}", m.id, m.level);
            }
        }
        _ => {
            eprintln!("usage: pomon check ID | replay FILE | list");
            exit(2)
        }
    }
}
