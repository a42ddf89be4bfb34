//! Sources that misbehave, and readers of long streams.
use crate::{
    ctx,
    obs::{self, ErrObs},
    rng::Rng,
};
use poreader::{unit::Unit, PoParser};
use std::{
    cell::Cell,
    io::{Error, ErrorKind, Read, Result},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

/// Read to the end without keeping the units. The first complaint ends it.
pub fn visit<R: Read>(p: &PoParser, r: R, mut f: impl FnMut(&Unit) -> std::result::Result<(), String>) -> std::result::Result<(), String> {
    let res = catch_unwind(AssertUnwindSafe(|| {
        let reader = p.parse(r).map_err(|e| format!("parse failed: {e:?}"))?;
        for u in reader {
            let u = u.map_err(|e| format!("error while reading: {e:?}"))?;
            f(&u)?;
        }
        Ok(())
    }));
    match res {
        Ok(r) => r,
        Err(p) => {
            let (loc, _) = ctx::last_panic();
            let m = ctx::payload(&*p);
            if obs::is_harness(&loc) {
                panic!("harness {loc}: {m}");
            }
            Err(format!("panic at {loc}: {m}"))
        }
    }
}

/// How a source cuts what it delivers.
#[derive(Clone, Debug)]
pub enum Chunks {
    Whole,
    Fixed(usize),
    Random(Rng2, usize),
    /// cuts at these offsets
    At(Vec<usize>),
}

#[derive(Clone)]
pub struct Rng2(pub Rng);
impl std::fmt::Debug for Rng2 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("rng")
    }
}

pub struct Source<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunks: Chunks,
    /// one read in this many is interrupted (0: none)
    pub interrupt: usize,
    pub rng: Rng,
    pub reads: Rc<Cell<u64>>,
    pub given: Rc<Cell<usize>>,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], chunks: Chunks) -> Source<'a> {
        Source {
            data,
            pos: 0,
            chunks,
            interrupt: 0,
            rng: Rng::new(7),
            reads: Rc::default(),
            given: Rc::default(),
        }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.reads.set(self.reads.get() + 1);
        if self.interrupt > 0 && self.rng.chance(1, self.interrupt) {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let left = self.data.len() - self.pos;
        let mut n = left.min(buf.len());
        match &mut self.chunks {
            Chunks::Whole => (),
            Chunks::Fixed(k) => n = n.min(*k),
            Chunks::Random(r, max) => n = n.min(r.0.range(1, *max)),
            Chunks::At(v) => {
                if let Some(c) = v.iter().find(|c| **c > self.pos) {
                    n = n.min(c - self.pos);
                }
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.given.set(self.pos);
        Ok(n)
    }
}

/// A payload that identifies the failure it travels in.
#[derive(Debug)]
pub struct Tag(pub u64);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}
impl std::error::Error for Tag {}

/// Delivers `data[..at]`, fails once, then goes on as if nothing had happened.
/// What the failure carries.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Payload,
    Simple,
    Os(i32),
}

pub struct Faulty<'a> {
    pub how: How,
    pub src: Source<'a>,
    pub at: usize,
    pub kind: ErrorKind,
    pub tag: u64,
    pub failed: Rc<Cell<bool>>,
    /// reads after the failure
    pub after: Rc<Cell<u64>>,
}

impl<'a> Read for Faulty<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
            return self.src.read(buf);
        }
        if self.src.pos >= self.at {
            self.failed.set(true);
            return Err(match self.how {
                How::Payload => Error::new(self.kind, Tag(self.tag)),
                How::Simple => Error::from(self.kind),
                How::Os(code) => Error::from_raw_os_error(code),
            });
        }
        let n = buf.len().min(self.at - self.src.pos);
        self.src.read(&mut buf[..n])
    }
}

/// Reports its end at each of these offsets once, and then goes on.
pub struct Pausing<'a> {
    pub src: Source<'a>,
    pub ends: Vec<usize>,
}

impl<'a> Read for Pausing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let Some(at) = self.ends.first().copied() else { return self.src.read(buf) };
        if self.src.pos >= at {
            self.ends.remove(0);
            return Ok(0);
        }
        let n = buf.len().min(at - self.src.pos);
        self.src.read(&mut buf[..n])
    }
}

/// What `next` gives, call after call, well beyond the first end.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    Unit(Box<obs::UnitObs>),
    Err(ErrObs),
    None,
    Panic(String),
}

pub fn steps<R: Read>(p: &PoParser, r: R, cap: usize, extra: usize, mut on_err: impl FnMut(&poreader::error::Error)) -> (bool, Vec<Step>) {
    let mut v = vec![];
    let mut refused = false;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut reader = match p.parse(r) {
            Ok(r) => r,
            Err(e) => {
                refused = true;
                on_err(&e);
                v.push(Step::Err(ErrObs::of(&e)));
                return;
            }
        };
        let mut over = 0;
        while over < extra && v.len() < cap + extra {
            match reader.next() {
                Some(Ok(u)) => v.push(Step::Unit(Box::new(obs::unit(&u)))),
                Some(Err(e)) => {
                    on_err(&e);
                    v.push(Step::Err(ErrObs::of(&e)));
                }
                None => {
                    v.push(Step::None);
                    over += 1;
                }
            }
        }
    }));
    if let Err(p) = res {
        let (loc, _) = ctx::last_panic();
        let m = ctx::payload(&*p);
        if obs::is_harness(&loc) {
            panic!("harness {loc}: {m}");
        }
        v.push(Step::Panic(format!("{loc}: {m}")));
    }
    (refused, v)
}
