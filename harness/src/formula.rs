//! Reference for the plural formulas: C expressions over `n` and non-negative integers.
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Or,
    And,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Add,
    Sub,
    Mul,
    Div,
    Mod,
}

pub const OPS: [Op; 13] = [
    Op::Or,
    Op::And,
    Op::Eq,
    Op::Ne,
    Op::Lt,
    Op::Le,
    Op::Gt,
    Op::Ge,
    Op::Add,
    Op::Sub,
    Op::Mul,
    Op::Div,
    Op::Mod,
];

impl Op {
    pub fn prec(self) -> u8 {
        match self {
            Op::Or => 1,
            Op::And => 2,
            Op::Eq | Op::Ne => 3,
            Op::Lt | Op::Le | Op::Gt | Op::Ge => 4,
            Op::Add | Op::Sub => 6,
            Op::Mul | Op::Div | Op::Mod => 7,
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            Op::Or => "||",
            Op::And => "&&",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Mod => "%",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    N,
    Num(i64),
    Neg(Box<E>),
    Not(Box<E>),
    Bin(Op, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
}

fn bin(op: Op, l: i64, r: i64) -> i64 {
    match op {
        Op::Or => (l != 0 || r != 0) as i64,
        Op::And => (l != 0 && r != 0) as i64,
        Op::Eq => (l == r) as i64,
        Op::Ne => (l != r) as i64,
        Op::Lt => (l < r) as i64,
        Op::Le => (l <= r) as i64,
        Op::Gt => (l > r) as i64,
        Op::Ge => (l >= r) as i64,
        Op::Add => l.wrapping_add(r),
        Op::Sub => l.wrapping_sub(r),
        Op::Mul => l.wrapping_mul(r),
        Op::Div if r == 0 => {
            if l < 0 {
                i64::MIN
            } else {
                i64::MAX
            }
        }
        Op::Div => l.wrapping_div(r),
        Op::Mod if r == 0 => l,
        Op::Mod => l.wrapping_rem(r),
    }
}

impl E {
    /// The value, in wrapping 64-bit arithmetic; division by zero saturates and modulo zero is the dividend.
    pub fn eval(&self, n: i64) -> i64 {
        match self {
            E::N => n,
            E::Num(v) => *v,
            E::Neg(e) => e.eval(n).wrapping_neg(),
            E::Not(e) => (e.eval(n) == 0) as i64,
            E::Bin(op, l, r) => bin(*op, l.eval(n), r.eval(n)),
            E::Cond(t, a, b) => {
                if t.eval(n) != 0 {
                    a.eval(n)
                } else {
                    b.eval(n)
                }
            }
        }
    }

    /// The value as C defines it (with lazy operators), or None where C leaves it undefined.
    pub fn eval_c(&self, n: i64) -> Option<i64> {
        Some(match self {
            E::N => n,
            E::Num(v) => *v,
            E::Neg(e) => e.eval_c(n)?.checked_neg()?,
            E::Not(e) => (e.eval_c(n)? == 0) as i64,
            E::Bin(Op::Or, l, r) => (l.eval_c(n)? != 0 || r.eval_c(n)? != 0) as i64,
            E::Bin(Op::And, l, r) => (l.eval_c(n)? != 0 && r.eval_c(n)? != 0) as i64,
            E::Bin(op, l, r) => {
                let (l, r) = (l.eval_c(n)?, r.eval_c(n)?);
                match op {
                    Op::Add => l.checked_add(r)?,
                    Op::Sub => l.checked_sub(r)?,
                    Op::Mul => l.checked_mul(r)?,
                    Op::Div => l.checked_div(r)?,
                    Op::Mod => l.checked_rem(r)?,
                    op => bin(*op, l, r),
                }
            }
            E::Cond(t, a, b) => {
                if t.eval_c(n)? != 0 {
                    a.eval_c(n)?
                } else {
                    b.eval_c(n)?
                }
            }
        })
    }

    pub fn size(&self) -> usize {
        1 + match self {
            E::N | E::Num(_) => 0,
            E::Neg(e) | E::Not(e) => e.size(),
            E::Bin(_, l, r) => l.size() + r.size(),
            E::Cond(t, a, b) => t.size() + a.size() + b.size(),
        }
    }

    fn prec(&self) -> u8 {
        match self {
            E::Cond(..) => 0,
            E::Bin(op, ..) => op.prec(),
            E::Not(_) => 5,
            E::Neg(_) => 8,
            E::N | E::Num(_) => 9,
        }
    }

    /// C text with the parentheses C needs (plus those around the operand of `!` and around `!` under arithmetic,
    /// where the accepted grammar is narrower: see the finding recorded for C09).
    pub fn print(&self, st: &mut Style, min: u8, out: &mut String) {
        let paren = self.prec() < min || st.redundant();
        if paren {
            out.push('(');
            st.space(out);
        }
        match self {
            E::N => out.push('n'),
            E::Num(v) => out.push_str(&v.to_string()),
            E::Neg(e) => {
                out.push('-');
                st.space(out);
                e.print(st, 9, out);
            }
            E::Not(e) => {
                if st.word() {
                    out.push_str("not ");
                } else {
                    out.push('!');
                    st.space(out);
                }
                e.print(st, 9, out);
            }
            E::Bin(op, l, r) => {
                let p = op.prec();
                l.print(st, p, out);
                st.space(out);
                if *op == Op::Or && st.word() {
                    out.push_str(" or ");
                } else if *op == Op::And && st.word() {
                    out.push_str(" and ");
                } else {
                    out.push_str(op.text());
                }
                st.space(out);
                // left associative; an operand of the same level on the right needs parentheses
                r.print(st, p + 1, out);
            }
            E::Cond(t, a, b) => {
                t.print(st, 1, out);
                st.space(out);
                out.push('?');
                st.space(out);
                a.print(st, 0, out);
                st.space(out);
                out.push(':');
                st.space(out);
                b.print(st, 0, out);
            }
        }
        if paren {
            st.space(out);
            out.push(')');
        }
    }

    pub fn text(&self, rng: &mut Rng) -> String {
        let mut st = Style {
            spaces: rng.below(4),
            paren: if rng.chance(1, 4) { 6 } else { 0 },
            words: rng.chance(1, 5),
            rng: rng.clone(),
        };
        rng.next();
        let mut s = String::new();
        self.print(&mut st, 0, &mut s);
        s
    }

    /// Fully minimal spelling.
    pub fn plain(&self) -> String {
        let mut st = Style { spaces: 0, paren: 0, words: false, rng: Rng::new(0) };
        let mut s = String::new();
        self.print(&mut st, 0, &mut s);
        s
    }
}

pub struct Style {
    /// 0 none, 1 always, 2 and 3 sometimes
    pub spaces: usize,
    /// one in this many gets redundant parentheses
    pub paren: usize,
    pub words: bool,
    pub rng: Rng,
}

impl Style {
    fn space(&mut self, out: &mut String) {
        match self.spaces {
            0 => (),
            1 => out.push(' '),
            2 => {
                if self.rng.chance(1, 2) {
                    out.push(' ')
                }
            }
            _ => {
                for _ in 0..self.rng.below(3) {
                    out.push(' ');
                }
            }
        }
    }
    fn redundant(&mut self) -> bool {
        self.paren > 0 && self.rng.chance(1, self.paren)
    }
    fn word(&mut self) -> bool {
        self.words && self.rng.chance(1, 2)
    }
}

/// A random expression of about `size` nodes.
pub fn gen(rng: &mut Rng, size: usize) -> E {
    if size <= 1 {
        return match rng.below(10) {
            0..=4 => E::N,
            5 => E::Num(*rng.pick(&[10, 100, 11, 12, 14, 19, 20, 1000, 1_000_000])),
            6 if rng.chance(1, 8) => {
                E::Num(*rng.pick(&[i64::MAX, i64::MAX - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 31) - 1, 1 << 62]))
            }
            7 if rng.chance(1, 4) => E::Num((crate::dict::number(rng) & i64::MAX as u64) as i64),
            _ => E::Num(rng.below(8) as i64),
        };
    }
    let left = size - 1;
    match rng.below(12) {
        0 => E::Neg(Box::new(gen(rng, left))),
        1 => E::Not(Box::new(gen(rng, left))),
        2 | 3 if left >= 3 => {
            let a = rng.range(1, left - 2);
            let b = rng.range(1, left - a - 1);
            E::Cond(Box::new(gen(rng, a)), Box::new(gen(rng, b)), Box::new(gen(rng, left - a - b)))
        }
        _ => {
            let a = rng.range(1, left.max(2) - 1);
            let op = *rng.pick(&OPS);
            E::Bin(op, Box::new(gen(rng, a)), Box::new(gen(rng, left.max(2) - a)))
        }
    }
}

struct T<'a> {
    s: &'a str,
    /// C's grammar of unary operators
    c: bool,
}

impl<'a> T<'a> {
    fn peek(&mut self) -> &'a str {
        self.s = self.s.trim_start();
        let s = self.s;
        for t in ["||", "&&", "==", "!=", "<=", ">=", "or", "and", "not"] {
            if s.starts_with(t) {
                return &s[..t.len()];
            }
        }
        match s.chars().next() {
            Some(c) if c.is_ascii_digit() => &s[..s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len())],
            Some(c) => &s[..c.len_utf8()],
            None => "",
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.peek() == t {
            self.s = &self.s[t.len()..];
            true
        } else {
            false
        }
    }
    fn expr(&mut self) -> Option<E> {
        let t = self.bin(1)?;
        if !self.eat("?") {
            return Some(t);
        }
        let a = self.expr()?;
        if !self.eat(":") {
            return None;
        }
        let b = self.expr()?;
        Some(E::Cond(Box::new(t), Box::new(a), Box::new(b)))
    }
    fn bin(&mut self, min: u8) -> Option<E> {
        let mut l = if self.c {
            self.unary()?
        } else if min <= 5 && (self.eat("!") || self.eat("not")) {
            E::Not(Box::new(self.bin(6)?))
        } else if self.eat("-") {
            E::Neg(Box::new(self.term()?))
        } else {
            self.term()?
        };
        loop {
            let t = self.peek();
            let op = match t {
                "or" => Op::Or,
                "and" => Op::And,
                t => match OPS.iter().find(|o| o.text() == t) {
                    Some(o) => *o,
                    None => return Some(l),
                },
            };
            if op.prec() < min {
                return Some(l);
            }
            self.s = &self.s[t.len()..];
            let r = self.bin(op.prec() + 1)?;
            l = E::Bin(op, Box::new(l), Box::new(r));
        }
    }
    fn unary(&mut self) -> Option<E> {
        if self.eat("!") || self.eat("not") {
            Some(E::Not(Box::new(self.unary()?)))
        } else if self.eat("-") {
            Some(E::Neg(Box::new(self.unary()?)))
        } else {
            self.term()
        }
    }
    fn term(&mut self) -> Option<E> {
        let t = self.peek();
        if self.eat("n") {
            return Some(E::N);
        }
        if self.eat("(") {
            let e = self.expr()?;
            return if self.eat(")") { Some(e) } else { None };
        }
        if t.starts_with(|c: char| c.is_ascii_digit()) {
            self.s = &self.s[t.len()..];
            return t.parse().ok().map(E::Num);
        }
        None
    }
}

/// The accepted grammar: C's, without unary plus, bitwise operators and stacked unary operators; `!` takes an
/// arithmetic operand.
pub fn parse(s: &str) -> Option<E> {
    whole(T { s, c: false })
}

/// C's grammar over the same operators (and the words `or`, `and`, `not`).
pub fn parse_c(s: &str) -> Option<E> {
    whole(T { s, c: true })
}

fn whole(mut t: T) -> Option<E> {
    let e = t.expr()?;
    if t.s.trim_start().is_empty() {
        Some(e)
    } else {
        None
    }
}

/// The formulas in actual use (gettext manual and Unicode plural rules as catalogues spell them).
pub const REAL: &[(usize, &str)] = &[
    (1, "0"),
    (2, "n != 1"),
    (2, "n>1"),
    (2, "(n > 1)"),
    (2, "n%10!=1 || n%100==11"),
    (2, "n==1 || n%10==1 ? 0 : 1"),
    (3, "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2"),
    (3, "n==1 ? 0 : n==2 ? 1 : 2"),
    (3, "n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2"),
    (3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2"),
    (3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"),
    (3, "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2"),
    (3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"),
    (4, "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3"),
    (4, "(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3"),
    (4, "(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3"),
    (4, "n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3"),
    (4, "n==1 ? 3 : n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2"),
    (5, "n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4"),
    (5, "n==1 ? 0 : n==2 ? 1 : (n>2 && n<7) ? 2 :(n>6 && n<11) ? 3 : 4"),
    (6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"),
    (6, "(n==0) ? 0 : (n==1) ? 1 : (n==2) ? 2 : (n==3) ? 3 :(n==6) ? 4 : 5"),
];
