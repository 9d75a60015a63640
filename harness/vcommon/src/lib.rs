//! Shared pieces of the conformance drivers: a seeded random number generator, a tiny JSON
//! writer, and the recorder that turns a run of the real code into one line of ndjson.

use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        // Seeds that are close to each other must not give shifted copies of one sequence.
        let mut r = Rng(seed ^ 0x5851F42D4C957F2D);
        for _ in 0..3 {
            r.0 = r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = self.below(i + 1);
            items.swap(i, j);
        }
    }
}

#[derive(Clone, Debug)]
pub enum J {
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{}", i);
            }
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(items) => {
                out.push('[');
                for (i, item) in items.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    item.write(out);
                }
                out.push(']');
            }
            J::O(fields) => {
                out.push('{');
                for (i, (name, value)) in fields.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::S(name.clone()).write(out);
                    out.push(':');
                    value.write(out);
                }
                out.push('}');
            }
        }
    }
}

impl From<bool> for J {
    fn from(v: bool) -> J {
        J::B(v)
    }
}
impl From<i64> for J {
    fn from(v: i64) -> J {
        J::I(v)
    }
}
impl From<u64> for J {
    fn from(v: u64) -> J {
        // TLC integers have 32 bits. Opaque ids outside are not expected.
        J::I(if v < (1 << 31) { v as i64 } else { -1 })
    }
}
impl From<u32> for J {
    fn from(v: u32) -> J {
        J::from(v as u64)
    }
}
impl From<usize> for J {
    fn from(v: usize) -> J {
        J::from(v as u64)
    }
}
impl From<i32> for J {
    fn from(v: i32) -> J {
        J::I(v as i64)
    }
}
impl From<&str> for J {
    fn from(v: &str) -> J {
        J::S(v.to_string())
    }
}
impl From<&String> for J {
    fn from(v: &String) -> J {
        J::S(v.clone())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::S(v)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::A(v.into_iter().map(|x| x.into()).collect())
    }
}

#[macro_export]
macro_rules! obj {
    ($($name:literal : $value:expr),* $(,)?) => {
        $crate::J::O(vec![$(($name.to_string(), $crate::J::from($value))),*])
    };
}

/// Order preserving encoding of a position on the ring as a 32-bit signed integer, the only
/// integers TLC has.
pub fn enc(v: u32) -> i64 {
    v as i64 - (1i64 << 31)
}

#[derive(Clone)]
pub struct Rec {
    events: Rc<RefCell<Vec<J>>>,
}

impl Rec {
    pub fn new() -> Self {
        Rec { events: Rc::new(RefCell::new(Vec::new())) }
    }
    pub fn ev(&self, e: J) {
        self.events.borrow_mut().push(e);
    }
    pub fn len(&self) -> usize {
        self.events.borrow().len()
    }
    /// Whether an event since the n-th satisfies the condition.
    pub fn since(&self, n: usize, f: impl Fn(&J) -> bool) -> bool {
        self.events.borrow().iter().skip(n).any(|e| f(e))
    }
    /// The last event that satisfies the condition.
    pub fn last(&self, f: impl Fn(&J) -> bool) -> Option<J> {
        self.events.borrow().iter().rev().find(|e| f(e)).cloned()
    }
    pub fn take(&self) -> Vec<J> {
        std::mem::take(&mut *self.events.borrow_mut())
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Runs one trace. A panic of the code under test is recorded as the last event.
pub fn run_trace(out: &mut impl std::io::Write, id: usize, f: impl FnOnce(&Rec) -> J) {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{}", info).replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
    let rec = Rec::new();
    // The configuration must survive a panic, so it is recorded as the first event.
    let result = catch_unwind(AssertUnwindSafe(|| f(&rec)));
    if result.is_err() {
        let text = LAST_PANIC.with(|p| p.borrow().clone());
        rec.ev(obj! {"e": "panic", "msg": text});
    }
    let events = rec.take();
    let mut line = String::new();
    obj! {"id": id, "ev": J::A(events)}.write(&mut line);
    line.push('\n');
    out.write_all(line.as_bytes()).unwrap();
}

/// Minimal command line: --name value pairs after the subcommand.
pub struct Args {
    pub cmd: String,
    opts: Vec<(String, String)>,
}

impl Args {
    pub fn parse() -> Args {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().expect("subcommand");
        let mut opts = Vec::new();
        while let Some(name) = it.next() {
            let value = it.next().expect("option value");
            opts.push((name.trim_start_matches("--").to_string(), value));
        }
        Args { cmd, opts }
    }
    pub fn get(&self, name: &str) -> Option<&str> {
        self.opts.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
    }
    pub fn num(&self, name: &str, default: u64) -> u64 {
        self.get(name).map_or(default, |v| v.parse().unwrap())
    }
    pub fn writer(&self) -> std::io::BufWriter<std::fs::File> {
        std::io::BufWriter::new(
            std::fs::File::create(self.get("out").expect("--out")).expect("create output"),
        )
    }
}

pub fn flush(w: &mut impl std::io::Write) {
    w.flush().unwrap();
    let _ = std::io::stdout().flush();
}

impl J {
    pub fn parse(text: &str) -> J {
        let bytes = text.as_bytes();
        let mut pos = 0;
        let v = parse_value(bytes, &mut pos);
        v
    }
    pub fn get(&self, name: &str) -> &J {
        self.find(name).unwrap_or_else(|| panic!("script: no field {}", name))
    }
    pub fn find(&self, name: &str) -> Option<&J> {
        match self {
            J::O(fields) => fields.iter().find(|(n, _)| n == name).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(i) => *i,
            other => panic!("script: not a number {:?}", other),
        }
    }
    pub fn text(&self) -> &str {
        match self {
            J::S(s) => s,
            other => panic!("script: not a string {:?}", other),
        }
    }
    pub fn flag(&self) -> bool {
        match self {
            J::B(b) => *b,
            other => panic!("script: not a boolean {:?}", other),
        }
    }
    pub fn items(&self) -> &[J] {
        match self {
            J::A(items) => items,
            other => panic!("script: not a list {:?}", other),
        }
    }
}

fn skip_ws(b: &[u8], pos: &mut usize) {
    while *pos < b.len() && (b[*pos] as char).is_whitespace() {
        *pos += 1;
    }
}

fn parse_value(b: &[u8], pos: &mut usize) -> J {
    skip_ws(b, pos);
    match b[*pos] {
        b'{' => {
            *pos += 1;
            let mut fields = Vec::new();
            loop {
                skip_ws(b, pos);
                match b[*pos] {
                    b'}' => {
                        *pos += 1;
                        return J::O(fields);
                    }
                    b',' => *pos += 1,
                    _ => {
                        let name = match parse_value(b, pos) {
                            J::S(s) => s,
                            other => panic!("script: bad field name {:?}", other),
                        };
                        skip_ws(b, pos);
                        assert_eq!(b[*pos], b':');
                        *pos += 1;
                        fields.push((name, parse_value(b, pos)));
                    }
                }
            }
        }
        b'[' => {
            *pos += 1;
            let mut items = Vec::new();
            loop {
                skip_ws(b, pos);
                match b[*pos] {
                    b']' => {
                        *pos += 1;
                        return J::A(items);
                    }
                    b',' => *pos += 1,
                    _ => items.push(parse_value(b, pos)),
                }
            }
        }
        b'"' => {
            *pos += 1;
            let mut s = String::new();
            while b[*pos] != b'"' {
                if b[*pos] == b'\\' {
                    *pos += 1;
                }
                s.push(b[*pos] as char);
                *pos += 1;
            }
            *pos += 1;
            J::S(s)
        }
        b't' => {
            *pos += 4;
            J::B(true)
        }
        b'f' => {
            *pos += 5;
            J::B(false)
        }
        _ => {
            let start = *pos;
            while *pos < b.len() && (b[*pos] == b'-' || b[*pos].is_ascii_digit()) {
                *pos += 1;
            }
            J::I(std::str::from_utf8(&b[start..*pos]).unwrap().parse().unwrap())
        }
    }
}
