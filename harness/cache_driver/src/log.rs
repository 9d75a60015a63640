//! Drives the remote logger in both of its variants: records of all levels, with key-values of
//! their own and of the loggers they are made through, from one thread and from several.

use slog::{Key, Level, Logger, OwnedKV, Record, RecordLocation, RecordStatic, Serializer, KV};
use tcp_proto::runtime::endpoint::{LogMessage, LogSeverity};
use vcommon::{obj, Rec, Rng, J};

const FILES: [(&str, &str); 6] = [
    ("runtime/src/driver.rs", "driver.rs"),
    ("plain.rs", "plain.rs"),
    ("/abs/very/deep/path/x_y.rs", "x_y.rs"),
    ("./a.rs", "a.rs"),
    ("dir.rs/inner/b.rs", "b.rs"),
    ("日本/ü.rs", "ü.rs"),
];
const LEVELS: [Level; 6] =
    [Level::Critical, Level::Error, Level::Warning, Level::Info, Level::Debug, Level::Trace];
// What surrounds the marker of a message.
const TEXTS: [(&str, &str); 6] =
    [("", ""), ("{} ", " {:?}"), ("a/b // ", "\nsecond line"), ("%s \"", "\"\t"), ("日本 ", " ∎"), (", : @", " / ")];

fn around(text: usize) -> (String, String) {
    match TEXTS.get(text) {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => ("long".repeat(400), "€".repeat(30_000)),
    }
}

/// A key-value pair by number: the key, and a value of a type that depends on the number.
#[derive(Clone, Debug)]
struct Pairs(Vec<usize>);

/// Every fourth pair contains the text of the one before it.
fn extends(n: usize) -> bool {
    n % 4 == 0
}

fn key(n: usize) -> Key {
    // Keys have to be static. There are few.
    let name = if extends(n) { format!("xk{}z", n - 1) } else { format!("k{}z", n) };
    Box::leak(name.into_boxed_str())
}

fn value(n: usize) -> String {
    match n % 9 {
        _ if extends(n) => format!("{}0", value(n - 1)),
        0 => format!("{}", n as u64 + (1 << 40)),
        1 => format!("-{}", n),
        2 => (n % 2 == 0).to_string(),
        3 => format!("text {} / {{}}", n),
        4 => "c".to_string(),
        5 => format!("arg{}:{:?}", n, Some(n)),
        6 => String::new(),
        7 => format!("{}", u8::MAX),
        _ => format!("line\n{}", n),
    }
}

fn shown(n: usize) -> String {
    format!("{}: {}", key(n), value(n))
}

fn shows(message: &str, n: usize) -> bool {
    let inside = if extends(n + 1) { message.matches(&shown(n + 1)).count() } else { 0 };
    message.matches(&shown(n)).count() > inside
}

impl KV for Pairs {
    fn serialize(&self, _: &Record, s: &mut dyn Serializer) -> slog::Result {
        for n in &self.0 {
            let n = *n;
            match n % 9 {
                _ if extends(n) => s.emit_str(key(n), &value(n))?,
                0 => s.emit_u64(key(n), n as u64 + (1 << 40))?,
                1 => s.emit_i32(key(n), -(n as i32))?,
                2 => s.emit_bool(key(n), n % 2 == 0)?,
                4 => s.emit_char(key(n), 'c')?,
                5 => s.emit_arguments(key(n), &format_args!("arg{}:{:?}", n, Some(n)))?,
                7 => s.emit_u8(key(n), u8::MAX)?,
                _ => s.emit_str(key(n), &value(n))?,
            }
        }
        Ok(())
    }
}

fn emit(logger: &Logger, id: usize, level: usize, kv: &[usize], text: usize, file: usize, line: u32) {
    let location = RecordLocation { file: FILES[file].0, line, column: 7, function: "", module: "m" };
    let rs = RecordStatic { location: &location, tag: "", level: LEVELS[level] };
    let pairs = Pairs(kv.to_vec());
    let (a, b) = around(text);
    logger.log(&Record::new(&rs, &format_args!("{}<m{}>{}", a, id, b), slog::BorrowedKV(&pairs)));
}

fn severity(level: usize) -> LogSeverity {
    [LogSeverity::Critical, LogSeverity::Error, LogSeverity::Warning, LogSeverity::Info,
     LogSeverity::Debug, LogSeverity::Trace][level]
}

#[derive(Clone)]
struct Made {
    level: usize,
    text: usize,
    file: usize,
    line: u32,
    lg: usize,
    kv: Vec<usize>,
}

enum Output {
    Std(Box<dyn tcp_runtime::logger::DrainOutput>),
    NoStd(Box<dyn tcp_runtime_nostd::logger::DrainOutput>),
}

impl Output {
    fn take(&mut self) -> Vec<LogMessage> {
        match self {
            Output::Std(d) => d.take_entries(),
            Output::NoStd(d) => d.take_entries(),
        }
    }
}

struct World {
    rec: Rec,
    loggers: Vec<Logger>,
    output: Output,
    made: Vec<Made>,
    pairs: usize,
}

impl World {
    fn new(rec: &Rec, std: bool) -> Self {
        rec.ev(obj! {"e": "cf"});
        let (logger, output) = if std {
            let (l, o) = tcp_runtime::logger::log::create_remote_logger();
            (l, Output::Std(o))
        } else {
            let (l, o) = tcp_runtime_nostd::logger::log::create_remote_logger();
            (l, Output::NoStd(o))
        };
        World { rec: rec.clone(), loggers: vec![logger], output, made: vec![], pairs: 0 }
    }

    fn fresh_pairs(&mut self, n: usize) -> Vec<usize> {
        let kv = (self.pairs + 1..=self.pairs + n).collect();
        self.pairs += n;
        kv
    }

    fn child(&mut self, of: usize, n: usize) {
        if of >= self.loggers.len() {
            return;
        }
        let kv = self.fresh_pairs(n);
        let child = self.loggers[of].new(OwnedKV(Pairs(kv.clone())));
        self.loggers.push(child);
        self.rec.ev(obj! {"e": "child", "of": of + 1, "kv": kv});
    }

    fn make(&mut self, lg: usize, n: usize, level: usize, rng: &mut Rng) -> (usize, Vec<usize>) {
        let kv = self.fresh_pairs(n);
        self.made.push(Made {
            level,
            text: if rng.chance(3) { TEXTS.len() } else { rng.below(TEXTS.len()) },
            file: rng.below(FILES.len()),
            line: *rng.pick(&[1, 42, 1007, u32::MAX]),
            lg,
            kv: kv.clone(),
        });
        let id = self.made.len();
        self.rec.ev(obj! {"e": "made", "id": id, "lg": lg + 1, "lv": level + 1, "kv": kv.clone()});
        (id, kv)
    }

    fn log(&mut self, lg: usize, n: usize, level: usize, rng: &mut Rng) {
        if lg >= self.loggers.len() {
            return;
        }
        let (id, kv) = self.make(lg, n, level, rng);
        let m = self.made[id - 1].clone();
        emit(&self.loggers[lg], id, m.level, &kv, m.text, m.file, m.line);
        self.rec.ev(obj! {"e": "logged", "ids": vec![id]});
    }

    /// The same record once more, as from a loop.
    fn again(&mut self, id: usize) {
        if id == 0 || id > self.made.len() {
            return;
        }
        let m = self.made[id - 1].clone();
        emit(&self.loggers[m.lg], id, m.level, &m.kv, m.text, m.file, m.line);
        self.rec.ev(obj! {"e": "logged", "ids": vec![id]});
    }

    /// Many records without any key-values of their own.
    fn burst(&mut self, n: usize, rng: &mut Rng) {
        let (lg, level) = (rng.below(self.loggers.len()), rng.below(LEVELS.len()));
        self.rec.ev(obj! {"e": "burst", "n": n, "lg": lg + 1, "lv": level + 1});
        for _ in 0..n {
            self.made.push(Made { level, text: 0, file: 1, line: 3, lg, kv: vec![] });
            emit(&self.loggers[lg], self.made.len(), level, &[], 0, 1, 3);
        }
    }

    fn entry(&self, m: &LogMessage) -> J {
        let id = m
            .message
            .split_once("<m")
            .and_then(|(_, rest)| rest.split_once('>'))
            .and_then(|(n, _)| n.parse::<usize>().ok())
            .filter(|id| (1..=self.made.len()).contains(id))
            .unwrap_or(0);
        let lv = (0..LEVELS.len()).find(|l| severity(*l) as i32 == m.severity).map_or(0, |l| l + 1);
        let kv: Vec<usize> =
            (1..=self.pairs).filter(|n| shows(&m.message, *n)).collect();
        let (text, pos) = if id == 0 {
            (false, false)
        } else {
            let made = &self.made[id - 1];
            let (a, b) = around(made.text);
            (
                m.message.contains(&format!("{}<m{}>{}", a, id, b)),
                m.message.contains(FILES[made.file].1) && m.message.contains(&made.line.to_string()),
            )
        };
        obj! {"id": id, "lv": lv, "kv": kv, "text": text, "pos": pos}
    }

    fn take(&mut self) {
        let entries = self.output.take();
        let out: Vec<J> = entries.iter().map(|m| self.entry(m)).collect();
        self.rec.ev(obj! {"e": "take", "out": out});
    }

    /// Several threads make records while what there is gets taken.
    fn parallel(&mut self, threads: usize, each: usize, rng: &mut Rng) {
        let mut plan = vec![];
        for _ in 0..threads {
            let lg = rng.below(self.loggers.len());
            let mut todo = vec![];
            for _ in 0..each {
                let level = rng.below(LEVELS.len());
                let n = rng.below(3);
                let (id, kv) = self.make(lg, n, level, rng);
                todo.push((id, kv, self.made[id - 1].clone()));
            }
            plan.push((self.loggers[lg].clone(), todo));
        }
        self.rec.ev(obj! {"e": "par", "ids": plan.iter()
            .map(|(_, todo)| J::from(todo.iter().map(|(id, _, _)| *id).collect::<Vec<usize>>()))
            .collect::<Vec<J>>()});
        let taken: Vec<Vec<LogMessage>> = std::thread::scope(|s| {
            for (logger, todo) in &plan {
                s.spawn(move || {
                    for (id, kv, m) in todo {
                        emit(logger, *id, m.level, kv, m.text, m.file, m.line);
                        std::thread::yield_now();
                    }
                });
            }
            (0..3)
                .map(|_| {
                    std::thread::yield_now();
                    self.output.take()
                })
                .collect()
        });
        for t in taken {
            let out: Vec<J> = t.iter().map(|m| self.entry(m)).collect();
            self.rec.ev(obj! {"e": "some", "out": out});
        }
        // What the threads have logged last comes before whatever is logged afterwards.
        self.take();
    }
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let std = rng.chance(30);
    let mut w = World::new(rec, std);
    for _ in 0..rng.range(3, 40) {
        match rng.below(100) {
            0..=11 => {
                let (of, n) = (rng.below(w.loggers.len()), rng.below(3));
                w.child(of, n);
            }
            12..=79 => {
                let (lg, n, lv) = (rng.below(w.loggers.len()), rng.below(4), rng.below(LEVELS.len()));
                w.log(lg, n, lv, rng);
            }
            80..=87 => w.take(),
            88..=95 => {
                let id = w.made.len().saturating_sub(rng.below(3));
                w.again(id);
            }
            96 => {
                if rng.chance(30) {
                    let n = *rng.pick(&[40, 130, 300, 1100]);
                    w.burst(n, rng);
                }
            }
            _ => {
                let (t, n) = (rng.range(2, 3), rng.range(1, 4));
                w.parallel(t, n, rng);
            }
        }
    }
    w.take();
    w.take();
    rec.ev(obj! {"e": "end"});
}

pub fn script(rec: &Rec, script: &J, rng: &mut Rng) {
    let std = rng.chance(30);
    let mut w = World::new(rec, std);
    for op in script.get("ops").items() {
        let num = |name: &str| op.get(name).int() as usize;
        match op.get("e").text() {
            "child" => w.child(num("of") - 1, num("n")),
            "log" => w.log(num("lg") - 1, num("n"), num("lv") - 1, rng),
            "take" => w.take(),
            "again" => w.again(num("id")),
            "par" => w.parallel(num("ts"), num("n"), rng),
            other => panic!("script: {}", other),
        }
    }
    w.take();
    rec.ev(obj! {"e": "end"});
}
