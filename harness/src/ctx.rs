//! Trace output: one JSON object per line and trace, flushed per trace, with a progress
//! marker so that a run that dies or hangs in the library can be attributed to its call.
use crate::json::J;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx {
    out: File,
    progress: File,
    crashes: String,
    last: String,
    pub dir: String,
    pub id: String,
    pub head: J,
    pub ev: Vec<J>,
    pub dead: bool,
    /// one of several threads that use the library at the same time
    pub par: bool,
    pub traces: usize,
    pub events: usize,
}
impl Ctx {
    pub fn new(out: &str, dir: &str) -> Ctx {
        Ctx {
            out: File::create(out).unwrap(),
            progress: File::create(format!("{}.progress", out)).unwrap(),
            crashes: format!("{}.crashes", out),
            last: String::new(),
            dir: dir.to_string(),
            id: String::new(),
            head: J::obj(),
            ev: vec![],
            dead: false,
            par: false,
            traces: 0,
            events: 0,
        }
    }
    pub fn begin(&mut self, id: String, head: J) {
        self.id = id;
        self.head = head;
        self.ev = vec![];
        self.dead = false;
        crate::tens::take_bad();
    }
    /// record a trace; if it panics outside a judged call, keep what was recorded and say where
    pub fn survive(&mut self, f: impl FnOnce(&mut Ctx)) {
        self.id = String::new();
        if catch_unwind(AssertUnwindSafe(|| f(self))).is_ok() || self.id.is_empty() { return; }
        let line = format!("{} {} {}\n", self.id, self.ev.len() + 1, self.last);
        let f = std::fs::OpenOptions::new().create(true).append(true).open(&self.crashes);
        f.and_then(|mut f| f.write_all(line.as_bytes())).unwrap();
        self.end();
    }
    pub fn mark(&mut self, op: &str) {
        self.last = op.to_string();
        let s = format!("{:<120}", format!("{} {} {}", self.id, self.ev.len() + 1, op));
        let _ = self.progress.seek(SeekFrom::Start(0));
        let _ = self.progress.write_all(s.as_bytes());
    }
    pub fn push(&mut self, e: J) {
        self.events += 1;
        self.ev.push(e);
    }
    pub fn end(&mut self) {
        let mut s = String::new();
        self.head.clone().set("id", &self.id).set("par", self.par).set("ev", J::A(std::mem::take(&mut self.ev))).write(&mut s);
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap();
        self.traces += 1;
        self.mark("done");
    }
    pub fn file(&self, name: &str) -> String {
        format!("{}/{}", self.dir, name)
    }
}
/// Run a library call, turning a panic into a reply.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    let before = INSIDE.with(|i| i.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    INSIDE.with(|i| i.set(before));
    r
}
pub fn reply<T, E>(r: &Result<Result<T, E>, ()>) -> &'static str {
    match r {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    }
}
thread_local! { static INSIDE: std::cell::Cell<bool> = std::cell::Cell::new(false); }
/// is a library call running?
pub fn inside() -> bool {
    INSIDE.with(|i| i.get())
}
