//! Trace output: one JSON object per line, deduplicated, plus a write-ahead file naming the program that runs.
use crate::J;
use std::collections::HashSet;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{BufWriter, Seek, SeekFrom, Write};
pub struct Out {
    w: BufWriter<File>,
    cur: File,
    seen: HashSet<u64>,
    pub runs: u64,
    pub written: u64,
    pub events: u64,
    dir: String,
    name: String,
}
impl Out {
    pub fn new(dir: &str, name: &str) -> Out {
        std::fs::create_dir_all(dir).unwrap();
        Out {
            w: BufWriter::new(File::create(format!("{dir}/{name}.ndjson")).unwrap()),
            cur: File::create(format!("{dir}/current.json")).unwrap(),
            seen: HashSet::new(),
            runs: 0,
            written: 0,
            events: 0,
            dir: dir.into(),
            name: name.into(),
        }
    }
    /// Declares what is about to run, so that a crash can be attributed.
    pub fn begin(&mut self, prog: &str) {
        self.runs += 1;
        let _ = self.cur.seek(SeekFrom::Start(0));
        let _ = self.cur.write_all(prog.as_bytes());
        let _ = self.cur.write_all(b"\n");
        if self.runs % 16 == 1 || prog.len() > 4096 {
            let _ = self.cur.set_len(prog.len() as u64 + 1);
        }
    }
    /// Writes a trace unless an identical one was written already.
    pub fn trace(&mut self, cfg: J, ev: Vec<J>) -> bool {
        self.trace_meta(cfg, ev, J::S(String::new()))
    }
    /// Same, with information for whoever reads a violation report.
    pub fn trace_meta(&mut self, cfg: J, ev: Vec<J>, meta: J) -> bool {
        let n = ev.len() as u64;
        let line = J::O(vec![("cfg", cfg), ("ev", J::L(ev))]).to_string();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        line.hash(&mut h);
        if !self.seen.insert(h.finish()) {
            return false;
        }
        self.written += 1;
        self.events += n;
        let meta = meta.to_string();
        self.w.write_all(line[..line.len() - 1].as_bytes()).unwrap();
        self.w.write_all(b",\"meta\":").unwrap();
        self.w.write_all(meta.as_bytes()).unwrap();
        self.w.write_all(b"}").unwrap();
        self.w.write_all(b"\n").unwrap();
        true
    }
    pub fn finish(mut self) {
        self.w.flush().unwrap();
        let _ = std::fs::remove_file(format!("{}/current.json", self.dir));
        println!("SUITE {} runs={} traces={} events={}", self.name, self.runs, self.written, self.events);
    }
}
