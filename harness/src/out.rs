//! Sessions written to several files.
use crate::json::J;
use std::io::Write;
pub struct Out { files: Vec<std::io::BufWriter<std::fs::File>>, n: usize, pub sessions: u64, pub events: u64, pub weight: Vec<usize> }
impl Out {
    pub fn new(prefix: &str, parts: usize) -> Out {
        Out { files: (0..parts).map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{}.{}", prefix, i)).unwrap())).collect(), n: 0, sessions: 0, events: 0, weight: vec![0; parts] }
    }
    pub fn put(&mut self, j: &J, events: usize) {
        // the least loaded part
        let i = (0..self.files.len()).min_by_key(|i| self.weight[*i]).unwrap();
        self.weight[i] += events + 1;
        let t = j.text();
        self.files[i].write_all(t.as_bytes()).unwrap(); self.files[i].write_all(b"\n").unwrap();
        self.n += 1; self.sessions += 1; self.events += events as u64;
    }
    pub fn finish(mut self) { for f in &mut self.files { f.flush().unwrap(); } println!("SESSIONS {} EVENTS {}", self.sessions, self.events); }
}

