//! Trace files: one ndjson file per chunk, lines dealt out so that chunks cost about the same.
use std::io::Write;
pub struct Chunks { files: Vec<std::io::BufWriter<std::fs::File>>, cost: Vec<usize>, pub lines: usize }
impl Chunks {
    pub fn new(dir: &str, name: &str, n: usize) -> Chunks {
        std::fs::create_dir_all(dir).unwrap();
        Chunks { files: (0..n).map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{dir}/{name}.{i}.ndjson")).unwrap())).collect(), cost: vec![0; n], lines: 0 }
    }
    pub fn put(&mut self, line: &str, cost: usize) {
        let i = (0..self.cost.len()).min_by_key(|i| self.cost[*i]).unwrap();
        self.cost[i] += cost; self.lines += 1;
        writeln!(self.files[i], "{line}").unwrap();
    }
}
