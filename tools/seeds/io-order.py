PROPERTY = 'C07'
NEEDS = 'a sink that fails exactly on the write of a full word of entropy-coded data and accepts later writes'
BREAKS = 'a failed write of a full word is retried byte by byte and so bytes are handed to the sink after its failure'
EDITS = [('src/writer.rs', '            self.w.write_all(&self.bit_buffer.to_be_bytes())\n', '            let bytes = self.bit_buffer.to_be_bytes();\n            if self.w.write_all(&bytes).is_err() {\n                // the sink may only take smaller pieces\n                for b in bytes {\n                    self.write_u8(b)?;\n                }\n            }\n            Ok(())\n')]
MAIN = r'''mod common;
use common::*;
use std::rc::Rc;
use std::cell::Cell;
struct Sink(usize, Rc<Cell<usize>>, bool);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.2 {
            self.1.set(self.1.get() + 1);
            return Ok(b.len());
        }
        if self.0 == 0 {
            self.2 = true;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let d = Rng(4).bytes(16 * 16);
    for n in 0..100000 {
        let late = Rc::new(Cell::new(0));
        let r = Encoder::new(Sink(n, late.clone(), false), 80).encode(&d, 16, 16, ColorType::Luma);
        assert_eq!(late.get(), 0, "written after the failure of write {}", n);
        if r.is_ok() {
            return;
        }
    }
}
'''
