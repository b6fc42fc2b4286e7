PROPERTY = 'C07'
NEEDS = 'a sink that fails exactly while a restart marker is written in a sequential scan'
BREAKS = 'the error of writing a restart marker is dropped and encoding goes on'
EDITS = [('src/encoder.rs', '                if restart_interval > 0 && restarts_to_go == 0 {\n                    self.writer.finalize_bit_buffer()?;\n                    self.writer\n                        .write_marker(Marker::RST((restarts % 8) as u8))?;\n\n                    prev_dc = 0;\n                }\n\n                self.writer.write_block(', '                if restart_interval > 0 && restarts_to_go == 0 {\n                    let marker = Marker::RST((restarts % 8) as u8);\n                    let _ = self\n                        .writer\n                        .finalize_bit_buffer()\n                        .and_then(|_| self.writer.write_marker(marker));\n\n                    prev_dc = 0;\n                }\n\n                self.writer.write_block(')]
MAIN = r'''use jpeg_encoder::*;
struct Bad<'a> {
    left: usize,
    failed: &'a mut usize,
}
impl std::io::Write for Bad<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left < b.len() {
            self.left = 0;
            *self.failed += 1;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.left -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let d: Vec<u8> = (0..32 * 8).map(|i| (i * 37 % 251) as u8).collect();
    for left in 0..2000 {
        let mut failed = 0;
        let mut e = Encoder::new(Bad { left, failed: &mut failed }, 90);
        e.set_optimized_huffman_tables(true);
        e.set_restart_interval(1);
        let r = e.encode(&d, 32, 8, ColorType::Luma);
        assert!(failed == 0 || (r.is_err() && failed == 1), "{} bytes: {} failed writes, {:?}", left, failed, r);
    }
}
'''
