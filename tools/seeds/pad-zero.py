PROPERTY = 'C03'
NEEDS = 'any entropy-coded segment whose last byte is partly filled; a decoder ignores the padding, so only a strict reader sees it'
BREAKS = 'the padding before a marker starts with a zero bit'
EDITS = [('src/writer.rs', '        self.write_bits(0x7F, 7)?;\n        self.flush_bit_buffer()?;\n', '        // fill up the last byte with ones\n        let pad = (self.free_bits & 7) as u8;\n        self.write_bits(0x7F >> (8 - pad), pad)?;\n        self.flush_bit_buffer()?;\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let mut r = Rng(3);
    for n in 1..60u16 {
        let d = r.bytes(n as usize * 3 * 3);
        let o = encode(n, 3, ColorType::Rgb, &d, 80, |e| e.set_restart_interval(2));
        parse(&o).expect("decodable");
    }
}
'''
