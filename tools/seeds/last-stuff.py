PROPERTY = 'C03'
NEEDS = 'an entropy-coded segment whose last byte, after padding, is 0xFF'
BREAKS = 'the last byte before a marker is not followed by a stuffed zero byte when it is 0xFF'
EDITS = [('src/writer.rs', '''            self.flush_byte_from_bit_buffer(self.free_bits)?;
            self.free_bits += 8;
''', '''            if self.free_bits + 16 > BUFFER_SIZE as i8 {
                // the last byte
                let value = (self.bit_buffer >> (BUFFER_SIZE as i8 - 8 - self.free_bits)) & 0xFF;
                return self.write_u8(value as u8);
            }
            self.flush_byte_from_bit_buffer(self.free_bits)?;
            self.free_bits += 8;
''')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for s in 0..3000u64 {
        let d = Rng(s * 31 + 1).bytes(64);
        let o = encode(8, 8, ColorType::Luma, &d, 98, |_| ());
        parse(&o).expect("decodable");
    }
}
'''
