PROPERTY = 'C23'
NEEDS = 'the crate without its default features, writing into a Vec that already holds data'
BREAKS = 'without std the Vec writer replaces the contents of the vector at the first write instead of appending'
FEATURES = []
EDITS = [('src/writer.rs', '        self.extend_from_slice(buf);\n', '        // a new stream starts with SOI\n        if buf == [0xFF, 0xD8] {\n            self.clear();\n        }\n        self.extend_from_slice(buf);\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let d = Rng(4).bytes(16 * 16);
    let mut out = vec![1, 2, 3];
    Encoder::new(&mut out, 80).encode(&d, 16, 16, ColorType::Luma).unwrap();
    assert_eq!(out[..3], [1, 2, 3]);
    parse(&out[3..]).unwrap();
}
'''
