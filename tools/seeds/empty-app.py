PROPERTY = 'C01'
NEEDS = 'an application segment with an empty payload'
BREAKS = 'the length field of an empty segment is left out, so a marker without length stands where a segment is required'
EDITS = [('src/writer.rs', '        self.write_marker(marker)?;\n        self.write_u16(data.len() as u16 + 2)?;\n        self.write(data)?;\n', '        self.write_marker(marker)?;\n        // markers without data stand alone\n        if !data.is_empty() {\n            self.write_u16(data.len() as u16 + 2)?;\n            self.write(data)?;\n        }\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let o = encode(9, 9, ColorType::Luma, &[7; 81], 60, |e| e.add_app_segment(5, b"").unwrap());
    let j = parse(&o).expect("well formed");
    assert!(j.segs.iter().any(|s| s.0 == 0xE5 && s.1.is_empty()));
}
'''
