PROPERTY = 'C09'
NEEDS = 'the same application segment added twice in a row'
BREAKS = 'a segment equal to its predecessor is accepted but written only once'
EDITS = [('src/encoder.rs', '            self.app_segments.push((segment_nr, data.to_vec()));\n            Ok(())', '            let segment = (segment_nr, data.to_vec());\n            if self.app_segments.last() != Some(&segment) {\n                self.app_segments.push(segment);\n            }\n            Ok(())')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let o = encode(3, 3, ColorType::Luma, &[9; 9], 50, |e| {
        for (n, d) in [(1u8, &b"ab"[..]), (1, b"ab"), (4, b""), (4, b""), (1, b"ab")] {
            e.add_app_segment(n, d).unwrap();
        }
    });
    let j = parse(&o).unwrap();
    let a: Vec<_> = j.segs.iter().filter(|s| s.0 > 0xE0 && s.0 < 0xF0).cloned().collect();
    assert_eq!(a, vec![(0xE1, b"ab".to_vec()), (0xE1, b"ab".to_vec()), (0xE4, vec![]), (0xE4, vec![]), (0xE1, b"ab".to_vec())]);
}
'''
