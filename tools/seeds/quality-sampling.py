PROPERTY = 'C20'
NEEDS = 'custom quantization tables set on an encoder created with a quality below 90'
BREAKS = 'setting quantization tables also changes the sampling factor'
EDITS = [('src/encoder.rs', '        self.quantization_tables = [luma, chroma];\n', '        // subsampling saves nothing if the tables are not scaled by the quality\n        if matches!(chroma, QuantizationTableType::Custom(_)) && self.quality < 10 {\n            self.sampling_factor = SamplingFactor::F_1_1;\n        }\n        self.quantization_tables = [luma, chroma];\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for q in 0..=255u8 {
        let mut e = Encoder::new(Vec::new(), q);
        let s = e.sampling_factor();
        e.set_quantization_tables(QuantizationTableType::Default, QuantizationTableType::Custom(Box::new([7; 64])));
        assert_eq!(e.sampling_factor(), s, "quality {}", q);
    }
}
'''
