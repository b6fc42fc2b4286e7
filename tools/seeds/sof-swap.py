PROPERTY = 'C02'
NEEDS = 'the Ycck colour type with a sampling factor whose horizontal and vertical parts differ'
BREAKS = 'the K component of YCCK images is declared with horizontal and vertical sampling exchanged'
EDITS = [('src/encoder.rs', '            JpegColorType::Ycck => {\n                add_component!(\n                    self.components,\n                    0,\n                    0,\n                    horizontal_sampling_factor,\n                    vertical_sampling_factor\n                );\n                add_component!(self.components, 1, 1, 1, 1);\n                add_component!(self.components, 2, 1, 1, 1);\n                add_component!(\n                    self.components,\n                    3,\n                    0,\n                    horizontal_sampling_factor,\n                    vertical_sampling_factor\n                );\n', '            JpegColorType::Ycck => {\n                add_component!(\n                    self.components,\n                    0,\n                    0,\n                    horizontal_sampling_factor,\n                    vertical_sampling_factor\n                );\n                add_component!(self.components, 1, 1, 1, 1);\n                add_component!(self.components, 2, 1, 1, 1);\n                add_component!(\n                    self.components,\n                    3,\n                    0,\n                    horizontal_sampling_factor,\n                    horizontal_sampling_factor.min(vertical_sampling_factor)\n                );\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    for s in [SamplingFactor::F_1_1, SamplingFactor::F_2_1, SamplingFactor::F_1_2, SamplingFactor::F_2_2, SamplingFactor::F_4_1, SamplingFactor::F_4_2, SamplingFactor::F_1_4, SamplingFactor::F_2_4] {
        let d = Rng(3).bytes(40 * 40 * 4);
        let o = encode(40, 40, ColorType::Ycck, &d, 80, |e| e.set_sampling_factor(s));
        let j = parse(&o).expect("decodable");
        assert_eq!((j.comps[0].h, j.comps[0].v), (j.comps[3].h, j.comps[3].v));
    }
}
'''
