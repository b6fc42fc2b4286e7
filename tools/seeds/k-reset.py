PROPERTY = 'C04'
NEEDS = 'a four-component image in interleaved mode with a restart interval, and a K plane that is not neutral before the marker'
BREAKS = 'the DC prediction of the fourth component is not reset at a restart marker'
EDITS = [('src/encoder.rs', '                    prev_dc[0] = 0;\n                    prev_dc[1] = 0;\n                    prev_dc[2] = 0;\n                    prev_dc[3] = 0;\n', '                    for dc in prev_dc.iter_mut().take(3) {\n                        *dc = 0;\n                    }\n')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let d = Rng(7).bytes(40 * 24 * 4);
    let j = parse(&encode(40, 24, ColorType::Cmyk, &d, 95, |e| e.set_sampling_factor(SamplingFactor::F_1_1))).unwrap();
    let k = parse(&encode(40, 24, ColorType::Cmyk, &d, 95, |e| {
        e.set_sampling_factor(SamplingFactor::F_1_1);
        e.set_restart_interval(4)
    }))
    .expect("decodable");
    for c in 0..4 {
        assert!(j.comps[c].blocks == k.comps[c].blocks, "component {} changes with the restart interval", c);
    }
}
'''
