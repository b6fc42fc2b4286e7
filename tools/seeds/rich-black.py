PROPERTY = 'C10'
NEEDS = 'CMYK input with a pixel of full black that also has colour in it'
BREAKS = 'the colour of fully black pixels is dropped, so CMYK is no longer just inverted'
EDITS = [('src/image_buffer.rs', '''            buffers[0].push(255 - pixel[0]);
            buffers[1].push(255 - pixel[1]);
            buffers[2].push(255 - pixel[2]);
            buffers[3].push(255 - pixel[3]);
''', '''            // no other ink is needed where black covers everything
            let ink = if pixel[3] == 255 { 0 } else { 255 };

            buffers[0].push(255 - (pixel[0] & ink));
            buffers[1].push(255 - (pixel[1] & ink));
            buffers[2].push(255 - (pixel[2] & ink));
            buffers[3].push(255 - pixel[3]);
''')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let d: Vec<u8> = (0..64).flat_map(|_| [200, 100, 50, 255]).collect();
    let j = parse(&encode(8, 8, ColorType::Cmyk, &d, 100, |_| ())).unwrap();
    for (c, v) in [55.0, 155.0, 205.0, 0.0].iter().enumerate() {
        assert!((j.plane(c)[9] - v).abs() < 1.0, "component {}: {}", c, j.plane(c)[9]);
    }
}
'''
