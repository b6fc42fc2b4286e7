PROPERTY = 'C21'
NEEDS = 'two encodes in one process with different qualities, the first one leaving its value in the cache'
BREAKS = 'the quality scale is cached in a static and reused by later encodes whose quality differs only in the low bit'
EDITS = [('src/quantization.rs', '''        let scale = if quality < 50 {
            5000 / quality
        } else {
            200 - quality * 2
        };
''', '''        // remember the last scale, most applications use only one quality
        static LAST: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
        let last = LAST.load(core::sync::atomic::Ordering::Relaxed);

        let scale = if last >> 17 == quality >> 1 && last > 0 {
            last & 0xffff
        } else if quality < 50 {
            5000 / quality
        } else {
            200 - quality * 2
        };
        LAST.store(quality << 16 | scale, core::sync::atomic::Ordering::Relaxed);
''')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let d = Rng(4).bytes(16 * 16);
    let f = |q: u8| encode(16, 16, ColorType::Luma, &d, q, |_| ());
    let a = f(40);
    let _ = f(80);
    let _ = f(41);
    assert!(f(40) == a, "the output depends on earlier encodes");
}
'''
