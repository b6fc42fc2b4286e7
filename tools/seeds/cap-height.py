PROPERTY = 'C19'
NEEDS = 'the SIMD feature, AVX2, an RGB-family image in interleaved mode that is lower than one MCU row'
BREAKS = 'the row buffers are allocated without room for the padding rows, so the vector code writes past their end'
FEATURES = ['std', 'simd']
EDITS = [('src/encoder.rs', '        let buffer_size = buffer_width * 8 * max_v_sampling;\n\n        let mut row: [Vec<_>; 4] = self.init_rows(buffer_size);', '        let buffer_size = buffer_width * (8 * max_v_sampling).min(usize::from(height));\n\n        let mut row: [Vec<_>; 4] = self.init_rows(buffer_size);')]
MAIN = r'''mod common;
use common::*;
use std::alloc::*;
// Puts known bytes behind every allocation and looks at them when it is freed
struct Guard;
const N: usize = 256;
unsafe fn check(p: *mut u8, l: Layout) {
    for i in 0..N {
        if *p.add(l.size() + i) != 0xA5 {
            std::process::abort();
        }
    }
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + N, l.align()));
        if !p.is_null() {
            std::ptr::write_bytes(p.add(l.size()), 0xA5, N);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        check(p, l);
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + N, l.align()))
    }
}
#[global_allocator]
static G: Guard = Guard;
fn main() {
    for w in 1..70u16 {
        for h in [1u16, 8, 17] {
            let d = Rng(w as u64).bytes(w as usize * h as usize * 4);
            for ct in [ColorType::Rgb, ColorType::Bgra] {
                for q in [50, 95] {
                    encode(w, h, ct, &d, q, |_| ());
                }
            }
        }
    }
}
'''
