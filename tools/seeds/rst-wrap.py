PROPERTY = 'C04'
NEEDS = 'more than 256 restart intervals in one scan of the sequential (optimized or 4x sampling) mode'
BREAKS = 'the running restart count saturates, so the cyclic marker number stops advancing after 255 markers'
COUNT = 1
EDITS = [('src/encoder.rs', '''            self.writer.write_scan_header(&[component], None)?;

            let mut prev_dc = 0;

            for block in &blocks[i] {
                if restart_interval > 0 && restarts_to_go == 0 {
                    self.writer.finalize_bit_buffer()?;
                    self.writer
                        .write_marker(Marker::RST((restarts % 8) as u8))?;

                    prev_dc = 0;
                }

                self.writer.write_block(
                    block,
                    prev_dc,
                    &self.huffman_tables[component.dc_huffman_table as usize].0,
                    &self.huffman_tables[component.ac_huffman_table as usize].1,
                )?;

                prev_dc = block[0];

                if restart_interval > 0 {
                    if restarts_to_go == 0 {
                        restarts_to_go = restart_interval;
                        restarts += 1;
                        restarts &= 7;
                    }
''', '''            self.writer.write_scan_header(&[component], None)?;

            let mut prev_dc = 0;

            for block in &blocks[i] {
                if restart_interval > 0 && restarts_to_go == 0 {
                    self.writer.finalize_bit_buffer()?;
                    self.writer.write_marker(Marker::RST(restarts % 8))?;

                    prev_dc = 0;
                }

                self.writer.write_block(
                    block,
                    prev_dc,
                    &self.huffman_tables[component.dc_huffman_table as usize].0,
                    &self.huffman_tables[component.ac_huffman_table as usize].1,
                )?;

                prev_dc = block[0];

                if restart_interval > 0 {
                    if restarts_to_go == 0 {
                        restarts_to_go = restart_interval;
                        restarts = restarts.saturating_add(1);
                    }
''')]
EDITS[0] = (EDITS[0][0], EDITS[0][1], EDITS[0][2].replace("", ""))
MAIN = r'''mod common;
use common::*;
fn main() {
    let d = Rng(5).bytes(160 * 160);
    for i in [1u16, 2, 3] {
        let o = encode(160, 160, ColorType::Luma, &d, 50, |e| {
            e.set_optimized_huffman_tables(true);
            e.set_restart_interval(i)
        });
        parse(&o).expect("decodable");
    }
}
'''
