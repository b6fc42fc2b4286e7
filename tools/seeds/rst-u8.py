PROPERTY = 'C24'
NEEDS = 'a checked (debug) build and more than 255 restart intervals in the interleaved scan'
BREAKS = 'the restart counter is a byte that is no longer masked, so it overflows'
EDITS = [('src/encoder.rs', '''        let restart_interval = self.restart_interval.unwrap_or(0);
        let mut restarts = 0;
        let mut restarts_to_go = restart_interval;

        for block_y in 0..num_rows {''', '''        let restart_interval = self.restart_interval.unwrap_or(0);
        let mut restarts = 0u8;
        let mut restarts_to_go = restart_interval;

        for block_y in 0..num_rows {'''), ('src/encoder.rs', '''                        .write_marker(Marker::RST((restarts % 8) as u8))?;

                    prev_dc[0] = 0;''', '''                        .write_marker(Marker::RST(restarts % 8))?;

                    prev_dc[0] = 0;'''), ('src/encoder.rs', '''                        restarts_to_go = restart_interval;
                        restarts += 1;
                        restarts &= 7;
                    }
                    restarts_to_go -= 1;
                }
            }
        }

        self.writer.finalize_bit_buffer()?;
''', '''                        restarts_to_go = restart_interval;
                        restarts += 1;
                    }
                    restarts_to_go -= 1;
                }
            }
        }

        self.writer.finalize_bit_buffer()?;
''')]
MAIN = r'''mod common;
use common::*;
fn main() {
    let d = Rng(4).bytes(160 * 160);
    let o = encode(160, 160, ColorType::Luma, &d, 60, |e| e.set_restart_interval(1));
    parse(&o).unwrap();
}
'''
