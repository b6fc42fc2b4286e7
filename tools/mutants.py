#!/usr/bin/env python3
"""Development aid: runs checks on mutated scratch copies (never used by a check).

mutants.py [ID...]     ids of breaking mutants (expected: exit 1) or of equivalent ones (expected: exit 0)
"""
import os, sys, subprocess, shutil, tempfile, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, W, HF, Q, IB, F, AF, AY, L = ("src/encoder.rs", "src/writer.rs", "src/huffman.rs", "src/quantization.rs", "src/image_buffer.rs",
                                 "src/fdct.rs", "src/avx2/fdct.rs", "src/avx2/ycbcr.rs", "src/lib.rs")
# id: (properties, [(file, old, new, occurrence or None for all)])
M = {
 "dri-seq-only": ("C02", [(E, "if let Some(restart_interval) = self.restart_interval {\n            self.writer.write_dri", "if let (Some(restart_interval), None) = (self.restart_interval, self.progressive_scans) {\n            self.writer.write_dri", 0)]),
 "density-cm": ("C02", [(W, "self.write_u16(x)?;\n                self.write_u16(y)?;", "self.write_u16(x)?;\n                self.write_u16(x)?;", 1)]),
 "ycck-adobe": ("C02", [(E, "jpeg_color_type == JpegColorType::Ycck {\n            //", "jpeg_color_type == JpegColorType::Ycck && self.sampling_factor != SamplingFactor::F_1_1 {\n            //", 0)]),
 "k-reset": ("C04", [(E, "prev_dc[3] = 0;", "", 0)]),
 "rst-u8": ("C04,C24", [(E, "let mut restarts = 0;", "let mut restarts = 0u8;", 0), (E, "restarts += 1;\n                        restarts &= 7;", "restarts += 1;", 0)]),
 "interval-u8": ("C04", [(E, "let restart_interval = self.restart_interval.unwrap_or(0);\n                let mut restarts = 0;", "let restart_interval = self.restart_interval.unwrap_or(0) & 0x7fff;\n                let mut restarts = 0;", 0)]),
 "rst-last": ("C04", [(E, "if restart_interval > 0 && restarts_to_go == 0 {", "if restart_interval > 1 && restarts_to_go == 0 {", 1)]),
 "ceil-scan": ("C05", [(E, "let values_per_scan = 63 / scans;", "let values_per_scan = if scans > 40 { 1 } else { 63 / scans + usize::from(scans == 13) };", None)]),
 "floor-cols": ("C06", [(E, "let cols = ceil_div(num_cols, h_scale);", "let cols = (num_cols / h_scale).max(1);", 0)]),
 "wrap-row": ("C06", [(E, "(y.min(usize::from(height) - 1)) as u16", "(if y < usize::from(height) { y } else { usize::from(height) - 1 - usize::from(height) / 9 % 2 }) as u16", 0)]),
 "icc-clear": ("C09", [(E, "            chunk_data.clear();\n", "            chunk_data.truncate(chunk_data.len() / 70000);\n            if i < 3 { chunk_data.clear(); }\n", 0)]),
 "icc-len": ("C09", [(E, "65535 - 2 - 12 - 2;", "65535 - 2 - 12 - 3;", 0)]),
 "app-order": ("C09", [(E, "self.app_segments.push((segment_nr, data.to_vec()));", "self.app_segments.push((segment_nr, data.to_vec()));\n            self.app_segments.sort_by_key(|s| s.0);", 0)]),
 "app-sorted-late": ("C09", [(E, "for (nr, data) in &self.app_segments {", "self.app_segments.dedup();\n        for (nr, data) in &self.app_segments {", 0)]),
 "k-inv": ("C10", [(IB, "(y, cb, cr, 255 - k)", "(y, cb, cr, if c == 255 { k } else { 255 - k })", 0)]),
 "bgra-avx": ("C10,C13", [(AY, "ycbcr_image_avx2!(BgraImageAVX2, 4, 2, 1, 0);", "ycbcr_image_avx2!(BgraImageAVX2, 4, 3, 2, 1);", 0)]),
 "round-up": ("C11", [(IB, "(cb + 0x7FFF)", "(cb + 0x8000)", 0)]),
 "kr": ("C11", [(IB, "19595 * r + 38470 * g", "19395 * r + 38670 * g", 0)]),
 "wrap-neg": ("C11", [(IB, "let cr = 32768 * r - 27439 * g - 5329 * b", "let cr = 32768 * r - 27439 * g - 5360 * b", 0)]),
 "fix-const": ("C12", [(F, "FIX_0_298631336: i32 = 2446", "FIX_0_298631336: i32 = 2466", 0)]),
 "fix-shift": ("C12", [(F, "data[DCT_SIZE * 4 + x] = into_el(descale(tmp10 - tmp11, PASS1_BITS));", "data[DCT_SIZE * 4 + x] = into_el((tmp10 - tmp11) >> PASS1_BITS);", 0)]),
 "avx-round": ("C13", [(AY, "_mm256_add_epi32(cr, _mm256_set1_epi32(0x7FFF))", "_mm256_add_epi32(cr, _mm256_set1_epi32(0x8000))", 0)]),
 "avx-tail": ("C13,C10", [(AY, "rgb_to_ycbcr(*data.offset($o1), *data.offset($o2), *data.offset($o3));", "rgb_to_ycbcr(*data.offset($o3), *data.offset($o2), *data.offset($o1));", 0)]),
 "avx-const": ("C13", [(AF, "const F_1_501: i16 = 12299", "const F_1_501: i16 = 12298", 0)]),
 "zz-shared": ("C14", [(W, "self.write_u8(table.get(v as usize))?;", "self.write_u8(table.get(v as usize).min(254))?;", 0)]),
 "qtab-k": ("C14,C02", [(E, "&q_tables[component.quantization_table as usize],", "&q_tables[usize::from(i != 0)],", 0)]),
 "round50": ("C15", [(Q, "(v * scale + 50) / 100", "(v * scale + 49) / 100", 0)]),
 "tab-value": ("C15", [(Q, "135, 18, 27, 31, 40, 53, 74, 106, 156, 25, 34, 43", "135, 18, 27, 31, 40, 54, 74, 106, 156, 25, 34, 43", 0)]),
 "huff-swap": ("C15", [(HF, "0x15, 0x62, 0x72, 0xD1, 0x0A, 0x16, 0x24, 0x34, 0xE1,", "0x15, 0x62, 0x72, 0xD1, 0x0A, 0x16, 0x24, 0xE1, 0x34,", 0)]),
 "quality0": ("C15", [(Q, "quality.clamp(1, 100) as u32", "quality.clamp(1, 101).min(100).max(2) as u32", 0)]),
 "k3": ("C16", [(HF, "let mut j = i - 2;", "let mut j = i - 2 - usize::from(i > 20);", 0)]),
 "all-ones": ("C16", [(HF, "        while bits[i] == 0 {\n            debug_assert!(i > 0, \"Error creating codesizes for frequency {:?}\", freq);\n            i -= 1;\n        }\n        bits[i] -= 1;", "        let _ = &freq;\n        while bits[i] == 0 {\n            i -= 1;\n        }\n        bits[i] -= 1;\n        if i == 16 { bits[15] += 0; }", 0)]),
 "huff-order": ("C16", [(HF, "for j in 0..=255 {", "for j in (0..=255).rev() {", 0)]),
 "zrl-count": ("C17", [(E, "ac_freq[0xF0] += 1;", "ac_freq[0xE0] += 1;", 0)]),
 "eob-count": ("C17", [(E, "                                if zero_run > 0 {", "                                if zero_run > 1 {", 0)]),
 "freq-one": ("C17", [(E, "if component.dc_huffman_table == table {", "if component.dc_huffman_table == table && i != 2 {", 0)]),
 "zrl": ("C18", [(W, "while zero_run > 15 {", "while zero_run > 15 && start < 50 {", 0)]),
 "eob": ("C18", [(W, "        if zero_run > 0 {\n            self.huffman_encode(0x00", "        if zero_run > 0 && (end == 64 || block[start] != 0 || zero_run < 33) {\n            self.huffman_encode(0x00", 0)]),
 "code-neg": ("C18", [(W, "let temp = value - (value.is_negative() as i16);", "let temp = value - ((value.is_negative() && value > -2048) as i16);", 0)]),
 "cap": ("C19", [(E, "let mut row: [Vec<_>; 4] = self.init_rows(buffer_size);", "let mut row: [Vec<_>; 4] = self.init_rows(buffer_size - 8 * (buffer_width - usize::from(width)));", 0)]),
 "detect": ("C19", [(E, 'std::is_x86_feature_detected!("avx2")', 'std::is_x86_feature_detected!("avx")', 0)]),
 "detect2": ("C19", [(E, 'std::is_x86_feature_detected!("avx2")', 'std::is_x86_feature_detected!("sse2")', 1)]),
 "over-read": ("C19", [(AY, "*data.offset(7 * $num_colors) as i32,", "(data.offset(7 * $num_colors) as *const u16).read_unaligned() as u8 as i32,", 0)]),
 "ungated": ("C19", [(AF, '#[target_feature(enable = "avx2")]\nunsafe fn fdct_avx2_internal', 'unsafe fn fdct_avx2_internal', 0), (E, 'std::is_x86_feature_detected!("avx2")', 'std::is_x86_feature_detected!("sse2")', 1)]),
 "cross": ("C20", [(E, "self.quantization_tables = [luma, chroma];", "self.quantization_tables = [luma, chroma];\n        if self.quality > 100 { self.quality = 100; self.sampling_factor = SamplingFactor::F_1_1; }", 0)]),
 "q90": ("C20", [(E, "if quality < 90 {", "if quality <= 90 {", 0)]),
 "prog-keep": ("C20", [(E, "if progressive { Some(4) }", "if progressive { self.progressive_scans.or(Some(4)) }", 0)]),
 "static": ("C21", [(E, "fn init_components(&mut self, color: JpegColorType) {", "fn init_components(&mut self, color: JpegColorType) {\n        static N: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n        if N.fetch_add(1, core::sync::atomic::Ordering::Relaxed) > 1000 { self.sampling_factor = SamplingFactor::F_1_1; }", 0)]),
 "env": ("C21", [(E, "let image_dummy", "", 0)]) if False else ("C21", [(E, "self.init_components(jpeg_color_type);", "self.init_components(jpeg_color_type);\n        #[cfg(feature = \"std\")]\n        if std::env::var_os(\"JPEG_OPT\").is_some() { self.optimize_huffman_table = true; }", 0)]),
 "addr": ("C21", [(E, "self.init_components(jpeg_color_type);", "self.init_components(jpeg_color_type);\n        if (&image as *const I as usize) % 4096 == 0 { self.restart_interval = None; }", 0)]),
 "row-order": ("C22", [(E, "image.fill_buffers(y, &mut row);\n\n            for _", "image.fill_buffers(if usize::from(y) + 1 == usize::from(height) && height > 20 { y - 1 } else { y }, &mut row);\n\n            for _", 0)]),
 "row-peek": ("C22", [(E, "self.write_frame_header(&image, q_tables)?;\n        self.writer\n            .write_scan_header(&self", "self.write_frame_header(&image, q_tables)?;\n        image.fill_buffers(image.height() - 1, &mut self.init_rows(usize::from(image.width())));\n        self.writer\n            .write_scan_header(&self", 0)]),
 "vec-trunc": ("C23,C07", [(W, "self.extend_from_slice(buf);", "self.extend_from_slice(&buf[..buf.len().min(65533)]);", 0)]),
 "io-write": ("C07", [(W, "self.write_all(buf)?;\n        Ok(())", "self.write(buf)?;\n        Ok(())", 0)]),
 "swallow": ("C07", [(W, "            self.write_u8(0x00)?;\n        }\n\n        Ok(())", "            let _ = self.write_u8(0x00);\n        }\n\n        Ok(())", 0)]),
 "late-err": ("C07", [(W, "self.write_u16(data.len() as u16 + 2)?;\n        self.write(data)?;", "let a = self.write_u16(data.len() as u16 + 2);\n        self.write(data)?;\n        a?;", 0)]),
 "req-len": ("C08", [(E, "width as usize * height as usize * color_type", "(width.wrapping_mul(2) as usize / 2 + (width as usize & 0x8000)) * height as usize * color_type", 0)]),
 "req-u32": ("C08", [(E, "let required_data_len = width as usize * height as usize * color_type.get_bytes_per_pixel();", "let required_data_len = (width as u32).wrapping_mul(height as u32).wrapping_mul(color_type.get_bytes_per_pixel() as u32) as usize;", 0)]),
 "zero-h": ("C08", [(E, "if image.width() == 0 || image.height() == 0 {", "if image.width() == 0 && image.height() == 0 {", 0)]),
 "seg-len": ("C01", [(W, "self.write_u16(data.len() as u16 + 2)?;\n        self.write(data)", "self.write_u16((data.len() as u16 & 0x7fff) + 2)?;\n        self.write(data)", 0)]),
 "eoi": ("C01", [(E, "self.writer.write_marker(Marker::EOI)?;", "if self.restart_interval != Some(1) { self.writer.write_marker(Marker::EOI)?; }", 0)]),
 "swar": ("C03", [(W, "0x0101010101010101", "0x0101010101010100", 0)]),
 "swar2": ("C03", [(W, "& !(self.bit_buffer.wrapping_add(0x0101010101010101))", "& (self.bit_buffer << 7)", 0)]),
 "pad0": ("C03", [(W, "self.write_bits(0x7F, 7)?;", "self.write_bits(0x3F, 7)?;", 0)]),
 "stuff-end": ("C03", [(W, "        if value == 0xFF {", "        if value == 0xFF && free_bits != 0 {", 0)]),
 # --- behaviour preserving
 "eq-mask": ("C04,C24,C17", [(E, "                        restarts &= 7;\n", "", None)]),
 "eq-reset": ("C03,C01", [(W, "        self.bit_buffer = 0;\n        self.free_bits = BUFFER_SIZE as i8;\n\n        Ok", "        self.free_bits = BUFFER_SIZE as i8;\n\n        Ok", 0)]),
 "eq-50": ("C15", [(Q, "if quality < 50", "if quality <= 50", 0)]),
 "eq-round": ("C11,C13", [(IB, "let y = (y + 0x7FFF) >> 16;", "let y = (y + 0x7FFE + 1) / 65536;", 0)]),
 "eq-swar": ("C03,C01", [(W, "            & 0x8080808080808080\n            & !(self.bit_buffer.wrapping_add(0x0101010101010101)))\n            != 0", "            | 0)\n            .to_be_bytes()\n            .contains(&0xFF)", 0)]),
 "eq-getline": ("C10,C19", [(IB, "    let end = start + width * num_colors;\n\n    &data[start..end]", "    &data[start..][..width * num_colors]", 0)]),
 "eq-extend": ("C10,C06,C22", [(IB, "        for &pixel in line {\n            buffers[0].push(pixel);\n        }", "        buffers[0].extend_from_slice(line);", 0)]),
 "eq-resize": ("C06,C22,C10,C19", [(E, "                for _ in usize::from(width)..buffer_width {\n                    for channel in &mut row {\n                        if !channel.is_empty() {\n                            channel.push(channel[channel.len() - 1]);\n                        }\n                    }\n                }", "                for channel in &mut row {\n                    if let Some(&last) = channel.last() {\n                        channel.resize(channel.len() + buffer_width - usize::from(width), last);\n                    }\n                }", 0)]),
 "eq-restart": ("C04,C17,C01,C24", [(E, "let restart_interval = usize::from(self.restart_interval.unwrap_or(0));\n\n        for table", "let restart_interval = self.restart_interval.map_or(0, usize::from);\n\n        for table", 0),
   (E, "        for (i, component) in self.components.iter().enumerate() {\n            let restart_interval = self.restart_interval.unwrap_or(0);\n            let mut restarts = 0;\n            let mut restarts_to_go = restart_interval;\n\n            self.writer.write_scan_header(&[component], None)?;\n\n            let mut prev_dc = 0;\n\n            for block in &blocks[i] {\n                if restart_interval > 0 && restarts_to_go == 0 {\n                    self.writer.finalize_bit_buffer()?;\n                    self.writer\n                        .write_marker(Marker::RST((restarts % 8) as u8))?;\n\n                    prev_dc = 0;\n                }\n",
       "        for (i, component) in self.components.iter().enumerate() {\n            let restart_interval = usize::from(self.restart_interval.unwrap_or(0));\n\n            self.writer.write_scan_header(&[component], None)?;\n\n            let mut prev_dc = 0;\n\n            for (n, block) in blocks[i].iter().enumerate() {\n                if restart_interval > 0 && n > 0 && n % restart_interval == 0 {\n                    self.writer.finalize_bit_buffer()?;\n                    self.writer\n                        .write_marker(Marker::RST(((n / restart_interval - 1) % 8) as u8))?;\n\n                    prev_dc = 0;\n                }\n", 0),
   (E, "                prev_dc = block[0];\n\n                if restart_interval > 0 {\n                    if restarts_to_go == 0 {\n                        restarts_to_go = restart_interval;\n                        restarts += 1;\n                        restarts &= 7;\n                    }\n                    restarts_to_go -= 1;\n                }\n            }\n\n            self.writer.finalize_bit_buffer()?;\n        }\n\n        Ok(())\n    }\n\n    /// Encode image in prog",
       "                prev_dc = block[0];\n            }\n\n            self.writer.finalize_bit_buffer()?;\n        }\n\n        Ok(())\n    }\n\n    /// Encode image in prog", 0)]),
 "eq-freq-fn": ("C17,C24,C16", [(E, "fn ceil_div(value", "fn count_ac(values: &[i16], freq: &mut [u64; 257]) {\n    let mut zero_run = 0;\n    for &value in values {\n        if value == 0 {\n            zero_run += 1;\n            continue;\n        }\n        while zero_run > 15 {\n            freq[0xF0] += 1;\n            zero_run -= 16;\n        }\n        let symbol = (zero_run << 4) | get_num_bits(value);\n        freq[symbol as usize] += 1;\n        zero_run = 0;\n    }\n    if zero_run > 0 {\n        freq[0] += 1;\n    }\n}\n\nfn ceil_div(value", 0),
   (E, "                            let mut zero_run = 0;\n\n                            for &value in &block[1..] {\n                                if value == 0 {\n                                    zero_run += 1;\n                                } else {\n                                    while zero_run > 15 {\n                                        ac_freq[0xF0] += 1;\n                                        zero_run -= 16;\n                                    }\n                                    let num_bits = get_num_bits(value);\n                                    let symbol = (zero_run << 4) | num_bits;\n\n                                    ac_freq[symbol as usize] += 1;\n\n                                    zero_run = 0;\n                                }\n                            }\n\n                            if zero_run > 0 {\n                                ac_freq[0] += 1;\n                            }\n", "                            count_ac(&block[1..], &mut ac_freq);\n", 0)]),
 "eq-numbits": ("C17,C24", [(E, "    if value < 0 {\n        value = -value;\n    }\n\n    let mut num_bits = 0;\n\n    while value > 0 {\n        num_bits += 1;\n        value >>= 1;\n    }\n\n    num_bits\n", "    value = value.abs();\n    (16 - value.leading_zeros()) as u8\n", 0)]),
 "eq-getcode": ("C18,C24", [(W, "let num_bits = 15 - (temp2 << 1 | 1).leading_zeros() as u16;", "let num_bits = 16 - temp2.leading_zeros() as u16;", 0)]),
 "eq-block-iter": ("C06,C24", [(E, "    for y in 0..8 {\n        for x in 0..8 {\n            let ix = start_x + (x * col_stride);\n            let iy = start_y + (y * row_stride);\n\n            block[y * 8 + x] = (data[iy * width + ix] as i16) - 128;\n        }\n    }", "    for (y, row) in block.chunks_exact_mut(8).enumerate() {\n        let start = (start_y + y * row_stride) * width + start_x;\n        for (v, &p) in row.iter_mut().zip(data[start..].iter().step_by(col_stride)) {\n            *v = i16::from(p) - 128;\n        }\n    }", 0)]),
 "eq-quality-fn": ("C15,C14", [(Q, "        for (i, &v) in table.iter().enumerate() {\n            let v = v as u32;\n\n            let v = (v * scale + 50) / 100;\n\n            let v = v.clamp(1, 255) as u16;\n\n            // Table values are premultiplied with 8 because dct is scaled by 8\n            q_table[i] = NonZeroU16::new(v << 3).unwrap();\n        }", "        for (q, &v) in q_table.iter_mut().zip(table) {\n            let scaled = (u32::from(v) * scale + 50) / 100;\n            *q = NonZeroU16::new((scaled.max(1).min(255) * 8) as u16).unwrap();\n        }", 0)]),
 "eq-writebits": ("C03,C01,C18", [(W, "        let free_bits = self.free_bits - size;\n\n        if free_bits < 0 {\n            self.bit_buffer = (self.bit_buffer << (size + free_bits)) | (value >> -free_bits);\n            self.write_bit_buffer()?;\n            self.bit_buffer = value;\n            self.free_bits = free_bits + BUFFER_SIZE as i8;\n        } else {\n            self.free_bits = free_bits;\n            self.bit_buffer = (self.bit_buffer << size) | value;\n        }\n        Ok(())", "        if size <= self.free_bits {\n            self.bit_buffer = (self.bit_buffer << size) | value;\n            self.free_bits -= size;\n            return Ok(());\n        }\n        let rest = size - self.free_bits;\n        self.bit_buffer = (self.bit_buffer << self.free_bits) | (value >> rest);\n        self.write_bit_buffer()?;\n        self.bit_buffer = value;\n        self.free_bits = BUFFER_SIZE as i8 - rest;\n        Ok(())", 0)]),
 "eq-acblock": ("C18,C01,C24", [(W, "        let mut zero_run = 0;\n\n        for &value in &block[start..end] {\n            if value == 0 {\n                zero_run += 1;\n            } else {\n                while zero_run > 15 {\n                    self.huffman_encode(0xF0, ac_table)?;\n                    zero_run -= 16;\n                }\n\n                let (size, value) = get_code(value);\n                let symbol = (zero_run << 4) | size;\n\n                self.huffman_encode_value(size, symbol, value, ac_table)?;\n\n                zero_run = 0;\n            }\n        }\n\n        if zero_run > 0 {", "        let mut last = start;\n\n        for k in start..end {\n            if block[k] == 0 {\n                continue;\n            }\n            let mut zero_run = k - last;\n            while zero_run >= 16 {\n                self.huffman_encode(0xF0, ac_table)?;\n                zero_run -= 16;\n            }\n\n            let (size, value) = get_code(block[k]);\n            self.huffman_encode_value(size, ((zero_run as u8) << 4) + size, value, ac_table)?;\n            last = k + 1;\n        }\n\n        if last < end {", 0)]),
 "eq-header-buf": ("C02,C01,C07", [(W, "        self.write_marker(Marker::DRI)?;\n        self.write_u16(4)?;\n        self.write_u16(restart_interval)", "        let mut segment = [0xFF, u8::from(Marker::DRI), 0, 4, 0, 0];\n        segment[4..].copy_from_slice(&restart_interval.to_be_bytes());\n        self.write(&segment)", 0)]),
 "eq-dqt-buf": ("C02,C01,C14,C07", [(W, "        for &v in ZIGZAG.iter() {\n            self.write_u8(table.get(v as usize))?;\n        }\n\n        Ok(())", "        let mut values = [0u8; 64];\n        for (value, &z) in values.iter_mut().zip(ZIGZAG.iter()) {\n            *value = table.get(usize::from(z));\n        }\n        self.write(&values)", 0)]),
 "eq-density": ("C02,C01,C15,C20", [(W, "        match *density {\n            Density::None => {\n                self.write_u8(0x00)?;\n                self.write_u16(1)?;\n                self.write_u16(1)?;\n            }\n            Density::Inch { x, y } => {\n                self.write_u8(0x01)?;\n                self.write_u16(x)?;\n                self.write_u16(y)?;\n            }\n            Density::Centimeter { x, y } => {\n                self.write_u8(0x02)?;\n                self.write_u16(x)?;\n                self.write_u16(y)?;\n            }\n        }\n", "        let (unit, x, y) = match *density {\n            Density::None => (0, 1, 1),\n            Density::Inch { x, y } => (1, x, y),\n            Density::Centimeter { x, y } => (2, x, y),\n        };\n        self.write_u8(unit)?;\n        self.write_u16(x)?;\n        self.write_u16(y)?;\n", 0)]),
 "eq-icc": ("C09", [(E, "            chunk_data.clear();\n            chunk_data.extend_from_slice(MARKER);", "            let mut chunk_data = Vec::with_capacity(MAX_CHUNK_LENGTH + 14);\n            chunk_data.extend_from_slice(MARKER);", 0), (E, "        let mut chunk_data = Vec::with_capacity(MAX_CHUNK_LENGTH);\n", "", 0)]),
 "eq-lookup": ("C16,C15", [(HF, "    for (i, &value) in values.iter().enumerate() {\n        lookup_table[value as usize] = (sizes[i], codes[i]);\n    }", "    for ((&value, &size), &code) in values.iter().zip(sizes.iter()).zip(codes.iter()) {\n        lookup_table[usize::from(value)] = (size, code);\n    }", 0)]),
 "eq-codes": ("C16,C15", [(HF, "        if current_size != size {\n            let size_diff = size - current_size;\n            current_code <<= size_diff as usize;\n            current_size = size;\n        }\n", "        while current_size < size {\n            current_code <<= 1;\n            current_size += 1;\n        }\n", 0)]),
 "eq-maxsamp": ("C02,C06,C01", [(E, "        let max_h_sampling = self.components.iter().fold(1, |value, component| {\n            value.max(component.horizontal_sampling_factor)\n        });\n", "        let mut max_h_sampling = 1;\n        for component in &self.components {\n            if component.horizontal_sampling_factor > max_h_sampling {\n                max_h_sampling = component.horizontal_sampling_factor;\n            }\n        }\n", 0)]),
 "eq-match-encode": ("C08,C10,C24,C23", [(E, "        if data.len() < required_data_len {\n            return Err(EncodingError::BadImageData {\n                length: data.len(),\n                required: required_data_len,\n            });\n        }\n", "        if required_data_len > data.len() {\n            let length = data.len();\n            return Err(EncodingError::BadImageData { length, required: required_data_len });\n        }\n        let data = &data[..required_data_len];\n", 0)]),
 "eq-cmyk": ("C10", [(IB, "            buffers[0].push(255 - pixel[0]);\n            buffers[1].push(255 - pixel[1]);\n            buffers[2].push(255 - pixel[2]);\n            buffers[3].push(255 - pixel[3]);", "            for (buffer, &value) in buffers.iter_mut().zip(pixel) {\n                buffer.push(!value);\n            }", 0)]),
 "eq-rowsfn": ("C06,C22,C19", [(E, "        match self.components.len() {\n            1 => [\n                Vec::with_capacity(buffer_size),\n                Vec::new(),\n                Vec::new(),\n                Vec::new(),\n            ],\n            3 => [\n                Vec::with_capacity(buffer_size),\n                Vec::with_capacity(buffer_size),\n                Vec::with_capacity(buffer_size),\n                Vec::new(),\n            ],\n            4 => [\n                Vec::with_capacity(buffer_size),\n                Vec::with_capacity(buffer_size),\n                Vec::with_capacity(buffer_size),\n                Vec::with_capacity(buffer_size),\n            ],\n            len => unreachable!(\"Unsupported component length: {}\", len),\n        }", "        let mut rows = [Vec::new(), Vec::new(), Vec::new(), Vec::new()];\n        for row in rows.iter_mut().take(self.components.len()) {\n            row.reserve_exact(buffer_size);\n        }\n        rows", 0)]),
 "eq-fdct-helper": ("C12,C13", [(F, "        data2[offset + 0] = (tmp10 + tmp11) << PASS1_BITS;\n        data2[offset + 4] = (tmp10 - tmp11) << PASS1_BITS;", "        data2[offset + 0] = (tmp10 + tmp11) * 4;\n        data2[offset + 4] = (tmp10 - tmp11) * 4;", 0)]),
 "eq-quant": ("C14,C13", [(Q, "        if value != abs_value {\n            product *= -1;\n        }\n\n        product as i16", "        if in_value < 0 {\n            product = -product;\n        }\n\n        product as i16", 0)]),
 "eq-quantblock": ("C14,C13", [(E, "        for i in 0..64 {\n            let z = ZIGZAG[i] as usize & 0x3f;\n            q_block[i] = table.quantize(block[z], z);\n        }", "        for (q, &z) in q_block.iter_mut().zip(ZIGZAG.iter()) {\n            *q = table.quantize(block[usize::from(z)], usize::from(z));\n        }", 0)]),
 "eq-avx-tail": ("C13,C19,C10", [(AY, "                for _ in 0..self.width() / 8 {", "                let mut left = usize::from(self.width());\n                while left >= 8 {\n                    left -= 8;", 0), (AY, "for _ in 0..self.width() % 8 {", "for _ in 0..left {", 0)]),
 "eq-components": ("C02,C01", [(E, "                add_component!(self.components, 1, 1, 1, 1);\n                add_component!(self.components, 2, 1, 1, 1);\n            }\n            JpegColorType::Cmyk", "                for id in 1..3 {\n                    add_component!(self.components, id, 1, 1, 1);\n                }\n            }\n            JpegColorType::Cmyk", 0)]),
 "eq-optfirst": ("C17,C16,C05", [(HF, "            for (i, &f) in freq.iter().enumerate() {\n                if f > 0 && f <= v1_min {\n                    v1_min = f;\n                    v1 = Some(i);\n                }\n            }", "            for i in (0..257).rev() {\n                if freq[i] > 0 && freq[i] < v1_min {\n                    v1_min = freq[i];\n                    v1 = Some(i);\n                }\n            }", 0)]),
}


def apply(repo, edits):
    for f, old, new, n in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        if old not in s:
            return "EDIT not found in %s: %r" % (f, old[:70])
        if n is None:
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            if len(parts) <= n + 1:
                return "EDIT occurrence"
            s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(s)


def main():
    ids = sys.argv[1:] or list(M)
    if ids == ["eq"]:
        ids = [i for i in M if i.startswith("eq-")]
    if ids[0] == "from":
        ids = [i for i in list(M)[list(M).index(ids[1]):]]
    if ids == ["br"]:
        ids = [i for i in M if not i.startswith("eq-")]
    for i in ids:
        props, edits = M[i]
        t = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        try:
            shutil.copytree("/repo", t + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
            e = apply(t + "/repo", edits)
            if e:
                print(i, e, flush=True)
                continue
            if "-t" in os.environ.get("MUT", ""):
                r = subprocess.run("cargo test --offline --features simd -q", shell=True, cwd=t + "/repo", capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/muttgt"))
                print(i, "tests", "pass" if r.returncode == 0 else "FAIL", flush=True)
            out = []
            for p in [p for p in props.split(",") if p not in os.environ.get("SKIP", "").split(",")]:
                os.makedirs(t + "/out/evidence", exist_ok=True)
                r = subprocess.run([sys.executable, os.path.join(H, "check.py"), p, "--out", t + "/out"], capture_output=True, text=True, env=dict(os.environ, JSA_REPO=t + "/repo"))
                want = 0 if i.startswith("eq-") else 1
                print(i, p, "rc=%d" % r.returncode, "" if r.returncode == want else "  <<<<< UNEXPECTED", flush=True)
                if r.returncode != want or os.environ.get("V"):
                    print("    " + "\n    ".join((r.stdout + r.stderr).splitlines()[:6]), flush=True)
                elif want:
                    print("    " + "\n    ".join(l[:200] for l in (r.stdout).splitlines()[:2]), flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)


main()
