//! The writers the crate offers itself without the std feature.
use super::api::*;
use crate::*;
use alloc::vec::Vec;

pub struct Sink;
fn fails() -> bool {
    if any::<bool>() {
        key_set(0, 1);
        return true;
    }
    false
}
impl JfifWrite for Sink {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        check("C07:nothing is written after a failure", key_get(0) == 0);
        if fails() {
            return Err(EncodingError::Write(alloc::string::String::new()));
        }
        let all: &[u8] = dat_get(50);
        check("C07:bytes reach the sink once and in order", same_bytes(all, b) && key_get(2) == 0);
        key_set(2, 1);
        Ok(())
    }
    fn flush(&mut self) -> Result<(), EncodingError> {
        check("C07:nothing is written after a failure", key_get(0) == 0);
        if fails() {
            return Err(EncodingError::Write(alloc::string::String::new()));
        }
        key_set(1, 1);
        Ok(())
    }
}
pub fn h_ref() {
    let b = any_slice(part(20) as usize);
    dat_set(50, b);
    set_ite(0);
    let mut s = Sink;
    let mut w = &mut s;
    let r = <&mut Sink as JfifWrite>::write_all(&mut w, b);
    if key_get(0) == 1 {
        check("C07:a failed write is reported as an error", r.is_err());
        return;
    }
    check("C07:a successful write took every byte", r.is_ok() && key_get(2) == 1);
    let r = <&mut Sink as JfifWrite>::flush(&mut w);
    if key_get(0) == 1 {
        check("C07:a failed flush is reported as an error", r.is_err());
        return;
    }
    check("C07:flushing reaches the sink", r.is_ok() && key_get(1) == 1);
    reached("adapter success");
}
/// bytes appended to a vector
pub fn h_vec() {
    let n = part(6) as usize;
    let k = [0usize, 1, 2, 31, 32, 33, 100][part(7) as usize];
    let (a, b) = (any_slice(n), any_slice(k));
    let mut v: Vec<u8> = Vec::new();
    check("C07:a vector takes every byte", JfifWrite::write_all(&mut v, a).is_ok() && v.len() == n && same_bytes(&v[..], a));
    check("C07:a vector takes every byte", JfifWrite::write_all(&mut v, b).is_ok() && v.len() == n + k);
    check("C07:a vector keeps the order", same_bytes(&v[..n], a) && same_bytes(&v[n..], b));
    check("C07:a vector can be flushed", JfifWrite::flush(&mut v).is_ok());
    reached("vector");
}
