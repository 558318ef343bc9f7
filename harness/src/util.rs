use strict_encoding::{StrictDecode, StrictEncode, StrictReader, StrictWriter};

pub fn ser<T: StrictEncode>(t: &T) -> Vec<u8> {
    t.strict_encode(StrictWriter::in_memory::<{ u32::MAX as usize }>()).expect("in-memory").unbox().unconfine()
}

/// Decodes a value from the start of the buffer, returns also how many bytes it took.
pub fn de<T: StrictDecode>(b: &[u8]) -> Result<(T, usize), String> {
    let mut r = StrictReader::in_memory::<{ u32::MAX as usize }>(b);
    match T::strict_decode(&mut r) {
        Ok(v) => Ok((v, r.into_cursor().position() as usize)),
        Err(e) => Err(e.to_string()),
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

/// Corrupts a byte string: flips, replacements, deletions, insertions, truncation, splices.
pub fn corrupt(src: &mut crate::engine::Src, b: &mut Vec<u8>) {
    for _ in 0..src.range(1, 3) {
        if b.is_empty() {
            b.push(src.byte());
            continue;
        }
        let i = src.usize(0, b.len() - 1);
        match src.below(8) {
            0 => b[i] ^= 1 << src.below(8),
            1 => b[i] = src.byte(),
            2 => b[i] = *src.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, src.byte()),
            5 => b.truncate(i),
            6 => {
                let j = src.usize(0, b.len() - 1);
                b.swap(i, j);
            }
            _ => {
                let n = src.usize(1, 8).min(b.len() - i);
                let c = b[i..i + n].to_vec();
                let j = src.usize(0, b.len());
                for (k, x) in c.into_iter().enumerate() {
                    b.insert(j + k, x);
                }
            }
        }
    }
}
