//! Model of `cobs` 0.2.3 for bounded checking: same functions as the ones postcard-rpc calls, same
//! results, written with single-level loops (the crate's nested loops blow up when unrolled).
//! `decode_in_place_orig` is the crate's own algorithm; harness `t06_cobs_model_matches` compares.
#![cfg_attr(not(feature = "use_std"), no_std)]

pub fn decode_in_place(buff: &mut [u8]) -> Result<usize, ()> {
    let mut left = 0u8;
    let mut code = 0xFFu8;
    let mut out = 0usize;
    let mut i = 0usize;
    while i < buff.len() {
        let b = buff[i];
        if b == 0 {
            break;
        }
        if left == 0 {
            if code != 0xFF {
                buff[out] = 0;
                out += 1;
            }
            code = b;
            left = b - 1;
        } else {
            buff[out] = b;
            out += 1;
            left -= 1;
        }
        i += 1;
    }
    if left != 0 {
        return Err(());
    }
    Ok(out)
}

pub struct DecodeReport {
    pub src_used: usize,
    pub dst_used: usize,
}

pub fn decode_in_place_orig(buff: &mut [u8]) -> Result<usize, ()> {
    let mut source_index = 0;
    let mut dest_index = 0;
    let src_end = if let Some(end) = buff.iter().position(|b| *b == 0) { end } else { buff.len() };
    while source_index < src_end {
        let code = buff[source_index];
        if source_index + code as usize > src_end && code != 1 {
            return Err(());
        }
        source_index += 1;
        for _ in 1..code {
            buff[dest_index] = buff[source_index];
            source_index += 1;
            dest_index += 1;
        }
        if 0xFF != code && source_index < src_end {
            buff[dest_index] = 0;
            dest_index += 1;
        }
    }
    Ok(dest_index)
}

#[cfg(feature = "use_std")]
pub fn encode_vec(source: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(source.len() + source.len() / 254 + 1);
    out.push(0u8);
    let mut code_at = 0usize;
    let mut code = 1u8;
    let mut i = 0;
    while i < source.len() {
        if code == 0xFF {
            out[code_at] = code;
            code_at = out.len();
            out.push(0);
            code = 1;
        }
        let b = source[i];
        if b == 0 {
            out[code_at] = code;
            code_at = out.len();
            out.push(0);
            code = 1;
        } else {
            out.push(b);
            code += 1;
        }
        i += 1;
    }
    out[code_at] = code;
    out
}
