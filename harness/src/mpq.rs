//! Writes MPQ archives (single unit, stored sectors) for synthesized replays.
use std::sync::OnceLock;

fn table() -> &'static [u32; 0x500] {
    static T: OnceLock<[u32; 0x500]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 0x500];
        let mut seed: u64 = 0x0010_0001;
        for i in 0..0x100 {
            let mut idx = i;
            for _ in 0..5 {
                seed = (seed * 125 + 3) % 0x2AAAAB;
                let a = (seed & 0xFFFF) << 16;
                seed = (seed * 125 + 3) % 0x2AAAAB;
                t[idx] = (a | (seed & 0xFFFF)) as u32;
                idx += 0x100;
            }
        }
        t
    })
}
fn hash(s: &str, kind: u32) -> u32 {
    let (mut a, mut b): (u32, u32) = (0x7FED7FED, 0xEEEEEEEE);
    for c in s.to_uppercase().bytes() {
        let v = table()[((kind << 8) + c as u32) as usize];
        a = v ^ a.wrapping_add(b);
        b = (c as u32).wrapping_add(a).wrapping_add(b).wrapping_add(b << 5).wrapping_add(3);
    }
    a
}
fn encrypt(data: &mut [u8], key: u32) {
    let (mut s1, mut s2): (u32, u32) = (key, 0xEEEEEEEE);
    for c in data.chunks_exact_mut(4) {
        s2 = s2.wrapping_add(table()[(0x400 + (s1 & 0xFF)) as usize]);
        let plain = u32::from_le_bytes(c.try_into().unwrap());
        c.copy_from_slice(&(plain ^ s1.wrapping_add(s2)).to_le_bytes());
        s1 = ((!s1) << 0x15).wrapping_add(0x11111111) | (s1 >> 0x0B);
        s2 = plain.wrapping_add(s2).wrapping_add(s2 << 5).wrapping_add(3);
    }
}

/// An archive with the given files; `user` is the content of the user data section.
pub fn archive(user: Option<&[u8]>, files: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut out = vec![];
    if let Some(u) = user {
        let start = (16 + u.len()).div_ceil(512) * 512;
        out.extend(b"MPQ\x1b");
        out.extend((u.len() as u32).to_le_bytes());
        out.extend((start as u32).to_le_bytes());
        out.extend((u.len() as u32).to_le_bytes());
        out.extend(u);
        out.resize(start, 0);
    }
    let mut body = vec![0u8; 32];
    let mut blocks = vec![];
    for (_, data) in files {
        let off = body.len() as u32;
        body.extend(data);
        blocks.push((off, data.len() as u32));
    }
    let n = 16usize.max(files.len().next_power_of_two() * 2);
    let hash_off = body.len() as u32;
    let mut h = vec![];
    for i in 0..n {
        match files.get(i) {
            Some((name, _)) => {
                h.extend(hash(name, 1).to_le_bytes());
                h.extend(hash(name, 2).to_le_bytes());
                h.extend([0u8; 4]);
                h.extend((i as u32).to_le_bytes());
            }
            None => h.extend([0xFFu8; 16]),
        }
    }
    encrypt(&mut h, hash("(hash table)", 3));
    body.extend(h);
    let block_off = body.len() as u32;
    let mut b = vec![];
    for (off, len) in &blocks {
        b.extend(off.to_le_bytes());
        b.extend(len.to_le_bytes());
        b.extend(len.to_le_bytes());
        b.extend(0x8100_0000u32.to_le_bytes());
    }
    encrypt(&mut b, hash("(block table)", 3));
    body.extend(b);
    let total = body.len() as u32;
    let mut hd = vec![];
    hd.extend(b"MPQ\x1a");
    hd.extend(32u32.to_le_bytes());
    hd.extend(total.to_le_bytes());
    hd.extend(0u16.to_le_bytes());
    hd.extend(3u16.to_le_bytes());
    hd.extend(hash_off.to_le_bytes());
    hd.extend(block_off.to_le_bytes());
    hd.extend((n as u32).to_le_bytes());
    hd.extend((blocks.len() as u32).to_le_bytes());
    body[..32].copy_from_slice(&hd);
    out.extend(body);
    out
}
