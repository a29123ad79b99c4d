//! The published cipher and hash (independent of the library), and access to the words of an archive.
use std::sync::OnceLock;

fn table() -> &'static [u32; 0x500] {
    static T: OnceLock<[u32; 0x500]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 0x500];
        let mut seed = 0x00100001u32;
        for i in 0..0x100usize {
            for k in 0..5 {
                seed = (seed.wrapping_mul(125).wrapping_add(3)) % 0x2AAAAB;
                let a = (seed & 0xFFFF) << 16;
                seed = (seed.wrapping_mul(125).wrapping_add(3)) % 0x2AAAAB;
                t[i + k * 0x100] = a | (seed & 0xFFFF);
            }
        }
        t
    })
}
/// kind: 0 table position, 1 name A, 2 name B, 3 file key
pub fn hash(name: &[u8], kind: u32) -> u32 {
    let t = table();
    let (mut s1, mut s2) = (0x7FED7FEDu32, 0xEEEEEEEEu32);
    for &c in name {
        let c = if c == b'/' { b'\\' } else { c.to_ascii_uppercase() } as u32;
        s1 = t[(kind * 0x100 + c) as usize] ^ s1.wrapping_add(s2);
        s2 = c.wrapping_add(s1).wrapping_add(s2).wrapping_add(s2 << 5).wrapping_add(3);
    }
    s1
}
pub fn encrypt(data: &mut [u8], mut key: u32) {
    let t = table();
    let mut seed = 0xEEEEEEEEu32;
    for w in data.chunks_exact_mut(4) {
        seed = seed.wrapping_add(t[0x400 + (key & 0xFF) as usize]);
        let p = u32::from_le_bytes(w.try_into().unwrap());
        w.copy_from_slice(&(p ^ key.wrapping_add(seed)).to_le_bytes());
        key = (!key << 21).wrapping_add(0x11111111) | key >> 11;
        seed = p.wrapping_add(seed).wrapping_add(seed << 5).wrapping_add(3);
    }
}
pub fn decrypt(data: &mut [u8], mut key: u32) {
    let t = table();
    let mut seed = 0xEEEEEEEEu32;
    for w in data.chunks_exact_mut(4) {
        seed = seed.wrapping_add(t[0x400 + (key & 0xFF) as usize]);
        let p = u32::from_le_bytes(w.try_into().unwrap()) ^ key.wrapping_add(seed);
        w.copy_from_slice(&p.to_le_bytes());
        key = (!key << 21).wrapping_add(0x11111111) | key >> 11;
        seed = p.wrapping_add(seed).wrapping_add(seed << 5).wrapping_add(3);
    }
}
pub fn base_name(n: &[u8]) -> &[u8] {
    match n.iter().rposition(|c| *c == b'\\' || *c == b'/') {
        Some(p) => &n[p + 1..],
        None => n,
    }
}
