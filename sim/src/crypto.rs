//! Sender-side AES-128, written independently of the crate the receiver uses.

fn xtime(x: u8) -> u8 {
    (x << 1) ^ (if x & 0x80 != 0 { 0x1B } else { 0 })
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

struct Sbox([u8; 256]);

fn sbox() -> &'static Sbox {
    static S: std::sync::OnceLock<Sbox> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for (i, o) in s.iter_mut().enumerate() {
            let i = i as u8;
            // Multiplicative inverse by exponentiation: i^254.
            let mut inv = 1u8;
            for _ in 0..254 {
                inv = mul(inv, i);
            }
            let x = if i == 0 { 0 } else { inv };
            *o = x
                ^ x.rotate_left(1)
                ^ x.rotate_left(2)
                ^ x.rotate_left(3)
                ^ x.rotate_left(4)
                ^ 0x63;
        }
        Sbox(s)
    })
}

fn expand(key: &[u8; 16]) -> [[u8; 16]; 11] {
    let s = &sbox().0;
    let mut w = [[0u8; 4]; 44];
    for i in 0..4 {
        w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
    }
    let mut rcon = 1u8;
    for i in 4..44 {
        let mut t = w[i - 1];
        if i % 4 == 0 {
            t = [
                s[t[1] as usize] ^ rcon,
                s[t[2] as usize],
                s[t[3] as usize],
                s[t[0] as usize],
            ];
            rcon = xtime(rcon);
        }
        for j in 0..4 {
            w[i][j] = w[i - 4][j] ^ t[j];
        }
    }
    let mut r = [[0u8; 16]; 11];
    for (i, k) in r.iter_mut().enumerate() {
        for j in 0..4 {
            k[4 * j..4 * j + 4].copy_from_slice(&w[4 * i + j]);
        }
    }
    r
}

pub fn aes128(key: &[u8; 16], block: &mut [u8; 16]) {
    let s = &sbox().0;
    let rk = expand(key);
    for i in 0..16 {
        block[i] ^= rk[0][i];
    }
    for (r, k) in rk.iter().enumerate().skip(1) {
        let mut t = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                t[4 * c + row] = s[block[4 * ((c + row) % 4) + row] as usize];
            }
        }
        if r != 10 {
            for c in 0..4 {
                let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                for row in 0..4 {
                    t[4 * c + row] = mul(a[row], 2)
                        ^ mul(a[(row + 1) % 4], 3)
                        ^ a[(row + 2) % 4]
                        ^ a[(row + 3) % 4];
                }
            }
        }
        for i in 0..16 {
            block[i] = t[i] ^ k[i];
        }
    }
}

/// CBC over the whole blocks of `data`; a shorter tail is left as it is.
pub fn cbc_encrypt(key: &[u8; 16], iv: &[u8; 16], data: &mut [u8]) {
    let mut prev = *iv;
    for c in data.chunks_exact_mut(16) {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = c[i] ^ prev[i];
        }
        aes128(key, &mut b);
        c.copy_from_slice(&b);
        prev = b;
    }
}

pub fn self_test() -> bool {
    // FIPS-197 appendix C.1.
    let key: [u8; 16] = std::array::from_fn(|i| i as u8);
    let mut b: [u8; 16] = std::array::from_fn(|i| (i * 0x11) as u8);
    aes128(&key, &mut b);
    b == [
        0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5,
        0x5a,
    ]
}
