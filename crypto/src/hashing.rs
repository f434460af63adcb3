//! C33: hash helpers.
use engine::{ensure_eq, Check, Prop, Src};
use openzeppelin_crypto::{
    hash::{commutative_hash_pair, hash_pair, BuildHasher, Hash, Hasher},
    KeccakBuilder,
};

use crate::hashes::{keccak, Salted, B32};

/// Reference Keccak-256 written from the definition (not tiny-keccak).
fn keccak_ref(data: &[u8]) -> B32 {
    const RATE: usize = 136;
    let mut st = [[0u64; 5]; 5];
    let mut msg = data.to_vec();
    msg.push(0x01);
    while msg.len() % RATE != 0 {
        msg.push(0);
    }
    *msg.last_mut().unwrap() |= 0x80;
    for block in msg.chunks(RATE) {
        for (i, w) in block.chunks(8).enumerate() {
            st[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f1600(&mut st);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&st[i % 5][i / 5].to_le_bytes());
    }
    out
}
fn f1600(a: &mut [[u64; 5]; 5]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        // theta
        let c: Vec<u64> = (0..5).map(|x| a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]).collect();
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho and pi
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[x][y];
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
            std::mem::swap(&mut cur, &mut a[x][y]);
            a[x][y] = a[x][y].rotate_left(r);
        }
        // chi
        for y in 0..5 {
            let row: Vec<u64> = (0..5).map(|x| a[x][y]).collect();
            for x in 0..5 {
                a[x][y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        // iota
        for j in 0..7 {
            if lfsr & 1 == 1 {
                a[0][0] ^= 1u64 << ((1 << j) - 1);
            }
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
        }
    }
}

/// Bytes ordered and hashed as they are, in chunks of a given size.
#[derive(Clone, PartialEq, PartialOrd)]
struct Blob(Vec<u8>, usize);
impl Hash for Blob {
    fn hash<H: Hasher>(&self, state: &mut H) {
        for c in self.0.chunks(self.1.max(1)) {
            state.update(c);
        }
    }
}

fn data(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => s.idx(8),
        1 => (136 * (s.idx(3) + 1) + s.idx(5)).saturating_sub(2),
        2 => s.idx(300),
        _ => s.idx(1000),
    };
    s.bytes(n)
}

fn keccaks(s: &mut Src) -> Check {
    let d = data(s);
    let want = keccak_ref(&d);
    assert!(want == keccak(&d), "harness: reference");
    let b = KeccakBuilder;
    // Earlier use of the builder leaves no trace.
    for _ in 0..s.idx(3) {
        let mut h = b.build_hasher();
        let x = data(s);
        h.update(&x);
        if s.bool() {
            let _ = h.finalize();
        }
    }
    let mut h = b.build_hasher();
    let mut i = 0;
    let mut splits = 0;
    while i < d.len() {
        let k = match s.below(4) {
            0 => 0,
            1 => 1,
            2 => d.len() - i,
            _ => s.idx(d.len() - i + 1),
        };
        match s.below(3) {
            0 => h.update(&d[i..i + k]),
            1 => h.update(d[i..i + k].to_vec()),
            _ => h.update(d[i..i + k].to_vec().into_boxed_slice()),
        }
        i += k;
        splits += 1;
    }
    s.note(|| format!("{} bytes in {splits} updates", d.len()));
    ensure_eq!(h.finalize(), want, "keccak", "Keccak-256 of {} bytes in {splits} updates", d.len());
    let blob = Blob(d.clone(), s.idx(200) + 1);
    ensure_eq!(b.hash_one(blob.clone()), want, "hash-one", "hash_one of {} bytes", d.len());
    ensure_eq!(b.hash_one(blob), want, "hash-one", "second hash_one of {} bytes", d.len());
    if d.len() >= 136 && splits > 1 {
        s.nontrivial = true;
    }
    Ok(())
}

fn pairs(s: &mut Src) -> Check {
    let a: B32 = s.bytes(32).try_into().unwrap();
    let b: B32 = match s.below(5) {
        0 => s.bytes(32).try_into().unwrap(),
        1 => a,
        2 => {
            let mut v = a;
            let i = s.idx(32);
            v[i] = v[i].wrapping_add(s.pick(&[1u8, 255, 128]));
            s.tag("differ in one byte");
            v
        }
        3 => {
            // The first difference and a later one disagree in direction.
            let mut v = a;
            let i = s.idx(31);
            let j = i + 1 + s.idx(31 - i);
            v[i] = v[i].wrapping_add(1);
            v[j] = v[j].wrapping_sub(1);
            s.tag("differ in two bytes");
            v
        }
        _ => {
            let mut v = [0u8; 32];
            v[31] = 1;
            v
        }
    };
    let cat = |x: &B32, y: &B32| [&x[..], &y[..]].concat();
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    s.note(|| format!("{a:02x?} {b:02x?}"));
    let kb = KeccakBuilder;
    ensure_eq!(hash_pair(&a, &b, kb.build_hasher()), keccak_ref(&cat(&a, &b)), "pair", "hash_pair {a:02x?} {b:02x?}");
    let want = keccak_ref(&cat(&lo, &hi));
    ensure_eq!(commutative_hash_pair(&a, &b, kb.build_hasher()), want, "commutative", "commutative_hash_pair {a:02x?} {b:02x?}");
    ensure_eq!(commutative_hash_pair(&b, &a, kb.build_hasher()), want, "commutative", "commutative_hash_pair {b:02x?} {a:02x?}");
    ensure_eq!(kb.hash_one(a), keccak_ref(&a), "hash-one", "hash_one {a:02x?}");
    // Another hasher (with state of its own) and other value types.
    let n = s.idx(20);
    let salt = Salted(s.bytes(n));
    let pre = |x: Vec<u8>| [&salt.0[..], &x[..]].concat();
    ensure_eq!(hash_pair(&a, &b, salt.build_hasher()), keccak_ref(&pre(cat(&a, &b))), "pair", "hash_pair, salted");
    ensure_eq!(commutative_hash_pair(&b, &a, salt.build_hasher()), keccak_ref(&pre(cat(&lo, &hi))), "commutative", "commutative_hash_pair, salted");
    ensure_eq!(salt.hash_one(a), keccak_ref(&pre(a.to_vec())), "hash-one", "hash_one, salted");
    let (x, y) = (Blob(data(s), 7), Blob(data(s), 7));
    let cat2 = |x: &Blob, y: &Blob| [&x.0[..], &y.0[..]].concat();
    ensure_eq!(hash_pair(&x, &y, kb.build_hasher()), keccak_ref(&cat2(&x, &y)), "pair", "hash_pair of byte strings");
    let w = if x.0 <= y.0 { cat2(&x, &y) } else { cat2(&y, &x) };
    ensure_eq!(commutative_hash_pair(&x, &y, kb.build_hasher()), keccak_ref(&w), "commutative", "commutative_hash_pair of byte strings");
    if a > b {
        s.nontrivial = true;
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C33",
    name: "hash helpers",
    parts: &[("Keccak-256", keccaks, 1), ("pairs", pairs, 2)],
    rule: "the data spans several blocks and several updates, or the pair is given in descending order",
    quick_cases: 1_000_000,
    thorough_cases: 20_000_000,
    size: (1, 1),
};
