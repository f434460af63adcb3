//! C31, C32: Merkle proofs and multi-proofs.
use engine::{ensure_eq, quietly, Check, Prop, Src};
use openzeppelin_crypto::{
    merkle::{MultiProofError, Verifier},
    KeccakBuilder,
};

use crate::hashes::{keccak, weak, Salted, Weak, B32};

/// Which hash is in use.
#[derive(Clone)]
enum H {
    Plain,
    Builder,
    Salted(Vec<u8>),
    Weak,
}
impl H {
    fn draw(s: &mut Src) -> H {
        match s.weighted(&[4, 1, 2, 2]) {
            0 => H::Plain,
            1 => H::Builder,
            2 => {
                let n = s.idx(40) + 1;
                H::Salted(s.bytes(n))
            }
            _ => H::Weak,
        }
    }
    fn pair(&self, a: &B32, b: &B32) -> B32 {
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        let mut v = match self {
            H::Salted(p) => p.clone(),
            _ => vec![],
        };
        v.extend_from_slice(x);
        v.extend_from_slice(y);
        match self {
            H::Weak => weak(&v),
            _ => keccak(&v),
        }
    }
    fn verify(&self, proof: &[B32], root: B32, leaf: B32) -> Result<bool, String> {
        quietly(|| match self {
            H::Plain => Verifier::verify(proof, root, leaf),
            H::Builder => Verifier::verify_with_builder(proof, root, leaf, &KeccakBuilder),
            H::Salted(p) => Verifier::verify_with_builder(proof, root, leaf, &Salted(p.clone())),
            H::Weak => Verifier::verify_with_builder(proof, root, leaf, &Weak),
        })
    }
    fn multi(&self, proof: &[B32], flags: &[bool], root: B32, leaves: &[B32]) -> Result<Result<bool, MultiProofError>, String> {
        quietly(|| match self {
            H::Plain => Verifier::verify_multi_proof(proof, flags, root, leaves),
            H::Builder => Verifier::verify_multi_proof_with_builder(proof, flags, root, leaves, &KeccakBuilder),
            H::Salted(p) => Verifier::verify_multi_proof_with_builder(proof, flags, root, leaves, &Salted(p.clone())),
            H::Weak => Verifier::verify_multi_proof_with_builder(proof, flags, root, leaves, &Weak),
        })
    }
    fn fold(&self, leaf: B32, proof: &[B32]) -> B32 {
        proof.iter().fold(leaf, |a, b| self.pair(&a, b))
    }
}

fn value(s: &mut Src, near: Option<B32>) -> B32 {
    match s.weighted(&[4, 2, 1, 2]) {
        0 => {
            let b = s.bytes(32);
            b.try_into().unwrap()
        }
        1 => {
            // Close to another value: differs in one byte only.
            let mut v = near.unwrap_or([0x55; 32]);
            let i = s.idx(32);
            v[i] = v[i].wrapping_add(s.range(1, 255) as u8);
            v
        }
        2 => [s.pick(&[0u8, 0xff, 1, 0x80]); 32],
        _ => {
            let mut v = [0u8; 32];
            v[31] = s.below(4) as u8;
            v
        }
    }
}

/// A complete binary tree stored as a heap (node i has children 2i+1, 2i+2).
struct Tree {
    n: usize,
    nodes: Vec<B32>,
}
impl Tree {
    fn draw(s: &mut Src, h: &H) -> Tree {
        let n = match s.below(4) {
            0 => s.idx(3) + 1,
            1 if s.chance(1, 40) => 1 << s.idx(10),
            1 => 1 << s.idx(6),
            _ => s.idx(24) + 1,
        };
        let mut nodes = vec![[0u8; 32]; 2 * n - 1];
        let mut last = None;
        for i in (n - 1..2 * n - 1).rev() {
            nodes[i] = value(s, last);
            last = Some(nodes[i]);
        }
        for i in (0..n - 1).rev() {
            nodes[i] = h.pair(&nodes[2 * i + 1], &nodes[2 * i + 2]);
        }
        Tree { n, nodes }
    }
    fn root(&self) -> B32 {
        self.nodes[0]
    }
    fn proof(&self, mut i: usize) -> Vec<B32> {
        let mut p = vec![];
        while i > 0 {
            p.push(self.nodes[if i % 2 == 1 { i + 1 } else { i - 1 }]);
            i = (i - 1) / 2;
        }
        p
    }
    /// The published multi-proof construction: (leaves, proof, flags) for the
    /// given node indices, highest index first.
    fn multi(&self, idx: &[usize]) -> (Vec<B32>, Vec<B32>, Vec<bool>) {
        let mut q: std::collections::VecDeque<usize> = idx.iter().copied().collect();
        let leaves = idx.iter().map(|i| self.nodes[*i]).collect();
        let (mut proof, mut flags) = (vec![], vec![]);
        if q.is_empty() {
            return (leaves, vec![self.root()], flags);
        }
        while q[0] > 0 {
            let j = q.pop_front().unwrap();
            let sib = if j % 2 == 1 { j + 1 } else { j - 1 };
            if q.front() == Some(&sib) {
                flags.push(true);
                q.pop_front();
            } else {
                flags.push(false);
                proof.push(self.nodes[sib]);
            }
            q.push_back((j - 1) / 2);
        }
        (leaves, proof, flags)
    }
}

fn hx(b: &B32) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn single(s: &mut Src) -> Check {
    let h = H::draw(s);
    let t = Tree::draw(s, &h);
    let i = t.n - 1 + s.idx(t.n);
    let (leaf, root, proof) = (t.nodes[i], t.root(), t.proof(i));
    s.note(|| format!("{} leaves, proof of length {} for {}", t.n, proof.len(), hx(&leaf)));
    ensure_eq!(h.verify(&proof, root, leaf), Ok(true), "genuine", "genuine proof of length {} for {}", proof.len(), hx(&leaf));
    if !proof.is_empty() {
        s.nontrivial = true;
    }
    // Alterations, decided by folding.
    for _ in 0..6 {
        let (mut p, mut r, mut l) = (proof.clone(), root, leaf);
        for _ in 0..s.idx(2) + 1 {
            match s.below(9) {
                0 if !p.is_empty() => {
                    let k = s.idx(p.len());
                    p[k] = value(s, Some(p[k]));
                }
                1 if !p.is_empty() => {
                    let k = s.idx(p.len());
                    p.remove(k);
                }
                2 => {
                    let k = s.idx(p.len() + 1);
                    let v = match s.below(3) {
                        0 => value(s, None),
                        1 => t.nodes[s.idx(t.nodes.len())],
                        _ => [0; 32],
                    };
                    p.insert(k, v);
                }
                3 if p.len() > 1 => {
                    let (a, b) = (s.idx(p.len()), s.idx(p.len()));
                    p.swap(a, b);
                }
                4 => l = value(s, Some(l)),
                5 => r = value(s, Some(r)),
                6 => l = t.nodes[s.idx(t.nodes.len())],
                7 => r = t.nodes[s.idx(t.nodes.len())],
                8 => {
                    // The proof of an internal node.
                    let j = s.idx(t.nodes.len());
                    p = t.proof(j);
                    l = t.nodes[j];
                }
                _ => {}
            }
        }
        let want = h.fold(l, &p) == r;
        if !want {
            s.tag("altered proof that must be rejected");
        } else {
            s.tag("altered proof that must be accepted");
        }
        s.note(|| format!("verify proof={:?} root={} leaf={}", p.iter().map(hx).collect::<Vec<_>>(), hx(&r), hx(&l)));
        ensure_eq!(h.verify(&p, r, l), Ok(want), "altered", "proof={:?} root={} leaf={}", p.iter().map(hx).collect::<Vec<_>>(), hx(&r), hx(&l));
    }
    // Random proofs against the folded root: accepted; against another: not.
    let n = if s.chance(1, 50) { s.idx(600) } else { s.idx(40) };
    let p: Vec<B32> = (0..n).map(|_| value(s, None)).collect();
    let l = value(s, None);
    let r = h.fold(l, &p);
    ensure_eq!(h.verify(&p, r, l), Ok(true), "random", "random proof of length {n}");
    let bad = value(s, Some(r));
    ensure_eq!(h.verify(&p, bad, l), Ok(bad == r), "random", "random proof of length {n} with a wrong root");
    Ok(())
}

/// The reconstruction, with explicit queues.
fn model(h: &H, proof: &[B32], flags: &[bool], root: &B32, leaves: &[B32]) -> Result<bool, MultiProofError> {
    if leaves.len() + proof.len() != flags.len() + 1 {
        return Err(MultiProofError::InvalidTotalHashes);
    }
    if flags.is_empty() {
        return Ok(leaves.first().or(proof.first()) == Some(root));
    }
    if leaves.is_empty() {
        return Err(MultiProofError::NoLeaves);
    }
    let mut q: std::collections::VecDeque<B32> = leaves.iter().copied().collect();
    let mut p: std::collections::VecDeque<B32> = proof.iter().copied().collect();
    for f in flags {
        let Some(a) = q.pop_front() else { return Err(MultiProofError::InvalidRootChild) };
        let b = if *f {
            q.pop_front().ok_or(MultiProofError::InvalidRootChild)?
        } else {
            p.pop_front().ok_or(MultiProofError::InvalidProofLength)?
        };
        q.push_back(h.pair(&a, &b));
    }
    // Everything is consumed: the queue holds the root alone.
    assert!(q.len() == 1 && p.is_empty(), "harness: the model leaves elements over");
    Ok(q[0] == *root)
}

fn multi(s: &mut Src) -> Check {
    let h = H::draw(s);
    let t = Tree::draw(s, &h);
    let root = t.root();
    // A subset of the leaves (highest index first).
    let mode = s.below(4);
    let idx: Vec<usize> = (t.n - 1..2 * t.n - 1)
        .rev()
        .filter(|_| match mode {
            0 => s.chance(1, 4),
            1 => true,
            2 => s.chance(3, 4),
            _ => s.bool(),
        })
        .collect();
    let (leaves, proof, flags) = t.multi(&idx);
    s.note(|| format!("{} leaves, subset {idx:?}, proof {}, flags {flags:?}", t.n, proof.len()));
    let got = h.multi(&proof, &flags, root, &leaves);
    ensure_eq!(got, Ok(Ok(true)), "genuine", "genuine multi-proof of {idx:?} in a tree of {} leaves", t.n);
    if flags.len() > 1 && flags.contains(&true) && flags.contains(&false) {
        s.nontrivial = true;
    }
    for _ in 0..6 {
        let (mut l, mut p, mut f, mut r) = (leaves.clone(), proof.clone(), flags.clone(), root);
        let node = |s: &mut Src| -> B32 {
            match s.below(3) {
                0 => t.nodes[s.idx(t.nodes.len())],
                1 => value(s, None),
                _ => t.root(),
            }
        };
        for _ in 0..s.idx(3) + 1 {
            match s.below(12) {
                0 if !l.is_empty() => {
                    let k = s.idx(l.len());
                    l[k] = node(s);
                }
                1 if !p.is_empty() => {
                    let k = s.idx(p.len());
                    p[k] = node(s);
                }
                2 if !f.is_empty() => {
                    let k = s.idx(f.len());
                    f[k] = !f[k];
                }
                3 => r = node(s),
                4 if !l.is_empty() => {
                    // Move a leaf to the proof (and back): lengths still fit.
                    let k = s.idx(l.len());
                    let v = l.remove(k);
                    let k = s.idx(p.len() + 1);
                    p.insert(k, v);
                }
                5 if !p.is_empty() => {
                    let k = s.idx(p.len());
                    let v = p.remove(k);
                    let k = s.idx(l.len() + 1);
                    l.insert(k, v);
                }
                6 => {
                    // One more hash: an element and a flag.
                    let v = node(s);
                    if s.bool() {
                        let k = s.idx(p.len() + 1);
                        p.insert(k, v);
                    } else {
                        let k = s.idx(l.len() + 1);
                        l.insert(k, v);
                    }
                    let k = s.idx(f.len() + 1);
                    let b = s.bool();
                    f.insert(k, b);
                }
                7 if !f.is_empty() => {
                    let k = s.idx(f.len());
                    f.remove(k);
                    if s.bool() && !p.is_empty() {
                        let k = s.idx(p.len());
                        p.remove(k);
                    } else if !l.is_empty() {
                        let k = s.idx(l.len());
                        l.remove(k);
                    }
                }
                8 => {
                    let b = s.bool();
                    f.push(b);
                }
                9 => {
                    let v = node(s);
                    if s.bool() {
                        p.push(v);
                    } else {
                        l.push(v);
                    }
                }
                10 if l.len() > 1 => {
                    let (a, b) = (s.idx(l.len()), s.idx(l.len()));
                    l.swap(a, b);
                }
                11 if p.len() > 1 => {
                    let (a, b) = (s.idx(p.len()), s.idx(p.len()));
                    p.swap(a, b);
                }
                _ => {}
            }
        }
        decide(s, &h, &p, &f, r, &l)?;
    }
    // A multi-proof whose "leaves" are internal nodes is genuine too.
    let mut set: Vec<usize> = (0..s.idx(3) + 1).map(|_| s.idx(t.nodes.len())).collect();
    set.sort_unstable_by(|a, b| b.cmp(a));
    set.dedup();
    let related = set.iter().any(|a| {
        let mut x = *a;
        while x > 0 {
            x = (x - 1) / 2;
            if set.contains(&x) {
                return true;
            }
        }
        false
    });
    if !related {
        let (l, p, f) = t.multi(&set);
        decide(s, &h, &p, &f, root, &l)?;
    }
    Ok(())
}

fn decide(s: &mut Src, h: &H, p: &[B32], f: &[bool], r: B32, l: &[B32]) -> Check {
    let want = model(h, p, f, &r, l);
    match &want {
        Ok(true) => s.tag("altered but still genuine"),
        Ok(false) => s.tag("wrong root"),
        Err(MultiProofError::InvalidTotalHashes) => s.tag("inconsistent lengths"),
        Err(MultiProofError::NoLeaves) => s.tag("no leaves"),
        Err(MultiProofError::InvalidRootChild) => s.tag("queue exhausted"),
        Err(MultiProofError::InvalidProofLength) => s.tag("proof exhausted"),
    }
    let show = |v: &[B32]| v.iter().map(|x| hx(x)[..8].to_string()).collect::<Vec<_>>().join(",");
    s.note(|| format!("proof=[{}] flags={f:?} leaves=[{}] root={}", show(p), show(l), &hx(&r)[..8]));
    let got = h.multi(p, f, r, l);
    ensure_eq!(got, Ok(want), "altered", "proof=[{}] flags={f:?} leaves=[{}] root={}", show(p), show(l), &hx(&r)[..8]);
    Ok(())
}

/// Arbitrary lists, not derived from a tree.
fn arbitrary(s: &mut Src) -> Check {
    let h = H::draw(s);
    let nf = s.idx(9);
    let mut f: Vec<bool> = vec![];
    for _ in 0..nf {
        f.push(s.bool());
    }
    let total = if s.chance(1, 8) { s.idx(12) } else { nf + 1 };
    let nl = s.idx(total + 1);
    let l: Vec<B32> = (0..nl).map(|_| value(s, None)).collect();
    let p: Vec<B32> = (0..total - nl).map(|_| value(s, None)).collect();
    // Take the root the reconstruction reaches, as far as it goes.
    let mut q: Vec<B32> = l.clone();
    let (mut i, mut j) = (0, 0);
    for b in &f {
        let Some(x) = q.get(i).copied() else { break };
        i += 1;
        let y = if *b {
            let Some(y) = q.get(i).copied() else { break };
            i += 1;
            y
        } else {
            let Some(y) = p.get(j).copied() else { break };
            j += 1;
            y
        };
        q.push(h.pair(&x, &y));
    }
    let r = match s.below(4) {
        0 => value(s, None),
        1 if !q.is_empty() => q[s.idx(q.len())],
        2 if !p.is_empty() => p[s.idx(p.len())],
        _ => q.last().copied().unwrap_or([0; 32]),
    };
    if f.len() > 1 {
        s.nontrivial = true;
    }
    decide(s, &h, &p, &f, r, &l)
}

pub const PROP_SINGLE: Prop = Prop {
    id: "C31",
    name: "Merkle proofs",
    parts: &[("proofs", single, 1)],
    rule: "the tree has at least two leaves (the genuine proof is not empty); each case also decides six altered proofs",
    quick_cases: 1_500_000,
    thorough_cases: 20_000_000,
    size: (1, 1),
};
pub const PROP_MULTI: Prop = Prop {
    id: "C32",
    name: "Merkle multi-proofs",
    parts: &[("trees", multi, 3), ("arbitrary lists", arbitrary, 4)],
    rule: "the multi-proof has at least two hashes (of both kinds when it comes from a tree); each tree case also decides six altered proofs",
    quick_cases: 4_500_000,
    thorough_cases: 60_000_000,
    size: (1, 1),
};
