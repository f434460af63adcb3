//! C20: assets leave an account only with that account's authority.

use alloy_primitives::{Address, U256};
use engine::{ensure, ensure_eq, Check, Prop, Src};
use ozverif::util::*;

use super::world::*;

fn coins(s: &mut Src) -> Check {
    let w = W20::new()?;
    w.start(s);
    let mut old = w.snap()?;
    let max = s.size;
    s.steps(max, |s| {
        let a = w.step(s, &old);
        let new = w.snap()?;
        if !a.ok {
            ensure_eq!(new, old, "trace", "state after a reverted call");
            return Ok(());
        }
        let drop = |t: Address, o: Address| old.bal[&(t, o)].saturating_sub(new.bal[&(t, o)]);
        if a.kind != Kind::Faucet {
            for ((t, o), _) in &old.bal {
                let d = drop(*t, *o);
                if d.is_zero() {
                    continue;
                }
                let right = if *o == a.caller {
                    *t == a.target || old.allow[&(*t, *o, a.target)] >= d
                } else if *o == a.target && *t != a.target {
                    true
                } else {
                    *t == a.target && old.allow[&(*t, *o, a.caller)] >= d
                };
                ensure!(right, "authority", "{} of token {} left {} by a call of {} without enough approval", num(d), short(*t), short(*o), short(a.caller));
                s.tag(if *o == a.caller {
                    if *t == a.target { "own" } else { "pulled" }
                } else if *o == a.target {
                    "released"
                } else {
                    "delegated"
                });
            }
        }
        for ((t, o, p), b) in &old.allow {
            let n = new.allow[&(*t, *o, *p)];
            // What the call must have done to this allowance.
            let used = match &a.kind {
                Kind::Spend(from, v) if *t == a.target && o == from && *p == a.caller => {
                    Some(v.unwrap_or(drop(*t, *o)))
                }
                _ if *t != a.target && *o == a.caller && *p == a.target => Some(drop(*t, *o)),
                _ => None,
            };
            match used {
                Some(v) => {
                    let want = if *b == MAX { *b } else { b.saturating_sub(v) };
                    ensure_eq!(n, want, "allowance", "allowance of {} to {} after {} was moved through it", short(*o), short(*p), num(v));
                }
                None if n != *b => {
                    let own = *t == a.target && *o == a.caller && a.kind == Kind::Approve20(*p);
                    ensure!(own, "allowance", "allowance of {} to {} went from {} to {} by {}'s call", short(*o), short(*p), num(*b), num(n), short(a.caller));
                }
                None => {}
            }
        }
        old = new;
        Ok(())
    })?;
    s.nontrivial = s.has("delegated") && s.has("pulled");
    Ok(())
}

fn nfts(s: &mut Src) -> Check {
    let w = W721::new(s)?;
    w.start(s);
    let mut old = w.snap()?;
    let max = s.size;
    s.steps(max, |s| {
        let a = w.step(s, &old, true);
        let new = w.snap()?;
        if !a.ok {
            ensure_eq!(new, old, "trace", "state after a reverted call");
            return Ok(());
        }
        let may = |t: Address, id: U256, o: Address, p: Address| {
            o == p || old.appr[&(t, id)] == p || old.ops.get(&(t, o, p)) == Some(&true)
        };
        for ((t, id), o) in &old.owner {
            let (t, id, o) = (*t, *id, *o);
            let n = new.owner[&(t, id)];
            if o != Z && n != o && a.kind != Kind::Faucet {
                let right = if o == a.caller {
                    t == a.target || may(t, id, o, a.target)
                } else if o == a.target && t != a.target {
                    true
                } else {
                    t == a.target && may(t, id, o, a.caller)
                };
                ensure!(right, "authority", "token {} of {} left {} by a call of {} without approval", num(id), short(t), short(o), short(a.caller));
                s.tag(if o == a.caller {
                    if t == a.target { "own" } else { "pulled" }
                } else if o == a.target {
                    "released"
                } else {
                    "delegated"
                });
            }
            ensure!(a.kind != Kind::Faucet || o == Z || o == n, "faucet", "issuing tokens took {} from {}", num(id), short(o));
            let (ab, an) = (old.appr[&(t, id)], new.appr[&(t, id)]);
            if o != n {
                ensure_eq!(an, Z, "stale-approval", "approval of {} after it changed hands", num(id));
            } else if ab != an {
                let approved = t == a.target
                    && a.kind == Kind::Approve721(id)
                    && (o == a.caller || old.ops.get(&(t, o, a.caller)) == Some(&true));
                // A transfer to oneself clears the approval.
                let cleared = t == a.target && an == Z && a.kind == Kind::Move && may(t, id, o, a.caller);
                ensure!(approved || cleared, "approval", "approval of {} went from {} to {} by {}'s call", num(id), short(ab), short(an), short(a.caller));
            }
        }
        for ((t, o, p), b) in &old.ops {
            if new.ops[&(*t, *o, *p)] != *b {
                ensure!(
                    *t == a.target && *o == a.caller && a.kind == Kind::Operator(*p),
                    "operator",
                    "operator right of {} over {} changed by {}'s call",
                    short(*p),
                    short(*o),
                    short(a.caller)
                );
            }
        }
        old = new;
        Ok(())
    })?;
    s.nontrivial = s.has("delegated") && (s.has("pulled") || s.has("own"));
    Ok(())
}

fn multis(s: &mut Src) -> Check {
    let w = W1155::new(s);
    w.start(s);
    let mut old = w.snap()?;
    let max = s.size;
    s.steps(max, |s| {
        let a = w.step(s, &old, false);
        let new = w.snap()?;
        if !a.ok {
            ensure_eq!(new, old, "trace", "state after a reverted call");
            return Ok(());
        }
        for ((t, id, o), b) in &old.bal {
            let n = new.bal[&(*t, *id, *o)];
            if n < *b {
                ensure!(
                    a.kind == Kind::Move && *t == a.target && (*o == a.caller || old.ops[&(*t, *o, a.caller)]),
                    "authority",
                    "{} of id {} left {} by a call of {} without approval",
                    num(*b - n),
                    num(*id),
                    short(*o),
                    short(a.caller)
                );
                s.tag(if *o == a.caller { "own" } else { "delegated" });
            }
        }
        for ((t, o, p), b) in &old.ops {
            if new.ops[&(*t, *o, *p)] != *b {
                ensure!(
                    *t == a.target && *o == a.caller && a.kind == Kind::Operator(*p),
                    "operator",
                    "operator right of {} over {} changed by {}'s call",
                    short(*p),
                    short(*o),
                    short(a.caller)
                );
            }
        }
        old = new;
        Ok(())
    })?;
    s.nontrivial = s.has("delegated") && s.has("own");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C20",
    name: "authority",
    parts: &[("erc20", coins, 3), ("erc721", nfts, 3), ("erc1155", multis, 2)],
    rule: "the history moves assets of an account by an approved other account, and assets of the caller itself",
    quick_cases: 24_000,
    thorough_cases: 300_000,
    size: (40, 100),
};
