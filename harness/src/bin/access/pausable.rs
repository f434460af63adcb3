//! C02: pausing.

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::{
    token::erc20::{Erc20, IErc20},
    utils::Pausable,
};
use ozverif::util::*;
use stylus_sdk::prelude::*;

sol! {
    interface IP {
        function paused() external view returns (bool);
        function pause() external;
        function unpause() external;
        function mint(address to, uint256 value) external;
        function transfer(address to, uint256 value) external returns (bool);
        function drain(address from, uint256 value) external;
        function open() external view returns (uint256);
        function closed() external view returns (uint256);
        function balanceOf(address account) external view returns (uint256);
        function totalSupply() external view returns (uint256);
    }
    event Paused(address account);
    event Unpaused(address account);
    event Transfer(address indexed from, address indexed to, uint256 value);
    error EnforcedPause();
    error ExpectedPause();
    error ERC20InsufficientBalance(address sender, uint256 balance, uint256 needed);
    error ERC20InvalidReceiver(address receiver);
}
use IP::*;

#[storage]
pub struct P20 {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    pausable: Pausable,
}
unsafe impl TopLevelStorage for P20 {}

#[public]
#[inherit(Erc20, Pausable)]
impl P20 {
    fn pause(&mut self) -> Result<(), Vec<u8>> {
        Ok(self.pausable.pause()?)
    }
    fn unpause(&mut self) -> Result<(), Vec<u8>> {
        Ok(self.pausable.unpause()?)
    }
    fn mint(&mut self, to: Address, value: U256) -> Result<(), Vec<u8>> {
        self.pausable.when_not_paused()?;
        Ok(self.erc20._mint(to, value)?)
    }
    fn transfer(&mut self, to: Address, value: U256) -> Result<bool, Vec<u8>> {
        self.pausable.when_not_paused().map_err(nested)?;
        Ok(self.erc20.transfer(to, value)?)
    }
    fn drain(&mut self, from: Address, value: U256) -> Result<(), Vec<u8>> {
        self.pausable.when_paused().map_err(nested)?;
        Ok(self.erc20._burn(from, value)?)
    }
    fn open(&self) -> Result<U256, Vec<u8>> {
        self.pausable.when_not_paused()?;
        Ok(u(7))
    }
    fn closed(&self) -> Result<U256, Vec<u8>> {
        self.pausable.when_paused()?;
        Ok(u(9))
    }
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<P20>(c);
    let who = [eoa(1), eoa(2), eoa(3)];
    let mut paused = false;
    let mut bal = [U256::ZERO; 3];
    let mut flips = 0;
    ensure_eq!(view(c, pausedCall {})?._0, false, "initial", "initial paused()");
    let max = s.size;
    s.steps(max, |s| {
        let si = s.idx(3);
        let sender = who[si];
        let caller = if s.chance(1, 8) { s.pick(&[Z, c, Address::from([0xff; 20])]) } else { sender };
        let blocked = |want: bool| -> Vec<Vec<u8>> {
            if want == paused {
                vec![]
            } else if paused {
                vec![err(EnforcedPause {})]
            } else {
                vec![err(ExpectedPause {})]
            }
        };
        match s.weighted(&[4, 4, 4, 4, 3, 2]) {
            0 => {
                let sender = caller;
                s.note(|| format!("{}.pause()", short(sender)));
                let exp = Exp::from(blocked(false), false, vec![]);
                let out = send(sender, c, pauseCall {});
                judge(&out, &exp, "pause")?;
                if exp.is_ok() {
                    judge_logs(&out.logs, &[ev(c, Paused { account: sender })], "pause")?;
                    paused = true;
                    flips += 1;
                }
            }
            1 => {
                let sender = caller;
                s.note(|| format!("{}.unpause()", short(sender)));
                let exp = Exp::from(blocked(true), false, vec![]);
                let out = send(sender, c, unpauseCall {});
                judge(&out, &exp, "unpause")?;
                if exp.is_ok() {
                    judge_logs(&out.logs, &[ev(c, Unpaused { account: sender })], "unpause")?;
                    paused = false;
                    flips += 1;
                }
            }
            2 => {
                let i = s.idx(3);
                let v = u(s.below(1000));
                s.note(|| format!("mint({}, {v})", short(who[i])));
                let exp = Exp::from(blocked(false), false, vec![]);
                let out = send(sender, c, mintCall { to: who[i], value: v });
                judge(&out, &exp, "guarded mint")?;
                if exp.is_ok() {
                    bal[i] += v;
                    judge_logs(
                        &out.logs,
                        &[ev(c, Transfer { from: Z, to: who[i], value: v })],
                        "mint",
                    )?;
                    s.tag("ran");
                } else {
                    s.tag("blocked");
                }
            }
            3 => {
                let i = s.idx(3);
                let v = amount(s, &[bal[si]]);
                s.note(|| format!("{}.transfer({}, {})", short(sender), short(who[i]), num(v)));
                let mut e = blocked(false);
                if e.is_empty() && bal[si] < v {
                    e.push(err(ERC20InsufficientBalance {
                        sender,
                        balance: bal[si],
                        needed: v,
                    }));
                }
                let was_blocked = paused;
                let exp = Exp::from(e, false, ret_bool(true));
                let out = send(sender, c, transferCall { to: who[i], value: v });
                judge(&out, &exp, "guarded transfer")?;
                if exp.is_ok() {
                    bal[si] -= v;
                    bal[i] += v;
                    s.tag("ran");
                } else if was_blocked {
                    s.tag("blocked");
                }
            }
            4 => {
                let i = s.idx(3);
                let v = amount(s, &[bal[i]]);
                s.note(|| format!("drain({}, {})", short(who[i]), num(v)));
                let mut e = blocked(true);
                if e.is_empty() && bal[i] < v {
                    e.push(err(ERC20InsufficientBalance {
                        sender: who[i],
                        balance: bal[i],
                        needed: v,
                    }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, drainCall { from: who[i], value: v });
                judge(&out, &exp, "operation guarded by when-paused")?;
                if exp.is_ok() {
                    bal[i] -= v;
                    s.tag("ran-paused");
                } else if !paused {
                    s.tag("blocked-unpaused");
                }
            }
            _ => {}
        }
        ensure_eq!(view(c, pausedCall {})?._0, paused, "state", "paused()");
        let open = view_raw(sender, c, openCall {});
        let closed = view_raw(sender, c, closedCall {});
        ensure!(
            open == if paused { Err(err(EnforcedPause {})) } else { Ok(ret_u256(u(7))) },
            "guard",
            "view guarded by when-not-paused answered {open:?} with paused = {paused}"
        );
        ensure!(
            closed == if paused { Ok(ret_u256(u(9))) } else { Err(err(ExpectedPause {})) },
            "guard",
            "view guarded by when-paused answered {closed:?} with paused = {paused}"
        );
        for i in 0..3 {
            ensure_eq!(
                view(c, balanceOfCall { account: who[i] })?._0,
                bal[i],
                "balance",
                "balance of {}",
                short(who[i])
            );
        }
        ensure_eq!(
            view(c, totalSupplyCall {})?._0,
            bal[0] + bal[1] + bal[2],
            "supply",
            "supply"
        );
        Ok(())
    })?;
    s.nontrivial = flips >= 2 && s.has("blocked") && s.has("ran");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C02",
    name: "Pausable",
    parts: &[("guarded-token", run, 1)],
    rule: "the history paused and unpaused at least once each and a guarded call was both run and blocked",
    quick_cases: 300_000,
    thorough_cases: 2_000_000,
    size: (40, 120),
};
