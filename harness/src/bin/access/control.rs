//! C19: role-based access control.

use std::collections::{BTreeMap, BTreeSet};

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::sol;
use engine::{ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::access::control::AccessControl;
use ozverif::{host, util::*};
use stylus_sdk::{prelude::*, storage::StorageU256};

sol! {
    interface IA {
        function hasRole(bytes32 role, address account) external view returns (bool);
        function onlyRole(bytes32 role) external view;
        function getRoleAdmin(bytes32 role) external view returns (bytes32);
        function grantRole(bytes32 role, address account) external;
        function revokeRole(bytes32 role, address account) external;
        function renounceRole(bytes32 role, address confirmation) external;
        function setAdmin(bytes32 role, bytes32 admin) external;
        function hGrant(bytes32 role, address account) external returns (bool);
        function hRevoke(bytes32 role, address account) external returns (bool);
        function check(bytes32 role, address account) external view;
        function guarded(bytes32 role, uint256 v) external;
        function value() external view returns (uint256);
    }
    event RoleAdminChanged(bytes32 indexed role, bytes32 indexed previousAdminRole, bytes32 indexed newAdminRole);
    event RoleGranted(bytes32 indexed role, address indexed account, address indexed sender);
    event RoleRevoked(bytes32 indexed role, address indexed account, address indexed sender);
    error AccessControlUnauthorizedAccount(address account, bytes32 neededRole);
    error AccessControlBadConfirmation();
}
use IA::*;

#[storage]
pub struct A {
    #[borrow]
    control: AccessControl,
    value: StorageU256,
}
unsafe impl TopLevelStorage for A {}
#[public]
#[inherit(AccessControl)]
impl A {
    fn set_admin(&mut self, role: B256, admin: B256) {
        self.control._set_role_admin(role, admin);
    }
    fn h_grant(&mut self, role: B256, account: Address) -> bool {
        self.control._grant_role(role, account)
    }
    fn h_revoke(&mut self, role: B256, account: Address) -> bool {
        self.control._revoke_role(role, account)
    }
    fn check(&self, role: B256, account: Address) -> Result<(), Vec<u8>> {
        Ok(self.control._check_role(role, account).map_err(nested)?)
    }
    fn guarded(&mut self, role: B256, v: U256) -> Result<(), Vec<u8>> {
        use openzeppelin_stylus::access::control::IAccessControl;
        self.control.only_role(role)?;
        self.value.set(v);
        Ok(())
    }
    fn value(&self) -> U256 {
        self.value.get()
    }
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<A>(c);
    let who = [eoa(1), eoa(2), eoa(3), c, Z];
    let roles = [
        B256::ZERO,
        host::keccak(b"MINTER"),
        host::keccak(b"PAUSER"),
        B256::from([0xff; 32]),
        B256::with_last_byte(1),
    ];
    let mut members: BTreeSet<(B256, Address)> = BTreeSet::new();
    let mut admin: BTreeMap<B256, B256> = BTreeMap::new();
    let mut value = U256::ZERO;
    if s.chance(4, 5) {
        // As a constructor would: a first holder of the default admin role.
        let a = who[s.idx(3)];
        s.note(|| format!("_grant_role(DEFAULT_ADMIN, {})", short(a)));
        judge(
            &send(eoa(9), c, hGrantCall { role: B256::ZERO, account: a }),
            &Exp::Ok(ret_bool(true)),
            "first admin",
        )?;
        members.insert((B256::ZERO, a));
    }
    let max = s.size;
    s.steps(max, |s| {
        let role = s.pick(&roles);
        let acct = s.pick(&who);
        let adm = admin.get(&role).copied().unwrap_or_default();
        // Mostly callers that hold the admin role.
        let admins: Vec<Address> =
            who[..4].iter().copied().filter(|w| members.contains(&(adm, *w))).collect();
        let sender = if !admins.is_empty() && s.chance(3, 5) {
            s.pick(&admins)
        } else {
            who[s.idx(4)]
        };
        let is_admin = members.contains(&(adm, sender));
        let unauth = err(AccessControlUnauthorizedAccount { account: sender, neededRole: adm });
        match s.weighted(&[5, 4, 3, 2, 4, 1, 3]) {
            op @ (0 | 1) => {
                let grant = op == 0;
                s.note(|| {
                    format!(
                        "{}.{}({}, {})",
                        short(sender),
                        if grant { "grantRole" } else { "revokeRole" },
                        role,
                        short(acct)
                    )
                });
                let exp =
                    Exp::from(if is_admin { vec![] } else { vec![unauth] }, false, vec![]);
                let out = if grant {
                    send(sender, c, grantRoleCall { role, account: acct })
                } else {
                    send(sender, c, revokeRoleCall { role, account: acct })
                };
                judge(&out, &exp, if grant { "grantRole" } else { "revokeRole" })?;
                if exp.is_ok() {
                    let changed = if grant {
                        members.insert((role, acct))
                    } else {
                        members.remove(&(role, acct))
                    };
                    let l = if grant {
                        ev(c, RoleGranted { role, account: acct, sender })
                    } else {
                        ev(c, RoleRevoked { role, account: acct, sender })
                    };
                    judge_logs(
                        &out.logs,
                        &if changed { vec![l] } else { vec![] },
                        "grant/revoke",
                    )?;
                    s.tag(match (grant, changed) {
                        (true, true) => "granted",
                        (true, false) => "granted-again",
                        (false, true) => "revoked",
                        (false, false) => "revoked-again",
                    });
                } else {
                    s.tag("refused");
                }
            }
            2 => {
                let conf = if s.chance(3, 4) { sender } else { acct };
                s.note(|| format!("{}.renounceRole({}, {})", short(sender), role, short(conf)));
                let exp = Exp::from(
                    if conf == sender { vec![] } else { vec![err(AccessControlBadConfirmation {})] },
                    false,
                    vec![],
                );
                let out = send(sender, c, renounceRoleCall { role, confirmation: conf });
                judge(&out, &exp, "renounceRole")?;
                if exp.is_ok() {
                    let had = members.remove(&(role, sender));
                    judge_logs(
                        &out.logs,
                        &if had {
                            vec![ev(c, RoleRevoked { role, account: sender, sender })]
                        } else {
                            vec![]
                        },
                        "renounceRole",
                    )?;
                    if had {
                        s.tag("renounced");
                    }
                }
            }
            3 => {
                let n = s.pick(&roles);
                s.note(|| format!("_set_role_admin({role}, {n})"));
                let out = send(sender, c, setAdminCall { role, admin: n });
                judge(&out, &Exp::Ok(vec![]), "_set_role_admin")?;
                judge_logs(
                    &out.logs,
                    &[ev(c, RoleAdminChanged {
                        role,
                        previousAdminRole: adm,
                        newAdminRole: n,
                    })],
                    "_set_role_admin",
                )?;
                admin.insert(role, n);
                s.tag("admin-changed");
            }
            4 => {
                s.note(|| format!("by {}: _grant_role({role}, {})", short(sender), short(acct)));
                let fresh = members.insert((role, acct));
                let out = send(sender, c, hGrantCall { role, account: acct });
                judge(&out, &Exp::Ok(ret_bool(fresh)), "_grant_role")?;
                judge_logs(
                    &out.logs,
                    &if fresh {
                        vec![ev(c, RoleGranted { role, account: acct, sender })]
                    } else {
                        vec![]
                    },
                    "_grant_role",
                )?;
            }
            5 => {
                s.note(|| format!("by {}: _revoke_role({role}, {})", short(sender), short(acct)));
                let had = members.remove(&(role, acct));
                let out = send(sender, c, hRevokeCall { role, account: acct });
                judge(&out, &Exp::Ok(ret_bool(had)), "_revoke_role")?;
                judge_logs(
                    &out.logs,
                    &if had {
                        vec![ev(c, RoleRevoked { role, account: acct, sender })]
                    } else {
                        vec![]
                    },
                    "_revoke_role",
                )?;
            }
            _ => {
                let v = u(s.below(100));
                s.note(|| format!("{}.guarded({role}, {v})", short(sender)));
                let has = members.contains(&(role, sender));
                let exp = Exp::from(
                    if has {
                        vec![]
                    } else {
                        vec![err(AccessControlUnauthorizedAccount {
                            account: sender,
                            neededRole: role,
                        })]
                    },
                    false,
                    vec![],
                );
                let out = send(sender, c, guardedCall { role, v });
                judge(&out, &exp, "role-guarded operation")?;
                judge_logs(&out.logs, &[], "role-guarded operation")?;
                if has {
                    value = v;
                    s.tag("guard-passed");
                } else {
                    s.tag("guard-refused");
                }
            }
        }
        ensure_eq!(view(c, valueCall {})?._0, value, "value", "guarded value");
        for r in &roles {
            ensure_eq!(
                view(c, getRoleAdminCall { role: *r })?._0,
                admin.get(r).copied().unwrap_or_default(),
                "admin",
                "getRoleAdmin({r})"
            );
            for w in &who {
                let has = members.contains(&(*r, *w));
                ensure_eq!(
                    view(c, hasRoleCall { role: *r, account: *w })?._0,
                    has,
                    "membership",
                    "hasRole({r}, {})",
                    short(*w)
                );
                let want = if has {
                    Ok(vec![])
                } else {
                    Err(err(AccessControlUnauthorizedAccount { account: *w, neededRole: *r }))
                };
                ensure_eq!(
                    view_raw(*w, c, onlyRoleCall { role: *r }),
                    want,
                    "only-role",
                    "onlyRole({r}) by {}",
                    short(*w)
                );
                ensure_eq!(
                    view_raw(eoa(50), c, checkCall { role: *r, account: *w }),
                    want,
                    "check-role",
                    "_check_role({r}, {})",
                    short(*w)
                );
            }
        }
        Ok(())
    })?;
    s.nontrivial = s.has("granted") && s.has("refused") && (s.has("revoked") || s.has("renounced"));
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C19",
    name: "AccessControl",
    parts: &[("histories", run, 1)],
    rule: "a role was granted by an admin, one was revoked or renounced, and a grant or revoke was refused",
    quick_cases: 50_000,
    thorough_cases: 1_000_000,
    size: (40, 120),
};
