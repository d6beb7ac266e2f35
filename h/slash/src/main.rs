//! S*: slashing of vesting accounts (pallets/on-slash-vesting), against an independent per-schedule model.
use frame_support::{
    derive_impl, parameter_types,
    traits::{
        fungible::{BalancedHold, InspectHold, MutateHold},
        tokens::Precision,
        VariantCount, WithdrawReasons,
    },
};
use on_slash_vesting::OnSlash;
use pallet_vesting::{Vesting as VestingOf, VestingInfo};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use pbt::{check, check_eq, fnv, Fail, Prop, Rec, Src};
use sp_runtime::{
    traits::{BlockNumberProvider, ConvertInto, Dispatchable, IdentityLookup},
    BuildStorage,
};
use std::{cell::RefCell, collections::BTreeMap};

type R = Result<(), Fail>;
type Bal = u128;
type Acc = u64;
type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system,
        Balances: pallet_balances,
        Vesting: pallet_vesting,
    }
);

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, scale_info::TypeInfo, Ord, PartialOrd)]
pub enum Reason {
    A,
    B,
}
impl VariantCount for Reason {
    const VARIANT_COUNT: u32 = 2;
}

parameter_types! {
    pub static MinVested: Bal = 1;
    pub static Ed: Bal = 1;
    pub static Clock: u64 = 1;
    pub Unvested: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}

/// the vesting clock, deliberately not the system block number
pub struct Relay;
impl BlockNumberProvider for Relay {
    type BlockNumber = u64;
    fn current_block_number() -> u64 {
        Clock::get()
    }
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Bal>;
    type AccountId = Acc;
    type Block = Block;
    type Lookup = IdentityLookup<Acc>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Bal;
    type ExistentialDeposit = Ed;
    type RuntimeHoldReason = Reason;
}
impl pallet_vesting::Config for Test {
    type BlockNumberProvider = Relay;
    type BlockNumberToBalance = ConvertInto;
    type Currency = Balances;
    type MinVestedTransfer = MinVested;
    type RuntimeEvent = RuntimeEvent;
    type UnvestedFundsAllowedWithdrawReasons = Unvested;
    type WeightInfo = ();
    const MAX_VESTING_SCHEDULES: u32 = 6;
}

const ACCS: [Acc; 4] = [1, 2, 3, 4];

/// a schedule as plain numbers
#[derive(Clone, Copy, Debug, PartialEq)]
struct Sch {
    locked: Bal,
    per: Bal,
    start: u64,
}
impl Sch {
    fn at(&self, t: u64) -> Bal {
        let n = t.saturating_sub(self.start) as u128;
        match n.checked_mul(self.per.max(1)) {
            Some(x) => self.locked.saturating_sub(x),
            None => 0,
        }
    }
    /// first block at which nothing is locked
    fn end(&self) -> u128 {
        let per = self.per.max(1);
        let d = self.locked / per + (self.locked % per != 0) as u128;
        self.start as u128 + d.max(1)
    }
}
fn schedules(a: Acc) -> Vec<Sch> {
    // fields read through the codec: locked, per block, start
    VestingOf::<Test>::get(a)
        .map(|v| v.iter().map(|s| <(Bal, Bal, u64)>::decode(&mut &s.encode()[..]).unwrap()).map(|(locked, per, start)| Sch { locked, per, start }).collect())
        .unwrap_or_default()
}
fn lock_of(a: Acc) -> Bal {
    pallet_balances::Locks::<Test>::get(a).iter().filter(|l| &l.id == b"vesting ").map(|l| l.amount).sum()
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Money {
    free: Bal,
    reserved: Bal,
    frozen: Bal,
    usable: Bal,
    lock: Bal,
}
#[derive(Clone, Debug, PartialEq)]
struct Snap {
    money: BTreeMap<Acc, Money>,
    vest: BTreeMap<Acc, Vec<Sch>>,
    issuance: Bal,
}
fn snap() -> Snap {
    let mut s = Snap { money: BTreeMap::new(), vest: BTreeMap::new(), issuance: Balances::total_issuance() };
    for a in ACCS {
        let d = System::account(a).data;
        s.money.insert(a, Money { free: d.free, reserved: d.reserved, frozen: d.frozen, usable: Balances::usable_balance(a), lock: lock_of(a) });
        s.vest.insert(a, schedules(a));
    }
    s
}

#[derive(Clone, Debug)]
enum Op {
    Transfer { from: Acc, to: Acc, v: Sch },
    Force { from: Acc, to: Acc, v: Sch },
    Vest { a: Acc },
    Merge { a: Acc, i: u32, j: u32 },
    Hold { a: Acc, r: Reason, x: Bal },
    Release { a: Acc, r: Reason, x: Bal },
    /// slash what is held, then tell the vesting pallet - what the funding pallet does at settlement
    Slash { a: Acc, r: Reason, x: Bal },
    /// tell the vesting pallet only
    Notify { a: Acc, x: Bal },
    Pay { from: Acc, to: Acc, x: Bal },
    Advance { n: u64 },
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    Lock,
    Pace,
    Funds,
}

fn gen_op(s: &mut Src, pre: &Snap, scale: u32) -> Op {
    let a = *s.pick(&ACCS);
    let now = Clock::get();
    let m = pre.money[&a].clone();
    let r = *s.pick(&[Reason::A, Reason::B]);
    match s.weighted(&[10, 2, 5, 2, 6, 1, 10, 6, 1, 10]) {
        k @ (0 | 1) => {
            let to = *s.pick(&ACCS);
            let locked = if s.flag() { 1 + s.below(60) as u128 } else { s.magnitude(scale) };
            let per = match s.below(5) {
                0 => 1,
                1 => locked,
                2 => s.magnitude(scale),
                3 => locked / (1 + s.below(20) as u128),
                _ => 1 + s.below(12) as u128,
            };
            let start = match s.below(4) {
                0 => now,
                1 => now + s.below(20),
                2 => now.saturating_sub(s.below(20)),
                _ => s.magnitude(40) as u64,
            };
            let v = Sch { locked, per, start };
            if k == 0 {
                Op::Transfer { from: a, to, v }
            } else {
                Op::Force { from: a, to, v }
            }
        },
        2 => Op::Vest { a },
        3 => Op::Merge { a, i: s.below(4) as u32, j: s.below(4) as u32 },
        4 => Op::Hold { a, r, x: if s.flag() { m.free.saturating_sub(1) } else { s.magnitude(scale).min(m.free) } },
        5 => Op::Release { a, r, x: s.magnitude(scale) },
        k @ (6 | 7) => {
            let at: Vec<Bal> = pre.vest[&a].iter().map(|v| v.at(now)).collect();
            let x = match s.below(7) {
                0 => 0,
                1 if !at.is_empty() => *s.pick(&at),
                2 if !at.is_empty() => s.pick(&at).saturating_sub(1 + s.below(10) as u128),
                3 => s.magnitude(scale + 2),
                4 => m.reserved,
                _ => s.below(50) as u128,
            };
            if k == 6 {
                Op::Slash { a, r, x: x.min(m.reserved) }
            } else {
                Op::Notify { a, x }
            }
        },
        8 => Op::Pay { from: a, to: *s.pick(&ACCS), x: s.magnitude(scale) },
        _ => Op::Advance { n: if s.chance(1, 8) { s.magnitude(36) as u64 } else { s.below(16) } },
    }
}

fn exec(op: &Op) -> Result<(), String> {
    use pallet_vesting::Call as C;
    let info = |v: &Sch| VestingInfo::new(v.locked, v.per, v.start);
    let run = |o: RuntimeOrigin, c: RuntimeCall| c.dispatch(o).map(|_| ()).map_err(|e| format!("{:?}", e.error));
    match op {
        Op::Transfer { from, to, v } => run(RuntimeOrigin::signed(*from), C::vested_transfer { target: *to, schedule: info(v) }.into()),
        Op::Force { from, to, v } => run(RuntimeOrigin::root(), C::force_vested_transfer { source: *from, target: *to, schedule: info(v) }.into()),
        Op::Vest { a } => run(RuntimeOrigin::signed(*a), C::vest {}.into()),
        Op::Merge { a, i, j } => run(RuntimeOrigin::signed(*a), C::merge_schedules { schedule1_index: *i, schedule2_index: *j }.into()),
        Op::Hold { a, r, x } => <Balances as MutateHold<Acc>>::hold(r, a, *x).map_err(|e| format!("{e:?}")),
        Op::Release { a, r, x } =>
            <Balances as MutateHold<Acc>>::release(r, a, *x, Precision::BestEffort).map(|_| ()).map_err(|e| format!("{e:?}")),
        Op::Slash { a, r, x } => {
            let (credit, _) = <Balances as BalancedHold<Acc>>::slash(r, a, *x);
            let got = frame_support::traits::Imbalance::peek(&credit);
            drop(credit);
            <Vesting as OnSlash<Acc, Bal>>::on_slash(a, got);
            Ok(())
        },
        Op::Notify { a, x } => {
            <Vesting as OnSlash<Acc, Bal>>::on_slash(a, *x);
            Ok(())
        },
        Op::Pay { from, to, x } =>
            run(RuntimeOrigin::signed(*from), pallet_balances::Call::transfer_allow_death { dest: *to, value: *x }.into()),
        Op::Advance { n } => {
            Clock::set(Clock::get().saturating_add(*n));
            Ok(())
        },
    }
}

fn history(s: &mut Src, rec: &mut Rec, which: Which) -> R {
    s.plan(3, 40);
    let scale = *s.pick(&[8u32, 5, 20, 60, 100]);
    let ed = *s.pick(&[1u128, 10]);
    MinVested::set(*s.pick(&[1u128, 5]));
    Ed::set(ed);
    Clock::set(1 + s.below(10));
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let bals: Vec<(Acc, Bal)> = ACCS.iter().map(|a| (*a, ed + 500 + s.magnitude(scale + 2))).collect();
    rec.log(|| format!("balances {bals:?}, existential deposit {ed}, block {}", Clock::get()));
    pallet_balances::GenesisConfig::<Test> { balances: bals }.assimilate_storage(&mut t).unwrap();
    let mut ext = sp_io::TestExternalities::new(t);
    ext.execute_with(|| {
        // the system's own block number must play no part
        System::set_block_number(1 + s.below(1000));
        let mut pre = snap();
        while s.more() {
            let op = gen_op(s, &pre, scale);
            rec.op();
            let now = Clock::get();
            let (target, amount) = match &op {
                Op::Slash { a, r, x } => (Some(*a), (*x).min(Balances::balance_on_hold(r, a))),
                Op::Notify { a, x } => (Some(*a), *x),
                _ => (None, 0),
            };
            // accounts keep the existential deposit: reaping is pallet-balances' own business
            let cost = match &op {
                Op::Transfer { from, v, .. } | Op::Force { from, v, .. } => Some((from, v.locked)),
                Op::Pay { from, x, .. } => Some((from, *x)),
                _ => None,
            };
            if let Some((from, x)) = cost {
                if pre.money[from].free < x.saturating_add(ed) {
                    continue;
                }
            }
            let res = exec(&op);
            let post = snap();
            rec.log(|| format!("#{now} {op:?} -> {}", if res.is_ok() { "ok" } else { "refused" }));
            rec.feature(fnv(3, &[std::mem::discriminant(&op) == std::mem::discriminant(&Op::Vest { a: 0 }), res.is_ok()].map(|b| b as u8)));
            let Some(a) = target else {
                pre = post;
                continue;
            };
            let old = pre.vest[&a].clone();
            let new = post.vest[&a].clone();
            let ended = old.iter().any(|v| v.at(now) == 0);
            let future = old.iter().any(|v| v.start > now);
            if !old.is_empty() {
                rec.label("slash of a vesting account");
                if old.len() > 1 {
                    rec.label("several schedules");
                }
                if ended {
                    rec.label("with an ended schedule");
                }
                if future {
                    rec.label("with a schedule in the future");
                }
                if new.is_empty() {
                    rec.label("slash ends all vesting");
                } else {
                    rec.nontrivial();
                    if new.len() < old.len() {
                        rec.label("slash ends one schedule");
                    }
                }
            }
            match which {
                Which::Lock => {
                    let want: Bal = old.iter().map(|v| v.at(now).saturating_sub(amount)).fold(0, |a, b| a.saturating_add(b));
                    if !old.is_empty() {
                        check_eq!(post.money[&a].lock, want, "lock after slash", "vesting lock of {a} after a slash of {amount} at block {now} with {old:?}");
                        let sum: Bal = new.iter().map(|v| v.at(now)).fold(0, |a, b| a.saturating_add(b));
                        check_eq!(sum, want, "schedules after slash", "what the schedules {new:?} lock after a slash of {amount} at block {now} with {old:?}");
                        check_eq!(new.is_empty(), want == 0, "vesting entry", "no vesting entry is left");
                    } else {
                        check_eq!(post.money[&a].lock, pre.money[&a].lock, "lock of a stranger", "vesting lock of an account without vesting");
                        check!(new.is_empty(), "vesting from nowhere", "schedules {new:?}");
                    }
                },
                Which::Pace => {
                    // blocks at which anything can change, and their neighbours
                    let mut ts: Vec<u64> = vec![now, now + 1, now + 2];
                    for v in old.iter().chain(new.iter()) {
                        for e in [v.start as u128, v.end(), (v.start as u128 + v.end()) / 2] {
                            for d in [-1i128, 0, 1] {
                                let t = e as i128 + d;
                                if t >= now as i128 && t <= u64::MAX as i128 {
                                    ts.push(t as u64);
                                }
                            }
                        }
                    }
                    for _ in 0..4 {
                        ts.push(now.saturating_add(s.below(64)));
                    }
                    for t in ts {
                        let have = new.iter().fold(0u128, |x, v| x.saturating_add(v.at(t)));
                        let least = old.iter().fold(0u128, |x, v| x.saturating_add(v.at(t).saturating_sub(amount)));
                        check!(
                            have >= least,
                            "unlocks sooner",
                            "slashed by {amount} at {now}, {a} has {have} locked at block {t}, but {least} should be: {old:?} became {new:?}"
                        );
                        // equal instalments over what was left of the term, rounded down
                        let most = old.iter().fold(0u128, |x, v| {
                            let rest = v.at(now).saturating_sub(amount);
                            let start = now.max(v.start);
                            let term = v.end().saturating_sub(start as u128).max(1);
                            let done = (rest / term).max(1).saturating_mul(t.saturating_sub(start) as u128);
                            x.saturating_add(rest.saturating_sub(done))
                        });
                        check!(
                            have <= most,
                            "unlocks later",
                            "slashed by {amount} at {now}, {a} has {have} locked at block {t}, but only {most} may be: {old:?} became {new:?}"
                        );
                    }
                },
                Which::Funds => {
                    for b in ACCS {
                        let (x, y) = (&pre.money[&b], &post.money[&b]);
                        if b != a {
                            check_eq!(y, x, "bystander", "balances of {b} after {op:?}");
                            check_eq!(post.vest[&b], pre.vest[&b], "bystander", "schedules of {b} after {op:?}");
                            continue;
                        }
                        let taken = if matches!(op, Op::Slash { .. }) { amount } else { 0 };
                        check_eq!((y.free, y.reserved), (x.free, x.reserved - taken), "balances", "free and reserved of {a} after {op:?}");
                        check_eq!(pre.issuance - post.issuance, taken, "issuance", "issuance burnt by {op:?}");
                        check!(y.lock <= x.lock, "lock raised", "the lock of {a} grew from {} to {}", x.lock, y.lock);
                        if matches!(op, Op::Slash { .. }) {
                            check!(
                                y.usable >= x.usable,
                                "free funds frozen by a slash",
                                "{a} could use {} before {op:?}, and {} after it",
                                x.usable,
                                y.usable
                            );
                            if x.usable > 0 && x.lock > x.reserved {
                                rec.label("lock reaches into the free balance");
                            }
                        }
                    }
                },
            }
            pre = post;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- tuples of hooks

thread_local! { static CALLS: RefCell<Vec<(u8, u64, u128)>> = RefCell::new(vec![]); }
struct H<const N: u8>;
impl<const N: u8> OnSlash<u64, u128> for H<N> {
    fn on_slash(a: &u64, x: u128) {
        CALLS.with(|c| c.borrow_mut().push((N, *a, x)));
    }
}
fn tuples(s: &mut Src, rec: &mut Rec) -> R {
    let a = s.u64();
    let x = s.magnitude(128);
    let k = s.below(6);
    let run = |f: fn(&u64, u128)| {
        CALLS.with(|c| c.borrow_mut().clear());
        f(&a, x);
        CALLS.with(|c| c.borrow().clone())
    };
    let (got, want): (Vec<(u8, u64, u128)>, Vec<u8>) = match k {
        0 => (run(<() as OnSlash<u64, u128>>::on_slash), vec![]),
        1 => (run(<(H<1>,) as OnSlash<u64, u128>>::on_slash), vec![1]),
        2 => (run(<(H<1>, H<2>) as OnSlash<u64, u128>>::on_slash), vec![1, 2]),
        3 => (run(<(H<3>, H<2>, H<1>) as OnSlash<u64, u128>>::on_slash), vec![3, 2, 1]),
        4 => (run(<((H<1>, H<2>), H<3>) as OnSlash<u64, u128>>::on_slash), vec![1, 2, 3]),
        _ => (run(<(H<1>, H<2>, H<3>, H<4>, H<5>, H<1>) as OnSlash<u64, u128>>::on_slash), vec![1, 2, 3, 4, 5, 1]),
    };
    let mut got = got;
    let mut want: Vec<_> = want.into_iter().map(|n| (n, a, x)).collect();
    got.sort();
    want.sort();
    rec.log(|| format!("tuple {k}: account {a}, amount {x} -> {got:?}"));
    check_eq!(got, want, "hooks called", "hooks called by the tuple");
    if k > 1 {
        rec.nontrivial();
    }
    Ok(())
}

const ASSUME: &[&str] = &[
    "pallet-vesting and pallet-balances behave as documented",
    "the account's lock covers nothing but its vesting schedules (as pallet-vesting keeps it)",
];

fn main() {
    let p = |id, rule, which| Prop {
        id,
        rule,
        quick: 60_000,
        thorough: 3_000_000,
        case: Box::new(move |s: &mut Src, r: &mut Rec| history(s, r, which)),
        assumptions: ASSUME,
        guided: 40,
    };
    pbt::main(vec![
        p("S01", "random histories of vested transfers, vesting, merging, holds and slashes; non-trivial: a slash leaves part of a vesting lock in place", Which::Lock),
        p("S02", "as S01, comparing the lock at every later block where a schedule can change; non-trivial: a slash leaves part of a vesting lock in place", Which::Pace),
        {
            let mut q = p("S03", "as S01, and one case in ten over tuples of hooks; non-trivial: a slash leaves part of a vesting lock in place, or a tuple of several hooks", Which::Funds);
            q.case = Box::new(|s, r| if s.chance(1, 10) { tuples(s, r) } else { history(s, r, Which::Funds) });
            q
        },
    ]);
}
