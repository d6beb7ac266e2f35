//! L*: linear release of held funds (pallets/linear-release), against an independent model of schedules and holds.
use frame_support::{
    derive_impl, parameter_types,
    storage::with_storage_layer,
    traits::{
        fungible::{BalancedHold, InspectHold, MutateHold},
        tokens::Precision,
        VariantCount, WithdrawReasons,
    },
};
use pallet_linear_release::{VestingInfo, Vesting as VestingOf};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use pbt::{check, check_eq, fail, fnv, Fail, Prop, Rec, Src};
use polimec_common::ReleaseSchedule;
use sp_runtime::{
    traits::{ConvertInto, Dispatchable, IdentityLookup},
    BuildStorage, DispatchError,
};
use std::collections::BTreeMap;

type R = Result<(), Fail>;
type Bal = u128;
type Acc = u64;
type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system,
        Balances: pallet_balances,
        Release: pallet_linear_release,
    }
);

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, scale_info::TypeInfo, Ord, PartialOrd)]
pub enum Reason {
    A,
    B,
}
impl VariantCount for Reason {
    const VARIANT_COUNT: u32 = 2;
}
const REASONS: [Reason; 2] = [Reason::A, Reason::B];
const MAX: usize = 4;

parameter_types! {
    pub static MinVested: Bal = 1;
    pub static Ed: Bal = 1;
    pub Unvested: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Bal>;
    type AccountId = Acc;
    type Block = Block;
    type Lookup = IdentityLookup<Acc>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Bal;
    type ExistentialDeposit = Ed;
    type RuntimeHoldReason = Reason;
}
impl pallet_linear_release::Config for Test {
    type Balance = Bal;
    type BlockNumberToBalance = ConvertInto;
    type Currency = Balances;
    type MinVestedTransfer = MinVested;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeHoldReason = Reason;
    type UnvestedFundsAllowedWithdrawReasons = Unvested;
    type WeightInfo = ();
    const MAX_VESTING_SCHEDULES: u32 = MAX as u32;
}

const ACCS: [Acc; 4] = [1, 2, 3, 4];

/// a schedule as plain numbers
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Sch {
    locked: Bal,
    per: Bal,
    start: u64,
}
impl Sch {
    /// still locked at block t
    fn at(&self, t: u64) -> Bal {
        let n = t.saturating_sub(self.start) as u128;
        self.locked - self.locked.min(n.saturating_mul(self.per.max(1)))
    }
    /// first block at which nothing is locked
    fn end(&self) -> u128 {
        let per = self.per.max(1);
        let d = self.locked / per + (self.locked % per != 0) as u128;
        (self.start as u128).saturating_add(d.max(1))
    }
    fn valid(&self) -> bool {
        self.locked > 0 && self.per > 0
    }
    fn info(&self) -> VestingInfo<Bal, u64> {
        VestingInfo::new(self.locked, self.per, self.start)
    }
}
fn schedules(a: Acc, r: Reason) -> Vec<Sch> {
    VestingOf::<Test>::get(a, r)
        .map(|v| v.iter().map(|s| Sch { locked: s.locked, per: s.per_block, start: s.starting_block }).collect())
        .unwrap_or_default()
}

#[derive(Clone, Debug, PartialEq, Default)]
struct St {
    free: BTreeMap<Acc, Bal>,
    held: BTreeMap<(Acc, Reason), Bal>,
    sch: BTreeMap<(Acc, Reason), Vec<Sch>>,
    issuance: Bal,
}
fn snap() -> St {
    let mut s = St { issuance: Balances::total_issuance(), ..Default::default() };
    for a in ACCS {
        s.free.insert(a, System::account(a).data.free);
        for r in REASONS {
            s.held.insert((a, r), Balances::balance_on_hold(&r, &a));
            s.sch.insert((a, r), schedules(a, r));
        }
    }
    s
}

#[derive(Clone, Debug)]
enum Op {
    Transfer { from: Acc, to: Acc, v: Sch, r: Reason },
    Force { from: Acc, to: Acc, v: Sch, r: Reason, root: bool },
    Vest { a: Acc, r: Reason },
    VestOther { by: Acc, a: Acc, r: Reason },
    VestAll { a: Acc },
    VestAllOther { by: Acc, a: Acc },
    Merge { a: Acc, i: u32, j: u32, r: Reason },
    /// ReleaseSchedule interface, used by the funding pallet
    Add { a: Acc, v: Sch, r: Reason },
    Set { a: Acc, v: Sch, r: Reason },
    TraitVest { a: Acc, r: Reason },
    Remove { a: Acc, i: u32, r: Reason },
    RemoveAll { a: Acc, r: Reason },
    /// what other pallets do
    Hold { a: Acc, r: Reason, x: Bal },
    Release { a: Acc, r: Reason, x: Bal },
    Slash { a: Acc, r: Reason, x: Bal },
    Pay { from: Acc, to: Acc, x: Bal },
    Advance { n: u64 },
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    Release,
    Merge,
    Transfer,
    Trait,
}

fn gen_sch(s: &mut Src, scale: u32, now: u64) -> Sch {
    let locked = if s.flag() { s.below(60) as u128 } else { s.magnitude(scale) };
    let per = match s.below(8) {
        0 => 1,
        1 => locked,
        2 => s.magnitude(scale),
        3 | 4 => locked / (1 + s.below(20) as u128),
        5 => s.magnitude(128),
        _ => s.below(12) as u128,
    };
    let start = match s.below(5) {
        0 => now,
        1 => now + s.below(20),
        2 => now.saturating_sub(s.below(20)),
        3 => now + s.magnitude(20) as u64,
        _ => s.magnitude(30) as u64,
    };
    Sch { locked, per, start }
}

fn gen_op(s: &mut Src, pre: &St, scale: u32, which: Which) -> Op {
    let now = System::block_number();
    let a = *s.pick(&ACCS[..3]);
    let b = *s.pick(&ACCS);
    let r = *s.pick(&REASONS);
    let w: &[u64] = match which {
        //                   T  F  V  VO VA VAO M  Ad Se TV Rm RA H  R  S  P  Adv
        Which::Release => &[7, 1, 5, 3, 2, 2, 2, 4, 2, 3, 1, 1, 5, 1, 1, 2, 10],
        Which::Merge => &[10, 1, 2, 1, 1, 1, 14, 5, 1, 1, 1, 0, 5, 1, 1, 1, 9],
        Which::Transfer => &[16, 8, 2, 1, 1, 1, 1, 2, 1, 1, 1, 1, 3, 1, 1, 3, 6],
        Which::Trait => &[3, 0, 1, 1, 1, 1, 1, 10, 8, 5, 7, 4, 6, 1, 2, 1, 8],
    };
    match s.weighted(w) {
        0 => Op::Transfer { from: a, to: b, v: gen_sch(s, scale, now), r },
        1 => Op::Force { from: a, to: b, v: gen_sch(s, scale, now), r, root: s.chance(4, 5) },
        2 => Op::Vest { a, r },
        3 => Op::VestOther { by: b, a, r },
        4 => Op::VestAll { a },
        5 => Op::VestAllOther { by: b, a },
        6 => {
            let n = pre.sch[&(a, r)].len() as u64;
            if s.chance(1, 8) {
                Op::Merge { a, i: s.below(6) as u32, j: s.below(6) as u32, r }
            } else {
                Op::Merge { a, i: s.below(n.max(1)) as u32, j: s.below(n.max(1)) as u32, r }
            }
        },
        7 => Op::Add { a, v: gen_sch(s, scale, now), r },
        8 => Op::Set { a, v: gen_sch(s, scale, now), r },
        9 => Op::TraitVest { a, r },
        10 => Op::Remove { a, i: s.below(5) as u32, r },
        11 => Op::RemoveAll { a, r },
        12 => Op::Hold { a, r, x: if s.flag() { s.below(60) as u128 } else { s.magnitude(scale) } },
        13 => Op::Release { a, r, x: s.magnitude(scale) },
        14 => Op::Slash { a, r, x: s.magnitude(scale) },
        15 => Op::Pay { from: a, to: b, x: s.magnitude(scale) },
        _ => Op::Advance { n: if s.chance(1, 8) { s.magnitude(32) as u64 } else { s.below(14) } },
    }
}

fn exec(op: &Op) -> Result<Bal, String> {
    use pallet_linear_release::Call as C;
    let run = |o: RuntimeOrigin, c: RuntimeCall| c.dispatch(o).map(|_| 0).map_err(|e| format!("{:?}", e.error));
    let lay = |f: &dyn Fn() -> Result<Bal, DispatchError>| with_storage_layer(f).map_err(|e| format!("{e:?}"));
    let sg = RuntimeOrigin::signed;
    match op.clone() {
        Op::Transfer { from, to, v, r } => run(sg(from), C::vested_transfer { target: to, schedule: v.info(), reason: r }.into()),
        Op::Force { from, to, v, r, root } => {
            let o = if root { RuntimeOrigin::root() } else { sg(from) };
            run(o, C::force_vested_transfer { source: from, target: to, schedule: v.info(), reason: r }.into())
        },
        Op::Vest { a, r } => run(sg(a), C::vest { reason: r }.into()),
        Op::VestOther { by, a, r } => run(sg(by), C::vest_other { target: a, reason: r }.into()),
        Op::VestAll { a } => run(sg(a), C::vest_all {}.into()),
        Op::VestAllOther { by, a } => run(sg(by), C::vest_all_other { target: a }.into()),
        Op::Merge { a, i, j, r } => run(sg(a), C::merge_schedules { schedule1_index: i, schedule2_index: j, reason: r }.into()),
        Op::Add { a, v, r } => lay(&|| <Release as ReleaseSchedule<Acc, Reason>>::add_release_schedule(&a, v.locked, v.per, v.start, r).map(|_| 0)),
        Op::Set { a, v, r } => lay(&|| <Release as ReleaseSchedule<Acc, Reason>>::set_release_schedule(&a, v.locked, v.per, v.start, r).map(|_| 0)),
        Op::TraitVest { a, r } => lay(&|| <Release as ReleaseSchedule<Acc, Reason>>::vest(a, r)),
        Op::Remove { a, i, r } => lay(&|| <Release as ReleaseSchedule<Acc, Reason>>::remove_vesting_schedule(&a, i, r).map(|_| 0)),
        Op::RemoveAll { a, r } => lay(&|| <Release as ReleaseSchedule<Acc, Reason>>::remove_all_vesting_schedules(&a, r).map(|_| 0)),
        Op::Hold { a, r, x } => lay(&|| <Balances as MutateHold<Acc>>::hold(&r, &a, x).map(|_| 0)),
        Op::Release { a, r, x } => lay(&|| <Balances as MutateHold<Acc>>::release(&r, &a, x, Precision::BestEffort)),
        Op::Slash { a, r, x } => {
            let (credit, _) = <Balances as BalancedHold<Acc>>::slash(&r, &a, x);
            drop(credit);
            Ok(0)
        },
        Op::Pay { from, to, x } => run(sg(from), pallet_balances::Call::transfer_keep_alive { dest: to, value: x }.into()),
        Op::Advance { n } => {
            System::set_block_number(System::block_number().saturating_add(n));
            Ok(0)
        },
    }
}

/// drop the schedules that ended, then bring the hold down to what is still locked
fn settle(m: &mut St, a: Acc, r: Reason, now: u64) -> Bal {
    let v = m.sch.get_mut(&(a, r)).unwrap();
    v.retain(|s| s.at(now) > 0);
    let locked = v.iter().fold(0u128, |x, s| x.saturating_add(s.at(now)));
    let held = m.held.get_mut(&(a, r)).unwrap();
    let out = held.saturating_sub(locked);
    *held -= out;
    *m.free.get_mut(&a).unwrap() += out;
    out
}

/// what the documentation says a merge of two schedules gives
fn merged(now: u64, x: Sch, y: Sch) -> Option<Sch> {
    match (x.end() <= now as u128, y.end() <= now as u128) {
        (true, true) => None,
        (true, false) => Some(y),
        (false, true) => Some(x),
        _ => {
            let locked = x.at(now).saturating_add(y.at(now));
            let start = now.max(x.start).max(y.start);
            let end = x.end().max(y.end());
            let term = end.saturating_sub(start as u128).max(1);
            Some(Sch { locked, per: (locked / term).max(1), start })
        },
    }
}

enum Want {
    /// must succeed, with this returned amount (0 for calls)
    Ok(Bal),
    Refused,
    /// depends on balances rules of pallet-balances: success and refusal are both possible
    Either,
}

/// apply the operation to the model, assuming it succeeds; says whether it has to
fn model(op: &Op, m: &mut St, now: u64) -> Want {
    match op.clone() {
        Op::Transfer { from, to, v, r } | Op::Force { from, to, v, r, .. } => {
            if let Op::Force { root: false, .. } = op {
                return Want::Refused;
            }
            if v.locked < MinVested::get() || !v.valid() || m.sch[&(to, r)].len() >= MAX {
                return Want::Refused;
            }
            if m.free[&from] < v.locked {
                return Want::Refused;
            }
            let sure = m.free[&from] - v.locked >= Ed::get() && m.free[&to] >= Ed::get();
            *m.free.get_mut(&from).unwrap() -= v.locked;
            *m.held.get_mut(&(to, r)).unwrap() += v.locked;
            m.sch.get_mut(&(to, r)).unwrap().push(v);
            settle(m, to, r, now);
            if sure {
                Want::Ok(0)
            } else {
                Want::Either
            }
        },
        Op::Vest { a, r } | Op::VestOther { a, r, .. } => {
            if m.sch[&(a, r)].is_empty() {
                return Want::Refused;
            }
            settle(m, a, r, now);
            Want::Ok(0)
        },
        Op::TraitVest { a, r } => {
            if m.sch[&(a, r)].is_empty() {
                return Want::Refused;
            }
            Want::Ok(settle(m, a, r, now))
        },
        Op::VestAll { a } | Op::VestAllOther { a, .. } => {
            for r in REASONS {
                if !m.sch[&(a, r)].is_empty() {
                    settle(m, a, r, now);
                }
            }
            Want::Ok(0)
        },
        Op::Merge { a, i, j, r } => {
            if i == j {
                return Want::Ok(0);
            }
            let v = m.sch.get_mut(&(a, r)).unwrap();
            let (i, j) = (i as usize, j as usize);
            if i >= v.len() || j >= v.len() {
                return Want::Refused;
            }
            let new = merged(now, v[i], v[j]);
            let mut k = 0;
            v.retain(|_| {
                k += 1;
                k - 1 != i && k - 1 != j
            });
            v.extend(new);
            settle(m, a, r, now);
            Want::Ok(0)
        },
        Op::Add { a, v, r } | Op::Set { a, v, r } => {
            if v.locked == 0 {
                return Want::Ok(0);
            }
            if !v.valid() || m.sch[&(a, r)].len() >= MAX {
                return Want::Refused;
            }
            let l = m.sch.get_mut(&(a, r)).unwrap();
            if matches!(op, Op::Set { .. }) {
                l.push(v);
                settle(m, a, r, now);
            } else {
                // no funds move, so the new schedule stays even if it has ended
                l.retain(|s| s.at(now) > 0);
                l.push(v);
            }
            Want::Ok(0)
        },
        Op::Remove { a, i, r } => {
            let v = m.sch.get_mut(&(a, r)).unwrap();
            if v.is_empty() {
                return Want::Refused;
            }
            if (i as usize) < v.len() {
                v.remove(i as usize);
            }
            settle(m, a, r, now);
            Want::Ok(0)
        },
        Op::RemoveAll { a, r } => {
            let v = m.sch.get_mut(&(a, r)).unwrap();
            if v.is_empty() {
                return Want::Refused;
            }
            v.clear();
            settle(m, a, r, now);
            Want::Ok(0)
        },
        Op::Advance { .. } => Want::Ok(0),
        Op::Hold { .. } | Op::Release { .. } | Op::Slash { .. } | Op::Pay { .. } => Want::Either,
    }
}

fn history(s: &mut Src, rec: &mut Rec, which: Which) -> R {
    s.plan(3, 45);
    let scale = *s.pick(&[8u32, 5, 20, 60, 100]);
    let ed = *s.pick(&[1u128, 10]);
    MinVested::set(*s.pick(&[1u128, 5, 20]));
    Ed::set(ed);
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let bals: Vec<(Acc, Bal)> = ACCS.iter().map(|a| (*a, ed + 500 + s.magnitude(scale + 2))).collect();
    rec.log(|| format!("balances {bals:?}, existential deposit {ed}, smallest vested transfer {}", MinVested::get()));
    pallet_balances::GenesisConfig::<Test> { balances: bals }.assimilate_storage(&mut t).unwrap();
    let mut ext = sp_io::TestExternalities::new(t);
    ext.execute_with(|| {
        System::set_block_number(1 + s.below(10));
        while s.more() {
            let pre = snap();
            let op = gen_op(s, &pre, scale, which);
            rec.op();
            let now = System::block_number();
            if let Op::Transfer { from, v, .. } | Op::Force { from, v, .. } = &op {
                // dust of an account that falls below the existential deposit is pallet-balances' own business
                let rest = pre.free[from].saturating_sub(v.locked);
                if rest > 0 && rest < ed {
                    continue;
                }
            }
            let mut want = pre.clone();
            let w = model(&op, &mut want, now);
            // the interface's own question, before the operation
            if let Op::Add { a, v, r } | Op::Set { a, v, r } | Op::Transfer { to: a, v, r, .. } = &op {
                let can = <Release as ReleaseSchedule<Acc, Reason>>::can_add_release_schedule(a, v.locked, v.per, v.start, *r).is_ok();
                check_eq!(can, v.valid() && pre.sch[&(*a, *r)].len() < MAX, "can_add", "can_add_release_schedule for {op:?} at block {now}");
            }
            let res = exec(&op);
            let post = snap();
            rec.log(|| format!("#{now} {op:?} -> {res:?}"));
            rec.feature(fnv(fnv(3, format!("{op:?}").split(' ').next().unwrap_or("").as_bytes()), &[res.is_ok() as u8]));
            match (&w, &res) {
                (Want::Ok(x), Ok(y)) => check_eq!(*y, *x, "amount returned", "amount returned by {op:?} at block {now}"),
                (Want::Ok(_), Err(e)) => return fail("refused", format!("{op:?} at block {now} was refused ({e}) with {:?}", pre.sch)),
                (Want::Refused, Ok(_)) => return fail("accepted", format!("{op:?} at block {now} was accepted")),
                _ => {},
            }
            check_eq!(post.issuance, if matches!(op, Op::Slash { .. }) { post.issuance } else { pre.issuance }, "issuance", "issuance after {op:?}");
            if res.is_err() {
                check_eq!(post, pre, "state after a refusal", "state after refused {op:?}");
                rec.label("refused operation");
                continue;
            }
            match &op {
                Op::Hold { .. } | Op::Release { .. } | Op::Slash { .. } | Op::Pay { .. } => {
                    // other pallets: schedules must not move
                    check_eq!(post.sch, pre.sch, "schedules", "schedules after {op:?}");
                },
                _ => {
                    check_eq!(post.sch, want.sch, "schedules", "schedules after {op:?} at block {now}, from {:?}", pre.sch);
                    check_eq!(post.held, want.held, "held", "funds on hold after {op:?} at block {now} with {:?}", pre.sch);
                    check_eq!(post.free, want.free, "free", "free balances after {op:?} at block {now}");
                    let moved = post.held != pre.held;
                    let changed = post.sch != pre.sch;
                    match which {
                        Which::Release if moved && matches!(op, Op::Vest { .. } | Op::VestOther { .. } | Op::VestAll { .. } | Op::VestAllOther { .. } | Op::TraitVest { .. }) => {
                            rec.nontrivial();
                            rec.label("release");
                            if post.sch.values().map(|v| v.len()).sum::<usize>() > 0 {
                                rec.label("release with schedules left");
                            }
                        },
                        Which::Merge if changed && matches!(op, Op::Merge { .. }) => {
                            rec.nontrivial();
                            rec.label("merge");
                            if let Op::Merge { a, i, j, r } = &op {
                                let v = &pre.sch[&(*a, *r)];
                                let (x, y) = (v[*i as usize], v[*j as usize]);
                                match (x.end() <= now as u128) as u8 + (y.end() <= now as u128) as u8 {
                                    0 => {
                                        rec.label("merge of two running");
                                        if x.start > now || y.start > now {
                                            rec.label("merge with a future one");
                                        }
                                        // read from the chain: it ends no sooner than either, and locks the same now
                                        let z = *post.sch[&(*a, *r)].last().unwrap();
                                        check!(z.end() >= x.end().max(y.end()), "merged end", "{x:?} and {y:?} merged at {now} into {z:?}, which ends sooner");
                                        check_eq!(z.at(now), x.at(now).saturating_add(y.at(now)), "merged lock", "{x:?} and {y:?} merged at {now} into {z:?}");
                                    },
                                    1 => rec.label("merge with an ended one"),
                                    _ => rec.label("merge of two ended"),
                                }
                            }
                        },
                        Which::Transfer if matches!(op, Op::Transfer { .. } | Op::Force { .. }) => {
                            rec.nontrivial();
                            rec.label("vested transfer");
                            if let Op::Transfer { from, to, .. } | Op::Force { from, to, .. } = &op {
                                if from == to {
                                    rec.label("to oneself");
                                }
                            }
                        },
                        Which::Trait if changed && matches!(op, Op::Add { .. } | Op::Set { .. } | Op::Remove { .. } | Op::RemoveAll { .. }) => {
                            rec.nontrivial();
                            rec.label(match op {
                                Op::Add { .. } => "schedule added",
                                Op::Set { .. } => "schedule set",
                                Op::Remove { .. } => "schedule removed",
                                _ => "all schedules removed",
                            });
                        },
                        _ => {},
                    }
                },
            }
            // queries
            let now = System::block_number();
            for a in ACCS {
                for r in REASONS {
                    let v = &post.sch[&(a, r)];
                    let sum = |f: &dyn Fn(&Sch) -> Bal| if v.is_empty() { None } else { Some(v.iter().fold(0u128, |x, s| x.saturating_add(f(s)))) };
                    check_eq!(
                        <Release as ReleaseSchedule<Acc, Reason>>::vesting_balance(&a, r),
                        sum(&|s| s.locked - s.at(now)),
                        "vesting_balance",
                        "vesting_balance of {a} at block {now} with {v:?}"
                    );
                    check_eq!(
                        <Release as ReleaseSchedule<Acc, Reason>>::total_scheduled_amount(&a, r),
                        sum(&|s| s.locked),
                        "total_scheduled_amount",
                        "total_scheduled_amount of {a} with {v:?}"
                    );
                }
            }
        }
        Ok(())
    })
}

/// one schedule on its own, at all its critical blocks
fn arithmetic(s: &mut Src, rec: &mut Rec) -> R {
    let scale = *s.pick(&[8u32, 20, 64, 127]);
    let v = Sch {
        locked: s.magnitude(scale),
        per: if s.flag() { s.magnitude(scale) } else { s.magnitude(128) },
        start: if s.flag() { s.below(100) } else { s.magnitude(63) as u64 },
    };
    let info = v.info();
    rec.op();
    rec.log(|| format!("{v:?}"));
    check_eq!(info.is_valid(), v.valid(), "is_valid", "{v:?} is valid");
    check_eq!((info.locked(), info.per_block(), info.starting_block()), (v.locked, v.per.max(1), v.start), "accessors", "accessors of {v:?}");
    if v.valid() && v.locked > v.per {
        rec.nontrivial();
    }
    check_eq!(info.ending_block_as_balance::<ConvertInto>(), v.end(), "ending block", "ending block of {v:?}");
    let mut ts = vec![0u64, v.start, u64::MAX];
    for e in [v.start as u128, v.end(), (v.start as u128 + v.end()) / 2] {
        for d in -2i128..=2 {
            if let Ok(t) = u64::try_from((e.min(1 << 100)) as i128 + d) {
                ts.push(t);
            }
        }
    }
    for _ in 0..4 {
        ts.push(v.start.saturating_add(s.magnitude(40) as u64));
    }
    ts.sort();
    let mut last = v.locked;
    for t in ts {
        let l = info.locked_at::<ConvertInto>(t);
        let f = info.releaseble_at::<ConvertInto>(t);
        check_eq!(l, v.at(t), "locked_at", "locked by {v:?} at block {t}");
        check_eq!(f, v.locked - v.at(t), "releasable_at", "releasable from {v:?} at block {t}");
        check!(l <= last, "locks again", "{v:?} locks more at block {t} than before");
        if t as u128 >= v.end() {
            check_eq!(l, 0, "end", "locked by {v:?} at block {t}, after its end {}", v.end());
            rec.label("at or after the end");
        } else if v.locked > 0 {
            check!(l > 0, "ends early", "{v:?} locks nothing at block {t}, before its end {}", v.end());
            rec.label("before the end");
        }
        if (t.saturating_sub(v.start) as u128).checked_mul(v.per.max(1)).is_none() {
            rec.label("beyond the number range");
        }
        last = l;
    }
    Ok(())
}

fn main() {
    const A: &[&str] = &[
        "a runtime of System, Balances and this pallet, with two hold reasons and four accounts",
        "pallet-balances of the registry is trusted; polimec-common compiles against stand-ins for jwt-compact, XCM and pallet-timestamp, none of which this pallet uses",
    ];
    pbt::main(vec![
        Prop { id: "L01", rule: "a release that changes what is on hold", quick: 24_000, thorough: 1_600_000, case: Box::new(|s, r| history(s, r, Which::Release)), assumptions: A, guided: 40 },
        Prop { id: "L02", rule: "a valid schedule that takes more than one block", quick: 400_000, thorough: 40_000_000, case: Box::new(arithmetic), assumptions: A, guided: 10 },
        Prop { id: "L03", rule: "a merge that changes the schedules", quick: 24_000, thorough: 1_600_000, case: Box::new(|s, r| history(s, r, Which::Merge)), assumptions: A, guided: 40 },
        Prop { id: "L04", rule: "a vested transfer that succeeds", quick: 24_000, thorough: 1_600_000, case: Box::new(|s, r| history(s, r, Which::Transfer)), assumptions: A, guided: 40 },
        Prop { id: "L05", rule: "a schedule added, set or removed through the interface", quick: 24_000, thorough: 1_600_000, case: Box::new(|s, r| history(s, r, Which::Trait)), assumptions: A, guided: 40 },
    ]);
}
