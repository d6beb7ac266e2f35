//! Everything observable, as one value.
use crate::rt::*;
use pallet_parachain_staking::*;
use sp_arithmetic::{Perbill, Percent};
use std::collections::BTreeMap;

pub const COL: u8 = 0;
pub const DEL: u8 = 1;
/// candidates and delegators: accounts 1 to 16
pub const ACCS: std::ops::RangeInclusive<Acc> = 1..=16;
pub fn reason(r: u8) -> RuntimeHoldReason {
    RuntimeHoldReason::Staking(if r == COL { HoldReason::StakingCollator } else { HoldReason::StakingDelegator })
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Cand {
    pub bond: Bal,
    pub count: u32,
    pub counted: Bal,
    pub lowest_top: Bal,
    pub highest_bottom: Bal,
    pub lowest_bottom: Bal,
    /// 0 empty, 1 partly, 2 full
    pub caps: (u8, u8),
    pub request: Option<(Bal, u32)>,
    /// 0 active, 1 idle, 2 leaving
    pub status: (u8, u32),
    pub top: Vec<(Acc, Bal)>,
    pub top_total: Bal,
    pub bottom: Vec<(Acc, Bal)>,
    pub bottom_total: Bal,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Del {
    pub bonds: Vec<(Acc, Bal)>,
    pub total: Bal,
    pub less: Bal,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub bond: Bal,
    pub dels: Vec<(Acc, Bal, u8)>,
    pub total: Bal,
}
/// (when, revoke?, amount)
pub type Req = (u32, bool, Bal);

#[derive(Clone, Debug, PartialEq, Default)]
pub struct St {
    pub now: u32,
    pub round: (u32, u32, u32),
    pub total_selected: u32,
    pub commission: Perbill,
    pub bond_info: (Acc, u8),
    pub expect: [Bal; 3],
    pub annual: [u32; 3],
    pub rate: [u32; 3],
    pub cands: BTreeMap<Acc, Cand>,
    pub dels: BTreeMap<Acc, Del>,
    pub reqs: BTreeMap<(Acc, Acc), Req>,
    pub auto: BTreeMap<(Acc, Acc), u8>,
    pub selected: Vec<Acc>,
    pub pool: Vec<(Acc, Bal)>,
    pub total: Bal,
    pub at_stake: BTreeMap<(u32, Acc), Snap>,
    /// issuance, commission
    pub delayed: BTreeMap<u32, (Bal, Bal, Perbill)>,
    pub staked: BTreeMap<u32, Bal>,
    pub points: BTreeMap<u32, u32>,
    pub awarded: BTreeMap<(u32, Acc), u32>,
    pub free: BTreeMap<Acc, Bal>,
    pub held: BTreeMap<(Acc, u8), Bal>,
    pub session: (u32, Vec<Acc>, Vec<Acc>),
    pub duplicates: Vec<String>,
}
pub fn pct(p: Percent) -> u8 {
    p.deconstruct()
}
fn cap(c: &CapacityStatus) -> u8 {
    match c {
        CapacityStatus::Empty => 0,
        CapacityStatus::Partial => 1,
        CapacityStatus::Full => 2,
    }
}
pub fn snap() -> St {
    let r = Staking::round();
    let i = Staking::inflation_config();
    let b = Staking::parachain_bond_info();
    let mut s = St {
        now: System::block_number(),
        round: (r.current, r.first, r.length),
        total_selected: Staking::total_selected(),
        commission: Staking::collator_commission(),
        bond_info: (b.account, pct(b.percent)),
        expect: [i.expect.min, i.expect.ideal, i.expect.max],
        annual: [i.annual.min, i.annual.ideal, i.annual.max].map(|x| x.deconstruct()),
        rate: [i.round.min, i.round.ideal, i.round.max].map(|x| x.deconstruct()),
        selected: Staking::selected_candidates(),
        pool: Staking::candidate_pool().0.iter().map(|b| (b.owner, b.amount)).collect(),
        total: Staking::total(),
        at_stake: AtStake::<Test>::iter()
            .map(|(r, a, x)| ((r, a), Snap { bond: x.bond, dels: x.delegations.iter().map(|d| (d.owner, d.amount, pct(d.auto_compound))).collect(), total: x.total }))
            .collect(),
        delayed: DelayedPayouts::<Test>::iter().map(|(r, x)| (r, (x.round_issuance, x.total_staking_reward, x.collator_commission))).collect(),
        staked: Staked::<Test>::iter().collect(),
        points: Points::<Test>::iter().collect(),
        awarded: AwardedPts::<Test>::iter().map(|(r, a, p)| ((r, a), p)).collect(),
        free: frame_system::Account::<Test>::iter().map(|(a, i)| (a, i.data.free)).filter(|x| x.1 > 0).collect(),
        session: (pallet_session::CurrentIndex::<Test>::get(), pallet_session::Validators::<Test>::get(), pallet_session::Queued::<Test>::get()),
        ..Default::default()
    };
    for (a, hs) in pallet_balances::Holds::<Test>::iter() {
        for h in hs {
            for r in [COL, DEL] {
                if h.id == reason(r) && h.amount > 0 {
                    s.held.insert((a, r), h.amount);
                }
            }
        }
    }
    for c in ACCS {
        if let Some(m) = Staking::candidate_info(c) {
            let list = |d: Option<Delegations<Acc, Bal>>| d.map_or((vec![], u128::MAX), |d| (d.delegations.iter().map(|b| (b.owner, b.amount)).collect(), d.total));
            let ((top, top_total), (bottom, bottom_total)) = (list(Staking::top_delegations(c)), list(Staking::bottom_delegations(c)));
            s.cands.insert(
                c,
                Cand {
                    bond: m.bond,
                    count: m.delegation_count,
                    counted: m.total_counted,
                    lowest_top: m.lowest_top_delegation_amount,
                    highest_bottom: m.highest_bottom_delegation_amount,
                    lowest_bottom: m.lowest_bottom_delegation_amount,
                    caps: (cap(&m.top_capacity), cap(&m.bottom_capacity)),
                    request: m.request.map(|q| (q.amount, q.when_executable)),
                    status: match m.status {
                        CollatorStatus::Active => (0, 0),
                        CollatorStatus::Idle => (1, 0),
                        CollatorStatus::Leaving(w) => (2, w),
                    },
                    top,
                    top_total,
                    bottom,
                    bottom_total,
                },
            );
        } else if Staking::top_delegations(c).is_some() || Staking::bottom_delegations(c).is_some() {
            s.duplicates.push(format!("delegations of {c}, no candidate"));
        }
        if let Some(d) = Staking::delegator_state(c) {
            s.dels.insert(c, Del { bonds: d.delegations.0.iter().map(|b| (b.owner, b.amount)).collect(), total: d.total, less: d.less_total });
        }
        for q in Staking::delegation_scheduled_requests(c) {
            let (revoke, x) = match q.action {
                DelegationAction::Revoke(x) => (true, x),
                DelegationAction::Decrease(x) => (false, x),
            };
            if s.reqs.insert((c, q.delegator), (q.when_executable, revoke, x)).is_some() {
                s.duplicates.push(format!("requests of {} for {c}", q.delegator));
            }
        }
        for q in Staking::auto_compounding_delegations(c) {
            if s.auto.insert((c, q.delegator), pct(q.value)).is_some() {
                s.duplicates.push(format!("auto-compounding of {} for {c}", q.delegator));
            }
        }
    }
    s
}
pub fn diff(want: &St, got: &St) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    macro_rules! f {
        ($($x:ident $n:expr),* $(,)?) => { $( if want.$x != got.$x { v.push(($n, format!("expected {:?}, got {:?}", want.$x, got.$x))); } )* };
    }
    macro_rules! m {
        ($($x:ident $n:expr),* $(,)?) => { $( if want.$x != got.$x {
            let ks: std::collections::BTreeSet<_> = want.$x.keys().chain(got.$x.keys()).cloned().collect();
            let k = ks.into_iter().find(|k| want.$x.get(k) != got.$x.get(k)).unwrap();
            v.push(($n, format!("for {k:?} expected {:?}, got {:?}", want.$x.get(&k), got.$x.get(&k))));
        } )* };
    }
    f!(now "the block", round "the round", total_selected "the number of collators", commission "the commission", bond_info "the reserve", expect "the expected stake", annual "the annual inflation", rate "the inflation of a round");
    m!(cands "a candidate", dels "a delegator", reqs "the requests", auto "auto-compounding");
    f!(selected "the collators", pool "the pool", total "the total stake");
    m!(at_stake "the snapshot of a round", delayed "what is to be paid", staked "the stake of a round", points "the points of a round", awarded "the points of a collator", free "a balance", held "a hold");
    f!(session "the session", duplicates "the lists");
    v
}
