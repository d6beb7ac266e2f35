//! Operations, their generation, and a plain-data snapshot of everything observable.
use crate::rt::*;
use frame_support::{
    dispatch::{DispatchClass, GetDispatchInfo, Pays},
    weights::Weight,
    traits::{
        fungible::{Inspect, InspectFreeze, InspectHold},
        Hooks, QueryPreimage, StorePreimage,
    },
};
use pallet_democracy::{
    AccountVote, Conviction, MetadataOwner, Vote, VoteThreshold,
};
use pbt::{Rec, Src};
use sp_core::H256;
use sp_runtime::{traits::Dispatchable, BuildStorage};
use std::collections::{BTreeMap, BTreeSet};

pub type Prop = pallet_democracy::BoundedCallOf<Test>;
pub type AV = AccountVote<Bal>;
pub const ACCS: [Acc; 6] = [1, 2, 3, 4, 5, 6];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Org {
    S(Acc),
    Root,
    None,
}
impl Org {
    pub fn get(self) -> RuntimeOrigin {
        match self {
            Org::S(a) => RuntimeOrigin::signed(a),
            Org::Root => RuntimeOrigin::root(),
            Org::None => RuntimeOrigin::none(),
        }
    }
    pub fn is(self, a: Acc) -> bool {
        self == Org::S(a)
    }
    pub fn acc(self) -> Option<Acc> {
        match self {
            Org::S(a) => Some(a),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Propose { o: Org, tag: u32, value: Bal },
    Second { o: Org, prop: u32 },
    Vote { o: Org, r: u32, v: AV },
    EmergencyCancel { o: Org, r: u32 },
    External { o: Org, tag: u32 },
    ExternalMajority { o: Org, tag: u32 },
    ExternalDefault { o: Org, tag: u32 },
    FastTrack { o: Org, hash: H256, period: Bn, delay: Bn },
    Veto { o: Org, hash: H256 },
    CancelReferendum { o: Org, r: u32 },
    Delegate { o: Org, to: Acc, conv: Conviction, bal: Bal },
    Undelegate { o: Org },
    ClearPublic { o: Org },
    Unlock { o: Org, target: Acc },
    RemoveVote { o: Org, r: u32 },
    RemoveOther { o: Org, target: Acc, r: u32 },
    Blacklist { o: Org, hash: H256, r: Option<u32> },
    CancelProposal { o: Org, prop: u32 },
    SetMetadata { o: Org, owner: Own, hash: Option<H256> },
    Transfer { from: Acc, to: Acc, amount: Bal },
    Mint { to: Acc, amount: Bal },
    /// a referendum started by other runtime code (`internal_start_referendum`)
    Start { tag: u32, th: VoteThreshold, delay: Bn },
    Block,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Own {
    External,
    Proposal(u32),
    Referendum(u32),
}
impl Own {
    pub fn real(self) -> MetadataOwner {
        match self {
            Own::External => MetadataOwner::External,
            Own::Proposal(i) => MetadataOwner::Proposal(i),
            Own::Referendum(i) => MetadataOwner::Referendum(i),
        }
    }
    pub fn of(m: MetadataOwner) -> Own {
        match m {
            MetadataOwner::External => Own::External,
            MetadataOwner::Proposal(i) => Own::Proposal(i),
            MetadataOwner::Referendum(i) => Own::Referendum(i),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Direct { votes: Vec<(u32, AV)>, del: (Bal, Bal), prior: Bal },
    Delegating { target: Acc, conv: Conviction, bal: Bal, del: (Bal, Bal), prior: Bal },
}
impl Default for V {
    fn default() -> Self {
        V::Direct { votes: vec![], del: (0, 0), prior: 0 }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ongoing {
    pub end: Bn,
    pub hash: H256,
    pub th: VoteThreshold,
    pub delay: Bn,
    pub ayes: Bal,
    pub nays: Bal,
    pub turnout: Bal,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    On(Ongoing),
    Fin { approved: bool, end: Bn },
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Money {
    pub free: Bal,
    pub total: Bal,
    pub held: Bal,
    pub frozen: Bal,
}

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub now: Bn,
    pub props: Vec<(u32, H256, Acc)>,
    pub deposits: BTreeMap<u32, (Vec<Acc>, Bal)>,
    pub refs: BTreeMap<u32, Ref>,
    pub voting: BTreeMap<Acc, V>,
    pub ext: Option<(H256, VoteThreshold)>,
    pub bl: BTreeMap<H256, (Bn, Vec<Acc>)>,
    pub canc: BTreeSet<H256>,
    pub meta: BTreeMap<Own, H256>,
    pub ltwe: bool,
    pub lowest: u32,
    pub refcount: u32,
    pub propcount: u32,
    pub money: BTreeMap<Acc, Money>,
    pub issuance: Bal,
    pub slashed: Bal,
    pub probes: Vec<u32>,
    pub electorate: Bal,
    /// of democracy, since the operation (or block) began
    pub events: Vec<String>,
}

impl Snap {
    pub fn take() -> Snap {
        use pallet_democracy::*;
        let mut s = Snap {
            now: System::block_number(),
            ext: NextExternal::<Test>::get().map(|(p, t)| (p.hash(), t)),
            ltwe: LastTabledWasExternal::<Test>::get(),
            lowest: LowestUnbaked::<Test>::get(),
            refcount: ReferendumCount::<Test>::get(),
            propcount: PublicPropCount::<Test>::get(),
            issuance: Balances::total_issuance(),
            slashed: Slashed::get(),
            probes: probe::Log::<Test>::get(),
            electorate: <Electorate as GetElectorate<Bal>>::get_electorate(),
            events: System::read_events_no_consensus()
                .filter_map(|e| match e.event {
                    RuntimeEvent::Democracy(e) => Some(format!("{e:?}")),
                    _ => None,
                })
                .collect(),
            ..Default::default()
        };
        s.props = PublicProps::<Test>::get().into_iter().map(|(i, p, a)| (i, p.hash(), a)).collect();
        s.deposits = DepositOf::<Test>::iter().map(|(i, (v, b))| (i, (v.into_inner(), b))).collect();
        for (i, r) in ReferendumInfoOf::<Test>::iter() {
            s.refs.insert(
                i,
                match r {
                    ReferendumInfo::Ongoing(x) => Ref::On(Ongoing {
                        end: x.end,
                        hash: x.proposal.hash(),
                        th: x.threshold,
                        delay: x.delay,
                        ayes: x.tally.ayes,
                        nays: x.tally.nays,
                        turnout: x.tally.turnout,
                    }),
                    ReferendumInfo::Finished { approved, end } => Ref::Fin { approved, end },
                },
            );
        }
        for (a, v) in VotingOf::<Test>::iter() {
            s.voting.insert(
                a,
                match v {
                    Voting::Direct { votes, delegations, prior } => V::Direct {
                        votes: votes.into_inner(),
                        del: (delegations.votes, delegations.capital),
                        prior: prior.locked(),
                    },
                    Voting::Delegating { balance, target, conviction, delegations, prior } => V::Delegating {
                        target,
                        conv: conviction,
                        bal: balance,
                        del: (delegations.votes, delegations.capital),
                        prior: prior.locked(),
                    },
                },
            );
        }
        s.bl = Blacklist::<Test>::iter().map(|(h, (b, v))| (h, (b, v.into_inner()))).collect();
        s.canc = Cancellations::<Test>::iter().filter(|(_, b)| *b).map(|(h, _)| h).collect();
        s.meta = MetadataOf::<Test>::iter().map(|(o, h)| (Own::of(o), h)).collect();
        for a in ACCS {
            s.money.insert(
                a,
                Money {
                    free: Balances::free_balance(a),
                    total: Balances::total_balance(&a),
                    held: Balances::balance_on_hold(&HoldReason::Proposal.into(), &a),
                    frozen: Balances::balance_frozen(&FreezeReason::Vote.into(), &a),
                },
            );
        }
        s
    }
    pub fn v(&self, a: Acc) -> V {
        self.voting.get(&a).cloned().unwrap_or_default()
    }
    pub fn on(&self, r: u32) -> Option<&Ongoing> {
        match self.refs.get(&r) {
            Some(Ref::On(o)) => Some(o),
            _ => None,
        }
    }
    pub fn hash_is_queued(&self, h: H256) -> usize {
        self.props.iter().filter(|p| p.1 == h).count()
    }
    /// blacklist entry in force for a new proposal
    pub fn blacklisted(&self, h: H256) -> bool {
        self.bl.get(&h).map_or(false, |(u, _)| self.now < *u)
    }
}

pub fn call_of(tag: u32) -> RuntimeCall {
    // tags >= 1000 are one-off proposals too big to be stored inline
    let pad = if tag >= 1000 { vec![7u8; 200] } else { vec![] };
    RuntimeCall::Probe(probe::Call::record { tag, pad })
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ed: Bal,
    pub enact: Bn,
    pub launch: Bn,
    pub voting: Bn,
    pub lock: Bn,
    pub ft: Bn,
    pub cool: Bn,
    pub instant: bool,
    pub min_dep: Bal,
    pub max_votes: u32,
    pub max_props: u32,
    pub max_deps: u32,
    pub max_bl: u32,
    pub scheduler_first: bool,
    pub balances: Vec<Bal>,
    pub scale: u32,
    pub start: Bn,
    /// referenda and proposals of the past (all gone)
    pub past: (u32, u32),
    /// not all that is issued may count as electorate
    pub electorate: Option<Bal>,
    /// blocks in which nothing can be due are left out at times
    pub jump: bool,
}

pub fn new_ext(c: &Cfg) -> sp_io::TestExternalities {
    ExistentialDeposit::set(c.ed);
    EnactmentPeriod::set(c.enact);
    LaunchPeriod::set(c.launch);
    VotingPeriod::set(c.voting);
    VoteLockingPeriod::set(c.lock);
    FastTrackVotingPeriod::set(c.ft);
    CooloffPeriod::set(c.cool);
    InstantAllowed::set(c.instant);
    MinimumDeposit::set(c.min_dep);
    MaxVotes::set(c.max_votes);
    MaxProposals::set(c.max_props);
    MaxDeposits::set(c.max_deps);
    MaxBlacklisted::set(c.max_bl);
    Slashed::set(0);
    ElectorateFixed::set(c.electorate);
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    pallet_balances::GenesisConfig::<Test> {
        balances: ACCS.iter().zip(&c.balances).filter(|(_, b)| **b >= c.ed).map(|(a, b)| (*a, *b)).collect(),
    }
    .assimilate_storage(&mut t)
    .unwrap();
    pallet_democracy::GenesisConfig::<Test>::default().assimilate_storage(&mut t).unwrap();
    let mut e = sp_io::TestExternalities::new(t);
    e.execute_with(|| {
        System::set_block_number(c.start);
        pallet_democracy::ReferendumCount::<Test>::put(c.past.0);
        pallet_democracy::LowestUnbaked::<Test>::put(c.past.0);
        pallet_democracy::PublicPropCount::<Test>::put(c.past.1);
    });
    e
}

/// an index in use or near it
fn near(s: &mut Src, n: u32) -> u32 {
    n - s.below((n as u64).min(12) + 1) as u32
}

pub fn gen_cfg(s: &mut Src) -> Cfg {
    let scale = *s.pick(&[5u32, 8, 16, 40, 90]);
    let ed = *s.pick(&[1u128, 10]);
    // periods of a few blocks, or of many
    let f = if s.chance(1, 5) { *s.pick(&[10u64, 43, 300, 7_200, 70_000]) } else { 1 };
    let jump = f > 1 || s.chance(1, 6);
    let mut c = Cfg {
        ed,
        launch: s.range(1, 6),
        voting: s.range(1, 6),
        enact: s.range(0, 5),
        lock: s.range(1, 6),
        ft: s.range(1, 4),
        cool: s.range(0, 6),
        instant: s.flag(),
        min_dep: if s.chance(1, 8) { 1 + s.magnitude(scale) } else { s.range(1, 6) as u128 },
        max_votes: *s.pick(&[100u32, 3, 2, 4]),
        max_props: *s.pick(&[100u32, 3, 2, 4, 1]),
        max_deps: *s.pick(&[100u32, 2, 3, 1]),
        max_bl: *s.pick(&[5u32, 1, 2]),
        scheduler_first: s.flag(),
        balances: (0..ACCS.len()).map(|_| 100 + s.magnitude(scale)).collect(),
        scale,
        start: if s.chance(1, 8) { *s.pick(&[250u64, 65_530, 4_294_967_290]) + s.below(8) } else { s.range(0, 3) },
        past: if s.chance(1, 6) { (*s.pick(&[254u32, 0, 9, 65_534, 16_777_214]), *s.pick(&[253u32, 0, 9, 65_533, 16_777_213])) } else { (0, 0) },
        jump,
        electorate: s.chance(1, 4).then(|| 1 + s.magnitude(scale + 3)),
    };
    for x in [&mut c.launch, &mut c.voting, &mut c.enact, &mut c.lock, &mut c.ft, &mut c.cool] {
        if f > 1 && *x > 0 {
            *x = *x * f - s.below(f);
        }
    }
    c
}

pub struct World {
    pub cfg: Cfg,
    pub pool: Vec<(u32, H256)>,
    pub next_lookup: u32,
    pub meta_hashes: Vec<H256>,
    pub charge: std::cell::Cell<Option<Charge>>,
    /// how many blocks to leave out before the next one, if nothing is due in them
    pub jump: u64,
}
/// what the last operation is charged
#[derive(Clone, Copy, Debug)]
pub struct Charge {
    pub declared: Weight,
    pub actual: Option<Weight>,
    pub operational: bool,
    pub free: bool,
}

impl World {
    pub fn new(cfg: Cfg) -> World {
        let mut w = World { cfg, pool: vec![], next_lookup: 1000, meta_hashes: vec![], charge: Default::default(), jump: 0 };
        for t in 0..4u32 {
            let b: Prop = Preimage::bound(call_of(t)).unwrap();
            w.pool.push((t, b.hash()));
        }
        for i in 0..3u8 {
            let data = vec![i, 1, 2];
            let _ = Preimage::note_preimage(RuntimeOrigin::root(), data.clone());
            w.meta_hashes.push(sp_io::hashing::blake2_256(&data).into());
        }
        // a hash without preimage
        w.meta_hashes.push(H256::repeat_byte(0xee));
        w
    }
    pub fn known(&self, h: &H256) -> bool {
        <Preimage as QueryPreimage>::len(h).is_some()
    }
    pub fn tag_hash(&self, tag: u32) -> H256 {
        self.pool.iter().find(|p| p.0 == tag).map(|p| p.1).unwrap()
    }
    pub fn hash_tag(&self, h: H256) -> u32 {
        self.pool.iter().find(|p| p.1 == h).map(|p| p.0).unwrap_or(u32::MAX)
    }
    fn tag(&mut self, s: &mut Src) -> u32 {
        let k = s.below(8);
        if k == 7 {
            let t = self.next_lookup;
            self.next_lookup += 1;
            let b: Prop = Preimage::bound(call_of(t)).unwrap();
            // bounding again for the call itself must give the same
            self.pool.push((t, b.hash()));
            t
        } else {
            (k % 4) as u32
        }
    }
    /// a number of blocks: small, or so large that it never ends
    fn span(&self, s: &mut Src, to: u64) -> Bn {
        if s.chance(1, 16) {
            *s.pick(&[Bn::MAX, Bn::MAX - 3, Bn::MAX / 2, 300, 70_000])
        } else {
            s.range(0, to)
        }
    }
    fn amount(&self, s: &mut Src, m: &Money) -> Bal {
        match s.below(10) {
            0 => 0,
            1 => s.range(1, 30) as Bal,
            2 | 3 => m.total,
            4 => m.total.saturating_add(1),
            5 => s.magnitude(self.cfg.scale + 1),
            6 => m.free,
            7 => m.total / 2,
            _ => {
                let x = s.magnitude(self.cfg.scale);
                x.min(m.total)
            },
        }
    }
    fn any_ref(&self, s: &mut Src, p: &Snap) -> u32 {
        let on: Vec<u32> = p.refs.keys().copied().filter(|r| p.on(*r).is_some()).collect();
        let k = s.below(10);
        if k < 7 && !on.is_empty() {
            *s.pick(&on)
        } else {
            near(s, p.refcount)
        }
    }
    fn any_hash(&self, s: &mut Src, p: &Snap) -> H256 {
        match s.below(8) {
            0 | 1 if !p.props.is_empty() => s.pick(&p.props).1,
            2 | 3 | 4 if p.ext.is_some() => p.ext.unwrap().0,
            5 if !p.refs.is_empty() => {
                let hs: Vec<H256> = p.refs.keys().filter_map(|r| p.on(*r).map(|o| o.hash)).collect();
                if hs.is_empty() {
                    self.pool[0].1
                } else {
                    *s.pick(&hs)
                }
            },
            _ => s.pick(&self.pool).1,
        }
    }
    fn role(&self, s: &mut Src, right: Org, p: &Snap) -> Org {
        if s.chance(1, 10) {
            match s.below(14) {
                0 => Org::Root,
                1 => Org::None,
                k @ 2..=9 => Org::S(10 + k),
                10 => Org::S(21),
                // somebody whose proposal or deposit it is
                11 if !p.props.is_empty() => Org::S(s.pick(&p.props).2),
                12 if !p.deposits.is_empty() => {
                    let d: Vec<Acc> = p.deposits.values().flat_map(|d| d.0.iter().copied()).collect();
                    Org::S(*s.pick(&d))
                },
                _ => Org::S(*s.pick(&ACCS)),
            }
        } else {
            right
        }
    }
    /// weights: how often each kind of operation is drawn
    pub fn gen(&mut self, s: &mut Src, p: &Snap, w: &[u64; 23]) -> Op {
        let me = *s.pick(&ACCS);
        let m = p.money[&me].clone();
        let sme = if s.chance(1, 60) { Org::None } else { Org::S(me) };
        match s.weighted(w) {
            0 => {
                let tag = self.tag(s);
                let value = match s.below(6) {
                    0 => self.cfg.min_dep,
                    1 => self.cfg.min_dep - 1,
                    2 => self.amount(s, &m),
                    _ => self.cfg.min_dep + s.below(20) as u128,
                };
                Op::Propose { o: sme, tag, value }
            },
            1 => {
                let prop = if !p.props.is_empty() && s.chance(9, 10) { s.pick(&p.props).0 } else { near(s, p.propcount) };
                Op::Second { o: sme, prop }
            },
            2 => {
                let r = self.any_ref(s, p);
                let v = if s.chance(1, 4) {
                    let aye = self.amount(s, &m);
                    let nay = if s.flag() { m.total.saturating_sub(aye) } else { self.amount(s, &m) };
                    AV::Split { aye, nay }
                } else {
                    let conviction = Conviction::try_from(s.below(7) as u8).unwrap();
                    AV::Standard { vote: Vote { aye: !s.flag(), conviction }, balance: self.amount(s, &m) }
                };
                Op::Vote { o: sme, r, v }
            },
            3 => Op::EmergencyCancel { o: self.role(s, Org::S(15), p), r: self.any_ref(s, p) },
            4 => Op::External { o: self.role(s, Org::S(12), p), tag: self.tag(s) },
            5 => Op::ExternalMajority { o: self.role(s, Org::S(13), p), tag: self.tag(s) },
            6 => Op::ExternalDefault { o: self.role(s, Org::S(14), p), tag: self.tag(s) },
            7 => {
                let o = if s.flag() { Org::S(17) } else { Org::S(16) };
                Op::FastTrack { o: self.role(s, o, p), hash: self.any_hash(s, p), period: self.span(s, 6), delay: self.span(s, 5) }
            },
            8 => {
                let v = *s.pick(&[1u64, 2, 3, 21, 22]);
                let hash = match (p.ext, s.below(8)) {
                    (Some((h, _)), 1..=7) => h,
                    _ => self.any_hash(s, p),
                };
                Op::Veto { o: self.role(s, Org::S(v), p), hash }
            },
            9 => Op::CancelReferendum { o: self.role(s, Org::Root, p), r: self.any_ref(s, p) },
            10 => {
                let to = *s.pick(&ACCS);
                let conv = Conviction::try_from(s.below(7) as u8).unwrap();
                Op::Delegate { o: sme, to, conv, bal: self.amount(s, &m) }
            },
            11 => {
                let ds: Vec<Acc> = ACCS.iter().copied().filter(|a| matches!(p.v(*a), V::Delegating { .. })).collect();
                if !ds.is_empty() && s.chance(3, 4) {
                    Op::Undelegate { o: Org::S(*s.pick(&ds)) }
                } else {
                    Op::Undelegate { o: sme }
                }
            },
            12 => Op::ClearPublic { o: self.role(s, Org::Root, p) },
            13 => Op::Unlock { o: sme, target: *s.pick(&ACCS) },
            k @ (14 | 15) => {
                let mut all = vec![];
                for a in ACCS {
                    if let V::Direct { votes, .. } = p.v(a) {
                        all.extend(votes.iter().map(|v| (a, v.0)));
                    }
                }
                let (a, r) = if !all.is_empty() && s.chance(9, 10) { *s.pick(&all) } else { (me, near(s, p.refcount)) };
                if k == 14 {
                    Op::RemoveVote { o: Org::S(a), r }
                } else {
                    Op::RemoveOther { o: sme, target: a, r }
                }
            },
            16 => {
                let hash = self.any_hash(s, p);
                let same: Vec<u32> = p.refs.keys().copied().filter(|r| p.on(*r).map_or(false, |o| o.hash == hash)).collect();
                let r = match s.below(4) {
                    0 => None,
                    1 => Some(self.any_ref(s, p)),
                    _ => same.first().copied(),
                };
                Op::Blacklist { o: self.role(s, Org::S(18), p), hash, r }
            },
            17 => {
                let prop = if !p.props.is_empty() && s.chance(9, 10) { s.pick(&p.props).0 } else { near(s, p.propcount) };
                Op::CancelProposal { o: self.role(s, Org::S(19), p), prop }
            },
            18 => {
                let owner = match s.below(3) {
                    0 => Own::External,
                    1 => Own::Proposal(if !p.props.is_empty() && s.chance(7, 8) { s.pick(&p.props).0 } else { near(s, p.propcount) }),
                    _ => Own::Referendum(self.any_ref(s, p)),
                };
                let right = match owner {
                    Own::External => match p.ext {
                        Some((_, VoteThreshold::SimpleMajority)) => Org::S(13),
                        Some((_, VoteThreshold::SuperMajorityAgainst)) => Org::S(14),
                        _ => Org::S(12),
                    },
                    Own::Proposal(i) => Org::S(p.props.iter().find(|x| x.0 == i).map(|x| x.2).unwrap_or(1)),
                    Own::Referendum(_) => if s.chance(1, 3) { Org::S(me) } else { Org::Root },
                };
                let o = if s.chance(1, 5) {
                    let mut near = vec![Org::S(12), Org::S(13), Org::S(14), Org::S(me), Org::Root, Org::None];
                    // those who have to do with it, but not enough
                    if let Own::Proposal(i) = owner {
                        near.extend(p.deposits.get(&i).iter().flat_map(|d| d.0.iter().map(|a| Org::S(*a))));
                        near.extend(p.props.iter().map(|x| Org::S(x.2)));
                    }
                    *s.pick(&near)
                } else {
                    right
                };
                let hash = if s.chance(1, 3) { None } else { Some(*s.pick(&self.meta_hashes)) };
                Op::SetMetadata { o, owner, hash }
            },
            19 => Op::Transfer { from: me, to: *s.pick(&ACCS), amount: self.amount(s, &m) },
            20 => Op::Mint { to: me, amount: s.magnitude(self.cfg.scale) },
            21 => {
                self.jump = match self.cfg.jump {
                    true if s.chance(1, 6) => s.below(3 * self.cfg.lock + 1),
                    true if s.chance(3, 4) => u64::MAX,
                    _ => 0,
                };
                Op::Block
            },
            _ => {
                let th = *s.pick(&[VoteThreshold::SimpleMajority, VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst]);
                Op::Start { tag: self.tag(s), th, delay: self.span(s, 5) }
            },
        }
    }
    /// the next block to look at: none in which something can be due or changes is left out
    fn next_block(&self) -> Bn {
        let now = System::block_number();
        if self.jump == 0 {
            return now + 1;
        }
        let p = Snap::take();
        let launch = (now / self.cfg.launch + 1) * self.cfg.launch;
        let mut due: Vec<Bn> = vec![launch, now.saturating_add(self.jump).saturating_add(1)];
        due.extend(p.refs.values().filter_map(|r| match r {
            Ref::On(on) => Some(on.end),
            _ => None,
        }));
        due.extend(pallet_scheduler::Agenda::<Test>::iter_keys());
        let mut soft: Vec<Bn> = p.bl.values().map(|b| b.0).collect();
        for v in pallet_democracy::VotingOf::<Test>::iter_values() {
            use parity_scale_codec::{Decode, Encode};
            let prior = match v {
                pallet_democracy::Voting::Direct { votes, prior, .. } => {
                    for (r, v) in votes {
                        if let (Some(Ref::Fin { end, .. }), pallet_democracy::AccountVote::Standard { vote, .. }) = (p.refs.get(&r), v) {
                            soft.push(end.saturating_add(self.cfg.lock.saturating_mul(vote.conviction.lock_periods() as u64)));
                        }
                    }
                    prior
                },
                pallet_democracy::Voting::Delegating { prior, .. } => prior,
            };
            soft.extend(Bn::decode(&mut &prior.encode()[..]));
        }
        due.extend(soft.iter().flat_map(|t| [t.saturating_sub(1), *t]));
        due.into_iter().filter(|t| *t > now).min().unwrap()
    }
    pub fn exec(&self, op: &Op) -> Result<(), String> {
        use pallet_democracy::Call as C;
        self.charge.set(None);
        System::reset_events();
        let bound = |tag: u32| -> Prop {
            let b: Prop = Preimage::bound(call_of(tag)).unwrap();
            // anybody may name a noted preimage in the old form, by its hash alone
            if tag >= 1000 && tag % 3 == 0 {
                frame_support::traits::Bounded::Legacy { hash: b.hash(), dummy: Default::default() }
            } else {
                b
            }
        };
        let (o, call): (Org, RuntimeCall) = match op.clone() {
            Op::Propose { o, tag, value } => (o, C::propose { proposal: bound(tag), value }.into()),
            Op::Second { o, prop } => (o, C::second { proposal: prop }.into()),
            Op::Vote { o, r, v } => (o, C::vote { ref_index: r, vote: v }.into()),
            Op::EmergencyCancel { o, r } => (o, C::emergency_cancel { ref_index: r }.into()),
            Op::External { o, tag } => (o, C::external_propose { proposal: bound(tag) }.into()),
            Op::ExternalMajority { o, tag } => (o, C::external_propose_majority { proposal: bound(tag) }.into()),
            Op::ExternalDefault { o, tag } => (o, C::external_propose_default { proposal: bound(tag) }.into()),
            Op::FastTrack { o, hash, period, delay } =>
                (o, C::fast_track { proposal_hash: hash, voting_period: period, delay }.into()),
            Op::Veto { o, hash } => (o, C::veto_external { proposal_hash: hash }.into()),
            Op::CancelReferendum { o, r } => (o, C::cancel_referendum { ref_index: r }.into()),
            Op::Delegate { o, to, conv, bal } => (o, C::delegate { to, conviction: conv, balance: bal }.into()),
            Op::Undelegate { o } => (o, C::undelegate {}.into()),
            Op::ClearPublic { o } => (o, C::clear_public_proposals {}.into()),
            Op::Unlock { o, target } => (o, C::unlock { target }.into()),
            Op::RemoveVote { o, r } => (o, C::remove_vote { index: r }.into()),
            Op::RemoveOther { o, target, r } => (o, C::remove_other_vote { target, index: r }.into()),
            Op::Blacklist { o, hash, r } => (o, C::blacklist { proposal_hash: hash, maybe_ref_index: r }.into()),
            Op::CancelProposal { o, prop } => (o, C::cancel_proposal { prop_index: prop }.into()),
            Op::SetMetadata { o, owner, hash } => (o, C::set_metadata { owner: owner.real(), maybe_hash: hash }.into()),
            Op::Transfer { from, to, amount } =>
                (Org::S(from), pallet_balances::Call::transfer_allow_death { dest: to, value: amount }.into()),
            Op::Mint { to, amount } => {
                use frame_support::traits::fungible::Mutate;
                return Balances::mint_into(&to, amount).map(|_| ()).map_err(|e| format!("{e:?}"));
            },
            Op::Start { tag, th, delay } => {
                Democracy::internal_start_referendum(bound(tag), th, delay);
                return Ok(());
            },
            Op::Block => {
                probe::Log::<Test>::kill();
                let n = self.next_block();
                System::set_block_number(n);
                System::reset_events();
                if self.cfg.scheduler_first {
                    Scheduler::on_initialize(n);
                }
                let declared = Democracy::on_initialize(n);
                if !self.cfg.scheduler_first {
                    Scheduler::on_initialize(n);
                }
                self.charge.set(Some(Charge { declared, actual: None, operational: false, free: false }));
                return Ok(());
            },
        };
        let info = call.get_dispatch_info();
        let res = call.dispatch(o.get());
        let post = match &res {
            Ok(p) => p,
            Err(e) => &e.post_info,
        };
        self.charge.set(Some(Charge {
            declared: info.weight,
            actual: post.actual_weight,
            operational: info.class == DispatchClass::Operational,
            free: info.pays_fee == Pays::No || post.pays_fee == Pays::No,
        }));
        match res {
            Ok(_) => Ok(()),
            Err(e) => Err(format!("{:?}", e.error)),
        }
    }
    pub fn log(&self, rec: &mut Rec, op: &Op, r: &Result<(), String>, now: Bn) {
        rec.log(|| {
            let res = match r {
                Ok(()) => "ok".to_string(),
                Err(e) => {
                    let m = e.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next());
                    m.map(|m| m.to_string()).unwrap_or_else(|| e.clone())
                },
            };
            format!("#{now} {op:?} -> {res}")
        });
    }
}
pub fn kind(op: &Op) -> &'static str {
    match op {
        Op::Propose { .. } => "propose",
        Op::Second { .. } => "second",
        Op::Vote { .. } => "vote",
        Op::EmergencyCancel { .. } => "emergency_cancel",
        Op::External { .. } => "external",
        Op::ExternalMajority { .. } => "external_majority",
        Op::ExternalDefault { .. } => "external_default",
        Op::FastTrack { .. } => "fast_track",
        Op::Veto { .. } => "veto",
        Op::CancelReferendum { .. } => "cancel_referendum",
        Op::Delegate { .. } => "delegate",
        Op::Undelegate { .. } => "undelegate",
        Op::ClearPublic { .. } => "clear_public",
        Op::Unlock { .. } => "unlock",
        Op::RemoveVote { .. } => "remove_vote",
        Op::RemoveOther { .. } => "remove_other_vote",
        Op::Blacklist { .. } => "blacklist",
        Op::CancelProposal { .. } => "cancel_proposal",
        Op::SetMetadata { .. } => "set_metadata",
        Op::Transfer { .. } => "transfer",
        Op::Mint { .. } => "mint",
        Op::Block => "block",
        Op::Start { .. } => "start",
    }
}
