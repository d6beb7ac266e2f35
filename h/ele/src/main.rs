//! E*: council elections (pallets/elections-phragmen) against a reference model of every operation.
use frame_support::{
    derive_impl, parameter_types,
    dispatch::{GetDispatchInfo, Pays},
    weights::{constants::RocksDbWeight, Weight},
    traits::{
        fungible::{hold::Inspect as HoldInspect, Credit, Inspect, InspectFreeze, Mutate},
        ChangeMembers, ConstU32, Contains, ContainsLengthBound, Hooks, InitializeMembers, OnUnbalanced, SortedMembers,
    },
};
use pallet_elections_phragmen::{self as ep, FreezeReason, HoldReason, Renouncing};
use pbt::{check, check_eq, fnv, Fail, Prop, Rec, Src};
use sp_runtime::{
    traits::{Dispatchable, IdentityLookup},
    BuildStorage, Perbill,
};
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), Fail>;
pub type Bal = u128;
pub type Acc = u64;
pub type Bn = u64;
type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system,
        Balances: pallet_balances,
        Elections: ep,
    }
);

parameter_types! {
    pub static Ed: Bal = 1;
    pub static Bond: Bal = 3;
    pub static Desired: u32 = 2;
    pub static DesiredRunners: u32 = 2;
    pub static Term: Bn = 5;
    pub static LockPeriod: Bn = 2;
    pub static MaxCand: u32 = 10;
    pub static MaxVot: u32 = 100;
    pub static MaxVpv: u32 = 16;
    static Accs: u32 = 10;
    static Long: bool = false;
    static Jump: u64 = 0;
    // what the collective was told
    pub static Told: Vec<Acc> = vec![];
    pub static ToldPrime: Option<Acc> = None;
    pub static ToldBad: Option<String> = None;
    pub static Slashed: Bal = 0;
    static Last: Option<Charge> = None;
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Bal>;
    type AccountId = Acc;
    type Block = Block;
    type DbWeight = RocksDbWeight;
    type Lookup = IdentityLookup<Acc>;
}
impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Bal;
    type DustRemoval = ();
    type ExistentialDeposit = Ed;
    type FreezeIdentifier = RuntimeFreezeReason;
    type MaxFreezes = ConstU32<10>;
    type MaxLocks = ConstU32<10>;
    type MaxReserves = ();
    type ReserveIdentifier = [u8; 8];
    type RuntimeEvent = RuntimeEvent;
    type RuntimeFreezeReason = RuntimeFreezeReason;
    type RuntimeHoldReason = RuntimeHoldReason;
    type WeightInfo = ();
}

/// a collective as strict as pallet-collective: forgets the prime on a change, applies the difference
pub struct Council;
impl ChangeMembers<Acc> for Council {
    fn change_members_sorted(incoming: &[Acc], outgoing: &[Acc], new: &[Acc]) {
        let mut want: BTreeSet<Acc> = Told::get().into_iter().collect();
        for o in outgoing {
            if !want.remove(o) {
                ToldBad::set(Some(format!("outgoing {o} was not a member")));
            }
        }
        for i in incoming {
            if !want.insert(*i) {
                ToldBad::set(Some(format!("incoming {i} was a member already")));
            }
        }
        if want.iter().copied().collect::<Vec<_>>() != new {
            ToldBad::set(Some(format!("incoming {incoming:?} and outgoing {outgoing:?} do not turn {:?} into {new:?}", Told::get())));
        }
        for l in [incoming, outgoing, new] {
            if l.windows(2).any(|w| w[0] >= w[1]) {
                ToldBad::set(Some(format!("not sorted: {l:?}")));
            }
        }
        Told::set(new.to_vec());
        ToldPrime::set(None);
    }
    fn set_prime(p: Option<Acc>) {
        ToldPrime::set(p);
    }
    fn get_prime() -> Option<Acc> {
        ToldPrime::get()
    }
}
impl InitializeMembers<Acc> for Council {
    fn initialize_members(m: &[Acc]) {
        let mut v = m.to_vec();
        v.sort();
        Told::set(v);
    }
}
pub struct Sink;
impl OnUnbalanced<Credit<Acc, Balances>> for Sink {
    fn on_nonzero_unbalanced(c: Credit<Acc, Balances>) {
        Slashed::set(Slashed::get() + frame_support::traits::Imbalance::peek(&c));
    }
}

impl ep::Config for Test {
    type Balance = Bal;
    type CandidacyBond = Bond;
    type ChangeMembers = Council;
    type Currency = Balances;
    type CurrencyToVote = sp_staking::currency_to_vote::U128CurrencyToVote;
    type DesiredMembers = Desired;
    type DesiredRunnersUp = DesiredRunners;
    type InitializeMembers = Council;
    type LoserCandidate = Sink;
    type MaxCandidates = MaxCand;
    type MaxVoters = MaxVot;
    type MaxVotesPerVoter = MaxVpv;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeFreezeReason = RuntimeFreezeReason;
    type RuntimeHoldReason = RuntimeHoldReason;
    type TermDuration = Term;
    type VotingLockPeriod = LockPeriod;
    type WeightInfo = Meter;
}

/// Weights that tell which work was accounted for, and how much of it: no two kinds of work cover each other.
pub struct Meter;
impl Meter {
    fn w(kind: u64, n: u64) -> Weight {
        Weight::from_parts(kind * 1_000_000_000 + n, (100 - kind) * 1_000_000_000 + n)
    }
}
impl ep::WeightInfo for Meter {
    fn vote_equal(v: u32) -> Weight {
        Meter::w(1, v as u64)
    }
    fn vote_more(v: u32) -> Weight {
        Meter::w(2, v as u64)
    }
    fn vote_less(v: u32) -> Weight {
        Meter::w(3, v as u64)
    }
    fn remove_voter() -> Weight {
        Meter::w(4, 0)
    }
    fn submit_candidacy(c: u32) -> Weight {
        Meter::w(5, c as u64)
    }
    fn renounce_candidacy_candidate(c: u32) -> Weight {
        Meter::w(6, c as u64)
    }
    fn renounce_candidacy_members() -> Weight {
        Meter::w(7, 0)
    }
    fn renounce_candidacy_runners_up() -> Weight {
        Meter::w(8, 0)
    }
    fn remove_member_without_replacement() -> Weight {
        Meter::w(9, 0)
    }
    fn remove_member_with_replacement() -> Weight {
        Meter::w(10, 0)
    }
    fn clean_defunct_voters(v: u32, d: u32) -> Weight {
        Meter::w(11, v as u64 * 1000 + d as u64)
    }
    fn election_phragmen(c: u32, v: u32, e: u32) -> Weight {
        // no two triples with small numbers cost the same
        Meter::w(12, c as u64 * 1_000_000 + v as u64 * 10_000 + e as u64)
    }
}
/// what the last operation is charged
#[derive(Clone, Copy, Debug)]
pub struct Charge {
    declared: Weight,
    charged: Weight,
    free: bool,
}

const ALL: [Acc; 20] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20];
/// the accounts of this case
fn accs() -> &'static [Acc] {
    &ALL[..Accs::get() as usize]
}
/// the next block to look at: none in which something can be due or changes is left out
fn next_block(p: &State) -> Bn {
    let jump = Jump::get();
    if jump == 0 {
        return p.now + 1;
    }
    let mut due = vec![p.now.saturating_add(jump).saturating_add(1)];
    if Term::get() > 0 {
        due.push((p.now / Term::get() + 1) * Term::get());
    }
    due.extend(p.voting.iter().flat_map(|(_, v)| [v.till.saturating_sub(1), v.till]));
    due.into_iter().filter(|t| *t > p.now).min().unwrap()
}

// ---------------------------------------------------------------- state as plain data

#[derive(Clone, Debug, PartialEq)]
struct Seat {
    who: Acc,
    stake: Bal,
    deposit: Bal,
}
#[derive(Clone, Debug, PartialEq)]
struct Voter {
    votes: Vec<Acc>,
    stake: Bal,
    till: Bn,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Money {
    total: Bal,
    held: Bal,
    frozen: Bal,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct State {
    now: Bn,
    members: Vec<Seat>,
    runners: Vec<Seat>,
    cands: Vec<(Acc, Bal)>,
    rounds: u32,
    /// in storage order
    voting: Vec<(Acc, Voter)>,
    money: BTreeMap<Acc, Money>,
    issuance: Bal,
    slashed: Bal,
    told: Vec<Acc>,
    prime: Option<Acc>,
}
impl State {
    fn take() -> State {
        let seat = |s: ep::SeatHolder<Acc, Bal>| Seat { who: s.who, stake: s.stake, deposit: s.deposit };
        let mut s = State {
            now: System::block_number(),
            members: ep::Members::<Test>::get().into_iter().map(seat).collect(),
            runners: ep::RunnersUp::<Test>::get().into_iter().map(seat).collect(),
            cands: ep::Candidates::<Test>::get(),
            rounds: ep::ElectionRounds::<Test>::get(),
            voting: ep::Voting::<Test>::iter().map(|(a, v)| (a, Voter { votes: v.votes, stake: v.stake, till: v.lockup_till })).collect(),
            money: BTreeMap::new(),
            issuance: Balances::total_issuance(),
            slashed: Slashed::get(),
            told: Told::get(),
            prime: ToldPrime::get(),
        };
        for &a in accs() {
            s.money.insert(
                a,
                Money {
                    total: Balances::total_balance(&a),
                    held: Balances::balance_on_hold(&HoldReason::Candidacy.into(), &a),
                    frozen: Balances::balance_frozen(&FreezeReason::Voting.into(), &a),
                },
            );
        }
        s
    }
    fn voter(&self, a: Acc) -> Option<&Voter> {
        self.voting.iter().find(|v| v.0 == a).map(|v| &v.1)
    }
    fn set_voter(&mut self, a: Acc, v: Option<Voter>) {
        match (self.voting.iter().position(|x| x.0 == a), v) {
            (Some(i), Some(v)) => self.voting[i].1 = v,
            (Some(i), None) => drop(self.voting.remove(i)),
            (None, Some(v)) => self.voting.push((a, v)),
            (None, None) => {},
        }
    }
    fn is_member(&self, a: Acc) -> bool {
        self.members.iter().any(|m| m.who == a)
    }
    fn is_runner(&self, a: Acc) -> bool {
        self.runners.iter().any(|m| m.who == a)
    }
    fn is_cand(&self, a: Acc) -> bool {
        self.cands.iter().any(|m| m.0 == a)
    }
    fn standing(&self, a: Acc) -> bool {
        self.is_member(a) || self.is_runner(a) || self.is_cand(a)
    }
    fn slash(&mut self, a: Acc, x: Bal) {
        let m = self.money.get_mut(&a).unwrap();
        m.held = m.held.saturating_sub(x);
        m.total = m.total.saturating_sub(x);
        self.issuance -= x;
        self.slashed += x;
    }
    fn refund(&mut self, a: Acc, x: Bal) {
        let m = self.money.get_mut(&a).unwrap();
        m.held = m.held.saturating_sub(x);
    }
    /// the member leaves; the best runner-up takes over
    fn replace(&mut self, who: Acc, slash: bool) -> bool {
        let Some(i) = self.members.iter().position(|m| m.who == who) else { return false };
        let gone = self.members.remove(i);
        if slash {
            self.slash(who, gone.deposit)
        } else {
            self.refund(who, gone.deposit)
        }
        if let Some(best) = self.runners.pop() {
            self.members.push(best);
            self.members.sort_by_key(|m| m.who);
        }
        self.told = self.members.iter().map(|m| m.who).collect();
        if self.prime == Some(who) {
            self.prime = None;
        }
        true
    }
    /// one election; says what happened
    fn elect(&mut self) -> Election {
        let mut standing: Vec<(Acc, Bal)> = self.cands.clone();
        standing.extend(self.members.iter().map(|m| (m.who, m.deposit)));
        standing.extend(self.runners.iter().map(|m| (m.who, m.deposit)));
        if standing.is_empty() {
            return Election::Nobody;
        }
        if self.voting.len() > MaxVot::get() as usize {
            return Election::TooManyVoters;
        }
        let factor = (self.issuance / u64::MAX as u128).max(1);
        let voters: Vec<(Acc, u64, Vec<Acc>)> = self
            .voting
            .iter()
            .map(|(a, v)| (*a, u64::try_from(v.stake / factor).unwrap_or(u64::MAX), v.votes.clone()))
            .collect();
        let seats = (Desired::get() + DesiredRunners::get()) as usize;
        let ids = standing.iter().map(|c| c.0).collect();
        let Ok(r) = sp_npos_elections::seq_phragmen::<Acc, Perbill>(seats, ids, voters, None) else { return Election::Failed };
        let won: Vec<(Acc, Bal)> = r.winners.into_iter().filter(|w| w.1 > 0).map(|(a, s)| (a, s.saturating_mul(factor))).collect();
        let old: BTreeSet<Acc> = self.members.iter().map(|m| m.who).collect();
        let k = won.len().min(Desired::get() as usize);
        let dep = |a: Acc| standing.iter().find(|s| s.0 == a).map(|s| s.1).unwrap_or(0);
        let seat = |(a, s): &(Acc, Bal)| Seat { who: *a, stake: *s, deposit: dep(*a) };
        self.members = won[..k].iter().map(seat).collect();
        self.members.sort_by_key(|m| m.who);
        self.runners = won[k..].iter().rev().map(seat).collect();
        self.told = self.members.iter().map(|m| m.who).collect();
        // Borda count over all votes, ties to the highest account
        self.prime = None;
        let mut best = 0;
        for m in &self.members {
            let mut score: Bal = 0;
            for (_, v) in &self.voting {
                for (i, c) in v.votes.iter().enumerate() {
                    if *c == m.who {
                        score = score.saturating_add(v.stake.saturating_mul((MaxVpv::get() as usize - i) as u128));
                    }
                }
            }
            if self.prime.is_none() || score >= best {
                self.prime = Some(m.who);
                best = score;
            }
        }
        let mut losers = 0;
        for (a, d) in &standing {
            if !self.is_member(*a) && !self.is_runner(*a) {
                self.slash(*a, *d);
                losers += 1;
            }
        }
        self.cands.clear();
        self.rounds += 1;
        let changed = old != self.told.iter().copied().collect();
        Election::Held { losers, changed }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Election {
    Nobody,
    TooManyVoters,
    Failed,
    Held { losers: usize, changed: bool },
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Copy, Debug, PartialEq)]
enum Org {
    S(Acc),
    Root,
    None,
}
impl Org {
    fn get(self) -> RuntimeOrigin {
        match self {
            Org::S(a) => RuntimeOrigin::signed(a),
            Org::Root => RuntimeOrigin::root(),
            Org::None => RuntimeOrigin::none(),
        }
    }
    fn acc(self) -> Option<Acc> {
        match self {
            Org::S(a) => Some(a),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum As {
    Member,
    Runner,
    Cand(u32),
}
#[derive(Clone, Debug)]
enum Op {
    Vote { o: Org, votes: Vec<Acc>, value: Bal },
    RemoveVoter { o: Org },
    Submit { o: Org, count: u32 },
    Renounce { o: Org, role: As },
    RemoveMember { o: Org, who: Acc, slash: bool, rerun: bool },
    Clean { o: Org, voters: u32, defunct: u32 },
    SetBond { x: Bal },
    Transfer { from: Acc, to: Acc, x: Bal },
    Mint { to: Acc, x: Bal },
    Block,
}

fn gen_op(s: &mut Src, p: &State, w: &[u64; 10], scale: u32) -> Op {
    let me = *s.pick(accs());
    let m = &p.money[&me];
    let sme = if s.chance(1, 50) { *s.pick(&[Org::None, Org::Root]) } else { Org::S(me) };
    let root = if s.chance(1, 12) { *s.pick(&[Org::None, Org::S(me)]) } else { Org::Root };
    match s.weighted(w) {
        0 => {
            let mut pool: Vec<Acc> = p.cands.iter().map(|c| c.0).collect();
            pool.extend(p.members.iter().map(|m| m.who));
            pool.extend(p.runners.iter().map(|m| m.who));
            let n = if s.chance(1, 20) || accs().len() > 10 && s.flag() { s.below(20) as usize } else { 1 + s.idx(pool.len().clamp(1, 5)) };
            let mut votes = vec![];
            for _ in 0..n {
                if pool.is_empty() || s.chance(1, 10) {
                    votes.push(*s.pick(accs()));
                } else {
                    let c = *s.pick(&pool);
                    if !votes.contains(&c) || s.chance(1, 8) {
                        votes.push(c);
                    }
                }
            }
            let cur = p.voter(me).map(|v| v.stake).unwrap_or(0);
            let value = match s.below(10) {
                0 => Ed::get(),
                1 => Ed::get() + 1,
                2 => cur.saturating_sub(1),
                3 => cur,
                4 => m.total,
                5 => s.magnitude(scale + 2),
                6 => 10 + s.below(10) as u128,
                _ => 1 + s.magnitude(scale),
            };
            Op::Vote { o: sme, votes, value }
        },
        1 => {
            let v: Vec<Acc> = p.voting.iter().map(|v| v.0).filter(|a| accs().contains(a)).collect();
            if !v.is_empty() && s.chance(7, 8) {
                Op::RemoveVoter { o: Org::S(*s.pick(&v)) }
            } else {
                Op::RemoveVoter { o: sme }
            }
        },
        2 => {
            let n = p.cands.len() as u32;
            let count = match s.below(12) {
                0 => n.saturating_sub(1),
                1 => n + 1 + s.below(5) as u32,
                _ => n,
            };
            Op::Submit { o: sme, count }
        },
        3 => {
            let mut opts = vec![];
            opts.extend(p.members.iter().map(|m| (m.who, As::Member)));
            opts.extend(p.runners.iter().map(|m| (m.who, As::Runner)));
            opts.extend(p.cands.iter().map(|m| (m.0, As::Cand(p.cands.len() as u32))));
            if !opts.is_empty() && s.chance(5, 6) {
                let (a, role) = *s.pick(&opts);
                Op::Renounce { o: Org::S(a), role }
            } else {
                let role = match s.below(3) {
                    0 => As::Member,
                    1 => As::Runner,
                    _ => As::Cand((p.cands.len() as u32 + s.below(3) as u32).saturating_sub(1)),
                };
                Op::Renounce { o: sme, role }
            }
        },
        4 => {
            let who = if !p.members.is_empty() && s.chance(6, 7) { s.pick(&p.members).who } else { me };
            Op::RemoveMember { o: root, who, slash: s.flag(), rerun: s.chance(1, 4) }
        },
        5 => {
            let n = p.voting.len() as u64;
            Op::Clean { o: root, voters: s.below(n + 2) as u32, defunct: if s.flag() { n as u32 } else { s.below(n + 2) as u32 } }
        },
        6 => Op::SetBond { x: s.below(30) as u128 },
        7 => Op::Transfer { from: me, to: *s.pick(accs()), x: s.magnitude(scale) },
        8 => Op::Mint { to: me, x: s.magnitude(scale) },
        _ => {
            Jump::set(match Long::get() {
                true if s.chance(1, 6) => s.below(2 * Term::get() + 3),
                true if s.chance(3, 4) => 500_000,
                _ => 0,
            });
            Op::Block
        },
    }
}

fn campaign(s: &mut Src, p: &State, scale: u32) -> Vec<Op> {
    let mut q = vec![];
    let mut pool: Vec<Acc> = accs().iter().copied().filter(|a| p.standing(*a)).collect();
    let mut n = p.cands.len() as u32;
    for &a in accs() {
        if !p.standing(a) && s.chance(2, 3) {
            q.push(Op::Submit { o: Org::S(a), count: n });
            pool.push(a);
            n += 1;
        }
    }
    for &a in accs() {
        if !pool.is_empty() && s.chance(2, 3) {
            let mut votes = vec![];
            let crowd = accs().len() > 10;
            // a long list goes around the pool, from anywhere
            let (n, mut at) = if crowd && s.flag() { (pool.len().min(MaxVpv::get() as usize), Some(s.idx(pool.len()))) } else { (1 + s.below(if crowd { 8 } else { 3 }) as usize, None) };
            for _ in 0..n {
                let c = match &mut at {
                    Some(i) => {
                        *i = (*i + 1) % pool.len();
                        pool[*i]
                    },
                    None => *s.pick(&pool),
                };
                if !votes.contains(&c) {
                    votes.push(c);
                }
            }
            let value = if s.flag() { p.money[&a].total } else { 10 + s.magnitude(scale) };
            q.push(Op::Vote { o: Org::S(a), votes, value });
        }
    }
    q
}

fn exec(op: &Op) -> Result<(), String> {
    use ep::Call as C;
    Last::set(None);
    System::reset_events();
    let (o, call): (Org, RuntimeCall) = match op.clone() {
        Op::Vote { o, votes, value } => (o, C::vote { votes, value }.into()),
        Op::RemoveVoter { o } => (o, C::remove_voter {}.into()),
        Op::Submit { o, count } => (o, C::submit_candidacy { candidate_count: count }.into()),
        Op::Renounce { o, role } => {
            let renouncing = match role {
                As::Member => Renouncing::Member,
                As::Runner => Renouncing::RunnerUp,
                As::Cand(n) => Renouncing::Candidate(n),
            };
            (o, C::renounce_candidacy { renouncing }.into())
        },
        Op::RemoveMember { o, who, slash, rerun } => (o, C::remove_member { who, slash_bond: slash, rerun_election: rerun }.into()),
        Op::Clean { o, voters, defunct } => (o, C::clean_defunct_voters { num_voters: voters, num_defunct: defunct }.into()),
        Op::SetBond { x } => {
            Bond::set(x);
            return Ok(());
        },
        Op::Transfer { from, to, x } => (Org::S(from), pallet_balances::Call::transfer_keep_alive { dest: to, value: x }.into()),
        Op::Mint { to, x } => return Balances::mint_into(&to, x).map(|_| ()).map_err(|e| format!("{e:?}")),
        Op::Block => {
            let n = next_block(&State::take());
            System::set_block_number(n);
            System::reset_events();
            let w = Elections::on_initialize(n);
            Last::set(Some(Charge { declared: w, charged: w, free: false }));
            return Ok(());
        },
    };
    let info = call.get_dispatch_info();
    // a refused call changes nothing, as in a block (calls are transactional)
    let res = call.dispatch(o.get());
    let post = match &res {
        Ok(p) => p,
        Err(e) => &e.post_info,
    };
    Last::set(Some(Charge {
        declared: info.weight,
        charged: post.actual_weight.unwrap_or(info.weight),
        free: info.pays_fee == Pays::No || post.pays_fee == Pays::No,
    }));
    res.map(|_| ()).map_err(|e| format!("{:?}", e.error))
}

/// what the operation should do: None = must be refused
struct Expect {
    state: Option<State>,
    election: Option<Election>,
    /// accepted or refused, both fine
    either: bool,
}

fn model(op: &Op, pre: &State, can_hold: bool) -> Expect {
    let mut n = pre.clone();
    let mut election = None;
    let ok = match op {
        Op::Vote { o, votes, value } => (|| {
            let a = o.acc()?;
            let pool = pre.cands.len() + pre.members.len() + pre.runners.len();
            if votes.is_empty() || votes.len() > MaxVpv::get() as usize || votes.len() > pool {
                return None;
            }
            match pre.voter(a) {
                Some(v) if pre.now < v.till =>
                    if *value < v.stake {
                        return None;
                    },
                _ =>
                    if *value <= Ed::get() {
                        return None;
                    },
            }
            let stake = (*value).min(pre.money[&a].total);
            n.set_voter(a, Some(Voter { votes: votes.clone(), stake, till: pre.now + LockPeriod::get() }));
            n.money.get_mut(&a).unwrap().frozen = stake;
            Some(())
        })(),
        Op::RemoveVoter { o } => (|| {
            let a = o.acc()?;
            let v = pre.voter(a)?;
            if pre.now < v.till {
                return None;
            }
            n.set_voter(a, None);
            n.money.get_mut(&a).unwrap().frozen = 0;
            Some(())
        })(),
        Op::Submit { o, count } => (|| {
            let a = o.acc()?;
            if (pre.cands.len() as u32) > *count || pre.standing(a) || !can_hold || pre.cands.len() as u32 >= MaxCand::get() {
                return None;
            }
            n.cands.push((a, Bond::get()));
            n.cands.sort();
            n.money.get_mut(&a).unwrap().held += Bond::get();
            Some(())
        })(),
        Op::Renounce { o, role } => (|| {
            let a = o.acc()?;
            match role {
                As::Member => n.replace(a, false).then_some(()),
                As::Runner => {
                    let i = n.runners.iter().position(|r| r.who == a)?;
                    let s = n.runners.remove(i);
                    n.refund(a, s.deposit);
                    Some(())
                },
                As::Cand(k) => {
                    if (pre.cands.len() as u32) > *k {
                        return None;
                    }
                    let i = n.cands.iter().position(|r| r.0 == a)?;
                    let s = n.cands.remove(i);
                    n.refund(a, s.1);
                    Some(())
                },
            }
        })(),
        Op::RemoveMember { o, who, slash, rerun } => {
            let ok = *o == Org::Root && n.replace(*who, *slash);
            if ok && *rerun {
                election = Some(n.elect());
            }
            ok.then_some(())
        },
        Op::Clean { o, voters, defunct } => (*o == Org::Root).then(|| {
            let gone: Vec<Acc> = pre
                .voting
                .iter()
                .take(*voters as usize)
                .filter(|(_, v)| v.votes.iter().all(|c| !pre.standing(*c)))
                .take(*defunct as usize)
                .map(|v| v.0)
                .collect();
            for a in gone {
                n.set_voter(a, None);
                n.money.get_mut(&a).unwrap().frozen = 0;
            }
        }),
        Op::SetBond { .. } => Some(()),
        Op::Block => {
            n.now = next_block(pre);
            let t = Term::get();
            if t > 0 && n.now % t == 0 {
                election = Some(n.elect());
            }
            Some(())
        },
        Op::Transfer { .. } | Op::Mint { .. } => return Expect { state: Some(n), election: None, either: true },
    };
    Expect { state: ok.map(|_| n), election, either: false }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Which {
    Outcome,
    Bonds,
    Freeze,
    Sets,
    Prime,
    Replace,
    Votes,
    Clean,
    Candidacy,
    Timing,
    Fair,
    Events,
    Weights,
}

/// candidate backed by a coalition that deserves a seat, but with nobody elected
fn unjust(before: &State, issuance: Bal, elected: &[Acc]) -> Option<(Acc, u128, u128)> {
    let k = elected.len() as u128;
    let factor = (issuance / u64::MAX as u128).max(1);
    let w = |v: &Voter| v.stake / factor;
    // voters whose votes name someone who stands
    let total: u128 = before.voting.iter().filter(|(_, v)| v.votes.iter().any(|c| before.standing(*c))).map(|(_, v)| w(v)).sum();
    let ids: Vec<Acc> = before.cands.iter().map(|c| c.0).chain(before.members.iter().map(|m| m.who)).chain(before.runners.iter().map(|m| m.who)).collect();
    for c in ids {
        if elected.contains(&c) {
            continue;
        }
        let group: u128 = before
            .voting
            .iter()
            .filter(|(_, v)| v.votes.contains(&c) && !v.votes.iter().any(|x| elected.contains(x)))
            .map(|(_, v)| w(v))
            .sum();
        // at least one seat's worth of stake, with a margin for fixed-point rounding
        if group > 0 && group * k > total + total / 1000 + k * 1000 {
            return Some((c, group, total));
        }
        if k == 0 && group > 1000 {
            return Some((c, group, total));
        }
    }
    None
}

fn history(s: &mut Src, rec: &mut Rec, w: &[u64; 10], which: Which) -> R {
    s.plan(5, 60);
    let scale = *s.pick(&[6u32, 10, 16, 40, 64, 90]);
    Ed::set(*s.pick(&[1u128, 5]));
    Bond::set(s.below(20) as u128);
    let many = s.chance(1, 10) as u64;
    let crowd = s.chance(1, 20);
    Accs::set(if crowd { 20 } else { 10 });
    Desired::set((s.below(4) + (s.chance(9, 10) as u64) + many * s.below(5)) as u32);
    DesiredRunners::set((s.below(4) + many * s.below(4)) as u32);
    Term::set(*s.pick(&[3u64, 1, 2, 5, 0]));
    LockPeriod::set(s.below(6));
    // a few blocks, or many of which most are left out
    Jump::set(0);
    let f = if s.chance(1, 6) { *s.pick(&[10u64, 300, 7_200, 70_000]) } else { 1 };
    Long::set(f > 1);
    if f > 1 {
        Term::set(Term::get() * f - s.below(f) * (Term::get() > 0) as u64);
        LockPeriod::set(LockPeriod::get() * f);
    }
    MaxCand::set(*s.pick(&[10u32, 3, 4, 100]));
    MaxVot::set(*s.pick(&[100u32, 100, 3, 5]));
    MaxVpv::set(*s.pick(&[16u32, 2, 3, 5]));
    if crowd && s.chance(4, 5) {
        MaxCand::set(100);
        MaxVot::set(100);
        MaxVpv::set(16);
        Desired::set(2 + s.below(8) as u32);
        DesiredRunners::set(s.below(7) as u32);
    }
    Told::set(vec![]);
    ToldPrime::set(None);
    ToldBad::set(None);
    Slashed::set(0);
    let bals: Vec<(Acc, Bal)> = accs().iter().map(|a| (*a, 60 + s.magnitude(scale))).collect();
    let mut gm = vec![];
    if s.chance(1, 3) {
        for a in [3u64, 1, 7, 5] {
            if (gm.len() as u32) < Desired::get() && s.flag() {
                gm.push((a, 1 + s.below(60) as u128));
            }
        }
    }
    rec.log(|| {
        format!(
            "balances {bals:?} genesis members {gm:?} ed {} bond {} seats {}+{} term {} lock {} max: {} candidates {} voters {} votes",
            Ed::get(),
            Bond::get(),
            Desired::get(),
            DesiredRunners::get(),
            Term::get(),
            LockPeriod::get(),
            MaxCand::get(),
            MaxVot::get(),
            MaxVpv::get()
        )
    });
    let start = if s.chance(1, 8) { *s.pick(&[250u64, 65_530, 4_294_967_290]) + s.below(8) } else { 1 + s.below(4) };
    let rounds = if s.chance(1, 8) { *s.pick(&[254u32, 65_534, 16_777_214]) } else { 0 };
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    pallet_balances::GenesisConfig::<Test> { balances: bals }.assimilate_storage(&mut t).unwrap();
    ep::GenesisConfig::<Test> { members: gm.clone() }.assimilate_storage(&mut t).unwrap();
    let mut ext = sp_io::TestExternalities::new(t);
    ext.execute_with(|| {
        System::set_block_number(start);
        ep::ElectionRounds::<Test>::put(rounds);
        let mut pre = State::take();
        if which == Which::Sets {
            let mut want = gm.clone();
            want.sort();
            check_eq!(pre.members.iter().map(|m| (m.who, m.stake)).collect::<Vec<_>>(), want, "genesis", "genesis members");
            check_eq!(pre.told, want.iter().map(|m| m.0).collect::<Vec<_>>(), "genesis told", "genesis members told to the collective");
        }
        let mut queue: Vec<Op> = vec![];
        while s.more() {
            // now and then a whole campaign: many stand, many vote
            if queue.is_empty() && (s.chance(1, 16) || crowd && s.chance(1, 6)) {
                queue = campaign(s, &pre, scale);
            }
            let op = if queue.is_empty() { gen_op(s, &pre, w, scale) } else { queue.remove(0) };
            let reps = if matches!(op, Op::Block) { 1 + s.below(3) } else { 1 };
            for _ in 0..reps {
                rec.op();
                let can_hold = match &op {
                    Op::Submit { o: Org::S(a), .. } => Balances::can_hold(&HoldReason::Candidacy.into(), a, Bond::get()),
                    _ => true,
                };
                let ex = model(&op, &pre, can_hold);
                let res = exec(&op);
                let post = State::take();
                rec.log(|| {
                    let r = match &res {
                        Ok(()) => "ok".to_string(),
                        Err(e) => e.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(e).to_string(),
                    };
                    let el = ex.election.map(|e| format!(" election {e:?}: members {:?} runners-up {:?}", post.members, post.runners)).unwrap_or_default();
                    format!("#{} {op:?} -> {r}{el}", pre.now)
                });
                rec.feature(fnv(
                    fnv(4, &[kind(&op), res.is_ok() as u8, post.members.len() as u8, post.runners.len() as u8, post.cands.len().min(3) as u8]),
                    format!("{:?}", ex.election.map(|e| std::mem::discriminant(&e))).as_bytes(),
                ));
                oracle(which, rec, &op, &pre, &post, &ex, res.is_ok(), &res)?;
                pre = post;
            }
        }
        Ok(())
    })
}
fn kind(op: &Op) -> u8 {
    match op {
        Op::Vote { .. } => 0,
        Op::RemoveVoter { .. } => 1,
        Op::Submit { .. } => 2,
        Op::Renounce { .. } => 3,
        Op::RemoveMember { slash, rerun, .. } => 4 + *slash as u8 + 2 * *rerun as u8,
        Op::Clean { .. } => 8,
        Op::SetBond { .. } => 9,
        Op::Transfer { .. } => 10,
        Op::Mint { .. } => 11,
        Op::Block => 12,
    }
}

#[allow(clippy::too_many_arguments)]
fn oracle(which: Which, rec: &mut Rec, op: &Op, pre: &State, post: &State, ex: &Expect, ok: bool, res: &Result<(), String>) -> R {
    let unchanged = |what: &str| -> R {
        let mut a = pre.clone();
        a.now = post.now;
        if let Op::Block = op {
            // nothing
        }
        check_eq!(*post, a, "changed state", "state after {what} {op:?}");
        Ok(())
    };
    if let Some(e) = ex.election {
        match e {
            Election::Held { losers, changed } => {
                rec.label("election held");
                if losers > 0 {
                    rec.label("election with losers");
                }
                if changed {
                    rec.label("membership changed");
                }
                if !post.runners.is_empty() {
                    rec.label("election with runners-up");
                }
            },
            Election::Nobody => rec.label("nobody stands"),
            Election::TooManyVoters => rec.label("too many voters"),
            Election::Failed => rec.label("election failed"),
        }
    }
    match which {
        Which::Outcome =>
            if let (Some(Election::Held { .. }), Some(want)) = (ex.election, &ex.state) {
                check_eq!(post.members, want.members, "elected members", "members");
                check_eq!(post.runners, want.runners, "elected runners-up", "runners-up (worst first)");
                check_eq!(post.cands.len(), 0, "candidates left", "candidates after an election");
                check_eq!(post.rounds, want.rounds, "rounds", "election rounds");
                if post.members.len() + post.runners.len() > 1 {
                    rec.nontrivial();
                }
            },
        Which::Fair =>
            if let Some(Election::Held { .. }) = ex.election {
                let mut before = pre.clone();
                if let Op::RemoveMember { who, slash, .. } = op {
                    before.replace(*who, *slash);
                }
                let elected: Vec<Acc> = post.members.iter().chain(post.runners.iter()).map(|m| m.who).collect();
                let seats = (Desired::get() + DesiredRunners::get()) as usize;
                check!(post.members.len() <= Desired::get() as usize, "too many members", "{} members", post.members.len());
                check!(post.runners.len() <= DesiredRunners::get() as usize, "too many runners-up", "{} runners-up", post.runners.len());
                check!(
                    post.runners.is_empty() || post.members.len() == Desired::get() as usize,
                    "runner-up with a free seat",
                    "{} members, {} runners-up",
                    post.members.len(),
                    post.runners.len()
                );
                for a in &elected {
                    check!(before.standing(*a), "elected without standing", "{a} was elected but did not stand");
                    check!(before.voting.iter().any(|(_, v)| v.votes.contains(a) && v.stake > 0), "elected without votes", "{a} was elected with no votes");
                }
                check!(post.members.iter().chain(post.runners.iter()).all(|m| m.stake > 0), "seat without stake", "a seat holder has no stake");
                // all the stake handed to seat holders comes from voters
                let backed: u128 = post.members.iter().chain(post.runners.iter()).fold(0u128, |x, m| x.saturating_add(m.stake));
                let available: u128 = before.voting.iter().filter(|(_, v)| v.votes.iter().any(|c| elected.contains(c))).fold(0u128, |x, v| x.saturating_add(v.1.stake));
                check!(backed <= available.saturating_add(available / 1000).saturating_add(1000), "stake from nowhere", "seat holders are backed by {backed}, their voters have {available}");
                if elected.len() <= seats && seats > 0 {
                    if let Some((c, g, t)) = unjust(&before, before.issuance, &elected) {
                        check!(false, "coalition left out", "{c} is backed by {g} of {t}, a full seat of {}, but nobody they voted for was elected: {elected:?}", elected.len());
                    }
                }
                if before.voting.len() > 1 && elected.len() > 1 {
                    rec.nontrivial();
                }
            },
        Which::Bonds => {
            for &a in accs() {
                let recorded: Bal = post.members.iter().chain(post.runners.iter()).filter(|m| m.who == a).map(|m| m.deposit).sum::<Bal>() +
                    post.cands.iter().filter(|c| c.0 == a).map(|c| c.1).sum::<Bal>();
                check_eq!(post.money[&a].held, recorded, "bond held", "candidacy bond held from {a} after {op:?}");
                if let (true, Some(want), false) = (ok, &ex.state, ex.either) {
                    check_eq!(post.money[&a].held, want.money[&a].held, "bond", "bond of {a} after {op:?}");
                    check_eq!(post.money[&a].total, want.money[&a].total, "balance", "total balance of {a} after {op:?}");
                    if want.money[&a].total < pre.money[&a].total {
                        rec.label("bond slashed");
                        rec.nontrivial();
                    }
                    if want.money[&a].held < pre.money[&a].held && want.money[&a].total == pre.money[&a].total {
                        rec.label("bond returned");
                    }
                }
            }
            if let (true, Some(want), false) = (ok, &ex.state, ex.either) {
                check_eq!(post.slashed, want.slashed, "slash handler", "total handed to the slash handler");
            }
        },
        Which::Freeze => {
            for &a in accs() {
                let genesis = post.voter(a).map_or(false, |v| v.till == LockPeriod::get() && v.votes == vec![a] && post.money[&a].frozen == 0);
                if genesis {
                    continue;
                }
                let stake = post.voter(a).map(|v| v.stake).unwrap_or(0);
                check_eq!(post.money[&a].frozen, stake, "freeze", "frozen balance of {a} after {op:?}, its voting stake");
            }
            if let Op::Vote { o: Org::S(a), value, .. } = op {
                if ok {
                    let v = post.voter(*a);
                    check!(v.is_some(), "vote lost", "no vote recorded");
                    let v = v.unwrap();
                    check_eq!(v.stake, (*value).min(pre.money[a].total), "stake", "stake of {a} voting with {value}");
                    check_eq!(v.till, pre.now + LockPeriod::get(), "lock", "lock of {a}");
                    if let Some(old) = pre.voter(*a) {
                        if pre.now < old.till {
                            rec.label("vote changed under lock");
                            rec.nontrivial();
                            check!(v.stake >= old.stake.min(pre.money[a].total), "stake lowered under lock", "{a} lowered its stake");
                        }
                    }
                }
            }
            if let Op::RemoveVoter { o } = op {
                check_eq!(ok, ex.state.is_some(), "remove_voter acceptance", "{op:?} at {} with {:?} ({res:?})", pre.now, o.acc().and_then(|a| pre.voter(a)));
                rec.label(if ok { "voter removed" } else { "voter not removed" });
            }
            // a voter disappears, or its stake changes, by its own call only (or the clean-up)
            for (a, v) in &pre.voting {
                let by = match op {
                    Op::Vote { o, .. } | Op::RemoveVoter { o } => o.acc() == Some(*a),
                    Op::Clean { .. } => true,
                    _ => false,
                };
                if !by || !ok {
                    check_eq!(post.voter(*a), Some(v), "foreign vote", "vote of {a} after {op:?}");
                }
            }
        },
        Which::Sets => {
            let ids = |v: &Vec<Seat>| v.iter().map(|m| m.who).collect::<Vec<_>>();
            let (m, r, c) = (ids(&post.members), ids(&post.runners), post.cands.iter().map(|c| c.0).collect::<Vec<_>>());
            check!(m.windows(2).all(|w| w[0] < w[1]), "members not sorted", "members {m:?}");
            check!(c.windows(2).all(|w| w[0] < w[1]), "candidates not sorted", "candidates {c:?}");
            let all: Vec<Acc> = m.iter().chain(r.iter()).chain(c.iter()).copied().collect();
            check_eq!(all.iter().collect::<BTreeSet<_>>().len(), all.len(), "roles overlap", "distinct accounts among members {m:?}, runners-up {r:?}, candidates {c:?}");
            check!(m.len() <= Desired::get() as usize && r.len() <= DesiredRunners::get() as usize, "too many seats", "{} members, {} runners-up", m.len(), r.len());
            check_eq!(post.told, m, "collective out of step", "members known to the collective after {op:?}");
            check!(ToldBad::get().is_none(), "wrong difference", "{:?}", ToldBad::get());
            check!(post.prime.map_or(true, |p| m.contains(&p)), "prime not a member", "prime {:?} of {m:?}", post.prime);
            for &a in accs() {
                check_eq!(<Elections as Contains<Acc>>::contains(&a), m.contains(&a), "contains", "membership of {a} as reported");
            }
            check_eq!(<Elections as SortedMembers<Acc>>::sorted_members(), m, "sorted members", "members as reported");
            for &a in accs() {
                check_eq!(<Elections as SortedMembers<Acc>>::contains(&a), m.contains(&a), "sorted contains", "membership of {a} as reported to an origin check");
            }
            check_eq!(<Elections as SortedMembers<Acc>>::count(), m.len(), "count", "number of members as reported");
            let (lo, hi) = (<Elections as ContainsLengthBound>::min_len(), <Elections as ContainsLengthBound>::max_len());
            check!(lo <= m.len() && m.len() <= hi, "length bound", "{} members, reported bounds {lo} to {hi}", m.len());
            if !ok {
                unchanged("a refused")?;
            }
            if !r.is_empty() && !c.is_empty() {
                rec.nontrivial();
            }
        },
        Which::Prime => {
            if let (true, Some(want)) = (ok, &ex.state) {
                check_eq!(post.prime, want.prime, "prime", "prime after {op:?} with members {:?} and votes {:?}", post.members, pre.voting);
                if ex.election.is_some() && post.members.len() > 1 {
                    rec.label("prime among several");
                    rec.nontrivial();
                }
                if pre.prime.is_some() && pre.prime != post.prime && ex.election.is_none() {
                    rec.label("prime left");
                }
            } else {
                check_eq!(post.prime, pre.prime, "prime", "prime after refused {op:?}");
            }
        },
        Which::Replace => {
            if let Op::Renounce { .. } | Op::RemoveMember { .. } = op {
                check_eq!(ok, ex.state.is_some(), "acceptance", "{op:?} ({res:?})");
                if let (true, Some(want)) = (ok, &ex.state) {
                    check_eq!(post.members, want.members, "members", "members after {op:?}");
                    check_eq!(post.runners, want.runners, "runners-up", "runners-up after {op:?}");
                    check_eq!(post.cands, want.cands, "candidates", "candidates after {op:?}");
                    check_eq!(post.told, want.told, "collective", "members told to the collective after {op:?}");
                    check_eq!(post.slashed, want.slashed, "slashed", "total slashed after {op:?}");
                    if pre.members.len() == post.members.len() && pre.members != post.members && ex.election.is_none() {
                        rec.label("replaced by a runner-up");
                        rec.nontrivial();
                        if pre.runners.len() > 1 {
                            rec.label("several runners-up");
                        }
                    }
                    if let Op::Renounce { role, .. } = op {
                        rec.label(match role {
                            As::Member => "member renounced",
                            As::Runner => "runner-up renounced",
                            As::Cand(_) => "candidate renounced",
                        });
                    }
                } else {
                    unchanged("refused")?;
                }
            }
        },
        Which::Votes => {
            if let Op::Vote { o, votes, .. } = op {
                check_eq!(ok, ex.state.is_some(), "vote acceptance", "{op:?} with {} standing, voter {:?} ({res:?})", pre.cands.len() + pre.members.len() + pre.runners.len(), o.acc().and_then(|a| pre.voter(a)));
                if ok {
                    let a = o.acc().unwrap();
                    check_eq!(post.voter(a), ex.state.as_ref().unwrap().voter(a), "vote recorded", "vote of {a}");
                    if votes.len() > 1 {
                        rec.label("several votes");
                        rec.nontrivial();
                    }
                    if pre.voter(a).is_some() {
                        rec.label("vote replaced");
                    }
                } else {
                    rec.label("vote refused");
                }
            }
        },
        Which::Clean => {
            if let Op::Clean { .. } = op {
                check_eq!(ok, ex.state.is_some(), "clean acceptance", "{op:?} ({res:?})");
                if let Some(want) = &ex.state {
                    check_eq!(*post, *want, "clean-up", "state after {op:?}");
                    if post.voting.len() < pre.voting.len() {
                        rec.label("defunct voter removed");
                        rec.nontrivial();
                    }
                    if post.voting.len() < pre.voting.len() && !post.voting.is_empty() {
                        rec.label("others kept");
                    }
                }
            }
        },
        Which::Candidacy => {
            if let Op::Submit { o, .. } = op {
                if ok && ex.state.is_none() && pre.cands.len() as u32 == MaxCand::get() {
                    let a = o.acc();
                    check!(a.is_none() || pre.standing(a.unwrap()), "candidate limit exceeded by one", "submit_candidacy was accepted with {} candidates, the maximum is {}", pre.cands.len(), MaxCand::get());
                }
                check_eq!(ok, ex.state.is_some(), "submit acceptance", "{op:?} with {} candidates of at most {} ({res:?})", pre.cands.len(), MaxCand::get());
                if ok {
                    check_eq!(post.cands, ex.state.as_ref().unwrap().cands, "candidates", "candidates after {op:?}");
                    rec.label("submitted");
                    rec.nontrivial();
                } else if let Some(a) = o.acc() {
                    rec.label(if pre.is_member(a) {
                        "refused: member"
                    } else if pre.is_runner(a) {
                        "refused: runner-up"
                    } else if pre.is_cand(a) {
                        "refused: candidate"
                    } else {
                        "refused: other"
                    });
                }
            }
        },
        Which::Events => {
            use ep::Event as E;
            let mut must: Vec<E<Test>> = vec![];
            let mut kicked = None;
            if ok {
                match op {
                    Op::Renounce { o, .. } => must.push(E::Renounced { candidate: o.acc().unwrap() }),
                    Op::RemoveMember { who, slash, .. } => {
                        must.push(E::MemberKicked { member: *who });
                        if *slash {
                            let amount = pre.members.iter().find(|m| m.who == *who).map(|m| m.deposit).unwrap_or(0);
                            must.push(E::SeatHolderSlashed { seat_holder: *who, amount });
                            rec.label("seat holder slashed");
                        }
                        kicked = Some(*who);
                    },
                    _ => {},
                }
            }
            if ok {
                match ex.election {
                    Some(Election::Held { .. }) => {
                        must.push(E::NewTerm { new_members: post.members.iter().map(|m| (m.who, m.stake)).collect() });
                        // everybody who stood and holds no seat now
                        let stood: Vec<(Acc, Bal)> = pre
                            .cands
                            .iter()
                            .copied()
                            .chain(pre.members.iter().chain(pre.runners.iter()).map(|m| (m.who, m.deposit)))
                            .filter(|(a, _)| Some(*a) != kicked)
                            .collect();
                        for (candidate, amount) in stood {
                            if !post.is_member(candidate) && !post.is_runner(candidate) {
                                must.push(E::CandidateSlashed { candidate, amount });
                                rec.nontrivial();
                            }
                        }
                    },
                    Some(Election::Nobody) => must.push(E::EmptyTerm),
                    Some(Election::TooManyVoters) | Some(Election::Failed) => must.push(E::ElectionError),
                    None => {},
                }
            }
            let mut have: Vec<String> = System::read_events_no_consensus()
                .filter_map(|e| match e.event {
                    RuntimeEvent::Elections(e) => Some(format!("{e:?}")),
                    _ => None,
                })
                .collect();
            for e in must {
                let e = format!("{e:?}");
                match have.iter().position(|x| *x == e) {
                    Some(i) => drop(have.remove(i)),
                    None => check!(false, "event missing", "{op:?} (ok: {ok}) did not report {e}; left: {have:?}"),
                }
            }
            check!(have.is_empty(), "event without cause", "{op:?} (ok: {ok}) reported {have:?}");
        },
        Which::Weights => {
            let Some(c) = Last::get() else { return Ok(()) };
            let covers = |need: Weight| -> R {
                check!(c.charged.all_gte(need), "work not covered", "{op:?} is charged {:?}, which does not cover {need:?}", c.charged);
                Ok(())
            };
            check!(!c.free, "free call", "{op:?} pays no fee");
            check!(c.declared.all_gte(c.charged), "charged more than declared", "{op:?} declared {:?} but charged {:?}", c.declared, c.charged);
            use ep::WeightInfo as W;
            match op {
                Op::Vote { votes, .. } => {
                    let n = votes.len() as u32;
                    covers(Meter::vote_equal(n))?;
                    covers(Meter::vote_more(n))?;
                    covers(Meter::vote_less(n))?;
                },
                Op::RemoveVoter { .. } => covers(Meter::remove_voter())?,
                Op::Submit { count, .. } => {
                    covers(Meter::submit_candidacy(*count))?;
                    if ok {
                        covers(Meter::submit_candidacy(pre.cands.len() as u32))?;
                    }
                },
                Op::Renounce { role: As::Member, .. } => covers(Meter::renounce_candidacy_members())?,
                Op::Renounce { role: As::Runner, .. } => covers(Meter::renounce_candidacy_runners_up())?,
                Op::Renounce { role: As::Cand(n), .. } => {
                    covers(Meter::renounce_candidacy_candidate(*n))?;
                    if ok {
                        covers(Meter::renounce_candidacy_candidate(pre.cands.len() as u32))?;
                    }
                },
                Op::RemoveMember { rerun: true, .. } => covers(Meter::remove_member_without_replacement())?,
                Op::RemoveMember { rerun: false, .. } => covers(Meter::remove_member_with_replacement())?,
                Op::Clean { voters, defunct, .. } => {
                    covers(Meter::clean_defunct_voters(*voters, *defunct))?;
                    check!(
                        pre.voting.len() - post.voting.len() <= *defunct as usize,
                        "more work than paid for",
                        "{op:?} removed {} voters",
                        pre.voting.len() - post.voting.len()
                    );
                },
                Op::Block => match ex.election {
                    Some(Election::Held { .. } | Election::Failed) => {
                        let standing = pre.cands.len() + pre.members.len() + pre.runners.len();
                        let edges: usize = pre.voting.iter().map(|v| v.1.votes.len()).sum();
                        covers(Meter::election_phragmen(standing as u32, pre.voting.len() as u32, edges as u32))?;
                        if pre.voting.len() > 1 && edges > pre.voting.len() {
                            rec.nontrivial();
                        }
                    },
                    // reads what it needs to find out
                    Some(Election::Nobody) => covers(RocksDbWeight::get().reads(3))?,
                    Some(Election::TooManyVoters) => covers(RocksDbWeight::get().reads(MaxVot::get() as u64))?,
                    None => check_eq!(c.charged, Weight::zero(), "idle block charged", "weight of a block without an election"),
                },
                _ => {},
            }
        },
        Which::Timing => {
            let held = post.rounds != pre.rounds;
            match ex.election {
                Some(Election::Held { .. }) => {
                    check_eq!(post.rounds, pre.rounds + 1, "no election", "election rounds after {op:?} at block {} with term {}", post.now, Term::get());
                    rec.nontrivial();
                },
                Some(_) => {
                    let mut want = ex.state.clone().unwrap();
                    want.now = post.now;
                    check_eq!(*post, want, "failed election", "state after an election without candidates or with too many voters");
                },
                None => {
                    check!(!held, "election off schedule", "an election was held by {op:?} at block {} with term {}", post.now, Term::get());
                    if let Op::Block = op {
                        unchanged("")?;
                    }
                },
            }
        },
    }
    Ok(())
}

/// E14: the council of the genesis block
fn genesis(s: &mut Src, rec: &mut Rec) -> R {
    rec.op();
    Accs::set(10);
    Ed::set(*s.pick(&[1u128, 5]));
    Bond::set(s.below(20) as u128);
    Desired::set(s.below(6) as u32);
    DesiredRunners::set(s.below(4) as u32);
    Term::set(*s.pick(&[3u64, 1, 0]));
    LockPeriod::set(s.below(6));
    Told::set(vec![]);
    ToldPrime::set(None);
    ToldBad::set(None);
    Slashed::set(0);
    let bals: Vec<(Acc, Bal)> = accs().iter().filter_map(|a| s.chance(9, 10).then(|| (*a, 5 + s.magnitude(20)))).collect();
    let has = |a: Acc| bals.iter().find(|b| b.0 == a).map_or(0, |b| b.1);
    let n = s.below(7);
    let members: Vec<(Acc, Bal)> = (0..n)
        .map(|_| {
            let a = *s.pick(accs());
            // all, just too much, part or nothing of what it has
            (a, match s.weighted(&[4, 1, 5, 1]) {
                0 => has(a),
                1 => has(a) + 1,
                2 => s.below(has(a) as u64 + 1) as u128,
                _ => 0,
            })
        })
        .collect();
    let set: BTreeSet<Acc> = members.iter().map(|m| m.0).collect();
    let many = members.len() as u32 > Desired::get();
    let twice = set.len() != members.len();
    let poor = members.iter().any(|(a, st)| *st > has(*a));
    let valid = !many && !twice && !poor;
    rec.log(|| format!("balances {bals:?}, {} seats, genesis members {members:?}: {}", Desired::get(), if valid { "fine" } else { "to be refused" }));
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    pallet_balances::GenesisConfig::<Test> { balances: bals.clone() }.assimilate_storage(&mut t).unwrap();
    let built = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ep::GenesisConfig::<Test> { members: members.clone() }.assimilate_storage(&mut t)));
    let ok = matches!(built, Ok(Ok(())));
    check_eq!(ok, valid, "accepted", "whether a genesis with {members:?} for {} seats is accepted (balances {bals:?})", Desired::get());
    if !ok {
        rec.label(if many { "too many" } else if twice { "twice" } else { "stake it does not have" });
        rec.nontrivial();
        return Ok(());
    }
    let mut ext = sp_io::TestExternalities::new(t);
    ext.execute_with(|| {
        let st = State::take();
        let mut want: Vec<(Acc, Bal)> = members.clone();
        want.sort();
        check_eq!(st.members.iter().map(|m| (m.who, m.stake, m.deposit)).collect::<Vec<_>>(), want.iter().map(|m| (m.0, m.1, 0)).collect::<Vec<_>>(), "members", "members");
        check_eq!(st.told, want.iter().map(|m| m.0).collect::<Vec<_>>(), "told", "members the collective starts with");
        check!(st.runners.is_empty() && st.cands.is_empty() && st.rounds == 0 && st.prime.is_none(), "start", "{} runners-up, {} candidates, {} rounds, prime {:?}", st.runners.len(), st.cands.len(), st.rounds, st.prime);
        // everybody backs themself with exactly that stake and may leave after the lock period
        let mut votes: Vec<_> = st.voting.iter().map(|(a, v)| (*a, v.votes.clone(), v.stake, v.till)).collect();
        votes.sort();
        check_eq!(votes, want.iter().map(|m| (m.0, vec![m.0], m.1, LockPeriod::get())).collect::<Vec<_>>(), "votes", "votes");
        for (a, m) in &st.money {
            check_eq!((m.total, m.held, m.frozen), (has(*a), 0, 0), "money", "balance, bond and freeze of {a}");
        }
        if want.len() > 1 {
            rec.nontrivial();
        }
        rec.label(["no members", "one member", "several members"][want.len().min(2)]);
        rec.feature(want.len() as u64 * 8 + Desired::get() as u64);
        Ok(())
    })
}

const ASSUME: &[&str] = &[
    "pallet-balances and frame-support behave as documented; sp-npos-elections::seq_phragmen is the reference for the election itself (E01), with E11 as an independent check of its fairness",
    "the collective told of membership changes behaves as pallet-collective: a change forgets the prime",
    "blocks are produced one by one, except that some histories leave out blocks in which nothing is due",
];

//                       vote remv sub ren rem cle bond tr mint block
const W_ALL: [u64; 10] = [24, 3, 16, 5, 3, 1, 1, 1, 1, 18];
const W_FRZ: [u64; 10] = [30, 12, 10, 3, 2, 4, 1, 3, 1, 18];
const W_REP: [u64; 10] = [22, 2, 16, 12, 12, 1, 2, 1, 1, 18];
const W_CLE: [u64; 10] = [26, 3, 12, 12, 5, 14, 1, 1, 1, 16];
const W_CAN: [u64; 10] = [14, 1, 30, 8, 2, 0, 2, 2, 1, 14];

fn main() {
    let p = |id, rule, w: &'static [u64; 10], which| Prop {
        id,
        rule,
        quick: 40_000,
        thorough: 1_600_000,
        case: Box::new(move |s: &mut Src, r: &mut Rec| history(s, r, w, which)),
        assumptions: ASSUME,
        guided: 50,
    };
    pbt::main(vec![
        Prop {
            id: "E14",
            rule: "generated genesis configurations; non-trivial: several members, or a reason to refuse it",
            quick: 60_000,
            thorough: 3_000_000,
            case: Box::new(genesis),
            assumptions: ASSUME,
            guided: 25,
        },
        p("E01", "random histories over 10 or 20 accounts; non-trivial: an election that fills more than one seat", &W_ALL, Which::Outcome),
        p("E02", "random histories; non-trivial: a bond was slashed", &W_REP, Which::Bonds),
        p("E03", "random histories; non-trivial: a vote changed while its lock was in force", &W_FRZ, Which::Freeze),
        p("E04", "random histories; non-trivial: runners-up and candidates exist together", &W_ALL, Which::Sets),
        p("E05", "random histories; non-trivial: a prime chosen among several members", &W_REP, Which::Prime),
        p("E06", "random histories with renunciations and removals; non-trivial: a runner-up replaced a member", &W_REP, Which::Replace),
        p("E07", "random histories of votes; non-trivial: an accepted vote for several candidates", &W_FRZ, Which::Votes),
        p("E08", "random histories with clean-ups; non-trivial: a defunct voter was removed", &W_CLE, Which::Clean),
        p("E09", "random histories of candidacies; non-trivial: an accepted candidacy", &W_CAN, Which::Candidacy),
        p("E10", "random histories; non-trivial: an election was held", &W_ALL, Which::Timing),
        p("E11", "random histories; non-trivial: an election with several voters filling several seats", &W_ALL, Which::Fair),
        p("E12", "random histories; non-trivial: an election took the bond of somebody who stood", &W_REP, Which::Events),
        p("E13", "random histories with weights that tell the kind and amount of work; non-trivial: an election with several voters, some with several votes", &W_ALL, Which::Weights),
    ]);
}
