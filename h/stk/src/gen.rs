//! Histories: the start, and what the next operation is, given the state.
use crate::{model::*, rt::*, st::*};
use frame_support::traits::BuildGenesisConfig;
use pallet_parachain_staking::*;
use pbt::Src;
use sp_arithmetic::{Perbill, Percent};
use sp_runtime::BuildStorage;

pub struct World {
    /// amounts are of this size
    pub unit: Bal,
    pub wild: u64,
    /// how often which kind of operation
    pub weights: Vec<u64>,
    pub accs: u64,
}
pub fn world(s: &mut Src) -> World {
    MaxTop::set(*s.pick(&[2, 1, 3, 4]));
    MaxBottom::set(*s.pick(&[2, 1, 3]));
    MaxDelegationsPerDelegator::set(*s.pick(&[4, 2, 1, 3]));
    for f in [LeaveCandidatesDelay::set, CandidateBondLessDelay::set, LeaveDelegatorsDelay::set, RevokeDelegationDelay::set, DelegationBondLessDelay::set] {
        f(*s.pick(&[1, 0, 2, 3]));
    }
    RewardPaymentDelay::set(*s.pick(&[1, 2, 3]));
    MinBlocksPerRound::set(*s.pick(&[3, 2]));
    MinSelectedCandidates::set(*s.pick(&[1, 2]));
    let unit = *s.pick(&[1, 1, 1, 1_000_000_007, 10_000_000_000_000]);
    MinCandidateStk::set(*s.pick(&[10, 3]) * unit);
    MinDelegatorStk::set(*s.pick(&[5, 3, 8]) * unit);
    MinDelegation::set(3 * unit);
    World { unit, wild: *s.pick(&[1, 0, 4]), weights: (0..8).map(|_| *s.pick(&[3, 1, 6])).collect(), accs: *s.pick(&[12, 7, 16]) }
}
type Start = (Vec<(Acc, Bal)>, GenesisConfig<Test>);
pub fn start(s: &mut Src, w: &World) -> (sp_io::TestExternalities, St, Start) {
    let mut bal: Vec<(Acc, Bal)> = ACCS.map(|a| (a, ED + w.unit * if s.chance(5, 6) { 1000 } else { s.below(40) as Bal })).collect();
    bal.push((PAYMASTER, ED + w.unit * if s.chance(6, 7) { 1_000_000 } else { s.below(500) as Bal }));
    let mut cands = vec![];
    for _ in 0..*s.pick(&[3, 0, 1, 2, 4, 6]) {
        let a = s.range(1, 8);
        let x = w.amount(s, MinCandidateStk::get());
        if bal[a as usize - 1].1 >= ED + x + cands.iter().filter(|c: &&(Acc, Bal)| c.0 == a).map(|c| c.1).sum::<Bal>() {
            cands.push((a, x));
        }
    }
    let mut dels = vec![];
    if !cands.is_empty() {
        for _ in 0..*s.pick(&[2, 0, 5, 8]) {
            let a = s.range(5, 16);
            let x = w.amount(s, MinDelegatorStk::get());
            let c = cands[s.idx(cands.len())].0;
            let taken: Bal = dels.iter().filter(|d: &&(Acc, Acc, Bal, Percent)| d.0 == a).map(|d| d.2).sum::<Bal>() + cands.iter().filter(|c| c.0 == a).map(|c| c.1).sum::<Bal>();
            if bal[a as usize - 1].1 >= ED + x + taken {
                dels.push((a, c, x, Percent::from_percent(*s.pick(&[0, 50, 100]))));
            }
        }
    }
    let len = *s.pick(&[3, 4, 6, 9]).max(&MinBlocksPerRound::get());
    let selected = (MinSelectedCandidates::get() + s.below(3) as u32).min(len - 1).max(MinSelectedCandidates::get());
    let e = sorted([w.unit * s.below(200) as Bal, w.unit * s.below(400) as Bal, w.unit * s.below(800) as Bal]);
    let p = |s: &mut Src| Perbill::from_parts(*s.pick(&[1_000_000, 0, 50_000_000, 3, 777_777]));
    let mut q = [p(s), p(s), p(s)];
    q.sort();
    let g = GenesisConfig::<Test> {
        candidates: cands.clone(),
        delegations: dels.clone(),
        inflation_config: InflationInfo {
            expect: Range { min: e[0], ideal: e[1], max: e[2] },
            annual: Range { min: q[0], ideal: q[1], max: q[2] },
            round: Range { min: q[0], ideal: q[1], max: q[2] },
        },
        collator_commission: Perbill::from_parts(*s.pick(&[200_000_000, 0, 1_000_000_000, 333_333_333])),
        parachain_bond_reserve_percent: Percent::from_percent(*s.pick(&[0, 30])),
        blocks_per_round: len,
        num_selected_candidates: selected,
    };
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    pallet_balances::GenesisConfig::<Test> { balances: bal.clone() }.assimilate_storage(&mut t).unwrap();
    let mut ext = sp_io::TestExternalities::new(t);
    ext.execute_with(|| g.build());
    // the same by the reference
    let got = ext.execute_with(snap);
    let blank = St { free: bal.iter().copied().collect(), ..Default::default() };
    let mut m = M { s: blank, got: &got };
    for (a, x) in &cands {
        let h = m.s.pool.len() as u32;
        let _ = m.step(&Op::Join(*a, *x, h));
    }
    for (a, c, x, p) in &dels {
        let _ = m.step(&Op::DelegateAuto(*a, *c, *x, pct(*p), 99, 99, 99));
    }
    m.s.commission = g.collator_commission;
    m.s.bond_info = (0, pct(g.parachain_bond_reserve_percent));
    m.s.total_selected = selected;
    m.s.expect = e;
    m.s.annual = q.map(|x| x.deconstruct());
    m.s.rate = m.s.annual;
    // selecting for round 1 is what a new round does
    m.s.round = (0, 0, 0);
    let session = m.s.session.clone();
    let now = m.s.now;
    m.step(&Op::Block).unwrap();
    m.s.session = session;
    m.s.now = now;
    m.s.round = (1, 0, len);
    let want = m.s;
    (ext, want, (bal, g))
}
pub fn sorted<T: Ord, const N: usize>(mut x: [T; N]) -> [T; N] {
    x.sort();
    x
}
impl World {
    /// near `min`, with many ties
    pub fn amount(&self, s: &mut Src, min: Bal) -> Bal {
        match s.weighted(&[5, 3, 1, 1]) {
            0 => min + self.unit * s.below(6) as Bal,
            1 => min + self.unit * s.below(60) as Bal,
            2 => min.saturating_sub(s.below(3) as Bal),
            _ => min + s.magnitude(20),
        }
    }
    fn hint(&self, s: &mut Src, n: usize) -> u32 {
        match s.weighted(&[12, 4, 1 + self.wild / 2]) {
            0 => n as u32,
            1 => n as u32 + s.below(30) as u32,
            _ => (n as u32).saturating_sub(1),
        }
    }
    fn acc(&self, s: &mut Src) -> Acc {
        s.range(1, self.accs)
    }
    fn some(&self, s: &mut Src, v: Vec<Acc>) -> Acc {
        if v.is_empty() || s.chance(self.wild, 40) {
            self.acc(s)
        } else {
            v[s.idx(v.len())]
        }
    }
    /// a delegation: (delegator, candidate)
    fn delegation(&self, s: &mut Src, st: &St, f: impl Fn(Acc, Acc) -> bool) -> (Acc, Acc) {
        let v: Vec<(Acc, Acc)> = st.dels.iter().flat_map(|(d, x)| x.bonds.iter().map(|b| (*d, b.0))).filter(|x| f(x.0, x.1)).collect();
        if v.is_empty() || s.chance(self.wild, 40) {
            let all: Vec<Acc> = st.cands.keys().copied().collect();
            (self.some(s, st.dels.keys().copied().collect()), self.some(s, all))
        } else {
            v[s.idx(v.len())]
        }
    }
    fn gov(&self, s: &mut Src) -> Option<Acc> {
        if s.chance(1, 12) { Some(self.acc(s)) } else { None }
    }
    /// what is left of the smallest bond of a delegation, now and then exactly
    fn less(&self, s: &mut Src, have: Bal, keep: Bal) -> Bal {
        let room = have.saturating_sub(keep);
        match s.weighted(&[3, 3, 1, 1]) {
            0 => room,
            1 => s.below((room / self.unit + 1).min(1 << 40) as u64) as Bal * self.unit,
            2 => room + 1,
            _ => room.saturating_sub(1),
        }
    }
    pub fn next(&mut self, s: &mut Src, st: &St) -> Op {
        let by = s.range(1, 16);
        let w = [self.weights[0], 2 * self.weights[1], self.weights[2], self.weights[3], self.weights[4], 1, 3 * self.weights[5], self.weights[6]];
        match s.weighted(&w) {
            // candidates
            0 => match s.weighted(&[4, 2, 3, 1, 1, 1, 2, 2, 2, 1]) {
                0 => {
                    let v = (1..=8).filter(|a| !st.cands.contains_key(a) && !st.dels.contains_key(a)).collect();
                    let a = self.some(s, v);
                    Op::Join(a, self.amount(s, MinCandidateStk::get()), self.hint(s, st.pool.len()))
                },
                1 => {
                    let v = st.cands.iter().filter(|c| c.1.status.0 != 2).map(|c| *c.0).collect();
                    Op::Leave(self.some(s, v), self.hint(s, st.pool.len()))
                },
                2 => {
                    let due = st.cands.iter().filter(|c| c.1.status.0 == 2 && c.1.status.1 <= st.round.0).map(|c| *c.0).collect::<Vec<_>>();
                    let v = if due.is_empty() { st.cands.iter().filter(|c| c.1.status.0 == 2).map(|c| *c.0).collect() } else { due };
                    let c = self.some(s, v);
                    Op::ExecLeave(by, c, self.hint(s, st.cands.get(&c).map_or(0, |m| m.count as usize)))
                },
                3 => {
                    let v = st.cands.iter().filter(|c| c.1.status.0 == 2).map(|c| *c.0).collect();
                    Op::CancelLeave(self.some(s, v), self.hint(s, st.pool.len()))
                },
                4 => Op::Offline(self.some(s, st.cands.iter().filter(|c| c.1.status.0 == 0).map(|c| *c.0).collect())),
                5 => Op::Online(self.some(s, st.cands.iter().filter(|c| c.1.status.0 == 1).map(|c| *c.0).collect())),
                6 => {
                    let a = self.some(s, st.cands.keys().copied().collect());
                    let spare = st.free.get(&a).copied().unwrap_or(0).saturating_sub(ED);
                    Op::More(a, if s.chance(1, 8) { spare + s.below(2) as Bal } else { self.amount(s, self.unit) })
                },
                7 => {
                    let a = self.some(s, st.cands.iter().filter(|c| c.1.request.is_none()).map(|c| *c.0).collect());
                    Op::Less(a, self.less(s, st.cands.get(&a).map_or(0, |m| m.bond), MinCandidateStk::get()))
                },
                8 => {
                    let due = st.cands.iter().filter(|c| c.1.request.map_or(false, |q| q.1 <= st.round.0)).map(|c| *c.0).collect::<Vec<_>>();
                    let v = if due.is_empty() { st.cands.iter().filter(|c| c.1.request.is_some()).map(|c| *c.0).collect() } else { due };
                    Op::ExecLess(by, self.some(s, v))
                },
                _ => Op::CancelLess(self.some(s, st.cands.iter().filter(|c| c.1.request.is_some()).map(|c| *c.0).collect())),
            },
            // delegations
            1 => {
                let c = self.some(s, st.cands.keys().copied().collect());
                let v = (4..=self.accs).filter(|a| !st.cands.contains_key(a) && st.dels.get(a).map_or(true, |d| d.bonds.iter().all(|b| b.0 != c) && (d.bonds.len() as u32) < MaxDelegationsPerDelegator::get())).collect();
                let a = self.some(s, v);
                let m = st.cands.get(&c).cloned().unwrap_or_default();
                let min = if st.dels.contains_key(&a) { MinDelegation::get() } else { MinDelegatorStk::get() };
                let x = match s.weighted(&[4, 2, 2, 1]) {
                    0 => self.amount(s, min),
                    1 => m.lowest_top + s.below(2) as Bal,
                    2 => m.lowest_bottom + s.below(2) as Bal,
                    _ => st.free.get(&a).copied().unwrap_or(0).saturating_sub(ED) + s.below(2) as Bal,
                };
                let hd = self.hint(s, st.dels.get(&a).map_or(0, |d| d.bonds.len()));
                let hc = self.hint(s, m.count as usize);
                if s.flag() {
                    let p = *s.pick(&[50, 0, 100, 1, 33]);
                    Op::DelegateAuto(a, c, x, p, hc, self.hint(s, st.auto.keys().filter(|k| k.0 == c).count()), hd)
                } else {
                    Op::Delegate(a, c, x, hc, hd)
                }
            },
            2 => {
                let (a, c) = self.delegation(s, st, |d, c| !st.reqs.get(&(c, d)).map_or(false, |q| q.1));
                let b = st.dels.get(&a).and_then(|d| d.bonds.iter().find(|b| b.0 == c)).map_or(0, |b| b.1);
                let m = st.cands.get(&c).cloned().unwrap_or_default();
                let x = match s.weighted(&[4, 2, 1]) {
                    0 => self.amount(s, self.unit),
                    1 => (m.lowest_top + s.below(3) as Bal).saturating_sub(b),
                    _ => st.free.get(&a).copied().unwrap_or(0).saturating_sub(ED) + s.below(2) as Bal,
                };
                Op::DelMore(a, c, x)
            },
            // requests
            3 => match s.weighted(&[4, 4, 2, 1]) {
                0 => {
                    let (a, c) = self.delegation(s, st, |d, c| !st.reqs.contains_key(&(c, d)));
                    Op::Revoke(a, c)
                },
                1 => {
                    let (a, c) = self.delegation(s, st, |d, c| !st.reqs.contains_key(&(c, d)));
                    let d = st.dels.get(&a).cloned().unwrap_or_default();
                    let b = d.bonds.iter().find(|b| b.0 == c).map_or(0, |b| b.1);
                    let m = st.cands.get(&c).cloned().unwrap_or_default();
                    let x = match s.weighted(&[2, 2, 1, 2]) {
                        0 => self.less(s, b, MinDelegation::get()),
                        1 => self.less(s, d.total.saturating_sub(d.less), MinDelegatorStk::get()),
                        2 => s.below(3) as Bal,
                        _ => (b + s.below(2) as Bal).saturating_sub(m.highest_bottom),
                    };
                    Op::DelLess(a, c, x)
                },
                2 => Op::LeaveAll(self.some(s, st.dels.keys().copied().collect())),
                _ => {
                    let (a, c) = self.delegation(s, st, |d, c| st.reqs.contains_key(&(c, d)));
                    Op::CancelReq(a, c)
                },
            },
            4 => match s.weighted(&[5, 2, 1]) {
                0 => {
                    let due = |d, c| st.reqs.get(&(c, d)).map_or(false, |q: &Req| q.0 <= st.round.0);
                    let any = st.reqs.iter().any(|((c, d), _)| due(*d, *c));
                    let (a, c) = self.delegation(s, st, |d, c| if any { due(d, c) } else { st.reqs.contains_key(&(c, d)) });
                    Op::ExecReq(by, a, c)
                },
                1 => {
                    let v = st.dels.iter().filter(|(a, d)| d.bonds.iter().all(|b| st.reqs.get(&(b.0, **a)).map_or(false, |q| q.1))).map(|x| *x.0).collect();
                    let a = self.some(s, v);
                    Op::ExecLeaveAll(by, a, self.hint(s, st.dels.get(&a).map_or(0, |d| d.bonds.len())))
                },
                _ => {
                    let v = st.dels.iter().filter(|(a, d)| d.bonds.iter().all(|b| st.reqs.get(&(b.0, **a)).map_or(false, |q| q.1))).map(|x| *x.0).collect();
                    Op::CancelLeaveAll(self.some(s, v))
                },
            },
            5 => match s.weighted(&[2, 2, 1, 1, 3, 2, 3, 1]) {
                0 => {
                    let mut e = [0, 0, 0].map(|_: u8| self.unit * s.below(600) as Bal);
                    if s.chance(5, 6) {
                        e.sort();
                    }
                    Op::Expect(self.gov(s), e)
                },
                1 => {
                    let mut e = [0, 0, 0].map(|_: u8| *s.pick(&[50_000_000u32, 0, 1, 1_000_000_000, 123_456_789, 20_000_000]));
                    if s.chance(5, 6) {
                        e.sort();
                    }
                    Op::Inflation(self.gov(s), e)
                },
                2 => Op::BondAccount(self.gov(s), s.below(3)),
                3 => Op::BondPercent(self.gov(s), s.below(101) as u8),
                4 => Op::Selected(self.gov(s), s.range(0, 8) as u32),
                5 => Op::Commission(self.gov(s), *s.pick(&[200_000_000, 0, 1_000_000_000, 1])),
                6 => Op::Length(self.gov(s), if s.chance(1, 6) { *s.pick(&[YEAR_BLOCKS, YEAR_BLOCKS + 1, 600, u32::MAX, 1800]) } else { s.range(1, 10) as u32 }),
                _ => Op::Hotfix(by, (0..s.below(3)).map(|_| self.acc(s)).collect()),
            },
            6 => {
                if !st.selected.is_empty() && s.chance(1, 2) {
                    Op::Author(if s.chance(1, 12) { self.acc(s) } else { st.selected[s.idx(st.selected.len())] })
                } else {
                    Op::Block
                }
            },
            _ => {
                let (a, c) = self.delegation(s, st, |_, _| true);
                Op::Auto(a, c, *s.pick(&[50, 0, 100, 1, 33]), self.hint(s, st.auto.keys().filter(|k| k.0 == c).count()), self.hint(s, st.dels.get(&a).map_or(0, |d| d.bonds.len())))
            },
        }
    }
}
