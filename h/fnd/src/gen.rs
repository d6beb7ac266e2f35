//! Histories: what the next operation is, given the state.
use crate::{model::*, rt::*, st::*};
use frame_support::BoundedVec;
use pallet_funding::*;
use pbt::Src;
use polimec_common::{
    credentials::{Cid, Did, InvestorType},
    migration_types::MigrationStatus,
    PLMC_FOREIGN_ID,
};
use sp_arithmetic::{FixedPointNumber, FixedU128, Percent};
use xcm::v4::prelude::*;
use ProjectStatus as P;

pub fn acc(n: u8) -> Acc {
    Acc::new([n; 32])
}
#[derive(Clone, Debug)]
pub struct User {
    pub acc: Acc,
    pub did: Did,
    pub ty: InvestorType,
}
pub fn did(n: u8) -> Did {
    BoundedVec::try_from(format!("did:polimec:{n}").into_bytes()).unwrap()
}
pub fn cid(n: u8) -> Cid {
    BoundedVec::try_from(format!("Qm{n}").into_bytes()).unwrap()
}
pub struct World {
    pub users: Vec<User>,
    /// how many of evaluations, bids, contributions are aimed at
    pub aim: [usize; 3],
    pub prices_move: bool,
    pub pallet: bool,
    pub wild: u64,
    pub fail: bool,
    /// names longer than the limit of the asset pallet
    pub long_names: bool,
    /// tiny participations, at the minimum of everything
    pub tiny: bool,
    /// large steps in time once settled
    pub far: bool,
}
/// `quick`: few participations, so that the history gets to the migration
pub fn world(s: &mut Src, quick: bool) -> (World, Vec<(Acc, Bal, [Bal; 3])>) {
    use InvestorType::*;
    let mut users = vec![];
    let mut accs = vec![];
    for (n, d, t) in [(1u8, 1u8, Institutional), (2, 2, Institutional), (3, 3, Professional), (4, 4, Retail), (5, 5, Institutional), (6, 5, Institutional), (7, 7, Professional), (8, 8, Retail)] {
        users.push(User { acc: acc(n), did: did(d), ty: t });
        let rich = s.chance(7, 8);
        let plmc = if rich { 10u128.pow(10) * PLMC } else { [0, ED, 2 * ED, 100 * PLMC, 50_000 * PLMC][s.idx(5)] };
        let f = |s: &mut Src| if rich || s.flag() { 10u128.pow(10) } else { [0, 1, 10_000, 1_000_000][s.idx(4)] };
        let x = [f(s) * USD, f(s) * USD, f(s) * 10_000_000_000 / 69];
        accs.push((acc(n), plmc, x));
    }
    let w = World {
        users,
        aim: if quick { [s.range(1, 4) as usize, s.range(0, 3) as usize, s.range(1, 4) as usize] } else { [s.range(0, 6) as usize, s.range(0, 9) as usize, s.range(0, 8) as usize] },
        prices_move: s.chance(1, 4),
        pallet: if quick { s.chance(4, 5) } else { s.flag() },
        wild: *s.pick(&[0, 1, 2, 6]),
        fail: false,
        long_names: s.chance(1, 12),
        tiny: s.chance(1, 4),
        far: s.chance(1, 2),
    };
    (w, accs)
}
fn amount_near(s: &mut Src, xs: &[Bal]) -> Bal {
    let x = *s.pick(xs);
    match s.weighted(&[5, 1, 1, 1]) {
        0 => x,
        1 => x.saturating_add(1),
        2 => x.saturating_sub(1),
        _ => x.saturating_mul(s.range(1, 200) as Bal) / 100,
    }
}
impl World {
    fn jwt(&self, s: &mut Src, u: usize) -> J {
        let x = &self.users[u];
        let mut j = J { origin: x.acc.clone(), sub: x.acc.clone(), did: x.did.clone(), ty: x.ty.clone(), cid: cid(0) };
        if s.chance(1 + self.wild, 60) {
            match s.idx(4) {
                0 => j.sub = self.users[s.idx(8)].acc.clone(),
                1 => j.did = self.users[s.idx(8)].did.clone(),
                2 => j.ty = self.users[s.idx(8)].ty.clone(),
                _ => j.cid = cid(1),
            }
        }
        j
    }
    fn issuer(&self, s: &mut Src, st: &St, pid: u32) -> J {
        let u = match st.det.get(&pid) {
            Some(d) if s.chance(14, 15) => self.users.iter().position(|x| x.acc == d.issuer_account).unwrap_or(0),
            _ => s.idx(8),
        };
        self.jwt(s, u)
    }
    pub fn metadata(&self, s: &mut Src) -> Meta {
        let dec = *s.pick(&[10u8, 18, 6, 12, 7, 15]);
        // price of a whole token, in units of 10^-5 USD
        let whole = match s.weighted(&[4, 1, 1, 2]) {
            0 => *s.pick(&[100_000u128, 1_000_000, 50_000]),
            1 => 1,
            2 => 100_000_000,
            _ => 1 + s.magnitude(26),
        }
        .clamp(1, 100_000_000);
        let usd = match s.weighted(&[6, 1, 1, 2]) {
            0 => *s.pick(&[1_000_000u128, 100_000, 10_000_000]) * USD,
            1 => 1000 * USD,
            2 => 1_000_000_000 * USD,
            _ => (1000 * USD + s.magnitude(50)).min(1_000_000_000 * USD),
        };
        let price = FixedU128::from_rational(whole * 10u128.pow(6), 10u128.pow(5) * 10u128.pow(dec as u32));
        let mut supply = (usd as f64 / (whole as f64 / 1e5 * 1e6) * 10f64.powi(dec as i32)) as u128;
        supply = supply.max(10u128.pow(dec as u32));
        while price.checked_mul_int(supply).map_or(false, |x| x < usd) {
            supply += 1 + supply / 1_000_000;
        }
        let max = |s: &mut Src, min: Bal| match s.weighted(&[6, 1, 2]) {
            0 => None,
            1 => Some(min),
            _ => Some(min.saturating_mul(2 + s.magnitude(8))),
        };
        let mut t = |s: &mut Src, min: Bal| {
            let m = match s.weighted(&[5, 1]) {
                0 => min,
                _ => min * s.range(1, 40) as Bal,
            };
            TicketSize::new(m, max(s, m))
        };
        let mut cur = ASSETS.to_vec();
        if s.chance(1, 3) {
            cur.remove(s.idx(3));
        }
        if s.chance(1, 12) {
            cur.truncate(s.idx(2));
        }
        if s.chance(1, 2) {
            cur.reverse();
        }
        let long = |s: &mut Src, me: &Self| if me.long_names { [51usize, 64, 50][s.idx(3)] } else { [4usize, 0, 50][s.weighted(&[6, 1, 1])] };
        let (a, b) = (long(s, self), long(s, self));
        let mut m = Meta {
            token_information: CurrencyMetadata { name: BoundedVec::try_from(vec![b'n'; a]).unwrap(), symbol: BoundedVec::try_from(vec![b's'; b]).unwrap(), decimals: dec },
            mainnet_token_max_supply: supply + if s.flag() { 0 } else { s.magnitude(100) },
            total_allocation_size: supply,
            auction_round_allocation_percentage: Percent::from_percent(*s.pick(&[50u8, 10, 100, 1, 33, 80])),
            minimum_price: price,
            bidding_ticket_sizes: BiddingTicketSizes { professional: t(s, 5000 * USD), institutional: t(s, 5000 * USD), phantom: Default::default() },
            contributing_ticket_sizes: ContributingTicketSizes { retail: t(s, USD), professional: t(s, USD), institutional: t(s, USD), phantom: Default::default() },
            participation_currencies: BoundedVec::try_from(cur).unwrap(),
            funding_destination_account: if s.flag() { acc(50 + s.idx(2) as u8) } else { acc(1 + s.idx(8) as u8) },
            policy_ipfs_cid: if s.chance(24, 25) { Some(cid(0)) } else { None },
        };
        if s.chance(1 + self.wild, 24) {
            let bad = |s: &mut Src, t: &mut TicketSize, min: Bal| match s.idx(3) {
                0 => t.usd_minimum_per_participation = min - 1,
                1 => t.usd_maximum_per_did = Some(t.usd_minimum_per_participation - 1),
                _ => t.usd_minimum_per_participation = min,
            };
            match s.idx(13) {
                0 => m.minimum_price = FixedU128::from_inner(s.idx(2) as u128),
                1 => bad(s, &mut m.bidding_ticket_sizes.professional, 5000 * USD),
                2 => bad(s, &mut m.bidding_ticket_sizes.institutional, 5000 * USD),
                3 => bad(s, &mut m.contributing_ticket_sizes.retail, USD),
                4 => bad(s, &mut m.contributing_ticket_sizes.professional, USD),
                5 => bad(s, &mut m.contributing_ticket_sizes.institutional, USD),
                6 => m.mainnet_token_max_supply = m.total_allocation_size - 1,
                7 => m.total_allocation_size = amount_near(s, &[0, 10u128.pow(dec as u32), u128::MAX, m.total_allocation_size * 2]),
                8 => m.auction_round_allocation_percentage = Percent::from_percent(0),
                9 => {
                    m.participation_currencies.truncate(2);
                    let x = *s.pick(&ASSETS);
                    let _ = m.participation_currencies.try_push(x);
                },
                10 => m.token_information.decimals = *s.pick(&[0, 4, 5, 6, 18, 19, 20, 38, 255]),
                11 => m.minimum_price = FixedU128::from_inner(s.magnitude(127)),
                _ => {
                    // target just at, below or above its bounds, with a price of 1 USD
                    m.minimum_price = FixedU128::from_rational(1, 10u128.pow(dec as u32 - 6));
                    let usd = amount_near(s, &[1000 * USD, 1_000_000_000 * USD]);
                    m.total_allocation_size = usd * 10u128.pow(dec as u32 - 6);
                    m.mainnet_token_max_supply = u128::MAX;
                },
            }
        }
        m
    }
    fn mode(&self, s: &mut Src, t: &InvestorType) -> ParticipationMode {
        if s.chance(1, 3) {
            return ParticipationMode::OTM;
        }
        let max = max_multiplier(t);
        ParticipationMode::Classic(match s.weighted(&[6, 3, 3, 1]) {
            0 => 1 + s.idx(max as usize) as u8,
            1 => 1,
            2 => max,
            _ => *s.pick(&[0, max + 1, 26, 255]),
        })
    }
    fn asset(&self, s: &mut Src, m: &Meta) -> AcceptedFundingAsset {
        if m.participation_currencies.is_empty() || s.chance(1, 20) { *s.pick(&ASSETS) } else { *s.pick(&m.participation_currencies) }
    }
    fn any_user(&self, s: &mut Src) -> Acc {
        self.users[s.idx(8)].acc.clone()
    }
    fn evaluate(&self, s: &mut Src, st: &St, pid: u32) -> Op {
        let u = s.idx(8);
        let usd = st.det.get(&pid).map_or(100 * USD, |d| {
            let need = d.fundraising_target_usd / 10;
            let left = need.saturating_sub(d.evaluation_round_info.total_bonded_usd);
            if self.tiny { amount_near(s, &[100 * USD, left.max(100 * USD)]) } else { amount_near(s, &[need, need / 2, left, left, need / 3, 100 * USD]) }
        });
        Op::Evaluate(self.jwt(s, u), pid, usd)
    }
    fn bid(&self, s: &mut Src, st: &St, pid: u32) -> Op {
        let Some(m) = st.meta.get(&pid) else {
            let j = self.jwt(s, 2);
            return Op::Bid(j, pid, 1, ParticipationMode::OTM, ASSETS[0]);
        };
        let u = *s.pick(&[2usize, 4, 5, 6, 0, 1, 3]);
        let j = self.jwt(s, u);
        let b = st.bucket[&pid];
        let bounds = if j.ty == InvestorType::Institutional { m.bidding_ticket_sizes.institutional } else { m.bidding_ticket_sizes.professional };
        let min = b.current_price.reciprocal().and_then(|r| r.checked_mul_int(bounds.usd_minimum_per_participation + 1)).unwrap_or(1);
        let max = bounds.usd_maximum_per_did.and_then(|x| b.current_price.reciprocal().and_then(|r| r.checked_mul_int(x))).unwrap_or(b.amount_left);
        let a = allocation(m);
        let xs = if self.tiny { vec![min, min, b.amount_left, max] } else { vec![b.amount_left, b.delta_amount, b.amount_left / 2, a / 3, a, a / 8, min, max, b.amount_left + b.delta_amount * 2] };
        let ct = if s.chance(1, 40) { s.magnitude(90) } else { amount_near(s, &xs).max(min) };
        let (mode, asset) = (self.mode(s, &j.ty), self.asset(s, m));
        Op::Bid(j, pid, ct, mode, asset)
    }
    fn contribute(&self, s: &mut Src, st: &St, pid: u32) -> Op {
        let (Some(m), Some(d)) = (st.meta.get(&pid), st.det.get(&pid)) else {
            let j = self.jwt(s, 3);
            return Op::Contribute(j, pid, 1, ParticipationMode::OTM, ASSETS[0]);
        };
        let u = s.idx(8);
        let j = self.jwt(s, u);
        let bounds = match j.ty {
            InvestorType::Institutional => m.contributing_ticket_sizes.institutional,
            InvestorType::Professional => m.contributing_ticket_sizes.professional,
            InvestorType::Retail => m.contributing_ticket_sizes.retail,
        };
        let r = d.weighted_average_price.unwrap_or(m.minimum_price).reciprocal().unwrap_or(FixedU128::from_inner(1));
        let min = r.saturating_mul_int(bounds.usd_minimum_per_participation + 1);
        let max = bounds.usd_maximum_per_did.map_or(d.remaining_contribution_tokens, |x| r.saturating_mul_int(x));
        let left = d.remaining_contribution_tokens;
        let xs = if self.tiny { vec![min, min, left.saturating_sub(min), left] } else { vec![left, left / 2, left / 4, left / 10, left / 10, min, max] };
        let ct = if s.chance(1, 40) { s.magnitude(100) } else { amount_near(s, &xs) };
        let (mode, asset) = (self.mode(s, &j.ty), self.asset(s, m));
        Op::Contribute(j, pid, ct, mode, asset)
    }
    fn settle(&self, s: &mut Src, st: &St, pid: u32) -> Option<Op> {
        let e: Vec<_> = st.evals.keys().filter(|k| k.0 == pid).collect();
        let b: Vec<_> = st.bids.keys().filter(|k| k.0 == pid).collect();
        let c: Vec<_> = st.cons.keys().filter(|k| k.0 == pid).collect();
        let n = e.len() + b.len() + c.len();
        if n == 0 {
            return None;
        }
        let i = s.idx(n);
        let u = self.any_user(s);
        Some(if i < e.len() {
            Op::SettleEval(u, pid, e[i].1.clone(), e[i].2)
        } else if i < e.len() + b.len() {
            let k = b[i - e.len()];
            Op::SettleBid(u, pid, k.1.clone(), k.2)
        } else {
            let k = c[i - e.len() - b.len()];
            Op::SettleCon(u, pid, k.1.clone(), k.2)
        })
    }
    fn to_end(&self, s: &mut Src, st: &St, d: &Det) -> Op {
        let now = st.now;
        let mut at: Vec<u64> = d.round_duration.end.iter().flat_map(|e| [*e, *e, *e, e - 1, e + 1]).collect();
        if let P::CommunityRound(r) = d.status {
            at.extend([r, r, r - 1]);
        }
        at.retain(|x| *x > now);
        Op::Advance(if at.is_empty() { 1 } else { s.pick(&at) - now })
    }
    fn para(&self, s: &mut Src, pid: u32) -> u32 {
        if s.chance(14, 15) { 2000 + pid } else { 2000 + s.idx(4) as u32 }
    }
    fn from(&self, s: &mut Src, para: u32) -> Option<Location> {
        match s.weighted(&[14, 1, 1, 1]) {
            0 => Some(Location::new(1, [Parachain(para)])),
            1 => None,
            2 => Some(Location::new(1, [Parachain(para + 1)])),
            _ => Some(s.pick(&[Location::parent(), Location::new(0, [Parachain(para)]), Location::new(1, [Parachain(para), PalletInstance(3)])]).clone()),
        }
    }
    fn ready(&self, s: &mut Src, st: &St, pid: u32, d: &Det, i: &PalletMigrationInfo) -> Op {
        let para = u32::from(i.parachain_id);
        let c = i.migration_readiness_check;
        let (h, p) = c.map_or((0, 1), |c| (c.holding_check.0, c.pallet_check.0));
        let from = self.from(s, para);
        let holding = match c {
            Some(c) if s.chance(9, 10) => c.holding_check.1 == CheckOutcome::AwaitingResponse && (c.pallet_check.1 != CheckOutcome::AwaitingResponse || s.flag()),
            _ => s.flag(),
        };
        let q = if s.chance(1, 15) { *s.pick(&[h, p, st.queries, 0]) } else if holding { h } else { p };
        let sold = st.meta.get(&pid).map_or(0, |m| m.total_allocation_size - d.remaining_contribution_tokens);
        let r = if holding {
            let n = match s.weighted(&[10, 2, 1, 1]) {
                0 => sold,
                1 => sold.saturating_sub(1),
                2 => sold + 1,
                _ => s.magnitude(100),
            };
            let loc = match s.weighted(&[12, 1, 1]) {
                0 => Location::new(1, [Parachain(para)]),
                1 => Location::new(1, [Parachain(para + 1)]),
                _ => Location::here(),
            };
            let a = Asset { id: AssetId(loc.clone()), fun: Fungible(n.max(1)) };
            match s.weighted(&[14, 1, 1, 1]) {
                0 => Response::Assets(vec![a].into()),
                1 => Response::Assets(vec![].into()),
                2 => Response::Assets(vec![Asset { id: AssetId(loc), fun: NonFungible(AssetInstance::Index(1)) }].into()),
                _ => Response::Assets(vec![a, Asset { id: AssetId(Location::new(1, [Parachain(9)])), fun: Fungible(5) }].into()),
            }
        } else {
            let pi = |i: u32, n: &[u8]| PalletInfo::new(i, b"m".to_vec(), n.to_vec(), 1, 0, 0).unwrap();
            let good = pi(*s.pick(&[51u32, 0, 255, 51, 52]), b"polimec_receiver");
            let v = match s.weighted(&[12, 1, 1, 1, 1]) {
                0 => vec![good],
                1 => vec![],
                2 => vec![pi(256 + s.idx(3) as u32 * 255, b"polimec_receiver")],
                3 => vec![pi(51, *s.pick::<&[u8]>(&[b"polimec_receive", b"", b"polimec_receiver2"]))],
                _ => vec![good.clone(), good],
            };
            Response::PalletsInfo(v.try_into().unwrap())
        };
        let r = if s.chance(1, 20) { Response::Null } else { r };
        Op::ReadyResponse(from, q, Box::new(r))
    }
    fn migrate(&self, s: &mut Src, st: &St, pid: u32, d: &Det) -> Op {
        let ms: Vec<_> = st.migr.iter().filter(|(k, _)| k.0 == pid).collect();
        let open: Vec<_> = ms.iter().filter(|(_, v)| v.0 != MigrationStatus::Confirmed).collect();
        let one = |s: &mut Src| if !open.is_empty() && s.chance(14, 15) { open[s.idx(open.len())].0 .1.clone() } else { self.any_user(s) };
        let caller = if s.chance(14, 15) { d.issuer_account.clone() } else { self.any_user(s) };
        if open.is_empty() && s.chance(3, 4) {
            return Op::MarkMigrated(self.any_user(s), pid);
        }
        match &d.migration_type {
            Some(MigrationType::Pallet(i)) => {
                let ready = i.migration_readiness_check.map_or(false, |c| c.is_ready());
                let sent: Vec<_> = st.queue.keys().collect();
                let (w, open_here) = (i.hrmp_channel_status, ChannelStatus::Open);
                let k = if s.chance(1, 12) {
                    s.idx(7)
                } else if w.project_to_polimec != open_here {
                    0
                } else if w.polimec_to_project != open_here || i.migration_readiness_check.is_none() {
                    1
                } else if !ready {
                    let c = i.migration_readiness_check.unwrap();
                    if (c.holding_check.1 == CheckOutcome::Failed || c.pallet_check.1 == CheckOutcome::Failed) && s.chance(2, 3) { 2 } else { 3 }
                } else if !sent.is_empty() && s.flag() {
                    4
                } else {
                    5
                };
                match k {
                    0 => {
                        let good = s.chance(6, 7);
                        let size = if good { *s.pick(&[50_000, 102_400, 60_000]) } else { *s.pick(&[49_999, 102_401, 0, u32::MAX, 50_000]) };
                        let cap = if good { *s.pick(&[8, 1000, 9]) } else { *s.pick(&[7, 1001, 0, u32::MAX, 8]) };
                        Op::ChannelRequest(self.para(s, pid), size, cap)
                    },
                    1 => Op::ChannelAccepted(self.para(s, pid)),
                    2 => Op::Readiness(self.issuer(s, st, pid), pid),
                    3 => self.ready(s, st, pid, d, i),
                    4 => {
                        let q = if sent.is_empty() || s.chance(1, 15) { s.range(0, st.queries + 1) } else { *sent[s.idx(sent.len())] };
                        let para = u32::from(i.parachain_id);
                        let r = match s.weighted(&[8, 2, 1, 1]) {
                            0 => Response::DispatchResult(MaybeErrorCode::Success),
                            1 => Response::DispatchResult(MaybeErrorCode::Error(vec![1, 2].try_into().unwrap())),
                            2 => Response::DispatchResult(MaybeErrorCode::TruncatedError(vec![1].try_into().unwrap())),
                            _ => s.pick(&[Response::Null, Response::Version(4), Response::ExecutionResult(None)]).clone(),
                        };
                        Op::ConfirmPallet(self.from(s, para), q, Box::new(r))
                    },
                    5 => Op::SendMigration(self.any_user(s), pid, one(s)),
                    _ => Op::ConfirmOffchain(caller, pid, one(s)),
                }
            },
            _ => match s.weighted(&[12, 1, 1]) {
                0 => Op::ConfirmOffchain(caller, pid, one(s)),
                1 => Op::SendMigration(self.any_user(s), pid, one(s)),
                _ => Op::ChannelRequest(self.para(s, pid), 60_000, 8),
            },
        }
    }
    pub fn next(&self, s: &mut Src, st: &St) -> Op {
        if self.prices_move && s.chance(1, 25) {
            let a = *s.pick(&[PLMC_FOREIGN_ID, 10, 1337, 1984]);
            let p = price(a).into_inner();
            return Op::Price(a, (p / 100 * s.range(40, 250) as u128).clamp(10u128.pow(16), 10u128.pow(20)));
        }
        if s.chance(1, 90) || (self.fail && s.chance(1, 3)) {
            return Op::FailSend(!self.fail);
        }
        let n = st.next[0];
        if n == 0 || (n < 4 && s.chance(1, if n == 1 { 30 } else { 120 })) {
            let u = *s.pick(&[0usize, 1, 4, 5]);
            return Op::Create(self.jwt(s, u), Box::new(self.metadata(s)));
        }
        let live: Vec<u32> = st.det.keys().copied().collect();
        let pid = if live.is_empty() || s.chance(1, 60) { s.idx(n as usize + 1) as u32 } else { live[s.idx(live.len())] };
        let Some(d) = st.det.get(&pid) else {
            return self.anything(s, st, pid);
        };
        if s.chance(1 + self.wild, 40) {
            return self.anything(s, st, pid);
        }
        let u = self.any_user(s);
        let count = |x: u32| x as usize;
        match d.status {
            P::Application => match s.weighted(&[10, 2, 1]) {
                0 => Op::StartEval(self.issuer(s, st, pid), pid),
                1 => {
                    let j = self.issuer(s, st, pid);
                    Op::Edit(j, pid, Box::new(self.metadata(s)))
                },
                _ => Op::Remove(self.issuer(s, st, pid), pid),
            },
            P::EvaluationRound => {
                if d.round_duration.end.map_or(false, |e| e <= st.now) {
                    Op::EndEval(u, pid)
                } else if count(*st.eval_counts.get(&pid).unwrap_or(&0)) < self.aim[0] && s.chance(9, 10) {
                    self.evaluate(s, st, pid)
                } else if d.evaluation_round_info.total_bonded_usd < d.fundraising_target_usd / 10 && s.chance(3, 4) {
                    self.evaluate(s, st, pid)
                } else {
                    self.to_end(s, st, d)
                }
            },
            P::AuctionRound => {
                if d.round_duration.end.map_or(false, |e| e <= st.now) {
                    Op::EndAuction(u, pid)
                } else if count(*st.bid_counts.get(&pid).unwrap_or(&0)) < self.aim[1] && s.chance(14, 15) {
                    self.bid(s, st, pid)
                } else {
                    self.to_end(s, st, d)
                }
            },
            P::CommunityRound(_) => {
                if d.remaining_contribution_tokens == 0 && s.chance(2, 3) {
                    return Op::EndFunding(u, pid);
                }
                if s.chance(1, 12) {
                    if let Some(x) = st.bids.values().find(|b| b.project_id == pid && (b.status == BidStatus::Rejected || s.chance(1, 6))) {
                        return Op::SettleBid(u, pid, x.bidder.clone(), x.id);
                    }
                }
                let c = st.cons.keys().filter(|k| k.0 == pid).count();
                if d.round_duration.end.map_or(false, |e| e <= st.now) {
                    Op::EndFunding(u, pid)
                } else if c < self.aim[2] && s.chance(10, 11) {
                    self.contribute(s, st, pid)
                } else {
                    self.to_end(s, st, d)
                }
            },
            P::FundingFailed | P::FundingSuccessful => Op::StartSettlement(u, pid),
            P::SettlementStarted(_) => {
                if self.far && s.chance(1, 12) {
                    return self.later(s, st, pid);
                }
                self.settle(s, st, pid).unwrap_or(Op::MarkSettled(u, pid))
            },
            P::SettlementFinished(FundingOutcome::Success) => {
                let j = self.issuer(s, st, pid);
                if self.pallet { Op::StartPallet(j, pid, 2000 + pid) } else { Op::StartOffchain(j, pid) }
            },
            P::CTMigrationStarted => {
                if self.far && s.chance(1, 12) {
                    return self.later(s, st, pid);
                }
                self.migrate(s, st, pid, d)
            },
            P::SettlementFinished(_) | P::CTMigrationFinished => {
                if s.chance(1, 2) {
                    self.later(s, st, pid)
                } else {
                    let u = *s.pick(&[0usize, 1, 4]);
                    if n < 4 { Op::Create(self.jwt(s, u), Box::new(self.metadata(s))) } else { self.anything(s, st, pid) }
                }
            },
        }
    }
    fn later(&self, s: &mut Src, st: &St, pid: u32) -> Op {
        match s.weighted(&[4, 5, 3]) {
            0 => Op::Advance(match s.weighted(&[2, 3, 1]) {
                0 => s.range(1, 50),
                1 => s.range(1, 500_000),
                _ => 4_000_000,
            }),
            1 => {
                let v: Vec<_> = st.vest.keys().collect();
                if v.is_empty() { Op::Vest(self.any_user(s)) } else { Op::Vest(v[s.idx(v.len())].clone()) }
            },
            _ => Op::BondsBack(self.any_user(s), pid),
        }
    }
    /// an operation out of its place
    fn anything(&self, s: &mut Src, st: &St, pid: u32) -> Op {
        let u = self.any_user(s);
        let id = s.range(0, 6) as u32;
        match s.idx(24) {
            0 => Op::Create(self.issuer(s, st, pid), Box::new(self.metadata(s))),
            1 => {
                let j = self.issuer(s, st, pid);
                Op::Edit(j, pid, Box::new(self.metadata(s)))
            },
            2 => Op::Remove(self.issuer(s, st, pid), pid),
            3 => Op::StartEval(self.issuer(s, st, pid), pid),
            4 => self.evaluate(s, st, pid),
            5 => Op::EndEval(u, pid),
            6 => self.bid(s, st, pid),
            7 => Op::EndAuction(u, pid),
            8 => self.contribute(s, st, pid),
            9 => Op::EndFunding(u, pid),
            10 => Op::StartSettlement(u, pid),
            11 | 12 => self.settle(s, st, pid).unwrap_or(Op::SettleBid(u.clone(), pid, u, id)),
            13 => Op::SettleCon(u, pid, self.any_user(s), id),
            14 => Op::MarkSettled(u, pid),
            15 => Op::StartOffchain(self.issuer(s, st, pid), pid),
            16 => Op::ConfirmOffchain(u, pid, self.any_user(s)),
            17 => Op::StartPallet(self.issuer(s, st, pid), pid, 2000 + pid),
            18 => Op::Readiness(self.issuer(s, st, pid), pid),
            19 => Op::SendMigration(u, pid, self.any_user(s)),
            20 => Op::MarkMigrated(u, pid),
            21 => {
                if s.flag() {
                    Op::ChannelAccepted(self.para(s, pid))
                } else {
                    Op::ChannelRequest(self.para(s, pid), 60_000, 8)
                }
            },
            22 => self.later(s, st, pid),
            _ => Op::Advance(s.range(1, 12)),
        }
    }
}
