//! What each operation does, as a function from state to state, written from the documentation and the calls' contracts.
use crate::{rt::*, st::*};
use pallet_funding::*;
use pallet_proxy_bonding::ReleaseType;
use parity_scale_codec::Encode;
use polimec_common::{
    credentials::InvestorType,
    migration_types::{Migration, MigrationInfo, MigrationOrigin, MigrationStatus, Migrations, ParticipationType},
    PLMC_DECIMALS, PLMC_FOREIGN_ID,
};
use sp_arithmetic::traits::{Saturating, Zero};
use sp_arithmetic::{FixedPointNumber, FixedU128, Perbill, Percent, Perquintill};
use std::collections::BTreeMap;
use xcm::v4::prelude::*;
use ProjectStatus as P;

pub const USD: Bal = 1_000_000;
type R<T = ()> = Result<T, &'static str>;

pub struct M<'a> {
    pub s: St,
    pub got: &'a St,
    /// the outcome lies in a corner of another pallet's rules (existential deposits): success and refusal both count
    pub maybe: bool,
    /// deviations that are written down as known findings, met on the way
    pub found: Vec<&'static str>,
}

pub fn aware(asset: u32) -> FixedU128 {
    let d = match asset {
        PLMC_FOREIGN_ID => PLMC_DECIMALS,
        10 => 10,
        _ => 6,
    };
    FixedU128::checked_from_rational(price(asset).checked_mul_int(USD).unwrap(), 10u128.pow(d as u32)).unwrap()
}
pub fn amount(asset: u32, usd: Bal) -> R<Bal> {
    aware(asset).reciprocal().and_then(|r| r.checked_mul_int(usd)).ok_or("price")
}
pub fn vesting(multiplier: u8) -> u64 {
    ((2167 * (multiplier as u64 - 1) * 7 * 7200) / 1000).max(1)
}
pub fn bond(usd: Bal, multiplier: u8) -> R<Bal> {
    if multiplier == 0 {
        return Err("multiplier");
    }
    amount(PLMC_FOREIGN_ID, usd / multiplier as u128)
}
pub fn fee(bond: Bal, asset: u32) -> R<Bal> {
    let usd = aware(PLMC_FOREIGN_ID).saturating_mul_int(bond);
    let fee: Bal = FeePercentage::get() * usd;
    Ok(aware(asset).reciprocal().ok_or("price")?.saturating_mul_int(fee))
}
pub fn max_multiplier(t: &InvestorType) -> u8 {
    match t {
        InvestorType::Retail => 5,
        InvestorType::Professional => 10,
        InvestorType::Institutional => 25,
    }
}
pub fn allocation(m: &Meta) -> Bal {
    m.auction_round_allocation_percentage * m.total_allocation_size
}
pub fn slash_part(original: Bal) -> Bal {
    Percent::from_percent(20) * original
}
/// fee of the platform in USD for what was raised: 10% of the first million, 8% of the next four, 6% of the rest
pub fn fee_usd(reached: Bal) -> Bal {
    let a = reached.min(1_000_000 * USD);
    let b = (reached - a).min(4_000_000 * USD);
    let c = reached - a - b;
    Percent::from_percent(10) * a + Percent::from_percent(8) * b + Percent::from_percent(6) * c
}
pub fn fee_tokens(m: &Meta, d: &Det) -> Bal {
    let sold = m.total_allocation_size - d.remaining_contribution_tokens;
    Perquintill::from_rational(fee_usd(d.funding_amount_reached_usd), d.funding_amount_reached_usd) * sold
}
pub fn reward(e: &Eval, i: &RewardInfo) -> Bal {
    let early = Perquintill::from_rational(e.early_usd_amount, i.early_evaluator_total_bonded_usd) * i.early_evaluator_reward_pot;
    let all = Perquintill::from_rational(e.early_usd_amount + e.late_usd_amount, i.normal_evaluator_total_bonded_usd) * i.normal_evaluator_reward_pot;
    early + all
}
pub fn locked_at((locked, per_block, start): &Sched, now: u64) -> Bal {
    locked.saturating_sub(per_block.saturating_mul(now.saturating_sub(*start) as Bal))
}
/// the metadata a project may have
pub fn valid(m: &Meta) -> bool {
    let t = |x: &TicketSize, min: Bal| x.usd_minimum_per_participation >= min && x.usd_maximum_per_did.map_or(true, |y| y >= x.usd_minimum_per_participation);
    let dec = m.token_information.decimals;
    let mut cur = m.participation_currencies.to_vec();
    cur.sort();
    cur.dedup();
    if m.minimum_price.is_zero() || m.total_allocation_size == 0 || !(6..=18).contains(&dec) {
        return false;
    }
    let Some(target) = m.minimum_price.checked_mul_int(m.total_allocation_size) else { return false };
    // the price of a whole token
    let Some(whole) = m.minimum_price.into_inner().checked_mul(10u128.pow(dec as u32 - 6)) else { return false };
    t(&m.bidding_ticket_sizes.professional, 5000 * USD)
        && t(&m.bidding_ticket_sizes.institutional, 5000 * USD)
        && t(&m.contributing_ticket_sizes.retail, USD)
        && t(&m.contributing_ticket_sizes.professional, USD)
        && t(&m.contributing_ticket_sizes.institutional, USD)
        && m.total_allocation_size <= m.mainnet_token_max_supply
        && m.total_allocation_size >= 10u128.pow(dec as u32)
        && !m.auction_round_allocation_percentage.is_zero()
        && cur.len() == m.participation_currencies.len()
        && (1000 * USD..=1_000_000_000 * USD).contains(&target)
        && (10u128.pow(13)..=1000 * 10u128.pow(18)).contains(&whole)
}

pub fn wap(bids: &[&Bid], m: &Meta, b: &BucketOf<Test>) -> FixedU128 {
    if b.current_price == b.initial_price {
        return b.initial_price;
    }
    let mut groups: BTreeMap<FixedU128, Bal> = BTreeMap::new();
    for x in bids {
        *groups.entry(x.original_ct_usd_price).or_default() += x.original_ct_amount;
    }
    let mut left = allocation(m);
    let mut v: Vec<(Bal, FixedU128)> = vec![];
    for (p, a) in groups.iter().rev() {
        if left == 0 {
            break;
        }
        if *p == b.initial_price {
            break;
        }
        left = left.saturating_sub(*a);
        v.push((p.saturating_mul_int(*a), *p));
    }
    if left > 0 {
        v.push((b.initial_price.saturating_mul_int(left), b.initial_price));
    }
    let sum = v.iter().fold(0u128, |a, x| a.saturating_add(x.0));
    v.iter().map(|(u, p)| FixedU128::saturating_from_rational(*u, sum).saturating_mul(*p)).fold(FixedU128::from_inner(0), |a, x| a.saturating_add(x)).max(b.initial_price)
}

impl M<'_> {
    fn free(&self, a: &Acc) -> Bal {
        *self.s.free.get(a).unwrap_or(&0)
    }
    fn set_free(&mut self, a: &Acc, x: Bal) {
        if x == 0 { self.s.free.remove(a) } else { self.s.free.insert(a.clone(), x) };
    }
    fn held(&self, a: &Acc, r: u8) -> Bal {
        *self.s.held.get(&(a.clone(), r)).unwrap_or(&0)
    }
    fn set_held(&mut self, a: &Acc, r: u8, x: Bal) {
        if x == 0 { self.s.held.remove(&(a.clone(), r)) } else { self.s.held.insert((a.clone(), r), x) };
    }
    /// take from what is free, keeping the existential deposit
    fn take_free(&mut self, a: &Acc, x: Bal, why: &'static str) -> R {
        let f = self.free(a);
        if x == 0 {
            return Ok(());
        }
        if x > f {
            return Err(why);
        }
        if x + ED > f {
            self.maybe = true;
        }
        self.set_free(a, f - x);
        Ok(())
    }
    fn hold(&mut self, a: &Acc, r: u8, x: Bal) -> R {
        self.take_free(a, x, "not enough PLMC")?;
        let h = self.held(a, r);
        self.set_held(a, r, h + x);
        Ok(())
    }
    fn release(&mut self, a: &Acc, r: u8, x: Bal) -> R {
        let h = self.held(a, r);
        if h < x {
            return Err("less is held");
        }
        self.set_held(a, r, h - x);
        let f = self.free(a);
        self.set_free(a, f + x);
        Ok(())
    }
    fn fa(&self, id: u32, a: &Acc) -> Bal {
        *self.s.fa.get(&(id, a.clone())).unwrap_or(&0)
    }
    fn set_fa(&mut self, id: u32, a: &Acc, x: Bal) {
        if x == 0 { self.s.fa.remove(&(id, a.clone())) } else { self.s.fa.insert((id, a.clone()), x) };
    }
    fn pay(&mut self, id: u32, from: &Acc, to: &Acc, x: Bal, keep: bool) -> R {
        let min = minimum(id);
        let f = self.fa(id, from);
        if x == 0 {
            self.maybe = true;
            return Ok(());
        }
        if x > f {
            return Err("not enough of the asset");
        }
        let rest = f - x;
        if keep && rest < min {
            return Err("the account would die");
        }
        if from == to {
            return Ok(());
        }
        let t = self.fa(id, to);
        if t + x < min {
            if !keep {
                self.found.push("payout below the minimum of the asset to an account that has none");
            }
            return Err("below the minimum of the asset");
        }
        if rest > 0 && rest < min {
            self.found.push("what is left in the account is below the minimum of the asset and burned");
        }
        self.set_fa(id, from, if rest < min { 0 } else { rest });
        self.set_fa(id, to, t + x);
        Ok(())
    }
    fn mint(&mut self, pid: u32, a: &Acc, x: Bal) {
        if x > 0 {
            *self.s.ct.entry((pid, a.clone())).or_default() += x;
        }
        *self.s.supply.get_mut(&pid).unwrap() += x;
    }
    fn det(&self, pid: u32) -> R<Det> {
        self.s.det.get(&pid).cloned().ok_or("no such project")
    }
    fn meta(&self, pid: u32) -> R<Meta> {
        self.s.meta.get(&pid).cloned().ok_or("no such project")
    }
    /// what of an evaluation may become a participation bond
    pub fn convertible(&self, pid: u32, who: &Acc) -> Bal {
        self.s.evals.values().filter(|e| e.project_id == pid && e.evaluator == *who).map(|e| e.current_plmc_bond.saturating_sub(slash_part(e.original_plmc_bond))).sum()
    }
    /// bond `x` in total for participations, evaluation bonds first (of which evaluation is left to the code)
    fn bond_classic(&mut self, pid: u32, who: &Acc, x: Bal) -> R {
        let conv = x.min(self.convertible(pid, who));
        if conv > 0 {
            if self.free(who) < ED {
                self.maybe = true;
            }
            let mut left = conv;
            let mut ours = self.s.evals.clone();
            let mut good = true;
            let mut sum = 0;
            for (k, e) in ours.iter_mut().filter(|(k, _)| k.0 == pid && k.1 == *who) {
                let avail = e.current_plmc_bond.saturating_sub(slash_part(e.original_plmc_bond));
                let n = left.min(avail);
                left -= n;
                match self.got.evals.get(k) {
                    Some(g) if g.current_plmc_bond <= e.current_plmc_bond && e.current_plmc_bond - g.current_plmc_bond <= avail => sum += e.current_plmc_bond - g.current_plmc_bond,
                    _ => good = false,
                }
                e.current_plmc_bond -= n;
            }
            if good && sum == conv {
                for (k, e) in ours.iter_mut().filter(|(k, _)| k.0 == pid && k.1 == *who) {
                    e.current_plmc_bond = self.got.evals[k].current_plmc_bond;
                }
            }
            self.s.evals = ours;
            let h = self.held(who, EVA);
            self.set_held(who, EVA, h - conv);
            let h = self.held(who, PAR);
            self.set_held(who, PAR, h + conv);
        }
        self.hold(who, PAR, x - conv)
    }
    fn bond_otm(&mut self, pid: u32, who: &Acc, x: Bal, asset: u32) -> R {
        let b = bonding(pid);
        self.pay(asset, who, &b, fee(x, asset)?, true)?;
        if x == 0 {
            self.maybe = true;
        }
        if self.free(&b) < ED {
            self.take_free(&BondTreasury::get(), ED, "treasury empty")?;
            let f = self.free(&b);
            self.set_free(&b, f + ED);
        }
        self.take_free(&BondTreasury::get(), x, "treasury empty")?;
        let h = self.held(&b, PAR);
        self.set_held(&b, PAR, h + x);
        Ok(())
    }
    fn credential(j: &J) -> R {
        if j.origin == j.sub { Ok(()) } else { Err("the credential is for somebody else") }
    }
    fn issuer_credential(j: &J) -> R {
        Self::credential(j)?;
        if j.ty == InvestorType::Institutional { Ok(()) } else { Err("not institutional") }
    }
    fn transition(&mut self, pid: u32, d: Det, next: P<u64>, dur: Option<u64>) {
        let now = self.s.now;
        self.s.det.insert(pid, Det { status: next, round_duration: BlockNumberPair::new(Some(now), dur.map(|x| now + x - 1)), ..d });
    }
    fn over(&self, d: &Det) -> bool {
        d.round_duration.end.map_or(true, |e| e <= self.s.now)
    }
    /// participations are taken from the first block of the round up to, not including, its last
    fn open(&self, d: &Det) -> bool {
        d.round_duration.start.map_or(true, |e| e <= self.s.now) && !self.over(d)
    }
    fn fresh(&self, j_acc: &Acc, did: polimec_common::credentials::Did, m: &Meta) -> R<(Det, BucketOf<Test>)> {
        let a = allocation(m);
        Ok((
            Det {
                issuer_account: j_acc.clone(),
                issuer_did: did,
                is_frozen: false,
                weighted_average_price: None,
                status: P::Application,
                round_duration: BlockNumberPair::new(None, None),
                fundraising_target_usd: m.minimum_price.checked_mul_int(m.total_allocation_size).ok_or("range")?,
                remaining_contribution_tokens: m.total_allocation_size,
                funding_amount_reached_usd: 0,
                evaluation_round_info: EvaluationRoundInfo { total_bonded_usd: 0, total_bonded_plmc: 0, evaluators_outcome: None },
                usd_bid_on_oversubscription: None,
                funding_end_block: None,
                migration_type: None,
            },
            Bucket { amount_left: a, current_price: m.minimum_price, initial_price: m.minimum_price, delta_price: m.minimum_price.saturating_mul(FixedU128::from_rational(1, 10)), delta_amount: Percent::from_percent(10) * a },
        ))
    }
    fn query(&mut self, para: u32, call: u8) -> u64 {
        let q = self.s.queries;
        self.s.queries += 1;
        self.s.asked.insert(q, (Location::new(1, [Parachain(para)]), (52, call)));
        q
    }
    fn send(&mut self, to: Location, x: Xcm<()>, fail: bool) -> R {
        if fail {
            return Err("not sent");
        }
        self.s.sent.push((to, digest(&x)));
        Ok(())
    }
    fn migration(&mut self, pid: u32, a: &Acc, id: u32, t: ParticipationType, amount: Bal, time: u64) {
        let user = Location::new(0, AccountId32 { network: None, id: a.clone().into() });
        let m = Migration::new(MigrationOrigin { user, id, participation_type: t }, MigrationInfo { contribution_token_amount: amount, vesting_time: time });
        match self.s.migr.get_mut(&(pid, a.clone())) {
            Some(x) => x.1.push(m),
            None => {
                self.s.migr.insert((pid, a.clone()), (MigrationStatus::NotStarted, vec![m]));
                *self.s.unmigrated.entry(pid).or_default() += 1;
            },
        }
    }
    /// the bond of a successful participation: released at once for a multiplier of one, otherwise over the vesting time
    fn vest_bond(&mut self, a: &Acc, x: Bal, mode: ParticipationMode, start: u64) -> R<u64> {
        let d = vesting(mode.multiplier());
        if let ParticipationMode::Classic(_) = mode {
            if d == 1 {
                self.release(a, PAR, x)?;
            } else if x > 0 {
                let per = (x / d as Bal).max(1);
                let now = self.s.now;
                let v = self.s.vest.entry(a.clone()).or_default();
                v.retain(|q| locked_at(q, now) > 0);
                v.push((x, per, start));
            }
        }
        Ok(d)
    }
    fn migration_done(&mut self, pid: u32) {
        let n = self.s.unmigrated.get(&pid).copied().unwrap_or(0);
        if n <= 1 { self.s.unmigrated.remove(&pid) } else { self.s.unmigrated.insert(pid, n - 1) };
    }
    fn pallet_by_para(&self, para: u32) -> R<u32> {
        self.s
            .det
            .iter()
            .find(|(_, d)| d.status == P::CTMigrationStarted && matches!(&d.migration_type, Some(MigrationType::Pallet(i)) if u32::from(i.parachain_id) == para))
            .map(|x| *x.0)
            .ok_or("no project migrates to that chain")
    }
    fn readiness(&mut self, caller: &Acc, pid: u32, fail: bool) -> R {
        let mut d = self.det(pid)?;
        let Some(MigrationType::Pallet(ref mut i)) = d.migration_type else { return Err("no pallet migration") };
        if d.status != P::CTMigrationStarted {
            return Err("round");
        }
        if i.hrmp_channel_status != (HRMPChannelStatus { project_to_polimec: ChannelStatus::Open, polimec_to_project: ChannelStatus::Open }) {
            return Err("channels");
        }
        match i.migration_readiness_check {
            None if *caller != pallet_account() => return Err("the first check is automatic"),
            Some(PalletMigrationReadinessCheck { holding_check: (_, CheckOutcome::Failed), pallet_check: (_, CheckOutcome::Failed) }) if *caller != d.issuer_account => return Err("not the issuer"),
            Some(_) if *caller != d.issuer_account && *caller != pallet_account() => return Err("not the issuer"),
            _ => (),
        }
        let para: u32 = i.parachain_id.into();
        let (h, p) = (self.query(para, 23), self.query(para, 23));
        i.migration_readiness_check = Some(PalletMigrationReadinessCheck { holding_check: (h, CheckOutcome::AwaitingResponse), pallet_check: (p, CheckOutcome::AwaitingResponse) });
        self.s.det.insert(pid, d);
        let own = Location::new(1, [Parachain(3344)]);
        let info = |q| QueryResponseInfo { destination: own.clone(), query_id: q, max_weight: Default::default() };
        let x = Xcm(vec![
            UnpaidExecution { weight_limit: Unlimited, check_origin: None },
            WithdrawAsset(vec![Asset::from((Location::here(), self.s.supply.get(&pid).copied().unwrap_or(0)))].into()),
            ReportHolding { response_info: info(h), assets: Wild(All) },
            QueryPallet { module_name: b"polimec_receiver".to_vec(), response_info: info(p) },
            DepositAsset { assets: Wild(All), beneficiary: own.clone() },
        ]);
        self.send(Location::new(1, [Parachain(para)]), x, fail)
    }

    pub fn step(&mut self, op: &Op, fail: bool) -> R {
        let now = self.s.now;
        match op {
            Op::Create(j, m) => {
                Self::issuer_credential(j)?;
                if self.s.active.contains_key(&j.did) {
                    return Err("has an active project");
                }
                if !valid(m) {
                    return Err("metadata");
                }
                let (d, b) = self.fresh(&j.origin, j.did.clone(), m)?;
                let pid = self.s.next[0];
                let f = self.free(&j.origin);
                if f < 2 * ED {
                    if f >= ED && self.s.held.keys().any(|k| k.0 == j.origin) {
                        self.maybe = true;
                    } else {
                        return Err("the issuer cannot pay the deposit");
                    }
                }
                self.set_free(&j.origin, f - ED);
                let e = self.free(&escrow(pid));
                self.set_free(&escrow(pid), e + ED);
                self.s.meta.insert(pid, (**m).clone());
                self.s.det.insert(pid, d);
                self.s.bucket.insert(pid, b);
                self.s.next[0] += 1;
                self.s.active.insert(j.did.clone(), pid);
            },
            Op::Edit(j, pid, m) => {
                Self::issuer_credential(j)?;
                let d = self.det(*pid)?;
                if d.issuer_account != j.origin || d.is_frozen {
                    return Err("not the issuer, or frozen");
                }
                if !valid(m) {
                    return Err("metadata");
                }
                let (d, b) = self.fresh(&j.origin, d.issuer_did, m)?;
                self.s.meta.insert(*pid, (**m).clone());
                self.s.det.insert(*pid, d);
                self.s.bucket.insert(*pid, b);
            },
            Op::Remove(j, pid) => {
                Self::issuer_credential(j)?;
                let d = self.det(*pid)?;
                if d.issuer_account != j.origin || d.is_frozen {
                    return Err("not the issuer, or frozen");
                }
                self.s.meta.remove(pid);
                self.s.det.remove(pid);
                self.s.bucket.remove(pid);
                self.s.active.remove(&d.issuer_did);
            },
            Op::StartEval(j, pid) => {
                Self::issuer_credential(j)?;
                let (d, m) = (self.det(*pid)?, self.meta(*pid)?);
                if d.issuer_account != j.origin || d.is_frozen || m.policy_ipfs_cid.is_none() || d.status != P::Application {
                    return Err("not the issuer, no policy, or started");
                }
                self.transition(*pid, Det { is_frozen: true, ..d }, P::EvaluationRound, Some(EVALUATION));
            },
            Op::Evaluate(j, pid, usd) => {
                Self::credential(j)?;
                let (mut d, m) = (self.det(*pid)?, self.meta(*pid)?);
                if m.policy_ipfs_cid.as_ref() != Some(&j.cid) {
                    return Err("policy");
                }
                if *usd < 100 * USD || d.issuer_did == j.did || d.status != P::EvaluationRound || !self.open(&d) {
                    return Err("amount, issuer or round");
                }
                let mine = self.s.evals.keys().filter(|k| k.0 == *pid && k.1 == j.origin).count() as u32;
                if self.s.eval_counts.get(pid).copied().unwrap_or(0) >= MAX_EVALS || mine >= MAX_EVALS_USER {
                    return Err("too many");
                }
                let b = amount(PLMC_FOREIGN_ID, *usd)?;
                self.hold(&j.origin, EVA, b)?;
                let threshold: Bal = Percent::from_percent(10) * d.fundraising_target_usd;
                let early = threshold.saturating_sub(d.evaluation_round_info.total_bonded_usd).min(*usd);
                let id = self.s.next[1];
                self.s.next[1] += 1;
                self.s.evals.insert(
                    (*pid, j.origin.clone(), id),
                    Eval { id, did: j.did.clone(), project_id: *pid, evaluator: j.origin.clone(), original_plmc_bond: b, current_plmc_bond: b, early_usd_amount: early, late_usd_amount: usd - early, when: now },
                );
                d.evaluation_round_info.total_bonded_usd += usd;
                d.evaluation_round_info.total_bonded_plmc += b;
                self.s.det.insert(*pid, d);
                *self.s.eval_counts.entry(*pid).or_default() += 1;
            },
            Op::EndEval(_, pid) => {
                let d = self.det(*pid)?;
                if d.status != P::EvaluationRound || !self.over(&d) {
                    return Err("round");
                }
                let threshold: Bal = Percent::from_percent(10) * d.fundraising_target_usd;
                if d.evaluation_round_info.total_bonded_usd >= threshold {
                    self.transition(*pid, d, P::AuctionRound, Some(AUCTION));
                } else {
                    self.s.active.remove(&d.issuer_did);
                    self.transition(*pid, d, P::FundingFailed, Some(1));
                }
            },
            Op::Bid(j, pid, ct, mode, asset) => {
                Self::credential(j)?;
                let (d, m) = (self.det(*pid)?, self.meta(*pid)?);
                let mut b = *self.s.bucket.get(pid).ok_or("no bucket")?;
                let bounds = match j.ty {
                    InvestorType::Institutional => m.bidding_ticket_sizes.institutional,
                    InvestorType::Professional => m.bidding_ticket_sizes.professional,
                    _ => return Err("retail"),
                };
                if m.policy_ipfs_cid.as_ref() != Some(&j.cid) {
                    return Err("policy");
                }
                if *ct == 0 || j.did == d.issuer_did || d.status != P::AuctionRound || !self.open(&d) {
                    return Err("amount, issuer or round");
                }
                if !m.participation_currencies.contains(asset) {
                    return Err("asset");
                }
                if b.current_price.checked_mul_int(*ct).ok_or("range")? < bounds.usd_minimum_per_participation || *ct > allocation(&m) {
                    return Err("amount");
                }
                if mode.multiplier() == 0 || mode.multiplier() > max_multiplier(&j.ty) {
                    return Err("multiplier");
                }
                let mut mine = self.s.bids.keys().filter(|k| k.0 == *pid && k.1 == j.origin).count() as u32;
                let mut left = *ct;
                let mut bonds = 0;
                while left > 0 {
                    let n = left.min(b.amount_left);
                    if mine >= MAX_BIDS_USER || self.s.bid_counts.get(pid).copied().unwrap_or(0) >= MAX_BIDS {
                        return Err("too many");
                    }
                    let ticket = b.current_price.checked_mul_int(n).ok_or("range")?;
                    let total = self.s.bid_usd.entry((*pid, j.did.clone())).or_default();
                    *total += ticket;
                    if bounds.usd_maximum_per_did.map_or(false, |x| *total > x) {
                        return Err("above the maximum");
                    }
                    let plmc = bond(ticket, mode.multiplier())?;
                    let locked = amount(asset.id(), ticket)?;
                    match mode {
                        ParticipationMode::Classic(_) => bonds += plmc,
                        ParticipationMode::OTM => self.bond_otm(*pid, &j.origin, plmc, asset.id())?,
                    }
                    self.pay(asset.id(), &j.origin, &escrow(*pid), locked, true)?;
                    let id = self.s.next[2];
                    self.s.next[2] += 1;
                    self.s.bids.insert(
                        (*pid, j.origin.clone(), id),
                        Bid {
                            id,
                            project_id: *pid,
                            bidder: j.origin.clone(),
                            did: j.did.clone(),
                            status: BidStatus::YetUnknown,
                            original_ct_amount: n,
                            original_ct_usd_price: b.current_price,
                            funding_asset: *asset,
                            funding_asset_amount_locked: locked,
                            mode: *mode,
                            plmc_bond: plmc,
                            when: now,
                        },
                    );
                    *self.s.bid_counts.entry(*pid).or_default() += 1;
                    mine += 1;
                    left -= n;
                    b.amount_left -= n;
                    if b.amount_left == 0 {
                        b.amount_left = b.delta_amount;
                        b.current_price = b.current_price.saturating_add(b.delta_price);
                    }
                }
                if let ParticipationMode::Classic(_) = mode {
                    self.bond_classic(*pid, &j.origin, bonds)?;
                }
                self.s.bucket.insert(*pid, b);
            },
            Op::EndAuction(_, pid) => {
                let (mut d, m) = (self.det(*pid)?, self.meta(*pid)?);
                if d.status != P::AuctionRound || !self.over(&d) {
                    return Err("round");
                }
                let mut bids: Vec<Bid> = self.s.bids.values().filter(|b| b.project_id == *pid).cloned().collect();
                bids.sort_by(|a, b| b.original_ct_usd_price.cmp(&a.original_ct_usd_price).then(a.id.cmp(&b.id)));
                let w = wap(&bids.iter().collect::<Vec<_>>(), &m, &self.s.bucket[pid]);
                let mut left = allocation(&m);
                for b in &mut bids {
                    let n = left.min(b.original_ct_amount);
                    left -= n;
                    b.status = if n == b.original_ct_amount {
                        BidStatus::Accepted
                    } else if n > 0 {
                        BidStatus::PartiallyAccepted(n)
                    } else {
                        BidStatus::Rejected
                    };
                    if n > 0 {
                        self.s.winners.insert((*pid, b.did.clone()));
                        d.remaining_contribution_tokens -= n;
                        d.funding_amount_reached_usd += b.original_ct_usd_price.min(w).saturating_mul_int(n);
                    }
                    self.s.bids.insert((*pid, b.bidder.clone(), b.id), b.clone());
                }
                d.weighted_average_price = Some(w);
                self.transition(*pid, d, P::CommunityRound(now + COMMUNITY), Some(COMMUNITY + REMAINDER));
            },
            Op::Contribute(j, pid, ct, mode, asset) => {
                Self::credential(j)?;
                let (mut d, m) = (self.det(*pid)?, self.meta(*pid)?);
                let P::CommunityRound(remainder) = d.status else { return Err("round") };
                if !self.open(&d) || (self.s.winners.contains(&(*pid, j.did.clone())) && now < remainder) {
                    return Err("round, or a winner before the remainder period");
                }
                let n = (*ct).min(d.remaining_contribution_tokens);
                if n == 0 {
                    return Err("nothing to buy");
                }
                d.remaining_contribution_tokens -= n;
                if m.policy_ipfs_cid.as_ref() != Some(&j.cid) {
                    return Err("policy");
                }
                let ticket = d.weighted_average_price.ok_or("no price")?.checked_mul_int(n).ok_or("range")?;
                let bounds = match j.ty {
                    InvestorType::Institutional => m.contributing_ticket_sizes.institutional,
                    InvestorType::Professional => m.contributing_ticket_sizes.professional,
                    InvestorType::Retail => m.contributing_ticket_sizes.retail,
                };
                if mode.multiplier() == 0 || mode.multiplier() > max_multiplier(&j.ty) {
                    return Err("multiplier");
                }
                if !m.participation_currencies.contains(asset) || j.did == d.issuer_did {
                    return Err("asset or issuer");
                }
                if self.s.cons.keys().filter(|k| k.0 == *pid && k.1 == j.origin).count() as u32 >= MAX_CONTRIBS_USER {
                    return Err("too many");
                }
                if ticket < bounds.usd_minimum_per_participation && d.remaining_contribution_tokens > 0 {
                    return Err("below the minimum");
                }
                let total = self.s.con_usd.entry((*pid, j.did.clone())).or_default();
                *total += ticket;
                if bounds.usd_maximum_per_did.map_or(false, |x| *total > x) {
                    return Err("above the maximum");
                }
                if *total == 0 {
                    self.s.con_usd.remove(&(*pid, j.did.clone()));
                }
                let plmc = bond(ticket, mode.multiplier())?;
                let locked = amount(asset.id(), ticket)?;
                match mode {
                    ParticipationMode::Classic(_) => self.bond_classic(*pid, &j.origin, plmc)?,
                    ParticipationMode::OTM => self.bond_otm(*pid, &j.origin, plmc, asset.id())?,
                }
                self.pay(asset.id(), &j.origin, &escrow(*pid), locked, true)?;
                let id = self.s.next[3];
                self.s.next[3] += 1;
                self.s.cons.insert(
                    (*pid, j.origin.clone(), id),
                    Con {
                        id,
                        did: j.did.clone(),
                        project_id: *pid,
                        contributor: j.origin.clone(),
                        ct_amount: n,
                        usd_contribution_amount: ticket,
                        mode: *mode,
                        funding_asset: *asset,
                        funding_asset_amount: locked,
                        plmc_bond: plmc,
                        when: now,
                    },
                );
                d.funding_amount_reached_usd += ticket;
                self.s.det.insert(*pid, d);
            },
            Op::EndFunding(_, pid) => {
                let (mut d, m) = (self.det(*pid)?, self.meta(*pid)?);
                if !matches!(d.status, P::CommunityRound(_)) || !(self.over(&d) || d.remaining_contribution_tokens == 0) {
                    return Err("round");
                }
                self.s.active.remove(&d.issuer_did);
                if d.funding_amount_reached_usd * 100 >= 33 * d.fundraising_target_usd {
                    let pot = Perquintill::from_percent(30) * fee_tokens(&m, &d);
                    let e = &mut d.evaluation_round_info;
                    let threshold: Bal = Percent::from_percent(10) * d.fundraising_target_usd;
                    e.evaluators_outcome = Some(EvaluatorsOutcome::Rewarded(RewardInfo {
                        early_evaluator_reward_pot: Perquintill::from_percent(20) * pot,
                        normal_evaluator_reward_pot: Perquintill::from_percent(80) * pot,
                        early_evaluator_total_bonded_usd: e.total_bonded_usd.min(threshold),
                        normal_evaluator_total_bonded_usd: e.total_bonded_usd,
                    }));
                    self.transition(*pid, d, P::FundingSuccessful, None);
                } else {
                    d.evaluation_round_info.evaluators_outcome = Some(EvaluatorsOutcome::Slashed);
                    self.transition(*pid, d, P::FundingFailed, None);
                }
            },
            Op::StartSettlement(_, pid) => {
                let (d, m) = (self.det(*pid)?, self.meta(*pid)?);
                if !self.over(&d) {
                    return Err("round");
                }
                match d.status {
                    P::FundingFailed => {
                        self.s.releases.insert(*pid, ReleaseType::Refunded);
                        self.transition(*pid, Det { funding_end_block: Some(now), ..d }, P::SettlementStarted(FundingOutcome::Failure), None);
                    },
                    P::FundingSuccessful => {
                        let t = &m.token_information;
                        if t.name.len() as u32 > CT_STRING || t.symbol.len() as u32 > CT_STRING {
                            self.found.push("a name or symbol longer than the limit of the asset pallet keeps settlement from starting");
                            return Err("name or symbol too long for the asset pallet");
                        }
                        self.s.releases.insert(*pid, ReleaseType::Locked(now + vesting(5)));
                        self.s.supply.insert(*pid, 0);
                        self.s.ct_meta.insert(*pid, (t.name.to_vec(), t.symbol.to_vec(), t.decimals));
                        let f = fee_tokens(&m, &d);
                        self.mint(*pid, &CtTreasury::get(), Perquintill::from_percent(50) * f);
                        self.mint(*pid, &CtTreasury::get(), Perquintill::from_percent(20) * f);
                        self.transition(*pid, Det { funding_end_block: Some(now), ..d }, P::SettlementStarted(FundingOutcome::Success), None);
                    },
                    _ => return Err("round"),
                }
            },
            Op::SettleEval(_, pid, a, id) => {
                let k = (*pid, a.clone(), *id);
                let e = self.s.evals.get(&k).cloned().ok_or("no such evaluation")?;
                let d = self.det(*pid)?;
                if !matches!(d.status, P::SettlementStarted(_)) {
                    return Err("round");
                }
                match d.evaluation_round_info.evaluators_outcome {
                    Some(EvaluatorsOutcome::Slashed) => {
                        let x = slash_part(e.original_plmc_bond);
                        let h = self.held(a, EVA);
                        if h < x {
                            return Err("less is held");
                        }
                        self.set_held(a, EVA, h - x);
                        let f = self.free(&OpsTreasury::get());
                        self.set_free(&OpsTreasury::get(), f + x);
                        self.release(a, EVA, e.current_plmc_bond - x)?;
                    },
                    Some(EvaluatorsOutcome::Rewarded(i)) => {
                        self.release(a, EVA, e.current_plmc_bond)?;
                        let n = reward(&e, &i);
                        self.mint(*pid, a, n);
                        if n > 0 {
                            self.migration(*pid, a, *id, ParticipationType::Evaluation, n, 1);
                        }
                    },
                    None => self.release(a, EVA, e.current_plmc_bond)?,
                }
                self.s.evals.remove(&k);
            },
            Op::SettleBid(_, pid, a, id) => {
                let k = (*pid, a.clone(), *id);
                let b = self.s.bids.get(&k).cloned().ok_or("no such bid")?;
                let (d, m) = (self.det(*pid)?, self.meta(*pid)?);
                let started = matches!(d.status, P::SettlementStarted(_));
                if !started && b.status != BidStatus::Rejected {
                    return Err("round");
                }
                let w = d.weighted_average_price.ok_or("no price")?;
                let asset = b.funding_asset.id();
                let success = d.status == P::SettlementStarted(FundingOutcome::Success) && b.status != BidStatus::Rejected;
                let n = if success { b.final_ct_amount() } else { 0 };
                let ticket = b.original_ct_usd_price.min(w).checked_mul_int(n).ok_or("range")?;
                let (back_plmc, back) = if success {
                    (b.plmc_bond.saturating_sub(bond(ticket, b.mode.multiplier())?), b.funding_asset_amount_locked.saturating_sub(amount(asset, ticket)?))
                } else {
                    (b.plmc_bond, b.funding_asset_amount_locked)
                };
                if back > 0 {
                    self.pay(asset, &escrow(*pid), a, back, false)?;
                }
                match b.mode {
                    ParticipationMode::OTM => {
                        if back_plmc > ED {
                            self.refund_fee(*pid, a, back_plmc, asset)?;
                        }
                    },
                    ParticipationMode::Classic(_) => self.release(a, PAR, back_plmc)?,
                }
                if success {
                    let t = self.vest_bond(a, b.plmc_bond - back_plmc, b.mode, d.funding_end_block.ok_or("no end")?)?;
                    self.mint(*pid, a, n);
                    self.migration(*pid, a, *id, ParticipationType::Bid, n, t);
                    if b.funding_asset_amount_locked > back {
                        self.pay(asset, &escrow(*pid), &m.funding_destination_account, b.funding_asset_amount_locked - back, false)?;
                    }
                }
                self.s.bids.remove(&k);
            },
            Op::SettleCon(_, pid, a, id) => {
                let k = (*pid, a.clone(), *id);
                let c = self.s.cons.get(&k).cloned().ok_or("no such contribution")?;
                let (d, m) = (self.det(*pid)?, self.meta(*pid)?);
                let P::SettlementStarted(ref outcome) = d.status else { return Err("round") };
                let asset = c.funding_asset.id();
                if *outcome == FundingOutcome::Failure {
                    if c.funding_asset_amount > 0 {
                        self.pay(asset, &escrow(*pid), a, c.funding_asset_amount, false)?;
                    }
                    match c.mode {
                        ParticipationMode::OTM => self.refund_fee(*pid, a, c.plmc_bond, asset)?,
                        ParticipationMode::Classic(_) => self.release(a, PAR, c.plmc_bond)?,
                    }
                } else {
                    let t = self.vest_bond(a, c.plmc_bond, c.mode, d.funding_end_block.ok_or("no end")?)?;
                    self.mint(*pid, a, c.ct_amount);
                    if c.funding_asset_amount > 0 {
                        self.pay(asset, &escrow(*pid), &m.funding_destination_account, c.funding_asset_amount, false)?;
                    }
                    self.migration(*pid, a, *id, ParticipationType::Contribution, c.ct_amount, t);
                }
                self.s.cons.remove(&k);
            },
            Op::MarkSettled(_, pid) => {
                let d = self.det(*pid)?;
                let P::SettlementStarted(ref o) = d.status else { return Err("round") };
                if self.s.evals.keys().any(|k| k.0 == *pid) || self.s.bids.keys().any(|k| k.0 == *pid) || self.s.cons.keys().any(|k| k.0 == *pid) {
                    return Err("not everything is settled");
                }
                let o = o.clone();
                self.transition(*pid, d, P::SettlementFinished(o), None);
            },
            Op::StartOffchain(j, pid) => {
                Self::issuer_credential(j)?;
                let d = self.det(*pid)?;
                if d.issuer_account != j.origin || d.status != P::SettlementFinished(FundingOutcome::Success) {
                    return Err("not the issuer, or round");
                }
                self.transition(*pid, Det { migration_type: Some(MigrationType::Offchain), ..d }, P::CTMigrationStarted, None);
            },
            Op::ConfirmOffchain(caller, pid, a) => {
                let d = self.det(*pid)?;
                if d.status != P::CTMigrationStarted || d.issuer_account != *caller {
                    return Err("not the issuer, or round");
                }
                let k = (*pid, a.clone());
                let (st, _) = self.s.migr.get(&k).cloned().ok_or("no migrations")?;
                match (&d.migration_type, &st) {
                    (_, MigrationStatus::Confirmed) => return Err("already confirmed"),
                    (Some(MigrationType::Offchain), _) | (Some(MigrationType::Pallet(_)), MigrationStatus::Sent(_)) => (),
                    _ => return Err("not allowed"),
                }
                self.s.migr.get_mut(&k).unwrap().0 = MigrationStatus::Confirmed;
                self.migration_done(*pid);
            },
            Op::StartPallet(j, pid, para) => {
                Self::issuer_credential(j)?;
                let d = self.det(*pid)?;
                if d.issuer_account != j.origin || d.status != P::SettlementFinished(FundingOutcome::Success) {
                    return Err("not the issuer, or round");
                }
                let i = PalletMigrationInfo {
                    parachain_id: (*para).into(),
                    hrmp_channel_status: HRMPChannelStatus { project_to_polimec: ChannelStatus::Closed, polimec_to_project: ChannelStatus::Closed },
                    migration_readiness_check: None,
                };
                self.transition(*pid, Det { migration_type: Some(MigrationType::Pallet(i)), ..d }, P::CTMigrationStarted, None);
            },
            Op::Readiness(j, pid) => {
                Self::issuer_credential(j)?;
                self.readiness(&j.origin, *pid, fail)?;
            },
            Op::ReadyResponse(l, q, r) => {
                let l = l.as_ref().ok_or("not a response")?;
                let mut hit = None;
                for (p, d) in &self.s.det {
                    if let Some(MigrationType::Pallet(i)) = &d.migration_type {
                        if let Some(c) = i.migration_readiness_check {
                            if c.holding_check.0 == *q || c.pallet_check.0 == *q {
                                hit = Some((*p, u32::from(i.parachain_id), c));
                            }
                        }
                    }
                }
                let (pid, para, mut c) = hit.ok_or("no such query")?;
                if *l != Location::new(1, [Parachain(para)]) {
                    return Err("wrong chain");
                }
                let d = self.det(pid)?;
                let sold = self.meta(pid)?.total_allocation_size - d.remaining_contribution_tokens;
                match &**r {
                    Response::Assets(x) if c.holding_check.1 == CheckOutcome::AwaitingResponse => {
                        c.holding_check.1 = match x.clone().into_inner().first() {
                            Some(Asset { id: AssetId(loc), fun: Fungible(n) }) if *n >= sold => {
                                if *loc == Location::new(1, [Parachain(para)]) {
                                    CheckOutcome::Passed(None)
                                } else if matches!(loc.unpack(), (1, [Parachain(_)])) {
                                    CheckOutcome::Failed
                                } else {
                                    return Err("asset of no chain");
                                }
                            },
                            _ => CheckOutcome::Failed,
                        };
                    },
                    Response::PalletsInfo(x) if c.pallet_check.1 == CheckOutcome::AwaitingResponse => {
                        let p = x.first().ok_or("no pallet")?;
                        if p.index > 255 {
                            return Err("index");
                        }
                        c.pallet_check.1 = if x.len() == 1 && p.module_name.to_vec() == b"polimec_receiver" { CheckOutcome::Passed(Some(p.index as u8)) } else { CheckOutcome::Failed };
                    },
                    _ => return Err("unexpected response"),
                }
                if let Some(MigrationType::Pallet(i)) = &mut self.s.det.get_mut(&pid).unwrap().migration_type {
                    i.migration_readiness_check = Some(c);
                }
            },
            Op::SendMigration(_, pid, a) => {
                let d = self.det(*pid)?;
                let Some(MigrationType::Pallet(i)) = d.migration_type else { return Err("no pallet migration") };
                let c = i.migration_readiness_check.ok_or("not ready")?;
                let mine = |k: &(u32, Acc, u32)| k.0 == *pid && k.1 == *a;
                if self.s.evals.keys().any(mine) || self.s.bids.keys().any(mine) || self.s.cons.keys().any(mine) {
                    return Err("not settled");
                }
                let k = (*pid, a.clone());
                let (st, ms) = self.s.migr.get(&k).cloned().ok_or("no migrations")?;
                let (CheckOutcome::Passed(None), CheckOutcome::Passed(Some(index))) = (c.holding_check.1, c.pallet_check.1) else { return Err("not ready") };
                if !matches!(st, MigrationStatus::NotStarted | MigrationStatus::Failed) {
                    return Err("already sent");
                }
                let para: u32 = i.parachain_id.into();
                let q = self.query(para, 25);
                self.s.migr.get_mut(&k).unwrap().0 = MigrationStatus::Sent(q);
                self.s.queue.insert(q, k);
                let mut call = vec![index, 0];
                call.extend(Migrations::from(ms).encode());
                let x = Xcm(vec![
                    UnpaidExecution { weight_limit: Unlimited, check_origin: None },
                    Transact { origin_kind: OriginKind::Native, require_weight_at_most: Default::default(), call: call.into() },
                    ReportTransactStatus(QueryResponseInfo { destination: Location::new(1, [Parachain(3344)]), query_id: q, max_weight: Default::default() }),
                ]);
                self.send(Location::new(1, [Parachain(para)]), x, fail)?;
            },
            Op::ConfirmPallet(l, q, r) => {
                let l = l.as_ref().ok_or("not a response")?;
                let k = self.s.queue.remove(q).ok_or("no such query")?;
                let d = self.det(k.0)?;
                let Some(MigrationType::Pallet(i)) = d.migration_type else { return Err("no pallet migration") };
                if *l != Location::new(1, [Parachain(u32::from(i.parachain_id))]) {
                    return Err("wrong chain");
                }
                let good = match **r {
                    Response::DispatchResult(MaybeErrorCode::Success) => true,
                    Response::DispatchResult(_) => false,
                    _ => return Err("unexpected response"),
                };
                let m = self.s.migr.get_mut(&k).ok_or("no migrations")?;
                if !matches!(m.0, MigrationStatus::Sent(_)) {
                    return Err("not sent");
                }
                m.0 = if good { MigrationStatus::Confirmed } else { MigrationStatus::Failed };
                if good {
                    self.migration_done(k.0);
                }
            },
            Op::MarkMigrated(_, pid) => {
                let d = self.det(*pid)?;
                if d.status != P::CTMigrationStarted || self.s.unmigrated.get(pid).copied().unwrap_or(0) > 0 {
                    return Err("round, or some have not migrated");
                }
                self.s.det.insert(*pid, Det { status: P::CTMigrationFinished, ..d });
            },
            Op::ChannelRequest(para, size, capacity) => {
                let pid = self.pallet_by_para(*para)?;
                if !(50_000..=102_400).contains(size) || !(8..=1000).contains(capacity) {
                    return Err("channel parameters");
                }
                let dot = Asset { id: AssetId(Location::here()), fun: Fungible(10_000_000_000) };
                let call = |head: [u8; 2], tail: Vec<u8>| [head.to_vec(), para.encode(), tail].concat();
                let t = |c: Vec<u8>| Transact { origin_kind: OriginKind::Native, require_weight_at_most: Default::default(), call: c.into() };
                let x = Xcm(vec![
                    WithdrawAsset(vec![dot.clone()].into()),
                    BuyExecution { fees: dot, weight_limit: Unlimited },
                    t(call([60, 1], vec![])),
                    t(call([60, 0], (8u32, 102_400u32).encode())),
                    RefundSurplus,
                    DepositAsset { assets: Wild(All), beneficiary: Location::new(0, [Parachain(3344)]) },
                ]);
                self.send(Location::parent(), x, fail)?;
                if let Some(MigrationType::Pallet(i)) = &mut self.s.det.get_mut(&pid).unwrap().migration_type {
                    i.hrmp_channel_status = HRMPChannelStatus { project_to_polimec: ChannelStatus::Open, polimec_to_project: ChannelStatus::AwaitingAcceptance };
                }
            },
            Op::ChannelAccepted(para) => {
                let pid = self.pallet_by_para(*para)?;
                if let Some(MigrationType::Pallet(i)) = &mut self.s.det.get_mut(&pid).unwrap().migration_type {
                    i.hrmp_channel_status.polimec_to_project = ChannelStatus::Open;
                }
                self.readiness(&pallet_account(), pid, fail)?;
            },
            Op::Vest(a) => {
                let mut v = self.s.vest.get(a).cloned().ok_or("not vesting")?;
                v.retain(|q| locked_at(q, now) > 0);
                let locked: Bal = v.iter().map(|q| locked_at(q, now)).sum();
                let bonds: Bal = self.s.bids.values().filter(|b| b.bidder == *a && b.mode != ParticipationMode::OTM).map(|b| b.plmc_bond).sum::<Bal>()
                    + self.s.cons.values().filter(|b| b.contributor == *a && b.mode != ParticipationMode::OTM).map(|b| b.plmc_bond).sum::<Bal>();
                let keep = locked + bonds;
                let h = self.held(a, PAR);
                if bonds > 0 {
                    self.found.push("releasing one project's vested PLMC also releases the bonds of participations that are not settled");
                }
                self.release(a, PAR, h.saturating_sub(keep))?;
                if v.is_empty() { self.s.vest.remove(a) } else { self.s.vest.insert(a.clone(), v) };
            },
            Op::BondsBack(_, pid) => {
                match self.s.releases.get(pid).ok_or("no release")? {
                    ReleaseType::Locked(b) if *b > now => return Err("too early"),
                    _ => (),
                }
                let b = bonding(*pid);
                let x = self.held(&b, PAR);
                if x == 0 {
                    self.maybe = true;
                }
                self.set_held(&b, PAR, 0);
                let t = BondTreasury::get();
                let f = self.free(&t);
                self.set_free(&t, f + x);
            },
            Op::Advance(n) => self.s.now += n,
            Op::Price(..) | Op::FailSend(_) => (),
        }
        Ok(())
    }
    fn refund_fee(&mut self, pid: u32, a: &Acc, plmc: Bal, asset: u32) -> R {
        let f = fee(plmc, asset)?;
        if f > self.fa(asset, &bonding(pid)) {
            self.found.push("the fee to give back, at the prices of the day, is more than what the sub-account has");
        }
        self.pay(asset, &bonding(pid), a, f, false)
    }
}
#[allow(dead_code)]
fn _unused(_: Perbill) {}
