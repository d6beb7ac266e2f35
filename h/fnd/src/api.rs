//! The runtime APIs: what they answer against what the state says.
use crate::{gen::*, model::*, rt::*, st::*};
use pallet_funding::*;
use parity_scale_codec::Encode;
use pbt::{check, check_eq, Fail, Rec, Src};
use polimec_common::credentials::InvestorType;
use sp_arithmetic::{FixedPointNumber, FixedU128};
use std::collections::{BTreeMap, BTreeSet};
use ProjectStatus as P;

/// `got` are the `amount` largest of `all`, largest first
fn top<T: PartialEq + std::fmt::Debug, K: Ord + Copy + std::fmt::Debug>(what: &str, got: &[T], all: &[T], amount: u32, key: impl Fn(&T) -> K) -> Result<(), Fail> {
    let mut want: Vec<K> = all.iter().map(&key).collect();
    want.sort();
    want.reverse();
    want.truncate(amount as usize);
    let have: Vec<K> = got.iter().map(&key).collect();
    check!(want == have, format!("{what}: order"), "{what} gives entries of {have:?}, the largest {amount} are {want:?}");
    for (i, x) in got.iter().enumerate() {
        check!(all.contains(x), format!("{what}: unknown"), "{what} gives {x:?}, which does not exist");
        check!(!got[..i].contains(x), format!("{what}: twice"), "{what} gives {x:?} twice");
    }
    Ok(())
}
/// USD that `n` tokens cost from `b` on, bucket by bucket
fn cost(mut b: BucketOf<Test>, mut n: Bal) -> (Bal, u32, FixedU128) {
    let (mut usd, mut steps) = (0u128, 0);
    while n > 0 {
        let x = n.min(b.amount_left);
        usd = usd.saturating_add(b.current_price.saturating_mul_int(x));
        n -= x;
        b.amount_left -= x;
        if b.amount_left == 0 {
            b.amount_left = b.delta_amount;
            b.current_price = FixedU128::from_inner(b.current_price.into_inner() + b.delta_price.into_inner());
        }
        steps += 1;
    }
    (usd, steps, b.current_price)
}

pub fn ask(s: &mut Src, r: &mut Rec, st: &St, w: &World) -> Result<(), Fail> {
    let amount = match s.weighted(&[4, 1, 1]) {
        0 => s.range(0, 6) as u32,
        1 => u32::MAX,
        _ => 100,
    };
    let u = w.users[s.idx(8)].clone();
    let pids: Vec<u32> = st.det.keys().copied().collect();
    let any = if pids.is_empty() { 0 } else { pids[s.idx(pids.len())] };
    let pid = if s.chance(1, 20) { 7 } else { any };
    let kind = s.idx(12);
    r.log(|| format!("ask {kind} of project {pid}, {amount}"));
    match kind {
        0 => {
            let all: Vec<Eval> = st.evals.values().filter(|e| e.project_id == pid).cloned().collect();
            top("top_evaluations", &Funding::top_evaluations(pid, amount), &all, amount, |e| e.original_plmc_bond)?;
            nt(r, all.len() > 1);
        },
        1 => {
            let all: Vec<Bid> = st.bids.values().filter(|e| e.project_id == pid).cloned().collect();
            let won = |b: &Bid| match b.status {
                BidStatus::Accepted => b.original_ct_amount,
                BidStatus::PartiallyAccepted(n) => n,
                // nothing is bought yet, or at all
                _ => 0,
            };
            top("top_bids", &Funding::top_bids(pid, amount), &all, amount, won)?;
            nt(r, all.len() > 1);
        },
        2 => {
            let all: Vec<Con> = st.cons.values().filter(|e| e.project_id == pid).cloned().collect();
            top("top_contributions", &Funding::top_contributions(pid, amount), &all, amount, |e| e.ct_amount)?;
            nt(r, all.len() > 1);
        },
        3 | 4 => {
            let all: Vec<(u32, Meta, Det)> = st.det.iter().map(|(p, d)| (*p, st.meta[p].clone(), d.clone())).collect();
            if kind == 3 {
                top("top_projects_by_usd_raised", &Funding::top_projects_by_usd_raised(amount), &all, amount, |x| x.2.funding_amount_reached_usd)?;
            } else {
                top("top_projects_by_usd_target_percent_reached", &Funding::top_projects_by_usd_target_percent_reached(amount), &all, amount, |x| {
                    x.2.funding_amount_reached_usd * 10u128.pow(18) / x.2.fundraising_target_usd
                })?;
            }
            nt(r, all.len() > 1);
        },
        5 => {
            let got = Funding::contribution_tokens(u.acc.clone());
            let want: BTreeMap<u32, Bal> = st.ct.iter().filter(|x| x.0 .1 == u.acc).map(|(k, n)| (k.0, *n)).collect();
            check!(got.iter().copied().collect::<BTreeMap<_, _>>() == want && got.len() == want.len(), "contribution_tokens", "{} has {want:?}, the answer is {got:?}", name(&u.acc));
            check!(got.windows(2).all(|x| x[0].1 >= x[1].1), "contribution_tokens: order", "{got:?} is not sorted");
            nt(r, !want.is_empty());
        },
        6 => {
            let mut want: BTreeMap<Acc, [BTreeSet<u32>; 3]> = BTreeMap::new();
            for e in st.evals.values().filter(|e| e.project_id == pid && e.did == u.did) {
                want.entry(e.evaluator.clone()).or_default()[0].insert(e.id);
            }
            for e in st.bids.values().filter(|e| e.project_id == pid && e.did == u.did) {
                want.entry(e.bidder.clone()).or_default()[1].insert(e.id);
            }
            for e in st.cons.values().filter(|e| e.project_id == pid && e.did == u.did) {
                want.entry(e.contributor.clone()).or_default()[2].insert(e.id);
            }
            let mut got: BTreeMap<Acc, [BTreeSet<u32>; 3]> = BTreeMap::new();
            let ans = Funding::all_project_participations_by_did(pid, u.did.clone());
            for x in &ans {
                let (a, e, b, c) = <(Acc, Vec<u32>, Vec<u32>, Vec<u32>) as parity_scale_codec::Decode>::decode(&mut &x.encode()[..]).map_err(|e| Fail { sig: "decode".into(), msg: e.to_string() })?;
                let n = e.len() + b.len() + c.len();
                let v = [e, b, c].map(|v| v.into_iter().collect::<BTreeSet<_>>());
                check!(v.iter().map(|x| x.len()).sum::<usize>() == n, "participations twice", "a participation is named twice");
                check!(got.insert(a, v).is_none(), "account twice", "an account is named twice");
            }
            check!(got == want, "all_project_participations_by_did", "{:?} took part with {want:?} in project {pid}, the answer is {got:?}", u.acc);
            nt(r, !want.is_empty());
        },
        7 => {
            let want: BTreeSet<u32> = st.det.iter().filter(|(_, d)| d.issuer_did == u.did).map(|x| *x.0).collect();
            let got = Funding::projects_by_did(u.did.clone());
            check!(got.len() == want.len() && got.iter().copied().collect::<BTreeSet<_>>() == want, "projects_by_did", "{want:?} are the projects, the answer is {got:?}");
            if let Some(d) = st.det.get(&any) {
                let x = Funding::usd_target_percent_reached(any).into_inner();
                let y = d.funding_amount_reached_usd * 10u128.pow(18) / d.fundraising_target_usd;
                check!(x.abs_diff(y) <= 1, "usd_target_percent_reached", "project {any} has reached {y} of 10^18 of its target, the answer is {x}");
                nt(r, y > 0);
            }
        },
        8 | 9 => {
            let Some(d) = st.det.get(&any) else { return Ok(()) };
            let m = &st.meta[&any];
            let asset = *s.pick(&ASSETS);
            // up to a few times what the project is worth
            let most = amount_of(asset, d.fundraising_target_usd.saturating_mul(4));
            let x = match s.weighted(&[3, 1, 1]) {
                0 => s.u128() % most.max(1),
                1 => most / s.range(2, 2000) as Bal,
                _ => s.magnitude(40).min(most),
            };
            let (paid, ct) = if kind == 8 {
                (x, Funding::funding_asset_to_ct_amount_classic(any, asset, x))
            } else {
                let (ct, fee) = Funding::funding_asset_to_ct_amount_otm(any, asset, x);
                check!(fee <= x, "otm fee", "a fee of {fee} out of {x}");
                check_eq!(ct, Funding::funding_asset_to_ct_amount_classic(any, asset, x - fee), "otm tokens", "tokens for the {} that are left of {x} after the fee", x - fee);
                // what the participation of the rest is charged: the two answers agree
                let charged = Funding::calculate_otm_fee(asset, x - fee).unwrap_or(0);
                // bonds are a fifth of the ticket in whole micro-dollars, the fee is taken of their worth
                let micro = amount_of(asset, 10) + 2;
                check!(fee.abs_diff(charged) <= micro + x / 1_000_000_000, "otm fee and charge", "{fee} of {x} is the fee, {charged} would be charged for the rest");
                (x - fee, ct)
            };
            let usd = aware(asset.id()).saturating_mul_int(paid);
            match d.weighted_average_price {
                Some(w) => {
                    let c = w.saturating_mul_int(ct);
                    let more = w.saturating_mul_int(ct.saturating_add(2 + ct / 1_000_000_000)).saturating_add(1);
                    check!(c <= usd && more >= usd, "tokens for money", "{ct} tokens at {w:?} are worth {c}, {usd} was to spend");
                },
                None => {
                    let b = st.bucket[&any];
                    let (c, n, p) = cost(b, ct);
                    check!(c <= usd, "tokens for too little", "{ct} tokens from {b:?} on cost {c}, {usd} was to spend");
                    let one = p.saturating_mul_int(1u128) + 2;
                    check!(c + (n as Bal + 1) * one + usd / 1_000_000_000 >= usd, "fewer tokens than the money buys", "{ct} tokens from {b:?} on cost {c}, {usd} was to spend");
                    r.feature(n.min(40) as u64 + 5000);
                },
            }
            let _ = m;
            nt(r, ct > 0);
        },
        10 => {
            let asset = *s.pick(&ASSETS);
            let d = any;
            let Some(det) = st.det.get(&d) else { return Ok(()) };
            let m = &st.meta[&d];
            let got = Funding::get_funding_asset_min_max_amounts(pid, u.did.clone(), asset, u.ty.clone());
            if pid != d {
                check!(got.is_none(), "limits of no project", "{got:?}");
                return Ok(());
            }
            let t = match (&det.status, &u.ty) {
                (P::AuctionRound, InvestorType::Institutional) => m.bidding_ticket_sizes.institutional,
                (P::AuctionRound, InvestorType::Professional) => m.bidding_ticket_sizes.professional,
                (P::CommunityRound(_), InvestorType::Institutional) => m.contributing_ticket_sizes.institutional,
                (P::CommunityRound(_), InvestorType::Professional) => m.contributing_ticket_sizes.professional,
                (P::CommunityRound(_), InvestorType::Retail) => m.contributing_ticket_sizes.retail,
                _ => {
                    check!(got.is_none(), "limits outside the rounds", "{got:?} in {:?} for {:?}", det.status, u.ty);
                    return Ok(());
                },
            };
            let (spent, all) = if det.status == P::AuctionRound {
                (st.bid_usd.get(&(d, u.did.clone())), cost(st.bucket[&d], allocation(m)).0)
            } else {
                (st.con_usd.get(&(d, u.did.clone())), det.weighted_average_price.unwrap().saturating_mul_int(det.remaining_contribution_tokens))
            };
            let max = t.usd_maximum_per_did.map_or(all, |x| all.min(x.saturating_sub(spent.copied().unwrap_or(0))));
            check_eq!(got, Some((amount_of(asset, t.usd_minimum_per_participation), amount_of(asset, max))), "limits", "smallest and largest participation in {asset:?}");
            nt(r, true);
        },
        _ => {
            let delta = match s.weighted(&[3, 1, 1]) {
                0 => s.magnitude(22),
                1 => 0,
                _ => u128::MAX,
            };
            let a = if s.chance(1, 10) || st.vest.is_empty() { u.acc } else { st.vest.keys().nth(s.idx(st.vest.len())).unwrap().clone() };
            let got = Funding::get_next_vesting_schedule_merge_candidates(a.clone(), reason(PAR), delta);
            let v = st.vest.get(&a).cloned().unwrap_or_default();
            let end = |q: &Sched| (q.2 as u128).saturating_add((q.0 / q.1.max(1) + (q.0 % q.1.max(1) != 0) as u128).max(1));
            let good = |i: usize, j: usize| i < j && j < v.len() && v[i].2 <= st.now && v[j].2 <= st.now && end(&v[i]).abs_diff(end(&v[j])) <= delta;
            match got {
                Some((i, j)) => check!(good(i as usize, j as usize), "merge candidates", "schedules {i} and {j} of {v:?} are not within {delta} blocks of each other, or have not started"),
                None => check!(!(0..v.len()).any(|j| (0..j).any(|i| good(i, j))), "no merge candidates", "some of {v:?} end within {delta} blocks of each other"),
            }
            nt(r, v.len() > 1);
        },
    }
    Ok(())
}
fn nt(r: &mut Rec, yes: bool) {
    if yes {
        r.nontrivial()
    }
}
fn amount_of(a: AcceptedFundingAsset, usd: Bal) -> Bal {
    amount(a.id(), usd).unwrap_or(0)
}
