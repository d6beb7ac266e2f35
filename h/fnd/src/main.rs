//! F*: the funding pallet (pallets/funding), from the creation of a project to the migration of its tokens.
mod api;
mod gen;
mod model;
mod rt;
mod st;
use gen::*;
use model::*;
use pallet_funding::*;
use pbt::{check, fail, Fail, Prop, Rec, Src};
use polimec_common::credentials::EnsureInvestor;
use polimec_common_test_utils::get_mock_jwt_with_cid;
use rt::*;
use sp_runtime::traits::Dispatchable;
use st::*;

type FC = pallet_funding::Call<Test>;
fn jwt(j: &J) -> polimec_common::credentials::UntrustedToken {
    let _ = std::marker::PhantomData::<EnsureInvestor<Test>>;
    get_mock_jwt_with_cid(j.sub.clone(), j.ty.clone(), j.did.clone(), j.cid.clone())
}
fn dispatch(o: RuntimeOrigin, c: impl Into<RuntimeCall>) -> Result<(), String> {
    c.into().dispatch(o).map(|_| ()).map_err(|e| format!("{:?}", e.error))
}
fn response(l: &Option<xcm::v4::Location>) -> RuntimeOrigin {
    match l {
        Some(l) => pallet_xcm::Origin::Response(l.clone()).into(),
        None => RuntimeOrigin::signed(acc(1)),
    }
}
pub fn apply(op: &Op) -> Result<(), String> {
    let by = |a: &Acc| RuntimeOrigin::signed(a.clone());
    match op {
        Op::Create(j, m) => dispatch(by(&j.origin), FC::create_project { jwt: jwt(j), project: (**m).clone() }),
        Op::Edit(j, p, m) => dispatch(by(&j.origin), FC::edit_project { jwt: jwt(j), project_id: *p, new_project_metadata: (**m).clone() }),
        Op::Remove(j, p) => dispatch(by(&j.origin), FC::remove_project { jwt: jwt(j), project_id: *p }),
        Op::StartEval(j, p) => dispatch(by(&j.origin), FC::start_evaluation { jwt: jwt(j), project_id: *p }),
        Op::Evaluate(j, p, x) => dispatch(by(&j.origin), FC::evaluate { jwt: jwt(j), project_id: *p, usd_amount: *x }),
        Op::EndEval(a, p) => dispatch(by(a), FC::end_evaluation { project_id: *p }),
        Op::Bid(j, p, x, mode, a) => dispatch(by(&j.origin), FC::bid { jwt: jwt(j), project_id: *p, ct_amount: *x, mode: *mode, funding_asset: *a }),
        Op::EndAuction(a, p) => dispatch(by(a), FC::end_auction { project_id: *p }),
        Op::Contribute(j, p, x, mode, a) => dispatch(by(&j.origin), FC::contribute { jwt: jwt(j), project_id: *p, ct_amount: *x, mode: *mode, funding_asset: *a }),
        Op::EndFunding(a, p) => dispatch(by(a), FC::end_funding { project_id: *p }),
        Op::StartSettlement(a, p) => dispatch(by(a), FC::start_settlement { project_id: *p }),
        Op::SettleEval(a, p, w, i) => dispatch(by(a), FC::settle_evaluation { project_id: *p, evaluator: w.clone(), evaluation_id: *i }),
        Op::SettleBid(a, p, w, i) => dispatch(by(a), FC::settle_bid { project_id: *p, bidder: w.clone(), bid_id: *i }),
        Op::SettleCon(a, p, w, i) => dispatch(by(a), FC::settle_contribution { project_id: *p, contributor: w.clone(), contribution_id: *i }),
        Op::MarkSettled(a, p) => dispatch(by(a), FC::mark_project_as_settled { project_id: *p }),
        Op::StartOffchain(j, p) => dispatch(by(&j.origin), FC::start_offchain_migration { jwt: jwt(j), project_id: *p }),
        Op::ConfirmOffchain(a, p, w) => dispatch(by(a), FC::confirm_offchain_migration { project_id: *p, participant: w.clone() }),
        Op::StartPallet(j, p, para) => dispatch(by(&j.origin), FC::start_pallet_migration { jwt: jwt(j), project_id: *p, para_id: (*para).into() }),
        Op::Readiness(j, p) => dispatch(by(&j.origin), FC::start_pallet_migration_readiness_check { jwt: jwt(j), project_id: *p }),
        Op::ReadyResponse(l, q, r) => dispatch(response(l), FC::pallet_migration_readiness_response { query_id: *q, response: (**r).clone() }),
        Op::SendMigration(a, p, w) => dispatch(by(a), FC::send_pallet_migration_for { project_id: *p, participant: w.clone() }),
        Op::ConfirmPallet(l, q, r) => dispatch(response(l), FC::confirm_pallet_migrations { query_id: *q, response: (**r).clone() }),
        Op::MarkMigrated(a, p) => dispatch(by(a), FC::mark_project_ct_migration_as_finished { project_id: *p }),
        // the executor runs the handlers inside a transaction that an error rolls back
        Op::ChannelRequest(s, m, c) => layered(|| {
            use xcm_executor::traits::HandleHrmpNewChannelOpenRequest as H;
            <Funding as H>::handle(*s, *m, *c)
        }),
        Op::ChannelAccepted(s) => layered(|| {
            use xcm_executor::traits::HandleHrmpChannelAccepted as H;
            <Funding as H>::handle(*s)
        }),
        Op::Vest(a) => dispatch(by(a), pallet_linear_release::Call::<Test>::vest { reason: reason(PAR) }),
        Op::BondsBack(a, p) => dispatch(by(a), pallet_proxy_bonding::Call::<Test>::transfer_bonds_back_to_treasury { derivation_path: *p, hold_reason: reason(PAR) }),
        Op::Advance(n) => {
            System::set_block_number(System::block_number() + n);
            Ok(())
        },
        Op::Price(a, x) => {
            set_price(*a, sp_arithmetic::FixedU128::from_inner(*x));
            Ok(())
        },
        Op::FailSend(b) => {
            fail_send(*b);
            Ok(())
        },
    }
}
fn layered<E: std::fmt::Debug>(f: impl FnOnce() -> Result<(), E>) -> Result<(), String> {
    let mut r = Ok(());
    let _ = frame_support::storage::with_storage_layer(|| {
        let x = f();
        r = x.map_err(|e| format!("{e:?}"));
        if r.is_ok() { Ok(()) } else { Err(sp_runtime::DispatchError::Other("x")) }
    });
    r
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Application,
    Rounds,
    Evaluate,
    Bid,
    Auction,
    Contribute,
    FundingEnd,
    Payout,
    Refund,
    Evaluations,
    Books,
    Settleable,
    Migration,
    Channel,
    Vesting,
    Api,
}
fn belongs(op: &Op, pre: &St) -> W {
    match op {
        Op::Create(..) | Op::Edit(..) | Op::Remove(..) => W::Application,
        Op::StartEval(..) | Op::EndEval(..) | Op::MarkSettled(..) => W::Rounds,
        Op::Evaluate(..) => W::Evaluate,
        Op::Bid(..) => W::Bid,
        Op::EndAuction(..) => W::Auction,
        Op::Contribute(..) => W::Contribute,
        Op::EndFunding(..) | Op::StartSettlement(..) => W::FundingEnd,
        Op::SettleBid(_, p, a, i) => {
            let success = pre.det.get(p).map_or(false, |d| d.status == ProjectStatus::SettlementStarted(FundingOutcome::Success));
            if success && pre.bids.get(&(*p, a.clone(), *i)).map_or(true, |b| b.status != BidStatus::Rejected) { W::Payout } else { W::Refund }
        },
        Op::SettleCon(_, p, ..) => {
            let success = pre.det.get(p).map_or(false, |d| d.status == ProjectStatus::SettlementStarted(FundingOutcome::Success));
            if success { W::Payout } else { W::Refund }
        },
        Op::SettleEval(..) => W::Evaluations,
        Op::StartOffchain(..) | Op::ConfirmOffchain(..) | Op::StartPallet(..) | Op::SendMigration(..) | Op::ConfirmPallet(..) | Op::MarkMigrated(..) => W::Migration,
        Op::Readiness(..) | Op::ReadyResponse(..) | Op::ChannelRequest(..) | Op::ChannelAccepted(..) => W::Channel,
        Op::Vest(..) | Op::BondsBack(..) => W::Vesting,
        Op::Advance(..) | Op::Price(..) | Op::FailSend(..) => W::Books,
    }
}
fn tag(op: &Op) -> &'static str {
    match op {
        Op::Create(..) => "create",
        Op::Edit(..) => "edit",
        Op::Remove(..) => "remove",
        Op::StartEval(..) => "start evaluation",
        Op::Evaluate(..) => "evaluate",
        Op::EndEval(..) => "end evaluation",
        Op::Bid(..) => "bid",
        Op::EndAuction(..) => "end auction",
        Op::Contribute(..) => "contribute",
        Op::EndFunding(..) => "end funding",
        Op::StartSettlement(..) => "start settlement",
        Op::SettleEval(..) => "settle evaluation",
        Op::SettleBid(..) => "settle bid",
        Op::SettleCon(..) => "settle contribution",
        Op::MarkSettled(..) => "mark settled",
        Op::StartOffchain(..) => "start offchain",
        Op::ConfirmOffchain(..) => "confirm offchain",
        Op::StartPallet(..) => "start pallet",
        Op::Readiness(..) => "readiness",
        Op::ReadyResponse(..) => "readiness response",
        Op::SendMigration(..) => "send migration",
        Op::ConfirmPallet(..) => "confirm pallet",
        Op::MarkMigrated(..) => "mark migrated",
        Op::ChannelRequest(..) => "channel request",
        Op::ChannelAccepted(..) => "channel accepted",
        Op::Vest(..) => "vest",
        Op::BondsBack(..) => "bonds back",
        Op::Advance(..) => "advance",
        Op::Price(..) => "price",
        Op::FailSend(..) => "fail send",
    }
}

/// run `op` and compare; the state afterwards
fn step(op: &Op, pre: &St, w: W, fail_on: bool, r: &mut Rec) -> Result<Option<(St, bool, Vec<&'static str>)>, Fail> {
    let mut pre = pre.clone();
    pre.sent.clear();
    let ours = belongs(op, &pre) == w;
    let res = if ours {
        apply(op)
    } else {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply(op))) {
            Ok(x) => x,
            // somebody else's to report; nothing can be said of the state any more
            Err(_) => return Ok(None),
        }
    };
    let got = snap();
    let mut m = M { s: pre.clone(), got: &got, maybe: false, found: vec![] };
    let want = m.step(op, fail_on);
    r.log(|| format!("{} → {:?}{}", short(&format!("{op:?}")), res, want.as_ref().err().map_or(String::new(), |x| format!(" (the model refuses: {x})"))));
    r.feature(pbt::fnv(7, format!("{}{}{}", tag(op), res.is_ok(), res.as_ref().err().map_or("", |x| x.as_str())).as_bytes()));
    let post = std::mem::take(&mut m.s);
    let (maybe, found) = (m.maybe, std::mem::take(&mut m.found));
    if ours {
        let mut bad: Option<(String, String)> = None;
        match (&want, &res) {
            (Err(why), Ok(())) if !maybe => bad = Some((format!("{} accepted", tag(op)), format!("{} is accepted although: {why}", tag(op)))),
            (Ok(()), Err(e)) if !maybe => bad = Some((format!("{} refused", tag(op)), format!("{} is refused with {e} although nothing stands against it", tag(op)))),
            (_, Err(_)) => {
                let mut g = got.clone();
                g.sent.clear();
                if let Some((f, t)) = diff(&pre, &g).into_iter().next() {
                    bad = Some((format!("{} refused, yet {f} changed", tag(op)), format!("a refused {} changes {f}: {t}", tag(op))));
                }
            },
            (_, Ok(())) => {
                if let Some((f, t)) = diff(&post, &got).into_iter().next() {
                    bad = Some((format!("{}: {f}", tag(op)), format!("after {}, {f} is not what it should be: {t}", tag(op))));
                }
            },
        }
        if let Some((sig, msg)) = bad {
            if let Some(k) = found.first() {
                if !r.known(k) {
                    return fail(*k, msg);
                }
            } else {
                return fail(sig, msg);
            }
        }
    }
    Ok(Some((got, res.is_ok(), found)))
}

fn case(s: &mut Src, r: &mut Rec, w: W) -> Result<(), Fail> {
    let (mut wd, accs) = world(s, matches!(w, W::Migration | W::Channel));
    s.plan(30, 130);
    ext(&accs).execute_with(|| {
        let mut st = snap();
        let issued = st.free.values().sum::<Bal>();
        // accounts whose bonds a release of vested PLMC has already freed (a known finding)
        let mut freed = std::collections::BTreeSet::new();
        // projects whose account lost what was below the minimum of an asset (a known finding)
        let mut burnt = std::collections::BTreeSet::new();
        while s.more() {
            let op = wd.next(s, &st);
            r.op();
            let Some((got, ok, found)) = step(&op, &st, w, wd.fail, r)? else { return Ok(()) };
            if let Op::FailSend(b) = op {
                wd.fail = b;
            }
            if ok {
                r.label(tag(&op));
            }
            if ok && belongs(&op, &st) == w {
                r.nontrivial();
            }
            if let (Op::SettleBid(_, p, ..) | Op::SettleCon(_, p, ..), true) = (&op, ok) {
                burnt.extend(found.iter().filter(|x| **x == BURNT).map(|_| *p));
            }
            if let (Op::Vest(a), true) = (&op, ok) {
                if needs(&got, a) > got.held.get(&(a.clone(), PAR)).copied().unwrap_or(0) {
                    freed.insert(a.clone());
                }
            }
            if w == W::Books {
                books(&op, ok, &st, &got, issued, (&freed, &burnt), r)?;
            }
            st = got;
            if w == W::Api && s.chance(1, 2) {
                api::ask(s, r, &st, &wd)?;
            }
        }
        if w == W::Settleable {
            settle_all(s, st, &wd, &freed, burnt, r)?;
        }
        Ok(())
    })
}

/// what holds of the books after every operation
type Accs = std::collections::BTreeSet<Acc>;
const FREED: &str = "releasing one project's vested PLMC also releases the bonds of participations that are not settled";
/// bonds of the participations of `a` that are not settled
fn bonds(st: &St, a: &Acc) -> Bal {
    st.bids.values().filter(|b| b.bidder == *a && b.mode != ParticipationMode::OTM).map(|b| b.plmc_bond).sum::<Bal>()
        + st.cons.values().filter(|b| b.contributor == *a && b.mode != ParticipationMode::OTM).map(|b| b.plmc_bond).sum::<Bal>()
}
/// what of `a` must be on hold for participations
fn needs(st: &St, a: &Acc) -> Bal {
    bonds(st, a) + st.vest.get(a).map_or(0, |v| v.iter().map(|q| locked_at(q, st.now)).sum::<Bal>())
}
const BURNT: &str = "what is left in the account is below the minimum of the asset and burned";
fn books(op: &Op, ok: bool, pre: &St, st: &St, issued: Bal, (freed, burnt): (&Accs, &std::collections::BTreeSet<u32>), r: &mut Rec) -> Result<(), Fail> {
    let sum: Bal = st.free.values().sum::<Bal>() + st.held.values().sum::<Bal>();
    check!(sum == issued, "issuance", "PLMC is created or destroyed: {sum} instead of {issued}");
    let mut accs: std::collections::BTreeSet<Acc> = st.held.keys().map(|k| k.0.clone()).collect();
    accs.extend(st.evals.keys().map(|k| k.1.clone()));
    accs.extend(st.bids.keys().map(|k| k.1.clone()));
    accs.extend(st.cons.keys().map(|k| k.1.clone()));
    for a in accs {
        if (0..8).any(|p| bonding(p) == a) {
            continue;
        }
        let e: Bal = st.evals.values().filter(|e| e.evaluator == a).map(|e| e.current_plmc_bond).sum();
        let h = st.held.get(&(a.clone(), EVA)).copied().unwrap_or(0);
        check!(h == e, "evaluation hold", "{} has {h} on hold for evaluations, its evaluations say {e}", name(&a));
        let must = needs(st, &a);
        let h = st.held.get(&(a.clone(), PAR)).copied().unwrap_or(0);
        if h < must && !(freed.contains(&a) && r.known(FREED)) {
            return if freed.contains(&a) { fail(FREED, format!("{} has {h} on hold for participations, its bonds and schedules need {must}", name(&a))) } else { fail("participation hold", format!("{} has {h} on hold for participations, its bonds and schedules need {must}", name(&a))) };
        }
        // what an ended schedule leaves stays on hold until it is asked for
        if st.vest.get(&a).is_none() && h > must {
            return fail("stuck hold", format!("{} has {h} on hold for participations, {must} of it for bonds; no schedule releases the rest", name(&a)));
        }
    }
    for (p, d) in &st.det {
        let m = &st.meta[p];
        let e = escrow(*p);
        for f in ASSETS {
            let need: Bal = st.bids.values().filter(|b| b.project_id == *p && b.funding_asset == f).map(|b| b.funding_asset_amount_locked).sum::<Bal>()
                + st.cons.values().filter(|b| b.project_id == *p && b.funding_asset == f).map(|b| b.funding_asset_amount).sum::<Bal>();
            let have = st.fa.get(&(f.id(), e.clone())).copied().unwrap_or(0);
            if have != need && !(burnt.contains(p) && r.known(BURNT)) {
                return fail(if burnt.contains(p) { BURNT } else { "escrow" }, format!("the account of project {p} has {have} of asset {}, its participations need {need}", f.id()));
            }
        }
        let evals = st.evals.keys().filter(|k| k.0 == *p).count() as u32;
        check!(st.eval_counts.get(p).copied().unwrap_or(0) >= evals, "evaluation count", "project {p} counts fewer evaluations than there are");
        use ProjectStatus as P;
        let taking = matches!(d.status, P::Application | P::EvaluationRound | P::AuctionRound | P::CommunityRound(_) | P::FundingFailed | P::FundingSuccessful);
        if taking && d.weighted_average_price.is_none() {
            check!(st.bid_counts.get(p).copied().unwrap_or(0) == st.bids.keys().filter(|k| k.0 == *p).count() as u32, "bid count", "project {p} counts its bids wrong");
            let bucketed: Bal = st.bids.values().filter(|b| b.project_id == *p).map(|b| b.original_ct_amount).sum();
            let b = &st.bucket[p];
            let steps = (b.current_price.into_inner() - b.initial_price.into_inner()) / b.delta_price.into_inner();
            let filled = if steps == 0 { allocation(m) - b.amount_left } else { allocation(m) + (steps - 1) * b.delta_amount + (b.delta_amount - b.amount_left) };
            check!(bucketed == filled, "bucket", "the bids of project {p} add up to {bucketed}, the buckets say {filled}");
        }
        if taking {
            let bonded: Bal = st.evals.values().filter(|e| e.project_id == *p).map(|e| e.early_usd_amount + e.late_usd_amount).sum();
            check!(bonded == d.evaluation_round_info.total_bonded_usd, "evaluation usd", "the evaluations of project {p} add up to {bonded} USD, the project says {}", d.evaluation_round_info.total_bonded_usd);
            let threshold = d.fundraising_target_usd / 10;
            let early: Bal = st.evals.values().filter(|e| e.project_id == *p).map(|e| e.early_usd_amount).sum();
            check!(early == bonded.min(sp_arithmetic::Percent::from_percent(10) * d.fundraising_target_usd), "early usd", "{early} USD of project {p} are early, {bonded} are bonded, the threshold is {threshold}");
        }
        if let (true, Some(wap)) = (taking, d.weighted_average_price) {
            use sp_arithmetic::FixedPointNumber;
            let won: Bal = st.bids.values().filter(|b| b.project_id == *p).map(|b| b.final_ct_amount()).sum();
            let bought: Bal = st.cons.values().filter(|b| b.project_id == *p).map(|b| b.ct_amount).sum();
            check!(won <= allocation(m), "oversold auction", "{won} tokens are won in the auction of project {p}, {} are on sale there", allocation(m));
            check!(won + bought + d.remaining_contribution_tokens == m.total_allocation_size, "tokens", "project {p}: {won} won, {bought} bought, {} left of {}", d.remaining_contribution_tokens, m.total_allocation_size);
            let usd: Bal = st.bids.values().filter(|b| b.project_id == *p).map(|b| b.original_ct_usd_price.min(wap).saturating_mul_int(b.final_ct_amount())).sum::<Bal>()
                + st.cons.values().filter(|b| b.project_id == *p).map(|b| b.usd_contribution_amount).sum::<Bal>();
            check!(usd == d.funding_amount_reached_usd, "usd reached", "project {p} has reached {} USD, its participations are worth {usd}", d.funding_amount_reached_usd);
            check!(wap >= m.minimum_price, "price below the minimum", "the price of project {p} is below its minimum");
        }
        let open = st.migr.iter().filter(|(k, v)| k.0 == *p && v.0 != polimec_common::migration_types::MigrationStatus::Confirmed).count() as u32;
        check!(st.unmigrated.get(p).copied().unwrap_or(0) == open, "unmigrated", "project {p} counts {:?} participants to migrate, there are {open}", st.unmigrated.get(p));
        // every token minted is the treasury's or somebody's who has a migration for it
        if let Some(total) = st.supply.get(p) {
            let migr: Bal = st.migr.iter().filter(|(k, _)| k.0 == *p).flat_map(|(_, v)| v.1.iter().map(|x| x.info.contribution_token_amount)).sum();
            let treasury = st.ct.get(&(*p, CtTreasury::get())).copied().unwrap_or(0);
            check!(migr + treasury == *total, "minted", "project {p}: {total} tokens exist, {migr} to migrate, {treasury} with the treasury");
            for ((q, a), n) in st.ct.iter().filter(|x| x.0 .0 == *p && x.0 .1 != CtTreasury::get()) {
                let mine: Bal = st.migr.get(&(*q, a.clone())).map_or(0, |v| v.1.iter().map(|x| x.info.contribution_token_amount).sum());
                check!(*n == mine, "migrations of a holder", "{} holds {n} tokens of project {q} and has migrations for {mine}", name(a));
            }
        }
    }
    // one active project for an issuer
    for (d, p) in &st.active {
        check!(st.det.get(p).map_or(false, |x| x.issuer_did == *d), "active", "{d:?} is said to have project {p}");
    }
    for (p, d) in &st.det {
        use ProjectStatus as P;
        let running = matches!(d.status, P::Application | P::EvaluationRound | P::AuctionRound | P::CommunityRound(_));
        check!(!running || st.active.get(&d.issuer_did) == Some(p), "not active", "the issuer of project {p} is not said to have it");
        if let (Some(was), true) = (pre.det.get(p), ok) {
            check!(follows(&was.status, &d.status), "phase order", "project {p} goes from {:?} to {:?} by {}", was.status, d.status, tag(op));
        }
    }
    if st.det.values().any(|d| d.weighted_average_price.is_some()) {
        r.nontrivial();
    }
    Ok(())
}
fn follows(a: &ProjectStatus<u64>, b: &ProjectStatus<u64>) -> bool {
    use ProjectStatus as P;
    a == b
        || matches!(
            (a, b),
            (P::Application, P::EvaluationRound)
                | (P::EvaluationRound, P::AuctionRound | P::FundingFailed)
                | (P::AuctionRound, P::CommunityRound(_))
                | (P::CommunityRound(_), P::FundingFailed | P::FundingSuccessful)
                | (P::FundingFailed, P::SettlementStarted(FundingOutcome::Failure))
                | (P::FundingSuccessful, P::SettlementStarted(FundingOutcome::Success))
                | (P::SettlementStarted(FundingOutcome::Success), P::SettlementFinished(FundingOutcome::Success))
                | (P::SettlementStarted(FundingOutcome::Failure), P::SettlementFinished(FundingOutcome::Failure))
                | (P::SettlementFinished(FundingOutcome::Success), P::CTMigrationStarted)
                | (P::CTMigrationStarted, P::CTMigrationFinished)
        )
}

/// from wherever the history stopped, every project that left the application can be brought to its end by anybody
fn settle_all(s: &mut Src, st: St, wd: &World, freed: &Accs, mut burnt: std::collections::BTreeSet<u32>, r: &mut Rec) -> Result<(), Fail> {
    use ProjectStatus as P;
    let mut st = st;
    let who = wd.users[s.idx(8)].acc.clone();
    for p in st.det.keys().copied().collect::<Vec<_>>() {
        for _ in 0..200 {
            let d = st.det[&p].clone();
            let wait = |st: &St| Op::Advance(d.round_duration.end.map_or(0, |e| e.saturating_sub(st.now)));
            let ops = match d.status {
                P::Application | P::SettlementFinished(_) | P::CTMigrationStarted | P::CTMigrationFinished => break,
                P::EvaluationRound => vec![wait(&st), Op::EndEval(who.clone(), p)],
                P::AuctionRound => vec![wait(&st), Op::EndAuction(who.clone(), p)],
                P::CommunityRound(_) => vec![wait(&st), Op::EndFunding(who.clone(), p)],
                P::FundingFailed | P::FundingSuccessful => vec![wait(&st), Op::StartSettlement(who.clone(), p)],
                P::SettlementStarted(_) => {
                    let e: Vec<_> = st.evals.keys().filter(|k| k.0 == p).map(|k| Op::SettleEval(who.clone(), p, k.1.clone(), k.2)).collect();
                    let b: Vec<_> = st.bids.keys().filter(|k| k.0 == p).map(|k| Op::SettleBid(who.clone(), p, k.1.clone(), k.2)).collect();
                    let c: Vec<_> = st.cons.keys().filter(|k| k.0 == p).map(|k| Op::SettleCon(who.clone(), p, k.1.clone(), k.2)).collect();
                    let all: Vec<Op> = [e, b, c].concat();
                    if all.is_empty() {
                        vec![Op::MarkSettled(who.clone(), p)]
                    } else {
                        r.nontrivial();
                        vec![all[s.idx(all.len())].clone()]
                    }
                },
            };
            for op in ops {
                r.op();
                let pre = st.clone();
                let res = apply(&op);
                let got = snap();
                r.log(|| format!("finally {} → {res:?}", short(&format!("{op:?}"))));
                let mut m = M { s: pre.clone(), got: &got, maybe: false, found: vec![] };
                m.s.sent.clear();
                let want = m.step(&op, false);
                if m.found.contains(&BURNT) && res.is_ok() {
                    burnt.insert(p);
                }
                if let Err(e) = &res {
                    if let (Op::SettleBid(_, _, a, _) | Op::SettleCon(_, _, a, _), Err("less is held")) = (&op, &want) {
                        if freed.contains(a) {
                            m.found.push(FREED);
                        }
                    }
                    if burnt.contains(&p) && want == Err("not enough of the asset") {
                        m.found.push(BURNT);
                    }
                    if let Some(k) = m.found.first() {
                        if r.known(k) {
                            return Ok(());
                        }
                        return fail(*k, format!("{} is refused with {e}: {k}", tag(&op)));
                    }
                    if m.maybe {
                        r.excluded("a corner of existential deposits");
                        return Ok(());
                    }
                    let _ = want;
                    return fail(format!("{} stuck", tag(&op)), format!("{} is refused with {e}; project {p} never settles", tag(&op)));
                }
                st = got;
            }
        }
        let d = &st.det[&p];
        if !matches!(d.status, P::SettlementFinished(_)) {
            continue;
        }
        r.label(if d.status == P::SettlementFinished(FundingOutcome::Success) { "settled, success" } else { "settled, failure" });
        for f in ASSETS {
            let x = st.fa.get(&(f.id(), escrow(p))).copied().unwrap_or(0);
            check!(x == 0, "left in escrow", "the account of project {p} still has {x} of asset {} when all is settled", f.id());
        }
        for ((a, q), h) in &st.held {
            if *q == EVA {
                let e: Bal = st.evals.values().filter(|e| e.evaluator == *a).map(|e| e.current_plmc_bond).sum();
                check!(*h == e, "left on hold", "{} has {h} on hold for evaluations, its evaluations say {e}", name(a));
            }
        }
    }
    Ok(())
}

fn main() {
    const A: &[&str] = &[
        "a runtime of the pallets funding, linear-release, proxy-bonding, Balances and two instances of Assets, with short rounds; XCM, pallet-xcm, pallet-assets, pallet-timestamp and jwt-compact are stand-ins written from their documented behaviour, over which the pallet's own 188 tests pass",
        "pallet-balances and the fixed point and per-thing arithmetic of sp-arithmetic are trusted",
    ];
    let p = |id, rule, w: W, quick: u64| Prop { id, rule, quick, thorough: quick * 60, case: Box::new(move |s: &mut Src, r: &mut Rec| case(s, r, w)), assumptions: A, guided: 30 };
    pbt::main(vec![
        p("F01", "a project created, edited or removed", W::Application, 2000),
        p("F02", "a round started or ended", W::Rounds, 2000),
        p("F03", "an evaluation accepted", W::Evaluate, 2000),
        p("F04", "a bid accepted", W::Bid, 2000),
        p("F05", "an auction ended", W::Auction, 2000),
        p("F06", "a contribution accepted", W::Contribute, 2000),
        p("F07", "funding ended or settlement started", W::FundingEnd, 2000),
        p("F08", "a winning participation settled", W::Payout, 2000),
        p("F09", "a participation refunded", W::Refund, 2000),
        p("F10", "an evaluation settled", W::Evaluations, 2000),
        p("F11", "a project whose auction has ended", W::Books, 2000),
        p("F12", "a project with participations to settle", W::Settleable, 2000),
        p("F13", "a step of the migration of tokens", W::Migration, 2000),
        p("F14", "a channel or readiness step", W::Channel, 2000),
        p("F15", "a query about something that exists", W::Api, 2000),
        p("F16", "vested PLMC or bonds given back", W::Vesting, 2000),
    ]);
}
