//! K*: the staking of collators and delegators (pallets/parachain-staking).
mod gen;
mod model;
mod rt;
mod st;
use frame_support::traits::{EstimateNextSessionRotation, Hooks};
use gen::*;
use model::*;
use pallet_parachain_staking::Range;
use pallet_session::{SessionManager, ShouldEndSession};
use pbt::{check, check_eq, fail, Fail, Prop, Rec, Src};
use rt::*;
use sp_arithmetic::{Perbill, Percent, Permill};
use sp_runtime::traits::Dispatchable;
use st::*;

type SC = pallet_parachain_staking::Call<Test>;
fn dispatch(o: Option<Acc>, c: SC) -> Result<(), String> {
    let o = o.map_or(RuntimeOrigin::root(), RuntimeOrigin::signed);
    RuntimeCall::Staking(c).dispatch(o).map(|_| ()).map_err(|e| format!("{:?}", e.error))
}
fn range<T: Copy>(e: [T; 3]) -> Range<T> {
    Range { min: e[0], ideal: e[1], max: e[2] }
}
fn apply(op: &Op) -> Result<(), String> {
    System::reset_events();
    let p = |x: u8| Percent::from_percent(x);
    match op.clone() {
        Op::Join(a, bond, candidate_count) => dispatch(Some(a), SC::join_candidates { bond, candidate_count }),
        Op::Leave(a, candidate_count) => dispatch(Some(a), SC::schedule_leave_candidates { candidate_count }),
        Op::ExecLeave(a, candidate, candidate_delegation_count) => dispatch(Some(a), SC::execute_leave_candidates { candidate, candidate_delegation_count }),
        Op::CancelLeave(a, candidate_count) => dispatch(Some(a), SC::cancel_leave_candidates { candidate_count }),
        Op::Offline(a) => dispatch(Some(a), SC::go_offline {}),
        Op::Online(a) => dispatch(Some(a), SC::go_online {}),
        Op::More(a, more) => dispatch(Some(a), SC::candidate_bond_more { more }),
        Op::Less(a, less) => dispatch(Some(a), SC::schedule_candidate_bond_less { less }),
        Op::ExecLess(a, candidate) => dispatch(Some(a), SC::execute_candidate_bond_less { candidate }),
        Op::CancelLess(a) => dispatch(Some(a), SC::cancel_candidate_bond_less {}),
        Op::Delegate(a, candidate, amount, candidate_delegation_count, delegation_count) => dispatch(Some(a), SC::delegate { candidate, amount, candidate_delegation_count, delegation_count }),
        Op::DelegateAuto(a, candidate, amount, x, candidate_delegation_count, candidate_auto_compounding_delegation_count, delegation_count) => dispatch(
            Some(a),
            SC::delegate_with_auto_compound { candidate, amount, auto_compound: p(x), candidate_delegation_count, candidate_auto_compounding_delegation_count, delegation_count },
        ),
        Op::DelMore(a, candidate, more) => dispatch(Some(a), SC::delegator_bond_more { candidate, more }),
        Op::LeaveAll(a) => dispatch(Some(a), SC::schedule_leave_delegators {}),
        Op::ExecLeaveAll(a, delegator, delegation_count) => dispatch(Some(a), SC::execute_leave_delegators { delegator, delegation_count }),
        Op::CancelLeaveAll(a) => dispatch(Some(a), SC::cancel_leave_delegators {}),
        Op::Revoke(a, collator) => dispatch(Some(a), SC::schedule_revoke_delegation { collator }),
        Op::DelLess(a, candidate, less) => dispatch(Some(a), SC::schedule_delegator_bond_less { candidate, less }),
        Op::ExecReq(a, delegator, candidate) => dispatch(Some(a), SC::execute_delegation_request { delegator, candidate }),
        Op::CancelReq(a, candidate) => dispatch(Some(a), SC::cancel_delegation_request { candidate }),
        Op::Auto(a, candidate, x, h, delegation_count_hint) => {
            dispatch(Some(a), SC::set_auto_compound { candidate, value: p(x), candidate_auto_compounding_delegation_count_hint: h, delegation_count_hint })
        },
        Op::Hotfix(a, candidates) => dispatch(Some(a), SC::hotfix_remove_delegation_requests_exited_candidates { candidates }),
        Op::Expect(o, e) => dispatch(o, SC::set_staking_expectations { expectations: range(e) }),
        Op::Inflation(o, e) => dispatch(o, SC::set_inflation { schedule: range(e.map(Perbill::from_parts)) }),
        Op::BondAccount(o, new) => dispatch(o, SC::set_parachain_bond_account { new }),
        Op::BondPercent(o, x) => dispatch(o, SC::set_parachain_bond_reserve_percent { new: p(x) }),
        Op::Selected(o, new) => dispatch(o, SC::set_total_selected { new }),
        Op::Commission(o, x) => dispatch(o, SC::set_collator_commission { new: Perbill::from_parts(x) }),
        Op::Length(o, new) => dispatch(o, SC::set_blocks_per_round { new }),
        Op::Author(a) => {
            <Staking as pallet_authorship::EventHandler<Acc, u32>>::note_author(a);
            Ok(())
        },
        Op::Block => {
            let n = System::block_number() + 1;
            System::set_block_number(n);
            Session::on_initialize(n);
            Staking::on_initialize(n);
            Ok(())
        },
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Books,
    Ranking,
    Candidates,
    Delegations,
    Requests,
    Rounds,
    Rewards,
    Governance,
    Compound,
    Escape,
}
fn belongs(op: &Op, pre: &St) -> W {
    match op {
        Op::Join(..) | Op::Leave(..) | Op::ExecLeave(..) | Op::CancelLeave(..) | Op::Offline(..) | Op::Online(..) | Op::More(..) | Op::Less(..) | Op::ExecLess(..) | Op::CancelLess(..) | Op::Hotfix(..) => W::Candidates,
        Op::Delegate(..) | Op::DelegateAuto(..) | Op::DelMore(..) => W::Delegations,
        Op::LeaveAll(..) | Op::ExecLeaveAll(..) | Op::CancelLeaveAll(..) | Op::Revoke(..) | Op::DelLess(..) | Op::ExecReq(..) | Op::CancelReq(..) => W::Requests,
        Op::Auto(..) => W::Compound,
        Op::Expect(..) | Op::Inflation(..) | Op::BondAccount(..) | Op::BondPercent(..) | Op::Selected(..) | Op::Commission(..) | Op::Length(..) => W::Governance,
        Op::Author(..) => W::Rewards,
        Op::Block => {
            if pre.now + 1 - pre.round.1 >= pre.round.2 {
                W::Rounds
            } else {
                W::Rewards
            }
        },
    }
}
fn tag(op: &Op) -> &'static str {
    match op {
        Op::Join(..) => "join",
        Op::Leave(..) => "schedule leave",
        Op::ExecLeave(..) => "leave",
        Op::CancelLeave(..) => "cancel leave",
        Op::Offline(..) => "go offline",
        Op::Online(..) => "go online",
        Op::More(..) => "bond more",
        Op::Less(..) => "schedule bond less",
        Op::ExecLess(..) => "bond less",
        Op::CancelLess(..) => "cancel bond less",
        Op::Delegate(..) => "delegate",
        Op::DelegateAuto(..) => "delegate with auto-compounding",
        Op::DelMore(..) => "delegate more",
        Op::LeaveAll(..) => "schedule leave of a delegator",
        Op::ExecLeaveAll(..) => "leave of a delegator",
        Op::CancelLeaveAll(..) => "cancel leave of a delegator",
        Op::Revoke(..) => "schedule revoke",
        Op::DelLess(..) => "schedule delegate less",
        Op::ExecReq(..) => "execute request",
        Op::CancelReq(..) => "cancel request",
        Op::Auto(..) => "set auto-compounding",
        Op::Hotfix(..) => "hotfix",
        Op::Expect(..) => "set expectations",
        Op::Inflation(..) => "set inflation",
        Op::BondAccount(..) => "set bond account",
        Op::BondPercent(..) => "set bond percent",
        Op::Selected(..) => "set total selected",
        Op::Commission(..) => "set commission",
        Op::Length(..) => "set blocks per round",
        Op::Author(..) => "author",
        Op::Block => "block",
    }
}

fn case(s: &mut Src, r: &mut Rec, w: W) -> Result<(), Fail> {
    let mut wd = world(s);
    let (mut ext, want, genesis) = start(s, &wd);
    r.log(|| format!("start with {} {} {} {:?} {:?}", genesis.1.blocks_per_round, genesis.1.num_selected_candidates, RewardPaymentDelay::get(), genesis.1.candidates, genesis.1.delegations));
    s.plan(20, 120);
    ext.execute_with(|| {
        let mut st = snap();
        if w == W::Books {
            if let Some((f, t)) = diff(&want, &st).into_iter().next() {
                return fail(format!("genesis: {f}"), format!("after genesis, {f} is not what it should be: {t}"));
            }
        }
        let issued: Bal = st.free.values().sum::<Bal>() + st.held.values().sum::<Bal>();
        while s.more() {
            let op = wd.next(s, &st);
            r.op();
            let ours = belongs(&op, &st) == w;
            let compound = w == W::Compound && matches!(op, Op::DelegateAuto(..));
            let res = if ours || compound {
                apply(&op)
            } else {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply(&op))) {
                    Ok(x) => x,
                    // somebody else's to report; nothing can be said of the state any more
                    Err(_) => return Ok(()),
                }
            };
            let got = snap();
            let mut m = M { s: st.clone(), got: &got };
            let want = m.step(&op);
            r.log(|| format!("{op:?} → {res:?}{}", want.err().map_or(String::new(), |x| format!(" (the model refuses: {x})"))));
            r.feature(pbt::fnv(7, format!("{}{}{}", tag(&op), res.is_ok(), res.as_ref().err().map_or("", |x| x.as_str())).as_bytes()));
            if ours || compound {
                match (&want, &res) {
                    (Err(why), Ok(())) => return fail(format!("{} accepted", tag(&op)), format!("{} is accepted although: {why}", tag(&op))),
                    (Ok(()), Err(e)) => return fail(format!("{} refused", tag(&op)), format!("{} is refused with {e} although nothing stands against it", tag(&op))),
                    (Err(_), Err(_)) => {
                        if let Some((f, t)) = diff(&st, &got).into_iter().next() {
                            return fail(format!("{} refused, yet {f} changed", tag(&op)), format!("a refused {} changes {f}: {t}", tag(&op)));
                        }
                    },
                    (Ok(()), Ok(())) => {
                        if let Some((f, t)) = diff(&m.s, &got).into_iter().next() {
                            return fail(format!("{}: {f}", tag(&op)), format!("after {}, {f} is not what it should be: {t}", tag(&op)));
                        }
                    },
                }
            }
            if res.is_ok() {
                r.label(tag(&op));
                if ours && (op != Op::Block || w == W::Rounds || st.delayed != got.delayed || st.at_stake != got.at_stake) && !matches!(op, Op::Author(_)) {
                    r.nontrivial();
                }
                if matches!(op, Op::Delegate(..) | Op::DelegateAuto(..)) && st.dels.iter().any(|(d, x)| got.dels.get(d).map_or(true, |y| y.bonds.len() < x.bonds.len())) {
                    r.label("delegation kicked");
                }
                if op == Op::Block && st.free != got.free {
                    r.label("rewards paid");
                }
            }
            match w {
                W::Books => books(&got, issued, r)?,
                W::Ranking => ranking(&got, r)?,
                W::Compound => {
                    for ((c, d), p) in &got.auto {
                        check!(got.dels.get(d).map_or(false, |x| x.bonds.iter().any(|b| b.0 == *c)), "compounding without delegation", "{d} compounds {p}% of its rewards for {c}, to which it does not delegate");
                    }
                },
                W::Rounds => session(&got)?,
                _ => {},
            }
            st = got;
        }
        if w == W::Escape {
            escape(st, r)?;
        }
        Ok(())
    })
}

fn books(st: &St, issued: Bal, r: &mut Rec) -> Result<(), Fail> {
    let now: Bal = st.free.values().sum::<Bal>() + st.held.values().sum::<Bal>();
    check_eq!(now, issued, "issuance", "balances add up to something else");
    check!(st.duplicates.is_empty(), "duplicates", "twice in a list: {:?}", st.duplicates);
    let mut total = 0;
    for a in ACCS {
        let h = |q| st.held.get(&(a, q)).copied().unwrap_or(0);
        let (c, d) = (st.cands.get(&a), st.dels.get(&a));
        check!(c.is_none() || d.is_none(), "both", "{a} is a candidate and a delegator");
        check_eq!(h(COL), c.map_or(0, |c| c.bond), "held for a bond", "what {a} has on hold as a candidate");
        check_eq!(h(DEL), d.map_or(0, |d| d.total), "held for delegations", "what {a} has on hold as a delegator");
        total += h(COL) + h(DEL);
        if let Some(c) = c {
            check!(c.bond >= MinCandidateStk::get(), "bond below the minimum", "candidate {a} has a bond of {}", c.bond);
            for (d, x) in c.top.iter().chain(&c.bottom) {
                let there = st.dels.get(d).and_then(|y| y.bonds.iter().find(|b| b.0 == a)).map(|b| b.1);
                check_eq!(there, Some(*x), "one sided delegation", "the delegation of {d} to {a} according to the delegator");
            }
        }
        if let Some(d) = d {
            r.nontrivial();
            check_eq!(d.total, sum(&d.bonds), "total of a delegator", "the total of delegator {a}");
            check!(!d.bonds.is_empty(), "no delegation", "delegator {a} has no delegation");
            check!(d.bonds.len() as u32 <= MaxDelegationsPerDelegator::get(), "too many delegations", "delegator {a} has {} delegations", d.bonds.len());
            let less: Bal = st.reqs.iter().filter(|q| q.0 .1 == a).map(|q| q.1 .2).sum();
            check_eq!(d.less, less, "to be taken", "what requests of delegator {a} will take");
            for (c, x) in &d.bonds {
                let n = st.cands.get(c).map_or(0, |m| m.top.iter().chain(&m.bottom).filter(|y| y.0 == a).count());
                check_eq!(n, 1, "delegation not listed", "how often {c} lists the delegation of {a}");
                check!(*x >= MinDelegation::get(), "delegation below the minimum", "{a} delegates {x} to {c}");
            }
        }
    }
    for ((c, d), q) in &st.reqs {
        let b = st.dels.get(d).and_then(|x| x.bonds.iter().find(|b| b.0 == *c)).map(|b| b.1);
        check!(b.is_some(), "request without delegation", "{d} has a request for {c}, to which it does not delegate");
        check!(if q.1 { b == Some(q.2) } else { b > Some(q.2) }, "amount of a request", "{d} requests {q:?} of {b:?} delegated to {c}");
    }
    check_eq!(st.total, total, "total", "the total stake");
    Ok(())
}
fn ranking(st: &St, r: &mut Rec) -> Result<(), Fail> {
    let mut pool = vec![];
    for (c, m) in &st.cands {
        let desc = |v: &[(Acc, Bal)]| v.windows(2).all(|x| x[0].1 >= x[1].1);
        check!(desc(&m.top) && desc(&m.bottom), "not sorted", "the delegations of {c} are not sorted: {:?} {:?}", m.top, m.bottom);
        check!(m.top.len() as u32 <= MaxTop::get() && m.bottom.len() as u32 <= MaxBottom::get(), "too many", "{c} has {} and {} delegations", m.top.len(), m.bottom.len());
        check!(m.bottom.is_empty() || m.top.len() as u32 == MaxTop::get(), "room at the top", "{c} has {} top delegations, and others below", m.top.len());
        if let (Some(t), Some(b)) = (m.top.last(), m.bottom.first()) {
            r.nontrivial();
            check!(t.1 >= b.1, "top below bottom", "a top delegation of {c} is {}, one below it {}", t.1, b.1);
        }
        check_eq!(m.top_total, sum(&m.top), "top total", "the total of the top delegations of {c}");
        check_eq!(m.bottom_total, sum(&m.bottom), "bottom total", "the total of the other delegations of {c}");
        check_eq!(m.count as usize, m.top.len() + m.bottom.len(), "delegation count", "the delegations of {c}");
        check_eq!(m.counted, m.bond + sum(&m.top), "counted", "what counts for {c}");
        check_eq!(m.lowest_top, m.top.last().map_or(0, |x| x.1), "lowest top", "the lowest top delegation of {c}");
        check_eq!(m.highest_bottom, m.bottom.first().map_or(0, |x| x.1), "highest bottom", "the highest delegation of {c} that does not count");
        check_eq!(m.lowest_bottom, m.bottom.last().map_or(0, |x| x.1), "lowest bottom", "the lowest delegation of {c}");
        let cap = |n: usize, max: u32| if n as u32 >= max { 2 } else { (n > 0) as u8 };
        check_eq!(m.caps, (cap(m.top.len(), MaxTop::get()), cap(m.bottom.len(), MaxBottom::get())), "capacity", "how full the lists of {c} are");
        if m.status.0 == 0 {
            pool.push((*c, m.counted));
        }
    }
    check_eq!(st.pool, pool, "pool", "the pool of candidates");
    Ok(())
}
/// what the session pallet asks
fn session(st: &St) -> Result<(), Fail> {
    let (_, first, len) = st.round;
    for n in [st.now, st.now + 1, first.saturating_add(len).saturating_sub(1), first.saturating_add(len)] {
        if n < first {
            continue;
        }
        check_eq!(<Staking as ShouldEndSession<u32>>::should_end_session(n), n - first >= len, "session end", "whether a session ends at block {n}, round from {first} of {len}");
        check_eq!(<Staking as EstimateNextSessionRotation<u32>>::estimate_current_session_progress(n).0, Some(Permill::from_rational(n - first, len)), "session progress", "the progress at {n}");
    }
    check_eq!(<Staking as SessionManager<Acc>>::new_session(9), if st.selected.is_empty() { None } else { Some(st.selected.clone()) }, "new session", "the collators of a session");
    check_eq!(<Staking as EstimateNextSessionRotation<u32>>::average_session_length(), len, "session length", "the length of a session");
    if let Some(x) = first.checked_add(len) {
        check_eq!(<Staking as EstimateNextSessionRotation<u32>>::estimate_next_session_rotation(st.now).0, Some(x), "next session", "the next rotation");
    }
    for a in ACCS {
        check_eq!(Staking::is_candidate(&a), st.cands.contains_key(&a), "is candidate", "{a}");
        check_eq!(Staking::is_delegator(&a), st.dels.contains_key(&a), "is delegator", "{a}");
        check_eq!(Staking::is_selected_candidate(&a), st.selected.contains(&a), "is selected", "{a}");
    }
    Ok(())
}
/// whoever wants out gets out, with everything
fn escape(st: St, r: &mut Rec) -> Result<(), Fail> {
    let run = |op: Op| {
        let x = apply(&op);
        (x, tag(&op))
    };
    let wait = |rounds: u32| {
        if rounds > 0 && st.round.2 < 50 {
            for _ in 0..rounds * st.round.2 {
                apply(&Op::Block).unwrap();
            }
        }
        st.round.2 < 50
    };
    // half of the delegators leave by the front door, whatever is pending; then every candidate
    let before: std::collections::BTreeMap<Acc, Bal> = ACCS.map(|a| (a, st.free.get(&a).copied().unwrap_or(0) + st.held.get(&(a, COL)).copied().unwrap_or(0) + st.held.get(&(a, DEL)).copied().unwrap_or(0))).collect();
    let mut leaving = vec![];
    for a in st.dels.keys().filter(|a| *a % 2 == 0) {
        let already = st.dels[a].bonds.iter().all(|b| st.reqs.get(&(b.0, *a)).map_or(false, |q| q.1));
        let (x, t) = run(Op::LeaveAll(*a));
        check!(x.is_ok() || already, format!("{t} stuck"), "delegator {a} cannot leave: {x:?}");
        leaving.push(*a);
    }
    for (c, m) in &st.cands {
        let (x, t) = run(Op::Leave(*c, 99));
        check!(x.is_ok() || m.status.0 == 2, format!("{t} stuck"), "candidate {c} cannot leave: {x:?}");
    }
    let worst = LeaveDelegatorsDelay::get().max(RevokeDelegationDelay::get()).max(LeaveCandidatesDelay::get());
    if !wait(worst) {
        return Ok(());
    }
    for a in &leaving {
        r.nontrivial();
        let (x, t) = run(Op::ExecLeaveAll(1, *a, 99));
        check!(x.is_ok(), format!("{t} stuck"), "delegator {a} cannot leave after {worst} rounds: {x:?}");
    }
    for c in st.cands.keys() {
        r.nontrivial();
        let (x, t) = run(Op::ExecLeave(1, *c, 99));
        check!(x.is_ok(), format!("{t} stuck"), "candidate {c} cannot leave after {worst} rounds: {x:?}");
    }
    let end = snap();
    check!(end.held.is_empty(), "left on hold", "everybody has left, this is still on hold: {:?}", end.held);
    check!(end.dels.is_empty() && end.cands.is_empty() && end.reqs.is_empty() && end.auto.is_empty() && end.pool.is_empty(), "left in the books", "everybody has left, this remains: {:?} {:?} {:?} {:?} {:?}", end.dels, end.cands, end.reqs, end.auto, end.pool);
    check_eq!(end.total, 0, "left in the total", "the total when everybody has left");
    for (a, x) in before {
        let y = end.free.get(&a).copied().unwrap_or(0);
        check!(y >= x, "lost stake", "{a} had {x} in all before leaving and has {y} after");
    }
    Ok(())
}

fn main() {
    const A: &[&str] = &[
        "a runtime of System, Balances, Session, Authorship and the staking pallet; pallet-session, pallet-authorship, pallet-aura, sp-consensus-aura and substrate-fixed are stand-ins, over which the pallet's own 279 tests pass",
        "pallet-balances and the per-thing arithmetic of sp-arithmetic are trusted; the annual rates are compared to floating point within one unit of the last place",
    ];
    let p = |id, rule, w: W, quick: u64| Prop { id, rule, quick, thorough: quick * 60, case: Box::new(move |s: &mut Src, r: &mut Rec| case(s, r, w)), assumptions: A, guided: 30 };
    pbt::main(vec![
        p("K01", "a delegator exists", W::Books, 4000),
        p("K02", "a candidate with delegations below the top", W::Ranking, 4000),
        p("K03", "an operation of a candidate accepted", W::Candidates, 4000),
        p("K04", "a delegation accepted or raised", W::Delegations, 4000),
        p("K05", "a request scheduled, cancelled or executed", W::Requests, 4000),
        p("K06", "a new round", W::Rounds, 4000),
        p("K07", "a collator of a round paid or passed over", W::Rewards, 4000),
        p("K08", "a setting changed", W::Governance, 4000),
        p("K09", "auto-compounding set", W::Compound, 4000),
        p("K10", "a delegator or candidate left", W::Escape, 4000),
    ]);
}
