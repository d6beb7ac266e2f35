mod rt;
mod world;
mod pure;

use pallet_democracy::{Conviction, HoldReason, VoteThreshold};
use pbt::{check, check_eq, fnv, Fail, Prop as PProp, Rec, Src};
use rt::*;
use sp_core::{H256, U512};
use std::collections::{BTreeMap, BTreeSet};
use world::*;

type R = Result<(), Fail>;

/// post-conviction votes, from the documented table (0.1x, 1x .. 6x)
fn votes_of(c: Conviction, bal: Bal) -> Bal {
    match c {
        Conviction::None => bal / 10,
        Conviction::Locked1x => bal,
        Conviction::Locked2x => bal.saturating_mul(2),
        Conviction::Locked3x => bal.saturating_mul(3),
        Conviction::Locked4x => bal.saturating_mul(4),
        Conviction::Locked5x => bal.saturating_mul(5),
        Conviction::Locked6x => bal.saturating_mul(6),
    }
}
/// lock periods, from the documented table (0, 1, 2, 4, 8, 16, 32)
fn periods_of(c: Conviction) -> u64 {
    match c {
        Conviction::None => 0,
        Conviction::Locked1x => 1,
        Conviction::Locked2x => 2,
        Conviction::Locked3x => 4,
        Conviction::Locked4x => 8,
        Conviction::Locked5x => 16,
        Conviction::Locked6x => 32,
    }
}
fn av_balance(v: &AV) -> Bal {
    match v {
        AV::Standard { balance, .. } => *balance,
        AV::Split { aye, nay } => aye.saturating_add(*nay),
    }
}

/// nays/sqrt(turnout) vs ayes/sqrt(electorate), exactly
pub fn approved_oracle(th: VoteThreshold, ayes: u128, nays: u128, turnout: u128, electorate: u128) -> bool {
    fn isqrt(n: u128) -> u128 {
        let (mut lo, mut hi) = (0u128, 1u128 << 64);
        while lo + 1 < hi {
            let mid = lo + (hi - lo) / 2;
            if mid.checked_mul(mid).map_or(false, |q| q <= n) {
                lo = mid
            } else {
                hi = mid
            }
        }
        lo
    }
    let (sv, se) = (isqrt(turnout), isqrt(electorate));
    if sv == 0 {
        return false;
    }
    let m = |a: u128, b: u128| U512::from(a) * U512::from(b);
    match th {
        VoteThreshold::SuperMajorityApprove => m(nays, se) < m(ayes, sv),
        VoteThreshold::SuperMajorityAgainst => m(nays, sv) < m(ayes, se),
        VoteThreshold::SimpleMajority => ayes > nays,
    }
}

/// What the history says should be there, kept independently of the pallet's storage.
#[derive(Default)]
struct Model {
    votes: BTreeMap<(Acc, u32), AV>,
    deleg: BTreeMap<Acc, (Acc, Conviction, Bal)>,
    /// conviction obligations: (account, until, amount)
    owed: Vec<(Acc, Bn, Bal)>,
    /// aggregated lock, as documented ("overlocking"): (until, amount)
    prior: BTreeMap<Acc, (Bn, Bal)>,
    refs: BTreeMap<u32, Ref>,
    /// proposals due: (block, tag)
    due: Vec<(Bn, u32)>,
    /// hash -> permanently blacklisted
    perm: BTreeSet<H256>,
    /// hash -> vetoed until, and by whom
    veto: BTreeMap<H256, (Bn, BTreeSet<Acc>)>,
    cancelled: BTreeSet<H256>,
    ext: Option<(H256, VoteThreshold)>,
    meta: BTreeMap<Own, H256>,
    deposits: BTreeMap<u32, (Vec<Acc>, Bal)>,
    last_launch: Option<(Bn, bool)>,
    /// first unfinished referendum at the end of the last block
    low: u32,
}

struct Step<'a> {
    w: &'a World,
    m: &'a mut Model,
    pre: &'a Snap,
    post: &'a Snap,
    op: &'a Op,
    ok: bool,
    err: &'a str,
    rec: &'a mut Rec,
    pre_can_hold: Option<bool>,
}

type Oracle = fn(&mut Step) -> R;

// ------------------------------------------------------------------ D01 tally
fn d01(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    match s.op {
        Op::Vote { o, r, v } => {
            let want = match o.acc() {
                None => false,
                Some(a) => {
                    let total = pre.money.get(&a).map(|m| m.total).unwrap_or(0);
                    let mine = s.m.votes.keys().filter(|k| k.0 == a).count() as u32;
                    pre.on(*r).is_some() &&
                        av_balance(v) <= total &&
                        !s.m.deleg.contains_key(&a) &&
                        (s.m.votes.contains_key(&(a, *r)) || mine < s.w.cfg.max_votes)
                },
            };
            check_eq!(s.ok, want, "vote acceptance", "vote on {r} ({})", s.err);
            if s.ok {
                let a = o.acc().unwrap();
                if s.m.votes.insert((a, *r), *v).is_some() {
                    s.rec.label("vote replaced");
                }
                if s.m.deleg.values().any(|d| d.0 == a) {
                    s.rec.label("vote by delegate");
                    s.rec.nontrivial();
                }
                if matches!(v, AV::Split { .. }) {
                    s.rec.label("split vote");
                }
            }
        },
        Op::RemoveVote { o, r } | Op::RemoveOther { o, r, .. } => {
            let target = match s.op {
                Op::RemoveOther { target, .. } => Some(*target),
                _ => o.acc(),
            };
            if let (true, Some(t)) = (s.ok, target) {
                if s.m.votes.remove(&(t, *r)).is_some() && pre.on(*r).is_some() {
                    s.rec.label("vote on ongoing removed");
                }
            }
        },
        Op::Delegate { o, to, conv, bal } if s.ok => {
            let a = o.acc().unwrap();
            if s.m.deleg.insert(a, (*to, *conv, *bal)).is_some() {
                s.rec.label("redelegation");
            }
            if s.m.votes.keys().any(|k| k.0 == *to && pre.on(k.1).is_some()) {
                s.rec.label("delegation to active voter");
                s.rec.nontrivial();
            }
        },
        Op::Undelegate { o } if s.ok => {
            let (to, ..) = s.m.deleg.remove(&o.acc().unwrap()).unwrap_or((0, Conviction::None, 0));
            if s.m.votes.keys().any(|k| k.0 == to && pre.on(k.1).is_some()) {
                s.rec.label("undelegation from active voter");
            }
        },
        _ => {},
    }
    for (r, info) in &post.refs {
        let Ref::On(on) = info else { continue };
        let (mut ayes, mut nays, mut turnout) = (0u128, 0u128, 0u128);
        for ((a, vr), v) in &s.m.votes {
            if vr != r {
                continue;
            }
            match v {
                AV::Standard { vote, balance } => {
                    let mut n = votes_of(vote.conviction, *balance);
                    turnout += balance;
                    for (t, c, b) in s.m.deleg.values() {
                        if t == a {
                            n += votes_of(*c, *b);
                            turnout += b;
                        }
                    }
                    if vote.aye {
                        ayes += n
                    } else {
                        nays += n
                    }
                },
                AV::Split { aye, nay } => {
                    ayes += aye / 10;
                    nays += nay / 10;
                    turnout += aye + nay;
                },
            }
        }
        check_eq!((on.ayes, on.nays, on.turnout), (ayes, nays, turnout), "tally", "tally (ayes, nays, turnout) of referendum {r}");
    }
    // what is recorded for each account is its last accepted vote
    for a in ACCS {
        let want: Vec<(u32, AV)> = s.m.votes.iter().filter(|(k, _)| k.0 == a).map(|(k, v)| (k.1, *v)).collect();
        let have = match post.v(a) {
            V::Direct { votes, .. } => votes,
            _ => vec![],
        };
        check_eq!(have, want, "recorded votes", "votes recorded for account {a}");
    }
    Ok(())
}

// ------------------------------------------------------------------ D02 outcome
fn d02(s: &mut Step) -> R {
    if let Op::Block = s.op {
        for (r, info) in &s.pre.refs {
            let Ref::On(on) = info else { continue };
            if let Some(Ref::Fin { approved, .. }) = s.post.refs.get(r) {
                let want = approved_oracle(on.th, on.ayes, on.nays, on.turnout, s.pre.electorate);
                check_eq!(
                    *approved,
                    want,
                    "outcome",
                    "referendum {r} ({:?}, ayes {}, nays {}, turnout {}, electorate {})",
                    on.th,
                    on.ayes,
                    on.nays,
                    on.turnout,
                    s.pre.electorate
                );
                s.rec.label(match (on.th, want) {
                    (VoteThreshold::SuperMajorityApprove, true) => "approve-majority passed",
                    (VoteThreshold::SuperMajorityApprove, false) => "approve-majority failed",
                    (VoteThreshold::SuperMajorityAgainst, true) => "against-majority passed",
                    (VoteThreshold::SuperMajorityAgainst, false) => "against-majority failed",
                    (VoteThreshold::SimpleMajority, true) => "simple-majority passed",
                    (VoteThreshold::SimpleMajority, false) => "simple-majority failed",
                });
                if on.ayes > 0 && on.nays > 0 {
                    s.rec.nontrivial();
                    s.rec.label("contested outcome");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ D03 freezes
fn d03(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    let now = post.now;
    let lock = s.w.cfg.lock;
    let mut changed: Option<Acc> = None;
    match s.op {
        Op::Vote { o, r, v } if s.ok => {
            let a = o.acc().unwrap();
            s.m.votes.insert((a, *r), *v);
            changed = Some(a);
            check_eq!(
                post.money[&a].frozen,
                pre.money[&a].frozen.max(av_balance(v)),
                "freeze after vote",
                "frozen balance of {a} after voting with {}",
                av_balance(v)
            );
        },
        Op::RemoveVote { o, r } | Op::RemoveOther { o, r, .. } => {
            let target = match s.op {
                Op::RemoveOther { target, .. } => Some(*target),
                _ => o.acc(),
            };
            if let Some(t) = target {
                let v = s.m.votes.get(&(t, *r)).copied();
                if let (Op::RemoveVote { .. }, Some(_)) = (s.op, v) {
                    check!(s.ok, "own vote not removable", "account {t} cannot remove its own vote on {r}: {}", s.err);
                }
                if s.ok {
                    if let (Some(v), Some(Ref::Fin { approved, end })) = (v, pre.refs.get(r)) {
                        if let AV::Standard { vote, balance } = v {
                            let until = end + lock * periods_of(vote.conviction);
                            if vote.aye == *approved && now < until {
                                s.m.owed.push((t, until, balance));
                                let p = s.m.prior.entry(t).or_insert((0, 0));
                                *p = (p.0.max(until), p.1.max(balance));
                                s.rec.label("winning vote removed under lock");
                                s.rec.nontrivial();
                            }
                        }
                    }
                    s.m.votes.remove(&(t, *r));
                }
            }
        },
        Op::Delegate { o, to, conv, bal } if s.ok => {
            let a = o.acc().unwrap();
            changed = Some(a);
            if let Some((_, c, b)) = s.m.deleg.insert(a, (*to, *conv, *bal)) {
                let until = now + lock * periods_of(c);
                s.m.owed.push((a, until, b));
                let p = s.m.prior.entry(a).or_insert((0, 0));
                *p = (p.0.max(until), p.1.max(b));
                s.rec.label("redelegation");
            }
            check_eq!(
                post.money[&a].frozen,
                pre.money[&a].frozen.max(*bal),
                "freeze after delegation",
                "frozen balance of {a} after delegating {bal}"
            );
        },
        Op::Undelegate { o } if s.ok => {
            let a = o.acc().unwrap();
            if let Some((_, c, b)) = s.m.deleg.remove(&a) {
                let until = now + lock * periods_of(c);
                s.m.owed.push((a, until, b));
                let p = s.m.prior.entry(a).or_insert((0, 0));
                *p = (p.0.max(until), p.1.max(b));
                if until > now {
                    s.rec.label("undelegated under lock");
                    s.rec.nontrivial();
                }
            }
        },
        Op::Unlock { o, target } => {
            check_eq!(s.ok, o.acc().is_some(), "unlock acceptance", "unlock of {target} ({})", s.err);
            if s.ok {
                changed = Some(*target);
                if let Some(p) = s.m.prior.get_mut(target) {
                    if now >= p.0 {
                        *p = (0, 0);
                    }
                }
                // nothing more than the recorded votes, the delegation and the aggregated lock stays frozen
                let mut most = s.m.prior.get(target).map(|p| p.1).unwrap_or(0);
                for (k, v) in &s.m.votes {
                    if k.0 == *target {
                        most = most.max(av_balance(v));
                    }
                }
                if let Some(d) = s.m.deleg.get(target) {
                    most = most.max(d.2);
                }
                let (a, b) = (pre.money[target].frozen, post.money[target].frozen);
                check!(b <= a, "unlock tightens", "unlock raised the frozen balance of {target} from {a} to {b}");
                check!(b <= most, "unlock leaves too much", "after unlock {target} has {b} frozen, but only {most} is still needed");
                if b < a {
                    s.rec.label("unlock released");
                    s.rec.nontrivial();
                }
                if b > 0 && s.m.prior.get(target).map_or(false, |p| p.1 > 0) {
                    s.rec.label("unlock under lock");
                }
            }
        },
        _ => {},
    }
    s.m.owed.retain(|(_, until, _)| now < *until);
    for a in ACCS {
        let have = post.money[&a].frozen;
        // a freeze changes only through a vote, a delegation or an unlock of that account
        if changed != Some(a) {
            check_eq!(have, pre.money[&a].frozen, "freeze changed", "frozen balance of {a} after {:?}", s.op);
        }
        let mut need = 0;
        let mut why = String::new();
        for (k, v) in &s.m.votes {
            if k.0 != a {
                continue;
            }
            let active = match (post.refs.get(&k.1), v) {
                (Some(Ref::On(_)), _) => true,
                (Some(Ref::Fin { approved, end }), AV::Standard { vote, .. }) =>
                    vote.aye == *approved && now < end + lock * periods_of(vote.conviction),
                _ => false,
            };
            if active && av_balance(v) > need {
                need = av_balance(v);
                why = format!("its vote on {}", k.1);
            }
        }
        if let Some(d) = s.m.deleg.get(&a) {
            if d.2 > need {
                need = d.2;
                why = "its delegation".into();
            }
        }
        for (b, until, amt) in &s.m.owed {
            if *b == a && *amt > need {
                need = *amt;
                why = format!("a conviction lock until {until}");
            }
        }
        check!(have >= need, "lock released early", "account {a} has {have} frozen at block {now}, but {why} needs {need}");
    }
    Ok(())
}

// ------------------------------------------------------------------ D04 deposits
fn d04(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    let cfg = &s.w.cfg;
    let mut slashed: Bal = 0;
    let mut total_delta: BTreeMap<Acc, i128> = BTreeMap::new();
    match s.op {
        Op::Propose { o, tag, value } => {
            let hash = s.w.tag_hash(*tag);
            let want = o.acc().is_some() &&
                *value >= cfg.min_dep &&
                (pre.props.len() as u32) < cfg.max_props &&
                !pre.blacklisted(hash) &&
                s.pre_can_hold == Some(true);
            check_eq!(s.ok, want, "propose acceptance", "propose with deposit {value} ({})", s.err);
            if s.ok {
                check_eq!(post.propcount, pre.propcount + 1, "proposal count", "public proposal count");
                s.m.deposits.insert(pre.propcount, (vec![o.acc().unwrap()], *value));
                check!(
                    post.props.iter().any(|p| *p == (pre.propcount, hash, o.acc().unwrap())),
                    "proposal not queued",
                    "accepted proposal {} is not in the queue",
                    pre.propcount
                );
            }
        },
        Op::Second { o, prop } => {
            let want = o.acc().is_some() &&
                s.m.deposits.get(prop).map_or(false, |d| (d.0.len() as u32) < cfg.max_deps) &&
                s.pre_can_hold == Some(true);
            check_eq!(s.ok, want, "second acceptance", "second of {prop} ({})", s.err);
            if s.ok {
                s.m.deposits.get_mut(prop).unwrap().0.push(o.acc().unwrap());
                s.rec.label("seconded");
                let d = &s.m.deposits[prop].0;
                if d.iter().filter(|x| **x == o.acc().unwrap()).count() > 1 {
                    s.rec.label("same account backs twice");
                }
            }
        },
        Op::CancelProposal { prop, .. } if s.ok => {
            if let Some((who, v)) = s.m.deposits.remove(prop) {
                for a in who {
                    slashed += v;
                    *total_delta.entry(a).or_insert(0) -= v as i128;
                }
                s.rec.label("proposal cancelled and slashed");
                s.rec.nontrivial();
            }
            check!(!post.props.iter().any(|p| p.0 == *prop), "cancelled proposal queued", "cancelled proposal {prop} is still queued");
        },
        Op::Blacklist { hash, .. } if s.ok => {
            // a proposal removed from the queue loses its deposits
            for p in pre.props.iter().filter(|p| p.1 == *hash) {
                if !post.props.iter().any(|q| q.0 == p.0) {
                    if let Some((who, v)) = s.m.deposits.remove(&p.0) {
                        for a in who {
                            slashed += v;
                            *total_delta.entry(a).or_insert(0) -= v as i128;
                        }
                        s.rec.label("proposal blacklisted and slashed");
                        s.rec.nontrivial();
                    }
                }
            }
        },
        Op::Block => {
            for p in &pre.props {
                if !post.props.iter().any(|q| q.0 == p.0) {
                    if let Some((who, _)) = s.m.deposits.remove(&p.0) {
                        s.rec.label("tabled and refunded");
                        if who.len() > 1 {
                            s.rec.nontrivial();
                        }
                    }
                }
            }
        },
        Op::Mint { to, amount } if s.ok => *total_delta.entry(*to).or_insert(0) += *amount as i128,
        Op::Transfer { .. } => {},
        _ => {},
    }
    check_eq!(post.deposits, s.m.deposits, "deposit records", "recorded deposits");
    for i in s.w.cfg.past.1..post.propcount + 1 {
        let want = s.m.deposits.get(&i).map(|(who, v)| v * who.len() as u128);
        check_eq!(rt::Democracy::backing_for(i), want, "backing", "reported backing of proposal {i}");
    }
    for a in ACCS {
        let mut want: Bal = 0;
        for (who, v) in s.m.deposits.values() {
            want += v * who.iter().filter(|x| **x == a).count() as u128;
        }
        check_eq!(post.money[&a].held, want, "held deposit", "balance of {a} held for proposals after {:?}", s.op);
        if !matches!(s.op, Op::Transfer { .. }) {
            let d = post.money[&a].total as i128 - pre.money[&a].total as i128;
            check_eq!(d, total_delta.get(&a).copied().unwrap_or(0), "deposit total", "change of the total balance of {a} after {:?}", s.op);
        }
    }
    check_eq!(post.slashed - pre.slashed, slashed, "slashed amount", "amount handed to the slash handler");
    Ok(())
}

// ------------------------------------------------------------------ D05 referendum life
fn d05(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    let block = matches!(s.op, Op::Block);
    let mut born = 0;
    for (r, info) in &post.refs {
        if !s.m.refs.contains_key(r) {
            check_eq!(*r, pre.refcount + born, "referendum index", "index of a new referendum");
            check!(
                block || (matches!(s.op, Op::FastTrack { .. } | Op::Start { .. }) && s.ok),
                "referendum out of nowhere",
                "referendum {r} appeared after {:?}",
                s.op
            );
            let Ref::On(on) = info else { return pbt::fail("born finished", format!("referendum {r} started finished")) };
            if block {
                check_eq!((on.end, on.delay), (post.now + s.w.cfg.voting, s.w.cfg.enact), "tabled terms", "end and delay of tabled referendum {r}");
            }
            if let Op::Start { tag, th, delay } = s.op {
                check_eq!(
                    (on.end, on.delay, on.th, on.hash),
                    (post.now + s.w.cfg.voting, *delay, *th, s.w.tag_hash(*tag)),
                    "started terms",
                    "terms of the referendum {r} started by runtime code"
                );
                s.rec.label("referendum started by runtime code");
            }
            check!(on.end > post.now || s.w.cfg.voting == 0, "ends in the past", "referendum {r} ends at {} <= {}", on.end, post.now);
            born += 1;
            s.m.refs.insert(*r, info.clone());
        }
    }
    check_eq!(post.refcount, pre.refcount + born, "referendum count", "referendum count");
    let known: Vec<u32> = s.m.refs.keys().copied().collect();
    for r in known {
        let old = s.m.refs[&r].clone();
        let new = post.refs.get(&r);
        match (&old, new) {
            (Ref::On(a), Some(Ref::On(b))) => {
                check!(
                    (a.end, a.hash, a.th, a.delay) == (b.end, b.hash, b.th, b.delay),
                    "terms changed",
                    "the terms of ongoing referendum {r} changed: {a:?} -> {b:?}"
                );
                check!(post.now < a.end, "not decided at its end", "referendum {r} ended at {} but is still ongoing at {}", a.end, post.now);
                check!(post.lowest <= r, "skipped", "referendum {r} is ongoing but the pallet looks only from {}", post.lowest);
            },
            (Ref::On(a), Some(Ref::Fin { approved, end })) => {
                check!(block && a.end == post.now && *end == post.now, "decided at the wrong time", "referendum {r} with end {} was decided at {} (recorded end {end})", a.end, post.now);
                if *approved {
                    s.m.due.push((post.now.saturating_add(a.delay.max(1)), s.w.hash_tag(a.hash)));
                    s.rec.label("approved");
                    s.rec.nontrivial();
                    if a.delay == 0 {
                        s.rec.label("approved with zero delay");
                    }
                } else {
                    s.rec.label("rejected");
                }
            },
            (Ref::On(a), None) => {
                let by = match s.op {
                    Op::EmergencyCancel { r: x, .. } | Op::CancelReferendum { r: x, .. } => *x == r,
                    Op::Blacklist { r: x, hash, .. } => *x == Some(r) && *hash == a.hash,
                    _ => false,
                };
                check!(by && s.ok, "referendum vanished", "ongoing referendum {r} vanished after {:?}", s.op);
                s.rec.label("cancelled");
                s.m.refs.remove(&r);
                continue;
            },
            (Ref::Fin { .. }, Some(b)) => check_eq!(*b, old, "result changed", "result of referendum {r}"),
            (Ref::Fin { .. }, None) => {
                let by = matches!(s.op, Op::CancelReferendum { r: x, .. } if *x == r) && s.ok;
                check!(by, "result vanished", "result of {r} vanished after {:?}", s.op);
                s.m.refs.remove(&r);
                continue;
            },
        }
        if let Some(n) = new {
            s.m.refs.insert(r, n.clone());
        }
    }
    match s.op {
        Op::EmergencyCancel { r, .. } | Op::CancelReferendum { r, .. } if s.ok =>
            check!(post.on(*r).is_none(), "cancel ignored", "referendum {r} is still ongoing after {:?}", s.op),
        _ => {},
    }
    // what the pallet says is due at a block
    let ends: BTreeSet<Bn> = post.refs.values().filter_map(|i| if let Ref::On(o) = i { Some(o.end) } else { None }).collect();
    for n in ends.iter().flat_map(|e| [e.saturating_sub(1), *e, e.saturating_add(1)]).collect::<BTreeSet<_>>() {
        let want: Vec<(u32, Bn, Bal, Bal, Bal)> =
            post.refs.iter().filter_map(|(r, i)| match i { Ref::On(o) if o.end == n => Some((*r, o.end, o.ayes, o.nays, o.turnout)), _ => None }).collect();
        let got: Vec<(u32, Bn, Bal, Bal, Bal)> = rt::Democracy::maturing_referenda_at(n).into_iter().map(|(r, st)| (r, st.end, st.tally.ayes, st.tally.nays, st.tally.turnout)).collect();
        check_eq!(got, want, "maturing", "referenda reported as ready for tally at {n}");
    }
    if block {
        let mut want: Vec<u32> = s.m.due.iter().filter(|d| d.0 == post.now).map(|d| d.1).collect();
        let mut have = post.probes.clone();
        want.sort();
        have.sort();
        if !want.is_empty() {
            s.rec.label("enacted");
        }
        check_eq!(have, want, "enactment", "proposals executed in block {}", post.now);
        s.m.due.retain(|d| d.0 > post.now);
    }
    Ok(())
}

// ------------------------------------------------------------------ D06 tabling
fn d06(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    if !matches!(s.op, Op::Block) {
        return Ok(());
    }
    let due = post.now % s.w.cfg.launch == 0;
    let fresh: Vec<(u32, &Ongoing)> = post
        .refs
        .iter()
        .filter(|(r, _)| !pre.refs.contains_key(r))
        .filter_map(|(r, i)| match i {
            Ref::On(o) => Some((*r, o)),
            _ => None,
        })
        .collect();
    if !due {
        check!(fresh.is_empty(), "tabled off schedule", "referendum tabled in block {} with launch period {}", post.now, s.w.cfg.launch);
        check!(pre.props == post.props && pre.ext == post.ext, "queue changed off schedule", "queues changed in block {}", post.now);
        return Ok(());
    }
    let (pub_q, ext_q) = (!pre.props.is_empty(), pre.ext.is_some());
    check_eq!(fresh.len(), (pub_q || ext_q) as usize, "launch count", "referenda tabled at launch block {} (public waiting: {pub_q}, external waiting: {ext_q})", post.now);
    if !(pub_q || ext_q) {
        s.m.last_launch = None;
        return Ok(());
    }
    let (r, on) = fresh[0];
    // external or public?
    let took_ext = ext_q && post.ext.is_none();
    let took_pub = post.props.len() + 1 == pre.props.len();
    check!(took_ext != took_pub, "launch source", "launch took external: {took_ext}, public: {took_pub}");
    check_eq!(on.end, post.now + s.w.cfg.voting, "tabled end", "end of referendum {r}");
    check_eq!(on.delay, s.w.cfg.enact, "tabled delay", "delay of referendum {r}");
    check_eq!((on.ayes, on.nays, on.turnout), (0, 0, 0), "tabled tally", "initial tally of referendum {r}");
    if took_ext {
        check_eq!((on.hash, on.th), pre.ext.unwrap(), "tabled external", "proposal and threshold of referendum {r}");
        check_eq!(post.props, pre.props, "public queue", "public queue when an external was tabled");
        s.rec.label("external tabled");
    } else {
        check_eq!(post.ext, pre.ext, "external queue", "external when a public was tabled");
        check_eq!(on.th, VoteThreshold::SuperMajorityApprove, "public threshold", "threshold of a public referendum");
        let gone: Vec<&(u32, H256, Acc)> = pre.props.iter().filter(|p| !post.props.contains(p)).collect();
        check_eq!(gone.len(), 1, "public queue", "proposals that left the queue");
        check_eq!(on.hash, gone[0].1, "tabled public", "proposal of referendum {r}");
        let backing = |i: u32| pre.deposits.get(&i).map(|d| d.1 * d.0.len() as u128).unwrap_or(0);
        let best = pre.props.iter().map(|p| backing(p.0)).max().unwrap();
        check_eq!(backing(gone[0].0), best, "not the best backed", "backing of the tabled proposal {} (queue: {:?})", gone[0].0, pre.props.iter().map(|p| (p.0, backing(p.0))).collect::<Vec<_>>());
        s.rec.label("public tabled");
        if pre.props.len() > 1 {
            s.rec.label("public tabled among several");
            s.rec.nontrivial();
        }
    }
    if pub_q && ext_q {
        s.rec.label("both queues waiting");
        s.rec.nontrivial();
        if let Some((_, was_ext)) = s.m.last_launch {
            check_eq!(took_ext, !was_ext, "alternation", "external tabled at {} (previous launch tabled an external: {was_ext})", post.now);
        }
    }
    s.m.last_launch = Some((post.now, took_ext));
    Ok(())
}

// ------------------------------------------------------------------ D07 suppression
fn d07(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    let now = pre.now;
    let barred = |m: &Model, h: &H256| m.perm.contains(h) || m.veto.get(h).map_or(false, |v| now < v.0);
    match s.op {
        Op::Propose { tag, .. } | Op::External { tag, .. } => {
            let h = s.w.tag_hash(*tag);
            if barred(s.m, &h) {
                check!(!s.ok, "barred proposal accepted", "proposal {tag} is {} but was accepted by {:?} at {now}", if s.m.perm.contains(&h) { "blacklisted" } else { "vetoed" }, s.op);
                s.rec.label("barred proposal refused");
                s.rec.nontrivial();
            } else {
                check!(s.ok || !s.err.contains("Blacklisted"), "free proposal barred", "proposal {tag} refused as blacklisted at {now}, veto {:?}", s.m.veto.get(&h));
                if s.ok && s.m.veto.contains_key(&h) {
                    s.rec.label("accepted after cool-off");
                }
            }
        },
        Op::Veto { o, hash } => {
            let right = o.acc().map_or(false, |a| [1, 2, 3, 21, 22].contains(&a));
            let vetoers = s.m.veto.get(hash).map(|v| v.1.clone()).unwrap_or_default();
            let want = right &&
                pre.ext.map(|e| e.0) == Some(*hash) &&
                !vetoers.contains(&o.acc().unwrap()) &&
                (vetoers.len() as u32) < s.w.cfg.max_bl;
            check_eq!(s.ok, want, "veto acceptance", "veto by {o:?} ({}), earlier vetoers {vetoers:?}", s.err);
            if s.ok {
                let e = s.m.veto.entry(*hash).or_default();
                e.0 = now + s.w.cfg.cool;
                e.1.insert(o.acc().unwrap());
                check!(post.ext.is_none(), "vetoed external queued", "the vetoed external is still queued");
                s.rec.label("vetoed");
                if s.m.perm.contains(hash) {
                    s.rec.label("veto of a blacklisted proposal");
                }
            }
        },
        Op::Blacklist { o, hash, r } => {
            check_eq!(s.ok, o.is(18), "blacklist acceptance", "blacklist by {o:?} ({})", s.err);
            if s.ok {
                s.m.perm.insert(*hash);
                s.m.veto.remove(hash);
                let left = post.hash_is_queued(*hash);
                if pre.hash_is_queued(*hash) > 0 {
                    s.rec.label("blacklisted while queued");
                }
                if pre.hash_is_queued(*hash) > 1 {
                    s.rec.label("blacklisted while queued twice");
                }
                check!(left == 0, "blacklisted public queued", "{left} public proposals with the blacklisted hash are still queued");
                check!(post.ext.map(|e| e.0) != Some(*hash), "blacklisted external queued", "the blacklisted external is still queued");
                for (i, h, _) in &pre.props {
                    if h != hash {
                        check!(post.props.iter().any(|p| p.0 == *i), "innocent removed", "proposal {i} was removed by blacklisting another");
                    }
                }
                if pre.ext.map(|e| e.0) != Some(*hash) {
                    check_eq!(post.ext, pre.ext, "innocent removed", "external after blacklisting another");
                }
                if let Some(r) = r {
                    if let Some(on) = pre.on(*r) {
                        check_eq!(post.on(*r).is_none(), on.hash == *hash, "blacklist referendum", "referendum {r} cancelled by blacklisting");
                        if on.hash == *hash {
                            s.rec.label("blacklisted referendum cancelled");
                        }
                    }
                }
            }
        },
        Op::EmergencyCancel { o, r } => {
            let h = pre.on(*r).map(|o| o.hash);
            let want = o.is(15) && h.map_or(false, |h| !s.m.cancelled.contains(&h));
            check_eq!(s.ok, want, "emergency cancel acceptance", "emergency cancel of {r} by {o:?} ({})", s.err);
            if let (true, false) = (h.map_or(false, |h| s.m.cancelled.contains(&h)), s.ok) {
                s.rec.label("second emergency cancel refused");
                s.rec.nontrivial();
            }
            if s.ok {
                s.m.cancelled.insert(h.unwrap());
                check!(post.on(*r).is_none(), "cancel ignored", "referendum {r} still ongoing");
            }
        },
        Op::CancelProposal { o, prop } => {
            check_eq!(s.ok, o.is(19), "cancel proposal acceptance", "cancel of {prop} by {o:?} ({})", s.err);
            if s.ok {
                let want: Vec<_> = pre.props.iter().filter(|p| p.0 != *prop).cloned().collect();
                check_eq!(post.props, want, "cancel proposal", "queue after cancelling {prop}");
            }
        },
        Op::CancelReferendum { o, r } => {
            check_eq!(s.ok, *o == Org::Root, "cancel referendum acceptance", "cancel of {r} by {o:?} ({})", s.err);
            if s.ok {
                check!(post.on(*r).is_none(), "cancel ignored", "referendum {r} still ongoing");
            }
        },
        _ => {},
    }
    // no one else may drop a queued proposal or a referendum
    Ok(())
}

// ------------------------------------------------------------------ D08 externals
fn d08(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    let mut want_ext = s.m.ext;
    match s.op {
        Op::External { o, tag } => {
            let h = s.w.tag_hash(*tag);
            let want = o.is(12) && pre.ext.is_none() && !pre.blacklisted(h);
            check_eq!(s.ok, want, "external acceptance", "external_propose by {o:?} ({})", s.err);
            if s.ok {
                want_ext = Some((h, VoteThreshold::SuperMajorityApprove));
            }
        },
        Op::ExternalMajority { o, tag } | Op::ExternalDefault { o, tag } => {
            let (right, th) = match s.op {
                Op::ExternalMajority { .. } => (13, VoteThreshold::SimpleMajority),
                _ => (14, VoteThreshold::SuperMajorityAgainst),
            };
            check_eq!(s.ok, o.is(right), "external acceptance", "{:?} ({})", s.op, s.err);
            if s.ok {
                if pre.ext.is_some() {
                    s.rec.label("external replaced");
                }
                want_ext = Some((s.w.tag_hash(*tag), th));
            }
        },
        Op::FastTrack { o, hash, period, delay } => {
            let may = (*period >= s.w.cfg.ft && o.is(16)) || (o.is(17) && s.w.cfg.instant);
            let want = may &&
                *period > 0 &&
                pre.ext.map_or(false, |(h, th)| h == *hash && th != VoteThreshold::SuperMajorityApprove);
            check_eq!(s.ok, want, "fast-track acceptance", "fast_track of {:?} by {o:?} with period {period}, external {:?} ({})", s.w.hash_tag(*hash), pre.ext, s.err);
            if s.ok {
                let r = pre.refcount;
                let Some(on) = post.on(r) else { return pbt::fail("fast-track no referendum", format!("no referendum {r} after fast_track")) };
                let (h, th) = pre.ext.unwrap();
                check_eq!((on.end, on.hash, on.th, on.delay), (pre.now.saturating_add(*period), h, th, *delay), "fast-track terms", "terms of fast-tracked referendum {r}");
                want_ext = None;
                s.rec.label(if o.is(17) { "instant fast-track" } else { "fast-track" });
                s.rec.nontrivial();
            } else if may && pre.ext.map_or(false, |e| e.1 == VoteThreshold::SuperMajorityApprove && e.0 == *hash) {
                s.rec.label("fast-track of a super-majority external refused");
            }
        },
        Op::Veto { .. } if s.ok => want_ext = None,
        Op::Blacklist { hash, .. } if s.ok =>
            if want_ext.map(|e| e.0) == Some(*hash) {
                want_ext = None
            },
        Op::Block =>
            if post.ext.is_none() {
                // tabled: judged by the tabling property
                let r = pre.refcount;
                if let (Some((h, th)), Some(on)) = (want_ext, post.on(r)) {
                    check_eq!((on.hash, on.th), (h, th), "tabled external", "proposal and threshold of the tabled external {r}");
                    check_eq!((on.end, on.delay), (post.now + s.w.cfg.voting, s.w.cfg.enact), "tabled external terms", "end and delay of the tabled external {r}");
                    s.rec.label("external tabled");
                    want_ext = None;
                }
            },
        _ => {},
    }
    check_eq!(post.ext, want_ext, "external slot", "queued external after {:?}", s.op);
    s.m.ext = want_ext;
    Ok(())
}

// ------------------------------------------------------------------ D09 metadata
fn d09(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    let m = &mut s.m.meta;
    match s.op {
        Op::SetMetadata { o, owner, hash } => {
            let may = match owner {
                Own::External => match pre.ext {
                    None => false,
                    Some((_, VoteThreshold::SuperMajorityApprove)) => o.is(12),
                    Some((_, VoteThreshold::SimpleMajority)) => o.is(13),
                    Some((_, VoteThreshold::SuperMajorityAgainst)) => o.is(14),
                },
                Own::Proposal(i) => o.acc().is_some() && pre.props.iter().find(|p| p.0 == *i).map(|p| p.2) == o.acc(),
                Own::Referendum(i) => match o {
                    Org::Root => true,
                    Org::S(_) => hash.is_none() && pre.on(*i).is_none(),
                    Org::None => false,
                },
            };
            let want = may && hash.map_or(true, |h| s.w.known(&h));
            check_eq!(s.ok, want, "metadata acceptance", "{:?} ({})", s.op, s.err);
            if s.ok {
                match hash {
                    Some(h) => {
                        m.insert(*owner, *h);
                        s.rec.label("metadata set");
                    },
                    None =>
                        if m.remove(owner).is_some() {
                            s.rec.label("metadata cleared")
                        },
                }
            } else {
                s.rec.label("metadata refused");
            }
        },
        Op::FastTrack { .. } if s.ok =>
            if let Some(h) = m.remove(&Own::External) {
                m.insert(Own::Referendum(pre.refcount), h);
                s.rec.label("metadata moved");
                s.rec.nontrivial();
            },
        Op::Block => {
            if pre.ext.is_some() && post.ext.is_none() {
                if let Some(h) = m.remove(&Own::External) {
                    m.insert(Own::Referendum(pre.refcount), h);
                    s.rec.label("metadata moved");
                    s.rec.nontrivial();
                }
            }
            for p in pre.props.iter().filter(|p| !post.props.contains(p)) {
                if let Some(h) = m.remove(&Own::Proposal(p.0)) {
                    m.insert(Own::Referendum(pre.refcount), h);
                    s.rec.label("metadata moved");
                    s.rec.nontrivial();
                }
            }
        },
        Op::Veto { .. } if s.ok => drop(m.remove(&Own::External)),
        Op::Blacklist { hash, .. } if s.ok => {
            for p in pre.props.iter().filter(|p| p.1 == *hash) {
                if !post.props.contains(p) {
                    m.remove(&Own::Proposal(p.0));
                }
            }
            if pre.ext.map(|e| e.0) == Some(*hash) {
                m.remove(&Own::External);
            }
            for r in pre.refs.keys() {
                if pre.on(*r).is_some() && !post.refs.contains_key(r) {
                    m.remove(&Own::Referendum(*r));
                }
            }
        },
        Op::CancelProposal { prop, .. } if s.ok => drop(m.remove(&Own::Proposal(*prop))),
        Op::EmergencyCancel { r, .. } | Op::CancelReferendum { r, .. } if s.ok => drop(m.remove(&Own::Referendum(*r))),
        _ => {},
    }
    check_eq!(post.meta, *m, "metadata", "metadata map after {:?}", s.op);
    Ok(())
}

// ------------------------------------------------------------------ D10 isolation
fn d10(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    let now = pre.now;
    let needs: Option<(Org, bool)> = match s.op {
        Op::EmergencyCancel { o, .. } => Some((*o, o.is(15))),
        Op::External { o, .. } => Some((*o, o.is(12))),
        Op::ExternalMajority { o, .. } => Some((*o, o.is(13))),
        Op::ExternalDefault { o, .. } => Some((*o, o.is(14))),
        Op::FastTrack { o, .. } => Some((*o, o.is(16) || (o.is(17) && s.w.cfg.instant))),
        Op::Veto { o, .. } => Some((*o, o.acc().map_or(false, |a| [1, 2, 3, 21, 22].contains(&a)))),
        Op::CancelReferendum { o, .. } | Op::ClearPublic { o } => Some((*o, *o == Org::Root)),
        Op::Blacklist { o, .. } => Some((*o, o.is(18))),
        Op::CancelProposal { o, .. } => Some((*o, o.is(19))),
        Op::Propose { o, .. } |
        Op::Second { o, .. } |
        Op::Vote { o, .. } |
        Op::Delegate { o, .. } |
        Op::Undelegate { o } |
        Op::Unlock { o, .. } |
        Op::RemoveVote { o, .. } |
        Op::RemoveOther { o, .. } => Some((*o, o.acc().is_some())),
        _ => None,
    };
    if let Some((o, may)) = needs {
        if !may {
            check!(!s.ok, "unauthorised call", "{:?} succeeded with origin {o:?}", s.op);
            s.rec.label("unauthorised call refused");
        }
    }
    let signer = match s.op {
        Op::Vote { o, .. } | Op::Delegate { o, .. } | Op::Undelegate { o } | Op::RemoveVote { o, .. } => o.acc(),
        _ => None,
    };
    if let Op::RemoveOther { o, target, r } = s.op {
        if s.ok && o.acc() != Some(*target) {
            // only a vote that has expired
            let v = match pre.v(*target) {
                V::Direct { votes, .. } => votes.iter().find(|v| v.0 == *r).map(|v| v.1),
                _ => None,
            };
            if let Some(v) = v {
                let expired = match (pre.refs.get(r), v) {
                    (Some(Ref::On(_)), _) => false,
                    (Some(Ref::Fin { approved, end }), AV::Standard { vote, .. }) =>
                        vote.aye != *approved || now >= end + s.w.cfg.lock * periods_of(vote.conviction),
                    _ => true,
                };
                check!(expired, "live vote removed by another", "{o:?} removed the live vote of {target} on {r}");
                s.rec.label("expired vote removed by another");
                s.rec.nontrivial();
            }
        } else if !s.ok && o.acc().is_some() {
            let v = match pre.v(*target) {
                V::Direct { votes, .. } => votes.iter().find(|v| v.0 == *r).map(|v| v.1),
                _ => None,
            };
            if let Some(v) = v {
                let expired = match (pre.refs.get(r), v) {
                    (Some(Ref::On(_)), _) => false,
                    (Some(Ref::Fin { approved, end }), AV::Standard { vote, .. }) =>
                        vote.aye != *approved || now >= end + s.w.cfg.lock * periods_of(vote.conviction),
                    _ => true,
                };
                check!(!expired && o.acc() != Some(*target), "expired vote not removable", "{o:?} cannot remove the expired vote of {target} on {r}: {}", s.err);
                s.rec.label("live vote protected");
            }
        }
    }
    for a in ACCS {
        let (x, y) = (pre.v(a), post.v(a));
        if signer != Some(a) {
            // votes and the delegation of others never change, except an expired vote taken out by remove_other_vote
            let (mut vx, vy) = (own(&x), own(&y));
            if let Op::RemoveOther { target, r, .. } = s.op {
                if s.ok && *target == a {
                    vx.0.retain(|v| v.0 != *r);
                }
            }
            check_eq!(vy, vx, "foreign vote", "votes and delegation of {a} after {:?}", s.op);
            let unlocked = matches!(s.op, Op::Unlock { target, .. } if *target == a);
            let removed = matches!(s.op, Op::RemoveOther { target, .. } if *target == a);
            if !unlocked && !removed {
                check_eq!(lockd(&y), lockd(&x), "foreign lock", "recorded lock of {a} after {:?}", s.op);
            }
            let (fx, fy) = (pre.money[&a].frozen, post.money[&a].frozen);
            if unlocked {
                check!(fy <= fx, "foreign freeze", "unlock by another raised the freeze of {a}");
            } else {
                check_eq!(fy, fx, "foreign freeze", "freeze of {a} after {:?}", s.op);
            }
        }
        let payer = match s.op {
            Op::Propose { o, .. } | Op::Second { o, .. } => o.acc(),
            _ => None,
        };
        if payer != Some(a) {
            check!(
                post.money[&a].held <= pre.money[&a].held,
                "foreign deposit",
                "held balance of {a} grew after {:?}",
                s.op
            );
        }
        if !s.ok {
            check_eq!(post.money[&a], pre.money[&a], "failed call", "balances of {a} after a refused call {:?}", s.op);
        }
    }
    if !s.ok {
        check!(
            pre.refs == post.refs &&
                pre.props == post.props &&
                pre.deposits == post.deposits &&
                pre.ext == post.ext &&
                pre.voting == post.voting &&
                pre.bl == post.bl &&
                pre.meta == post.meta &&
                pre.canc == post.canc,
            "failed call",
            "a refused call changed state: {:?}",
            s.op
        );
    }
    Ok(())
}
fn own(v: &V) -> (Vec<(u32, AV)>, Option<(Acc, u8, Bal)>) {
    match v {
        V::Direct { votes, .. } => (votes.clone(), None),
        V::Delegating { target, conv, bal, .. } => (vec![], Some((*target, u8::from(*conv), *bal))),
    }
}
fn lockd(v: &V) -> Bal {
    match v {
        V::Direct { prior, .. } | V::Delegating { prior, .. } => *prior,
    }
}

// ------------------------------------------------------------------ D11 delegation
fn d11(s: &mut Step) -> R {
    let (pre, post) = (s.pre, s.post);
    match s.op {
        Op::Delegate { o, to, conv, bal } => {
            let want = o.acc().map_or(false, |a| {
                a != *to &&
                    *bal <= pre.money[&a].total &&
                    (s.m.deleg.contains_key(&a) || !s.m.votes.keys().any(|k| k.0 == a))
            });
            check_eq!(s.ok, want, "delegate acceptance", "{:?} ({})", s.op, s.err);
            if s.ok {
                let a = o.acc().unwrap();
                if s.m.deleg.insert(a, (*to, *conv, *bal)).is_some() {
                    s.rec.label("redelegated");
                    s.rec.nontrivial();
                }
                if s.m.deleg.contains_key(to) {
                    s.rec.label("delegated to a delegator");
                }
                if s.m.deleg.values().any(|d| d.0 == a) {
                    s.rec.label("a delegate delegates");
                }
            }
        },
        Op::Undelegate { o } => {
            let want = o.acc().map_or(false, |a| s.m.deleg.contains_key(&a));
            check_eq!(s.ok, want, "undelegate acceptance", "{:?} ({})", s.op, s.err);
            if s.ok {
                s.m.deleg.remove(&o.acc().unwrap());
                s.rec.label("undelegated");
                s.rec.nontrivial();
            }
        },
        Op::Vote { o, r, v } => {
            if s.ok {
                let a = o.acc().unwrap();
                check!(!s.m.deleg.contains_key(&a), "delegator voted", "delegating account {a} voted");
                s.m.votes.insert((a, *r), *v);
            }
        },
        Op::RemoveVote { o, r } if s.ok => drop(s.m.votes.remove(&(o.acc().unwrap(), *r))),
        Op::RemoveOther { target, r, .. } if s.ok => drop(s.m.votes.remove(&(*target, *r))),
        _ => {},
    }
    for a in ACCS {
        let (mut votes, mut capital) = (0u128, 0u128);
        for (t, c, b) in s.m.deleg.values() {
            if *t == a {
                votes += votes_of(*c, *b);
                capital += b;
            }
        }
        let (d, own) = match post.v(a) {
            V::Direct { del, .. } => (del, None),
            V::Delegating { del, target, conv, bal, .. } => (del, Some((target, conv, bal))),
        };
        check_eq!(d, (votes, capital), "delegated power", "votes and capital delegated to {a}");
        check_eq!(own, s.m.deleg.get(&a).copied(), "delegation", "delegation recorded for {a}");
    }
    Ok(())
}

// ------------------------------------------------------------------ D13 events
/// The events an operation has to emit, told from the change of state alone. `may`: allowed, not required.
fn d13(s: &mut Step) -> R {
    use pallet_democracy::Event as E;
    let (pre, post) = (s.pre, s.post);
    if post.now == 0 {
        // no events are recorded in the genesis block
        return Ok(());
    }
    let mut must: Vec<E<Test>> = vec![];
    let mut may: Vec<E<Test>> = vec![];
    let cancelled: Vec<u32> = pre.refs.keys().copied().filter(|r| !post.refs.contains_key(r)).collect();
    if s.ok {
        match s.op.clone() {
            Op::Propose { value, .. } => must.push(E::Proposed { proposal_index: pre.propcount, deposit: value }),
            Op::Second { o, prop } => must.push(E::Seconded { seconder: o.acc().unwrap(), prop_index: prop }),
            Op::Vote { o, r, v } => must.push(E::Voted { voter: o.acc().unwrap(), ref_index: r, vote: v }),
            Op::Delegate { o, to, .. } => must.push(E::Delegated { who: o.acc().unwrap(), target: to }),
            Op::Undelegate { o } => must.push(E::Undelegated { account: o.acc().unwrap() }),
            Op::Veto { o, hash } => {
                let until = post.bl.get(&hash).map(|b| b.0).unwrap_or(0);
                must.push(E::Vetoed { who: o.acc().unwrap(), proposal_hash: hash, until });
                s.rec.label("vetoed");
            },
            Op::Blacklist { hash, .. } => {
                must.push(E::Blacklisted { proposal_hash: hash });
                if !cancelled.is_empty() {
                    s.rec.label("blacklisted with its referendum");
                }
            },
            Op::CancelProposal { prop, .. } => {
                let e = E::ProposalCanceled { prop_index: prop };
                if pre.props.iter().any(|p| p.0 == prop) {
                    must.push(e)
                } else {
                    may.push(e)
                }
            },
            Op::CancelReferendum { r, .. } =>
                if !pre.refs.contains_key(&r) {
                    // nothing to cancel: root may hear about it all the same
                    may.push(E::Cancelled { ref_index: r })
                },
            Op::SetMetadata { owner, hash: Some(hash), .. } => must.push(E::MetadataSet { owner: owner.real(), hash }),
            _ => {},
        }
    }
    for r in &cancelled {
        must.push(E::Cancelled { ref_index: *r });
    }
    // every referendum that began, with its threshold
    let mut began = vec![];
    for (r, info) in &post.refs {
        if !pre.refs.contains_key(r) {
            let Ref::On(on) = info else {
                check!(false, "referendum born finished", "referendum {r} is new and finished");
                continue;
            };
            must.push(E::Started { ref_index: *r, threshold: on.th });
            began.push(*r);
        }
    }
    // every decision
    for (r, info) in &pre.refs {
        if let (Ref::On(_), Some(Ref::Fin { approved, .. })) = (info, post.refs.get(r)) {
            must.push(if *approved { E::Passed { ref_index: *r } } else { E::NotPassed { ref_index: *r } });
            s.rec.label(if *approved { "passed" } else { "not passed" });
        }
    }
    let mut source = None;
    if let Op::Block = s.op {
        if pre.ext.is_some() && post.ext.is_none() {
            must.push(E::ExternalTabled);
            source = Some(Own::External);
        }
        for p in &pre.props {
            if !post.props.contains(p) {
                let deposit = pre.deposits.get(&p.0).map(|d| d.1).unwrap_or(0);
                must.push(E::Tabled { proposal_index: p.0, deposit });
                source = Some(Own::Proposal(p.0));
            }
        }
    } else if let Op::FastTrack { .. } = s.op {
        source = Some(Own::External);
    }
    // metadata that went away was handed on to the referendum it now belongs to, or cleared
    for (o, h) in &pre.meta {
        if post.meta.contains_key(o) {
            continue;
        }
        match (source == Some(*o), began.first()) {
            (true, Some(r)) if post.meta.get(&Own::Referendum(*r)) == Some(h) => {
                must.push(E::MetadataTransferred { prev_owner: o.real(), owner: Own::Referendum(*r).real(), hash: *h });
                s.rec.label("metadata handed on");
                s.rec.nontrivial();
            },
            _ => {
                must.push(E::MetadataCleared { owner: o.real(), hash: *h });
                s.rec.label("metadata cleared");
            },
        }
    }
    let mut have = post.events.clone();
    for e in &must {
        let e = format!("{e:?}");
        match have.iter().position(|x| *x == e) {
            Some(i) => drop(have.remove(i)),
            None => check!(false, "event missing", "{:?} (ok: {}) did not report {e}; it reported {:?}", s.op, s.ok, post.events),
        }
    }
    for e in &may {
        let e = format!("{e:?}");
        if let Some(i) = have.iter().position(|x| *x == e) {
            have.remove(i);
        }
    }
    check!(have.is_empty(), "event without cause", "{:?} (ok: {}) reported {have:?}", s.op, s.ok);
    if must.len() > 2 {
        s.rec.label("several events at once");
        s.rec.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ D14 weights
fn d14(s: &mut Step) -> R {
    use frame_support::weights::Weight;
    use pallet_democracy::WeightInfo as W;
    let (pre, post) = (s.pre, s.post);
    let Some(c) = s.w.charge.get() else { return Ok(()) };
    let covers = |have: Weight, need: Weight, what: &str| -> R {
        check!(have.all_gte(need), "work not covered", "{what}: {have:?} does not cover {need:?} ({:?}, MaxVotes {})", s.op, s.w.cfg.max_votes);
        Ok(())
    };
    check!(!c.free, "free call", "{:?} pays no fee", s.op);
    if let Op::Block = s.op {
        let max = <<Test as frame_system::Config>::BlockWeights as frame_support::traits::Get<frame_system::limits::BlockWeights>>::get().max_block;
        let launched = post.refcount > pre.refcount;
        let ended = pre.refs.iter().any(|(r, i)| matches!(i, Ref::On(_)) && matches!(post.refs.get(r), Some(Ref::Fin { .. })));
        if launched || ended {
            covers(c.declared, max, "a block that tables or ends a referendum")?;
            s.rec.label("full block");
        } else {
            let lo = pre.refs.values().filter(|i| matches!(i, Ref::On(_))).count() as u32;
            let hi = pre.refcount.saturating_sub(s.m.low);
            let due = post.now % s.w.cfg.launch == 0;
            let need = |n| if due { Meter::on_initialize_base_with_launch_period(n) } else { Meter::on_initialize_base(n) };
            covers(c.declared, need(lo), "a quiet block")?;
            check!(
                need(hi).all_gte(c.declared),
                "quiet block overcharged",
                "a block without tabling or end of a referendum is charged {:?}, more than {:?} for the {hi} referenda from the first unfinished one",
                c.declared,
                need(hi)
            );
            s.rec.label("quiet block");
            if lo > 1 {
                s.rec.nontrivial();
            }
        }
        s.m.low = post.refs.iter().find(|(_, i)| matches!(i, Ref::On(_))).map(|r| *r.0).unwrap_or(post.refcount);
        return Ok(());
    }
    let max = s.w.cfg.max_votes;
    let set = |o: &Own, h: bool| match (o, h) {
        (Own::External, true) => Meter::set_external_metadata(),
        (Own::External, false) => Meter::clear_external_metadata(),
        (Own::Proposal(_), true) => Meter::set_proposal_metadata(),
        (Own::Proposal(_), false) => Meter::clear_proposal_metadata(),
        (Own::Referendum(_), true) => Meter::set_referendum_metadata(),
        (Own::Referendum(_), false) => Meter::clear_referendum_metadata(),
    };
    let mut operational = false;
    let need: Vec<Weight> = match s.op {
        Op::Propose { .. } => vec![Meter::propose()],
        Op::Second { .. } => vec![Meter::second()],
        Op::Vote { .. } => vec![Meter::vote_new(), Meter::vote_existing()],
        Op::EmergencyCancel { .. } => {
            operational = true;
            vec![Meter::emergency_cancel()]
        },
        Op::External { .. } => vec![Meter::external_propose()],
        Op::ExternalMajority { .. } => vec![Meter::external_propose_majority()],
        Op::ExternalDefault { .. } => vec![Meter::external_propose_default()],
        Op::FastTrack { .. } => vec![Meter::fast_track()],
        Op::Veto { .. } => vec![Meter::veto_external()],
        Op::CancelReferendum { .. } => vec![Meter::cancel_referendum()],
        Op::Delegate { .. } => vec![Meter::delegate(max)],
        Op::Undelegate { .. } => vec![Meter::undelegate(max)],
        Op::ClearPublic { .. } => vec![Meter::clear_public_proposals()],
        Op::Unlock { .. } => vec![Meter::unlock_set(max), Meter::unlock_remove(max)],
        Op::RemoveVote { .. } => vec![Meter::remove_vote(max)],
        Op::RemoveOther { .. } => vec![Meter::remove_other_vote(max)],
        Op::Blacklist { .. } => {
            operational = true;
            vec![Meter::blacklist()]
        },
        Op::CancelProposal { .. } => vec![Meter::cancel_proposal()],
        Op::SetMetadata { owner, hash, .. } => vec![set(owner, hash.is_some())],
        _ => return Ok(()),
    };
    for n in need {
        covers(c.declared, n, "declared weight")?;
    }
    check_eq!(c.operational, operational, "dispatch class", "operational class of {:?}", s.op);
    let charged = c.actual.unwrap_or(c.declared);
    check!(c.declared.all_gte(charged), "charged more than declared", "{:?} declared {:?} but charged {charged:?}", s.op, c.declared);
    // the work that depends on the delegate's votes
    let upstream = |a: Acc| match pre.v(a) {
        V::Direct { votes, .. } => votes.len() as u32,
        V::Delegating { .. } => 0,
    };
    match s.op {
        Op::Delegate { to, .. } if s.ok => {
            let n = upstream(*to);
            covers(charged, Meter::delegate(n), "charged weight")?;
            check!(Meter::delegate(n.max(1)).all_gte(charged), "no refund", "delegating to an account with {n} votes is charged {charged:?}");
            if n > 1 {
                s.rec.label("delegated to an account with several votes");
                s.rec.nontrivial();
            }
        },
        Op::Undelegate { o } if s.ok => {
            let V::Delegating { target, .. } = pre.v(o.acc().unwrap()) else { return Ok(()) };
            let n = upstream(target);
            covers(charged, Meter::undelegate(n), "charged weight")?;
            check!(Meter::undelegate(n.max(1)).all_gte(charged), "no refund", "undelegating from an account with {n} votes is charged {charged:?}");
            if n > 1 {
                s.rec.label("undelegated from an account with several votes");
                s.rec.nontrivial();
            }
        },
        // what is not measured is charged in full, and so is every refused call
        _ => covers(charged, c.declared, "charged weight")?,
    }
    Ok(())
}

// ------------------------------------------------------------------ driver

//                      prop sec vote ecan ext exM exD ft veto cref del und clr unl rmv rmo bl cprop meta tr mint block
const W_VOTE: [u64; 23] = [4, 2, 26, 1, 1, 3, 3, 2, 0, 1, 12, 6, 0, 3, 6, 2, 0, 0, 0, 1, 1, 14, 1];
const W_LOCK: [u64; 23] = [4, 0, 18, 1, 1, 3, 3, 4, 0, 1, 8, 7, 0, 12, 10, 5, 0, 0, 0, 3, 1, 18, 1];
const W_DEP: [u64; 23] = [18, 18, 1, 0, 2, 1, 1, 1, 0, 0, 1, 0, 1, 0, 0, 0, 4, 6, 0, 4, 3, 12, 0];
const W_LIFE: [u64; 23] = [6, 1, 16, 2, 2, 4, 4, 6, 1, 2, 3, 1, 0, 0, 1, 0, 2, 1, 0, 0, 1, 26, 3];
const W_TABLE: [u64; 23] = [16, 10, 2, 1, 6, 4, 4, 2, 2, 0, 0, 0, 1, 0, 0, 0, 1, 2, 0, 1, 1, 26, 1];
const W_BAR: [u64; 23] = [12, 1, 1, 8, 10, 8, 3, 4, 14, 2, 0, 0, 0, 0, 0, 0, 8, 3, 0, 0, 0, 16, 1];
const W_EXT: [u64; 23] = [3, 0, 1, 1, 12, 10, 8, 20, 4, 1, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 14, 0];
const W_META: [u64; 23] = [8, 5, 1, 3, 6, 5, 5, 8, 4, 3, 0, 0, 1, 0, 0, 0, 3, 4, 30, 0, 0, 16, 1];
const W_ISO: [u64; 23] = [5, 4, 16, 3, 4, 3, 3, 4, 3, 3, 8, 4, 1, 6, 5, 14, 3, 3, 2, 3, 1, 16, 1];
const W_EVT: [u64; 23] = [12, 4, 10, 3, 4, 4, 4, 6, 4, 3, 5, 3, 1, 2, 3, 2, 5, 5, 16, 1, 0, 20, 2];
const W_WGT: [u64; 23] = [5, 2, 30, 2, 2, 4, 4, 6, 1, 2, 12, 6, 1, 3, 3, 2, 2, 2, 5, 1, 0, 18, 4];
const W_DEL: [u64; 23] = [3, 0, 14, 0, 0, 3, 3, 2, 0, 0, 26, 12, 0, 2, 7, 2, 0, 0, 0, 2, 1, 10, 1];

fn history(s: &mut Src, rec: &mut Rec, w: &[u64; 23], oracle: Oracle, len: (usize, usize)) -> R {
    use frame_support::traits::fungible::hold::Inspect as HI;
    s.plan(len.0, len.1);
    let cfg = gen_cfg(s);
    rec.log(|| format!("{cfg:?}"));
    let mut ext = new_ext(&cfg);
    ext.execute_with(|| {
        let mut model = Model { low: cfg.past.0, ..Model::default() };
        let mut world = World::new(cfg);
        let mut pre = Snap::take();
        while s.more() {
            let op = world.gen(s, &pre, w);
            let reps = if matches!(op, Op::Block) { 1 + s.below(3) } else { 1 };
            for _ in 0..reps {
                rec.op();
                let can = match &op {
                    Op::Propose { o, value, .. } => o.acc().map(|a| Balances::can_hold(&HoldReason::Proposal.into(), &a, *value)),
                    Op::Second { o, prop } => o.acc().map(|a| {
                        pre.deposits.get(prop).map_or(false, |d| Balances::can_hold(&HoldReason::Proposal.into(), &a, d.1))
                    }),
                    _ => None,
                };
                let res = world.exec(&op);
                let post = Snap::take();
                world.log(rec, &op, &res, pre.now);
                let (ok, err) = match &res {
                    Ok(()) => (true, ""),
                    Err(e) => (false, e.as_str()),
                };
                let e6: String = err.split("message: Some(\"").nth(1).unwrap_or("").chars().take(24).collect();
                rec.feature(fnv(fnv(fnv(2, kind(&op).as_bytes()), &[ok as u8, post.refs.len().min(3) as u8, post.props.len().min(3) as u8]), e6.as_bytes()));
                let mut step = Step { w: &world, m: &mut model, pre: &pre, post: &post, op: &op, ok, err, rec, pre_can_hold: can };
                oracle(&mut step)?;
                pre = post;
            }
        }
        Ok(())
    })
}

const ASSUME: &[&str] = &[
    "pallet-balances, pallet-scheduler, pallet-preimage and frame-support behave as documented",
    "blocks are produced one by one, except that some histories leave out blocks in which nothing is due; VotingPeriod >= 1; total issuance below 2^100",
    "a harness runtime with per-case parameters stands for the production runtime",
];

fn hist(
    id: &'static str,
    rule: &'static str,
    w: &'static [u64; 23],
    oracle: Oracle,
    quick: u64,
) -> PProp {
    PProp {
        id,
        rule,
        quick,
        thorough: quick * 40,
        case: Box::new(move |s, r| history(s, r, w, oracle, (5, 60))),
        assumptions: ASSUME,
        guided: 50,
    }
}

fn main() {
    let q = 40_000;
    pbt::main(vec![
        hist("D01", "random histories of all democracy calls over 6 accounts; non-trivial: a vote by an account that others delegate to, or a delegation to an account with a vote on an ongoing referendum", &W_VOTE, d01, q),
        {
            let mut p = hist("D02", "half random histories, half random tallies near the decision boundary; non-trivial: an outcome with both ayes and nays", &W_LIFE, d02, q);
            p.case = Box::new(|s, r| if s.chance(1, 2) { history(s, r, &W_LIFE, d02, (5, 60)) } else { pure::threshold(s, r) });
            p
        },
        hist("D03", "random histories with votes, delegations, removals, unlocks and blocks; non-trivial: a conviction lock outlives the vote or delegation it came from, or an unlock releases funds", &W_LOCK, d03, q),
        hist("D04", "random histories with proposals, seconds, cancellations and blacklistings; non-trivial: several deposits refunded at once, or a slash", &W_DEP, d04, q),
        hist("D05", "random histories with referenda of overlapping periods; non-trivial: a referendum was approved (and its enactment awaited)", &W_LIFE, d05, q),
        hist("D06", "random histories filling both queues; non-trivial: several public proposals, or both queues waiting at a launch", &W_TABLE, d06, q),
        hist("D07", "random histories with vetoes, blacklistings, cancellations and re-proposals from a small pool of proposals; non-trivial: a barred proposal or a second emergency cancel was tried", &W_BAR, d07, q),
        hist("D08", "random histories of the external queue and fast-tracking; non-trivial: a fast-track succeeded", &W_EXT, d08, q),
        hist("D09", "random histories with metadata; non-trivial: metadata moved from a proposal to its referendum", &W_META, d09, q),
        hist("D10", "random histories with wrong origins; non-trivial: an expired vote was removed by a third party", &W_ISO, d10, q),
        hist("D11", "random histories of delegation changes; non-trivial: a re-delegation or an undelegation", &W_DEL, d11, q),
        hist("D13", "random histories of all calls; non-trivial: metadata handed on to a referendum, or more than two events at once", &W_EVT, d13, q),
        hist("D14", "random histories of all calls with weights that tell the kind and amount of work; non-trivial: a quiet block with several ongoing referenda, or a delegation to (or from) an account with several votes", &W_WGT, d14, q),
        PProp {
            id: "D12",
            rule: "random values and random bytes of the vote types; non-trivial: a byte string that decodes, or a split vote",
            quick: 3_000_000,
            thorough: 200_000_000,
            case: Box::new(|s, r| pure::codec(s, r)),
            assumptions: &["parity-scale-codec behaves as documented"],
            guided: 30,
        },
    ]);
}
