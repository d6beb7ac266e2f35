use crate::{approved_oracle, votes_of, periods_of};
use pallet_democracy::{AccountVote, Approved, Conviction, Delegations, Tally, Vote, VoteThreshold};
use parity_scale_codec::{Decode, DecodeAll, Encode, MaxEncodedLen};
use pbt::{check, check_eq, Fail, Rec, Src};

const TH: [VoteThreshold; 3] =
    [VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst, VoteThreshold::SimpleMajority];

fn isqrt(n: u128) -> u128 {
    let mut x = (n as f64).sqrt() as u128;
    while x.checked_mul(x).map_or(true, |q| q > n) {
        x -= 1;
    }
    while (x + 1).checked_mul(x + 1).map_or(false, |q| q <= n) {
        x += 1;
    }
    x
}

pub fn threshold(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let bits = *s.pick(&[127u32, 64, 16, 8, 4, 3]);
    let th = *s.pick(&TH);
    let electorate = s.magnitude(bits).max(1);
    let turnout = match s.below(4) {
        0 => electorate,
        1 => s.magnitude(bits),
        2 => electorate / (1 + s.below(9) as u128),
        _ => s.magnitude(bits).min(electorate),
    };
    let ayes = s.magnitude(bits);
    // near the boundary, where a sloppy comparison goes wrong
    let nays = match s.below(4) {
        0 => s.magnitude(bits),
        1 => ayes.saturating_add(s.below(3) as u128).saturating_sub(1),
        _ => {
            let (sv, se) = (isqrt(turnout).max(1), isqrt(electorate).max(1));
            let f = |a: u128, p: u128, q: u128| -> u128 {
                let x = sp_core::U512::from(a) * sp_core::U512::from(p) / sp_core::U512::from(q);
                if x > sp_core::U512::from(u128::MAX) { u128::MAX } else { x.as_u128() }
            };
            let n = match th {
                VoteThreshold::SuperMajorityApprove => f(ayes, sv, se),
                VoteThreshold::SuperMajorityAgainst => f(ayes, se, sv),
                _ => ayes,
            };
            n.saturating_add(s.below(3) as u128).saturating_sub(1)
        },
    };
    rec.log(|| format!("{th:?} ayes {ayes} nays {nays} turnout {turnout} electorate {electorate}"));
    rec.op();
    let have = th.approved(Tally { ayes, nays, turnout }, electorate);
    let want = approved_oracle(th, ayes, nays, turnout, electorate);
    check_eq!(have, want, "threshold", "{th:?} with ayes {ayes} nays {nays} turnout {turnout} electorate {electorate}");
    // more support never turns approval into rejection, more opposition never the reverse
    let d = s.magnitude(bits);
    let more = th.approved(Tally { ayes: ayes.saturating_add(d), nays, turnout }, electorate);
    check!(!have || more, "threshold monotone", "approved, but not with {d} more ayes: {th:?} {ayes} {nays} {turnout} {electorate}");
    let less = th.approved(Tally { ayes, nays: nays.saturating_add(d), turnout }, electorate);
    check!(have || !less, "threshold monotone", "rejected, but approved with {d} more nays: {th:?} {ayes} {nays} {turnout} {electorate}");
    // the same decision for a narrower balance type
    if bits <= 64 && [ayes, nays, turnout, electorate].iter().all(|x| *x <= u64::MAX as u128) {
        let narrow = th.approved(Tally { ayes: ayes as u64, nays: nays as u64, turnout: turnout as u64 }, electorate as u64);
        check_eq!(narrow, want, "threshold u64", "{th:?} over u64");
    }
    if ayes > 0 && nays > 0 {
        rec.nontrivial();
    }
    rec.label(if want { "threshold met" } else { "threshold not met" });
    Ok(())
}

pub fn codec(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    rec.op();
    type AV = AccountVote<u128>;
    match s.below(3) {
        0 => {
            // values survive encoding, and the byte layout is the documented one
            let conviction = Conviction::try_from(s.below(7) as u8).unwrap();
            let vote = Vote { aye: s.flag(), conviction };
            let e = vote.encode();
            check_eq!(e.len(), 1, "vote encoding", "length of {vote:?}");
            check_eq!(e[0], (u8::from(conviction)) | if vote.aye { 0x80 } else { 0 }, "vote encoding", "byte of {vote:?}");
            check_eq!(Vote::decode_all(&mut &e[..]).ok(), Some(vote), "vote round trip", "{vote:?}");
            let v: AV = if s.flag() {
                AccountVote::Standard { vote, balance: s.magnitude(128) }
            } else {
                rec.nontrivial();
                AccountVote::Split { aye: s.magnitude(128), nay: s.magnitude(128) }
            };
            rec.log(|| format!("{v:?}"));
            let e = v.encode();
            check!(e.len() <= AV::max_encoded_len(), "max length", "{v:?} encodes to {} bytes", e.len());
            check_eq!(AV::decode_all(&mut &e[..]).ok(), Some(v), "round trip", "{v:?}");
            // helpers agree with the meaning of the value
            match v {
                AccountVote::Standard { vote, balance } => {
                    check_eq!(v.balance(), balance, "balance", "{v:?}");
                    check_eq!(v.as_standard(), Some(vote.aye), "as_standard", "{v:?}");
                    check_eq!(v.locked_if(vote.aye), Some((periods_of(conviction) as u32, balance)), "locked_if", "{v:?} winning");
                    check_eq!(v.locked_if(!vote.aye), None, "locked_if", "{v:?} losing");
                },
                AccountVote::Split { aye, nay } => {
                    check_eq!(v.balance(), aye.saturating_add(nay), "balance", "{v:?}");
                    check_eq!(v.as_standard(), None, "as_standard", "{v:?}");
                    check_eq!((v.locked_if(true), v.locked_if(false)), (None, None), "locked_if", "{v:?}");
                },
            }
            let b = s.magnitude(128);
            let Delegations { votes, capital } = conviction.votes(b);
            check_eq!((votes, capital), (votes_of(conviction, b), b), "conviction votes", "{conviction:?} of {b}");
            check_eq!(conviction.lock_periods() as u64, periods_of(conviction), "lock periods", "{conviction:?}");
            // a tally forgets a vote that is added and removed
            check_eq!(
                Tally::new(vote, b),
                Tally { ayes: if vote.aye { votes } else { 0 }, nays: if vote.aye { 0 } else { votes }, turnout: b },
                "tally of one vote",
                "{vote:?} of {b}"
            );
            let bits = *s.pick(&[100u32, 20, 127]);
            let t0 = Tally { ayes: s.magnitude(bits), nays: s.magnitude(bits), turnout: s.magnitude(bits) };
            let mut t = t0.clone();
            // adding is exact, or refused when a sum does not fit
            let (aye, nay, stake) = match v {
                AccountVote::Standard { vote, balance } => {
                    let p = votes_of(vote.conviction, balance);
                    (if vote.aye { p } else { 0 }, if vote.aye { 0 } else { p }, Some(balance))
                },
                AccountVote::Split { aye, nay } => (votes_of(Conviction::None, aye), votes_of(Conviction::None, nay), aye.checked_add(nay)),
            };
            let want = (|| Some(Tally { ayes: t0.ayes.checked_add(aye)?, nays: t0.nays.checked_add(nay)?, turnout: t0.turnout.checked_add(stake?)? }))();
            let got = t.add(v).map(|_| t.clone());
            check_eq!(got, want, "tally sum", "{t0:?} + {v:?}");
            if got.is_none() {
                rec.label("sum does not fit");
            }
            let mut d = t0.clone();
            let more = Delegations { votes: s.magnitude(bits), capital: s.magnitude(bits) };
            let up = s.flag();
            check!(d.increase(up, more).is_some(), "delegated", "{t0:?} increased by {more:?}");
            let add = |x: u128, on: bool| if on { x.saturating_add(more.votes) } else { x };
            check_eq!(d, Tally { ayes: add(t0.ayes, up), nays: add(t0.nays, !up), turnout: t0.turnout.saturating_add(more.capital) }, "delegated", "{t0:?} increased by {more:?} ({up})");
            let mut d = t0.clone();
            check!(d.reduce(up, more).is_some(), "undelegated", "{t0:?} reduced by {more:?}");
            let sub = |x: u128, on: bool| if on { x.saturating_sub(more.votes) } else { x };
            check_eq!(d, Tally { ayes: sub(t0.ayes, up), nays: sub(t0.nays, !up), turnout: t0.turnout.saturating_sub(more.capital) }, "undelegated", "{t0:?} reduced by {more:?} ({up})");
            if got.is_some() {
                check!(t.remove(v).is_some() && t == t0, "tally reversible", "{t0:?} + {v:?} - {v:?} = {t:?}");
            }
        },
        1 => {
            // every single byte: decodes exactly when it is a documented vote
            let b = s.below(256) as u8;
            rec.log(|| format!("byte {b:#x}"));
            let d = Vote::decode_all(&mut &[b][..]).ok();
            check_eq!(d.is_some(), (b & 0x7f) <= 6, "vote byte", "byte {b:#x}");
            if let Some(v) = d {
                check_eq!(v.encode(), vec![b], "vote byte round trip", "byte {b:#x}");
                rec.nontrivial();
            }
        },
        _ => {
            // any byte string decodes or is refused; what decodes re-encodes to itself
            let n = s.below(40) as usize;
            let mut bytes: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
            if n > 0 && s.flag() {
                bytes[0] = s.below(2) as u8;
            }
            rec.log(|| format!("bytes {bytes:02x?}"));
            let mut input = &bytes[..];
            if let Ok(v) = AV::decode(&mut input) {
                let used = n - input.len();
                check_eq!(v.encode(), bytes[..used].to_vec(), "canonical", "{v:?}");
                rec.nontrivial();
                rec.label("random bytes decode");
            }
            let _ = VoteThreshold::decode(&mut &bytes[..]);
        },
    }
    Ok(())
}
