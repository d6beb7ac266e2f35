//! The reference: what each operation does to the state, or why it is refused.
use crate::{rt::*, st::*};
use sp_arithmetic::{Perbill, Percent};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    // candidates
    Join(Acc, Bal, u32),
    Leave(Acc, u32),
    ExecLeave(Acc, Acc, u32),
    CancelLeave(Acc, u32),
    Offline(Acc),
    Online(Acc),
    More(Acc, Bal),
    Less(Acc, Bal),
    ExecLess(Acc, Acc),
    CancelLess(Acc),
    // delegators
    Delegate(Acc, Acc, Bal, u32, u32),
    DelegateAuto(Acc, Acc, Bal, u8, u32, u32, u32),
    DelMore(Acc, Acc, Bal),
    LeaveAll(Acc),
    ExecLeaveAll(Acc, Acc, u32),
    CancelLeaveAll(Acc),
    Revoke(Acc, Acc),
    DelLess(Acc, Acc, Bal),
    ExecReq(Acc, Acc, Acc),
    CancelReq(Acc, Acc),
    Auto(Acc, Acc, u8, u32, u32),
    Hotfix(Acc, Vec<Acc>),
    // governance; None is root
    Expect(Option<Acc>, [Bal; 3]),
    Inflation(Option<Acc>, [u32; 3]),
    BondAccount(Option<Acc>, Acc),
    BondPercent(Option<Acc>, u8),
    Selected(Option<Acc>, u32),
    Commission(Option<Acc>, u32),
    Length(Option<Acc>, u32),
    // the chain
    Author(Acc),
    Block,
}
pub const YEAR_BLOCKS: u32 = 31_557_600 / 12;
/// per round: (1 + annual)^(1/rounds per year) - 1
pub fn per_round(annual: u32, length: u32) -> f64 {
    let n = (YEAR_BLOCKS / length).max(1);
    ((annual as f64 / 1e9).ln_1p() / n as f64).exp_m1() * 1e9
}
type R = Result<(), &'static str>;
macro_rules! need {
    ($c:expr, $w:expr) => {
        if !$c {
            return Err($w);
        }
    };
}
pub struct M<'a> {
    pub s: St,
    pub got: &'a St,
}
/// after all that are at least as large
pub fn insert(v: &mut Vec<(Acc, Bal)>, x: (Acc, Bal)) {
    let at = v.iter().position(|y| y.1 < x.1).unwrap_or(v.len());
    v.insert(at, x);
}
fn sort(v: &mut [(Acc, Bal)]) {
    v.sort_by(|a, b| b.1.cmp(&a.1));
}
pub fn sum(v: &[(Acc, Bal)]) -> Bal {
    v.iter().map(|x| x.1).sum()
}
impl M<'_> {
    fn spare(&self, a: Acc) -> Bal {
        self.s.free.get(&a).copied().unwrap_or(0).saturating_sub(ED)
    }
    /// what is on hold becomes `x`
    fn hold(&mut self, a: Acc, r: u8, x: Bal) {
        let old = self.s.held.get(&(a, r)).copied().unwrap_or(0);
        let f = self.s.free.get(&a).copied().unwrap_or(0) + old - x;
        if f > 0 {
            self.s.free.insert(a, f);
        } else {
            self.s.free.remove(&a);
        }
        if x > 0 {
            self.s.held.insert((a, r), x);
        } else {
            self.s.held.remove(&(a, r));
        }
    }
    fn pay(&mut self, to: Acc, x: Bal) -> bool {
        if self.spare(PAYMASTER) < x || (x > 0 && self.s.free.get(&to).copied().unwrap_or(0) + x < ED) {
            return false;
        }
        if x > 0 {
            *self.s.free.get_mut(&PAYMASTER).unwrap() -= x;
            *self.s.free.entry(to).or_insert(0) += x;
        }
        true
    }
    /// everything that follows from the lists
    fn refresh(&mut self, c: Acc) {
        let m = self.s.cands.get_mut(&c).unwrap();
        m.top_total = sum(&m.top);
        m.bottom_total = sum(&m.bottom);
        m.count = (m.top.len() + m.bottom.len()) as u32;
        m.counted = m.bond + m.top_total;
        m.lowest_top = m.top.last().map_or(0, |x| x.1);
        m.highest_bottom = m.bottom.first().map_or(0, |x| x.1);
        m.lowest_bottom = m.bottom.last().map_or(0, |x| x.1);
        let cap = |n: usize, max: u32| if n as u32 >= max { 2 } else { (n > 0) as u8 };
        m.caps = (cap(m.top.len(), MaxTop::get()), cap(m.bottom.len(), MaxBottom::get()));
        let (active, counted) = (m.status.0 == 0, m.counted);
        self.s.pool.retain(|x| x.0 != c);
        if active {
            self.s.pool.push((c, counted));
            self.s.pool.sort();
        }
    }
    fn cand(&self, c: Acc) -> Result<&Cand, &'static str> {
        self.s.cands.get(&c).ok_or("no such candidate")
    }
    fn del(&self, d: Acc) -> Result<&Del, &'static str> {
        self.s.dels.get(&d).ok_or("not a delegator")
    }
    fn bond(&self, d: Acc, c: Acc) -> Result<Bal, &'static str> {
        self.del(d)?.bonds.iter().find(|b| b.0 == c).map(|b| b.1).ok_or("no such delegation")
    }
    fn drop_request(&mut self, c: Acc, d: Acc) {
        if let Some(q) = self.s.reqs.remove(&(c, d)) {
            if let Some(x) = self.s.dels.get_mut(&d) {
                x.less -= q.2;
            }
        }
    }
    /// the delegator's side of a delegation that ends
    fn forget(&mut self, d: Acc, c: Acc) {
        self.drop_request(c, d);
        self.s.auto.remove(&(c, d));
        let x = self.s.dels.get_mut(&d).unwrap();
        let b = x.bonds.iter().position(|b| b.0 == c).unwrap();
        let b = x.bonds.remove(b);
        x.total -= b.1;
        let (t, none) = (x.total, x.bonds.is_empty());
        if none {
            self.s.dels.remove(&d);
        }
        self.hold(d, DEL, t);
        self.s.total -= b.1;
    }
    fn kick(&mut self, c: Acc) {
        let x = self.s.cands.get_mut(&c).unwrap().bottom.pop().unwrap();
        self.forget(x.0, c);
    }
    fn delegate(&mut self, a: Acc, c: Acc, x: Bal, auto: u8, hc: u32, ha: u32, hd: u32) -> R {
        need!(self.spare(a) >= x, "not enough");
        match self.s.dels.get(&a) {
            Some(d) => {
                need!(x >= MinDelegation::get(), "below the minimum");
                need!(hd as usize >= d.bonds.len(), "hint too low");
                need!((d.bonds.len() as u32) < MaxDelegationsPerDelegator::get(), "too many delegations");
                need!(d.bonds.iter().all(|b| b.0 != c), "delegated already");
            },
            None => {
                need!(x >= MinDelegatorStk::get(), "below the minimum of a delegator");
                need!(!self.s.cands.contains_key(&a), "a candidate");
            },
        }
        let m = self.cand(c)?;
        need!(hc >= m.count, "hint too low");
        if auto > 0 {
            need!(self.s.auto.keys().filter(|k| k.0 == c).count() as u32 <= ha, "hint too low");
        }
        let full = (m.top.len() as u32 >= MaxTop::get(), m.bottom.len() as u32 >= MaxBottom::get());
        if !full.0 {
            insert(&mut self.s.cands.get_mut(&c).unwrap().top, (a, x));
        } else if m.top.last().unwrap().1 < x {
            if full.1 {
                self.kick(c);
            }
            let m = self.s.cands.get_mut(&c).unwrap();
            let y = m.top.pop().unwrap();
            insert(&mut m.bottom, y);
            insert(&mut m.top, (a, x));
        } else {
            if full.1 {
                need!(x > m.bottom.last().unwrap().1, "not above the lowest");
                self.kick(c);
            }
            insert(&mut self.s.cands.get_mut(&c).unwrap().bottom, (a, x));
        }
        let d = self.s.dels.entry(a).or_default();
        d.bonds.push((c, x));
        d.bonds.sort();
        d.total += x;
        let t = d.total;
        self.hold(a, DEL, t);
        self.s.total += x;
        if auto > 0 {
            self.s.auto.insert((c, a), auto);
        }
        self.refresh(c);
        Ok(())
    }
    fn del_more(&mut self, a: Acc, c: Acc, x: Bal) -> R {
        need!(!self.s.reqs.get(&(c, a)).map_or(false, |q| q.1), "to be revoked");
        self.bond(a, c)?;
        need!(self.spare(a) >= x, "not enough");
        let d = self.s.dels.get_mut(&a).unwrap();
        d.bonds.iter_mut().find(|b| b.0 == c).unwrap().1 += x;
        d.total += x;
        let t = d.total;
        self.hold(a, DEL, t);
        self.s.total += x;
        let m = self.s.cands.get_mut(&c).unwrap();
        if let Some(y) = m.top.iter_mut().find(|y| y.0 == a) {
            y.1 += x;
            sort(&mut m.top);
        } else {
            let i = m.bottom.iter().position(|y| y.0 == a).unwrap();
            let new = m.bottom[i].1 + x;
            if new > m.top.last().unwrap().1 {
                m.bottom.remove(i);
                let y = m.top.pop().unwrap();
                insert(&mut m.bottom, y);
                insert(&mut m.top, (a, new));
            } else {
                m.bottom[i].1 = new;
                sort(&mut m.bottom);
            }
        }
        self.refresh(c);
        Ok(())
    }
    /// the candidate's side of a delegation that ends
    fn unlist(&mut self, c: Acc, d: Acc) {
        let m = self.s.cands.get_mut(&c).unwrap();
        if let Some(i) = m.top.iter().position(|y| y.0 == d) {
            m.top.remove(i);
            if !m.bottom.is_empty() {
                let y = m.bottom.remove(0);
                insert(&mut m.top, y);
            }
        } else {
            m.bottom.retain(|y| y.0 != d);
        }
        self.refresh(c);
    }
    fn exec_request(&mut self, d: Acc, c: Acc) -> R {
        let x = self.del(d)?.clone();
        let q = *self.s.reqs.get(&(c, d)).ok_or("no request")?;
        need!(q.0 <= self.s.round.0, "not yet");
        let b = self.bond(d, c)?;
        if q.1 {
            need!(x.bonds.len() == 1 || x.total.saturating_sub(MinDelegatorStk::get()) >= b, "below the minimum of a delegator");
            self.forget(d, c);
            self.unlist(c, d);
        } else {
            need!(b > q.2, "below the minimum");
            need!(x.total - q.2 >= MinDelegation::get() && x.total - q.2 >= MinDelegatorStk::get(), "below the minimum of a delegator");
            self.drop_request(c, d);
            let x = self.s.dels.get_mut(&d).unwrap();
            x.bonds.iter_mut().find(|b| b.0 == c).unwrap().1 -= q.2;
            x.total -= q.2;
            let t = x.total;
            self.hold(d, DEL, t);
            self.s.total -= q.2;
            let max = MaxTop::get() as usize;
            let m = self.s.cands.get_mut(&c).unwrap();
            if let Some(i) = m.top.iter().position(|y| y.0 == d) {
                let new = m.top[i].1 - q.2;
                if m.top.len() >= max && m.bottom.first().map_or(false, |y| y.1 > new) {
                    m.top.remove(i);
                    let y = m.bottom.remove(0);
                    insert(&mut m.top, y);
                    insert(&mut m.bottom, (d, new));
                } else {
                    m.top[i].1 = new;
                    sort(&mut m.top);
                }
            } else {
                m.bottom.iter_mut().find(|y| y.0 == d).unwrap().1 -= q.2;
                sort(&mut m.bottom);
            }
            self.refresh(c);
        }
        Ok(())
    }
    fn block(&mut self) -> R {
        let s = &mut self.s;
        s.now += 1;
        let (cur, first, len) = s.round;
        let delay = RewardPaymentDelay::get();
        if s.now - first < len {
            return self.payout(cur, delay);
        }
        // the session pallet comes first
        s.session.0 += 1;
        s.session.1 = s.session.2.clone();
        if !s.selected.is_empty() {
            s.session.2 = s.selected.clone();
        }
        s.round = (cur + 1, s.now, len);
        let cur = cur + 1;
        if cur > delay && s.points.get(&(cur - delay)).copied().unwrap_or(0) > 0 {
            let r = cur - delay;
            let staked = s.staked.remove(&r).unwrap_or(0);
            let issued: Bal = s.free.values().sum::<Bal>() + s.held.values().sum::<Bal>();
            let i = if staked < s.expect[0] {
                0
            } else if staked > s.expect[2] {
                2
            } else {
                1
            };
            let x = Perbill::from_parts(s.rate[i]) * issued;
            s.delayed.insert(r, (x, x, s.commission));
        }
        let mut v = s.pool.clone();
        v.sort_by(|a, b| (b.1, b.0).cmp(&(a.1, a.0)));
        v.truncate(s.total_selected as usize);
        let mut v: Vec<Acc> = v.iter().map(|x| x.0).collect();
        v.sort();
        if v.is_empty() {
            let last: Vec<_> = s.at_stake.iter().filter(|x| x.0 .0 == cur - 1).map(|(k, x)| (k.1, x.clone())).collect();
            for (a, x) in last {
                s.at_stake.insert((cur, a), x);
            }
        } else {
            for c in &v {
                let m = &s.cands[c];
                let mut off = 0;
                let dels = m
                    .top
                    .iter()
                    .map(|(d, x)| {
                        let less = s.reqs.get(&(*c, *d)).map_or(0, |q| q.2);
                        off += less;
                        (*d, x - less, s.auto.get(&(*c, *d)).copied().unwrap_or(0))
                    })
                    .collect();
                s.at_stake.insert((cur, *c), Snap { bond: m.bond, dels, total: m.counted - off });
            }
            s.selected = v;
        }
        s.staked.insert(cur, s.total);
        Ok(())
    }
    fn payout(&mut self, cur: u32, delay: u32) -> R {
        let Some(r) = cur.checked_sub(delay) else { return Ok(()) };
        let Some((issuance, staking, commission)) = self.s.delayed.get(&r).copied() else { return Ok(()) };
        let total = self.s.points.get(&r).copied().unwrap_or(0);
        // in which order is not said: take the one that was
        let left: Vec<Acc> = self.s.at_stake.keys().filter(|k| k.0 == r).map(|k| k.1).collect();
        let Some(c) = left.iter().find(|c| !self.got.at_stake.contains_key(&(r, **c))).or(left.first()).copied() else {
            self.s.delayed.remove(&r);
            self.s.points.remove(&r);
            return Ok(());
        };
        let x = self.s.at_stake.remove(&(r, c)).unwrap();
        let pts = self.s.awarded.remove(&(r, c)).unwrap_or(0);
        if pts == 0 {
            return Ok(());
        }
        let share = Perbill::from_rational(pts, total);
        let due = share * staking;
        if x.dels.is_empty() {
            self.pay(c, due);
            return Ok(());
        }
        let fee = share * (commission * issuance);
        let due = due.saturating_sub(fee);
        self.pay(c, Perbill::from_rational(x.bond, x.total) * due + fee);
        for (d, amount, auto) in x.dels {
            let mine = Perbill::from_rational(amount, x.total) * due;
            if mine > 0 && self.pay(d, mine) {
                let again = Percent::from_percent(auto).mul_ceil(mine);
                if again > 0 {
                    let _ = self.del_more(d, c, again);
                }
            }
        }
        Ok(())
    }
    fn rates(&mut self) {
        let new: Vec<u32> = (0..3)
            .map(|i| {
                let x = per_round(self.s.annual[i], self.s.round.2);
                let g = self.got.rate[i];
                // rounded up, give or take the last digit
                if (g as f64) >= x - 0.01 && (g as f64) <= x + 1.01 + x * 1e-9 { g } else { x.ceil() as u32 }
            })
            .collect();
        self.s.rate = [new[0], new[1], new[2]];
    }
    pub fn step(&mut self, op: &Op) -> R {
        let now = self.s.round.0;
        match op.clone() {
            Op::Join(a, x, h) => {
                need!(!self.s.cands.contains_key(&a), "a candidate already");
                need!(!self.s.dels.contains_key(&a), "a delegator");
                need!(x >= MinCandidateStk::get(), "below the minimum");
                need!(h as usize >= self.s.pool.len(), "hint too low");
                need!(self.spare(a) >= x, "not enough");
                self.hold(a, COL, x);
                self.s.cands.insert(a, Cand { bond: x, ..Default::default() });
                self.s.total += x;
                self.refresh(a);
            },
            Op::Leave(a, h) => {
                need!(self.cand(a)?.status.0 != 2, "leaving already");
                need!(h as usize >= self.s.pool.len(), "hint too low");
                self.s.cands.get_mut(&a).unwrap().status = (2, now + LeaveCandidatesDelay::get());
                self.refresh(a);
            },
            Op::ExecLeave(_, c, h) => {
                let m = self.cand(c)?.clone();
                need!(m.count <= h, "hint too low");
                need!(m.status.0 == 2, "not leaving");
                need!(now >= m.status.1, "not yet");
                for (d, _) in m.top.iter().chain(&m.bottom) {
                    self.forget(*d, c);
                }
                self.hold(c, COL, 0);
                self.s.total -= m.bond;
                self.s.cands.remove(&c);
                self.s.pool.retain(|x| x.0 != c);
            },
            Op::CancelLeave(a, h) => {
                need!(self.cand(a)?.status.0 == 2, "not leaving");
                need!(h as usize >= self.s.pool.len(), "hint too low");
                self.s.cands.get_mut(&a).unwrap().status = (0, 0);
                self.refresh(a);
            },
            Op::Offline(a) => {
                need!(self.cand(a)?.status.0 == 0, "not active");
                self.s.cands.get_mut(&a).unwrap().status = (1, 0);
                self.refresh(a);
            },
            Op::Online(a) => {
                need!(self.cand(a)?.status.0 == 1, "active or leaving");
                self.s.cands.get_mut(&a).unwrap().status = (0, 0);
                self.refresh(a);
            },
            Op::More(a, x) => {
                self.cand(a)?;
                need!(self.spare(a) >= x, "not enough");
                let m = self.s.cands.get_mut(&a).unwrap();
                m.bond += x;
                let b = m.bond;
                self.hold(a, COL, b);
                self.s.total += x;
                self.refresh(a);
            },
            Op::Less(a, x) => {
                let m = self.cand(a)?;
                need!(m.request.is_none(), "a request already");
                need!(m.bond > x && m.bond - x >= MinCandidateStk::get(), "below the minimum");
                self.s.cands.get_mut(&a).unwrap().request = Some((x, now + CandidateBondLessDelay::get()));
            },
            Op::ExecLess(_, a) => {
                let (x, when) = self.cand(a)?.request.ok_or("no request")?;
                need!(when <= now, "not yet");
                let m = self.s.cands.get_mut(&a).unwrap();
                m.request = None;
                m.bond -= x;
                let b = m.bond;
                self.hold(a, COL, b);
                self.s.total -= x;
                self.refresh(a);
            },
            Op::CancelLess(a) => {
                need!(self.cand(a)?.request.is_some(), "no request");
                self.s.cands.get_mut(&a).unwrap().request = None;
            },
            Op::Delegate(a, c, x, hc, hd) => return self.delegate(a, c, x, 0, hc, 0, hd),
            Op::DelegateAuto(a, c, x, p, hc, ha, hd) => return self.delegate(a, c, x, p, hc, ha, hd),
            Op::DelMore(a, c, x) => return self.del_more(a, c, x),
            Op::LeaveAll(a) => {
                let bonds = self.del(a)?.bonds.clone();
                need!(!bonds.iter().all(|b| self.s.reqs.get(&(b.0, a)).map_or(false, |q| q.1)), "leaving already");
                for (c, x) in bonds {
                    if !self.s.reqs.get(&(c, a)).map_or(false, |q| q.1) {
                        self.drop_request(c, a);
                        self.s.reqs.insert((c, a), (now + LeaveDelegatorsDelay::get(), true, x));
                        self.s.dels.get_mut(&a).unwrap().less += x;
                    }
                }
            },
            Op::ExecLeaveAll(_, a, h) => {
                let bonds = self.del(a)?.bonds.clone();
                need!(h as usize >= bonds.len(), "hint too low");
                for (c, _) in &bonds {
                    let q = self.s.reqs.get(&(*c, a)).filter(|q| q.1).ok_or("not leaving")?;
                    need!(q.0 <= now, "not yet");
                }
                for (c, _) in bonds {
                    self.forget(a, c);
                    self.unlist(c, a);
                }
            },
            Op::CancelLeaveAll(a) => {
                let bonds = self.del(a)?.bonds.clone();
                need!(bonds.iter().all(|b| self.s.reqs.get(&(b.0, a)).map_or(false, |q| q.1)), "not leaving");
                for (c, _) in bonds {
                    self.drop_request(c, a);
                }
            },
            Op::Revoke(a, c) => {
                self.del(a)?;
                need!(!self.s.reqs.contains_key(&(c, a)), "a request already");
                let x = self.bond(a, c)?;
                self.s.reqs.insert((c, a), (now + RevokeDelegationDelay::get(), true, x));
                self.s.dels.get_mut(&a).unwrap().less += x;
            },
            Op::DelLess(a, c, x) => {
                let d = self.del(a)?.clone();
                need!(!self.s.reqs.contains_key(&(c, a)), "a request already");
                let b = self.bond(a, c)?;
                need!(b > x && b - x >= MinDelegation::get(), "below the minimum");
                need!(x <= (d.total - d.less).saturating_sub(MinDelegatorStk::get()), "below the minimum of a delegator");
                self.s.reqs.insert((c, a), (now + RevokeDelegationDelay::get(), false, x));
                self.s.dels.get_mut(&a).unwrap().less += x;
            },
            Op::ExecReq(_, a, c) => return self.exec_request(a, c),
            Op::CancelReq(a, c) => {
                self.del(a)?;
                need!(self.s.reqs.contains_key(&(c, a)), "no request");
                self.drop_request(c, a);
            },
            Op::Auto(a, c, p, ha, hd) => {
                let d = self.del(a)?;
                need!(d.bonds.len() <= hd as usize, "hint too low");
                self.bond(a, c)?;
                need!(self.s.auto.keys().filter(|k| k.0 == c).count() <= ha as usize, "hint too low");
                if p > 0 {
                    self.s.auto.insert((c, a), p);
                } else {
                    self.s.auto.remove(&(c, a));
                }
            },
            Op::Hotfix(_, v) => {
                need!(v.len() < 100, "too many");
                need!(v.iter().all(|c| !self.s.cands.contains_key(c) && self.s.reqs.keys().all(|k| k.0 != *c)), "a candidate");
            },
            Op::Expect(o, e) => {
                need!(o.is_none(), "not root");
                need!(e[0] <= e[1] && e[1] <= e[2], "not a range");
                need!(e != self.s.expect, "the same");
                self.s.expect = e;
            },
            Op::Inflation(o, e) => {
                need!(o.is_none(), "not root");
                need!(e[0] <= e[1] && e[1] <= e[2], "not a range");
                need!(e != self.s.annual, "the same");
                self.s.annual = e;
                self.rates();
            },
            Op::BondAccount(o, a) => {
                need!(o.is_none(), "not root");
                need!(self.s.bond_info.0 != a, "the same");
                self.s.bond_info.0 = a;
            },
            Op::BondPercent(o, p) => {
                need!(o.is_none(), "not root");
                need!(self.s.bond_info.1 != p, "the same");
                self.s.bond_info.1 = p;
            },
            Op::Selected(o, n) => {
                need!(o.is_none(), "not root");
                need!(n >= MinSelectedCandidates::get(), "below the minimum");
                need!(n != self.s.total_selected, "the same");
                need!(n < self.s.round.2, "more than blocks in a round");
                self.s.total_selected = n;
            },
            Op::Commission(o, n) => {
                need!(o.is_none(), "not root");
                let n = Perbill::from_parts(n);
                need!(n != self.s.commission, "the same");
                self.s.commission = n;
            },
            Op::Length(o, n) => {
                need!(o.is_none(), "not root");
                need!(n >= MinBlocksPerRound::get(), "below the minimum");
                need!(n != self.s.round.2, "the same");
                need!(n > self.s.total_selected, "fewer than collators");
                self.s.round.2 = n;
                self.rates();
            },
            Op::Author(a) => {
                *self.s.awarded.entry((now, a)).or_insert(0) += 20;
                *self.s.points.entry(now).or_insert(0) += 20;
            },
            Op::Block => return self.block(),
        }
        Ok(())
    }
}
