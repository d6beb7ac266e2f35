//! Everything observable, as one value.
use crate::rt::*;
use pallet_funding::*;
use pallet_proxy_bonding::ReleaseType;
use parity_scale_codec::Encode;
use polimec_common::{
    credentials::{Cid, Did, InvestorType},
    migration_types::{Migration, MigrationStatus},
};
use std::collections::{BTreeMap, BTreeSet};
use xcm::v4::prelude::*;

pub type Bal = u128;
pub type Meta = ProjectMetadataOf<Test>;
pub type Det = ProjectDetailsOf<Test>;
pub type Eval = EvaluationInfoOf<Test>;
pub type Bid = BidInfoOf<Test>;
pub type Con = ContributionInfoOf<Test>;
pub type Sched = (Bal, Bal, u64);
pub const EVA: u8 = 0;
pub const PAR: u8 = 1;

pub fn reason(r: u8) -> RuntimeHoldReason {
    RuntimeHoldReason::Funding(if r == EVA { pallet_funding::HoldReason::Evaluation } else { pallet_funding::HoldReason::Participation })
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct St {
    pub now: u64,
    pub next: [u32; 4],
    pub meta: BTreeMap<u32, Meta>,
    pub det: BTreeMap<u32, Det>,
    pub bucket: BTreeMap<u32, BucketOf<Test>>,
    pub active: BTreeMap<Did, u32>,
    pub evals: BTreeMap<(u32, Acc, u32), Eval>,
    pub bids: BTreeMap<(u32, Acc, u32), Bid>,
    pub cons: BTreeMap<(u32, Acc, u32), Con>,
    pub eval_counts: BTreeMap<u32, u32>,
    pub bid_counts: BTreeMap<u32, u32>,
    pub bid_usd: BTreeMap<(u32, Did), Bal>,
    pub con_usd: BTreeMap<(u32, Did), Bal>,
    pub winners: BTreeSet<(u32, Did)>,
    pub migr: BTreeMap<(u32, Acc), (MigrationStatus, Vec<Migration>)>,
    pub unmigrated: BTreeMap<u32, u32>,
    pub queue: BTreeMap<u64, (u32, Acc)>,
    pub queries: u64,
    pub asked: BTreeMap<u64, (Location, (u8, u8))>,
    pub free: BTreeMap<Acc, Bal>,
    pub held: BTreeMap<(Acc, u8), Bal>,
    pub fa: BTreeMap<(u32, Acc), Bal>,
    pub ct: BTreeMap<(u32, Acc), Bal>,
    pub supply: BTreeMap<u32, Bal>,
    pub ct_meta: BTreeMap<u32, (Vec<u8>, Vec<u8>, u8)>,
    pub releases: BTreeMap<u32, ReleaseType<u64>>,
    pub vest: BTreeMap<Acc, Vec<Sched>>,
    pub sent: Vec<(Location, Vec<String>)>,
}

/// what of a message matters: everything but weights
pub fn digest(x: &Xcm<()>) -> Vec<String> {
    x.0.iter()
        .map(|i| match i {
            UnpaidExecution { .. } => "unpaid".into(),
            Transact { origin_kind, call, .. } => format!("transact {origin_kind:?} {:?}", call.clone().into_encoded()),
            ReportTransactStatus(q) => format!("report transact {} to {:?}", q.query_id, q.destination),
            ReportHolding { response_info: q, assets } => format!("report holding {} to {:?} of {assets:?}", q.query_id, q.destination),
            QueryPallet { module_name, response_info: q } => format!("query pallet {} {} to {:?}", String::from_utf8_lossy(module_name), q.query_id, q.destination),
            WithdrawAsset(a) => format!("withdraw {a:?}"),
            BuyExecution { fees, .. } => format!("buy execution with {fees:?}"),
            DepositAsset { assets, beneficiary } => format!("deposit {assets:?} to {beneficiary:?}"),
            RefundSurplus => "refund surplus".into(),
            other => format!("{other:?}"),
        })
        .collect()
}

pub fn snap() -> St {
    type A1 = pallet_assets::Instance1;
    type A2 = pallet_assets::Instance2;
    let mut s = St {
        now: System::block_number(),
        next: [NextProjectId::<Test>::get(), NextEvaluationId::<Test>::get(), NextBidId::<Test>::get(), NextContributionId::<Test>::get()],
        meta: ProjectsMetadata::<Test>::iter().collect(),
        det: ProjectsDetails::<Test>::iter().collect(),
        bucket: Buckets::<Test>::iter().collect(),
        active: DidWithActiveProjects::<Test>::iter().collect(),
        evals: Evaluations::<Test>::iter().collect(),
        bids: Bids::<Test>::iter().collect(),
        cons: Contributions::<Test>::iter().collect(),
        eval_counts: EvaluationCounts::<Test>::iter().filter(|x| x.1 > 0).collect(),
        bid_counts: BidCounts::<Test>::iter().filter(|x| x.1 > 0).collect(),
        bid_usd: AuctionBoughtUSD::<Test>::iter().filter(|x| x.1 > 0).collect(),
        con_usd: ContributionBoughtUSD::<Test>::iter().filter(|x| x.1 > 0).collect(),
        winners: DidWithWinningBids::<Test>::iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect(),
        migr: UserMigrations::<Test>::iter().map(|(k, (s, m))| (k, (s, m.to_vec()))).collect(),
        unmigrated: UnmigratedCounter::<Test>::iter().filter(|x| x.1 > 0).collect(),
        queue: ActiveMigrationQueue::<Test>::iter().collect(),
        queries: pallet_xcm::QueryCounter::<Test>::get(),
        asked: pallet_xcm::Queries::<Test>::iter().map(|(q, x)| (q, (x.0, x.2))).collect(),
        free: frame_system::Account::<Test>::iter().map(|(a, i)| (a, i.data.free)).filter(|x| x.1 > 0).collect(),
        releases: pallet_proxy_bonding::Releases::<Test>::iter().filter(|x| x.1 == reason(PAR)).map(|x| (x.0, x.2)).collect(),
        vest: pallet_linear_release::Vesting::<Test>::iter()
            .filter(|x| x.1 == reason(PAR))
            .map(|(a, _, v)| (a, v.iter().map(|i| (i.locked(), i.per_block(), i.starting_block())).collect()))
            .collect(),
        fa: pallet_assets::Account::<Test, A2>::iter().map(|(id, a, x)| ((id, a), x.balance)).filter(|x| x.1 > 0).collect(),
        ct: pallet_assets::Account::<Test, A1>::iter().map(|(id, a, x)| ((id, a), x.balance)).filter(|x| x.1 > 0).collect(),
        supply: pallet_assets::Asset::<Test, A1>::iter().map(|(id, d)| (id, d.supply)).collect(),
        ct_meta: pallet_assets::Metadata::<Test, A1>::iter().map(|(id, m)| (id, (m.name.to_vec(), m.symbol.to_vec(), m.decimals))).collect(),
        ..Default::default()
    };
    for (a, hs) in pallet_balances::Holds::<Test>::iter() {
        for h in hs {
            for r in [EVA, PAR] {
                if h.id == reason(r) && h.amount > 0 {
                    s.held.insert((a.clone(), r), h.amount);
                }
            }
        }
    }
    s.sent = sent().into_iter().map(|(l, x)| (l, digest(&x))).collect();
    s
}

/// the parts of two states that differ
pub fn diff(want: &St, got: &St) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    macro_rules! f {
        ($($n:ident),*) => {$(
            if want.$n != got.$n {
                v.push((stringify!($n), delta(&format!("{:#?}", want.$n), &format!("{:#?}", got.$n))));
            }
        )*};
    }
    f!(now, next, meta, det, bucket, active, evals, bids, cons, eval_counts, bid_counts, bid_usd, con_usd, winners, migr, unmigrated, queue, queries, asked, free, held, fa, ct, supply, ct_meta, releases, vest, sent);
    v
}
/// a short account of the lines that differ
fn delta(a: &str, b: &str) -> String {
    let (x, y): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    let p = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
    let q = x[p..].iter().rev().zip(y[p..].iter().rev()).take_while(|(a, b)| a == b).count();
    let show = |v: &[&str]| v[p..v.len() - q].iter().take(14).map(|l| l.trim()).collect::<Vec<_>>().join(" ");
    format!("expected [{}] got [{}] (after line {:?})", show(&x), show(&y), if p > 0 { x[p - 1].trim() } else { "" })
}

#[derive(Clone)]
pub struct J {
    pub origin: Acc,
    pub sub: Acc,
    pub did: Did,
    pub ty: InvestorType,
    pub cid: Cid,
}
impl std::fmt::Debug for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let t = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
        write!(f, "by {} {:?} {} {}", name(&self.origin), self.ty, t(&self.did).trim_start_matches("did:polimec:"), t(&self.cid))?;
        if self.sub != self.origin {
            write!(f, " with a credential of {}", name(&self.sub))?;
        }
        Ok(())
    }
}
#[derive(Clone, Debug)]
pub enum Op {
    Create(J, Box<Meta>),
    Edit(J, u32, Box<Meta>),
    Remove(J, u32),
    StartEval(J, u32),
    Evaluate(J, u32, Bal),
    EndEval(Acc, u32),
    Bid(J, u32, Bal, ParticipationMode, AcceptedFundingAsset),
    EndAuction(Acc, u32),
    Contribute(J, u32, Bal, ParticipationMode, AcceptedFundingAsset),
    EndFunding(Acc, u32),
    StartSettlement(Acc, u32),
    SettleEval(Acc, u32, Acc, u32),
    SettleBid(Acc, u32, Acc, u32),
    SettleCon(Acc, u32, Acc, u32),
    MarkSettled(Acc, u32),
    StartOffchain(J, u32),
    ConfirmOffchain(Acc, u32, Acc),
    StartPallet(J, u32, u32),
    Readiness(J, u32),
    ReadyResponse(Option<Location>, u64, Box<Response>),
    SendMigration(Acc, u32, Acc),
    ConfirmPallet(Option<Location>, u64, Box<Response>),
    MarkMigrated(Acc, u32),
    ChannelRequest(u32, u32, u32),
    ChannelAccepted(u32),
    Vest(Acc),
    BondsBack(Acc, u32),
    Advance(u64),
    Price(u32, u128),
    FailSend(bool),
}
pub fn name(a: &Acc) -> String {
    let b: &[u8; 32] = a.as_ref();
    if b.iter().all(|x| *x == b[0]) {
        return format!("#{}", b[0]);
    }
    for p in 0..8 {
        if *a == escrow(p) {
            return format!("escrow {p}");
        }
        if *a == bonding(p) {
            return format!("bonding {p}");
        }
    }
    format!("{:?}", &a.encode()[..8])
}

/// accounts as `#n`, byte strings as text
pub fn short(t: &str) -> String {
    let mut out = String::new();
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if i + 66 <= b.len() && b[i..i + 64].iter().all(|c| c.is_ascii_hexdigit()) && &b[i + 64..i + 66] == b" (" {
            let h = &t[i..i + 64];
            let mut a = [0u8; 32];
            for (k, x) in a.iter_mut().enumerate() {
                *x = u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap();
            }
            out.push_str(&name(&Acc::new(a)));
            i += 64 + t[i + 64..].find(')').map_or(0, |x| x + 1);
            continue;
        }
        let c = t[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}
