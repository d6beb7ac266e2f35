//! X04, X05: what the runtime takes from other chains.
use crate::fees::ConvertMultilocationToAssetId;
use crate::xcms::{SupportedAssets, XcmConfig};
use crate::xrt::{self, prelude::AWAITED};
use frame_support::traits::{Contains, ContainsPair};
use pbt::{check, check_eq, fail, fnv, Fail, Rec, Src};
use sp_runtime::traits::{Convert, MaybeEquivalence};
use xcm::v4::prelude::*;
use xcm::v4::{AssetFilter, BodyPart, XcmHash};
use xcm_executor::{
    traits::{AssetsInHolding, Properties, ShouldExecute, WeightTrader},
    Config,
};

type R = Result<(), Fail>;
type Wallet = <xrt::prelude::Runtime as crate::stubs::pallet_xcm::Config>::XcmReserveTransferFilter;
type Teleport = <xrt::prelude::Runtime as crate::stubs::pallet_xcm::Config>::XcmTeleportFilter;
type Execute = <xrt::prelude::Runtime as crate::stubs::pallet_xcm::Config>::XcmExecuteFilter;

fn junction(s: &mut Src) -> Junction {
    match s.below(8) {
        0 => Parachain(*s.pick(&[1000u32, 1001, 2000, 3344, 0])),
        1 => PalletInstance(*s.pick(&[50u8, 49, 51, 14, 13, 0])),
        2 => GeneralIndex(*s.pick(&[1337u128, 1984, 10, 0, 1336, 1985, 3344])),
        3 => Junction::AccountId32 { network: None, id: [s.below(3) as u8; 32] },
        4 => Junction::Plurality { id: *s.pick(&[BodyId::Executive, BodyId::Technical, BodyId::Unit]), part: BodyPart::Voice },
        5 => Junction::GlobalConsensus(*s.pick(&[NetworkId::Polkadot, NetworkId::Kusama])),
        6 => Junction::OnlyChild,
        _ => Junction::AccountKey20 { network: None, key: [1; 20] },
    }
}
fn place(s: &mut Src) -> Location {
    let hub = |i, g| Location::new(1, [Parachain(1000), PalletInstance(i), GeneralIndex(g)]);
    match s.weighted(&[4, 3, 3, 3, 2, 2, 1, 1, 1, 4]) {
        0 => Location::parent(),
        1 => Location::new(1, [Parachain(1000)]),
        2 => hub(50, 1984),
        3 => hub(50, 1337),
        4 => Location::new(1, [Parachain(*s.pick(&[999u32, 1001, 2000, 3344]))]),
        5 => Location::new(1, [Junction::Plurality { id: *s.pick(&[BodyId::Executive, BodyId::Technical]), part: *s.pick(&[BodyPart::Voice, BodyPart::Members { count: 1 }]) }]),
        6 => Location::here(),
        7 => hub(*s.pick(&[50u8, 51]), *s.pick(&[1983u128, 1338, 10])),
        8 => Location::new(0, [PalletInstance(14), GeneralIndex(*s.pick(&[10u128, 1337, 1984]))]),
        _ => {
            let v: Vec<Junction> = (0..s.below(4)).map(|_| junction(s)).collect();
            Location::new(s.below(3) as u8, xcm::v4::Junctions::from_slice(&v).unwrap())
        },
    }
}
/// the assets that are supported, by where they are
fn known(l: &Location) -> Option<u32> {
    let v: Vec<Junction> = l.interior.iter().copied().collect();
    match (l.parents, &v[..]) {
        (1, []) => Some(10),
        (1, [Parachain(1000), PalletInstance(50), GeneralIndex(1337)]) => Some(1337),
        (1, [Parachain(1000), PalletInstance(50), GeneralIndex(1984)]) => Some(1984),
        _ => None,
    }
}
fn old(l: &Location) -> Option<xcm::v3::MultiLocation> {
    use xcm::v3::{Junctions::*, MultiLocation};
    let v: Vec<Junction> = l.interior.iter().copied().collect();
    let i = match v[..] {
        [] => Here,
        [a] => X1(a),
        [a, b] => X2(a, b),
        [a, b, c] => X3(a, b, c),
        [a, b, c, d] => X4(a, b, c, d),
        _ => return None,
    };
    Some(MultiLocation { parents: l.parents, interior: i })
}
fn asset(s: &mut Src) -> Asset {
    let l = place(s);
    let fun = if s.chance(1, 8) { NonFungible(AssetInstance::Undefined) } else { Fungible(s.magnitude(64)) };
    Asset { id: xcm::v4::AssetId(l), fun }
}

/// X04
pub fn trust(s: &mut Src, rec: &mut Rec) -> R {
    s.plan(1, 8);
    while s.more() {
        rec.op();
        let (a, origin) = (asset(s), place(s));
        let id = known(&a.id.0);
        let fungible = matches!(a.fun, Fungible(_));
        rec.log(|| format!("{a:?} from {origin:?}"));
        // which assets there are
        check_eq!(<SupportedAssets as Contains<Location>>::contains(&a.id.0), id.is_some(), "supported", "whether {:?} is supported", a.id);
        check_eq!(<SupportedAssets as MaybeEquivalence<Location, u32>>::convert(&a.id.0), id, "id", "the id of {:?}", a.id);
        let n = *s.pick(&[0u32, 10, 1337, 1984, 3344, 1, 11, u32::MAX]);
        let back = <SupportedAssets as MaybeEquivalence<Location, u32>>::convert_back(&n);
        check_eq!(back.as_ref().and_then(known), [10, 1337, 1984].contains(&n).then_some(n), "back", "the place of asset {n}");
        if let Some(o) = old(&a.id.0) {
            check_eq!(ConvertMultilocationToAssetId::convert(o), id.unwrap_or(0), "fee-asset", "the asset a fee in {:?} is paid with", a.id);
        }
        // who is trusted with them
        let hub = origin == Location::new(1, [Parachain(1000)]);
        let got = <<XcmConfig as Config>::IsReserve as ContainsPair<Asset, Location>>::contains(&a, &origin);
        check!(!got || (hub && id.is_some()), "reserve", "{origin:?} is trusted as the reserve of {a:?}");
        if fungible {
            check_eq!(got, hub && id.is_some(), "reserve", "whether {origin:?} is the reserve of {a:?}");
        }
        check!(!<<XcmConfig as Config>::IsTeleporter as ContainsPair<Asset, Location>>::contains(&a, &origin), "teleporter", "{origin:?} may teleport {a:?}");
        let v: Vec<Asset> = (0..s.below(4)).map(|_| if s.flag() { a.clone() } else { asset(s) }).collect();
        let all = v.iter().all(|a| known(&a.id.0).is_some());
        let out = <Wallet as Contains<(Location, Vec<Asset>)>>::contains(&(origin.clone(), v.clone()));
        check!(!out || all, "out", "{origin:?} may send {v:?} to their reserve");
        if v.iter().all(|a| matches!(a.fun, Fungible(_))) && !v.is_empty() {
            check_eq!(out, all, "out", "whether {v:?} may be sent to their reserve");
        }
        check!(!<Teleport as Contains<(Location, Vec<Asset>)>>::contains(&(origin.clone(), v.clone())), "teleport", "{origin:?} may teleport {v:?}");
        check!(!<Execute as Contains<(Location, Xcm<xrt::prelude::RuntimeCall>)>>::contains(&(origin.clone(), Xcm(vec![]))), "execute", "{origin:?} may execute a message");
        check!(!<<XcmConfig as Config>::SafeCallFilter as Contains<xrt::prelude::RuntimeCall>>::contains(&xrt::prelude::RuntimeCall), "transact", "a call is safe to be made from elsewhere");
        let j = junction(s);
        check!(!<<XcmConfig as Config>::UniversalAliases as Contains<(Location, Junction)>>::contains(&(origin.clone(), j)), "alias", "{origin:?} may speak for {j:?}");
        if id.is_some() {
            rec.nontrivial();
            rec.label(if hub { "reserve" } else { "asset of another" });
        }
        rec.feature(fnv(id.unwrap_or(0) as u64, &[hub as u8, all as u8, v.len() as u8]));
    }
    Ok(())
}

type I = Instruction<()>;
fn weight(s: &mut Src) -> Weight {
    Weight::from_parts(s.below(4) * 1000, s.below(4) * 1000)
}
fn limit(s: &mut Src, max: Weight) -> WeightLimit {
    match s.below(5) {
        0 => Unlimited,
        1 => Limited(max),
        2 => Limited(max.saturating_add(Weight::from_parts(s.below(2), s.below(2)))),
        3 => Limited(Weight::from_parts(max.ref_time().saturating_sub(s.below(2)), max.proof_size().saturating_sub(s.below(2)))),
        _ => Limited(weight(s)),
    }
}
fn instruction(s: &mut Src, max: Weight) -> I {
    let assets = |s: &mut Src| -> Assets {
        let v: Vec<Asset> = (0..1 + s.below(3)).map(|_| asset(s)).collect();
        v.into()
    };
    match s.below(22) {
        0 => ReserveAssetDeposited(assets(s)),
        1 => WithdrawAsset(assets(s)),
        2 => ReceiveTeleportedAsset(assets(s)),
        3 => ClaimAsset { assets: assets(s), ticket: Location::here() },
        4 | 5 => BuyExecution { fees: asset(s), weight_limit: limit(s, max) },
        6 => ClearOrigin,
        7 => descend(s),
        8 => UnpaidExecution { weight_limit: limit(s, max), check_origin: None },
        9 => HrmpNewChannelOpenRequest { sender: 1, max_message_size: 2, max_capacity: 3 },
        10 => HrmpChannelAccepted { recipient: 1 },
        11 => HrmpChannelClosing { initiator: 1, sender: 2, recipient: 3 },
        12 => QueryResponse { query_id: s.below(3), response: Response::Null, max_weight: Weight::zero(), querier: None },
        13 => SubscribeVersion { query_id: 1, max_response_weight: Weight::zero() },
        14 => UnsubscribeVersion,
        15 => SetTopic([s.below(3) as u8; 32]),
        16 => InitiateReserveWithdraw { assets: AssetFilter::Wild(WildAsset::All), reserve: place(s), xcm: Xcm(vec![]) },
        17 => DepositReserveAsset { assets: AssetFilter::Wild(WildAsset::All), dest: place(s), xcm: Xcm(vec![]) },
        18 => TransferReserveAsset { assets: assets(s), dest: place(s), xcm: Xcm(vec![]) },
        19 => UniversalOrigin(junction(s)),
        20 => DepositAsset { assets: AssetFilter::Wild(WildAsset::All), beneficiary: place(s) },
        _ => RefundSurplus,
    }
}
fn descend(s: &mut Src) -> I {
    let v: Vec<Junction> = (0..s.below(3)).map(|_| match s.below(3) {
        0 => Parachain(1000),
        1 => Junction::Plurality { id: BodyId::Executive, part: BodyPart::Voice },
        _ => junction(s),
    }).collect();
    DescendOrigin(xcm::v4::Junctions::from_slice(&v).unwrap())
}
/// what may be executed, and how; None if it does not matter
enum Verdict {
    No,
    Credit,
    Yes(&'static str),
    Any,
}
fn judge(origin: &Location, msg: &[I], max: Weight, credit: Weight, awaited: &[(Location, u64)]) -> Verdict {
    let fits = |l: &WeightLimit| match l {
        Unlimited => true,
        Limited(w) => w.ref_time() >= max.ref_time() && w.proof_size() >= max.proof_size(),
    };
    let msg = match msg.last() {
        Some(SetTopic(_)) => &msg[..msg.len() - 1],
        _ => msg,
    };
    let relay = Location::parent();
    if msg.is_empty() {
        return Verdict::No;
    }
    for i in msg {
        match i {
            InitiateReserveWithdraw { reserve: l, .. } | DepositReserveAsset { dest: l, .. } | TransferReserveAsset { dest: l, .. } if *l == relay => return Verdict::No,
            _ => {},
        }
    }
    if credit.ref_time() >= max.ref_time() && credit.proof_size() >= max.proof_size() {
        return Verdict::Credit;
    }
    if let [QueryResponse { query_id, .. }] = msg {
        if awaited.contains(&(origin.clone(), *query_id)) {
            return Verdict::Yes("an awaited response");
        }
    }
    // who speaks
    let mut who = (origin.parents, origin.interior.iter().copied().collect::<Vec<_>>());
    let mut at = 0;
    while at < 8 && at < msg.len() {
        match &msg[at] {
            DescendOrigin(j) => who.1.extend(j.iter().copied()),
            UniversalOrigin(_) => return Verdict::Any,
            _ => break,
        }
        if who.1.len() > 8 {
            return Verdict::No;
        }
        at += 1;
    }
    let rest = &msg[at..];
    let is_relay = who.0 == 1 && (who.1.is_empty() || matches!(who.1[..], [Junction::Plurality { id: BodyId::Executive, .. }]));
    if is_relay && matches!(rest, [HrmpNewChannelOpenRequest { .. } | HrmpChannelAccepted { .. } | HrmpChannelClosing { .. }]) {
        return Verdict::Yes("a notification about a channel");
    }
    let few = |a: &Assets| a.len() <= 2;
    if let Some(ReserveAssetDeposited(a) | WithdrawAsset(a) | ReceiveTeleportedAsset(a) | ClaimAsset { assets: a, .. }) = rest.first() {
        if few(a) {
            let next = rest[1..rest.len().min(5)].iter().find(|i| match i {
                ClearOrigin | AliasOrigin(_) => false,
                DescendOrigin(j) => j.is_empty(),
                _ => true,
            });
            if let Some(BuyExecution { weight_limit, .. }) = next {
                if fits(weight_limit) {
                    return Verdict::Yes("paid");
                }
            }
        }
    }
    let hub = who.0 == 1 && who.1 == [Parachain(1000)];
    if is_relay || hub {
        if let Some(UnpaidExecution { weight_limit, .. }) = rest.first() {
            if fits(weight_limit) {
                return Verdict::Yes("unpaid");
            }
        }
    }
    let sibling = who.0 == 1 && (who.1.is_empty() || matches!(who.1[..], [Parachain(_)]));
    if sibling && matches!(rest, [SubscribeVersion { .. } | UnsubscribeVersion]) {
        return Verdict::Yes("a subscription");
    }
    Verdict::No
}

/// X05
pub fn barrier(s: &mut Src, rec: &mut Rec) -> R {
    rec.op();
    let origin = place(s);
    let max = weight(s);
    let credit = match s.below(4) {
        0 => max,
        1 => weight(s),
        _ => Weight::zero(),
    };
    let awaited: Vec<(Location, u64)> = (0..s.below(3)).map(|_| (if s.flag() { origin.clone() } else { place(s) }, s.below(3))).collect();
    let mut msg: Vec<I> = vec![];
    if s.chance(1, 3) {
        let n = if s.chance(1, 6) { 7 + s.below(3) } else { 1 + s.below(2) };
        msg.extend((0..n).map(|_| descend(s)));
    }
    match s.below(4) {
        0 => {
            msg.push(if s.flag() { WithdrawAsset(vec![asset(s)].into()) } else { ReserveAssetDeposited(vec![asset(s)].into()) });
            if s.flag() {
                msg.push(ClearOrigin);
            }
            msg.push(BuyExecution { fees: asset(s), weight_limit: limit(s, max) });
        },
        1 => msg.push(instruction(s, max)),
        2 => msg.push(UnpaidExecution { weight_limit: limit(s, max), check_origin: None }),
        _ => {},
    }
    let n = s.below(4);
    for _ in 0..n {
        let at = if s.chance(1, 4) { s.idx(msg.len() + 1) } else { msg.len() };
        msg.insert(at, instruction(s, max));
    }
    let topic: Option<XcmHash> = s.chance(1, 3).then(|| [7; 32]);
    msg.extend(topic.map(SetTopic));
    rec.log(|| format!("{origin:?}, at most {max:?}, credit {credit:?}, awaited {awaited:?}: {msg:?}"));
    AWAITED.with(|a| *a.borrow_mut() = awaited.clone());
    let want = judge(&origin, &msg, max, credit, &awaited);
    let mut given = msg.clone();
    let mut p = Properties { weight_credit: credit, message_id: None };
    let got = <<XcmConfig as Config>::Barrier as ShouldExecute>::should_execute(&origin, &mut given, max, &mut p).is_ok();
    match want {
        Verdict::Any => {
            rec.excluded("the message claims an origin of another consensus system, which nobody may");
            return Ok(());
        },
        Verdict::No => {
            check!(!got, "admitted", "a message is executed for {origin:?}: {msg:?}");
            rec.label("refused");
        },
        Verdict::Credit => {
            check!(got, "refused", "a message whose weight was paid for is refused");
            check_eq!(p.weight_credit, credit.saturating_sub(max), "credit", "the weight that is left");
            rec.label("credit");
        },
        Verdict::Yes(why) => {
            check!(got, "refused", "a message of {origin:?} ({why}) is refused: {msg:?}");
            check_eq!(p.weight_credit, credit, "credit", "the weight that is left");
            if why == "paid" {
                let l = given.iter().find_map(|i| match i { BuyExecution { weight_limit, .. } => Some(weight_limit.clone()), _ => None });
                if l != Some(Limited(max)) {
                    return fail("limit", format!("the weight bought is {l:?}, not {max:?}"));
                }
            }
            rec.label(why);
            rec.nontrivial();
            rec.feature(fnv(origin.interior.len() as u64, why.as_bytes()));
        },
    }
    if topic.is_some() && got {
        check_eq!(p.message_id, topic, "topic", "the message's topic");
    }
    Ok(())
}

/// X08
pub fn trade(s: &mut Src, rec: &mut Rec) -> R {
    type Trader = <XcmConfig as Config>::Trader;
    let base = frame_support::weights::constants::ExtrinsicBaseWeight::get().ref_time() as u128;
    let hub = |g| Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(g)]);
    let places = [Location::here(), Location::parent(), hub(1337), hub(1984)];
    // what a weight costs in each of them, and by how much that may be off
    let price = |w: Weight, i: usize| -> (u128, u128) {
        let (t, p) = (w.ref_time() as u128, w.proof_size() as u128);
        let fixed = |unit: u128| unit * t / 1_000_000_000_000 + unit * p / (1024 * 1024);
        match i {
            0 => {
                let v = (t * 100_000_000 / (100 * base)).max(p * 100_000_000 / 10_000);
                (v, 2 + v / 5_000_000)
            },
            // 0.2 DOT, 1 USDC, 1 USDT
            1 => (fixed(2_000_000_000), 0),
            _ => (fixed(1_000_000), 0),
        }
    };
    crate::xrt::prelude::REVENUE.with(|r| r.borrow_mut().clear());
    let mut trader = Trader::new();
    let mut sold = [0u128; 4];
    let mut weights: Vec<(usize, Weight)> = vec![];
    let mut all = Weight::zero();
    let w = |s: &mut Src| Weight::from_parts(s.magnitude(44) as u64, s.magnitude(24) as u64);
    s.plan(1, 4);
    while s.more() {
        rec.op();
        if s.chance(1, 3) && !weights.is_empty() {
            // give back part of the weight
            let x = if s.flag() { Weight::from_parts(s.magnitude(40) as u64, s.magnitude(20) as u64) } else { weights.last().unwrap().1 };
            rec.log(|| format!("{x:?} are given back"));
            let mut taken = None;
            if let Some((a, amount)) = trader.refund_weight(x) {
                let Some(i) = places.iter().position(|p| *p == a.0) else { return fail("refund", format!("{amount} of {a:?} are refunded")) };
                // what many small purchases cost is rounded for each of them
                let w = x.min(all);
                let (v, slack) = price(w, i);
                check!(sold[i] > 0 || v <= slack, "refund", "{amount} of {a:?} are refunded, none was paid");
                check!(amount <= v + slack, "refund", "{amount} of {a:?} are refunded for {x:?}, {all:?} was sold, {w:?} costs {v}");
                sold[i] = sold[i].saturating_sub(amount);
                taken = Some(i);
            }
            rec.label("refund");
            rec.feature(taken.map_or(9, |i| 10 + i as u64));
            // at most one purchase is followed: the order in which the traders are asked decides which is refunded
            weights.clear();
            if taken.is_none() {
                continue;
            }
            break;
        }
        let x = w(s);
        let mut have = AssetsInHolding::default();
        let mut what = vec![];
        for _ in 0..1 + s.below(2) {
            let l = if s.chance(3, 4) { places[s.idx(4)].clone() } else { place(s) };
            let i = places.iter().position(|p| *p == l);
            let amount = match i {
                Some(i) if s.chance(3, 4) => {
                    let (v, slack) = price(x, i);
                    (v + slack).saturating_add_signed(s.range(0, 4) as i128 - 3).max(1)
                },
                _ => 1 + s.magnitude(60),
            };
            have.0.insert(AssetId(l.clone()), amount);
            what.push((l, amount));
        }
        rec.log(|| format!("{x:?} for {what:?}"));
        match trader.buy_weight(x, have.clone()) {
            Err(_) => {
                for i in 0..4 {
                    let (v, slack) = price(x, i);
                    let got = have.0.get(&AssetId(places[i].clone())).copied().unwrap_or(0);
                    check!(got < v + slack || v + slack == 0, "refused", "{x:?} is not sold for {got} of {:?}, which costs {v}", places[i]);
                }
                rec.label("refused");
            },
            Ok(rest) => {
                all = all.saturating_add(x);
                let mut paid = vec![];
                for (a, amount) in &have.0 {
                    let left = rest.0.get(a).copied().unwrap_or(0);
                    check!(left <= *amount, "more", "a buyer of weight comes out with more of {a:?}");
                    if left < *amount {
                        let Some(i) = places.iter().position(|p| *p == a.0) else { return fail("asset", format!("weight is sold for {a:?}")) };
                        paid.push((i, amount - left));
                    }
                }
                check!(rest.0.keys().all(|a| have.0.contains_key(a)), "more", "a buyer of weight is given an asset");
                match paid[..] {
                    [] => check!((0..4).any(|i| price(x, i).0 <= price(x, i).1), "free", "{x:?} is sold for nothing"),
                    [(i, p)] => {
                        let (v, slack) = price(x, i);
                        check!(p.abs_diff(v) <= slack, "price", "{x:?} is sold for {p} of {:?} instead of {v}", places[i]);
                        sold[i] += p;
                        weights.push((i, x));
                        rec.nontrivial();
                        rec.label(["PLMC", "DOT", "USDC", "USDT"][i]);
                        rec.feature(i as u64);
                    },
                    _ => return fail("twice", format!("weight is paid for with {paid:?}")),
                }
            },
        }
    }
    drop(trader);
    let mut revenue = [0u128; 4];
    for (who, l, x) in crate::xrt::prelude::REVENUE.with(|r| r.borrow().clone()) {
        check_eq!(who, crate::xrt::prelude::treasury(), "revenue-to", "who is given the revenue");
        let Some(i) = places.iter().position(|p| *p == l) else { return fail("revenue", format!("a revenue of {x} of {l:?}")) };
        revenue[i] += x;
    }
    check_eq!(revenue, sold, "revenue", "the treasury's revenue (PLMC, DOT, USDC, USDT)");
    Ok(())
}
