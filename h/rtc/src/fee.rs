//! X01, X02, X06, X07: fees, dust, slashes and the electorate.
use crate::gov::stubs as gov;
use crate::fees::{DustRemovalAdapter, Electorate, ToTreasury};
use crate::rt::{self, AccountId, AssetId, Balance, Balances, ForeignAssets, Runtime, RuntimeCall, System};
use frame_support::traits::{
    fungible::{Balanced, Inspect as _},
    fungibles::Inspect as _,
    tokens::{Fortitude, Precision, Preservation},
    Get, OnUnbalanced,
};
use frame_support::weights::{Weight, WeightToFee as _};
use pallet_asset_tx_payment::OnChargeAssetTransaction;
use pallet_democracy::GetElectorate;
use pallet_transaction_payment::OnChargeTransaction;
use pbt::{check, check_eq, fnv, Fail, Rec, Src};
use shared_configuration::fee::BlockchainOperationTreasury;
use sp_runtime::{traits::AccountIdConversion, BuildStorage, FixedPointNumber, FixedU128};
use std::collections::BTreeMap;
use xcm::v3::{
    prelude::{Here, X1, X2, X3},
    Junction::{GeneralIndex, PalletInstance, Parachain},
    MultiLocation,
};

type R = Result<(), Fail>;
type AssetCharge = <Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction;
type Charge = <Runtime as pallet_transaction_payment::Config>::OnChargeTransaction;
const PLMC: AssetId = 3344;
const ASSETS: [(AssetId, u8); 3] = [(10, 10), (1337, 6), (1984, 6)];

pub fn acc(i: u8) -> AccountId {
    AccountId::from([i; 32])
}
/// the account of the pallet of the collators' rewards
fn pot() -> AccountId {
    frame_support::PalletId(*b"plmc/stk").into_account_truncating()
}
fn treasury() -> AccountId {
    frame_support::PalletId(*b"plmc/tsy").into_account_truncating()
}
fn fixed(s: &mut Src, lo_micro: u64, hi_micro: u64) -> FixedU128 {
    let whole = s.range(lo_micro, hi_micro) as u128 * 1_000_000_000_000;
    let part = if s.chance(1, 4) { s.below(1_000_000_000_000) as u128 } else { 0 };
    FixedU128::from_inner(whole + part)
}
/// what `fee` of PLMC is worth: from below and from above, whether or not the prices are cut to micro-USD
fn worth(fee: u128, plmc: FixedU128, asset: FixedU128, decimals: u8) -> (u128, u128) {
    let unit = 10u128.pow(decimals as u32);
    let cut = |p: FixedU128| (p.into_inner() / 1_000_000_000_000, p.into_inner().div_ceil(1_000_000_000_000));
    let ((pl, ph), (al, ah)) = (cut(plmc), cut(asset));
    // values of many orders of magnitude: a big enough denominator first
    let mul = |usd: u128, a: u128| if a == 0 { u128::MAX } else { usd * unit / a };
    let lo = mul(fee * pl / 10_000_000_000, ah);
    let hi = if al == 0 { u128::MAX / 4 } else { mul((fee * ph).div_ceil(10_000_000_000), al) };
    let slack = |v: u128, a: u128| 2 + unit / a.max(1) + v / 1_000_000_000;
    (lo.saturating_sub(slack(lo, ah)), hi.saturating_add(slack(hi, al)))
}
fn location(s: &mut Src) -> (MultiLocation, Option<usize>) {
    let x3 = |p, i, g| MultiLocation::new(1, X3(Parachain(p), PalletInstance(i), GeneralIndex(g)));
    let (l, a) = match s.weighted(&[8, 8, 8, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => (MultiLocation::parent(), Some(0)),
        1 => (x3(1000, 50, 1337), Some(1)),
        2 => (x3(1000, 50, 1984), Some(2)),
        3 => (MultiLocation::here(), None),
        4 => (x3(1001 + s.below(2000) as u32, 50, *s.pick(&[1337, 1984])), None),
        5 => (x3(1000, s.below(50) as u8, *s.pick(&[1337, 1984])), None),
        6 => (x3(1000, 50, *s.pick(&[1u128, 10, 1336, 1985, 3344, 0])), None),
        7 => (MultiLocation::new(2, Here), None),
        8 => (MultiLocation::new(0, X2(PalletInstance(14), GeneralIndex(*s.pick(&[10u128, 1337, 1984])))), None),
        9 => (MultiLocation::new(1, X1(Parachain(1000))), None),
        _ => (MultiLocation::new(*s.pick(&[0u8, 2]), X3(Parachain(1000), PalletInstance(50), GeneralIndex(1984))), None),
    };
    (l, a)
}

/// X01
pub fn asset_fees(s: &mut Src, rec: &mut Rec) -> R {
    let min: Vec<u128> = ASSETS.iter().map(|(_, d)| if s.flag() { 1 } else { 10u128.pow(*d as u32) / s.range(2, 100) as u128 }).collect();
    let mut g = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
    // the payer, two authors, the pot and the treasury, and someone who has nothing to do with it
    let people = [acc(1), acc(2), acc(3), pot(), treasury(), acc(4)];
    let mut accounts = vec![];
    let mut first: BTreeMap<(usize, usize), u128> = BTreeMap::new();
    for (a, (id, d)) in ASSETS.iter().enumerate() {
        for (p, who) in people.iter().enumerate() {
            if p == 0 || s.chance(2, 3) {
                let x = min[a] + if p == 0 { s.magnitude(30 + *d as u32 * 2) } else { s.magnitude(40) };
                accounts.push((*id, who.clone(), x));
                first.insert((a, p), x);
            }
        }
    }
    pallet_assets::GenesisConfig::<Runtime, pallet_assets::Instance2> {
        assets: ASSETS.iter().zip(&min).map(|((id, _), m)| (*id, acc(9), true, *m)).collect(),
        metadata: ASSETS.iter().map(|(id, d)| (*id, b"a".to_vec(), b"a".to_vec(), *d)).collect(),
        accounts,
    }
    .assimilate_storage(&mut g)
    .unwrap();
    let mut ext = sp_io::TestExternalities::new(g);
    ext.execute_with(|| {
        System::set_block_number(1);
        s.plan(1, 4);
        while s.more() {
            rec.op();
            // none of them may change during the extrinsic, except the prices
            let author = match s.below(4) {
                0 => None,
                1 => Some(0),
                2 => Some(1),
                _ => Some(2),
            };
            rt::AUTHOR.with(|a| *a.borrow_mut() = author.map(|i| people[i].clone()));
            pallet_authorship_reset();
            let mut price: BTreeMap<AssetId, FixedU128> = BTreeMap::new();
            if !s.chance(1, 12) {
                price.insert(PLMC, if s.chance(1, 12) { fixed(s, 0, 2) } else { fixed(s, 1_000, 20_000_000) });
            }
            for (id, _) in ASSETS {
                if !s.chance(1, 12) {
                    price.insert(id, match s.weighted(&[1, 6, 6]) { 0 => fixed(s, 0, 2), 1 => fixed(s, 900_000, 1_100_000), _ => fixed(s, 100_000, 90_000_000) });
                }
            }
            rt::PRICES.with(|p| *p.borrow_mut() = price.clone());
            let (place, asset) = location(s);
            // 1 PLMC is 10^10
            let tip = if s.chance(1, 3) { s.magnitude(36) } else { 0 };
            let corrected = tip + s.magnitude(44);
            let fee = corrected + if s.flag() { s.magnitude(44) } else { 0 };
            let (fee, corrected, tip) = if s.chance(1, 40) { (0, 0, 0) } else { (fee.max(1), corrected, tip) };
            let before: BTreeMap<(usize, usize), u128> = snapshot(&people);
            let native = native_state();
            // now and then exactly what the fee is, or not quite
            let call: RuntimeCall = frame_system::Call::remark { remark: vec![] }.into();
            let info = frame_support::dispatch::DispatchInfo::default();
            rec.log(|| format!("location {place:?}, fee {fee}, corrected {corrected}, tip {tip}, author {author:?}, prices {price:?}"));
            let got = <AssetCharge as OnChargeAssetTransaction<Runtime>>::withdraw_fee(&people[0], &call, &info, place, fee, tip);
            let prices = asset.and_then(|a| Some((*price.get(&PLMC)?, *price.get(&ASSETS[a].0)?)));
            let range = |x: u128, p: Option<(FixedU128, FixedU128)>| {
                let a = asset.unwrap();
                let (l, h) = worth(x, p.unwrap().0, p.unwrap().1, ASSETS[a].1);
                (l.max((x > 0) as u128), h.max((x > 0) as u128))
            };
            let paid: frame_support::traits::fungibles::Credit<AccountId, ForeignAssets> = match got {
                Err(_) => {
                    rec.label("refused");
                    check_eq!(snapshot(&people), before, "refused-effect", "a refused payment moves assets");
                    if let Some(p) = prices {
                        let have = before.get(&(asset.unwrap(), 0)).copied().unwrap_or(0);
                        let (_, h) = range(fee, prices);
                        check!(p.1 < FixedU128::saturating_from_rational(1, 1_000_000) || h.saturating_add(min[asset.unwrap()]) > have, "refused", "a fee of {fee} (at most {h} of {place:?}) is refused to an account of {have}, minimum {}", min[asset.unwrap()]);
                    }
                    continue;
                },
                Ok(c) => c,
            };
            let Some(a) = asset else {
                return pbt::fail("unaccepted", format!("a fee is taken in {place:?}"));
            };
            check!(prices.is_some(), "priceless", "a fee is taken without a price: {place:?}");
            let w = paid.peek();
            check_eq!(paid.asset(), ASSETS[a].0, "asset", "the asset charged");
            let (l, h) = range(fee, prices);
            check!((l..=h).contains(&w), "charge", "a fee of {fee} PLMC is charged as {w}, worth {l}..{h}");
            let mut now = before.clone();
            let have = before[&(a, 0)];
            check!(have >= w + if w > 0 { min[a] } else { 0 }, "kills", "a fee of {w} leaves an account of {have} below the minimum");
            now.insert((a, 0), have - w);
            check_eq!(snapshot(&people), now, "withdraw", "balances after the fee was withdrawn");
            // the price can move while the extrinsic runs
            let mut prices = prices;
            if s.chance(1, 6) {
                let (p, q) = (fixed(s, 1_000, 20_000_000), fixed(s, 100_000, 90_000_000));
                rt::PRICES.with(|m| m.borrow_mut().extend([(PLMC, p), (ASSETS[a].0, q)]));
                prices = Some((p, q));
                rec.label("price moves");
            }
            let supply = ForeignAssets::total_issuance(ASSETS[a].0);
            let Ok((cf, ct)) = <AssetCharge as OnChargeAssetTransaction<Runtime>>::correct_and_deposit_fee(&people[0], &info, &frame_support::dispatch::PostDispatchInfo::default(), corrected, tip, paid) else {
                return pbt::fail("correct", "the fee is not settled");
            };
            let (l, h) = range(corrected, prices);
            check!((l..=h).contains(&cf), "corrected", "the actual fee of {corrected} PLMC is converted to {cf}, worth {l}..{h}");
            let (l, h) = range(tip, prices);
            check!((l.saturating_sub(1)..=h).contains(&ct) && (tip > 0 || ct == 0), "tip", "the tip of {tip} PLMC is converted to {ct}, worth {l}..{h}");
            let kept = cf.min(w);
            let tips = ct.min(kept);
            let mut burned = 0;
            let mut give = |to: Option<usize>, x: u128| {
                let have = to.and_then(|p| now.get(&(a, p)).copied()).unwrap_or(0);
                match to {
                    _ if x == 0 => {},
                    Some(p) if have > 0 || x >= min[a] => drop(now.insert((a, p), have + x)),
                    _ => burned += x,
                }
            };
            give(Some(0), w - kept);
            give(Some(3), kept - tips);
            give(author, tips);
            check_eq!(snapshot(&people), now, "settle", "balances after {kept} of {w} with a tip of {tips} was settled (asset {a}; payer, authors, pot, treasury, other)");
            check_eq!(ForeignAssets::total_issuance(ASSETS[a].0), supply - burned, "supply", "the supply of the asset");
            check_eq!(native_state(), native, "native", "the native currency");
            rec.nontrivial();
            rec.label(if tips > 0 { "with a tip" } else { "no tip" });
            rec.feature(fnv(a as u64, &[(kept < w) as u8, (tips > 0) as u8, (burned > 0) as u8, author.map_or(9, |x| x as u8)]));
        }
        Ok(())
    })
}
fn pallet_authorship_reset() {
    use frame_support::traits::Hooks;
    <crate::rt::Authorship as Hooks<u32>>::on_finalize(1);
}
fn snapshot(people: &[AccountId]) -> BTreeMap<(usize, usize), u128> {
    let mut m = BTreeMap::new();
    for (a, (id, _)) in ASSETS.iter().enumerate() {
        for (p, who) in people.iter().enumerate() {
            let b = ForeignAssets::balance(*id, who);
            if b > 0 {
                m.insert((a, p), b);
            }
        }
    }
    m
}
fn native_state() -> (u128, Vec<u128>) {
    (Balances::total_issuance(), (1..5).map(|i| Balances::balance(&acc(i))).chain([Balances::balance(&pot()), Balances::balance(&treasury())]).collect())
}

/// X02, X07: `electorate` decides what is compared.
pub fn native(s: &mut Src, rec: &mut Rec, electorate: bool) -> R {
    let ed: u128 = <Runtime as pallet_balances::Config>::ExistentialDeposit::get();
    // four users, the pot, the treasury
    let people = [acc(1), acc(2), acc(3), acc(4), pot(), treasury()];
    let mut g = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
    let mut m: Vec<u128> = people.iter().map(|_| if s.chance(1, 4) { 0 } else { ed + s.magnitude(50) }).collect();
    pallet_balances::GenesisConfig::<Runtime> {
        balances: people.iter().cloned().zip(m.iter().copied()).filter(|x| x.1 > 0).collect(),
    }
    .assimilate_storage(&mut g)
    .unwrap();
    let mut issued: u128 = m.iter().sum();
    let mut ext = sp_io::TestExternalities::new(g);
    ext.execute_with(|| {
        System::set_block_number(1);
        check_eq!(<Runtime as gov::pallet_parachain_staking::Config>::PayMaster::get(), pot(), "paymaster", "who pays the collators");
        s.plan(2, 12);
        while s.more() {
            rec.op();
            let author = s.chance(4, 5).then(|| s.idx(4));
            rt::AUTHOR.with(|a| *a.borrow_mut() = author.map(|i| people[i].clone()));
            pallet_authorship_reset();
            let u = s.idx(4);
            fn give(m: &mut [u128], issued: &mut u128, ed: u128, to: Option<usize>, x: u128) -> bool {
                match to {
                    _ if x == 0 => true,
                    Some(p) if m[p] > 0 || x >= ed => {
                        m[p] += x;
                        true
                    },
                    _ => {
                        *issued -= x;
                        false
                    },
                }
            }
            let amount = |s: &mut Src, have: u128| match s.weighted(&[4, 1, 1, 2]) {
                0 => s.magnitude(44),
                1 => have.saturating_sub(ed),
                2 => have.saturating_sub(ed) + 1,
                _ => have.saturating_sub(s.below(ed as u64) as u128),
            };
            match s.below(4) {
                0 => {
                    let fee = amount(s, m[u]);
                    let corrected = if s.flag() { fee } else { fee - (s.magnitude(44).min(fee)) };
                    let tip = if s.flag() { s.magnitude(44).min(corrected) } else { 0 };
                    rec.log(|| format!("a fee of {fee} (then {corrected}, tip {tip}) of {u}, author {author:?}"));
                    let call: RuntimeCall = frame_system::Call::remark { remark: vec![] }.into();
                    let info = frame_support::dispatch::DispatchInfo::default();
                    let r = <Charge as OnChargeTransaction<Runtime>>::withdraw_fee(&people[u], &call, &info, fee, tip);
                    if fee > 0 && m[u] < fee + ed {
                        check!(r.is_err(), "unaffordable", "a fee of {fee} is taken from {}", m[u]);
                        rec.label("refused");
                    } else {
                        let Ok(paid) = r else { return pbt::fail("affordable", format!("a fee of {fee} is refused to {}", m[u])) };
                        let r = <Charge as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&people[u], &info, &frame_support::dispatch::PostDispatchInfo::default(), corrected, tip, paid);
                        check!(r.is_ok(), "correct", "the fee is not settled");
                        if fee > 0 {
                            m[u] -= corrected;
                            let x = give(&mut m, &mut issued, ed, Some(4), corrected - tip);
                            let y = give(&mut m, &mut issued, ed, author, tip);
                            rec.label(if tip > 0 { "fee with a tip" } else { "fee" });
                            rec.nontrivial();
                            rec.feature(fnv(1, &[x as u8, y as u8, author.is_some() as u8, (tip > 0) as u8]));
                        }
                    }
                },
                1 => {
                    // possibly leaves dust
                    let to = (u + 1 + s.idx(3)) % 4;
                    let value = amount(s, m[u]);
                    rec.log(|| format!("{u} transfers {value} to {to}"));
                    let r = Balances::transfer_allow_death(crate::rt::RuntimeOrigin::signed(people[u].clone()), people[to].clone(), value);
                    if r.is_ok() && value > 0 {
                        check!(m[u] >= value, "transfer", "{value} of {}", m[u]);
                        m[u] -= value;
                        if m[u] < ed {
                            let dust = std::mem::take(&mut m[u]);
                            let x = give(&mut m, &mut issued, ed, Some(4), dust);
                            if dust > 0 {
                                rec.label("dust");
                                rec.nontrivial();
                                rec.feature(fnv(2, &[x as u8]));
                            }
                        }
                        m[to] += value;
                    }
                },
                2 => {
                    let x = amount(s, m[u]);
                    // by staking, for a lost candidacy, for a blacklisted proposal
                    let why = s.idx(3);
                    rec.log(|| format!("{u} is slashed by {x} ({})", ["at large", "as a candidate", "as a proposer"][why]));
                    if let Ok(c) = <Balances as Balanced<AccountId>>::withdraw(&people[u], x, Precision::Exact, Preservation::Preserve, Fortitude::Polite) {
                        match why {
                            0 => ToTreasury::on_unbalanced(c),
                            1 => <Runtime as gov::pallet_elections_phragmen::Config>::LoserCandidate::on_unbalanced(c),
                            _ => <Runtime as gov::pallet_democracy::Config>::Slash::on_unbalanced(c),
                        }
                        m[u] -= x;
                        let y = give(&mut m, &mut issued, ed, Some(5), x);
                        rec.label("slash");
                        rec.nontrivial();
                        rec.feature(fnv(3, &[y as u8]));
                    }
                },
                _ => {
                    let x = s.magnitude(24);
                    rec.log(|| format!("dust of {x}"));
                    issued += x;
                    let c = <Balances as Balanced<AccountId>>::issue(x);
                    DustRemovalAdapter::on_unbalanced(c);
                    give(&mut m, &mut issued, ed, Some(4), x);
                },
            }
            if electorate {
                let want = Balances::total_issuance() - m[4] - m[5];
                check_eq!(Electorate::get_electorate(), want, "electorate", "the electorate");
                check_eq!(<Runtime as Voters>::get(), want, "electorate", "the electorate as democracy is given it");
                continue;
            }
            let now: Vec<u128> = people.iter().map(Balances::balance).collect();
            check_eq!(now, m, "balances", "balances (users, the collators' pot, the treasury)");
            check_eq!(Balances::total_issuance(), issued, "issuance", "the issuance");
        }
        Ok(())
    })
}
trait Voters {
    fn get() -> Balance;
}
impl Voters for Runtime {
    fn get() -> Balance {
        <Runtime as gov::pallet_democracy::Config>::Electorate::get_electorate()
    }
}

/// X06
pub fn weights(s: &mut Src, rec: &mut Rec) -> R {
    type W = <Runtime as pallet_transaction_payment::Config>::WeightToFee;
    type L = <Runtime as pallet_transaction_payment::Config>::LengthToFee;
    let base = frame_support::weights::constants::ExtrinsicBaseWeight::get().ref_time() as u128;
    let weight = |s: &mut Src| {
        let v = |s: &mut Src| if s.flag() { s.magnitude(64) as u64 } else { s.magnitude(41) as u64 };
        Weight::from_parts(v(s), v(s))
    };
    let a = weight(s);
    rec.op();
    // 0.0001 PLMC for the weight of an empty extrinsic; 0.01 PLMC for 10 kB of proof
    let exact = |w: Weight| {
        let t = w.ref_time() as u128 * 100_000_000 / (100 * base);
        let p = w.proof_size() as u128 * 100_000_000 / 10_000;
        (t.max(p), t >= p)
    };
    let (want, time) = exact(a);
    let got = W::weight_to_fee(&a);
    rec.log(|| format!("{a:?} costs {got}, exactly {want}"));
    let slack = 2 + want / 5_000_000;
    check!(got.abs_diff(want) <= slack, "fee", "the fee of {a:?} is {got}, not about {want}");
    let d = weight(s);
    let b = Weight::from_parts(a.ref_time().saturating_add(d.ref_time()), a.proof_size().saturating_add(d.proof_size()));
    check!(W::weight_to_fee(&b) >= got, "monotone", "{b:?} costs less than {a:?}");
    let n = s.magnitude(32) as u64;
    check_eq!(L::weight_to_fee(&Weight::from_parts(n, 0)), n as u128 * 100_000, "length", "the fee of {n} bytes");
    rec.nontrivial();
    rec.label(if time { "time" } else { "proof" });
    rec.feature(fnv(time as u64, &[(got > want) as u8, (got < want) as u8]));
    let _ = BlockchainOperationTreasury::get();
    let _: AssetId = PLMC;
    Ok(())
}
