use frame_support::{
    derive_impl, parameter_types,
    storage::with_storage_layer,
    traits::{
        fungible::InspectHold,
        fungibles::{metadata::Mutate as _, Create, Inspect as _, Mutate as _},
        AsEnsureOriginWithArg, VariantCount,
    },
    PalletId,
};
use num_bigint::BigUint;
use pallet_proxy_bonding::ReleaseType;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use pbt::{check, check_eq, fail, fnv, Fail, Rec, Src};
use polimec_common::ProvideAssetPrice;
use sp_runtime::{
    traits::{AccountIdConversion, Dispatchable, IdentityLookup},
    AccountId32, BuildStorage, FixedU128, Perbill,
};
use std::{cell::RefCell, collections::BTreeMap};

type R = Result<(), Fail>;
type Bal = u128;
type Acc = AccountId32;
type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system,
        Balances: pallet_balances,
        Assets: pallet_assets,
        Proxy: pallet_proxy_bonding,
    }
);

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, scale_info::TypeInfo, Ord, PartialOrd)]
pub enum Reason {
    A,
    B,
}
impl VariantCount for Reason {
    const VARIANT_COUNT: u32 = 2;
}
const REASONS: [Reason; 2] = [Reason::A, Reason::B];

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Bal>;
    type AccountId = Acc;
    type Block = Block;
    type Lookup = IdentityLookup<Acc>;
}
parameter_types! {
    pub static Ed: Bal = 100;
    pub static Fee: Perbill = Perbill::from_percent(5);
    pub static TokenDecimals: u8 = 10;
    pub static UsdDecimals: u8 = 6;
    pub const TokenId: u32 = 3344;
    pub const Root: PalletId = PalletId(*b"treasury");
    pub Treasury: Acc = acc(200);
    pub Recipient: Acc = acc(201);
    pub const Dep: Bal = 10;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Bal;
    type ExistentialDeposit = Ed;
    type RuntimeHoldReason = Reason;
}
#[derive_impl(pallet_assets::config_preludes::TestDefaultConfig as pallet_assets::DefaultConfig)]
impl pallet_assets::Config for Test {
    type Balance = Bal;
    type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<Acc>>;
    type Currency = Balances;
    type ForceOrigin = frame_system::EnsureRoot<Acc>;
    type Freezer = ();
    type AssetDeposit = Dep;
    type AssetAccountDeposit = Dep;
    type MetadataDepositBase = Dep;
    type MetadataDepositPerByte = Dep;
    type ApprovalDeposit = Dep;
}
thread_local! {
    static PRICES: RefCell<BTreeMap<u32, FixedU128>> = RefCell::new(BTreeMap::new());
}
pub struct Prices;
impl ProvideAssetPrice for Prices {
    type AssetId = u32;
    type Price = FixedU128;
    fn get_price(id: u32) -> Option<FixedU128> {
        PRICES.with(|p| p.borrow().get(&id).copied())
    }
}
fn set_price(id: u32, p: Option<FixedU128>) {
    PRICES.with(|m| match p {
        Some(p) => {
            m.borrow_mut().insert(id, p);
        },
        None => {
            m.borrow_mut().remove(&id);
        },
    });
}
impl pallet_proxy_bonding::Config for Test {
    type BondingToken = Balances;
    type BondingTokenDecimals = TokenDecimals;
    type BondingTokenId = TokenId;
    type FeePercentage = Fee;
    type FeeRecipient = Recipient;
    type FeeToken = Assets;
    type Id = PalletId;
    type PriceProvider = Prices;
    type RootId = Root;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeHoldReason = Reason;
    type Treasury = Treasury;
    type UsdDecimals = UsdDecimals;
}

fn acc(n: u8) -> Acc {
    Acc::new([n; 32])
}
const USERS: u8 = 4;
const ASSETS: [u32; 3] = [1337, 10, 77];
const PATHS: [u32; 5] = [0, 1, 2, 255, 70_000];

fn sub(path: u32) -> Acc {
    // what the pallet documents: the root account itself is never used, path n is sub-account n + 1
    Root::get().into_sub_account_truncating(path + 1)
}

fn ext() -> sp_io::TestExternalities {
    let t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let mut e: sp_io::TestExternalities = t.into();
    e.execute_with(|| System::set_block_number(1));
    e
}

#[derive(Clone, Debug, PartialEq, Default)]
struct St {
    free: BTreeMap<Acc, Bal>,
    held: BTreeMap<(u32, Reason), Bal>,
    assets: BTreeMap<(u32, Acc), Bal>,
    issuance: (Bal, Vec<Bal>),
}
fn snap() -> St {
    let mut s = St { issuance: (Balances::total_issuance(), ASSETS.iter().map(|a| Assets::total_issuance(*a)).collect()), ..Default::default() };
    let mut accs: Vec<Acc> = (0..USERS).map(acc).chain([Treasury::get(), Recipient::get()]).collect();
    accs.extend(PATHS.map(sub));
    for a in accs {
        s.free.insert(a.clone(), System::account(&a).data.free);
        for t in ASSETS {
            s.assets.insert((t, a.clone()), Assets::balance(t, &a));
        }
    }
    for p in PATHS {
        for r in REASONS {
            s.held.insert((p, r), Balances::balance_on_hold(&r, &sub(p)));
        }
    }
    s
}

#[derive(Clone, Debug)]
enum Op {
    Bond { path: u32, user: u8, amount: Bal, asset: u32, r: Reason },
    SetRelease { path: u32, r: Reason, t: ReleaseType<u64> },
    Back { by: u8, path: u32, r: Reason },
    Collect { by: u8, path: u32, r: Reason, asset: u32 },
    Refund { i: usize },
    Price { id: u32, p: Option<FixedU128> },
    Advance { n: u64 },
}

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Bond,
    Back,
    Fees,
}

/// a price in whole millionths of a dollar
fn gen_price(s: &mut Src) -> FixedU128 {
    let micro = match s.below(4) {
        0 => 1_000_000,
        1 => 1 + s.below(3_000_000),
        2 => 1_000 * (1 + s.below(100_000)),
        _ => 1 + s.magnitude(36) as u64,
    };
    FixedU128::from_inner(micro as u128 * 1_000_000_000_000)
}

struct Exact {
    num: BigUint,
    den: BigUint,
    /// bound of the rounding
    tol: u128,
}
/// the fee as documented: the percentage of the value of the bond, in the fee asset
fn exact_fee(amount: Bal, asset_dec: u8, token: FixedU128, fee: FixedU128) -> Exact {
    let ten = |n: u8| BigUint::from(10u8).pow(n as u32);
    // amount/10^td * token * pct / fee * 10^ad
    let num = BigUint::from(amount) * token.into_inner() * Fee::get().deconstruct() * ten(asset_dec);
    let den = ten(TokenDecimals::get()) * fee.into_inner() * 1_000_000_000u64;
    // two units of dollars of rounding, in units of the fee asset
    let unit = ten(asset_dec) * 1_000_000_000_000_000_000u64 / (ten(UsdDecimals::get()) * fee.into_inner()) + 1u8;
    let t = unit * 2u8 + BigUint::from(2u8) + &num / (&den * 1_000_000_000u64);
    Exact { num, den, tol: t.try_into().unwrap_or(u128::MAX) }
}
impl Exact {
    fn near(&self, x: Bal) -> bool {
        // amounts beyond the number range saturate
        if x == Bal::MAX {
            return (BigUint::from(Bal::MAX - self.tol.min(Bal::MAX / 2)) * &self.den) <= self.num;
        }
        let lo = BigUint::from(x.saturating_sub(self.tol)) * &self.den;
        let hi = (BigUint::from(x) + self.tol) * &self.den;
        lo <= self.num && self.num <= hi
    }
}

fn setup(s: &mut Src) -> Vec<(u32, u8, Bal)> {
    Ed::set(*s.pick(&[1u128, 100, 10_000_000]));
    Fee::set(match s.below(4) {
        0 => Perbill::from_percent(5),
        1 => Perbill::from_rational(1u32, 1000u32),
        2 => Perbill::from_parts(s.below(1_000_000_001) as u32),
        _ => Perbill::from_percent(s.below(101) as u32),
    });
    TokenDecimals::set(*s.pick(&[10u8, 10, 6, 12]));
    UsdDecimals::set(6);
    PRICES.with(|p| p.borrow_mut().clear());
    set_price(3344, Some(gen_price(s)));
    let decs = [6u8, 10, *s.pick(&[6u8, 12, 18])];
    let mut out = vec![];
    for (i, id) in ASSETS.iter().enumerate() {
        let min = *s.pick(&[1u128, 70, 70_000]);
        set_price(*id, Some(gen_price(s)));
        out.push((*id, decs[i], min));
    }
    out
}

pub fn history(s: &mut Src, rec: &mut Rec, which: Which) -> R {
    let assets = setup(s);
    ext().execute_with(|| {
        use frame_support::traits::fungible::Mutate as _;
        let rich = *s.pick(&[40u32, 60, 90]);
        Balances::set_balance(&Treasury::get(), Ed::get() * 3 + s.magnitude(rich));
        for n in 0..USERS {
            if s.flag() {
                Balances::set_balance(&acc(n), Ed::get() + s.magnitude(rich));
            }
        }
        for (id, dec, min) in &assets {
            Balances::set_balance(&acc(250), 1 << 100);
            Assets::create(*id, acc(250), true, *min).unwrap();
            Assets::set(*id, &acc(250), b"fee".to_vec(), b"FEE".to_vec(), *dec).unwrap();
            for n in 0..USERS {
                if s.chance(4, 5) {
                    Assets::mint_into(*id, &acc(n), *min + s.magnitude(rich)).unwrap();
                }
            }
        }
        let dec = |id: u32| assets.iter().find(|a| a.0 == id).unwrap().1;
        let min = |id: u32| assets.iter().find(|a| a.0 == id).unwrap().2;
        // bonds whose fee is still there: path, user, amount, asset, fee, prices at that time
        let mut open: Vec<(u32, u8, Bal, u32, Bal, [Option<FixedU128>; 2])> = vec![];
        let mut rel: BTreeMap<(u32, Reason), ReleaseType<u64>> = BTreeMap::new();
        s.plan(6, 40);
        while s.more() {
            rec.op();
            let now = System::block_number();
            let pre = snap();
            let path = *s.pick(&PATHS[..]);
            let r = *s.pick(&REASONS);
            let asset = *s.pick(&ASSETS);
            let user = s.below(USERS as u64) as u8;
            let w: [u64; 7] = match which {
                //        bond rel back coll refund price adv
                Which::Bond => [12, 2, 2, 2, 2, 3, 3],
                Which::Back => [8, 7, 9, 1, 1, 1, 7],
                Which::Fees => [10, 5, 2, 7, 7, 1, 3],
            };
            let op = match s.weighted(&w) {
                0 => {
                    let have = pre.assets[&(asset, acc(user))];
                    let amount = match s.below(4) {
                        0 => s.magnitude(rich),
                        1 => pre.free[&Treasury::get()] / (1 + s.below(6) as u128),
                        // about what the user can pay the fee for
                        2 if !Fee::get().is_zero() => {
                            let (Some(t), Some(f)) = (Prices::get_price(3344), Prices::get_price(asset)) else { continue };
                            let e = exact_fee(1 << 100, dec(asset), t, f);
                            let per: u128 = (e.num / e.den).try_into().unwrap_or(u128::MAX);
                            let x = BigUint::from(have) * (1u128 << 100) / per.max(1);
                            let x: u128 = x.try_into().unwrap_or(1 << 90);
                            x / (1 + s.below(10) as u128)
                        },
                        _ => s.magnitude(rich / 2),
                    };
                    Op::Bond { path, user, amount, asset, r }
                },
                1 => {
                    let t = match s.below(4) {
                        0 => ReleaseType::Refunded,
                        1 => ReleaseType::Locked(now.saturating_sub(s.below(4))),
                        _ => ReleaseType::Locked(now + s.below(12)),
                    };
                    Op::SetRelease { path, r, t }
                },
                2 => {
                    let k: Vec<_> = rel.keys().copied().collect();
                    let (path, r) = if k.is_empty() || s.chance(1, 5) { (path, r) } else { *s.pick(&k) };
                    Op::Back { by: user, path, r }
                },
                3 => {
                    let k: Vec<_> = rel.keys().copied().collect();
                    let (path, r) = if k.is_empty() || s.chance(1, 5) { (path, r) } else { *s.pick(&k) };
                    Op::Collect { by: user, path, r, asset }
                },
                4 if !open.is_empty() => Op::Refund { i: s.idx(open.len()) },
                5 => Op::Price { id: if s.flag() { 3344 } else { asset }, p: if s.chance(1, 8) { None } else { Some(gen_price(s)) } },
                _ => Op::Advance { n: 1 + s.below(8) },
            };
            let mut want = pre.clone();
            let mv = |m: &mut BTreeMap<Acc, Bal>, a: &Acc, b: &Acc, x: Bal| {
                *m.get_mut(a).unwrap() -= x;
                *m.get_mut(b).unwrap() += x;
            };
            match &op {
                Op::Price { id, p } => {
                    set_price(*id, *p);
                    rec.log(|| format!("#{now} {op:?}"));
                    continue;
                },
                Op::Advance { n } => {
                    System::set_block_number(now + n);
                    continue;
                },
                Op::SetRelease { path, r, t } => {
                    Proxy::set_release_type(*path, *r, t.clone());
                    rel.insert((*path, *r), t.clone());
                    rec.log(|| format!("#{now} {op:?}"));
                    check_eq!(snap(), want, "funds", "funds after {op:?}");
                    continue;
                },
                Op::Bond { path, user, amount, asset, r } => {
                    let fee = Proxy::calculate_fee(*amount, *asset);
                    let res = with_storage_layer(|| Proxy::bond_on_behalf_of(*path, acc(*user), *amount, *asset, *r));
                    let post = snap();
                    rec.log(|| format!("#{now} {op:?} fee {fee:?} -> {res:?}"));
                    let prices = [Prices::get_price(3344), Prices::get_price(*asset)];
                    let u = acc(*user);
                    let b = sub(*path);
                    let tre = Treasury::get();
                    let topup = if pre.free[&b] < Ed::get() { Ed::get() } else { 0 };
                    match (&fee, &res) {
                        (Err(e), Ok(())) => return fail("bond without a price", format!("{op:?} succeeds though the fee cannot be computed ({e:?})")),
                        (Err(_), Err(_)) => {
                            check!(prices[0].is_none() || prices[1].is_none(), "no fee", "{op:?}: no fee although prices are {prices:?}");
                            rec.label("refused: no price");
                        },
                        (Ok(fee), Err(e)) => {
                            let ok_user = pre.assets[&(*asset, u.clone())] >= fee.saturating_add(min(*asset));
                            let ok_fee = pre.assets[&(*asset, b.clone())] > 0 || *fee >= min(*asset);
                            let ok_tre = pre.free[&tre].checked_sub(*amount).map_or(false, |x| x >= topup + Ed::get());
                            check!(!(ok_user && ok_fee && ok_tre && *amount > 0), "bond refused", "{op:?} refused with {e:?} though the user has {} of the asset for the fee {fee} and the treasury {}", pre.assets[&(*asset, u.clone())], pre.free[&tre]);
                            rec.label(if !ok_user { "refused: user cannot pay" } else if !ok_tre { "refused: treasury short" } else { "refused: fee below the asset's minimum" });
                        },
                        (Ok(fee), Ok(())) => {
                            let e = exact_fee(*amount, dec(*asset), prices[0].unwrap(), prices[1].unwrap());
                            check!(e.near(*fee), "fee", "{op:?}: fee {fee}, exactly {}/{}", e.num, e.den);
                            *want.assets.get_mut(&(*asset, u.clone())).unwrap() -= fee;
                            *want.assets.get_mut(&(*asset, b.clone())).unwrap() += fee;
                            mv(&mut want.free, &tre, &b, topup);
                            *want.free.get_mut(&tre).unwrap() -= amount;
                            *want.held.get_mut(&(*path, *r)).unwrap() += amount;
                            let left = post.assets[&(*asset, u.clone())];
                            check!(left >= min(*asset) || *fee == 0, "user account reaped", "{op:?} leaves the user {left} of the asset, below its minimum");
                            open.push((*path, *user, *amount, *asset, *fee, prices));
                            if which == Which::Bond && *amount > 0 {
                                rec.nontrivial();
                            }
                            rec.label(if topup > 0 { "bond on a fresh sub-account" } else { "bond on a sub-account in use" });
                            if *fee == 0 {
                                rec.label("bond without a fee");
                            }
                        },
                    }
                },
                Op::Back { by, path, r } => {
                    let res = RuntimeCall::Proxy(pallet_proxy_bonding::Call::transfer_bonds_back_to_treasury { derivation_path: *path, hold_reason: *r })
                        .dispatch(RuntimeOrigin::signed(acc(*by)));
                    rec.log(|| format!("#{now} {op:?} -> {:?}", res.as_ref().map(|_| ()).map_err(|e| e.error)));
                    let may = match rel.get(&(*path, *r)) {
                        None => false,
                        Some(ReleaseType::Refunded) => true,
                        Some(ReleaseType::Locked(b)) => *b <= now,
                    };
                    let h = pre.held[&(*path, *r)];
                    match res {
                        Ok(_) => {
                            check!(may, "too early", "{op:?} at block {now} succeeds with release {:?}", rel.get(&(*path, *r)));
                            want.held.insert((*path, *r), 0);
                            *want.free.get_mut(&Treasury::get()).unwrap() += h;
                            if h > 0 {
                                rec.label("bonds back in the treasury");
                                if which == Which::Back {
                                    rec.nontrivial();
                                }
                                if REASONS.iter().any(|q| q != r && pre.held[&(*path, *q)] > 0) {
                                    rec.label("other bonds stay on the sub-account");
                                }
                            }
                        },
                        Err(e) => {
                            check!(!may || h == 0, "release refused", "{op:?} at block {now} refused with {:?}, release {:?}, on hold {h}", e.error, rel.get(&(*path, *r)));
                            rec.label(if may { "nothing to release" } else if rel.contains_key(&(*path, *r)) { "refused: too early" } else { "refused: no release set" });
                        },
                    }
                },
                Op::Collect { by, path, r, asset } => {
                    let res = RuntimeCall::Proxy(pallet_proxy_bonding::Call::transfer_fees_to_recipient { derivation_path: *path, hold_reason: *r, fee_asset: *asset })
                        .dispatch(RuntimeOrigin::signed(acc(*by)));
                    rec.log(|| format!("#{now} {op:?} -> {:?}", res.as_ref().map(|_| ()).map_err(|e| e.error)));
                    let may = matches!(rel.get(&(*path, *r)), Some(ReleaseType::Locked(_)));
                    let f = pre.assets[&(*asset, sub(*path))];
                    match res {
                        Ok(_) => {
                            check!(may, "fees taken", "{op:?} succeeds with release {:?}", rel.get(&(*path, *r)));
                            *want.assets.get_mut(&(*asset, sub(*path))).unwrap() -= f;
                            *want.assets.get_mut(&(*asset, Recipient::get())).unwrap() += f;
                            open.retain(|o| !(o.0 == *path && o.3 == *asset));
                            if f > 0 {
                                rec.label("fees to the recipient");
                                if which == Which::Fees {
                                    rec.nontrivial();
                                }
                            }
                        },
                        Err(e) => {
                            check!(!may || f == 0, "fees refused", "{op:?} refused with {:?}, release {:?}, fees {f}", e.error, rel.get(&(*path, *r)));
                            rec.label(if may { "no fees" } else { "refused: fees await a refund" });
                        },
                    }
                },
                Op::Refund { i } => {
                    let (path, user, amount, asset, fee, prices) = open[*i];
                    let now_prices = [Prices::get_price(3344), Prices::get_price(asset)];
                    let res = with_storage_layer(|| Proxy::refund_fee(path, &acc(user), amount, asset));
                    rec.log(|| format!("#{now} refund of the bond of {amount} by {user} on {path}, fee paid {fee} of {asset} -> {res:?}"));
                    let changed = prices != now_prices;
                    let post = snap();
                    let got = post.assets[&(asset, acc(user))] - pre.assets[&(asset, acc(user))];
                    let gone = pre.assets[&(asset, sub(path))] - post.assets[&(asset, sub(path))];
                    let sig = if changed { "refund differs from the fee paid after a price change" } else { "refund differs from the fee paid" };
                    match res {
                        Ok(()) => {
                            let rest = pre.assets[&(asset, sub(path))].saturating_sub(got);
                            if gone > got && rest < min(asset) {
                                // the rest was below the asset's minimum and vanished
                                let sig = "refund burns a rest below the minimum of the asset, which belongs to others";
                                if which == Which::Fees && !rec.known(sig) {
                                    return fail(sig, format!("the refund of {got} of {asset} to {user} leaves {rest} on the sub-account, below the asset's minimum {}: {gone} are gone", min(asset)));
                                }
                                check_eq!(gone - got, rest, "refund", "fees gone from the sub-account");
                                open.remove(*i);
                                open.retain(|o| !(o.0 == path && o.3 == asset));
                                continue;
                            }
                            if got != fee && changed {
                                // a listed finding: told apart by its signature, the history goes on with what happened
                                check_eq!(gone, got, "refund", "fees taken from the sub-account for the refund to {user}");
                                if which == Which::Fees && !rec.known(sig) {
                                    return fail(sig, format!("{user} paid {fee} of {asset} for a bond of {amount}, the refund is {got}; prices then {prices:?}, now {now_prices:?}"));
                                }
                                open.remove(*i);
                                // what the others paid may have been used up
                                open.retain(|o| !(o.0 == path && o.3 == asset));
                                continue;
                            }
                            check_eq!(got, fee, sig, "refund to {user} of the bond of {amount}");
                            check_eq!(gone, fee, "refund paid by others", "fees taken from the sub-account for the refund to {user}");
                            *want.assets.get_mut(&(asset, acc(user))).unwrap() += fee;
                            *want.assets.get_mut(&(asset, sub(path))).unwrap() -= fee;
                            open.remove(*i);
                            if fee > 0 {
                                rec.label("fee refunded");
                                if which == Which::Fees {
                                    rec.nontrivial();
                                }
                            }
                        },
                        Err(e) => {
                            // the account must be able to exist again
                            let fits = pre.assets[&(asset, acc(user))] > 0 || fee >= min(asset);
                            if changed {
                                rec.label("refund refused after a price change");
                            } else {
                                check!(!fits, "refund refused", "refund of {fee} of {asset} to {user} refused with {e:?}, prices unchanged, {} there", pre.assets[&(asset, sub(path))]);
                            }
                        },
                    }
                },
            }
            let post = snap();
            rec.feature(fnv(fnv(3, format!("{op:?}").split(' ').next().unwrap_or("").as_bytes()), &[(post != pre) as u8]));
            check_eq!(post.held, want.held, "on hold", "funds on hold after {op:?} at block {now}");
            check_eq!(post.free, want.free, "free", "free balances after {op:?} at block {now}");
            check_eq!(post.assets, want.assets, "assets", "asset balances after {op:?} at block {now}");
            check_eq!(post.issuance, want.issuance, "issuance", "issuance after {op:?}");
            for ((p, r), h) in &post.held {
                if *h > 0 {
                    check!(post.free[&sub(*p)] >= Ed::get(), "sub-account without deposit", "sub-account of {p} holds {h} for {r:?} with {} free", post.free[&sub(*p)]);
                }
            }
        }
        Ok(())
    })
}

/// one fee on its own, and sub-accounts
pub fn fees(s: &mut Src, rec: &mut Rec) -> R {
    let assets = setup(s);
    let (id, d, m) = *s.pick(&assets);
    thread_local! {
        static EXT: RefCell<Option<sp_io::TestExternalities>> = RefCell::new(None);
    }
    EXT.with(|e| {
        let mut e = e.borrow_mut();
        let e = e.get_or_insert_with(ext);
        e.execute_with(|| {
            use frame_support::traits::fungible::Mutate as _;
            if !Assets::asset_exists(id) {
                Balances::set_balance(&acc(250), 1 << 100);
                Assets::create(id, acc(250), true, m).unwrap();
            }
            Assets::set(id, &acc(250), b"fee".to_vec(), b"FEE".to_vec(), d).unwrap();
            let amount = s.magnitude(90);
            rec.op();
            let (t, f) = (Prices::get_price(3344).unwrap(), Prices::get_price(id).unwrap());
            let fee = Proxy::calculate_fee(amount, id);
            rec.log(|| format!("bond {amount}, price {t:?}, fee asset price {f:?} decimals {d}, {:?} -> {fee:?}", Fee::get()));
            let Ok(fee) = fee else { return fail("no fee", format!("no fee for {amount} although prices are {t:?} and {f:?}")) };
            let e = exact_fee(amount, d, t, f);
            check!(e.near(fee), "fee", "fee for {amount} at {t:?} and {f:?}, decimals {d}, {:?}: {fee}, exactly {}/{}", Fee::get(), e.num, e.den);
            if fee > 0 {
                rec.nontrivial();
                rec.label("fee above zero");
            }
            // more bond, dearer bond: no lower fee
            let more = amount + s.magnitude(80);
            let g = Proxy::calculate_fee(more, id).unwrap_or(0);
            check!(g >= fee, "fee falls", "fee for {more} is {g}, for {amount} it is {fee}");
            check_eq!(Proxy::calculate_fee(0, id).unwrap_or(1), 0, "fee of nothing", "fee for a bond of 0");
            let dear = FixedU128::from_inner(t.into_inner().saturating_mul(2));
            set_price(3344, Some(dear));
            let g = Proxy::calculate_fee(amount, id).unwrap_or(0);
            check!(g >= fee, "fee falls", "fee for {amount} at the price {dear:?} is {g}, at {t:?} it is {fee}");
            // without a price there is no fee
            set_price(if s.flag() { 3344 } else { id }, None);
            check!(Proxy::calculate_fee(amount, id).is_err(), "fee without a price", "fee for {amount} without a price");
            // sub-accounts are told apart
            let (a, b) = (s.magnitude(32) as u32, s.magnitude(32) as u32);
            if a != b && a < u32::MAX - 1 && b < u32::MAX - 1 {
                check!(Proxy::get_bonding_account(a) != Proxy::get_bonding_account(b), "sub-accounts collide", "paths {a} and {b} use the same account");
                check!(Proxy::get_bonding_account(a) != Root::get().into_account_truncating(), "sub-account is the root", "path {a} uses the root account");
            }
            check_eq!(Proxy::get_bonding_account(a.min(u32::MAX - 1)), sub(a.min(u32::MAX - 1)), "sub-account", "account of path {a}");
            Ok(())
        })
    })
}
