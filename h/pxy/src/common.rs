use frame_support::{derive_impl, traits::ConstU64};
use jwt_compact::{
    alg::{Ed25519, SigningKey as _},
    Algorithm, AlgorithmExt, Header, UntrustedToken,
};
use num_bigint::BigUint;
use parity_scale_codec::{Decode, Encode};
use pbt::{check, check_eq, fail, Fail, Rec, Src};
use polimec_common::{
    credentials::{Cid, Did, EnsureInvestor, EnsureOriginWithCredentials, InvestorType, SampleClaims},
    migration_types::{Migration, MigrationInfo, MigrationOrigin, Migrations, ParticipationType},
    ProvideAssetPrice,
};
use sp_runtime::{traits::IdentityLookup, BuildStorage, FixedPointNumber, FixedU128};
use std::cell::RefCell;
use xcm::v4::{Junction, Location};

type R = Result<(), Fail>;

// ---------------------------------------------------------------- prices

struct P;
thread_local! {
    static ONE: RefCell<Option<FixedU128>> = RefCell::new(None);
}
impl ProvideAssetPrice for P {
    type AssetId = u32;
    type Price = FixedU128;
    fn get_price(id: u32) -> Option<FixedU128> {
        if id == 7 {
            ONE.with(|o| *o.borrow())
        } else {
            None
        }
    }
}

const ACC: u128 = 1_000_000_000_000_000_000;

pub fn prices(s: &mut Src, rec: &mut Rec) -> R {
    rec.op();
    let usd = *s.pick(&[6u8, 6, 6, 0, 2, 10, 12, 18]);
    let dec = *s.pick(&[6u8, 10, 10, 18, 0, 8, 12, 24, 36]);
    let inner = match s.below(3) {
        0 => s.magnitude(127),
        1 => s.magnitude(70),
        // whole units of USD
        _ => s.magnitude(50) * (ACC / 10u128.pow((usd as u32).min(18))),
    };
    let p = FixedU128::from_inner(inner);
    let aware = P::calculate_decimals_aware_price(p, usd, dec);
    rec.log(|| format!("price {p:?}, USD decimals {usd}, asset decimals {dec} -> {aware:?}"));
    let ten = |n: u32| BigUint::from(10u8).pow(n);
    let big = |x: u128| BigUint::from(x);
    // what one smallest unit of the asset is worth in smallest units of USD, exactly: p * 10^usd / 10^dec
    let usd_price = big(inner) * ten(usd as u32) / big(ACC);
    let want = &usd_price * big(ACC) / ten(dec as u32);
    if inner > 0 {
        rec.nontrivial();
    }
    match aware {
        None => {
            check!(usd_price > big(u128::MAX) || want > big(u128::MAX), "no price", "price {p:?} with decimals {usd}/{dec} has no decimals aware price, exactly {want}");
            rec.label("not representable");
        },
        Some(a) => {
            let d = if big(a.into_inner()) > want { big(a.into_inner()) - &want } else { &want - big(a.into_inner()) };
            check!(d <= big(1), "aware price", "decimals aware price of {p:?} with {usd}/{dec} decimals is {}, exactly {want}", a.into_inner());
            // round trip
            match P::convert_back_to_normal_price(a, usd, dec) {
                Some(b) => {
                    // lost: below one unit of USD, and the rounding of the decimals aware price
                    let k = if dec > usd { ten((dec - usd) as u32) } else { big(1) };
                    let loss = big(ACC) / ten((usd as u32).min(18)) + k + big(1);
                    let (b, i) = (big(b.into_inner()), big(inner));
                    check!(b <= &i + big(1) && &b + &loss >= i, "round trip", "price {p:?} with {usd}/{dec} decimals comes back as {b}, off by more than {loss}");
                    if inner % (ACC / 10u128.pow((usd as u32).min(18))) == 0 && dec <= 18 + usd {
                        let exact = (&usd_price * big(ACC)) % ten(dec as u32) == big(0);
                        if exact {
                            rec.label("exact round trip");
                            check_eq!(b, i, "exact round trip", "price {p:?} with {usd}/{dec} decimals, representable exactly, comes back");
                        }
                    }
                    rec.label("round trip");
                },
                None => {
                    let back = big(a.into_inner()) * ten((dec.max(usd) - usd) as u32);
                    check!(back > big(u128::MAX) || dec.abs_diff(usd) > 20, "no way back", "decimals aware price {a:?} with {usd}/{dec} decimals cannot be converted back");
                },
            }
            // converting an amount: n units of the asset are worth n * price, whatever the decimals
            let n = s.magnitude(60);
            let usd_value = a.saturating_mul_int(n);
            let exact = big(n) * big(inner) * ten(usd as u32) / (big(ACC) * ten(dec as u32));
            if exact < big(u128::MAX) {
                // the price is rounded to a unit of USD per whole asset and to 10^-18 per smallest unit
                let tol = big(n) / ten(dec as u32) + big(n) / big(ACC) + big(2);
                let v = big(usd_value);
                check!(v <= &exact + big(1) && &v + &tol >= exact, "value", "{n} units at {p:?} with {usd}/{dec} decimals are worth {v}, exactly {exact}");
            }
        },
    }
    ONE.with(|o| *o.borrow_mut() = Some(p));
    check_eq!(P::get_decimals_aware_price(7, usd, dec), aware, "price of an asset", "decimals aware price of an asset at {p:?}");
    check_eq!(P::get_decimals_aware_price(8, usd, dec), None, "price of nothing", "decimals aware price of an asset without a price");
    Ok(())
}

// ---------------------------------------------------------------- migrations

pub fn migrations(s: &mut Src, rec: &mut Rec) -> R {
    rec.op();
    let types = [ParticipationType::Evaluation, ParticipationType::Bid, ParticipationType::Contribution];
    let n = s.below(12) as usize;
    let mut v = vec![];
    for _ in 0..n {
        let user = Location::new(s.below(2) as u8, [Junction::AccountId32 { network: None, id: [s.below(256) as u8; 32] }]);
        let o = MigrationOrigin { user, id: s.magnitude(32) as u32, participation_type: *s.pick(&types) };
        let i = MigrationInfo { contribution_token_amount: s.magnitude(120), vesting_time: s.magnitude(64) as u64 };
        v.push(Migration::new(o, i));
    }
    if n >= 2 {
        rec.nontrivial();
    }
    rec.log(|| format!("{v:?}"));
    let m = Migrations::from(v.clone());
    check_eq!(m.len(), n, "len", "number of migrations");
    check_eq!(m.is_empty(), n == 0, "is_empty", "no migrations");
    check_eq!(m.total_ct_amount(), v.iter().map(|x| x.info.contribution_token_amount).sum::<u128>(), "total", "total of {v:?}");
    check_eq!(m.biggest_vesting_time(), v.iter().map(|x| x.info.vesting_time).max().unwrap_or(0), "vesting time", "longest vesting time of {v:?}");
    check_eq!(m.origins(), v.iter().map(|x| x.origin.clone()).collect::<Vec<_>>(), "origins", "origins of {v:?}");
    check_eq!(m.infos(), v.iter().map(|x| x.info.clone()).collect::<Vec<_>>(), "infos", "infos of {v:?}");
    check!(v.iter().all(|x| m.contains(x)), "contains", "{v:?} lacks one of its migrations");
    check_eq!(m.clone().inner(), v, "inner", "migrations");
    let mut q = Migrations::new();
    for x in &v {
        q.push(x.clone());
    }
    check_eq!(q, m, "push", "migrations pushed one by one");
    check_eq!(v.iter().cloned().collect::<Migrations>(), m, "collect", "migrations collected");
    check_eq!(Migrations::decode(&mut &m.encode()[..]).ok(), Some(m.clone()), "codec", "migrations after encoding and decoding");
    // order: evaluations, then bids, then contributions, each by id
    let key = |o: &MigrationOrigin| (types.iter().position(|t| *t == o.participation_type).unwrap(), o.id);
    let mut os = m.origins();
    os.sort();
    check!(os.windows(2).all(|w| key(&w[0]) <= key(&w[1])), "order", "sorted origins {os:?}");
    for a in &os {
        for b in &os {
            check_eq!(a.cmp(b), key(a).cmp(&key(b)), "order", "{a:?} compared with {b:?}");
            check_eq!(a.partial_cmp(b), Some(a.cmp(b)), "order", "{a:?} compared with {b:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- credentials

mod rt {
    use super::*;
    type Block = frame_system::mocking::MockBlock<Test>;
    frame_support::construct_runtime!(
        pub enum Test {
            System: frame_system,
            Timestamp: pallet_timestamp,
        }
    );
    #[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
    impl frame_system::Config for Test {
        type AccountId = sp_runtime::AccountId32;
        type Block = Block;
        type Lookup = IdentityLookup<Self::AccountId>;
    }
    impl pallet_timestamp::Config for Test {
        type MinimumPeriod = ConstU64<1>;
        type Moment = u64;
        type OnTimestampSet = ();
        type WeightInfo = ();
    }
}
use rt::{RuntimeOrigin, Test};
type Acc = sp_runtime::AccountId32;

fn signing(k: u8) -> <Ed25519 as Algorithm>::SigningKey {
    <Ed25519 as Algorithm>::SigningKey::from_slice(&[k.wrapping_mul(37).wrapping_add(1); 32]).unwrap()
}

pub fn credentials(s: &mut Src, rec: &mut Rec) -> R {
    use jwt_compact::Claims;
    let t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let mut e: sp_io::TestExternalities = t.into();
    e.execute_with(|| {
        rec.op();
        let accs: Vec<Acc> = (1u8..4).map(|n| Acc::new([n; 32])).collect();
        let subject = s.pick(&accs).clone();
        let text = |s: &mut Src, max: usize| -> Vec<u8> {
            let n = if s.chance(1, 3) { max } else { s.below(max as u64 + 1) as usize };
            (0..n).map(|_| *s.pick(b"abcdefghijklmnopqrstuvwxyz0123456789:._-ABCXYZ \"\\/")).collect()
        };
        let did: Did = text(s, 57).try_into().unwrap();
        let cid: Cid = text(s, 96).try_into().unwrap();
        let ty = s.pick(&[InvestorType::Retail, InvestorType::Professional, InvestorType::Institutional]).clone();
        let custom = SampleClaims { subject: subject.clone(), issuer: "verifier".into(), ipfs_cid: cid.clone(), investor_type: ty.clone(), did: did.clone() };
        let mut claims = Claims::new(custom);
        let exp = s.range(1, 4_000_000_000) as i64;
        let no_exp = s.chance(1, 8);
        if !no_exp {
            claims.expiration = chrono::DateTime::<chrono::Utc>::from_timestamp(exp, 0);
        }
        // the time is in milliseconds, the expiry in whole seconds
        let now = match s.below(5) {
            0 => exp as u64 * 1000,
            1 => exp as u64 * 1000 + 1,
            2 => (exp as u64 * 1000).saturating_sub(s.magnitude(30) as u64),
            3 => exp as u64 * 1000 + s.magnitude(30) as u64,
            _ => s.magnitude(42) as u64,
        };
        pallet_timestamp::Now::<Test>::put(now);
        let key = s.below(3) as u8;
        let mut raw = Ed25519.token(&Header::empty(), &claims, &signing(key)).expect("token");
        // what is wrong with it
        let tamper = s.chance(1, 4);
        if tamper {
            let bytes = unsafe { raw.as_bytes_mut() };
            let i = s.idx(bytes.len());
            let old = bytes[i];
            bytes[i] = *s.pick(b"ABCDEFGHijklmnop0123456789-_.");
            if bytes[i] == old {
                return Ok(());
            }
        }
        let Ok(token) = UntrustedToken::new(&raw) else {
            rec.label("not a token");
            return Ok(());
        };
        let bad_key = s.chance(1, 4);
        let verify = signing(if bad_key { key + 1 } else { key }).to_verifying_key_bytes();
        let (origin, who) = match s.below(8) {
            0 => (RuntimeOrigin::root(), None),
            1 => (RuntimeOrigin::none(), None),
            2 | 3 => {
                let a = s.pick(&accs).clone();
                (RuntimeOrigin::signed(a.clone()), Some(a))
            },
            _ => (RuntimeOrigin::signed(subject.clone()), Some(subject.clone())),
        };
        let wrong_subject = who.as_ref() != Some(&subject);
        let expired = !no_exp && (exp as u64 * 1000) < now;
        let wrong = [tamper, bad_key, wrong_subject, no_exp, expired];
        let n = wrong.iter().filter(|x| **x).count();
        let got = EnsureInvestor::<Test>::try_origin(origin.clone(), &token, verify);
        rec.log(|| format!("token for {subject} expiring {exp}{}, at {now}, tampered {tamper}, key {}, used by {who:?} -> {}", if no_exp { " (absent)" } else { "" }, if bad_key { "wrong" } else { "right" }, got.is_ok()));
        if n <= 1 {
            rec.nontrivial();
            rec.label(match wrong.iter().position(|x| *x) {
                None => "all in order",
                Some(0) => "only: tampered with",
                Some(1) => "only: another key",
                Some(2) => "only: another account",
                Some(3) => "only: no expiry",
                _ => "only: expired",
            });
        }
        match got {
            Ok(x) => {
                check!(n == 0, "accepted", "a token was accepted: tampered {tamper}, other key {bad_key}, other account {wrong_subject}, no expiry {no_exp}, expired {expired} ({exp} at {now})");
                check_eq!(x, (subject, did, ty, cid), "claims", "claims of an accepted token");
            },
            Err(_) => {
                check!(n > 0, "refused", "a valid token for {subject} expiring at {exp} was refused at {now}");
            },
        }
        check_eq!(EnsureInvestor::<Test>::ensure_origin(origin, &token, verify).is_ok(), n == 0, "ensure_origin", "ensure_origin, where try_origin decides {}", n == 0);
        Ok(())
    })
}

trait VkBytes {
    fn to_verifying_key_bytes(&self) -> [u8; 32];
}
impl VkBytes for <Ed25519 as Algorithm>::SigningKey {
    fn to_verifying_key_bytes(&self) -> [u8; 32] {
        use jwt_compact::alg::SigningKey;
        SigningKey::<Ed25519>::to_verifying_key(self).as_bytes()
    }
}
#[allow(dead_code)]
fn _unused() -> R {
    fail("", "")
}
