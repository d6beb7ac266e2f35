//! T*: the dispenser of initial tokens (pallets/dispenser), against a model of who got what and what is locked.
use frame_support::{
    derive_impl,
    dispatch::{CheckIfFeeless, GetDispatchInfo},
    ord_parameter_types, parameter_types,
    traits::{Currency, WithdrawReasons},
    PalletId,
};
use frame_system::EnsureSignedBy;
use jwt_compact::{
    alg::{Ed25519, SigningKey as _},
    Algorithm, AlgorithmExt, Claims, Header, UntrustedToken,
};
use pallet_dispenser::extensions::CheckNonce;
use parity_scale_codec::Encode;
use pbt::{check, check_eq, fail, fnv, Fail, Prop, Rec, Src};
use polimec_common::credentials::{Cid, Did, EnsureInvestor, InvestorType, SampleClaims};
use sp_runtime::{
    traits::{AccountIdConversion, ConvertInto, Dispatchable, SignedExtension},
    transaction_validity::{InvalidTransaction, TransactionValidityError},
    AccountId32, BuildStorage,
};
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), Fail>;
type Bal = u128;
type Acc = AccountId32;
type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system,
        Balances: pallet_balances,
        Timestamp: pallet_timestamp,
        Vesting: pallet_vesting,
        Dispenser: pallet_dispenser,
    }
);
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Bal>;
    type AccountId = Acc;
    type Block = Block;
    type Lookup = sp_runtime::traits::IdentityLookup<Acc>;
}
#[derive_impl(pallet_timestamp::config_preludes::TestDefaultConfig as pallet_timestamp::DefaultConfig)]
impl pallet_timestamp::Config for Test {}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Bal;
    type ExistentialDeposit = Ed;
}
const MAX: usize = 3;
impl pallet_vesting::Config for Test {
    type BlockNumberProvider = System;
    type BlockNumberToBalance = ConvertInto;
    type Currency = Balances;
    type MinVestedTransfer = MinVested;
    type RuntimeEvent = RuntimeEvent;
    type UnvestedFundsAllowedWithdrawReasons = Unvested;
    type WeightInfo = ();
    const MAX_VESTING_SCHEDULES: u32 = MAX as u32;
}
parameter_types! {
    pub const MinVested: Bal = 1;
    pub Unvested: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
    pub static Ed: Bal = 1;
    pub static Initial: Bal = 100;
    pub static Free: Bal = 5;
    pub static LockPeriod: u64 = 10;
    pub static VestPeriod: u64 = 10;
    pub const Pot: PalletId = PalletId(*b"plmc/fct");
    pub Key: [u8; 32] = jwt_compact::alg::SigningKey::<Ed25519>::to_verifying_key(&signing(0)).as_bytes();
    pub Policy: Cid = cid(0);
}
ord_parameter_types! {
    pub const Admin: Acc = acc(99);
}
impl pallet_dispenser::Config for Test {
    type AdminOrigin = EnsureSignedBy<Admin, Acc>;
    type BlockNumberToBalance = ConvertInto;
    type FreeDispenseAmount = Free;
    type InitialDispenseAmount = Initial;
    type InvestorOrigin = EnsureInvestor<Test>;
    type LockPeriod = LockPeriod;
    type PalletId = Pot;
    type RuntimeEvent = RuntimeEvent;
    type VerifierPublicKey = Key;
    type VestPeriod = VestPeriod;
    type VestingSchedule = Vesting;
    type WeightInfo = ();
    type WhitelistedPolicy = Policy;
}

fn acc(n: u8) -> Acc {
    Acc::new([n; 32])
}
fn did(n: u8) -> Did {
    // some differ in the last byte only, some are prefixes of others
    let mut v = b"did:polimec:0123456789abcdef0123456789abcdef01234567890abcd".to_vec();
    v.truncate(if n % 2 == 0 { 56 } else { 30 + n as usize });
    v.push(b'a' + n);
    v.truncate(57);
    v.try_into().unwrap()
}
fn cid(n: u8) -> Cid {
    format!("QmeuJ24ffwLAZppQcgcggJs3n689bewednYkuc8Bx5Gn{}", (b'z' - n) as char).into_bytes().try_into().unwrap()
}
fn signing(k: u8) -> <Ed25519 as Algorithm>::SigningKey {
    <Ed25519 as Algorithm>::SigningKey::from_slice(&[k + 7; 32]).unwrap()
}
const USERS: u8 = 5;
const DIDS: u8 = 5;

#[derive(Clone, Debug)]
struct Jwt {
    subject: u8,
    did: u8,
    cid: u8,
    key: u8,
    exp: i64,
}
thread_local! {
    static TOKENS: std::cell::RefCell<BTreeMap<(u8, u8, u8, u8, i64), UntrustedToken>> = Default::default();
}
impl Jwt {
    fn token(&self) -> UntrustedToken {
        TOKENS.with(|t| {
            t.borrow_mut()
                .entry((self.subject, self.did, self.cid, self.key, self.exp))
                .or_insert_with(|| {
                    let custom = SampleClaims { subject: acc(self.subject), issuer: "verifier".into(), ipfs_cid: cid(self.cid), investor_type: InvestorType::Retail, did: did(self.did) };
                    let mut c = Claims::new(custom);
                    c.expiration = chrono::DateTime::<chrono::Utc>::from_timestamp(self.exp, 0);
                    UntrustedToken::new(&Ed25519.token(&Header::empty(), &c, &signing(self.key)).unwrap()).unwrap()
                })
                .clone()
        })
    }
    /// does it authorise `who` now
    fn good(&self, who: Option<u8>, now: u64) -> bool {
        who == Some(self.subject) && self.key == 0 && self.exp as u64 * 1000 >= now
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Sch {
    locked: Bal,
    per: Bal,
    start: u64,
}
impl Sch {
    fn at(&self, n: u64) -> Bal {
        self.locked - self.locked.min((n.saturating_sub(self.start) as u128).saturating_mul(self.per.max(1)))
    }
}
fn schedules(a: &Acc) -> Vec<Sch> {
    pallet_vesting::Vesting::<Test>::get(a)
        .map(|v| v.iter().map(|s| Sch { locked: s.locked(), per: s.per_block(), start: s.starting_block() }).collect())
        .unwrap_or_default()
}
fn pot() -> Acc {
    Pot::get().into_account_truncating()
}

#[derive(Clone, Debug, PartialEq)]
struct St {
    free: BTreeMap<Acc, Bal>,
    sch: BTreeMap<Acc, Vec<Sch>>,
    lock: BTreeMap<Acc, Bal>,
    given: BTreeSet<Vec<u8>>,
    amount: Bal,
    issuance: Bal,
    nonce: BTreeMap<Acc, u32>,
}
fn snap() -> St {
    let all: Vec<Acc> = (0..USERS).map(acc).chain([acc(99), pot()]).collect();
    St {
        free: all.iter().map(|a| (a.clone(), Balances::free_balance(a))).collect(),
        sch: all.iter().map(|a| (a.clone(), schedules(a))).collect(),
        lock: all.iter().map(|a| (a.clone(), Balances::locks(a).iter().map(|l| l.amount).max().unwrap_or(0))).collect(),
        given: pallet_dispenser::Dispensed::<Test>::iter_keys().map(|d| d.to_vec()).collect(),
        amount: pallet_dispenser::DispenseAmount::<Test>::get(),
        issuance: Balances::total_issuance(),
        nonce: all.iter().map(|a| (a.clone(), System::account(a).nonce as u32)).collect(),
    }
}

fn setup(s: &mut Src) -> sp_io::TestExternalities {
    Ed::set(*s.pick(&[1u128, 10, 500]));
    Free::set(*s.pick(&[0u128, 5, 700, 1_000_000]));
    Initial::set(Free::get() + 1 + s.magnitude(30));
    LockPeriod::set(*s.pick(&[0u64, 1, 10, 100]));
    VestPeriod::set(*s.pick(&[0u64, 1, 7, 10, 100]));
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let stock = match s.below(3) {
        0 => Initial::get() * (1 + s.below(6) as u128) + s.below(3) as u128,
        1 => Initial::get() * (1 + s.below(6) as u128) + Ed::get(),
        _ => s.magnitude(40),
    }
    .max(Ed::get());
    let mut b = vec![(pot(), stock), (acc(99), 1 << 60)];
    for n in 0..USERS {
        if s.flag() {
            b.push((acc(n), Ed::get() + s.magnitude(20)));
        }
    }
    pallet_balances::GenesisConfig::<Test> { balances: b }.assimilate_storage(&mut t).unwrap();
    let mut e: sp_io::TestExternalities = t.into();
    e.execute_with(|| System::set_block_number(1));
    e
}

#[derive(Clone, Debug)]
enum Op {
    Dispense { by: Option<u8>, jwt: Jwt },
    SetAmount { by: u8, amount: Bal },
    /// other ways to get schedules, and to move funds
    VestedTransfer { to: u8, v: Sch },
    Vest { by: u8 },
    Pay { from: u8, to: Option<u8>, x: Bal },
    Refill { x: Bal },
    Advance { n: u64 },
}

const BLOCK_MS: u64 = 12_000;

fn gen_jwt(s: &mut Src, given: &BTreeSet<Vec<u8>>) -> (Option<u8>, Jwt) {
    let subject = s.below(USERS as u64) as u8;
    let by = match s.below(12) {
        0 => None,
        1 => Some(s.below(USERS as u64) as u8),
        _ => Some(subject),
    };
    let fresh: Vec<u8> = (0..DIDS).filter(|d| !given.contains(&did(*d).to_vec())).collect();
    let d = if fresh.is_empty() || s.chance(1, 4) { s.below(DIDS as u64) as u8 } else { *s.pick(&fresh) };
    let jwt = Jwt { subject, did: d, cid: s.chance(1, 8) as u8, key: s.chance(1, 8) as u8, exp: *s.pick(&[4_000_000_000i64, 4_000_000_000, 4_000_000_000, 1, 12, 120, 2400]) };
    (by, jwt)
}

fn history(s: &mut Src, rec: &mut Rec) -> R {
    setup(s).execute_with(|| {
        s.plan(6, 40);
        while s.more() {
            rec.op();
            let b = System::block_number();
            pallet_timestamp::Now::<Test>::put(b * BLOCK_MS);
            let now = b * BLOCK_MS;
            let pre = snap();
            let user = s.below(USERS as u64) as u8;
            let op = match s.weighted(&[12, 3, 2, 4, 3, 2, 6]) {
                0 => {
                    let (by, jwt) = gen_jwt(s, &pre.given);
                    Op::Dispense { by, jwt }
                },
                1 => Op::SetAmount { by: if s.chance(2, 3) { 99 } else { user }, amount: if s.flag() { Free::get() + s.below(3) as u128 } else { s.magnitude(30) } },
                2 => Op::VestedTransfer { to: user, v: Sch { locked: 1 + s.magnitude(20), per: 1 + s.magnitude(10), start: s.below(200) } },
                3 => Op::Vest { by: user },
                4 => {
                    let to = if s.chance(1, 4) { None } else { Some(s.below(USERS as u64) as u8) };
                    let have = pre.free[&acc(user)];
                    Op::Pay { from: user, to, x: if s.flag() { have.saturating_sub(pre.lock[&acc(user)]) } else { s.magnitude(20) } }
                },
                5 => Op::Refill { x: s.magnitude(32) },
                _ => Op::Advance { n: match s.below(4) {
                    0 => LockPeriod::get(),
                    1 => VestPeriod::get(),
                    2 => s.below(4),
                    _ => s.below(150),
                } },
            };
            let origin = |n: Option<u8>| n.map_or(RuntimeOrigin::none(), |n| RuntimeOrigin::signed(acc(n)));
            let go = |o: RuntimeOrigin, c: RuntimeCall| c.dispatch(o).map(|_| ()).map_err(|e| format!("{:?}", e.error));
            let mut want = pre.clone();
            match &op {
                Op::Dispense { by, jwt } => {
                    let call = pallet_dispenser::Call::<Test>::dispense { jwt: jwt.token() };
                    let again = pre.given.contains(&did(jwt.did).to_vec());
                    let good = jwt.good(*by, now);
                    let feeless = call.is_feeless(&origin(*by));
                    check_eq!(feeless, good && !again, "feeless", "{op:?} at {now} is free of fees, DID served before: {again}");
                    let res = go(origin(*by), call.clone().into());
                    let post = snap();
                    rec.log(|| format!("#{b} {op:?} amount {} pot {} -> {res:?}", pre.amount, pre.free[&pot()]));
                    let why_not = if !good {
                        Some("bad credential")
                    } else if again {
                        Some("DID served before")
                    } else if jwt.cid != 0 {
                        Some("other policy")
                    } else if pre.free[&pot()] < pre.amount {
                        Some("depleted")
                    } else {
                        None
                    };
                    match &res {
                        Ok(()) => {
                            check!(why_not.is_none(), "dispensed", "{op:?} at {now} succeeds: {}", why_not.unwrap_or(""));
                            let who = acc(by.unwrap());
                            let amount = pre.amount;
                            *want.free.get_mut(&who).unwrap() += amount;
                            let rest = pre.free[&pot()] - amount;
                            // what is left below the existential deposit goes with the account
                            let dust = if rest < Ed::get() { rest } else { 0 };
                            want.free.insert(pot(), rest - dust);
                            want.issuance -= dust;
                            want.given.insert(did(jwt.did).to_vec());
                            let locked = amount - Free::get();
                            let v = Sch { locked, per: locked / VestPeriod::get().max(1) as u128, start: b + LockPeriod::get() };
                            want.sch.get_mut(&who).unwrap().push(v);
                            // schedules that have ended leave with the next write
                            let l = want.sch.get_mut(&who).unwrap();
                            l.retain(|x| x.at(b) > 0);
                            want.lock.insert(who.clone(), l.iter().map(|x| x.at(b)).sum());
                            check_eq!(post, want, "dispensed state", "state after {op:?} at block {b}");
                            let all = schedules(&who);
                            let mine = all.iter().find(|x| **x == v).copied();
                            let Some(m) = mine else { return fail("no schedule", format!("{op:?}: no schedule {v:?} in {all:?}")) };
                            check_eq!(m.at(b + LockPeriod::get()), locked, "unlocks early", "locked at the end of the lock period");
                            check!(m.at(b + LockPeriod::get() + VestPeriod::get().max(1)) < VestPeriod::get().max(1) as u128, "unlocks late", "{m:?} locks more than the rounding after the vesting period {}", VestPeriod::get());
                            let usable = post.free[&who].saturating_sub(post.lock[&who]);
                            check!(usable >= Free::get(), "free part locked", "{op:?}: not locked {usable} although {} are to be free", Free::get());
                            let e = System::events();
                            let ev = e.iter().any(|r| matches!(&r.event, RuntimeEvent::Dispenser(pallet_dispenser::Event::Dispensed { dispensed_to_did, dispensed_to, amount: a }) if *dispensed_to_did == did(jwt.did) && *dispensed_to == who && *a == amount));
                            check!(ev, "no event", "{op:?}: no event");
                            rec.nontrivial();
                            rec.label("dispensed");
                            if pre.free[&who] == 0 {
                                rec.label("dispensed to a new account");
                            }
                            if pre.sch[&who].len() > 0 {
                                rec.label("dispensed to an account with schedules");
                            }
                            if want.free[&pot()] == 0 {
                                rec.label("dispenser emptied");
                            }
                            if pre.amount != Initial::get() {
                                rec.label("dispensed a changed amount");
                            }
                        },
                        Err(e) => {
                            check_eq!(post, pre, "state after a refusal", "state after refused {op:?}");
                            if let Some(w) = why_not {
                                rec.label(match w {
                                    "bad credential" => "refused: bad credential",
                                    "DID served before" => "refused: DID served before",
                                    "other policy" => "refused: other policy",
                                    _ => "refused: depleted",
                                });
                            } else {
                                let who = acc(by.unwrap());
                                let full = pre.sch[&who].len() >= MAX;
                                let slow = (pre.amount - Free::get()) < VestPeriod::get() as u128;
                                let small = pre.free[&who] == 0 && pre.amount < Ed::get();
                                check!(full || slow || small, "refused", "{op:?} at block {b} refused ({e}) with {} in the dispenser, amount {}", pre.free[&pot()], pre.amount);
                                rec.label("refused: vesting not possible");
                            }
                        },
                    }
                },
                Op::SetAmount { by, amount } => {
                    let res = go(origin(Some(*by)), pallet_dispenser::Call::set_dispense_amount { amount: *amount }.into());
                    rec.log(|| format!("#{b} {op:?} -> {res:?}"));
                    let ok = *by == 99 && *amount > Free::get();
                    check_eq!(res.is_ok(), ok, "set amount", "{op:?} with {} free is accepted", Free::get());
                    if ok {
                        want.amount = *amount;
                        rec.label("amount changed");
                    }
                    check_eq!(snap(), want, "set amount state", "state after {op:?}");
                },
                Op::VestedTransfer { to, v } => {
                    let info = pallet_vesting::VestingInfo::new(v.locked, v.per, v.start);
                    let _ = go(origin(Some(99)), pallet_vesting::Call::vested_transfer { target: acc(*to), schedule: info }.into());
                },
                Op::Vest { by } => {
                    let res = go(origin(Some(*by)), pallet_vesting::Call::vest {}.into());
                    if res.is_ok() {
                        let left: Bal = pre.sch[&acc(*by)].iter().map(|v| v.at(b)).sum();
                        check_eq!(snap().lock[&acc(*by)], left, "lock", "locked of {by} after vesting at block {b} with {:?}", pre.sch[&acc(*by)]);
                    }
                },
                Op::Pay { from, to, x } => {
                    let dest = to.map_or(pot(), acc);
                    let _ = go(origin(Some(*from)), pallet_balances::Call::transfer_keep_alive { dest, value: *x }.into());
                },
                Op::Refill { x } => {
                    let _ = <Balances as Currency<Acc>>::deposit_creating(&pot(), *x);
                },
                Op::Advance { n } => System::set_block_number(b + n),
            }
            let post = snap();
            rec.feature(fnv(fnv(3, format!("{op:?}").split(' ').next().unwrap_or("").as_bytes()), &[(post != pre) as u8]));
            check!(pre.given.is_subset(&post.given), "DID forgotten", "{op:?} forgets that a DID was served");
            if !matches!(op, Op::Dispense { .. }) {
                check_eq!(post.given, pre.given, "DIDs", "DIDs served after {op:?}");
            }
            if !matches!(op, Op::SetAmount { .. }) {
                check_eq!(post.amount, pre.amount, "amount", "dispense amount after {op:?}");
            }
        }
        Ok(())
    })
}

fn nonces(s: &mut Src, rec: &mut Rec) -> R {
    setup(s).execute_with(|| {
        s.plan(3, 20);
        while s.more() {
            rec.op();
            let b = System::block_number();
            pallet_timestamp::Now::<Test>::put(b * BLOCK_MS);
            let user = s.below(USERS as u64) as u8;
            let who = acc(user);
            if s.chance(1, 8) {
                // the account dies, or gets something
                let x = if s.flag() { 0 } else { Ed::get() + s.below(50) as u128 };
                let _ = <Balances as Currency<Acc>>::make_free_balance_be(&who, x);
                continue;
            }
            let pre = snap();
            let call: RuntimeCall = match s.below(4) {
                0 => frame_system::Call::remark { remark: vec![1] }.into(),
                1 => pallet_dispenser::Call::set_dispense_amount { amount: 1 << 20 }.into(),
                _ => {
                    let (_, jwt) = gen_jwt(s, &pre.given);
                    pallet_dispenser::Call::dispense { jwt: jwt.token() }.into()
                },
            };
            let is_disp = matches!(call, RuntimeCall::Dispenser(pallet_dispenser::Call::dispense { .. }));
            let have = pre.nonce[&who] as u64;
            let nonce = match s.below(6) {
                0 => have + 1 + s.below(3),
                1 => have.saturating_sub(1 + s.below(3)),
                _ => have,
            };
            let d = System::account(&who);
            let exists = d.providers > 0 || d.sufficients > 0;
            let info = call.get_dispatch_info();
            let ext = CheckNonce::<Test>::from(nonce as _);
            let v = ext.validate(&who, &call, &info, 10);
            let inval = |e: TransactionValidityError| match e {
                TransactionValidityError::Invalid(i) => Some(i),
                _ => None,
            };
            check_eq!(snap(), pre, "validation changes state", "state after validating nonce {nonce} of {user}");
            let want = if !exists && !is_disp {
                Some(InvalidTransaction::Payment)
            } else if nonce < have {
                Some(InvalidTransaction::Stale)
            } else {
                None
            };
            rec.log(|| format!("#{b} {user} nonce {nonce} (account at {have}, exists {exists}) {} -> {v:?}", if is_disp { "dispense" } else { "other call" }));
            match v {
                Ok(v) => {
                    check!(want.is_none(), "validated", "nonce {nonce} of {user} (account at {have}, exists {exists}, dispense {is_disp}) validates");
                    check_eq!(v.provides, vec![(who.clone(), nonce as u32).encode()], "provides", "provides of nonce {nonce}");
                    let req = if have < nonce { vec![(who.clone(), nonce as u32 - 1).encode()] } else { vec![] };
                    check_eq!(v.requires, req, "requires", "requires of nonce {nonce}, account at {have}");
                },
                Err(e) => check_eq!(inval(e), want, "refused to validate", "reason to refuse nonce {nonce} of {user} (account at {have}, exists {exists}, dispense {is_disp})"),
            }
            let p = CheckNonce::<Test>::from(nonce as _).pre_dispatch(&who, &call, &info, 10);
            let want = match want {
                None if nonce > have => Some(InvalidTransaction::Future),
                w => w,
            };
            let mut exp = pre.clone();
            match p {
                Ok(()) => {
                    check!(want.is_none(), "dispatched", "nonce {nonce} of {user} (account at {have}, exists {exists}, dispense {is_disp}) is dispatched");
                    exp.nonce.insert(who.clone(), have as u32 + 1);
                    rec.nontrivial();
                    rec.label(if exists { "dispatched" } else { "dispense by a new account" });
                },
                Err(e) => {
                    check_eq!(inval(e), want, "refused to dispatch", "reason to refuse nonce {nonce} of {user} (account at {have}, exists {exists}, dispense {is_disp})");
                    rec.label(match want {
                        Some(InvalidTransaction::Payment) => "refused: no account",
                        Some(InvalidTransaction::Stale) => "refused: stale",
                        _ => "refused: future",
                    });
                },
            }
            check_eq!(snap(), exp, "state", "state after the nonce check");
            if s.flag() && want.is_none() {
                let _ = call.dispatch(RuntimeOrigin::signed(who));
            }
        }
        Ok(())
    })
}

fn main() {
    const A: &[&str] = &[
        "a runtime of System, Balances, Timestamp (stand-in: one storage value), Vesting and this pallet; credentials are really signed",
        "pallet-balances and pallet-vesting of the registry are trusted",
    ];
    pbt::main(vec![
        Prop { id: "T01", rule: "a dispense that succeeds", quick: 24_000, thorough: 1_600_000, case: Box::new(history), assumptions: A, guided: 40 },
        Prop { id: "T02", rule: "a nonce that is accepted", quick: 16_000, thorough: 1_000_000, case: Box::new(nonces), assumptions: A, guided: 40 },
    ]);
}
