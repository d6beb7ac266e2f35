//! O*: the off-chain worker that feeds prices (pallets/oracle-ocw), on a node of our own making.
mod exchanges;
mod node;
use exchanges::*;
use frame_support::{
    derive_impl, parameter_types,
    traits::{ConstU32, Hooks, IsInVec, Time},
};
use node::{Answer, Node};
use pallet_oracle_ocw::types::AssetName;
use parity_scale_codec::{Decode, Encode};
use pbt::{check, check_eq, fnv, Fail, Prop, Rec, Src};
use sp_core::{
    offchain::{OffchainDbExt, OffchainWorkerExt, Timestamp, TransactionPoolExt},
    sr25519::Signature,
};
use sp_keystore::{testing::MemoryKeystore, Keystore, KeystoreExt};
use sp_runtime::{
    testing::TestXt,
    traits::{Convert, Extrinsic as ExtrinsicT, IdentifyAccount, IdentityLookup, Verify},
    BuildStorage, FixedPointNumber, FixedU128,
};
use std::{cell::RefCell, collections::BTreeMap};

type Block = frame_system::mocking::MockBlock<Test>;
type Extrinsic = TestXt<RuntimeCall, ()>;
type AccountId = <<Signature as Verify>::Signer as IdentifyAccount>::AccountId;

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<u64>;
    type AccountId = sp_core::sr25519::Public;
    type Block = Block;
    type Lookup = IdentityLookup<Self::AccountId>;
    type Nonce = u64;
}
pub struct Now;
impl Time for Now {
    type Moment = u32;
    fn now() -> u32 {
        0
    }
}
parameter_types! {
    pub Root: AccountId = AccountId::from_raw([0xff; 32]);
    pub static Members: Vec<AccountId> = vec![];
    pub static Interval: u64 = 5;
    pub static Window: u64 = 1;
}
impl orml_oracle::Config for Test {
    type CombineData = orml_oracle::DefaultCombineData<Test, ConstU32<3>, ConstU32<10>, ()>;
    type MaxFeedValues = ConstU32<4>;
    type MaxHasDispatchedSize = ConstU32<20>;
    type Members = IsInVec<Members>;
    type OnNewData = ();
    type OracleKey = u64;
    type OracleValue = FixedU128;
    type RootOperatorAccountId = Root;
    type RuntimeEvent = RuntimeEvent;
    type Time = Now;
    type WeightInfo = ();
}
fn key_of(a: AssetName) -> u64 {
    match a {
        AssetName::DOT => 10,
        AssetName::USDC => 1337,
        AssetName::USDT => 1984,
        AssetName::PLMC => 3344,
    }
}
pub struct Pair;
impl Convert<(AssetName, FixedU128), (u64, FixedU128)> for Pair {
    fn convert((a, p): (AssetName, FixedU128)) -> (u64, FixedU128) {
        (key_of(a), p)
    }
}
impl pallet_oracle_ocw::Config for Test {
    type AppCrypto = pallet_oracle_ocw::crypto::Polimec;
    type ConvertAssetPricePair = Pair;
    type FetchInterval = Interval;
    type FetchWindow = Window;
    type Members = IsInVec<Members>;
    type RuntimeEvent = RuntimeEvent;
}
impl frame_system::offchain::SigningTypes for Test {
    type Public = <Signature as Verify>::Signer;
    type Signature = Signature;
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
    RuntimeCall: From<C>,
{
    type Extrinsic = Extrinsic;
    type OverarchingCall = RuntimeCall;
}
thread_local! {
    static SIGNER: RefCell<Option<AccountId>> = const { RefCell::new(None) };
}
impl<C> frame_system::offchain::CreateSignedTransaction<C> for Test
where
    RuntimeCall: From<C>,
{
    fn create_transaction<A: frame_system::offchain::AppCrypto<Self::Public, Self::Signature>>(
        call: RuntimeCall,
        _public: <Signature as Verify>::Signer,
        account: AccountId,
        nonce: u64,
    ) -> Option<(RuntimeCall, <Extrinsic as ExtrinsicT>::SignaturePayload)> {
        SIGNER.with(|s| *s.borrow_mut() = Some(account));
        Some((call, (nonce, ())))
    }
}
frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system = 0,
        Oracle: orml_oracle = 1,
        OracleOcw: pallet_oracle_ocw = 2,
    }
);

fn world(s: &mut Src, keys: &[AccountId], store: MemoryKeystore) -> (sp_io::TestExternalities, Node) {
    let _ = (s, keys);
    let node = Node::default();
    let mut t: sp_io::TestExternalities = frame_system::GenesisConfig::<Test>::default().build_storage().expect("genesis").into();
    t.register_extension(OffchainWorkerExt::new(node.clone()));
    t.register_extension(TransactionPoolExt::new(node.clone()));
    t.register_extension(OffchainDbExt::new(node.clone()));
    t.register_extension(KeystoreExt::new(store));
    (t, node)
}
const KEY: sp_core::crypto::KeyTypeId = pallet_oracle_ocw::crypto::POLIMEC_ORACLE;
fn generate(store: &MemoryKeystore, n: u64) -> AccountId {
    store.sr25519_generate_new(KEY, Some(&format!("0x{:064x}", n + 1))).expect("a key")
}
/// what the worker submits at a block
fn run(node: &Node, block: u64) -> Result<Option<BTreeMap<u64, FixedU128>>, Fail> {
    let before = node.0.lock().pool.len();
    SIGNER.with(|s| *s.borrow_mut() = None);
    OracleOcw::offchain_worker(block);
    let pool = node.0.lock().pool.split_off(before);
    check!(pool.len() <= 1, "transactions", "{} transactions at one block", pool.len());
    let Some(x) = pool.first() else { return Ok(None) };
    let x = Extrinsic::decode(&mut &x[..]).expect("an extrinsic");
    let RuntimeCall::Oracle(orml_oracle::Call::feed_values { values }) = x.call else {
        return pbt::fail("call", "another call than feed_values is submitted");
    };
    let m: BTreeMap<u64, FixedU128> = values.iter().cloned().collect();
    check_eq!(m.len(), values.len(), "values", "prices of different assets in one call");
    let signer = SIGNER.with(|s| *s.borrow()).expect("signed");
    check!(Members::get().contains(&signer), "signer", "the transaction is signed by {signer}, who is not a member of the oracle");
    Ok(Some(m))
}
const ASSETS: [AssetName; 4] = [AssetName::USDT, AssetName::USDC, AssetName::DOT, AssetName::PLMC];

/// O01: the prices fed are the volume weighted averages of what the exchanges answer
fn price(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let store = MemoryKeystore::new();
    let me = generate(&store, 0);
    Members::set(vec![me]);
    Interval::set(5);
    Window::set(1);
    let (mut t, node) = world(s, &[me], store);
    t.execute_with(|| {
        let mut sum: BTreeMap<u64, Sum> = BTreeMap::new();
        for a in ASSETS {
            let level = s.magnitude(36).max(1);
            let missing = s.weighted(&[4, 1]) == 1;
            for x in EXCHANGES {
                let Some(url) = url(x, a) else { continue };
                if missing && s.weighted(&[1, 5]) == 1 {
                    continue;
                }
                let (answer, rows, label) = answer(s, x, a, level);
                rec.op();
                rec.label(label);
                rec.log(|| format!("{a:?} {x:?} ({label}): {}", text(&answer)));
                if let Some(rows) = rows {
                    sum.entry(key_of(a)).or_default().add(&rows);
                }
                node.0.lock().answers.insert(url, answer);
            }
        }
        let want: BTreeMap<u64, Sum> = sum.into_iter().filter(|x| x.1.vol > 0.0).collect();
        let got = run(&node, 5)?.unwrap_or_default();
        rec.log(|| format!("fed {got:?}"));
        check_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "assets", "the assets that are priced");
        for (k, w) in &want {
            let g = got[k].into_inner() as f64 / 1e18;
            let p = w.pv / w.vol;
            let tol = 2f64.powi(-26) * (1.0 + w.rows * (w.high + 1.0) / w.vol) + p * 1e-12;
            check!((g - p).abs() <= tol, "price", "asset {k} is priced {g}, not {p} (within {tol:e})");
            if w.answers > 1 {
                rec.nontrivial();
            }
            rec.feature(fnv(*k, &[w.answers as u8, (w.rows as u32 / 5) as u8]));
        }
        rec.feature(fnv(99, &want.keys().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
        Ok(())
    })
}

/// O02: when prices are fetched and sent
fn schedule(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let store = MemoryKeystore::new();
    let keys: Vec<AccountId> = (0..s.below(4)).map(|i| generate(&store, i)).collect();
    let others: Vec<AccountId> = (4..6).map(|i| generate(&MemoryKeystore::new(), i)).collect();
    let mut members: Vec<AccountId> = others.clone();
    let all_keys = s.flag();
    for k in &keys {
        if all_keys || s.flag() {
            members.push(*k);
        }
    }
    let w = 1 + s.below(4);
    let i = 2 * w + s.below(10);
    Window::set(w);
    Interval::set(i);
    Members::set(members.clone());
    let (mut t, node) = world(s, &keys, store);
    t.execute_with(|| {
        // what an earlier version of the node left behind
        let mut last: BTreeMap<AssetName, u64> = ASSETS.iter().map(|a| (*a, 0)).collect();
        node.0.lock().now = 1_000_000_000_000;
        match s.weighted(&[5, 1, 1]) {
            0 => {},
            1 => {
                node.0.lock().db.insert(b"oracle_ocw::last_send".to_vec(), s.pick(&[vec![], vec![255u8, 255, 255], vec![4]]).clone());
                rec.label("unreadable record");
            },
            _ => {
                last.remove(&AssetName::PLMC);
                for v in last.values_mut() {
                    *v = s.below(3) * i + s.below(w);
                }
                node.0.lock().db.insert(b"oracle_ocw::last_send".to_vec(), last.encode());
                last.insert(AssetName::PLMC, 0);
                rec.label("a record of before PLMC");
            },
        }
        let mut lock: u64 = 0;
        let mut block = if s.flag() { 1 } else { s.below(1000) };
        s.plan(4, 60);
        while s.more() {
            rec.op();
            let available: Vec<AssetName> = {
                let m = if s.flag() { 15 } else { s.below(16) };
                ASSETS.iter().enumerate().filter(|x| m >> x.0 & 1 == 1).map(|x| *x.1).collect()
            };
            let (full, op) = (s.chance(1, 5), s.weighted(&[30, 4, 2, 1, 2]));
            block = match op {
                1 => block + 1 + s.below(3 * i),
                2 => block.saturating_sub(s.below(3)),
                // to just before the next window
                3 => (block / i + 1) * i - 1,
                _ => block + 1,
            };
            if op == 4 && !keys.is_empty() {
                let k = *s.pick(&keys);
                match members.iter().position(|m| *m == k) {
                    Some(p) => {
                        members.remove(p);
                    },
                    None => members.push(k),
                }
                Members::set(members.clone());
            }
            let now = {
                let mut n = node.0.lock();
                n.now += s.below(40_000);
                n.pool_full = full;
                n.asked.clear();
                n.answers.clear();
                for a in ASSETS {
                    let x = if a == AssetName::PLMC { Exchange::Xt } else { Exchange::Kraken };
                    let ok = available.contains(&a);
                    n.answers.insert(
                        url(x, a).expect("listed"),
                        Answer::Http { status: if ok { 200 } else { 503 }, delay: 0, body: one_row(x, a, block), breaks: None },
                    );
                }
                // another run of the worker, which may have died
                if s.chance(1, 12) {
                    lock = n.now + s.below(60_000);
                    n.db.insert(b"oracle_ocw::lock".to_vec(), Timestamp::from_unix_millis(lock).encode());
                }
                n.now
            };
            let mine = keys.iter().any(|k| members.contains(k));
            let free = now > lock;
            let k = block / i;
            let due: Vec<AssetName> = if block % i < w && k > 0 { ASSETS.iter().copied().filter(|a| last[a] < k * i).collect() } else { vec![] };
            let got = run(&node, block)?;
            let asked = !node.0.lock().asked.is_empty();
            rec.log(|| format!("block {block} (window {w} of {i}): available {available:?}, pool full {full}, member {mine}, lock free {free}: due {due:?}, fed {got:?}"));
            if mine && free {
                lock = 0;
                check!(!node.0.lock().db.contains_key(&b"oracle_ocw::lock"[..]), "lock", "the lock is kept after the worker is done");
            }
            let awake = mine && free && !due.is_empty();
            check_eq!(asked, awake, "fetch", "whether prices are fetched at block {block}");
            let can: Vec<AssetName> = due.iter().copied().filter(|a| available.contains(a)).collect();
            let want: Option<BTreeMap<u64, FixedU128>> = (awake && !full && !can.is_empty()).then(|| can.iter().map(|a| (key_of(*a), FixedU128::from_u32(block as u32 % 50 + 1))).collect());
            check_eq!(got, want, "submission", "what is submitted at block {block}");
            if want.is_some() {
                rec.nontrivial();
                rec.label("submitted");
                for a in can {
                    last.insert(a, block);
                }
            } else if awake {
                rec.label(if full && !can.is_empty() { "the pool is full" } else { "no prices" });
            }
            rec.feature(fnv(block % i, &[mine as u8, free as u8, due.len() as u8, full as u8, w as u8]));
        }
        Ok(())
    })
}

/// O03: whatever an exchange answers, the worker goes on with the others
fn robust(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    Interval::set(5);
    Window::set(1);
    let mut sane: BTreeMap<String, Answer> = BTreeMap::new();
    let mut all = vec![];
    for a in ASSETS {
        for x in EXCHANGES {
            let Some(u) = url(x, a) else { continue };
            all.push((x, a, u.clone()));
            if s.flag() {
                let rows: Vec<Row> = (0..x.rows()).map(|_| row(s, 1_000_000)).collect();
                sane.insert(u, Answer::Http { status: 200, delay: 0, body: body(x, a, &rows), breaks: None });
            }
        }
    }
    let mut odd = sane.clone();
    let mut hit: Vec<u64> = vec![];
    for _ in 0..1 + s.below(3) {
        let (x, a, u) = s.pick(&all).clone();
        let b = strange(s, x, a);
        rec.op();
        rec.log(|| format!("{a:?} {x:?}: {}", String::from_utf8_lossy(&b)));
        hit.push(key_of(a));
        odd.insert(u.clone(), Answer::Http { status: 200, delay: 0, body: b, breaks: None });
        sane.remove(&u);
    }
    let mut once = |answers: BTreeMap<String, Answer>| -> Result<BTreeMap<u64, FixedU128>, Fail> {
        let store = MemoryKeystore::new();
        let me = generate(&store, 0);
        Members::set(vec![me]);
        let (mut t, node) = world(s, &[me], store);
        node.0.lock().answers = answers;
        t.execute_with(|| Ok(run(&node, 5)?.unwrap_or_default()))
    };
    let (without, with) = (once(sane)?, once(odd)?);
    for a in ASSETS {
        let k = key_of(a);
        if !hit.contains(&k) {
            check_eq!(with.get(&k), without.get(&k), "others", "the price of {a:?}, of which nothing strange was said");
        } else {
            check!(with.contains_key(&k) || !without.contains_key(&k), "lost", "{a:?} has no price for a strange answer");
            rec.label(if with.get(&k) == without.get(&k) { "not counted" } else { "counted" });
        }
    }
    rec.nontrivial();
    Ok(())
}

fn main() {
    const A: &[&str] = &["a runtime of System, a stand-in of orml-oracle and the worker, on a node of our own: exchanges by URL, a virtual clock, local storage, keystore and pool", "serde-json-core, heapless and substrate-fixed are stand-ins over serde_json and plain integers"];
    pbt::main(vec![
        Prop { id: "O01", rule: "an asset priced from more than one answer", quick: 6000, thorough: 400000, case: Box::new(price), assumptions: A, guided: 20 },
        Prop { id: "O02", rule: "a submission", quick: 6000, thorough: 400000, case: Box::new(schedule), assumptions: A, guided: 30 },
        Prop { id: "O03", rule: "a strange answer", quick: 6000, thorough: 400000, case: Box::new(robust), assumptions: A, guided: 20 },
    ]);
    let _ = FixedU128::accuracy();
}
