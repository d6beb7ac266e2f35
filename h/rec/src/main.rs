//! R*: the receiver of migrated tokens (pallets/polimec-receiver), against a model of who was served and what is locked.
use cumulus_pallet_xcm::Origin as ParaOrigin;
use frame_support::{
    derive_impl, parameter_types,
    traits::{Currency, WithdrawReasons},
};
use parity_scale_codec::{Decode, Encode};
use pbt::{check, check_eq, fnv, Fail, Prop, Rec, Src};
use polimec_common::migration_types::{Migration, MigrationInfo, MigrationOrigin, Migrations, ParticipationType};
use polkadot_parachain_primitives::primitives::{Id as ParaId, Sibling};
use sp_runtime::{
    traits::{AccountIdConversion, Convert, ConvertInto, Dispatchable},
    AccountId32, BuildStorage,
};
use std::collections::{BTreeMap, BTreeSet};
use xcm::v4::prelude::{AccountId32 as JAccount, AccountKey20, Junction, Location, NetworkId, PalletInstance};

type Bal = u128;
type Acc = AccountId32;
type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system = 0,
        Balances: pallet_balances = 1,
        Vesting: pallet_vesting = 2,
        Xcm: cumulus_pallet_xcm = 3,
        Receiver: polimec_receiver = 51,
    }
);
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Bal>;
    type AccountId = Acc;
    type Block = Block;
    type Lookup = sp_runtime::traits::IdentityLookup<Acc>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Bal;
    type ExistentialDeposit = Ed;
}
const MAX: usize = 4;
impl pallet_vesting::Config for Test {
    type BlockNumberProvider = System;
    type BlockNumberToBalance = ConvertInto;
    type Currency = Balances;
    type MinVestedTransfer = MinVested;
    type RuntimeEvent = RuntimeEvent;
    type UnvestedFundsAllowedWithdrawReasons = Unvested;
    type WeightInfo = ();
    const MAX_VESTING_SCHEDULES: u32 = MAX as u32;
}
impl cumulus_pallet_xcm::Config for Test {
    type RuntimeEvent = RuntimeEvent;
}
/// as the reference chain of the integration tests does it
pub struct Divide;
impl Convert<MigrationInfo, Bal> for Divide {
    fn convert(i: MigrationInfo) -> Bal {
        i.contribution_token_amount.checked_div(i.vesting_time as u128).unwrap_or(i.contribution_token_amount)
    }
}
parameter_types! {
    pub const MinVested: Bal = 1;
    pub Unvested: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
    pub static Ed: Bal = 1;
    pub static Genesis: u64 = 0;
    pub PolimecId: ParaId = 3344u32.into();
    pub const MaxMigrations: u128 = 100000;
}
impl polimec_receiver::Config for Test {
    type Balance = Bal;
    type Balances = Balances;
    type GenesisMoment = Genesis;
    type MaxMigrations = MaxMigrations;
    type MigrationInfoToPerBlockBalance = Divide;
    type PolimecParaId = PolimecId;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeOrigin = RuntimeOrigin;
    type Vesting = Vesting;
}

const USERS: u8 = 5;
fn acc(n: u8) -> Acc {
    Acc::new([n; 32])
}
fn sovereign() -> Acc {
    Sibling(ParaId::from(3344)).into_account_truncating()
}
/// the user a location stands for
fn user(n: u8, form: u8) -> Location {
    let a = |network| -> Junction { JAccount { network, id: [n; 32] } };
    match form {
        0..=5 => Location::new(0, [a(None)]),
        6 => Location::new(0, [a(Some(NetworkId::Polkadot))]),
        7 => Location::new(1, [a(None)]),
        8 => Location::new(0, [PalletInstance(n), a(None)]),
        9 => Location::new(0, [a(None), PalletInstance(n)]),
        10 => Location::new(0, [AccountKey20 { network: None, key: [n; 20] }]),
        _ => Location::here(),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Sch {
    locked: Bal,
    per: Bal,
    start: u64,
}
impl Sch {
    fn at(&self, n: u64) -> Bal {
        self.locked - self.locked.min((n.saturating_sub(self.start) as u128).saturating_mul(self.per.max(1)))
    }
}
type Key = (Vec<u8>, ParticipationType, u32);
#[derive(Clone, Debug, PartialEq)]
struct St {
    free: BTreeMap<Acc, Bal>,
    sch: BTreeMap<Acc, Vec<Sch>>,
    lock: BTreeMap<Acc, Bal>,
    done: BTreeSet<Key>,
    issuance: Bal,
}
fn key(o: &MigrationOrigin) -> Key {
    (o.user.encode(), o.participation_type, o.id)
}
fn snap() -> St {
    let all: Vec<Acc> = (0..USERS).map(acc).chain([sovereign()]).collect();
    St {
        free: all.iter().map(|a| (a.clone(), Balances::free_balance(a))).collect(),
        sch: all
            .iter()
            .map(|a| (a.clone(), pallet_vesting::Vesting::<Test>::get(a).map(|v| v.iter().map(|s| Sch { locked: s.locked(), per: s.per_block(), start: s.starting_block() }).collect()).unwrap_or_default()))
            .collect(),
        lock: all.iter().map(|a| (a.clone(), Balances::locks(a).iter().map(|l| l.amount).max().unwrap_or(0))).collect(),
        done: polimec_receiver::ExecutedMigrations::<Test>::iter().filter(|x| x.1).map(|((u, p, i), _)| (u.encode(), p, i)).collect(),
        issuance: Balances::total_issuance(),
    }
}
#[derive(Clone, Debug)]
enum From_ {
    Para(u32),
    Relay,
    Signed(u8),
    Root,
    None,
}
/// what a batch does, and what is said about each
fn model(st: &St, from: &From_, list: &[(Migration, Option<u8>)], now: u64) -> Result<(St, Vec<bool>), String> {
    if !matches!(from, From_::Para(3344)) {
        return Err("not from Polimec".into());
    }
    let mut s = st.clone();
    let mut said = vec![];
    for (m, who) in list {
        let Some(who) = who else { return Err(format!("no account: {:?}", m.origin.user)) };
        if !s.done.insert(key(&m.origin)) {
            said.push(false);
            continue;
        }
        let (a, x) = (acc(*who), m.info.contribution_token_amount);
        if x > 0 {
            let have = s.free[&sovereign()];
            if have < x || have - x < Ed::get() {
                return Err(format!("the sovereign account cannot pay {x} of {have}"));
            }
            if s.free[&a] + x < Ed::get() {
                return Err("below the existential deposit".into());
            }
            *s.free.get_mut(&sovereign()).unwrap() -= x;
            *s.free.get_mut(&a).unwrap() += x;
            let per = if m.info.vesting_time == 0 { x } else { x / m.info.vesting_time as u128 };
            if per == 0 {
                return Err("nothing released per block".into());
            }
            let v = s.sch.get_mut(&a).unwrap();
            if v.len() >= MAX {
                return Err("no room for a schedule".into());
            }
            v.push(Sch { locked: x, per, start: Genesis::get() });
            v.retain(|x| x.at(now) > 0);
            let l = v.iter().map(|x| x.at(now)).sum();
            s.lock.insert(a, l);
        }
        said.push(true);
    }
    Ok((s, said))
}
fn history(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    Ed::set(*s.pick(&[1u128, 10, 500]));
    Genesis::set(*s.pick(&[0u64, 0, 1, 20]));
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let mut b = vec![(sovereign(), Ed::get() + s.magnitude(24))];
    for n in 0..USERS {
        if s.flag() {
            b.push((acc(n), Ed::get() + s.magnitude(20)));
        }
    }
    pallet_balances::GenesisConfig::<Test> { balances: b }.assimilate_storage(&mut t).unwrap();
    let mut e: sp_io::TestExternalities = t.into();
    e.execute_with(|| {
        System::set_block_number(1 + s.below(10));
        s.plan(4, 30);
        let mut sent: Vec<(Migration, Option<u8>)> = vec![];
        let first = snap().issuance;
        let mut refilled = 0;
        while s.more() {
            rec.op();
            let now = System::block_number();
            let pre = snap();
            match s.weighted(&[8, 2, 2, 2, 3]) {
                0 => {
                    let mut list: Vec<(Migration, Option<u8>)> = vec![];
                    for _ in 0..s.below(6) {
                        let again: Vec<_> = sent.iter().chain(&list).cloned().collect();
                        if !again.is_empty() && s.chance(1, 3) {
                            // the same once more, or one part of it changed
                            let mut x = s.pick(&again).clone();
                            match s.below(6) {
                                0 => x.0.origin.id = s.below(4) as u32,
                                1 => x.0.origin.participation_type = *s.pick(&[ParticipationType::Evaluation, ParticipationType::Bid, ParticipationType::Contribution]),
                                2 => x.0.info.contribution_token_amount += 1,
                                _ => {},
                            }
                            list.push(x);
                            continue;
                        }
                        let (u, form) = (s.below(USERS as u64) as u8, if s.chance(1, 12) { s.below(12) as u8 } else { 0 });
                        let x = match s.below(5) {
                            0 => s.below(4) as u128,
                            1 => Ed::get() - s.below(2) as u128,
                            2 => (pre.free[&sovereign()]).saturating_sub(s.below(2) as u128 * Ed::get()),
                            _ => 1 + s.magnitude(16),
                        };
                        let time = *s.pick(&[0u64, 1, 3, 7, 30, 1000]);
                        let id = s.below(4) as u32;
                        let part = *s.pick(&[ParticipationType::Evaluation, ParticipationType::Bid, ParticipationType::Contribution]);
                        let m = Migration::new(MigrationOrigin { user: user(u, form), id, participation_type: part }, MigrationInfo::from((x, time)));
                        list.push((m, if form <= 6 { Some(u) } else { None }));
                    }
                    let from = match s.below(24) {
                        0 => From_::Para(s.pick(&[3343u32, 0, 2000]).clone()),
                        1 => From_::Relay,
                        2 => From_::Signed(s.below(USERS as u64) as u8),
                        3 => From_::Root,
                        4 => From_::None,
                        _ => From_::Para(3344),
                    };
                    let o: RuntimeOrigin = match from {
                        From_::Para(n) => ParaOrigin::SiblingParachain(n.into()).into(),
                        From_::Relay => ParaOrigin::Relay.into(),
                        From_::Signed(n) => RuntimeOrigin::signed(acc(n)),
                        From_::Root => RuntimeOrigin::root(),
                        From_::None => RuntimeOrigin::none(),
                    };
                    // as the funding pallet of Polimec writes it
                    let mut bytes = vec![51u8, 0];
                    bytes.extend(Migrations::from(list.iter().map(|x| x.0.clone()).collect()).encode());
                    let call = RuntimeCall::decode(&mut &bytes[..]).ok();
                    check!(call.is_some(), "call not understood", "the call that Polimec sends does not decode: {bytes:?}");
                    System::reset_events();
                    let res = call.unwrap().dispatch(o).map(|_| ()).map_err(|e| format!("{:?}", e.error));
                    let post = snap();
                    let want = model(&pre, &from, &list, now);
                    rec.log(|| format!("#{now} migrate from {from:?}: {:?} -> {res:?}", list.iter().map(|x| (&x.0.origin.user, x.0.origin.id, x.0.origin.participation_type, &x.0.info)).collect::<Vec<_>>()));
                    rec.feature(fnv(5, format!("{}{:?}", res.is_ok(), want.as_ref().err().map(|x| &x[..4])).as_bytes()));
                    match want {
                        Ok((w, said)) => {
                            check!(res.is_ok(), "refused", "a batch of {} is refused: {res:?}", list.len());
                            check_eq!(post, w, "migrated state", "the state after a batch of {} at block {now}", list.len());
                            let events: Vec<(bool, Migration)> = System::events()
                                .into_iter()
                                .filter_map(|e| match e.event {
                                    RuntimeEvent::Receiver(polimec_receiver::Event::MigrationExecuted { migration }) => Some((true, migration)),
                                    RuntimeEvent::Receiver(polimec_receiver::Event::DuplicatedMigrationSkipped { migration }) => Some((false, migration)),
                                    _ => None,
                                })
                                .collect();
                            let told: Vec<(bool, Migration)> = said.iter().copied().zip(list.iter().map(|x| x.0.clone())).collect();
                            check_eq!(events, told, "events", "what is reported of the batch");
                            if said.contains(&true) {
                                rec.nontrivial();
                                rec.label("executed");
                            }
                            if said.contains(&false) {
                                rec.label("a duplicate skipped");
                            }
                            sent.extend(list);
                        },
                        Err(why) => {
                            check!(res.is_err(), "accepted", "a batch is accepted although: {why}");
                            check_eq!(post, pre, "state after a refusal", "the state after a refused batch ({why})");
                            rec.label("refused");
                        },
                    }
                },
                1 => {
                    let u = s.below(USERS as u64) as u8;
                    let _ = RuntimeCall::from(pallet_vesting::Call::<Test>::vest {}).dispatch(RuntimeOrigin::signed(acc(u)));
                },
                2 => {
                    let (u, v) = (s.below(USERS as u64) as u8, s.below(USERS as u64) as u8);
                    let value = if s.flag() { pre.free[&acc(u)].saturating_sub(pre.lock[&acc(u)]) } else { s.magnitude(20) };
                    let _ = RuntimeCall::from(pallet_balances::Call::<Test>::transfer_keep_alive { dest: acc(v), value }).dispatch(RuntimeOrigin::signed(acc(u)));
                },
                3 => {
                    let x = s.magnitude(20);
                    refilled += x;
                    let _ = <Balances as Currency<Acc>>::deposit_creating(&sovereign(), x);
                },
                _ => System::set_block_number(now + 1 + s.below(20)),
            }
            let post = snap();
            check!(pre.done.is_subset(&post.done), "forgotten", "a migration that was executed is forgotten");
            check_eq!(post.issuance, first + refilled, "issuance", "the issuance");
        }
        Ok(())
    })
}
fn main() {
    const A: &[&str] = &["a runtime of System, Balances, pallet-vesting and the receiver; the origin pallet of cumulus and the XCM types are stand-ins", "pallet-balances and pallet-vesting are trusted"];
    pbt::main(vec![Prop { id: "R01", rule: "a migration executed", quick: 15000, thorough: 900000, case: Box::new(|s: &mut Src, r: &mut Rec| history(s, r)), assumptions: A, guided: 30 }]);
}
