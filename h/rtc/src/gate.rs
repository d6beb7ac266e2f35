//! X03: what a proxy can do, and what nobody can.
use crate::gates::calls::{all, RuntimeCall};
use crate::gates::code::BaseCallFilter;
use frame_support::traits::{Contains, InstanceFilter};
use pbt::{check, check_eq, fnv, Fail, Rec, Src};
use shared_configuration::proxy::Type;

const TYPES: [Type; 5] = [Type::Any, Type::NonTransfer, Type::Governance, Type::Staking, Type::IdentityJudgement];
const GOVERNANCE: &[&str] = &["Treasury", "Democracy", "Council", "TechnicalCommittee", "Elections", "Preimage", "Scheduler"];
const HARMLESS: &[&str] = &["System", "ParachainSystem", "Timestamp", "Utility", "Multisig", "Proxy", "ParachainStaking", "Oracle", "OracleProvidersMembership"];
/// the calls of the funding pallet that are open to the public
const FUNDING: &[&str] = &[
    "create_project", "remove_project", "edit_project", "start_evaluation", "evaluate", "end_evaluation", "bid", "end_auction",
    "contribute", "end_funding", "start_settlement", "settle_evaluation", "settle_bid", "settle_contribution",
    "mark_project_as_settled", "start_offchain_migration", "confirm_offchain_migration", "mark_project_ct_migration_as_finished",
];
/// whether a proxy of type `t` is meant to act with this call
fn meant(t: Type, pallet: &str, call: &str) -> bool {
    match t {
        Type::Any => true,
        Type::NonTransfer => GOVERNANCE.contains(&pallet) || HARMLESS.contains(&pallet) || (pallet == "Vesting" && (call == "vest" || call == "vest_other")),
        Type::Governance => GOVERNANCE.contains(&pallet),
        Type::Staking => pallet == "ParachainStaking",
        Type::IdentityJudgement => pallet == "Identity" && call == "provide_judgement",
    }
}
/// the rule of pallet-proxy: what an account that holds proxies of the types `held` for another can make it do
fn admitted(t: Type, pallet: &str, call: &str, c: &RuntimeCall, arg: Type) -> bool {
    if pallet == "Proxy" && (call == "add_proxy" || call == "remove_proxy") && !t.is_superset(&arg) {
        return false;
    }
    if pallet == "Proxy" && (call == "remove_proxies" || call == "kill_pure") && t != Type::default() {
        return false;
    }
    t.filter(c)
}

pub fn proxies(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let calls = all();
    let add = calls.iter().position(|(p, c, _)| *p == "Proxy" && *c == "add_proxy").expect("add_proxy");
    let granted = *s.pick(&TYPES);
    let mut held = vec![granted];
    check_eq!(Type::default(), Type::Any, "default", "the type that may do everything");
    s.plan(1, 8);
    while s.more() {
        rec.op();
        let by = *s.pick(&held);
        let arg = *s.pick(&TYPES);
        let (pallet, call, c) = if s.chance(1, 3) { calls[add] } else { *s.pick(&calls) };
        let base = BaseCallFilter::contains(&c);
        check_eq!(base, pallet != "Funding" || FUNDING.contains(&call), "base", "whether {pallet}.{call} can be called at all");
        let ok = admitted(by, pallet, call, &c, arg);
        rec.log(|| format!("a proxy of type {by:?} (granted: {granted:?}): {pallet}.{call} ({arg:?}): {ok}"));
        if !base {
            rec.label("closed");
            rec.nontrivial();
            continue;
        }
        check!(!ok || meant(granted, pallet, call), "escalation", "a proxy of type {granted:?} comes to make its principal call {pallet}.{call} as type {by:?}");
        if by == granted && !(pallet == "Proxy" && ["add_proxy", "remove_proxy", "remove_proxies", "kill_pure"].contains(&call)) {
            check_eq!(ok, meant(granted, pallet, call), "power", "whether a proxy of type {granted:?} can call {pallet}.{call}");
        }
        if ok {
            rec.label("admitted");
            if pallet == "Proxy" && call == "add_proxy" {
                // a proxy that can add its like keeps what it has
                rec.label("adds a proxy");
                held.push(arg);
            }
        } else {
            rec.label("refused");
        }
        rec.nontrivial();
        rec.feature(fnv(ok as u64, &[by as u8, granted as u8, (pallet == "Proxy") as u8]));
    }
    check!(TYPES.iter().all(|t| t.is_superset(t) && Type::Any.is_superset(t)), "superset", "a type includes itself, and Any every type");
    Ok(())
}
