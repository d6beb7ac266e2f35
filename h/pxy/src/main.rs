//! P*: bonding on behalf of users (pallets/proxy-bonding); C*: prices, migrations and credentials (polimec-common).
mod common;
mod proxy;
use pbt::Prop;

fn main() {
    const A: &[&str] = &[
        "a runtime of System, Balances, Assets and this pallet; pallet-assets and pallet-timestamp are stand-ins written from the documented behaviour of the upstream pallets, which are not available here",
        "pallet-balances of the registry is trusted",
    ];
    const C: &[&str] = &["polimec-common compiles against stand-ins for XCM, pallet-timestamp and jwt-compact (the latter signs and verifies with ed25519-dalek of the registry)"];
    use proxy::Which as W;
    pbt::main(vec![
        Prop { id: "P01", rule: "a bond on behalf of a user that succeeds", quick: 24_000, thorough: 1_600_000, case: Box::new(|s, r| proxy::history(s, r, W::Bond)), assumptions: A, guided: 40 },
        Prop { id: "P02", rule: "a fee above zero", quick: 200_000, thorough: 20_000_000, case: Box::new(proxy::fees), assumptions: A, guided: 10 },
        Prop { id: "P03", rule: "bonds transferred back to the treasury", quick: 24_000, thorough: 1_600_000, case: Box::new(|s, r| proxy::history(s, r, W::Back)), assumptions: A, guided: 40 },
        Prop { id: "P04", rule: "fees refunded or transferred to the recipient", quick: 24_000, thorough: 1_600_000, case: Box::new(|s, r| proxy::history(s, r, W::Fees)), assumptions: A, guided: 40 },
        Prop { id: "C01", rule: "a price above zero", quick: 400_000, thorough: 40_000_000, case: Box::new(common::prices), assumptions: C, guided: 10 },
        Prop { id: "C02", rule: "at least two migrations", quick: 60_000, thorough: 4_000_000, case: Box::new(common::migrations), assumptions: C, guided: 10 },
        Prop { id: "C03", rule: "a token that is accepted, or refused for exactly one reason", quick: 8_000, thorough: 800_000, case: Box::new(common::credentials), assumptions: C, guided: 20 },
    ]);
}
