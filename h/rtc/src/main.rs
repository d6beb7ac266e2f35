//! X*: the configuration of the Polimec runtime (runtimes/shared-configuration, runtimes/polimec).
mod fee;
mod gate;
mod gov;
mod msg;
mod rt;
mod stubs;
mod xrt;
mod gates {
    pub mod calls {
        include!(concat!(env!("OUT_DIR"), "/calls.rs"));
    }
    pub mod code {
        #![allow(dead_code, clippy::all)]
        include!(concat!(env!("OUT_DIR"), "/gates.rs"));
    }
}
mod fees {
    #![allow(dead_code, clippy::all)]
    include!(concat!(env!("OUT_DIR"), "/fees.rs"));
}
mod govs {
    #![allow(dead_code, clippy::all)]
    include!(concat!(env!("OUT_DIR"), "/govs.rs"));
}
mod xcms {
    #![allow(dead_code, clippy::all)]
    include!(concat!(env!("OUT_DIR"), "/xcms.rs"));
}
fn main() {
    use pbt::{Prop, Rec, Src};
    const A: &[&str] = &[
        "the configuration is taken out of the runtime's own sources at build time and compiled for a runtime of fewer pallets",
        "pallet-assets, the fee-payment pallets, pallet-authorship and the XCM crates are stand-ins with their upstream behaviour; pallet-balances is the real one",
    ];
    pbt::main(vec![
        Prop { id: "X01", rule: "a fee in a foreign asset was charged and settled", quick: 20000, thorough: 1500000, case: Box::new(|s: &mut Src, r: &mut Rec| fee::asset_fees(s, r)), assumptions: A, guided: 30 },
        Prop { id: "X02", rule: "a fee, dust or a slash was handed on", quick: 20000, thorough: 1500000, case: Box::new(|s: &mut Src, r: &mut Rec| fee::native(s, r, false)), assumptions: A, guided: 30 },
        Prop { id: "X03", rule: "a call was decided", quick: 200000, thorough: 2000000, case: Box::new(|s: &mut Src, r: &mut Rec| gate::proxies(s, r)), assumptions: A, guided: 30 },
        Prop { id: "X04", rule: "a supported asset", quick: 400000, thorough: 20000000, case: Box::new(|s: &mut Src, r: &mut Rec| msg::trust(s, r)), assumptions: A, guided: 30 },
        Prop { id: "X05", rule: "a message to be executed without credit", quick: 1000000, thorough: 60000000, case: Box::new(|s: &mut Src, r: &mut Rec| msg::barrier(s, r)), assumptions: A, guided: 30 },
        Prop { id: "X06", rule: "every case", quick: 1000000, thorough: 50000000, case: Box::new(|s: &mut Src, r: &mut Rec| fee::weights(s, r)), assumptions: A, guided: 0 },
        Prop { id: "X07", rule: "a fee, dust or a slash was handed on", quick: 20000, thorough: 1000000, case: Box::new(|s: &mut Src, r: &mut Rec| fee::native(s, r, true)), assumptions: A, guided: 30 },
        Prop { id: "X08", rule: "weight was sold for an asset", quick: 300000, thorough: 20000000, case: Box::new(|s: &mut Src, r: &mut Rec| msg::trade(s, r)), assumptions: A, guided: 30 },
        Prop { id: "X09", rule: "a power was asked for", quick: 400000, thorough: 20000000, case: Box::new(|s: &mut Src, r: &mut Rec| gov::power(s, r)), assumptions: A, guided: 30 },
    ]);
}
