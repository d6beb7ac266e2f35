//! Takes the configuration code out of /repo/runtimes/polimec/src, whose other parts need crates that are not here, and
//! writes it to OUT_DIR as modules that compile against the harness's own runtime.
//!
//! Nothing of it is rewritten: from the items named as roots everything they name is followed through the runtime's
//! own sources (structs and their impls, functions, constants, parameters) and copied with the file's imports.
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use syn::{parse::Parse, parse::ParseStream, Attribute, Item, Type, UseTree};

const SRC: &str = "/repo/runtimes/polimec/src";

struct Param {
    attrs: Vec<Attribute>,
    tokens: TokenStream,
    name: String,
}
struct Params(Vec<Param>);
impl Parse for Params {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !i.is_empty() {
            let attrs = i.call(Attribute::parse_outer)?;
            let mut t = TokenStream::new();
            let mut name = String::new();
            let mut colon = false;
            loop {
                let tt: TokenTree = i.parse()?;
                if let TokenTree::Punct(p) = &tt {
                    if p.as_char() == ';' {
                        break;
                    }
                    if p.as_char() == ':' {
                        colon = true;
                    }
                }
                if let (TokenTree::Ident(x), false) = (&tt, colon) {
                    name = x.to_string();
                }
                t.extend([tt]);
            }
            v.push(Param { attrs, tokens: t, name });
        }
        Ok(Params(v))
    }
}
/// false if the item is left out of a node's ordinary build
fn on(attrs: &[Attribute]) -> bool {
    !attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t.starts_with("#[cfg(") && !t.contains("cfg(not(") && !t.contains("feature=\"std\"")
    })
}
fn strip(attrs: &mut Vec<Attribute>) {
    attrs.retain(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        !t.starts_with("#[cfg(") && !t.starts_with("#[doc") && !t.starts_with("#[benchmark")
    });
}
struct Entry {
    tokens: TokenStream,
    file: usize,
}
#[derive(Default)]
struct Pool {
    /// by the name it defines
    by: BTreeMap<String, Vec<Entry>>,
    /// impls: (trait or "", self type)
    impls: Vec<(String, String, Entry)>,
    uses: Vec<(Vec<String>, String, bool, usize)>,
    pallets: Vec<String>,
    mods: BTreeSet<String>,
}
fn last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}
fn flat(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String, bool)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flat(&p.tree, pre, out);
            pre.pop();
        },
        UseTree::Name(n) => {
            let n = n.ident.to_string();
            if n == "self" {
                out.push((pre.clone(), pre.last().cloned().unwrap_or_default(), false));
            } else {
                let mut p = pre.clone();
                p.push(n.clone());
                out.push((p, n, false));
            }
        },
        UseTree::Rename(r) => {
            let mut p = pre.clone();
            if r.ident != "self" {
                p.push(r.ident.to_string());
            }
            out.push((p, r.rename.to_string(), false));
        },
        UseTree::Glob(_) => out.push((pre.clone(), "*".into(), true)),
        UseTree::Group(g) => g.items.iter().for_each(|t| flat(t, pre, out)),
    }
}
fn add(pool: &mut Pool, items: Vec<Item>, file: usize) {
    for mut it in items {
        macro_rules! named {
            ($x:ident, $n:expr) => {{
                if !on(&$x.attrs) {
                    continue;
                }
                strip(&mut $x.attrs);
                let n = $n;
                pool.by.entry(n).or_default().push(Entry { tokens: quote!(#$x), file });
            }};
        }
        match &mut it {
            Item::Struct(x) => named!(x, x.ident.to_string()),
            Item::Enum(x) => named!(x, x.ident.to_string()),
            Item::Const(x) => named!(x, x.ident.to_string()),
            Item::Static(x) => named!(x, x.ident.to_string()),
            Item::Type(x) => named!(x, x.ident.to_string()),
            Item::Trait(x) => named!(x, x.ident.to_string()),
            Item::Fn(x) => named!(x, x.sig.ident.to_string()),
            Item::Impl(x) => {
                if !on(&x.attrs) {
                    continue;
                }
                strip(&mut x.attrs);
                for i in std::mem::take(&mut x.items) {
                    let mut i = i;
                    let ok = match &mut i {
                        syn::ImplItem::Type(t) => (on(&t.attrs), strip(&mut t.attrs)).0,
                        syn::ImplItem::Fn(t) => (on(&t.attrs), strip(&mut t.attrs)).0,
                        syn::ImplItem::Const(t) => (on(&t.attrs), strip(&mut t.attrs)).0,
                        _ => true,
                    };
                    if ok {
                        x.items.push(i);
                    }
                }
                let tr = x
                    .trait_
                    .as_ref()
                    .map(|(_, p, _)| p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"))
                    .unwrap_or_default();
                pool.impls.push((tr, last(&x.self_ty), Entry { tokens: quote!(#x), file }));
            },
            Item::Mod(m) if m.content.is_none() => {
                pool.mods.insert(m.ident.to_string());
            },
            Item::Use(x) => {
                if !on(&x.attrs) {
                    continue;
                }
                let mut v = vec![];
                flat(&x.tree, &mut vec![], &mut v);
                for (p, n, g) in v {
                    pool.uses.push((p, n, g, file));
                }
            },
            Item::Macro(m) => {
                let mac = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if mac == "parameter_types" || mac == "ord_parameter_types" {
                    if !on(&m.attrs) {
                        continue;
                    }
                    let mc = syn::Ident::new(&mac, proc_macro2::Span::call_site());
                    if let Ok(ps) = syn::parse2::<Params>(m.mac.tokens.clone()) {
                        for p in ps.0 {
                            if on(&p.attrs) {
                                let t = p.tokens;
                                pool.by
                                    .entry(p.name)
                                    .or_default()
                                    .push(Entry { tokens: quote!(::frame_support::#mc! { #t; }), file });
                            }
                        }
                    }
                } else if mac == "construct_runtime" {
                    // names like `Utility: pallet_utility = 5`
                    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let body = t.iter().rev().find_map(|t| match t {
                        TokenTree::Group(g) => Some(g.stream()),
                        _ => None,
                    });
                    let t: Vec<TokenTree> = body.unwrap_or_default().into_iter().collect();
                    for i in 0..t.len().saturating_sub(2) {
                        let start = i == 0 || matches!(&t[i - 1], TokenTree::Punct(p) if p.as_char() == ',');
                        let single = matches!(&t[i + 1], TokenTree::Punct(p) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Alone);
                        if let (TokenTree::Ident(a), TokenTree::Ident(b), true, true) = (&t[i], &t[i + 2], start, single) {
                            pool.pallets.push(format!("{a}:{b}"));
                        }
                    }
                }
            },
            _ => {},
        }
    }
}
fn idents(t: &TokenStream, out: &mut BTreeSet<String>) {
    for tt in t.clone() {
        match tt {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            },
            TokenTree::Group(g) => idents(&g.stream(), out),
            _ => {},
        }
    }
}
/// names an item uses, without those that only follow a `::` of another crate's path
fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if p.is_dir() {
            if n != "weights" && n != "custom_migrations" {
                walk(&p, out);
            }
        } else if n.ends_with(".rs") && n != "benchmark_helpers.rs" {
            out.push(p);
        }
    }
}
/// `roots`: names, or "trait@self" for an impl. `given`: names the harness provides.
fn module(pool: &Pool, name: &str, file: Option<usize>, roots: &[&str], given: &[&str], prelude: &str) {
    let given: BTreeSet<&str> = given.iter().copied().collect();
    // a name defined more than once: the one of the file in question wins
    let imports = |f: usize, n: &str| {
        pool.uses.iter().any(|(p, m, glob, g)| {
            *g == f && (*glob || m == n) && p.first().is_some_and(|s| s == "super" || s == "crate" || s == "self" || pool.mods.contains(s))
        })
    };
    let pick = |n: &str, from: Option<usize>| -> Option<&Entry> {
        let v = pool.by.get(n)?;
        let f = from.or(file);
        f.and_then(|f| v.iter().find(|e| e.file == f)).or_else(|| v.iter().find(|_| f.map_or(true, |f| from.is_none() || imports(f, n))))
    };
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut tokens: Vec<TokenStream> = vec![];
    let mut files: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<(String, Option<usize>)> = roots.iter().map(|r| (r.to_string(), None)).collect();
    while let Some((n, from)) = todo.pop() {
        if !done.insert(n.clone()) {
            continue;
        }
        let mut new: Vec<(&TokenStream, usize)> = vec![];
        if let Some((t, s)) = n.split_once('@') {
            let found: Vec<_> = pool.impls.iter().filter(|(a, b, _)| a == t && b == s).collect();
            if found.is_empty() {
                println!("cargo:warning=the runtime has no impl of {t} for {s}");
            }
            new.extend(found.iter().map(|x| (&x.2.tokens, x.2.file)));
        } else if let Some(e) = pick(&n, from) {
            new.push((&e.tokens, e.file));
            for (t, s, e) in &pool.impls {
                if *s == n && done.insert(format!("{t}@{s}#{}", e.tokens)) {
                    new.push((&e.tokens, e.file));
                }
            }
        } else {
            if from.is_none() {
                println!("cargo:warning=the runtime does not define {n}");
            }
            done.remove(&n);
        }
        for (t, f) in new {
            tokens.push(t.clone());
            files.insert(f);
            let mut ids = BTreeSet::new();
            idents(t, &mut ids);
            for i in ids {
                if !given.contains(i.as_str()) && pool.by.contains_key(&i) && !done.contains(&i) {
                    todo.push((i, Some(f)));
                }
            }
        }
    }
    let mut used = BTreeSet::new();
    tokens.iter().for_each(|t| idents(t, &mut used));
    let defined: BTreeSet<&String> = done.iter().filter(|n| pool.by.contains_key(*n)).collect();
    const WHOLE: &[&str] = &[
        "frame_support", "frame_system", "sp_runtime", "sp_std", "core", "sp_core", "sp_arithmetic", "polimec_common",
        "shared_configuration",
    ];
    const SOME: &[&str] = &[
        "xcm", "xcm_builder", "xcm_executor", "parachains_common", "pallet_democracy", "pallet_parachain_staking",
        "pallet_balances", "parity_scale_codec", "scale_info", "std", "alloc", "log",
    ];
    // crates of which the harness has its own version
    const MINE: &[&str] = &[
        "pallet_funding", "pallet_xcm", "cumulus_primitives_core", "cumulus_primitives_utility", "cumulus_pallet_xcm",
        "polkadot_runtime_common", "polkadot_parachain_primitives", "assets_common", "pallet_collective",
    ];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut text = String::new();
    for (p, n, glob, f) in &pool.uses {
        if !files.contains(f) || p.is_empty() {
            continue;
        }
        let first = p[0].as_str();
        let whole = WHOLE.contains(&first);
        let mine = name != "gates" && MINE.contains(&first);
        let ok = whole || ((SOME.contains(&first) || mine) && (*glob || used.contains(n) || (first.starts_with("xcm") && !first.ends_with("_runtime_api") && first != "xcm")));
        if !ok || given.contains(n.as_str()) || defined.contains(n) || (!*glob && !seen.insert(n.clone())) {
            continue;
        }
        if p.iter().any(|s| s == "test" || s == "genesis_builder_helper") {
            continue;
        }
        let root = if mine { "crate::stubs::" } else { "::" };
        let path = p.join("::");
        let path = if mine || first != "std" { format!("{root}{path}") } else { format!("::{path}") };
        if *glob {
            if seen.insert(format!("*{path}")) {
                text += &format!("#[allow(unused_imports)] use {path}::*;\n");
            }
        } else if p.last().map(|s| s == n).unwrap_or(false) {
            text += &format!("#[allow(unused_imports)] use {path};\n");
        } else {
            text += &format!("#[allow(unused_imports)] use {path} as {n};\n");
        }
    }
    for m in MINE {
        if name != "gates" && !seen.contains(*m) {
            text += &format!("#[allow(unused_imports)] use crate::stubs::{m};\n");
        }
    }
    // helper modules of the runtime: their items are in this module
    for m in &pool.mods {
        if !["xcm_config", "weights", "custom_migrations", "benchmark_helpers", "tests"].contains(&m.as_str()) {
            text += &format!("#[allow(unused_imports)] mod {m} {{ pub use super::*; }}\n");
        }
    }
    text += prelude;
    for t in tokens {
        text += &t.to_string();
        text.push('\n');
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/{name}.rs"), text).unwrap();
}
/// the calls of a pallet of the repository: the functions with a call index
fn calls(file: &str) -> Vec<String> {
    fn inner(items: &[Item], out: &mut Vec<String>) {
        for i in items {
            match i {
                Item::Mod(m) => {
                    if let Some((_, i)) = &m.content {
                        inner(i, out)
                    }
                },
                Item::Impl(x) if x.attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("pallet::call")) => {
                    for i in &x.items {
                        if let syn::ImplItem::Fn(f) = i {
                            if matches!(f.vis, syn::Visibility::Public(_)) {
                                out.push(f.sig.ident.to_string());
                            }
                        }
                    }
                },
                _ => {},
            }
        }
    }
    let mut v = vec![];
    if let Ok(f) = std::fs::read_to_string(file).map_err(|_| ()).and_then(|t| syn::parse_file(&t).map_err(|_| ())) {
        inner(&f.items, &mut v);
    }
    v
}
fn main() {
    println!("cargo:rerun-if-changed={SRC}");
    println!("cargo:rerun-if-changed=/repo/pallets");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=src/calls.txt");
    let mut files = vec![];
    walk(Path::new(SRC), &mut files);
    let mut pool = Pool::default();
    let (mut lib, mut xcm) = (None, None);
    for (i, f) in files.iter().enumerate() {
        let text = std::fs::read_to_string(f).unwrap();
        let parsed = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {e}", f.display()));
        if f.ends_with("src/lib.rs") {
            lib = Some(i);
        }
        if f.ends_with("xcm_config.rs") {
            xcm = Some(i);
        }
        add(&mut pool, parsed.items, i);
    }

    // the calls: of the repository's pallets as they are, of the others as listed
    let mut known: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in std::fs::read_to_string("src/calls.txt").unwrap().lines() {
        if let Some((p, c)) = l.split_once(':') {
            known.insert(p.trim().into(), c.split_whitespace().map(String::from).collect());
        }
    }
    for (p, d) in [
        ("pallet_funding", "funding"),
        ("pallet_democracy", "democracy"),
        ("pallet_elections_phragmen", "elections-phragmen"),
        ("pallet_parachain_staking", "parachain-staking"),
        ("pallet_linear_release", "linear-release"),
        ("pallet_proxy_bonding", "proxy-bonding"),
        ("pallet_dispenser", "dispenser"),
        ("pallet_oracle_ocw", "oracle-ocw"),
    ] {
        let v = calls(&format!("/repo/pallets/{d}/src/lib.rs"));
        if !v.is_empty() {
            known.insert(p.into(), v);
        }
    }
    let mut mods: BTreeSet<String> = pool.pallets.iter().map(|p| p.split_once(':').unwrap().1.to_string()).collect();
    mods.extend(known.keys().cloned());
    let mut t = String::new();
    for m in &mods {
        let none = vec!["other".to_string()];
        let c = known.get(m).filter(|v| !v.is_empty()).unwrap_or(&none);
        t += &format!("pub mod {m} {{\n    #[allow(non_camel_case_types)]\n    #[derive(Clone, Copy, Debug, PartialEq, Eq)]\n    pub enum Call {{ ");
        t += &c.iter().map(|c| format!("{c} {{}}")).collect::<Vec<_>>().join(", ");
        t += &format!(" }}\n    pub const ALL: &[(&str, Call)] = &[{}];\n}}\n", c.iter().map(|c| format!("(\"{c}\", Call::{c} {{}})")).collect::<Vec<_>>().join(", "));
    }
    t += "#[derive(Clone, Copy, Debug, PartialEq, Eq)]\npub enum RuntimeCall {\n";
    for p in &pool.pallets {
        let (a, b) = p.split_once(':').unwrap();
        t += &format!("    {a}({b}::Call),\n");
    }
    t += "}\npub fn all() -> Vec<(&'static str, &'static str, RuntimeCall)> {\n    let mut v = vec![];\n";
    for p in &pool.pallets {
        let (a, b) = p.split_once(':').unwrap();
        t += &format!("    v.extend({b}::ALL.iter().map(|(n, c)| (\"{a}\", *n, RuntimeCall::{a}(*c))));\n");
    }
    t += "    v\n}\n";
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/calls.rs"), t).unwrap();

    let frame = [
        "Runtime", "RuntimeCall", "RuntimeEvent", "RuntimeOrigin", "RuntimeHoldReason", "RuntimeFreezeReason", "OriginCaller",
        "Balances", "ForeignAssets", "System", "ParachainStaking", "Treasury", "Oracle", "PalletInfo", "Block", "AccountId",
        "Balance", "AssetId", "Version", "VERSION", "weights", "opaque", "migrations", "Nonce", "Hash", "Signature",
    ];
    module(
        &pool,
        "gates",
        lib,
        &["BaseCallFilter", "InstanceFilter@Type"],
        &["RuntimeCall", "Runtime", "Type", "Balance", "AccountId"],
        "#[allow(unused_imports)] use crate::gates::calls::*;\n",
    );
    module(
        &pool,
        "fees",
        lib,
        &[
            "pallet_transaction_payment::Config@Runtime",
            "pallet_asset_tx_payment::Config@Runtime",
            "pallet_balances::Config@Runtime",
            "pallet_parachain_staking::Config@Runtime",
            "Electorate",
            "ToTreasury",
            "EqualOrGreatestRootCmp",
            "ConvertMultilocationToAssetId",
            "PLMCToFundingAssetBalance",
            "ForeignAssetsInstance",
        ],
        &frame.iter().copied().filter(|n| *n != "ForeignAssetsInstance").collect::<Vec<_>>(),
        "#[allow(unused_imports)] use crate::rt::prelude::*;\n",
    );
    module(
        &pool,
        "xcms",
        xcm,
        &["XcmConfig", "pallet_xcm::Config@Runtime", "SupportedAssets", "AssetHubAssetsAsReserve", "Barrier"],
        &[
            "Runtime", "RuntimeCall", "RuntimeEvent", "RuntimeOrigin", "Balances", "ForeignAssets", "ContributionTokens",
            "Funding", "ParachainInfo", "ParachainSystem", "PolkadotXcm", "ToTreasury", "TreasuryAccount", "Balance",
            "AccountId", "AllPalletsWithSystem", "EnsureRoot", "WeightToFee", "XcmRouter", "XcmWeightInfo",
        ],
        "#[allow(unused_imports)] use crate::xrt::prelude::*;\n",
    );
    module(
        &pool,
        "govs",
        lib,
        &[
            "pallet_treasury::Config@Runtime",
            "pallet_democracy::Config@Runtime",
            "pallet_scheduler::Config@Runtime",
            "pallet_preimage::Config@Runtime",
            "pallet_collective::Config@Runtime",
            "pallet_membership::Config@Runtime",
            "pallet_elections_phragmen::Config@Runtime",
            "pallet_identity::Config@Runtime",
            "pallet_dispenser::Config@Runtime",
            "pallet_parachain_staking::Config@Runtime",
            "pallet_assets::Config@Runtime",
            "pallet_proxy_bonding::Config@Runtime",
        ],
        &[
            "Runtime", "RuntimeCall", "RuntimeEvent", "RuntimeOrigin", "RuntimeHoldReason", "RuntimeFreezeReason", "OriginCaller",
            "Balances", "ForeignAssets", "System", "ParachainStaking", "Treasury", "Oracle", "PalletInfo", "Block", "AccountId",
            "Balance", "AssetId", "weights", "Nonce", "Hash", "Signature", "Preimage", "Scheduler", "Vesting", "Council",
            "OracleProvidersMembership", "CurrencyToVote", "pallet_parachain_staking", "pallet_democracy", "pallet_assets",
            "pallet_treasury", "pallet_scheduler", "pallet_preimage", "pallet_membership", "pallet_elections_phragmen",
            "pallet_identity", "pallet_dispenser", "pallet_proxy_bonding",
        ],
        "#[allow(unused_imports)] use crate::gov::prelude::*;\n",
    );
}
