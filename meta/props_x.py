L = "runtimes/polimec/src/lib.rs"
M = "runtimes/polimec/src/xcm_config.rs"
F = "runtimes/shared-configuration/src/fee.rs"
A = "runtimes/shared-configuration/src/assets.rs"
C = "runtimes/shared-configuration/src/currency.rs"
X = "runtimes/shared-configuration/src/proxy.rs"
WHY = "the runtime has no unit tests and the integration tests sample a few messages and fees"
TR = "The configuration is taken out of the runtime's sources at build time and compiled for a runtime of fewer pallets; "
PROPS = [
 dict(id="X01", title="A fee in DOT, USDC or USDT costs its worth and goes to treasury and author",
   statement="A fee of PLMC paid in an accepted asset costs its worth at the oracle's prices (at least one unit), is refused without effect if the location is no accepted asset, a price is missing or the payer cannot keep the asset's minimum, and never more is kept than was withdrawn. What the transaction did not need returns to the payer, the fee goes to the operations treasury and the tip to the block author, and nothing else moves.",
   over=["inputs", "histories"], text="every fee, correction, tip, price, asset, balance, author and location", why=WHY,
   files=[F, L, A], mechanism=[("TxFeeFungiblesAdapter", F), ("PLMCToFundingAssetBalance, ConvertMultilocationToAssetId", L), ("OraclePriceProvider", A)], observe=["asset balances and supply", "amounts returned"],
   technique="property-based testing: generated fees, prices and balances; the real adapter compared with exact integer arithmetic and a model of balances; shrunk",
   note="20,000 sampled cases per quick run; no proof. " + TR + "pallet-assets and the payment pallets are stand-ins with their upstream behaviour."),
 dict(id="X02", title="PLMC fees and dust go to operations, tips to the author, slashes to Treasury",
   statement="Of every PLMC fee exactly the corrected amount is kept: all but the tip goes to the operations treasury and the tip to the block's author. The dust of an account that dies goes to the operations treasury, a slash or forfeited bond to the Treasury. Nothing is minted, and only what no existing account can take is burned.",
   over=["histories"], text="every history of fees, tips, transfers that leave dust and slashes, with any author", why=WHY,
   files=[F, L], mechanism=[("DealWithFees, ToStakingPot, ToAuthor", F), ("DustRemovalAdapter, ToTreasury", L)], observe=["balances", "total issuance"],
   technique="stateful property-based testing: random histories on the real pallet-balances with the runtime's handlers, compared with a model of balances; shrunk",
   note="20,000 sampled histories per quick run; no proof. " + TR + "FungibleAdapter is a stand-in with its upstream behaviour."),
 dict(id="X03", title="A proxy never makes its principal do what its type does not admit",
   statement="An account that was given a proxy of some type makes its principal execute only the calls that type is meant for: everything for Any, no transfer of value for NonTransfer, governance, staking or judgements for the others. That holds for whatever sequence of calls it uses, including adding proxies of other types. Nobody can make calls of the funding pallet other than the public ones.",
   over=["programs", "histories"], text="every type, every call of every pallet and every sequence of proxies handed on", why="nothing tests the filters",
   files=[L, X], mechanism=[("InstanceFilter for Type: filter, is_superset", L), ("BaseCallFilter", L)], observe=["the decision to dispatch a call"],
   technique="model-based property testing: random chains of proxied calls under pallet-proxy's rule, each decision compared with a table of what a type is meant for; shrunk",
   note="200,000 sampled chains per quick run over all calls; no proof. The calls of the repository's own pallets are read from their sources, those of other pallets from a list; pallet-proxy's rule is modelled. " + TR),
 dict(id="X04", title="Only Asset Hub is trusted, only for DOT, USDC and USDT; no teleports",
   statement="An asset is believed to be reserved elsewhere only if it is DOT, USDC or USDT and the message comes from Asset Hub. A user can send only those back to their reserve; nothing is teleported, no message is executed locally and no call is made for another chain. An asset has one local id, the same wherever it is named.",
   over=["inputs"], text="every asset, origin and collection of assets", why=WHY,
   files=[M, L], mechanism=[("SupportedAssets, AssetHubAssetsAsReserve", M), ("XcmConfig, pallet_xcm::Config", M), ("ConvertMultilocationToAssetId", L)], observe=["the filters' answers", "ids and locations of assets"],
   technique="property-based testing: generated locations, assets and origins against an explicit table; round trip of ids and locations; shrunk",
   note="400,000 sampled cases per quick run; no proof. " + TR + "the XCM crates are stand-ins."),
 dict(id="X05", title="Only messages that are paid for or come from a trusted place are executed",
   statement="A message from another chain is executed only if its weight is covered by credit, it buys its whole weight at once, it is a single awaited response, it asks for unpaid execution and comes from the relay chain, its executive or Asset Hub, it is a single channel notification of the relay chain, or a single (un)subscription of the relay chain or a sibling. One that moves a reserve to the relay chain is never executed.",
   over=["inputs"], text="every message, origin, weight, credit and set of awaited responses", why=WHY,
   files=[M], mechanism=[("Barrier, AllowHrmpNotifications", M)], observe=["the barrier's verdict", "the weight bought and the credit left"],
   technique="property-based testing: generated messages against an independent judge of who may have what executed; shrunk",
   note="1,000,000 sampled messages per quick run; no proof. " + TR + "the upstream barriers are stand-ins with their upstream behaviour; messages that claim an origin of another consensus system are left out (nobody may)."),
 dict(id="X06", title="Fees follow the scarcer resource, in proportion and never less for more",
   statement="A weight costs 0.0001 PLMC per weight of an empty extrinsic or 0.01 PLMC per 10 kB of proof, whichever is more, up to rounding, and a byte of the extrinsic 0.00001 PLMC. More weight never costs less.",
   over=["inputs"], text="every weight and length", why=WHY,
   files=[F, L, C], mechanism=[("WeightToFee, RefTimeToFee, ProofSizeToFee", F), ("LengthToFee", L)], observe=["the fee"],
   technique="property-based testing: generated weights against exact rational arithmetic, and monotonicity; shrunk",
   note="1,000,000 sampled weights per quick run; no proof. " + TR),
 dict(id="X07", title="The electorate is all PLMC but what the two treasuries have",
   statement="The number of votes a referendum counts against is, at any time, the total issuance without what the Treasury and the operations treasury hold.",
   over=["histories"], text="every history of fees, tips, transfers, dust and slashes", why=WHY,
   files=[L], mechanism=[("Electorate", L)], observe=["the electorate", "balances and issuance"],
   technique="stateful property-based testing: random histories on the real pallet-balances, the electorate compared with a model of balances; shrunk",
   note="20,000 sampled histories per quick run; no proof. " + TR),
 dict(id="X08", title="Execution is sold for PLMC, DOT, USDC or USDT at the set rates",
   statement="Weight for a message is sold for one of PLMC (at the fee of an extrinsic), DOT (0.2 per second and per MB), USDC or USDT (1 per second and per MB) and for nothing else; what was offered beyond the price stays with the buyer. Weight given back is refunded at no more than its price, and the Treasury is given all that was paid and not refunded.",
   over=["histories", "inputs"], text="every sequence of purchases and refunds and every collection of assets offered", why=WHY,
   files=[M, F], mechanism=[("XcmConfig::Trader", M), ("DotTraderParams, UsdcTraderParams, UsdtTraderParams, TakeRevenueToTreasury", M)], observe=["assets left with the buyer", "refunds", "revenue"],
   technique="model-based property testing: generated purchases and refunds through the runtime's traders against a table of rates and a ledger; shrunk",
   note="300,000 sampled sequences per quick run; no proof. " + TR + "the traders themselves are stand-ins with their upstream behaviour."),
 dict(id="X09", title="Powers need the stated share of council or committee, or root",
   statement="Every privileged act is open to exactly those meant: scheduling, blacklisting, membership and asset administration to root alone; external proposals, cancelling a referendum and spending to the council with 1/2, 3/5, 2/3 or all of its votes as stated; fast-tracking (3/5), tabling at once (all) and vetoes (any member) to the technical committee; the dispenser to its admin; usernames and direct spending to nobody. A share of one body counts nothing for the other, and an act is done in the name of who asked. What one origin scheduled only that origin and root can change.",
   over=["inputs", "configurations"], text="every origin: root, none, any signer, and any number of votes or member of either body, of any size", why=WHY,
   files=[L], mechanism=[("pallet_democracy::Config, pallet_treasury::Config, pallet_membership::Config, pallet_assets::Config for Runtime", L), ("EqualOrGreatestRootCmp", L)], observe=["whether an origin is admitted and as whom"],
   technique="property-based testing: generated origins, with shares just met and just missed, against a table of powers; shrunk",
   note="400,000 sampled sequences per quick run; no proof. " + TR + "pallet-collective's origins are stand-ins with their upstream behaviour. Which power fast-tracks is taken from the code (3/5; a comment there says two thirds)."),
]
