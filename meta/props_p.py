F = "pallets/proxy-bonding/src/functions.rs"
L = "pallets/proxy-bonding/src/lib.rs"
C = "polimec-common/common/src/lib.rs"
K = "polimec-common/common/src/credentials/mod.rs"
N = "Sampled histories (24,000 per quick run), four users, three fee assets of different decimals and minimum balances, five paths, two hold reasons; no proof. pallet-assets is a stand-in written from the documented behaviour of the upstream pallet, which is not available offline; trusts pallet-balances."
def p(id, title, statement, text, why, oracle, mech, files=(F, L), over=("histories", "inputs"), note=N, tech="stateful property-based testing: random histories on the real pallet, ", observe=("Releases", "balances and holds of treasury, sub-accounts and users", "fee assets"), state=True):
    d = dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files), mechanism=mech, observe=list(observe), technique=tech + oracle, note=note)
    if state:
        d["state"] = [("Releases", "when the bonds of a sub-account may be released, per path and hold reason", L)]
    return d
PROPS = [
 p("P01", "A bond on behalf of a user takes the fee once and locks treasury tokens exactly",
   "A successful bond moves exactly the computed fee from the user to the sub-account of the path, puts exactly the bond amount from the treasury on hold there under the reason, and tops the sub-account up with one existential deposit from the treasury only if it has less; nothing else changes. The user's fee account is never reaped by it. With a price, funds for the fee and funds in the treasury it is not refused; without a price it is.",
   "every amount, price, decimals, fee percentage, fee asset, path, reason and history of bonds, releases and refunds", "the tests bond round amounts once or twice at a price of one",
   "compared with a model of all balances and holds after every operation", [("bond_on_behalf_of", F)]),
 p("P02", "The bonding fee is the percentage of the bond's value, in the fee asset",
   "The fee for a bond is the fee percentage of the value of the bond at the current prices, in units of the fee asset, up to rounding of the last unit of dollars and of the asset, whatever the decimals of both tokens. It is zero for a zero bond, does not fall when the bond or the token price grows, and there is none without both prices. Different paths have different sub-accounts, none of them the root account.",
   "every amount, price, decimals and percentage", "the tests compute three fees",
   "against exact rational arithmetic", [("calculate_fee, get_bonding_account", F)], over=("inputs",), tech="property-based testing ", observe=("calculate_fee",), state=False),
 p("P03", "Bonds return to the treasury exactly, and only once they may",
   "Transferring bonds back succeeds for anyone, but only when the release of that path and reason is set to refunded or to a block that has come. It then moves exactly what that sub-account has on hold under that reason to the treasury, whatever else is held there under other reasons or paths, and leaves the fees alone.",
   "every history of bonds and releases over several paths and reasons, every block", "the tests release one bond",
   "compared with a model of all balances and holds after every operation", [("transfer_bonds_back_to_treasury", L), ("set_release_type", F)]),
 p("P04", "Bonding fees go to the recipient when locked, or back to the payers",
   "When the release is locked, anyone can send all fees of an asset from the sub-account to the fee recipient, and nobody can when it is to be refunded or not set. A refund returns to the user exactly the fee the user paid for that bond and nothing of anyone else's, and is not refused while the fee is there.",
   "every history of bonds, refunds, collections and price changes", "the tests refund one fee with prices unchanged and round amounts",
   "compared with a model of all balances and holds after every operation", [("transfer_fees_to_recipient", L), ("refund_fee", F)]),
 p("C01", "Decimals-aware prices are exact and convert back",
   "The decimals-aware price is the asset's price, cut to whole units of USD, times the ratio of the units, rounded down; there is one whenever it is representable, and none without a price. Multiplying an amount of smallest units with it gives its value in smallest units of USD, and converting it back gives the original price up to what was cut, exactly if nothing was.",
   "every price and every combination of decimals", "the tests convert a handful of prices", "against exact integer arithmetic, with a round trip",
   [("ProvideAssetPrice", C)], files=(C,), over=("inputs",), tech="property-based testing ", observe=("calculate_decimals_aware_price", "convert_back_to_normal_price"), state=False,
   note="Hundreds of thousands of prices per run, log-uniform to the limits of the type; no proof."),
 p("C02", "Lists of migrations keep and sum exactly what was put in",
   "The total of contribution tokens, the longest vesting time, the origins and the infos of a list of migrations are those of its elements in order, however it was built, and survive encoding. Origins order by kind of participation (evaluation, bid, contribution), then by id.",
   "every list of migrations", "the tests build one list", "against the plain list",
   [("Migrations, MigrationOrigin", C)], files=(C,), over=("inputs",), tech="property-based testing ", observe=("Migrations",), state=False, note="Tens of thousands of lists of up to twelve migrations per run; no proof."),
 p("C03", "A credential is accepted only signed, unexpired and for its own account",
   "An origin with a token is accepted exactly if the origin is signed by the account the token names, the token carries the verifier's signature over exactly its content, has an expiry, and the current time is not past it. The DID, investor type and CID handed on are those of the token. A token altered in any byte, signed by another key, or used by another account is refused.",
   "every token, tampering, key, account and time, around the expiry to the millisecond", "the tests use two tokens that never expire during the test", "with every single reason for refusal generated on its own",
   [("EnsureInvestor::try_origin, verify_token", K)], files=(K,), over=("inputs",), tech="property-based testing ", observe=("EnsureInvestor::try_origin", "ensure_origin"), state=False,
   note="Thousands of tokens per run, really signed (ed25519-dalek). The token crate itself (jwt-compact fork) is a stand-in; the decision on subject, expiry and key is the repository's code."),
]
