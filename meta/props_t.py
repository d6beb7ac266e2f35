L = "pallets/dispenser/src/lib.rs"
X = "pallets/dispenser/src/extensions.rs"
N = "Tens of thousands of histories per run over five users and five DIDs; no proof. pallet-timestamp and the token crate are stand-ins (signatures are real, ed25519-dalek); trusts pallet-balances and pallet-vesting."
PROPS = [
 dict(id="T01", title="The dispenser serves every DID at most once, with the exact amount, locked",
   statement="A dispense succeeds only with a valid credential of the caller for the whitelisted policy whose DID was never served before, by whatever account, and never from more than the dispenser has; it is free of fees exactly when the credential is valid and the DID not served. It pays exactly the current amount, of which only the free part is usable: the rest is locked in full for the lock period and then released evenly over the vesting period. Only the admin changes the amount, and only to more than the free part; anything refused changes nothing.",
   over=["histories", "inputs"], text="every history of dispenses, other schedules, transfers and amount changes, every credential and every block", why="the tests dispense once or twice with one amount and one schedule",
   files=[L], mechanism=[("dispense, set_dispense_amount", L)], state=[("Dispensed", "DIDs that were served", L), ("DispenseAmount", "amount paid per DID", L)], observe=["Dispensed", "DispenseAmount", "balances, locks, vesting schedules"],
   technique="stateful property-based testing: random histories on the real pallet compared with a model of DIDs, balances, locks and schedules; shrunk to a minimal history", note=N),
 dict(id="T02", title="The nonce check stops replays and lets new accounts only dispense",
   statement="A transaction validates only with a nonce not below the account's, is dispatched only with exactly the account's nonce, and dispatching raises it by one and changes nothing else, so no transaction is dispatched twice. An account that does not exist yet can only dispense; any other call of it is refused as unpayable. The tags order transactions of an account by nonce without gaps.",
   over=["histories", "inputs"], text="every account state, nonce and call, in every order", why="there are no tests of the extension",
   files=[X], mechanism=[("CheckNonce::validate, pre_dispatch", X)], observe=["frame_system Account", "transaction validity"],
   technique="stateful property-based testing: random sequences of validations, dispatches and account changes against the stated rules; shrunk", note=N),
]
