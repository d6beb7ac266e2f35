R = "pallets/polimec-receiver/src/lib.rs"
PROPS = [
 dict(id="R01", title="The receiver executes every migration Polimec sends exactly once, vested",
   statement="Only Polimec's own parachain origin can execute migrations, and the call is what Polimec's funding pallet encodes. Every migration of a batch not executed before, by user, participation type and id, moves exactly its tokens from Polimec's sovereign account to the user's account and locks them for exactly its vesting time; one executed before is skipped and reported, whatever its amount. A batch is executed in full or, if any part of it cannot be, changes nothing.",
   over=["histories", "inputs"], text="every history of batches with repeats, all origins, locations, amounts and vesting times, with transfers and vesting in between", why="there are no tests of the pallet",
   files=[R], mechanism=[("execute_migrations", R)], state=[("ExecutedMigrations", "migrations that were executed", R)], observe=["ExecutedMigrations", "balances, locks, vesting schedules", "events"],
   technique="stateful property-based testing: random histories of encoded calls on the real pallet compared with a model of migrations, balances, locks and schedules; shrunk to a minimal history",
   note="15,000 sampled histories per quick run over five users; no proof. The origin pallet of cumulus and the XCM types are stand-ins; trusts pallet-balances and pallet-vesting."),
]
