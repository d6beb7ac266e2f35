L = "pallets/oracle-ocw/src/lib.rs"
T = "pallets/oracle-ocw/src/traits.rs"
Y = "pallets/oracle-ocw/src/types.rs"
N = "The node is ours (exchanges answering by URL, virtual clock, storage, keystore, pool); serde-json-core, heapless, substrate-fixed and orml-oracle are stand-ins (no network); no proof."
PROPS = [
 dict(id="O01", title="Fed prices are volume weighted averages of the valid answers",
   statement="The price the worker feeds for an asset is the sum over the exchanges' valid answers of volume times the mean of high, low and close, divided by the sum of the volumes, to the precision of the numbers; assets without traded volume in any valid answer are left out. An answer counts only if it came in time with status 200, is well formed and has the candles its exchange must give (of longer lists the newest), read from the fields of that exchange.",
   over=["inputs"], text="every combination of answers of six exchanges for four assets: prices, volumes, numbers of rows, malformed rows, statuses, delays, failures", why="one test has one set of usual answers; the others need the network",
   files=[L, T, Y], mechanism=[("get_moving_average", T), ("parse_body", Y), ("fetch_prices, combine_prices", L)], state=[], observe=["the submitted feed_values call"],
   technique="property-based testing: random answers rendered in each exchange's format, the submitted prices compared with an independent computation; shrunk",
   note="6,000 random sets of answers per quick run. " + N),
 dict(id="O02", title="Each price is fed once per window, by a member, until it is accepted",
   statement="A node with a key of a member, and no other, fetches prices in every window of the interval for the assets it has not fed in that window, at each block until the pool takes the transaction, and then not again in that window. It does so only while no other run holds the lock, which it gives back and which expires. The transaction is signed with a key that belongs to a member, whatever other keys the node has.",
   over=["histories", "schedules", "fault_sequences"], text="every history of blocks (skipped, repeated, going back), available exchanges, full pools, foreign locks, changes of members, sets of keys, records left by older versions, intervals and windows", why="the test runs six blocks with one key and everything available",
   files=[L], mechanism=[("offchain_worker", L), ("send_signed_transaction", L)], state=[("oracle_ocw::last_send", "block at which each asset was last fed", L), ("oracle_ocw::lock", "a run is going on", L)], observe=["requests", "transactions and who signed them", "the lock"],
   technique="stateful property-based testing: random histories of blocks, faults and members on the real worker compared with a model of the schedule; shrunk to a minimal history",
   note="6,000 histories per quick run, about 190,000 blocks; windows of at most half the interval. " + N),
 dict(id="O03", title="No answer of an exchange disturbs the prices of other assets",
   statement="Whatever bytes exchanges answer, the worker does not fail: assets about which nothing strange was said get the price they get without it, and an asset that has a price without the strange answers has one with them.",
   over=["inputs", "fault_sequences"], text="every body: corrupted JSON of each format, absurd, negative, tiny and malformed numbers", why="tests have no malformed answers",
   files=[T, Y, L], mechanism=[("parse_body, from_u100f28", Y), ("get_moving_average", T), ("combine_prices", L)], state=[], observe=["the submitted feed_values call"],
   technique="structure-aware fuzzing of response bodies with a metamorphic oracle: the run without the strange answers",
   note="6,000 random sets of strange answers per quick run. " + N),
]
