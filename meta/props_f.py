B = "pallets/funding/src/"
L = B + "lib.rs"
T = B + "types.rs"
FN = {k: B + "functions/" + v for k, v in dict(app="1_application.rs", ev="2_evaluation.rs", au="3_auction.rs", co="4_contribution.rs", end="5_funding_end.rs", se="6_settlement.rs", mi="7_ct_migration.rs", misc="misc.rs").items()}
N = ("Sampled histories (2,000 of 30 to 130 operations per quick run), eight users of all kinds, several projects at once, four funding assets of different decimals and prices; no proof. "
     "XCM, pallet-xcm, pallet-assets, pallet-timestamp and jwt-compact are stand-ins written from the documented behaviour of the upstream crates, which are not available offline; the pallet's own 188 tests pass over them.")
def p(id, title, statement, text, why, oracle, mech, files, over=("histories", "inputs"), observe=("project details", "participations", "balances, holds and assets")):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=[L] + files, mechanism=mech, observe=list(observe),
                technique="stateful property-based testing: random histories of all calls on the real pallet, " + oracle, note=N,
                state=[("ProjectsDetails, Evaluations, Bids, Contributions, Buckets", "the projects, their phase and everyone's participation", L)])
M = "each call and everything it changes compared with an independent reference model"
PROPS = [
 p("F01", "A project is created, edited and removed only by its issuer, under the rules",
   "A project is accepted exactly if the caller is an institution, its DID has no active project, its metadata obey the stated limits and the caller can fund the project's account; it then gets the next id, the escrow its existential deposit, and the bucket and details stated by its metadata. Editing and removing work exactly for the issuer's account, still an institution, until the application is frozen; editing under the same metadata rules; removing leaves no record of the project and frees the DID that created it. A refused call changes nothing.",
   "every metadata around every limit, every caller, credential and project state", "the tests try each limit once from a valid start",
   M, [("do_create_project, do_edit_project, do_remove_project", FN["app"]), ("ProjectMetadata::is_valid", T)], [FN["app"], T]),
 p("F02", "Evaluation starts and ends, and settlement closes, exactly when they may",
   "Only the issuer starts the evaluation, once, with policy document set, which freezes the application for good; anyone ends it, exactly after its time. It goes to the auction exactly if the USD bonded reaches the stated percentage of the target, else the project has failed and the DID is free again. A project is marked settled by anyone exactly when settlement is running and every evaluation, bid and contribution is settled.",
   "every history and every block, at the boundaries of the phases and of the evaluation threshold", "the tests walk each phase once with round numbers",
   M, [("do_start_evaluation, do_end_evaluation", FN["ev"]), ("do_mark_project_as_settled", FN["se"])], [FN["ev"], FN["se"]]),
 p("F03", "An evaluation bonds its value in PLMC, early or late by what is bonded already",
   "An evaluation is accepted exactly in the evaluation phase, with a valid credential for the project's policy, of at least the minimum in USD, within the limits on their number, by anyone but the issuer, with the PLMC available. It puts the value at the current price on hold, and is counted early as far as the USD bonded so far has not reached the evaluation threshold, late for the rest. Nothing else changes.",
   "every amount, price and order of evaluations, by the same and by different users", "the tests evaluate round amounts, seldom across the early boundary",
   M, [("do_evaluate", FN["ev"])], [FN["ev"]]),
 p("F04", "A bid is split over the buckets, each part at the price of its bucket, and paid",
   "A bid is accepted exactly in the auction, with a valid credential, by an investor type and with an amount, multiplier, currency and number of bids that are allowed, by anyone but the issuer, with the funds available. It is split at bucket boundaries: each part takes what its bucket has left and pays that bucket's price; the next bucket is a tenth of the allocation, a tenth of the minimum price dearer. Each part locks its value in the funding asset and the bond in PLMC (or the bonding fee), and nothing else changes.",
   "every sequence of bids across bucket boundaries, all multipliers, modes, assets, prices and credentials", "the tests fill two or three buckets with round amounts",
   M, [("do_bid, do_perform_bid", FN["au"]), ("Bucket", T)], [FN["au"], T]),
 p("F05", "The auction's end awards the allocation to the highest bids at a fair price",
   "The auction ends by anyone's call exactly after its time. Bids are served from the highest price down, earlier before later at the same price, until the allocation is used up: accepted in full, the last in part, the rest rejected. The weighted average price is that of the served price levels as stated, never below the minimum price, and the tokens left and the USD reached follow from it.",
   "every set of bids, at every fill of the allocation", "the tests compute three auctions",
   M + ", and invariants of the award", [("do_end_auction", FN["au"]), ("calculate_weighted_average_price", T)], [FN["au"], T]),
 p("F06", "A contribution buys tokens at the auction's price while there are any",
   "A contribution is accepted exactly in the community round, with a valid credential, not by the issuer and not in the first part by a DID that won in the auction, within ticket sizes per DID, multipliers, currencies and number, with the funds available. It buys what was asked, at most what is left, at the weighted average price; it locks the value in the funding asset and the bond (or the bonding fee), and nothing else changes.",
   "every history in both parts of the round, all types of investors, modes, assets and prices, to the last token", "the tests buy round amounts far from the limits",
   M, [("do_contribute, do_perform_contribution", FN["co"])], [FN["co"]]),
 p("F07", "Funding ends when its time is over or all is sold, and succeeds by its target",
   "Anyone can end the funding exactly in the community round, after its time or when no token is left; the project succeeded, and its evaluators earn the stated pots, exactly if a third (33%) of the target was reached, and else they are to be slashed; either way the issuer's DID is free again. Settlement starts by anyone's call exactly after the wait: for a success the token then exists with its name, symbol and decimals, half of the tiered fee and a fifth of it for liquidity are minted to the treasury, and bonds of the treasury stay locked; for a failure they are to be refunded.",
   "every amount raised around the thresholds, and every time of the calls", "the tests try a few amounts raised",
   M, [("do_end_funding", FN["end"]), ("do_start_settlement", FN["se"]), ("generate_evaluator_rewards_info, calculate_fees_and_slashes", FN["misc"])], [FN["end"], FN["se"], FN["misc"]]),
 p("F08", "Settling a winning participation pays out tokens, funds and the vested bond",
   "Anyone can settle a winning bid or a contribution of a successful project, once. The participant gets the tokens won at the lower of the bid's price and the auction's, back what was paid above that, and the bond on hold as a vesting schedule of the multiplier's length (or the fee goes the way of the bonded treasury PLMC); the issuer's account gets the funds. The tokens get a migration entry with that vesting length, and nothing else changes.",
   "every participation of every history, in every order of settlement", "the tests settle one participation of each kind",
   M, [("do_settle_bid, do_settle_contribution", FN["se"]), ("set_plmc_bond_release_with_mode, set_release_type", FN["se"])], [FN["se"]]),
 p("F09", "A losing participation gets everything back",
   "Anyone can settle, once, a rejected bid, or any bid or contribution of a failed project. Its funds go back to the participant in full, its bond is released in full at once, or for a bond of the treasury the fee is refunded; no token is minted and nothing else changes.",
   "every participation of every history, in every order of settlement", "the tests refund one participation of each kind",
   M, [("do_settle_bid, do_settle_contribution", FN["se"])], [FN["se"]]),
 p("F10", "Settling an evaluation releases the bond and pays or slashes exactly",
   "Anyone can settle an evaluation of a project whose settlement is running, once. A rewarded evaluator gets its share of both pots by early and total USD, with a migration entry, and the whole bond back; a slashed one loses the stated percentage of the original bond to the treasury and gets the rest back; otherwise the whole bond is returned. What an evaluator's bond was used for meanwhile stays on hold where it was moved.",
   "every evaluation of every history, including those whose bond backs a bid or contribution as well", "the tests settle evaluations that were not used elsewhere",
   M, [("do_settle_evaluation, slash_evaluator, reward_evaluator", FN["se"])], [FN["se"]]),
 p("F11", "The funding books balance after every operation",
   "At every moment the PLMC on hold of every user is exactly what their open evaluations need and at least what open bids, contributions and vesting need, and each project's account has exactly the funding assets of its open participations. Tokens sold and left add up to the allocation, USD bonded and reached to those of the participations, buckets and counters to the bids, and tokens minted to migrations plus treasury. PLMC is neither created nor destroyed, no more than the allocation is sold, and phases only go forward.",
   "every history of all calls over several projects", "the tests look at one project at a time and at the numbers at hand",
   "invariants recomputed from the state after every operation", [("all calls", L)], list(FN.values()), over=("histories",)),
 p("F12", "Every project can be brought to the end of its settlement by anybody",
   "From every state after the application, an ordinary account can bring the project through its phases to the end: after the waiting times every end of phase, the start of settlement, every settlement in any order and the closing mark succeed. When it is settled nothing of any participation is left in the project's account or on hold for evaluation.",
   "every reachable state of every project, every order of settlement", "the tests settle projects made for it",
   "with a run to the end in random order after every history", [("do_end_evaluation, do_end_auction, do_end_funding, do_start_settlement, do_settle_*, do_mark_project_as_settled", L)], list(FN.values()), over=("histories", "schedules")),
 p("F13", "Each migration is sent and confirmed once, and only so the project finishes",
   "Only the issuer of a settled, successful project chooses the kind of migration, once. A participant's migrations are sent to the project's chain only after the readiness check passed, exactly as recorded, and are confirmed only by that chain's answer to that query, or by the issuer, offchain or once they were sent; a failed answer lets them be sent again, a confirmed one never. The project is finished by anyone exactly when nobody is left to migrate.",
   "every history of sends, answers true and false, from the right and from wrong chains, repeated and out of order", "the tests answer every query once, in order",
   M + ", with the sent messages recorded", [("do_start_pallet_migration, do_send_pallet_migration_for, do_confirm_pallet_migrations, do_*_offchain_*", FN["mi"])], [FN["mi"]], observe=("UserMigrations", "UnmigratedCounter", "ActiveMigrationQueue", "sent XCM")),
 p("F14", "Channel and readiness of a project's chain are established only by true answers",
   "A channel request is accepted exactly when it comes from the chain a project in pallet migration named and offers what is required; then the acceptance and our own request are sent, and the channel counts as open only when both were accepted. The readiness check asks that chain for its holding of the tokens and its pallet, and passes exactly if both answers to the queries asked say what is expected; wrong answers, origins or ids never pass it and never panic.",
   "every order of requests, acceptances, queries and answers, right and wrong", "the tests go through the handshake once",
   M + ", with the sent messages recorded", [("HrmpHandler, do_start_pallet_migration_readiness_check, do_pallet_migration_readiness_response", FN["mi"])], [FN["mi"]], observe=("migration_type of the project", "sent XCM")),
 p("F15", "The runtime APIs tell what is the case",
   "The queries of top evaluations, bids and contributions, of tokens for an amount of a funding asset, of the tokens and messages of a user, and of a user's participations in a project and credentials, give what the state says, in the stated order and number. The tokens computed for an amount can really be bought for it.",
   "every reachable state, every user, project, amount and asset", "the tests query one prepared state each",
   "against recomputation from the state, and by doing what was computed", [("impl of the runtime APIs", B + "runtime_api.rs")], [B + "runtime_api.rs"], over=("histories", "inputs"), observe=("results of the queries",)),
 p("F16", "Vested PLMC and returned treasury bonds are exactly what settlement promised",
   "After settlement a participant's bond is released linearly over the multiplier's duration from the block of settlement, never faster, and whole at its end; bonds of the treasury go back to it exactly when the release says. Bonds of participations that are not settled stay on hold.",
   "every history over several projects, every block of the vesting", "the tests vest at the start and the end",
   M, [("set_plmc_bond_release_with_mode", FN["se"]), ("do_vest", "pallets/linear-release/src/impls.rs"), ("transfer_bonds_back_to_treasury", "pallets/proxy-bonding/src/lib.rs")], [FN["se"], "pallets/linear-release/src/impls.rs", "pallets/proxy-bonding/src/lib.rs"], observe=("holds", "vesting schedules")),
]
