B = "pallets/parachain-staking/src/"
L, T, A, R, I = B + "lib.rs", B + "types.rs", B + "auto_compound.rs", B + "delegation_requests.rs", B + "inflation.rs"
N = ("Sampled histories (4,000 of 20 to 120 operations per quick run) over eight to fourteen accounts with lists of one to four places and short delays, so that every limit is met; no proof. "
     "pallet-session, pallet-authorship, pallet-aura, sp-consensus-aura and substrate-fixed are stand-ins; the pallet's own 279 tests pass over them. Trusts pallet-balances.")
def p(id, title, statement, text, why, oracle, mech, files, over=("histories", "inputs"), observe=("candidates, delegators, requests, rounds", "balances and holds")):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mechanism=mech, observe=list(observe),
                technique="stateful property-based testing: random histories of all staking calls and blocks on the real pallet, " + oracle, note=N,
                state=[("CandidateInfo, DelegatorState, Top/BottomDelegations, Total", "who has staked what with whom", L)])
M = "each call and everything it changes compared with an independent reference model; shrunk to a minimal history"
PROPS = [
 p("K01", "The staking books agree: what is staked is on hold, once, and adds up",
   "At every moment what an account has on hold as a candidate or delegator is exactly its bond or the sum of its delegations, every delegation is listed once by its delegator and once by its candidate with the same amount, and the recorded total stake is the sum of all that. No account is both; no bond or delegation is below its minimum; a request exists only for a delegation it can be taken from. Nothing is minted or burned, and a genesis builds the same books.",
   "every history of all calls and every genesis", "the tests look at the figures of the call at hand",
   "invariants recomputed from the whole state after every operation; shrunk to a minimal history", [("all calls", L), ("genesis build", L)], [L, T, A, R], over=("histories",)),
 p("K02", "A candidate's largest delegations count, and the pool is ordered by what counts",
   "For every candidate the delegations are split into the largest, up to the limit of the top, and the rest, both sorted; what counts for the candidate is its bond and the top. Counts, totals, bounds and how full the lists are follow from the lists. The pool holds exactly the active candidates with exactly what counts for each.",
   "every history of delegations, raises, cuts, kicks and revocations around full lists", "the tests order a few lists",
   "invariants recomputed from the lists after every operation; shrunk to a minimal history", [("CandidateMetadata, Delegations", T)], [T, L], over=("histories",)),
 p("K03", "Candidates join, pause, change their bond and leave under the rules",
   "Joining, pausing, resuming, raising the bond at once, lowering it and leaving after their delays, and cancelling, succeed exactly for those entitled, at the times and within the minima, hints and funds stated. Leaving returns the bond to the candidate and every delegation to its delegator. Each changes exactly what it should, and a refused call changes nothing.",
   "every state of every candidate, every caller, round and amount", "the tests try each refusal once from a fresh start",
   M, [("join_candidates … execute_leave_candidates", L), ("bond_more, schedule_less, execute_bond_less", T)], [L, T]),
 p("K04", "A delegation is accepted exactly if it may be, and kicks only the smallest",
   "A delegation is accepted exactly if the delegator is no candidate, not yet with this candidate, within minima, number, hints and funds, and either there is room or it exceeds the candidate's smallest delegation, which is then returned in full with all its traces. Raising a delegation works exactly for one that is not being revoked. Both put exactly the amount on hold and rank it by size, after those that are as large.",
   "every amount around every bound, every fill of the lists", "the tests fill lists in ascending or descending order",
   M, [("delegate, delegator_bond_more", L), ("add_delegation, increase_delegation", T), ("delegate_with_auto_compound", A)], [L, T, A]),
 p("K05", "Cuts and revocations of delegations wait their time, then take exactly effect",
   "A delegator can schedule one cut or revocation per delegation, within the minima with everything else already scheduled, and withdraw it; leaving schedules revocations of everything. Executing succeeds for anyone exactly after the delay and returns exactly the amount scheduled, leaving rank and books in order. A refused call changes nothing.",
   "every combination of requests of a delegator over several candidates", "the tests execute requests one by one",
   M, [("delegation_schedule_*, delegation_execute_scheduled_request, delegator_*_leave", R), ("rm_delegation, decrease_delegation", T)], [R, T, L]),
 p("K06", "Rounds turn on time, select the highest-counting candidates and snapshot them",
   "A round ends exactly after its length; the next one selects the highest-counting active candidates, as many as set, keeps the last selection if there are none, and records what each selected candidate and its top delegations stake, less what is being revoked or cut, with the compounding settings. The session pallet is given exactly this selection and these times.",
   "every history over many rounds, with changed lengths and numbers", "the tests run a few rounds",
   M, [("on_initialize, select_top_candidates", L), ("SessionManager, ShouldEndSession, EstimateNextSessionRotation", L)], [L]),
 p("K07", "Rewards of a round are shared by points and stake, and compounded as asked",
   "After the delay one collator of a round is paid per block: its share of the round's issuance by points, from which it keeps the commission and its part by stake, and each delegator of the snapshot gets its part by stake. Everything comes from the pay master and nothing else is paid. What a delegator asked to compound is added to the delegation, rounded up, unless it is being revoked or gone.",
   "every snapshot, points, commission, rate and setting", "the tests pay a few snapshots",
   M, [("prepare_staking_payouts, pay_one_collator_reward, mint_and_compound", L)], [L, I]),
 p("K08", "The staking settings change only by governance, within bounds, and take effect",
   "Expectations, inflation, the reserve, the number of collators, the commission and the length of a round are changed only by governance, exactly if the new value is valid and another one. The rates per round are, rounded up, those whose compounding over a year's rounds gives the annual ones, and are recomputed with the length of the round. A refused call changes nothing.",
   "every caller and value, also at the ends of the ranges", "the tests set a few values",
   M, [("set_staking_expectations, set_inflation, set_parachain_bond_*, set_total_selected, set_collator_commission, set_blocks_per_round", L), ("perbill_annual_to_perbill_round", I)], [L, I]),
 p("K09", "A compounding setting belongs to a delegation, and only its owner sets it",
   "A setting can be made, changed and cleared exactly by the delegator of an existing delegation within the hints, or when delegating; it changes nothing else. It disappears with its delegation, whichever way that ends, and then not before.",
   "every history in which delegations are kicked, revoked or their candidate leaves", "the tests remove one delegation at a time",
   M + ", and the invariant after every operation", [("set_auto_compound, delegate_with_auto_compound, remove_auto_compound", A)], [A, L, R]),
 p("K10", "Whoever wants to leave staking gets out, with everything",
   "From every reachable state, every delegator can leave, whatever it has scheduled before, and every candidate with whoever delegates to it; after the longest of the delays all of them can be executed by anyone, in any order. Then nothing is on hold, no trace is left and nobody has less than before.",
   "every reachable state", "the tests leave from simple states",
   "with everybody leaving after every history; shrunk to a minimal history", [("schedule/execute_leave_delegators, schedule/execute_leave_candidates", L)], [L, R], over=("histories", "schedules")),
]
