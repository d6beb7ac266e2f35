I = "pallets/linear-release/src/impls.rs"
B = "pallets/linear-release/src/lib.rs"
T = "pallets/linear-release/src/types.rs"
N = "Sampled histories (tens of thousands per run), amounts up to 2^100, four accounts, two hold reasons, at most four schedules; no proof. Trusts pallet-balances."
def p(id, title, statement, text, why, oracle, mech, over=("histories", "inputs")):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=[I, B, T],
                mechanism=mech, state=[("Vesting", "release schedules per account and hold reason", B)], observe=["Vesting", "balances on hold", "free balances"],
                technique="stateful property-based testing: random histories on the real pallet, " + oracle + "; shrunk to a minimal history", note=N)
PROPS = [
 p("L01", "Releasing leaves on hold exactly what the schedules still lock",
   "After vest, vest_other, vest_all or vest_all_other (or vest through the release interface), the account holds under that reason exactly what its schedules still lock at the current block, or all it held if that was less, and everything else held under the reason became free. Ended schedules disappear, running ones stay as they were; no other account, reason or the total issuance changes, and without a schedule vest fails and changes nothing.",
   "every set of schedules under several reasons, every block, every amount on hold, every history of additions, merges and slashes in between", "the tests use a handful of round amounts and blocks",
   "compared after every operation with a model of schedules, holds and free balances", [("do_vest, exec_action, write_release", I)]),
 dict(id="L02", title="A release schedule unlocks linearly, completely and at the right blocks",
   statement="A schedule of L locked, P per block from block S locks exactly max(0, L - P*(n-S)) at block n, everything up to S, and nothing from its ending block on, which is the first such block after S. What is releasable is always L minus that, whatever the size of the numbers.",
   over=["inputs"], text="every L, P, S and n of the number types", why="the tests sample a few schedules far from the limits of the types",
   files=[T], mechanism=[("VestingInfo::locked_at, releaseble_at, ending_block_as_balance", T)], observe=["VestingInfo"],
   technique="property-based testing of the schedule arithmetic against exact saturating arithmetic at and around all critical blocks", note="Hundreds of thousands of schedules per run, log-uniform magnitudes up to the type limits; no proof."),
 p("L03", "Merging schedules follows the documented rule and releases nothing early",
   "Merging two different schedules replaces them with one that starts at the latest of now and both starts, locks exactly what both still lock now, and spreads it evenly (rounded down, at least one per block) up to the later of the two ends, so it ends no sooner than either. If one has ended the other is kept unchanged, if both have ended neither remains; equal indices change nothing, an index out of range fails. Everything vested by then is released, nothing else.",
   "every pair of schedules: running, future, ended, of any size, among others", "the tests merge schedules of convenient sizes",
   "compared with the documented merge rule and a model of holds", [("merge_vesting_info, exec_action", I), ("merge_schedules", B)]),
 p("L04", "A vested transfer moves exactly the amount, fully on hold, or changes nothing",
   "A vested transfer takes exactly the scheduled amount from the source's free balance, puts it on hold for the target under the given reason with that schedule added, and otherwise only releases what the target's other schedules had vested. It fails, changing nothing, for amounts below the minimum, invalid schedules, a full schedule list, or missing funds; only root can force one from another account.",
   "every source, target (also oneself), schedule, reason and history", "the tests use fixed amounts and accounts",
   "compared with a model of schedules, holds and free balances", [("do_vested_transfer", I), ("vested_transfer, force_vested_transfer", B)]),
 p("L05", "Adding and removing schedules through the interface keeps the books right",
   "Adding a schedule moves no funds at all, setting one additionally releases what has vested, removing one or all releases what the removed schedules covered and keeps the rest. A zero amount is a no-op, an invalid schedule or a full list is refused without effect exactly when can_add_release_schedule says so, and the interface's vested and scheduled totals always equal the sums over the schedules.",
   "every history of additions, removals, vesting, holds and blocks", "the tests add one or two schedules",
   "compared with a model of schedules, holds and free balances, and queries recomputed after every operation", [("ReleaseSchedule for Pallet", I)]),
]
