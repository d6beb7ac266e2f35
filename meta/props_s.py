L = "pallets/on-slash-vesting/src/lib.rs"
F = [L]
N = "Sampled histories (tens of thousands per run), amounts up to 2^100 and blocks up to 2^40; no proof. Trusts pallet-vesting and pallet-balances."
def p(id, title, statement, text, why, oracle, over=("histories", "inputs")):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=F,
                mechanism=[("OnSlash::on_slash for the vesting pallet", L)], observe=["Vesting", "Locks", "balances"],
                technique="stateful property-based testing: random histories of vested transfers, vesting, holds and slashes on the real pallets, " + oracle + "; shrunk to a minimal history", note=N)
PROPS = [
 p("S01", "A slash lowers the vesting lock by exactly the slashed amount per schedule",
   "When an account with vesting schedules is slashed, its vesting lock becomes exactly the sum over its schedules of what each still locked at that moment less the slashed amount, never below zero, and its remaining schedules lock exactly that sum. An account without vesting is left alone, and one with nothing left to vest has no schedule and no lock.",
   "every set of schedules (ended, running, future), every block and every slashed amount", "the two tests slash running schedules of small amounts at one block",
   "lock and schedules compared with an independent per-schedule computation"),
 p("S02", "After a slash vesting continues on the original terms",
   "At every later block the slashed account still has at least as much locked as its original schedules would have locked less the slashed amount each, so nothing unlocks before the agreed start or sooner than agreed. Nor does vesting drag on: what remains unlocks in equal instalments, at least what remains divided by the blocks left of the original term, rounded down, and at least one unit per block.",
   "every set of schedules, slash block, slashed amount and every later block", "the tests never look at a later block, nor at schedules that have not started or that round down to nothing",
   "lock at all later critical blocks bounded below and above by the original schedules"),
 p("S03", "Slashing never fails, never freezes free funds, never touches others",
   "Notifying a slash always completes, whatever the schedules, block and amount; it moves no balance, never raises the lock, and after held funds are slashed the account can freely use at least as much as before. Other accounts and their schedules are untouched, and a combination of several slash hooks notifies each of them exactly once with the same account and amount.",
   "every history, account and amount", "the tests do two fixed slashes",
   "conservation and frame conditions over before/after snapshots, panics caught"),
]
