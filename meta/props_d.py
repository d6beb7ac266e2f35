F = ["pallets/democracy/src/lib.rs"]
V = ["pallets/democracy/src/lib.rs", "pallets/democracy/src/vote.rs", "pallets/democracy/src/types.rs", "pallets/democracy/src/conviction.rs"]
T = "stateful property-based testing: random histories of all calls on the real pallet, {}; shrunk to a minimal history"
N = "Sampled histories (tens of thousands per run) over a runtime with per-case parameters; no proof. Trusts frame-support, pallet-balances, pallet-scheduler and pallet-preimage."
H = ["histories", "inputs", "configurations"]
def p(id, title, statement, text, why, mech, oracle, files=F, observe=(), over=H, note=N):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mech,
                observe=list(observe), technique=T.format(oracle), note=note)
PROPS = [
 p("D01", "A referendum's tally is exactly the recorded votes plus delegations",
   "At every moment the ayes, nays and turnout of an ongoing referendum equal what the currently recorded votes on it and the delegations to those voters add up to: conviction-weighted for standard votes, a tenth of each side for split votes, with delegated power following the delegate's standard vote. A vote is accepted exactly when the referendum is ongoing, the account is not delegating, its whole balance covers the vote and it has room for another vote; a new vote on the same referendum replaces the former one.",
   "every sequence of votes, vote changes, removals, delegations and undelegations by any accounts, over several overlapping referenda",
   "the tests vote once or twice in fixed scenarios; the tally is kept incrementally, so an error shows only after particular sequences of vote, delegate, change and remove",
   [("try_vote / try_remove_vote", "pallets/democracy/src/lib.rs"), ("increase_upstream_delegation / reduce_upstream_delegation", "pallets/democracy/src/lib.rs"), ("Tally::add, remove, increase, reduce", "pallets/democracy/src/types.rs")],
   "tally recomputed from an independent record of accepted votes and delegations", V, ["ReferendumInfoOf", "VotingOf"]),
 p("D02", "A referendum passes exactly when its threshold is met",
   "When a referendum ends, it is approved exactly if its tally meets its threshold: ayes against nays for a simple majority, and for the two super-majority kinds the comparison of the sides weighted with the square roots of turnout and electorate, computed without overflow or rounding surprises. Adding ayes never turns an approval into a rejection and adding nays never turns a rejection into an approval.",
   "every tally, turnout and electorate up to the full range of balances, and every history that leads to a decision",
   "the tests compare a few small tallies; overflow, rounding and the exact boundary appear only for particular large or borderline numbers",
   [("VoteThreshold::approved, compare_rationals", "pallets/democracy/src/vote_threshold.rs"), ("bake_referendum", "pallets/democracy/src/lib.rs")],
   "big-integer reference comparison, and monotonicity relations", ["pallets/democracy/src/vote_threshold.rs", "pallets/democracy/src/lib.rs"], ["ReferendumInfoOf"]),
 p("D03", "Voting locks last as long as the conviction demands, and no longer",
   "An account's frozen balance always covers each of its votes on ongoing referenda, each winning vote until the end of its conviction period, its current delegation, and each delegation it ended until that conviction period has passed. No call of another account raises the freeze, and unlocking leaves frozen no more than what is still needed by votes, delegation and the aggregated remaining lock.",
   "every history of votes, delegations, removals, unlocks and block times, for every conviction",
   "the tests check a handful of conviction periods one at a time; early release or eternal lock needs interleavings of removal, re-delegation, unlock and expiry",
   [("PriorLock::accumulate, rejig", "pallets/democracy/src/vote.rs"), ("update_lock, extend_lock, try_remove_vote, try_undelegate", "pallets/democracy/src/lib.rs"), ("Conviction::lock_periods", "pallets/democracy/src/conviction.rs")],
   "freeze compared with lower and upper bounds from an independent record of obligations", V, ["balance_frozen(Vote)"]),
 p("D04", "Proposal deposits are held, refunded or slashed exactly once",
   "What is held from an account for public proposals always equals the sum of its deposits for proposals still waiting; a deposit is returned in full to every depositor when the proposal is tabled and handed in full to the slash handler when the proposal is cancelled or blacklisted. A proposal or a second is accepted exactly when the stated limits, the minimum deposit and the account's balance allow it, and the recorded depositors, as the reported backing, are exactly those who backed it.",
   "every history of proposals, seconds, tablings, cancellations and blacklistings, including the same account backing several times",
   "the tests refund or slash one proposal with one or two depositors; losing or duplicating a deposit needs repeated backing and mixed outcomes",
   [("propose, second, cancel_proposal, blacklist", "pallets/democracy/src/lib.rs"), ("launch_public", "pallets/democracy/src/lib.rs")],
   "conservation of held balances and slash totals against a deposit ledger", F, ["DepositOf", "balance_on_hold(Proposal)"]),
 p("D05", "Every referendum ends on time, once, and what passes is enacted once",
   "An ongoing referendum keeps its terms until it is decided in the very block its voting period ends, or until it is cancelled by an authorised call; its result then never changes. The proposal of an approved referendum is executed exactly once, in the block after its enactment delay (at least one block), and nothing else is ever executed. The referenda reported as due at a block are exactly the ongoing ones that end there.",
   "every history with several referenda of different lengths overlapping, cancelled or fast-tracked",
   "the tests run one or two referenda; a referendum that is skipped, decided twice or enacted at the wrong time needs overlapping periods and cancellations",
   [("begin_block, maturing_referenda_at, bake_referendum", "pallets/democracy/src/lib.rs"), ("inject_referendum, internal_cancel_referendum", "pallets/democracy/src/lib.rs")],
   "lifecycle model and a probe pallet that records executions", F, ["ReferendumInfoOf", "executed calls"]),
 p("D06", "Tabling: on schedule, the best backed proposal, alternating with external ones",
   "A new referendum is tabled from the queues only in launch blocks, exactly one if either queue has a proposal, and when both queues wait the kinds alternate. A public launch takes a proposal with the greatest total backing and decides by positive-turnout-biased majority; an external launch takes the queued external proposal with its own threshold.",
   "every history filling and draining both queues, over all launch periods",
   "the tests launch from queues of two or three proposals; the wrong choice needs particular numbers of backers and values, and alternation a longer history",
   [("launch_next, launch_public, launch_external, backing_for", "pallets/democracy/src/lib.rs")],
   "queue model compared at each launch", F, ["PublicProps", "NextExternal", "ReferendumInfoOf"]),
 p("D07", "Vetoed, blacklisted and cancelled proposals stay suppressed",
   "A blacklisted proposal is removed from both queues, and its referendum cancelled if named, and it can never again be proposed publicly or externally by simple proposal; a vetoed one cannot until the cool-off has passed, and the same member cannot veto it twice; a referendum cannot be emergency-cancelled a second time for the same proposal. Other proposals are never affected, and a barred proposal becomes proposable again exactly when its cool-off ends.",
   "every interleaving of proposing, vetoing, blacklisting, cancelling and re-proposing the same few proposals",
   "the tests veto or blacklist once; a suppression lost or overextended needs combinations such as a veto after a blacklisting",
   [("blacklist, veto_external, emergency_cancel, propose, external_propose", "pallets/democracy/src/lib.rs")],
   "suppression model keyed by proposal", F, ["Blacklist", "Cancellations", "PublicProps", "NextExternal"]),
 p("D08", "External queue and fast-track follow their rules",
   "At most one external proposal waits at a time and it changes only by proposing into an empty queue, launching, fast-tracking, veto or blacklisting. Fast-tracking succeeds exactly for the waiting proposal, never for one of plain super-majority kind, with a voting period that is non-zero and shorter than the fast-track minimum only for the instant origin where that is allowed; the referendum starts at once with the proposal's threshold, the given period and delay.",
   "every history of external proposals by the three origins and fast-tracks with every period and delay",
   "the tests fast-track with a few fixed periods and one origin each",
   [("external_propose*, fast_track", "pallets/democracy/src/lib.rs")],
   "model of the external queue and of fast-track admission", F, ["NextExternal", "ReferendumInfoOf"]),
 p("D09", "Metadata belongs to its proposal and moves with it",
   "Metadata can be set or cleared only by the owner of the proposal, the origin matching the external proposal's kind, or root for a referendum (anyone may clear that of a finished one), and only to an existing preimage. It moves to the referendum when its proposal is tabled or fast-tracked and disappears when its proposal is cancelled, vetoed or blacklisted; metadata of anything else never changes.",
   "every history of metadata changes mixed with tabling, fast-tracking, cancelling, vetoing",
   "the tests move metadata once per path; mixing owners needs several proposals with metadata at once",
   [("set_metadata, transfer_metadata, clear_metadata", "pallets/democracy/src/lib.rs")],
   "model of the metadata map", F, ["MetadataOf"]),
 p("D10", "Nobody can act for others, and refused calls change nothing",
   "Privileged calls succeed only with their own origin, and no call changes the votes, delegation, freeze or deposits of an account that did not sign it, except that anyone may remove another's vote once it has expired (always possible then, never before) and unlock what is no longer needed. A refused call leaves every balance, vote, proposal and referendum as it was.",
   "every call with every origin, in every reachable state",
   "the tests try a few wrong origins; interference between accounts appears only in shared histories",
   [("ensure_origin of each call; try_remove_vote with UnvoteScope", "pallets/democracy/src/lib.rs")],
   "frame conditions over before/after snapshots", V, ["all storage", "balances"]),
 p("D11", "Delegations are recorded exactly and delegated power is conserved",
   "The power delegated to an account is always the sum, over the accounts now delegating to it, of their conviction-weighted amounts, and the capital likewise; no delegation is lost or counted twice when delegators change target or amount, or delegates delegate further. Delegating is accepted exactly when the amount is covered, the target is another account and the account has no direct votes; undelegating exactly when it delegates; a delegating account cannot vote.",
   "every history of delegate, re-delegate, undelegate and vote among accounts, including chains and cycles",
   "the tests delegate between two or three accounts once",
   [("try_delegate, try_undelegate, increase_upstream_delegation, reduce_upstream_delegation", "pallets/democracy/src/lib.rs"), ("Delegations", "pallets/democracy/src/types.rs")],
   "sum over an independent record of delegations", V, ["VotingOf"]),
 p("D12", "Votes and convictions encode, decode and weigh as documented",
   "A vote packs into one byte and unpacks to the same vote, every byte either decodes to the vote that encodes to it or is refused, and conviction multiplies votes by 0.1 and 1 to 6 with lock periods 0, 1, 2, 4, 8, 16, 32 without overflow. Balances and tallies derived from votes agree with these tables for every amount, and a tally refuses what does not fit instead of losing it.",
   "every byte, every conviction and amounts over the full range",
   "the tests check a few votes and convictions",
   [("Vote encode/decode", "pallets/democracy/src/vote.rs"), ("Conviction::votes, lock_periods", "pallets/democracy/src/conviction.rs")],
   "round trips and table lookup over generated values and bytes", V, ["encoded bytes"], over=["inputs"]),
]
PROPS[-1]["technique"] = "property-based testing: round trips of generated votes and bytes, and reference tables for conviction weights"
PROPS += [
 p("D13", "Events tell exactly what happened",
   "Every accepted call and every block reports, each exactly once and with the right particulars, the proposals, seconds, tablings, started, passed, rejected and cancelled referenda, votes, delegations, vetoes, blacklistings and metadata changes that it brought about. Nothing is reported that did not happen, and a refused call reports nothing.",
   "every history of all calls and blocks, including those that bring about several changes at once",
   "the tests look at one expected event in a few scenarios; a duplicated, missing or wrong event shows only where several things happen at once",
   [("deposit_event in every call; transfer_metadata, clear_metadata, internal_cancel_referendum, bake_referendum", "pallets/democracy/src/lib.rs")],
   "events compared with those derived from the change of state", F, ["events"]),
 p("D14", "Weights cover the work, and only what was not needed is given back",
   "Each call declares at least the weight of its own kind of work for the largest number of votes an account can have, is charged it in full if refused, and never more than declared; delegating and undelegating are charged for the number of votes of the delegate. A block that tables or ends a referendum counts as full, any other for no fewer than the ongoing referenda and no more than those from the first unfinished one; only the emergency cancellation and the blacklisting are operational.",
   "every call in every reachable state, every number of votes and every set of overlapping referenda",
   "the tests do not look at weights but for one default",
   [("pallet::weight of every call, try_delegate, try_undelegate, begin_block", "pallets/democracy/src/lib.rs")],
   "a weight table in which no two kinds of work cover each other, compared with the work seen in the state", F, ["dispatch info", "post-dispatch info", "on_initialize weight"]),
]
