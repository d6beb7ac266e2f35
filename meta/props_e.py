F = ["pallets/elections-phragmen/src/lib.rs"]
T = "stateful property-based testing: random histories of all calls on the real pallet, {}; shrunk to a minimal history"
N = "Sampled histories (tens of thousands per run) over a runtime with per-case parameters; no proof. Trusts frame-support and pallet-balances{}."
L = "pallets/elections-phragmen/src/lib.rs"
H = ["histories", "inputs", "configurations"]
def p(id, title, statement, text, why, mech, oracle, extra="", observe=()):
    return dict(id=id, title=title, statement=statement, over=H, text=text, why=why, files=F, mechanism=[(m, L) for m in mech],
                observe=list(observe), technique=T.format(oracle), note=N.format(extra))
PROPS = [
 p("E01", "An election seats exactly the winners of the Phragmén count",
   "Each election counts the stakes of all voters by the sequential Phragmén method over all candidates, members and runners-up; the first winners with any backing become the members, sorted by account, the next ones the runners-up from worst to best, each with its counted backing and its recorded bond. Candidates are then cleared and the round number advances by one.",
   "every set of candidates, voters, stakes and vote lists, and every sequence of elections",
   "the tests run elections of at most five candidates with hand-computed outcomes",
   ["do_phragmen"], "compared with a reference model of an election", ", and sp-npos-elections as the reference count", ["Members", "RunnersUp", "Candidates", "ElectionRounds"]),
 p("E02", "Candidacy bonds are held, returned or slashed exactly once",
   "What is held from an account for candidacy always equals the bond recorded for it as candidate, member or runner-up. The bond is returned in full on renouncing or removal without slash, and handed in full to the slash handler when the account loses its standing in an election or is removed with slash; no other call touches it, even if the required bond changes meanwhile.",
   "every history of candidacies, elections, renunciations and removals, with a bond amount that changes over time",
   "the tests check one bond at a time, with a bond amount that changes at most once",
   ["submit_candidacy, renounce_candidacy, remove_and_replace_member, do_phragmen"], "conservation of held balances and slash totals", "", ["balance_on_hold(Candidacy)"]),
 p("E03", "A voter's stake is frozen while it votes and cannot be cut short",
   "While an account votes, its frozen balance equals its voting stake, which is the offered value capped at its balance; it is released exactly by removing the vote, which the voter can do only after its lock period, or when it is cleaned up as defunct. While the lock lasts the stake cannot be lowered by voting again, and nobody else can change or remove the vote.",
   "every history of votes, re-votes, removals and block times",
   "the tests vote and remove in one or two fixed orders",
   ["vote, remove_voter, do_remove_voter, can_unlock"], "freeze compared with the recorded stake, lock rules from a model", "", ["Voting", "balance_frozen(Voting)"]),
 p("E04", "Members, runners-up and candidates stay disjoint, ordered and reported",
   "No account is ever in more than one of the three sets, members and candidates are sorted by account, and neither seats nor reserve seats exceed their number. The collective is always told exactly the current members, each change with the exact accounts that joined and left, and the prime is always one of the members; a refused call changes nothing. Whoever asks is told the members, their number and bounds on it that hold.",
   "every history of elections, renunciations, removals and new candidacies",
   "the tests check the sets in fixed scenarios; the collective is only told differences, so one wrong difference shows later",
   ["do_phragmen, remove_and_replace_member, submit_candidacy"], "invariants after every step and a strict stand-in for the collective", "", ["Members", "RunnersUp", "Candidates", "ChangeMembers"]),
 p("E05", "The prime is the member preferred by weighted votes",
   "After an election the prime is the elected member with the highest sum of voters' stakes, each weighted by the position of the member in the voter's list (first place weighs the maximum number of votes), ties going to the highest account. When membership changes outside elections the prime stays, unless it is the one who leaves, and then there is none until the next election.",
   "every set of vote lists and stakes, and every removal in between",
   "the tests cover a handful of prime elections",
   ["do_phragmen, remove_and_replace_member"], "reference Borda count", "", ["ChangeMembers::set_prime"]),
 p("E06", "A member who leaves is replaced by the best runner-up",
   "Renouncing succeeds exactly for an account that holds the role it names, and removal exactly for a member by root. A member who leaves is replaced at once by the best runner-up if there is one, and nothing else changes: other members, the order of the remaining runners-up and the candidates stay; a renouncing runner-up or candidate leaves only its own place.",
   "every state of the three sets and every role named",
   "the tests replace one member with at most two runners-up",
   ["remove_and_replace_member, renounce_candidacy, remove_member"], "reference model of replacement", "", ["Members", "RunnersUp", "Candidates"]),
 p("E07", "Votes are accepted exactly under the stated rules",
   "A vote is accepted exactly when it names at least one and at most the maximum number of accounts, no more than there are candidates, members and runners-up together, and its value exceeds the existential deposit or, while a lock lasts, is at least the locked stake. An accepted vote replaces the former one with its list, stake and a fresh lock.",
   "every vote list and value in every reachable state",
   "the tests try each refusal once",
   ["vote"], "reference admission rule", "", ["Voting"]),
 p("E08", "Clean-up removes defunct voters only",
   "Cleaning up by root removes and unfreezes only voters none of whose votes is for a current candidate, member or runner-up, within the two given limits, and all of them when the limits allow. All other voters, stakes and sets stay as they are.",
   "every mix of voters and every pair of limits",
   "the tests clean one fixed set of voters",
   ["clean_defunct_voters, is_defunct_voter"], "reference model of the clean-up", "", ["Voting"]),
 p("E09", "Candidacies are accepted exactly under the stated rules",
   "A candidacy is accepted exactly when the account is not yet candidate, member or runner-up, can pay the bond, gives a large enough witness of the number of candidates, and the maximum number of candidates is not reached. It is then listed in order with the bond of that moment.",
   "every account and witness in every reachable state, at and near the limit",
   "the tests try each refusal once, and never the limit",
   ["submit_candidacy"], "reference admission rule", ". One known finding is listed: the limit admits one candidate too many", ["Candidates"]),
 p("E10", "Elections happen on schedule and fail without a trace",
   "An election is held in exactly the blocks that are multiples of the term duration (never if it is zero) and on a removal that asks for it. If nobody stands, or there are more voters than the maximum, members, runners-up, candidates, bonds and rounds stay exactly as they were.",
   "every term duration, number of voters and block",
   "the tests use one term duration and never exceed the number of voters in an otherwise valid election",
   ["on_initialize, do_phragmen"], "schedule model, and unchanged state otherwise", "", ["ElectionRounds", "Members"]),
 p("E11", "Elections represent the voters fairly",
   "A group of voters holding at least one seat's share of the voting stake who all vote for the same account is never left without a seat holder they voted for. Only accounts that stand and have votes with stake are seated, all member seats are filled before any reserve seat, and the backing credited to seat holders never exceeds the stake of those who voted for them.",
   "every set of candidates, voters, stakes and vote lists",
   "the tests check hand-computed outcomes only",
   ["do_phragmen"], "justified representation and conservation of backing as independent invariants", "", ["Members", "RunnersUp"]),
]
PROPS += [
 p("E12", "Election events tell exactly what happened",
   "Every election reports its new members with their backing and each candidate, member or runner-up who lost the bond, with its amount; an election with nobody standing and one that cannot be run are reported as such. Renunciations, removals and slashed seats are reported once each with the right account and amount, and nothing else is ever reported.",
   "every history of calls and elections",
   "the tests look at the events of a few fixed elections",
   ["deposit_event in do_phragmen, remove_and_replace_member, renounce_candidacy, remove_member"], "events compared with those derived from the change of state", "", ["events"]),
 p("E13", "Election weights cover the work done",
   "Each call declares at least the weight of its own kind of work for the number of votes, candidates or voters it names, which bounds what it does, and is charged no more than declared. An election is charged for at least all who stand, all voters and all their votes, an attempt that gives up for at least what it read, and a block without an election nothing.",
   "every call and election in every reachable state",
   "the tests do not look at weights",
   ["pallet::weight of every call, on_initialize, do_phragmen"], "a weight table in which no two kinds of work cover each other, compared with the work seen in the state", "", ["dispatch info", "on_initialize weight"]),
 p("E14", "The council of the genesis block",
   "A genesis configuration is accepted exactly when it names no more members than there are seats, none twice, and none with more stake than its balance. Its members, sorted by account and known to the collective, then hold the seats without a bond, each backed by its own vote for itself with exactly the stated stake, which nothing freezes and which can be withdrawn after the lock period.",
   "every list of members, stakes and balances, valid or not",
   "the tests build one valid list and one with a duplicate",
   ["GenesisConfig::build"], "model of the initial state; an invalid configuration must be refused", "", ["Members", "Voting", "InitializeMembers"]),
]
PROPS[-1]["technique"] = "property-based testing: generated genesis configurations, valid or wrong in one way, against a model of the initial state; shrunk"
PROPS[-1]["over"] = ["inputs", "configurations"]
PROPS[-1]["note"] = "60,000 sampled configurations per quick run; no proof. Trusts frame-support and pallet-balances."
