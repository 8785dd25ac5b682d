from props_d import p, HIST
E = "pallets/elections-phragmen/src/lib.rs"
PROPS = [
p("E01", "A candidate's bond is held while in the race, then returned or slashed once",
  "An account has exactly its recorded candidacy bond held while it is a candidate, member or runner-up, and nothing held otherwise, also when the required bond changes meanwhile. Renouncing or being removed without slash returns it; losing an election or being removed with slash hands the whole bond to the configured receiver. Apart from slashes no funds and no issuance change.",
  HIST, "all sequences of candidacies, renouncements in every role, removals, bond changes, votes and elections by several accounts",
  "The tests check one path per outcome with fixed members and bonds.",
  [E], [("submit_candidacy / renounce_candidacy", E), ("remove_and_replace_member", E), ("do_phragmen slashing", E)],
  [("Candidates, Members, RunnersUp", "positions with their recorded bond", E)], ["held and free balances, issuance, receiver of slashes"]),
p("E02", "Members, runners-up and candidates are disjoint, ordered and within their limits",
  "An account is never in two of the sets members, runners-up and candidates, or twice in one. Members and candidates are listed in account order, and there are never more members, runners-up or candidates than configured. The membership reported to other parts of the system is exactly the member list.",
  HIST, "all sequences of candidacies, renouncements, removals, votes and elections",
  "The tests' state checks run after fixed scenarios only.",
  [E], [("submit_candidacy checks", E), ("do_phragmen", E), ("remove_and_replace_member", E)],
  [("Candidates, Members, RunnersUp", "the three sets", E)], ["stored sets, membership queries"]),
p("E03", "Each election seats exactly the sequential Phragmén winners of the votes",
  "An election seats as members the first, and as runners-up the next winners of the sequential Phragmén method over all candidates, members and runners-up and all recorded ballots with their stakes, leaving out candidates without backing, with the backing stake recorded for each and the runners-up ordered from worst to best. All candidacies end with it. Without anyone standing, or with more voters than the limit, nothing changes.",
  HIST, "all combinations and orders of ballots, candidacies, removals and several consecutive terms for different numbers of seats",
  "The tests elect from a handful of fixed ballots.",
  [E], [("do_phragmen", E)], [("Voting", "ballots with stake", E), ("Members, RunnersUp", "outcome", E)], ["stored members and runners-up after each election"]),
p("E04", "A member who leaves is replaced at once by the best runner-up",
  "When a member renounces or is removed, the best ranked runner-up takes the seat with its own backing and bond, and the order of the remaining runners-up is kept; without runners-up the seat stays empty. Leaving as a runner-up or candidate changes no other position. A call by or for someone without the claimed role is refused and changes nothing.",
  HIST, "all sequences of renouncements and removals in every role from states with several members and runners-up",
  "The tests replace one member in fixed sets.",
  [E], [("remove_and_replace_member", E), ("renounce_candidacy", E)], [("Members, RunnersUp", "seats", E)], ["stored members and runners-up"]),
p("E05", "The governed body is told every membership change, with the right prime",
  "After every call and block the body that receives the membership has exactly the current members; each notice lists who joined and who left in sorted, disjoint lists that account for the whole change. After an election the prime is the member with the highest positional score over all ballots (the highest account on ties). A replacement keeps the prime unless the prime is the one leaving, and then there is none.",
  HIST, "all orders of ballots deciding the prime, and all sequences of removals, renouncements and elections",
  "The tests compute the prime for a few ballots and follow one replacement.",
  [E], [("ChangeMembers calls in do_phragmen and remove_and_replace_member", E), ("Borda count", E)], [], ["what the receiving body is told"]),
p("E06", "A voter's stake stays frozen until its vote is removed after the lock period",
  "A voter has exactly the stake recorded with its ballot frozen: the offered value, at most its total balance. Until the lock period after the last vote has passed the ballot cannot be removed and can only be replaced with at least the same value; removing it then frees everything. Other calls leave the frozen amount alone.",
  HIST, "all sequences of votes with different values, revotes, removals, transfers, slashes and block steps, for several lock periods",
  "The tests vote and remove once with fixed values.",
  [E], [("vote / remove_voter", E), ("can_unlock, do_remove_voter", E)], [("Voting", "ballot, stake and lock end", E)], ["frozen balance, recorded ballots, call results"]),
p("E07", "Ballots obey the size limits, and only ballots that back nobody are cleaned away",
  "A ballot is accepted only if it names at least one and at most the allowed number of accounts, no more than currently stand, with a value above the minimum balance. Cleaning removes a ballot (and frees its stake) only if every account it names is neither candidate, member nor runner-up, at most as many as asked for, and all of them if the given limits allow.",
  HIST, "all sequences of ballots of every size, candidacies, renouncements and cleaning calls with different limits",
  "The tests clean one fixed set of voters.",
  [E], [("vote checks", E), ("clean_defunct_voters / is_defunct_voter", E)], [("Voting", "ballots", E)], ["recorded ballots, frozen balances, call results"]),
p("E08", "An election is held in every block that ends a term and in no other",
  "With a term of n blocks an election is attempted exactly in the blocks divisible by n, and never if n is zero; apart from these only a removal that asks for it holds one. Each election that takes place counts as one round and ends the open candidacies.",
  ["histories", "configurations"], "all sequences of candidacies, votes and removals over many blocks for several term lengths including zero and one",
  "The tests run one or two terms of one length.",
  [E], [("on_initialize", E), ("do_phragmen", E)], [("ElectionRounds", "rounds held", E)], ["rounds, members, candidates after every block"]),
p("E09", "Election calls are open only to their rightful origin, role and witness data",
  "Removing members and cleaning voters is reserved to root; voting and candidacies need a signed origin. A candidacy is refused to candidates, members and runners-up, and candidacies and their withdrawal are refused when the claimed number of candidates is too low. A refused call changes nothing.",
  ["inputs", "histories"], "every call with every kind of origin, role and witness in every reachable state of a small council",
  "The tests try single wrong origins in one state.",
  [E], [("origin and witness checks of each call", E)], [], ["call results, unchanged state"]),
]
