# Properties of the democracy pallet.
L = "pallets/democracy/src/lib.rs"
V = "pallets/democracy/src/vote.rs"
T = "pallets/democracy/src/types.rs"
C = "pallets/democracy/src/conviction.rs"
H = "pallets/democracy/src/vote_threshold.rs"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))
HIST = ["histories"]
PROPS = [
p("D01", "Referendum tallies equal the votes and delegations in force",
  "At every moment the ayes, nays and turnout shown for an open referendum are exactly what the votes currently in force on it give: each direct vote weighted by its conviction, each split vote at a tenth per side, and each delegation added to the side its target voted on with a standard vote. Voting, changing a vote, removing a vote, delegating, re-delegating and undelegating in any order leave no residue in any tally. Votes on referenda that have ended no longer change.",
  HIST, "all sequences of votes, revotes, vote removals, delegations, undelegations, cancellations and block steps by several accounts on several referenda",
  "The tests follow a few fixed sequences with one or two voters; a tally error needs a particular order of revote, removal and delegation.",
  [L, T, V, C],
  [("try_vote / try_remove_vote", L), ("increase/reduce_upstream_delegation", L), ("Tally::add, remove, increase, reduce", T)],
  [("ReferendumInfoOf", "open referenda with their tallies", L), ("VotingOf", "votes and delegations of every account", L)],
  ["the stored referendum after every call"]),
p("D02", "Delegated voting power recorded at a target is what its delegators gave it",
  "For every account, the delegated votes and capital recorded as received equal the sum over the accounts currently delegating to it, and every account is recorded exactly as the voter or delegator its accepted calls made it. Self-delegation, delegating more than the account's balance, voting while delegating and undelegating without a delegation are refused. Delegating requires having no votes left on any referendum.",
  HIST, "all sequences of delegations, re-delegations, undelegations, votes and removals over a small group of accounts, including chains and mutual delegation",
  "The tests check single delegations; corruption needs re-delegation or undelegation between accounts that also vote or delegate onward.",
  [L, V], [("try_delegate / try_undelegate", L), ("AccountVoting, Delegations", V)],
  [("VotingOf", "votes and delegations of every account", L)], ["the stored voting record of every account"]),
p("D03", "Funds behind a vote or delegation stay frozen for as long as they are bound",
  "As long as an account has a vote on an open referendum, a delegation, or a vote on the winning side of a referendum whose conviction period has not ended, at least the amount bound by it stays frozen in the account. No call by anyone lowers the frozen amount below the largest such obligation, and unlocking never raises it.",
  HIST, "all sequences of votes, removals by the owner or by others, delegations, undelegations, unlock calls and block steps across the ends of referenda and of lock periods",
  "The tests unlock after a single referendum; premature release needs several votes and prior locks with overlapping periods.",
  [L, V, C], [("update_lock", L), ("AccountVoting::locked_balance, rejig", V), ("PriorLock::accumulate", V), ("try_remove_vote", L)],
  [("VotingOf (prior)", "locks left over from removed votes", V)], ["frozen balance of each account after every call"]),
p("D04", "Locked funds and stale votes can be released when their time is over",
  "Frozen voting funds never exceed what the open votes, the delegation and the unexpired locks require after an unlock, so once every vote is removed and every lock period has passed an unlock frees everything. A vote on a finished referendum can be removed by its owner at any time, and by anybody else exactly when it no longer binds funds; a cancelled referendum binds nothing. An unlock may be called by anybody for anybody.",
  HIST, "all sequences of votes, removals, delegations, unlocks and block steps across the ends of referenda and lock periods, with wins, losses and cancellations",
  "The tests try one lock period per test; a lock that is too long or never released needs combinations of convictions, outcomes and removal times.",
  [L, V, C], [("try_remove_vote (UnvoteScope)", L), ("PriorLock::rejig", V), ("update_lock", L), ("Conviction::lock_periods", C)],
  [("VotingOf (prior)", "locks left over from removed votes", V)], ["frozen balance and recorded votes after every call"]),
p("D05", "Proposal deposits are held while queued, then returned or slashed exactly once",
  "Each backer of a public proposal has exactly the proposer's deposit held once for every time it backed it, for as long as the proposal is queued. Every deposit is released in full when the proposal is tabled or cleared from the queue, and slashed in full when the proposal is cancelled or blacklisted. No other funds are held and the total issuance changes only by slashing.",
  HIST, "all sequences of proposing, seconding, tabling at launch blocks, cancelling, clearing and blacklisting with several backers and duplicate proposals",
  "The tests refund one proposal with one or two backers; lost deposits need duplicates, clears and blacklists of queued proposals.",
  [L], [("propose / second", L), ("launch_public", L), ("cancel_proposal / blacklist / clear_public_proposals", L)],
  [("DepositOf", "backers and deposit of each queued proposal", L), ("PublicProps", "queued public proposals", L)],
  ["held and free balances, total issuance"]),
p("D06", "Each launch block tables one proposal, alternating sources, best backed first",
  "At every multiple of the launch period, and at no other block, one referendum is started if a proposal waits: from the external queue if the last one came from the public queue or the public queue is empty, otherwise the public proposal with the largest total deposit. It carries the proposal, the threshold of its source, the voting period and the enactment delay. Fast-tracking starts a referendum from a majority-carries or default external proposal with the requested periods.",
  HIST, "all sequences of public and external proposals, seconds, vetoes, fast-tracks and block steps across several launch blocks",
  "The tests look at one or two launches; alternation and ordering depend on the history of both queues.",
  [L], [("launch_next / launch_external / launch_public", L), ("fast_track", L), ("inject_referendum", L)],
  [("NextExternal", "queued external proposal", L), ("PublicProps", "queued public proposals", L), ("LastTabledWasExternal", "source of the last tabled proposal", L)],
  ["stored referenda after every block"]),
p("D07", "A referendum ends exactly at its end block with the outcome of its threshold",
  "An open referendum stays open until its end block, and in that block it is decided, approved if and only if the final tally passes its threshold against the electorate at that time. No referendum is skipped, decided twice or reopened, however many end in the same block. Votes are accepted exactly while it is open.",
  HIST, "all sequences of referenda started with different periods, votes, cancellations and block steps",
  "The tests decide one or two referenda; missing one needs several with overlapping ends, and cancelled ones in between.",
  [L, H], [("begin_block / bake_referendum", L), ("maturing_referenda_at", L), ("LowestUnbaked advance", L)],
  [("LowestUnbaked", "lowest referendum that may still be open", L), ("ReferendumInfoOf", "referenda", L)],
  ["stored referenda after every block"]),
p("D08", "An approved proposal is enacted exactly once, as root, after its delay",
  "The call of an approved referendum is executed exactly once, as root, in the block that lies its enactment delay (at least one block) after the referendum's end. A rejected or cancelled referendum is never enacted. Equal proposals approved by different referenda are each enacted.",
  HIST, "all sequences of referenda with different delays, outcomes, cancellations and the enactments that follow them",
  "The tests enact one proposal after one delay; double or lost enactment needs several referenda, equal calls and zero delays.",
  [L], [("bake_referendum scheduling", L)], [("Scheduler agenda", "pending enactments", L)],
  ["executions recorded by the dispatched calls themselves"]),
p("D09", "Approval thresholds follow their published formulas for every tally",
  "Simple majority approves exactly when the ayes exceed the nays; the super-majority rules approve exactly when nays over the root of the turnout compare with ayes over the root of the electorate as documented. More ayes or fewer nays never turn an approval into a rejection, and no tally makes the computation fail. No votes at all never approves a super-majority-approve referendum.",
  ["inputs"], "all tallies (ayes, nays, turnout, electorate) in a dense small range and around large magnitudes and perfect squares",
  "The tests compare three hand-picked tallies.",
  [H], [("Approved::approved", H), ("compare_rationals", H)], [], ["the approval decision"]),
p("D10", "Blacklisted, vetoed and cancelled proposals stay out as long as decreed",
  "A blacklisted proposal can never be proposed again, except by the external majority and default authorities, who may override it, is removed from every queue and its named referendum is cancelled. A vetoed external proposal cannot be proposed in public or by the plain external authority before its cool-off ends, each vetoer can veto a proposal only once, and a veto never shortens an existing ban. A proposal can be emergency-cancelled only once.",
  HIST, "all sequences of proposing, vetoing by several vetoers, blacklisting, emergency cancelling, fast-tracking and block steps across cool-off ends",
  "The tests veto once or twice in a fixed order; a ban is circumvented by an order in which two mechanisms meet.",
  [L], [("veto_external", L), ("blacklist", L), ("emergency_cancel", L), ("external_propose*", L)],
  [("Blacklist", "banned proposals, until when and vetoed by whom", L), ("Cancellations", "emergency-cancelled proposals", L)],
  ["acceptance of later proposals, queues, referenda"]),
p("D11", "Every privileged democracy action is reserved for its configured authority",
  "External proposing in its three forms, fast-tracking, instant fast-tracking, vetoing, cancelling proposals and referenda, blacklisting and clearing are refused for every origin but the configured one (and instant periods unless allowed), and everybody else's calls (proposing, seconding, voting, removing votes, delegating, undelegating, unlocking) for any but a signed one; a refused call changes nothing. Fast-tracking accepts only a queued external proposal that is not super-majority-approve, with a voting period of at least one block.",
  ["inputs", "histories"], "every call with every kind of origin in every reachable state of a small set of queues and referenda",
  "The tests try one wrong origin per call in one state.",
  [L], [("ensure_origin of each call", L), ("ensure_external_origin", L), ("fast_track", L)], [],
  ["results of calls, unchanged state"]),
p("D12", "Proposal metadata follows its proposal and disappears with it",
  "Metadata can be set or cleared only by whoever may own it (the proposer, the matching external authority, or root for a referendum), with a known preimage. It moves with its proposal from the queue to the referendum and is removed when the proposal or referendum is cancelled, vetoed, blacklisted, cleared from the queue or replaced by another external proposal; the metadata of a decided referendum stays until anybody clears it. No metadata passes to another proposal.",
  HIST, "all sequences of setting and clearing metadata, tabling, fast-tracking, vetoing, cancelling, clearing and ending referenda",
  "The tests set metadata and follow one path each.",
  [L], [("set_metadata", L), ("transfer_metadata / clear_metadata", L)], [("MetadataOf", "metadata by owner", L)],
  ["the stored metadata after every call"]),
p("D13", "Queues and per-account records never exceed their configured limits",
  "The number of queued public proposals, of deposits per proposal, of votes per account and of vetoers per proposal never exceeds its configured maximum. A call that would exceed one is refused and changes nothing, and a call within the limits is not refused because of them.",
  HIST, "all sequences of proposing, seconding, voting and vetoing around each limit",
  "The tests approach each limit along one path.",
  [L], [("bounded pushes in propose, second, try_vote, veto_external", L)], [("PublicProps, DepositOf, VotingOf, Blacklist", "bounded records", L)],
  ["sizes of the stored records, call results"]),
p("D14", "Votes survive encoding, and their weights follow the conviction scale",
  "Every vote encodes to one byte and decodes to itself; bytes that are no vote are refused. A balance carries a tenth of its weight without conviction and one to six times its weight with it, locked for 0, 1, 2, 4, 8, 16 or 32 periods, growing with conviction and saturating instead of overflowing. Adding and removing the same vote leaves every tally as it was.",
  ["inputs"], "all 256 vote bytes, all convictions, all pairs of votes over a set of balances including the extremes",
  "The tests check single values.",
  [V, C, T], [("Vote encode/decode", V), ("Conviction::votes, lock_periods", C), ("Delegations arithmetic", T)], [], ["encoded bytes, weights"]),
]
