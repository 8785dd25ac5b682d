# Properties of the parachain-staking pallet.
from props_d import p, HIST
L, T, R, AC, I = ("pallets/parachain-staking/src/" + f for f in ("lib.rs", "types.rs", "delegation_requests.rs", "auto_compound.rs", "inflation.rs"))
CI = ("CandidateInfo", "bond, counted total, capacities and status of every candidate", L)
DS = ("DelegatorState", "delegations, total and status of every delegator", L)
TD = ("TopDelegations, BottomDelegations", "delegations that count and those that do not", L)
RQ = ("DelegationScheduledRequests", "pending decreases and revocations", L)
def add(props, NA, ENUM, HARNESS):
    HARNESS["S"] = "x-staking"
    props += [
p("S01", "Exactly the stake of an account is on hold, and it stays its own",
  "At any time an account has exactly on hold what it has at stake: a candidate its bond, a delegator the sum of its delegations, under the reason of its role; everybody else nothing. Staking, unstaking, being displaced, a candidate's departure and auto-compounded rewards change holds only by the change of the stake, and nobody but the owner loses spendable funds. Stakes are made only with spendable funds; no operation creates or destroys money except rewards.",
  HIST, "all sequences of joining, leaving, increases, decreases, delegations, displacements, revocations, transfers, rewards and rounds over a few accounts with scarce funds and scarce places",
  "Tests check the hold after single calls; what displacement, departure of candidates and compounding do to holds in combination is not covered.",
  [L, T, R], [("delegate", L), ("execute_leave_candidates_inner", L), ("return_stake", T), ("Bond::decrease", T), ("mint_and_compound", L)], [CI, DS], ["balance on hold per reason, free balance, total issuance"]),
p("S02", "All records of a delegation agree, and Total is the sum of all stakes",
  "A delegation is recorded in the state of its delegator exactly when it is in the top or the bottom list of its candidate, with the same amount and once only; a pending request exists only for an existing delegation, and the amount it takes off is what the delegator's record says. Totals of the delegator, of both lists and of the candidate (own bond, counted delegations, lowest and highest amounts, capacities, number of delegators) are what the lists say, and Total is the sum of all bonds and delegations.",
  HIST, "all sequences of delegations, changes, displacements, revocations, departures of delegators and candidates and rounds, with lists of one or two places",
  "Tests compare selected fields after scripted sequences; the records are kept in step by hand in a dozen places.",
  [L, T, R], [("add_delegation", T), ("rm_delegation_if_exists", T), ("increase_delegation, decrease_delegation", T), ("reset_top_data, reset_bottom_data", T), ("delegation_execute_scheduled_request", R)], [CI, DS, TD, RQ, ("Total", "all capital locked by staking", L)], ["every stored record after every call"]),
p("S03", "The largest delegations count, and only the smallest is ever displaced",
  "Of a candidate's delegations the largest ones, up to the maximum, count, the others wait in the bottom list, both in descending order, a newcomer behind its equals, and among equals those that counted go on counting; changing an amount or withdrawing moves delegations between the lists accordingly. A delegation to a candidate with both lists full is accepted only if it is greater than the smallest one, of which the last is displaced: its owner gets the stake back and a request for it is dropped. Nobody else's delegation is touched.",
  HIST, "all sequences of new delegations, increases, decreases and revocations with equal and different amounts, over lists of one or two places each",
  "Tests fill the lists once in a chosen order; order, ties, and moves across the boundary in both directions are the input space.",
  [T], [("add_top_delegation, add_bottom_delegation", T), ("increase_top_delegation, increase_bottom_delegation", T), ("decrease_top_delegation, decrease_bottom_delegation", T), ("rm_top_delegation", T)], [TD, CI], ["top and bottom lists, stakes of displaced delegators"]),
p("S04", "The active candidates with the most backing are selected, as they then are",
  "The candidate pool holds exactly the active candidates, each with its bond and its counted delegations at that time. For every round the candidates with the most backing, as many as there are places, are selected among those with the minimum bond, each with a snapshot of its bond, its counted delegations (less what is being withdrawn) and their auto-compounding; if none qualifies, the former selection stays in office. Later changes leave the snapshot alone.",
  HIST, "all sequences of changes of bonds and delegations, pauses, departures and returns of candidates and rounds, with fewer places than candidates and with equal backing",
  "Tests check the selection after a few scripted rounds.",
  [L, T, R], [("select_top_candidates, compute_top_candidates", L), ("update_active", L), ("get_rewardable_delegators", L)], [("CandidatePool", "active candidates by counted total", L), ("AtStake", "snapshot of every selected candidate and round", L), ("SelectedCandidates, Staked", "those in office, and their backing", L)], ["pool, selection and snapshots after every step"]),
p("S05", "Stake leaves only at its owner's request, as asked for, and after the delay",
  "A bond or delegation decreases only through a request of its owner (or the departure or displacement the rules provide for), executed, by whoever, no earlier than the configured delay after the request; then exactly the requested amount becomes spendable. There is one pending request per stake; until executed it can be cancelled, which leaves everything as it was. A revocation of the last delegation, or a departure, ends the delegator's role; a decrease below the minimum is refused. While a departure is pending, no other request can be made.",
  HIST, "all sequences of requests, cancellations, executions by owners and others, increases and rounds, with different delays for every kind of request, and without any",
  "Tests use the same delay for everything and execute requests in the first round possible.",
  [L, R, T], [("delegation_schedule_revoke, delegation_schedule_bond_decrease", R), ("delegation_execute_scheduled_request", R), ("delegator_schedule_revoke_all, delegator_execute_scheduled_revoke_all", R), ("schedule_bond_less, execute_bond_less", T)], [RQ, CI, DS], ["result of every call, holds, requests"]),
p("S06", "Candidates leave, pause and return by the rules; their delegators lose nothing",
  "A candidate who announces the departure leaves the pool at once and is not selected until the departure is cancelled, which brings it back as active; anybody can carry it out, but only once the delay is over. Then the bond and every delegation, with its requests and auto-compounding, is gone and returned. A candidate who goes offline leaves the pool until it comes back, keeping bond and delegations. Afterwards the account may join anew, in any role.",
  HIST, "all sequences of announcements, cancellations, executions, pauses, delegations to the leaving candidate and rounds",
  "Tests try each of these once, on candidates with few delegations and requests.",
  [L, T], [("schedule_leave_candidates, cancel_leave_candidates", L), ("execute_leave_candidates_inner", L), ("go_offline, go_online", L), ("can_leave", T)], [CI, ("CandidatePool", "active candidates", L)], ["result of every call, pool, stakes"]),
p("S07", "Minimum stakes, maximum numbers and exclusive roles hold in every state",
  "Nobody is candidate and delegator at once. A candidate's bond is never below the minimum to join, a delegation never below the minimum delegation and a delegator's total never below the minimum of a delegator, however they are decreased; a delegator has at most the maximum number of delegations, one per candidate, and a candidate's lists never exceed their maximum. A call with a count that is too low is refused, a sufficient one never is, and a call signed by nobody, or by the root in an account's name, is refused.",
  HIST, "all sequences of joining, delegating, requests and executions at, just above and just below every limit, of calls with sufficient and insufficient counts, and with every kind of origin",
  "Tests try values next to the limits from one state each.",
  [L, T, R], [("join_candidates", L), ("delegate_with_auto_compound", AC), ("delegation_schedule_bond_decrease", R), ("schedule_bond_less", T)], [CI, DS], ["result of every call, stored stakes"]),
p("S08", "A round's rewards are paid once, to those who backed it, in the agreed shares",
  "A round's issuance, as the inflation schedule and the expectations give it for what was staked when it began, is divided by the points the collators earned in that round. A collator gets the commission (as in force when the payment of the round begins), and shares the rest with the delegators by the stakes of the round's snapshot; a delegation that was not counted, or made later, gets nothing. All is paid by the paymaster after the delay, one collator per block, each once, and never more than the issuance.",
  HIST, "all sequences of authored blocks, delegations, revocations, departures, changes of commission and rounds between earning and payment, block by block and round by round",
  "Tests follow a few scripted rounds with one change in between.",
  [L, T, I], [("prepare_staking_payouts, handle_delayed_payouts", L), ("pay_one_collator_reward", L), ("compute_issuance", L), ("mint_and_compound", L)], [("DelayedPayouts, Points, AwardedPts", "what is to be paid for past rounds", L), ("AtStake", "snapshot per round and collator", L)], ["balance of every account after every block"]),
p("S09", "Auto-compounding stakes the set share of rewards while the delegation lasts",
  "Of a delegator's reward exactly the percentage set for that delegation (at the time of the round's snapshot) is added to it, rounded up, with all records and lists following; nothing is added while the delegation is being revoked, or once it is gone. A setting exists only for an existing delegation, is changed only by its owner, and ends with the delegation, however it ends: a later delegation starts without. Other delegations' settings are untouched.",
  HIST, "all sequences of settings, delegations with and without compounding, displacements, revocations, departures of delegators and candidates, and rewarded rounds",
  "Tests set a value and look at it, or pay one reward; the ways in which a delegation can end are only partly covered.",
  [AC, L, R], [("set_auto_compound, delegate_with_auto_compound", AC), ("remove_auto_compound", AC), ("mint_and_compound", L)], [("AutoCompoundingDelegations", "settings of every candidate's delegations", L)], ["settings, stakes and free balances after every step"]),
p("S10", "Rounds follow the clock, points go to authors, and the session has the selected",
  "A round lasts its number of blocks, or ends in the next block when it is shortened to less than has passed; the session ends with it, is planned from the round's first block and length, and gets exactly the selected candidates as validators. Every author of a block earns twenty points in the current round, and the round's points are the sum of its authors'.",
  HIST, "all sequences of block steps, authors, changes of the length of rounds and of the number of selected, pauses and departures",
  "Tests change the length of a round once or twice at chosen blocks.",
  [L, T], [("on_initialize", L), ("RoundInfo::should_update, update", T), ("note_author", L), ("SessionManager, ShouldEndSession, EstimateNextSessionRotation", L)], [("Round", "number, first block and length of the current round", L), ("Points, AwardedPts", "points of a round", L)], ["round, points and answers to the session pallet in every block"]),
p("S11", "Only governance changes parameters, only to valid values, and each only its own",
  "Staking expectations, inflation, the reserve account and its percentage are changed only by monetary governance, the number of selected, the commission and the length of a round only by the root; everybody else is refused and nothing changes. A value already set, out of range or out of order is refused, an accepted one is stored as given, the length of a round also rescales the round's inflation, and nothing else changes.",
  HIST, "all sequences of every governance call from every kind of origin, with valid, unchanged and invalid values",
  "Tests try each call from one state and one or two origins.",
  [L, I, T], [("set_staking_expectations, set_inflation", L), ("set_parachain_bond_account, set_parachain_bond_reserve_percent", L), ("set_total_selected, set_collator_commission, set_blocks_per_round", L)], [("InflationConfig, ParachainBondInfo, TotalSelected, CollatorCommission, Round", "parameters", L)], ["result of every call, stored parameters"]),
]
