from props_d import p, HIST
LI = "pallets/linear-release/src/impls.rs"; LL = "pallets/linear-release/src/lib.rs"; LT = "pallets/linear-release/src/types.rs"
def add(props, NA, ENUM, HARNESS):
    HARNESS["L"] = "x-linear"
    props += [
p("L01", "Releases follow the schedules: what is due is released, the rest stays held",
  "At any time, releasing funds of an account for a reason leaves on hold exactly what is still locked in its schedules for that reason: a schedule locks all of its amount until its start, then one step per block, and nothing once it has run out. Releasing before anything is due releases nothing, every unit is released exactly once, and nobody can prevent or hasten a release.",
  HIST, "all sequences of grants (begun, future, uneven, ending at once, bonded for later), releases by the owner and by others and block steps, over two reasons and two accounts",
  "Tests follow a few single schedules at chosen blocks; histories that mix schedules, reasons and late releases are not covered.",
  [LI, LT], [("do_vest", LI), ("add_release_schedule", LI), ("locked_at", LT)], [("Vesting", "schedules of an account and reason", LL)], ["held and free balance", "result of a release"]),
p("L02", "Merging schedules neither frees funds early nor locks them for longer",
  "A merge replaces two schedules by one with exactly what both still lock and the later end, starting no earlier than either; a completed one is dropped and the other kept unchanged. Merging a schedule with itself changes nothing, an index out of range fails, and other schedules and accounts are untouched.",
  HIST, "all sequences of grants, merges in every index order, releases and block steps",
  "Tests merge chosen pairs; the state of the schedules at the time of the merge and repeated merges are the input space.",
  [LI, LL], [("merge_schedules", LL), ("merge_vesting_info", LI)], [("Vesting", "schedules of an account and reason", LL)], ["locked amount at every block"]),
p("L03", "A vested transfer moves exactly the amount and puts it under the schedule",
  "A vested transfer succeeds only with a valid schedule of at least the minimum, room for another schedule and enough spendable funds, and then moves exactly that amount to the target, held under the schedule; otherwise nothing changes. Only the root can force one from another account. An account never has more schedules per reason than the maximum.",
  HIST, "all sequences of valid and invalid transfers, forced transfers, bonds and releases with few funds and few schedules allowed",
  "Tests try single transfers from fresh accounts.",
  [LI, LL], [("do_vested_transfer", LI), ("force_vested_transfer", LL), ("can_add_release_schedule", LI)], [("Vesting", "schedules of an account and reason", LL)], ["balances, holds, schedules, total issuance"]),
p("L04", "Removing schedules releases all and only their locked funds",
  "Removing a schedule releases what it still locks and leaves every other schedule as it was; removing all schedules of an account for a reason always succeeds while it has any and leaves nothing of them held.",
  HIST, "all sequences of grants, removals of one or all schedules, releases and block steps, schedules completing in between",
  "Tests remove schedules that have not completed.",
  [LI], [("remove_vesting_schedule", LI), ("remove_all_vesting_schedules", LI)], [("Vesting", "schedules of an account and reason", LL)], ["held balance, schedules"]),
p("L05", "Releasing scheduled funds leaves other holds of the account alone",
  "Funds held for a reason that no schedule governs, and funds held for other reasons, stay on hold when the schedules of the account are released, merged, removed or added to.",
  HIST, "all sequences of grants, releases and block steps while other funds are on hold for the same and for other reasons",
  "No test puts other funds on hold for the same reason.",
  [LI], [("write_release", LI)], [("Vesting", "schedules of an account and reason", LL)], ["held balance per reason"]),
]
    import props_f
    props_f.add(props, NA, ENUM, HARNESS)
    import props_s
    props_s.add(props, NA, ENUM, HARNESS)
    import props_p
    props_p.add(props, NA, ENUM, HARNESS)
    import props_o
    props_o.add(props, NA, ENUM, HARNESS)
    import props_t
    props_t.add(props, NA, ENUM, HARNESS)
