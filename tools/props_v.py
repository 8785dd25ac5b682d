from props_d import p, HIST
S = "pallets/on-slash-vesting/src/lib.rs"
PROPS = [
p("V01", "Handling a slash never fails and never makes less of the account spendable",
  "Whenever held funds of an account with vesting schedules are slashed, in whatever state the schedules are, the handling completes and the account can afterwards spend at least what it could before, other locks aside. The vesting lock afterwards is the sum of what remains locked in its schedules, each reduced by the slashed amount.",
  HIST, "all sequences of granted schedules (begun, future, uneven, already over), holds, vesting calls, repeated slashes and block steps",
  "Two tests slash once in the middle of schedules that started at block 1.",
  [S], [("OnSlash for pallet_vesting", S)], [("Vesting", "schedules of an account", S)], ["spendable balance, vesting lock"]),
p("V02", "After a slash the rest of a schedule vests over its original time",
  "What remains of a schedule after a slash unlocks in equal whole-unit steps between the later of the slash and the schedule's start, and the schedule's original end; it neither starts before its starting block nor restarts. A schedule with nothing left to lock, or less than one unit per block, is gone.",
  HIST, "all sequences of granted schedules, holds, vesting calls, repeated slashes and block steps, checking what is locked in every later block",
  "The tests look at the numbers right after one slash, not at later blocks, repeated slashes or future schedules.",
  [S], [("OnSlash for pallet_vesting", S)], [("Vesting", "schedules of an account", S)], ["amount locked in every later block"]),
p("V03", "A slash changes only the slashed account, and every handler is told once",
  "Handling a slash leaves other accounts' balances, locks and schedules, accounts without vesting, and the total issuance as they are. Every configured handler is told the account and the amount exactly once.",
  HIST, "all sequences of grants, holds, slashes and block steps over two accounts with several handlers configured",
  "The tests have one account with schedules and one handler.",
  [S], [("OnSlash for tuples", S), ("OnSlash for pallet_vesting", S)], [], ["balances, schedules, what other handlers receive"]),
p("M01", "Generated account names and account ids correspond one to one",
  "Different account names of up to 32 characters give different, non-zero account ids, each id is looked up as exactly its name, and a name gives the same id wherever it is declared.",
  ["inputs"], "all names of one or two characters, and systematic families of longer names up to 32 characters",
  "The test only prints two ids.",
  ["macros/src/generate_accounts.rs"], [("macro_impl", "macros/src/generate_accounts.rs")], [], ["generated constants and lookup table"]),
]
