# Properties of the dispenser and the migration receiver.
from props_d import p, HIST
L, X, R = "pallets/dispenser/src/lib.rs", "pallets/dispenser/src/extensions.rs", "pallets/polimec-receiver/src/lib.rs"
DI = ("Dispensed", "identities that were served", L)
DA = ("DispenseAmount", "amount dispensed to each", L)
EM = ("ExecutedMigrations", "migrations carried out", R)
def add(props, NA, ENUM, HARNESS):
    HARNESS["P"] = "x-dispenser"
    HARNESS["R"] = "x-receiver"
    props += [
p("P01", "An identity is dispensed to at most once, and only on its own valid credential",
  "A dispense succeeds only for a caller who presents an unexpired credential issued to that very account under the whitelisted policy, only once per identity whichever accounts and credentials it uses, and only if the pot holds the amount and the caller has room for one more vesting schedule. A refused dispense changes nothing, neither the balances nor the record of who was served.",
  HIST, "all sequences of dispenses by several accounts with genuine, expired, foreign, wrong-policy and shared-identity credentials, changes of the amount, transfers to and from the pot and block steps",
  "Tests dispense once or twice with a full pot; who asks, with which credential and in what order is the input space.",
  [L], [("dispense", L), ("EnsureOriginWithCredentials", "pallets/common/src/credentials/mod.rs")], [DI], ["result of every dispense, balances, served identities"]),
p("P02", "What is dispensed comes from the pot, part free, the rest vesting as configured",
  "A dispense moves exactly the current amount from the pot to the caller and nothing else: the free part is spendable at once, all the rest is locked until the lock period is over and then vests in equal steps per block over the vesting period, and until then it cannot be spent. An amount whose step would be nothing is refused instead of dispensed. The total of all balances never changes.",
  HIST, "all sequences of dispenses, claims of what has vested, spending, changes of the amount and block steps across the end of the lock and of the vesting",
  "Tests look at the schedule right after one dispense of the default amount.",
  [L], [("dispense", L)], [DA, ("Vesting", "schedules made for the served accounts", L)], ["spendable and locked balance at every block"]),
p("P03", "Only the admin sets the amount, and from then on it is what is dispensed",
  "Only the admin origin can change the amount, to more than the part that is free; every later dispense pays the amount then in force and no earlier one is affected. Any other origin and any smaller amount is refused without effect.",
  HIST, "all sequences of changes by the admin and by others to amounts around the limits, interleaved with dispenses",
  "Tests set one amount and do not dispense at the limits.",
  [L], [("set_dispense_amount", L)], [DA], ["amount in force, what later dispenses pay"]),
p("P04", "Transactions take effect once and in order; without funds only a dispense can",
  "A signed transaction is applied only with exactly the next nonce of its account, which then advances by one: an older one is never accepted again, a later one only waits behind the ones before it. From an account that nothing keeps alive, neither funds nor other sufficient assets, only a dispense is accepted, every other call is refused before it can be put into a block.",
  HIST, "all sequences of transactions with old, next and later nonces by accounts with funds, with only an asset, and with nothing, both validated for the pool and applied",
  "Tests of the extension cover single nonces and two accounts.",
  [X], [("CheckNonce::validate, CheckNonce::pre_dispatch", X)], [("Account", "nonce and references of every account", "frame-system")], ["validity, tags and result of every transaction, nonces"]),
p("P05", "Only a dispense that can serve its identity is free of charge",
  "A dispense under the whitelisted policy is exempt from fees exactly if its credential is genuine, current and its sender's and its identity was not served yet; the exemption ends with the dispense. Every other call and a dispense on a stale, forged, foreign or used credential is charged.",
  HIST, "all reachable states times all calls and credentials, the exemption compared at each",
  "Tests check the exemption in two states.",
  [L], [("feeless_if of dispense", L)], [DI], ["whether a call is feeless in every state"]),
p("R01", "Only Polimec itself can deliver migrations, and a batch is all or nothing",
  "Migrations are carried out only when they come from Polimec's own parachain; users, the root and other parachains are refused. If any migration of a batch cannot be carried out, because its user is not an account of this chain or the sovereign account cannot pay, none of the batch is: no balance moves and none of it counts as executed, so that it can be delivered again.",
  HIST, "all sequences of batches of migrations, valid and invalid, from every kind of origin, while the funds of the sovereign account run out",
  "The pallet has no tests of its own.",
  [R], [("execute_migrations", R)], [EM], ["result of every batch, balances, executed migrations"]),
p("R02", "Every migration is paid out exactly once, in full, from the sovereign account",
  "A migration, identified by its user, its kind and its number, pays its tokens from Polimec's sovereign account to its user exactly once, however often and in whatever batches it is delivered; a repetition is skipped and does not hold up the others of its batch. Migrations that differ in any of the three are all paid. The sovereign account is not closed by it.",
  HIST, "all sequences of batches that repeat migrations within a batch and across batches, and that share user, kind or number",
  "The pallet has no tests of its own.",
  [R], [("execute_migrations", R)], [EM], ["balances and executed migrations after every batch"]),
p("R03", "Migrated tokens vest from the genesis moment for their vesting time",
  "The tokens of a migration are locked and vest in equal steps over the vesting time it states, counted from the chain's genesis moment and not from the delivery: what is due by then can be claimed, what is not cannot be spent, and tokens of one migration vest independently of others of the same user.",
  HIST, "all sequences of deliveries early and late, migrations with different vesting times for the same user, claims, spending and block steps",
  "The pallet has no tests of its own.",
  [R], [("execute_migrations", R)], [("Vesting", "schedules of every user", R)], ["locked and spendable balance at every block"]),
]
