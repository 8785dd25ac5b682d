# Properties of the funding pallet (F) and of the credentials its calls need (C).
from props_d import p, HIST
D = "pallets/funding/src/functions/"
A, E, B, K, X, S, G, M = (D + f for f in ("1_application.rs", "2_evaluation.rs", "3_auction.rs", "4_contribution.rs",
    "5_funding_end.rs", "6_settlement.rs", "7_ct_migration.rs", "misc.rs"))
L = "pallets/funding/src/lib.rs"; T = "pallets/funding/src/types.rs"; PB = "pallets/proxy-bonding/src/functions.rs"
CL = "polimec-common/common/src/lib.rs"
J = "polimec-common/common/src/credentials/mod.rs"
PD = ("ProjectsDetails", "status, round, issuer and totals of every project", L)
def add(props, NA, ENUM, HARNESS):
    HARNESS["F"] = HARNESS["C"] = "x-funding"
    props += [
p("F01", "A project moves through its rounds in order, each step only when it is due",
  "A project goes from application through evaluation, auction, community and remainder round to funding success or failure, settlement, settled and (if successful) migration, never back and never past a step. Each step is taken only while the project is in the round before it and that round is over, except that funding may end early once all tokens are sold; each round lasts its configured number of blocks. Settlement ends only when nothing is left to settle, migration only when every participant's migration is confirmed.",
  HIST, "all sequences of the calls that move a project, with evaluations, bids, contributions and settlements in between, block by block, from the application, the auction, the community round, sold-out, successful and failed projects and two projects at a time",
  "Tests drive projects with a helper that makes the right call in the right block; calls in the wrong round or block are tried one at a time.",
  [A, E, B, X, S, G, M], [("transition_project", M), ("do_end_evaluation", E), ("do_end_auction", B), ("do_end_funding", X), ("do_start_settlement, do_mark_project_as_settled", S), ("do_mark_project_ct_migration_as_finished", G)],
  [PD], ["result of every call, status and round of the project"]),
p("F02", "Only valid applications are accepted; they are the issuer's to change or drop",
  "A project is created exactly when its metadata is valid (decimals, price, sizes, ticket minima, currencies and funding target within the limits) and its institutional issuer has no other active project. Until the evaluation starts the issuer, and nobody else, may replace its metadata by other valid metadata, which changes every derived figure (funding target, tokens, first bucket) accordingly, or remove it, which frees the issuer to apply anew. A DID has at most one active project, and evaluation starts only with a policy on file.",
  ["histories", "inputs"], "all sequences of create, edit, remove and start by issuers, other institutions, professionals and accounts that share a DID; and all metadata at and around every limit",
  "Tests create one project from default metadata and vary one field at a time.",
  [A, T], [("do_create_project, do_edit_project, do_remove_project", A), ("ProjectMetadata::is_valid", T)], [("ProjectsMetadata, ProjectsDetails, Buckets", "the application", L), ("DidWithActiveProjects", "the active project of a DID", L)], ["result of every call, stored application"]),
p("F03", "An evaluation bonds its worth in PLMC; its early share is what was missing",
  "An evaluation is accepted exactly in the evaluation round, under the project's policy, from the minimum amount on, by anyone but the issuer's DID, with room left and enough PLMC; it holds the PLMC worth the amount at the current price and splits it in an early part (up to what is missing to a tenth of the funding target) and a late part. When the round ends, the project enters the auction exactly when evaluations reach that tenth.",
  HIST, "all sequences of evaluations of chosen amounts by accounts of every kind, price changes and block steps",
  "Tests make identical evaluations at one price until the threshold is just passed.",
  [E, M], [("do_evaluate", E), ("do_end_evaluation", E)], [("Evaluations", "bonds with their early and late parts", L), PD], ["held PLMC, stored evaluations, outcome of the round"]),
p("F04", "A bid buys from bucket after bucket, bonded and paid at the bucket's price",
  "A bid is accepted exactly in the auction, under the policy, by professionals and institutions other than the issuer's DID, in an accepted currency, within the ticket sizes and the multiplier allowed for its kind, with enough funds; it is split where a bucket is used up, the next bucket holding a tenth of the auction's tokens at a price higher by a tenth of the minimum. Each part pays its price in full into the project's escrow and bonds its worth divided by the multiplier, first from the bidder's evaluation bond beyond what may be slashed, then from free funds.",
  HIST, "all sequences of bids of every kind of investor, currency, mode, multiplier and size (including exactly the rest of a bucket), with evaluators among the bidders, price changes and block steps",
  "Tests place bids that fit into single buckets, one bidder kind at a time.",
  [B, M, T], [("do_bid, do_perform_bid", B), ("Bucket::update", T), ("try_plmc_participation_lock, bond_plmc_with_mode", M)], [("Bids, Buckets", "bids and the current bucket", L)], ["stored bids and bucket, escrow, holds"]),
p("F05", "The highest bids win, ties go to the earlier; the price is their average",
  "When the auction ends, its tokens go to the highest bids, among equal prices to the earlier ones; the last one that wins may win a part, the others are rejected. The price of the community round is the average of the winning prices weighted by value, tokens that nobody bid for counting at the minimum price. The amounts sold and raised that the project shows are exactly those of the winning bids.",
  ["histories", "inputs"], "all sequences of bids up to and beyond the allocation, with equal prices and exact fits, then the end of the auction; and all amounts sold from buckets of many sizes and prices",
  "Tests compare a few bid lists with hand-computed results, mostly without ties.",
  [B, M, T], [("decide_winning_bids", M), ("Bucket::calculate_wap", T)], [("Bids", "bids with their outcome", L), PD], ["status of every bid, the average price, totals"]),
p("F06", "Contributions buy at the auction's price what is left, and no more",
  "A contribution is accepted exactly in the community round by anyone who did not win in the auction, and in the remainder round by anyone, except the issuer's DID; under the policy, in an accepted currency, within ticket sizes and multipliers for its kind and with enough funds. It gets the tokens asked for or all that are left, pays them at the auction's weighted average price and bonds their worth divided by the multiplier. Tokens sold and left, and the amount raised, always add up.",
  HIST, "all sequences of contributions of every kind of investor, mode, currency and size up to sold-out, by winners and losers of the auction, price changes and block steps",
  "Tests contribute once per investor at fixed prices.",
  [K, M], [("do_contribute, do_perform_contribution", K), ("DidWithWinningBids", L)], [("Contributions", "contributions", L), PD], ["stored contributions, escrow, holds, tokens left"]),
p("F07", "Participation limits hold per DID, per account and per project",
  "What a DID has bid for in the auction or contributed, over all its accounts and all parts of its bids, never exceeds the maximum ticket of its investor kind; the numbers of evaluations, bids and contributions per account and of evaluations and bids per project never exceed their limits; and every counter shown equals what is stored. A call within all limits is not refused for one.",
  HIST, "all sequences of participations around every limit by several accounts, two of which share a DID",
  "Tests exceed one limit with one account and one call.",
  [E, B, K], [("do_evaluate", E), ("do_perform_bid", B), ("do_perform_contribution", K)], [("AuctionBoughtUSD, ContributionBoughtUSD, EvaluationCounts, BidCounts", "counters", L)], ["counters against the stored participations"]),
p("F08", "Funds are conserved: every hold and escrow is backed by live participations",
  "At every moment the PLMC an account has on hold for evaluations equals its unsettled evaluation bonds and that for participations its unsettled bonds plus what still vests; the escrow of a project holds what it owes to its participants; no call creates or destroys PLMC or funding assets other than by the documented slash, which moves them. A call that is refused changes no balance.",
  HIST, "all sequences of everything that moves money, from the application to the last settlement, with price changes and payouts at every point",
  "Tests check balances after fixed scenarios at constant prices.",
  [E, B, K, S, M, PB], [("bond_plmc_with_mode, release_participation_bond_for, release_funding_asset", M), ("do_settle_bid, do_settle_contribution, do_settle_evaluation", S)], [("holds of pallet-balances, escrow accounts", "money of and for participants", L)], ["every balance, hold and total issuance after every call"]),
p("F09", "Settling a successful project gives everyone exactly what they bought",
  "Settling a winning bid mints its tokens, pays the project for them at the lower of the bid's and the average price and refunds the rest; settling a contribution mints its tokens and pays the project what was paid. Classic bonds are vested from the start of the settlement for the duration of their multiplier, or released if that is a block; excess bonds are released. Each participation is settled once, in any order, by anyone, without effect on the others.",
  HIST, "all orders of settling evaluations, bids and contributions of oversubscribed and undersubscribed projects, price changes, block steps and releases in between",
  "Tests settle in storage order at constant prices.",
  [S, M], [("do_settle_bid, do_settle_contribution, calculate_refund", S), ("set_plmc_bond_release_with_mode", S)], [("Bids, Contributions", "what is left to settle", L)], ["balances, tokens and vesting schedules after every call"]),
p("F10", "Failures and lost bids give everything back; evaluators of them are slashed",
  "After a failed funding every bid and contribution gets back all that it paid and bonded; evaluators lose a fifth of their original bond to the treasury and get the rest. After a failed evaluation they get everything. A rejected bid can be settled for a full refund as soon as the auction is over.",
  HIST, "all orders of settling failed projects and losing bids, with evaluation bonds partly used for bids, price changes and block steps in between",
  "Tests settle one participation of a kind, with bonds that are not shared.",
  [S], [("do_settle_bid, do_settle_contribution, do_settle_evaluation, slash_evaluator", S)], [("Evaluations, Bids, Contributions", "what is left to settle", L)], ["balances and holds after every call"]),
p("F11", "Fees and evaluator rewards follow the published brackets",
  "A project succeeds from a third of its target on. The fee is a share of the tokens sold: 10% of what was raised up to a million, 8% up to five more, 6% beyond; 50% of it go to liquidity, 20% to long-term holders and 30% to the evaluators (a fifth of these over the early, four fifths over all evaluations, by value), who are slashed instead when the project fails. Tokens issued never exceed those sold plus the fee.",
  HIST, "all sequences of evaluations, bids and contributions to amounts raised on both sides of every threshold, with all settlements",
  "Tests compute one outcome per bracket from the code's own helpers.",
  [X, S, M], [("do_end_funding", X), ("calculate_fee_allocation, generate_evaluator_rewards_info", M), ("do_settle_evaluation", S)], [PD], ["tokens minted, rewards information"]),
p("F12", "Treasury bonds for OTM participations stay until due; fees are accounted for",
  "An OTM participation bonds the treasury's PLMC instead of the participant's, for a fee in the funding asset at current prices. The bond stays on hold for the project until the release is set and its block has come (at once after a failure), then returns to the treasury in full; fees can be taken only after success; after failure, and for what an auction does not sell, they are refunded. Bonds and fees of different projects never mix, and there is never less bonded than the project's OTM participations need.",
  HIST, "all sequences of OTM and classic participations, settlements, calls to move bonds and fees, block steps over the release and price changes",
  "Tests bond and release for single derivation paths and one project.",
  [PB, S, M], [("bond_on_behalf_of, set_release_type, refund_fee", PB), ("set_plmc_bond_release_with_mode", S)], [("Releases", "when the treasury's bonds can go back", "pallets/proxy-bonding/src/lib.rs")], ["bonds, fee accounts, treasury and fee recipient"]),
p("F13", "What is to be migrated is what each participant was given",
  "For every participant the recorded migration lists exactly the tokens minted by each settlement with its origin and vesting time, so their sum is the participant's tokens; and the counter of participants that are left to migrate equals the number whose migration is not confirmed. An offchain migration is confirmed only by the issuer, once per participant.",
  HIST, "all orders of settlement and confirmation by issuers and others, including repeated ones",
  "Tests confirm each participant once.",
  [S, G], [("create_migration", G), ("do_confirm_offchain_migration", G)], [("UserMigrations, UnmigratedCounter", "what is to be migrated", L)], ["migrations, counter, tokens"]),
p("F14", "Migrating to a project's chain follows the protocol, whatever it answers",
  "The channel of a project's chain is accepted only with its parameters in range and only for a project that is migrating there; readiness is checked when both channels are open, and again only by the issuer; the check passes exactly when the answers to its own queries, from that chain, show the tokens and the receiver pallet. Migrations are sent only then, once per settled participant until they fail, with exactly what the participant has, and are confirmed or failed exactly by the answer to their own query. Answers by anyone else, late, repeated or of another kind change nothing.",
  ["histories", "fault_sequences"], "all sequences of channel notices, readiness checks, responses of every kind (in any order, repeated, forged), migrations and transport failures",
  "Tests run the protocol once with the expected answers.",
  [G], [("do_handle_channel_open_request, do_handle_channel_accepted", G), ("do_start_pallet_migration_readiness_check, do_pallet_migration_readiness_response", G), ("do_send_pallet_migration_for, do_confirm_pallet_migrations", G)], [("ActiveMigrationQueue, UserMigrations", "migrations under way", L), PD], ["messages sent, migration state"]),
p("F16", "Every participation can be settled, so every project can be brought to its end",
  "In settlement, whatever was settled before and however prices moved, settling any evaluation, bid or contribution that is there succeeds, and when all are settled the project can be marked as settled.",
  HIST, "all orders of settlement of oversubscribed, failed and smallest possible participations, price changes in both directions and fee payouts in between",
  "Tests settle everything in one order at the prices of the auction.",
  [S, M], [("do_settle_bid, do_settle_contribution, do_settle_evaluation", S), ("calculate_vesting_info", M)], [("Evaluations, Bids, Contributions", "what is left to settle", L)], ["result of every settlement"]),
p("F18", "Price, bond and vesting conversions are exact for every decimals and multiplier",
  "The decimal-aware price of a token or currency converts back to the price it came from and converts amounts to USD without loss beyond the last unit, for every number of decimals; a multiplier is one of 1 to 25, the bond for a ticket is the ticket divided by it, and the bond of multiplier m vests for (m-1)*2.167 weeks, at least a block.",
  ["inputs"], "all prices up to a bound and around powers of ten, all decimals, all multipliers and tickets around powers of ten",
  "Tests convert a few prices with 6 and 10 decimals.",
  [T, CL, "pallets/funding/src/traits.rs"], [("calculate_decimals_aware_price, convert_back_to_normal_price", CL), ("Multiplier", T)], [], ["results"]),
p("C01", "Participation needs a genuine, current credential of the caller, of a fit kind",
  "A call that needs a credential is accepted only with one that is signed by the credential issuer's key, has not expired, names the calling account as its subject and, for projects with a policy, that policy, and whose investor type may make the call. Missing, expired, altered, borrowed or foreign credentials, unsigned and root callers are refused without any effect, and a genuine one is not refused for its form.",
  ["histories", "inputs"], "every call that takes a credential, with every combination of a base person and a change to the credential (signature, expiry around now, subject, policy, kind, missing claims) or the origin, in histories of two or three calls",
  "Tests use well-formed credentials and check one bad signature and one wrong policy.",
  [J, L], [("EnsureInvestor, verify_token", J), ("calls with a jwt argument", L)], [], ["result of every call; storage after refusals"]),
]
    ENUM |= {"F18"}
