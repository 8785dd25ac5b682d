# Properties of the oracle's offchain worker.
from props_d import p, HIST
L, T = "pallets/oracle-ocw/src/lib.rs", "pallets/oracle-ocw/src/types.rs"
LS = ("last_send", "block of the last submission per asset, in the node's storage", L)
def add(props, NA, ENUM, HARNESS):
    HARNESS["O"] = "x-oracle"
    props += [
p("O01", "Every asset is priced once per window, and tried again until it works",
  "A node that holds the key of a member asks the exchanges for an asset's price, and submits it, only in the window at the start of an interval and only while it has not yet submitted that asset in this window. What could not be priced, or was not taken by the transaction pool, is tried again in the next block of the window. This holds whatever blocks are skipped and whatever record an earlier version left behind.",
  HIST, "all sequences of worker runs at consecutive and skipped blocks with full, partial and no answers and with a pool that takes or refuses, for several intervals and windows and several records left behind",
  "Tests run the worker once or twice from an empty record.",
  [L], [("offchain_worker", L)], [LS], ["requests and submissions of every run"]),
p("O02", "The price is the volume-weighted average over all good answers",
  "The price submitted for an asset is the average of (high + low + close) / 3 over the newest candles of all sources that answered, weighted by the volume of each candle; candles beyond the number asked for do not count, and the answers for one asset have no influence on another.",
  HIST, "all combinations of answers of the sources of each asset, out of several sets of candles each, and of all assets at once",
  "Tests feed one recorded answer per source.",
  [L, T], [("fetch_prices, combine_prices", L), ("get_moving_average", "pallets/oracle-ocw/src/traits.rs"), ("parse_body of every fetcher", T)], [], ["submitted prices"]),
p("O03", "Answers that are of no use neither count nor hold up the others",
  "A source that does not answer in time, fails, answers with an error, something unreadable, too few candles, no volume or something that is no number contributes nothing to the price, and the price is the one of the other sources. An asset without any good answer is not submitted and the others are. The worker never panics.",
  HIST, "all combinations of good and of each kind of useless answer over the sources of an asset",
  "Tests have one malformed answer for one source.",
  [L, T], [("fetch_prices, combine_prices", L), ("get_moving_average", "pallets/oracle-ocw/src/traits.rs")], [], ["submitted prices with each combination"]),
p("O04", "Only a member's key feeds prices, never twice, even if workers overlap or die",
  "A submission is signed with the key of a member, whatever other keys the node holds, and without one nothing is asked or submitted. Every asset goes under its own id and at most once per window, even when a second worker starts while the first is under way. A worker killed at any point does not keep later ones from working once its lock has expired.",
  HIST, "all sequences of runs with every set and order of keys, with the worker killed at every request and around the submission, and with another worker started at every request",
  "Tests use a single key and never interrupt or overlap the worker.",
  [L], [("offchain_worker", L), ("send_signed_transaction", L)], [LS], ["signer, submissions of every run"]),
]
