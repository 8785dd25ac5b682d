# Properties of the composed runtime.
from props_d import p, HIST
R, X = "runtimes/polimec/src/lib.rs", "runtimes/polimec/src/xcm_config.rs"
S = "runtimes/shared-configuration/src/"
FE, AS, CU, GO, PR = S + "fee.rs", S + "assets.rs", S + "currency.rs", S + "governance.rs", S + "proxy.rs"
BAL = ("Account", "balances of accounts", R)
def add(props, NA, ENUM, HARNESS):
    HARNESS["T"] = "x-runtime"
    ENUM.update({"T02", "T03", "T04", "T05", "T06", "T07", "T08", "T10"})
    props += [
p("T01", "A proxy never does, or lets others do, what its kind is not for",
  "In the runtime, a call made through a proxy takes effect only if the kind of proxy is for it: any call for Any, everything but moving funds or assets or changing identities for NonTransfer, only governance, staking or giving a judgement for the others. This holds however calls are nested in batches, multisigs, proxies and the like, and a proxy never appoints or removes a proxy of a kind that allows more than its own, so that no sequence of calls by delegates does what their kinds are not for.",
  HIST, "all sequences of appointments, removals and nested calls through proxies of every kind, every call of every pallet through every kind of proxy, and all pairs of kinds",
  "No test dispatches a call through a proxy of the runtime.",
  [R, PR], [("filter, is_superset", R)], [("Proxies", "who may act for whom, and as what", R)], ["result of every call, direct and nested"]),
p("T02", "Calls of the funding pallet that are not released stay closed to everyone",
  "In the runtime, a call of the funding pallet that is not among the released ones fails without effect for every origin but the root, whether it is made directly, in a batch or a batch of batches, by a multisig, a proxy or a member of a committee; the released ones and the calls of all other pallets are open.",
  HIST, "every call of every pallet made in every way by every kind of origin",
  "No test makes a call through the runtime's filter.",
  [R], [("BaseCallFilter", R)], [], ["result of every call"]),
p("T03", "A fee in DOT, USDT or USDC is worth the fee in PLMC, and goes where it should",
  "An account that pays a transaction's fee in DOT, USDT or USDC pays what the fee in PLMC is worth at the oracle's prices, to within a millionth of a dollar and two units, and at least one unit if there is a fee; what was withdrawn in advance and not spent comes back. The fee goes to the operations treasury, the tip to the block's author, and nothing is created or lost. An account that cannot pay, an asset or coin without a price, and any other asset are refused, and nothing changes. If prices change in between, nobody pays more than was withdrawn.",
  HIST, "all combinations of assets, fees, tips, amounts spent, prices before and after, balances around the fee, missing prices, and locations that look like those of the assets",
  "The integration test pays one fee per asset at one price.",
  [FE, AS, R], [("withdraw_fee, correct_and_deposit_fee", FE), ("to_asset_balance", R), ("ConvertMultilocationToAssetId", R)], [BAL], ["balances of payer, treasury and author, total issuance"]),
p("T04", "Fees, tips, dust and slashes in PLMC go to their pots and none is lost",
  "A fee paid in PLMC goes to the operations treasury and its tip to the block's author, what was withdrawn and not spent comes back, and what an account cannot pay is refused. What is too little to keep an account goes to the operations treasury. What is taken for bad behaviour, such as the deposit of a cancelled proposal or the bond of a candidate, goes to the treasury. The total issuance stays the same.",
  HIST, "all combinations of fees, tips and amounts spent, also with the author paying, of dust and receivers, and of amounts taken by every pallet that takes them",
  "No test looks at where fees, dust or slashes of the runtime go.",
  [R, FE], [("DealWithFees", FE), ("DustRemovalAdapter, ToTreasury", R)], [BAL], ["balances of payer, author and both treasuries, total issuance"]),
p("T05", "Only Asset Hub brings DOT, USDT and USDC; messages call nothing here",
  "A message's claim to have deposited an asset elsewhere is believed only if it comes from Asset Hub and the asset is DOT, USDT or USDC. No teleport is believed, and no message makes a call here. Accounts can transfer only these assets by way of their reserve, cannot teleport anything, and cannot have messages of their own executed. Notes about channels are heard only from the relay chain or its executive, alone in their message, and reach the funding pallet.",
  HIST, "all assets named by up to three junctions from all origins up to three junctions, every call of every pallet, and all messages of up to two instructions from all origins",
  "The integration tests move two or three assets between the simulated chains they set up.",
  [X], [("AssetHubAssetsAsReserve", X), ("AllowHrmpNotifications", X), ("XcmConfig", X)], [], ["what is believed and executed"]),
p("T06", "Every privileged call is open to exactly those it is for",
  "In the runtime, each call of each pallet is open to exactly the origins it is meant for: the root, shares of the council or of the technical committee no smaller than set for it, one technical committee member, the dispenser's administrator, signed accounts or none, and to nobody else; and a scheduled task can be cancelled or replaced only by an origin at least as privileged as its own.",
  HIST, "every call of every pallet by every kind of origin, with all shares of committees of every size up to 20, thorough 50, and all pairs of origins",
  "No test asks the runtime who may make a call.",
  [R, GO], [("Config impls", R)], [], ["whether the origin is refused"]),
p("T07", "The electorate is all PLMC but that of the two treasuries",
  "The number of votes that a referendum of the runtime counts against is the total issuance less what the treasury and the operations treasury have at the time, whatever else is on hold or frozen.",
  HIST, "all combinations of balances of the treasuries and of others, with funds on hold and with transfers into a treasury",
  "No test calls the runtime's electorate.",
  [R], [("get_electorate", R)], [BAL], ["the electorate"]),
p("T08", "A call costs by the scarcer of time and proof, and no more for less",
  "The part of a fee for weight is the larger of what its computation time and its proof size cost: 0.0001 PLMC for the least time of any extrinsic and 0.01 PLMC for ten thousand bytes of proof, in proportion; the part for length is 0.00001 PLMC per byte. More of either never costs less.",
  HIST, "a grid of all times and proof sizes up to those of a block, including all neighbours of the points that the rates are given for, and lengths",
  "No test computes a fee from a weight.",
  [FE, R, CU], [("WeightToFee", FE), ("RefTimeToFee, ProofSizeToFee", FE)], [], ["the fee"]),
p("T10", "All parts of the runtime mean the same asset",
  "DOT, USDT and USDC have the same number, location and decimals wherever they occur: when messages bring them, when fees are paid in them, when the funding pallet accepts them and when the oracle feeds their price, and likewise for the price of PLMC. No other location or number is taken for one of them.",
  HIST, "all locations of up to three junctions, all numbers up to 4000, and every list of assets",
  "Tests use the numbers directly.",
  [X, R, CU, "pallets/funding/src/types.rs"], [("SupportedAssets", X), ("ConvertMultilocationToAssetId", R), ("AssetPriceConverter", CU), ("id", "pallets/funding/src/types.rs")], [], ["numbers and locations"]),
]
