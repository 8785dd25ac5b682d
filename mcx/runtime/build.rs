//! Takes the runtime of /repo apart and writes the part of it that can be built here: every item of
//! runtimes/polimec/src/{lib,xcm_config}.rs, except those that name a crate that is not in this sandbox and has no
//! stand-in, and those that name such an item in turn. Configurations of stand-in pallets are reduced to the types
//! that the stand-in knows. Nothing is rewritten beyond that.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::{collections::BTreeSet, env, fs, path::Path};
use syn::{punctuated::Punctuated, Item, UseTree};

const SRC: &str = "/repo/runtimes/polimec/src";

/// Crates whose paths are valid as they are.
const REAL: &[&str] = &[
	"core", "std", "alloc", "crate", "super", "self", "frame_support", "frame_system", "pallet_balances",
	"pallet_preimage", "pallet_scheduler", "pallet_vesting", "pallet_democracy", "pallet_elections_phragmen",
	"pallet_funding", "pallet_linear_release", "pallet_proxy_bonding", "pallet_parachain_staking", "pallet_dispenser",
	"pallet_oracle_ocw", "pallet_timestamp", "pallet_session", "pallet_authorship", "pallet_assets", "pallet_xcm",
	"pallet_transaction_payment", "pallet_asset_tx_payment", "orml_oracle", "orml_traits", "parachains_common", "xcm",
	"polkadot_parachain_primitives", "parity_scale_codec", "scale_info", "shared_configuration", "polimec_common",
	"sp_core", "sp_io", "sp_runtime", "sp_std", "sp_version", "sp_staking", "log", "on_slash_vesting",
];
/// Crates with a module in src/stubs.rs: what can be imported from them.
const STUBS: &[(&str, &[&str])] = &[
	("pallet_collective", &["*"]),
	("pallet_treasury", &["*"]),
	("pallet_utility", &["*"]),
	("pallet_proxy", &["*"]),
	("pallet_multisig", &["*"]),
	("pallet_identity", &["*"]),
	("pallet_membership", &["*"]),
	("pallet_message_queue", &["*"]),
	("pallet_aura", &["*"]),
	("pallet_skip_feeless_payment", &["*"]),
	("cumulus_pallet_parachain_system", &["*"]),
	("cumulus_pallet_aura_ext", &["*"]),
	("cumulus_pallet_xcmp_queue", &["*"]),
	("cumulus_pallet_xcm", &["*"]),
	("cumulus_primitives_core", &["ParaId"]),
	("parachain_info", &["*"]),
	("polkadot_runtime_common", &["BlockHashCount", "CurrencyToVote"]),
	("xcm_builder", &["CreateMatcher", "MatchXcm"]),
	("xcm_executor", &["ShouldExecute", "Properties"]),
	("hex_literal", &["hex"]),
];
/// Crates that are nowhere.
const ABSENT: &[&str] = &[
	"assets_common", "cumulus_primitives_utility", "cumulus_primitives_aura", "frame_executive",
	"frame_metadata_hash_extension", "frame_benchmarking", "polimec_common_test_utils", "sp_api", "sp_consensus_aura",
	"xcm_fee_payment_runtime_api", "sp_block_builder", "sp_transaction_pool", "sp_session", "sp_offchain",
	"sp_genesis_builder", "sp_inherents", "frame_system_rpc_runtime_api", "pallet_transaction_payment_rpc_runtime_api",
	"frame_try_runtime", "frame_system_benchmarking", "cumulus_pallet_session_benchmarking",
];
/// Names that a stand-in crate does not have, and items that the harness has its own version of.
const ABSENT_NAMES: &[&str] = &[
	"VersionedAssets", "VersionedLocation", "VersionedXcm", "VersionedAssetId", "CreateSignedTransaction",
	"RuntimeApi", "VERSION", "ParachainSetCode", "NarrowOriginToSibling", "ParaIdToSibling", "FindAccountFromAuthorIndex",
	"impl_opaque_keys", "impl_runtime_apis", "register_validate_block", "SessionKeys", "wasm_binary",
	"CreateMatcherStub", "ConsensusHook", "GetChannelInfo", "SignedExtra", "SessionHandler", "XcmPassthrough",
	"RelayNumberMonotonicallyIncreases", "Authorities",
];
/// What the harness provides in their place.
const PROVIDED: &[&str] = &["SignedExtra", "VERSION"];

/// The associated types that the configuration of a stand-in pallet has.
const KEEP: &[(&str, &[&str])] = &[
	("pallet_timestamp", &["Moment", "MinimumPeriod"]),
	("pallet_session", &[]),
	("pallet_authorship", &[]),
	("pallet_assets", &["Balance", "AssetId", "Currency", "AssetAccountDeposit"]),
	("pallet_xcm", &["RuntimeOrigin", "RuntimeCall", "XcmRouter"]),
	("pallet_transaction_payment", &["OnChargeTransaction", "WeightToFee", "LengthToFee", "OperationalFeeMultiplier"]),
	("pallet_asset_tx_payment", &["Fungibles", "OnChargeAssetTransaction"]),
	("orml_oracle", &["OracleKey", "OracleValue", "MaxFeedValues", "CombineData", "Time", "RootOperatorAccountId", "Members", "MaxHasDispatchedSize"]),
	("pallet_collective", &["RuntimeOrigin", "Proposal", "MaxMembers", "SetMembersOrigin"]),
	("pallet_treasury", &["PalletId", "ApproveOrigin", "RejectOrigin", "SpendOrigin"]),
	("pallet_utility", &["RuntimeCall", "PalletsOrigin"]),
	("pallet_multisig", &["RuntimeCall"]),
	("pallet_proxy", &["RuntimeCall", "ProxyType", "MaxProxies"]),
	("pallet_membership", &["AddOrigin", "RemoveOrigin", "SwapOrigin", "ResetOrigin", "PrimeOrigin", "MaxMembers", "MembershipChanged"]),
];
/// Types that are replaced.
const REPLACE: &[(&str, &str, &str)] =
	&[("frame_system", "OnSetCode", "()"), ("frame_system", "Version", "crate::stubs::Version"), ("pallet_xcm", "XcmRouter", "crate::stubs::Router")];
/// Types of configurations that the stand-in does not have but a property is about.
const TAP: &[(&str, &[&str])] = &[
	("pallet_xcm", &["XcmExecuteFilter", "XcmTeleportFilter", "XcmReserveTransferFilter"]),
	("xcm_executor", &["IsReserve", "IsTeleporter", "SafeCallFilter", "HrmpNewChannelOpenRequestHandler", "HrmpChannelAcceptedHandler"]),
	("pallet_identity", &["ForceOrigin", "RegistrarOrigin"]),
];
/// Pallets of `construct_runtime!` that the harness composes: their path and parts.
const PARTS: &[(&str, &str)] = &[
	("pallet_session", "crate::stubs::session::{Pallet, Call}"),
	("parachain_info", "crate::stubs::parachain_info::{Pallet}"),
	("pallet_aura", "crate::stubs::pallet_aura::{Pallet}"),
	("cumulus_pallet_aura_ext", "crate::stubs::cumulus_pallet_aura_ext::{Pallet}"),
	("pallet_skip_feeless_payment", "crate::stubs::pallet_skip_feeless_payment::{Pallet}"),
	("pallet_transaction_payment", "pallet_transaction_payment::{Pallet}"),
	("pallet_asset_tx_payment", "pallet_asset_tx_payment::{Pallet}"),
	("pallet_authorship", "pallet_authorship::{Pallet, Storage}"),
	("pallet_timestamp", "pallet_timestamp::{Pallet, Call, Storage}"),
	("pallet_assets", "pallet_assets::<I>::{Pallet, Call, Storage, Config<T>}"),
	("pallet_xcm", "pallet_xcm::{Pallet, Call, Storage, Origin}"),
	("orml_oracle", "orml_oracle::{Pallet, Call, Storage}"),
	("cumulus_pallet_parachain_system", "crate::stubs::cumulus_pallet_parachain_system::{Pallet, Call}"),
	("cumulus_pallet_xcmp_queue", "crate::stubs::cumulus_pallet_xcmp_queue::{Pallet, Call}"),
	("cumulus_pallet_xcm", "cumulus_pallet_xcm_shim::{Pallet, Origin}"),
	("pallet_message_queue", "crate::stubs::pallet_message_queue::{Pallet, Call}"),
	("pallet_utility", "crate::stubs::pallet_utility::{Pallet, Call}"),
	("pallet_multisig", "crate::stubs::pallet_multisig::{Pallet, Call}"),
	("pallet_proxy", "crate::stubs::pallet_proxy::{Pallet, Call, Storage}"),
	("pallet_identity", "crate::stubs::pallet_identity::{Pallet, Call}"),
	("pallet_treasury", "crate::stubs::pallet_treasury::{Pallet, Call}"),
	("pallet_collective", "crate::stubs::pallet_collective::<I>::{Pallet, Call, Storage, Origin<T>}"),
	("pallet_membership", "crate::stubs::pallet_membership::<I>::{Pallet, Call, Storage}"),
];
/// Weights of pallets whose real `WeightInfo` is at hand.
const WEIGHTS: &[&str] = &[
	"frame_system", "pallet_balances", "pallet_democracy", "pallet_dispenser", "pallet_elections_phragmen", "pallet_funding",
	"pallet_linear_release", "pallet_parachain_staking", "pallet_preimage", "pallet_scheduler", "pallet_vesting",
];

fn lookup<'a, V>(table: &'a [(&'a str, V)], key: &str) -> Option<&'a V> {
	table.iter().find(|x| x.0 == key).map(|x| &x.1)
}

/// Leaves of a use tree: path and local name.
fn leaves(tree: &UseTree, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
	match tree {
		UseTree::Path(p) => {
			path.push(p.ident.to_string());
			leaves(&p.tree, path, out);
			path.pop();
		},
		UseTree::Name(n) => {
			let mut p = path.clone();
			p.push(n.ident.to_string());
			out.push((p, None));
		},
		UseTree::Rename(r) => {
			let mut p = path.clone();
			p.push(r.ident.to_string());
			out.push((p, Some(r.rename.to_string())));
		},
		UseTree::Glob(_) => {
			let mut p = path.clone();
			p.push("*".into());
			out.push((p, None));
		},
		UseTree::Group(g) =>
			for t in &g.items {
				leaves(t, path, out)
			},
	}
}

/// Does this stream name one of `names`, or a path into an absent crate?
fn mentions(ts: TokenStream, names: &BTreeSet<String>) -> Option<String> {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	for (i, t) in v.iter().enumerate() {
		match t {
			TokenTree::Group(g) => {
				if let Some(x) = mentions(g.stream(), names) {
					return Some(x);
				}
			},
			TokenTree::Ident(id) => {
				let s = id.to_string();
				let root = !(i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == ':')
					&& i > 1 && matches!(&v[i - 2], TokenTree::Punct(p) if p.as_char() == ':'));
				let path = matches!((v.get(i + 1), v.get(i + 2)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
				// a field or an associated type of the same name is not the item
				let member = i > 0
					&& (matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.')
						|| matches!(&v[i - 1], TokenTree::Ident(k) if k == "fn"));
				if names.contains(&s) && !member && (root || ABSENT_NAMES.contains(&s.as_str()) && !PROVIDED.contains(&s.as_str())) {
					return Some(s);
				}
				if root && path && ABSENT.contains(&s.as_str()) {
					return Some(s);
				}
				if root && path {
					if let Some(allowed) = lookup(STUBS, &s) {
						if let Some(TokenTree::Ident(n)) = v.get(i + 3) {
							if !allowed.contains(&"*") && !allowed.contains(&n.to_string().as_str()) && n.to_string() != "Config" && n.to_string() != "traits" {
								return Some(format!("{s}::{n}"));
							}
						}
					}
				}
			},
			_ => {},
		}
	}
	None
}

/// Paths into stubs get their prefix.
fn stubbed(ts: TokenStream) -> TokenStream {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = TokenStream::new();
	for (i, t) in v.iter().enumerate() {
		match t {
			TokenTree::Group(g) => {
				let mut n = Group::new(g.delimiter(), stubbed(g.stream()));
				n.set_span(g.span());
				out.extend([TokenTree::Group(n)]);
			},
			TokenTree::Ident(id) => {
				let s = id.to_string();
				let root = !(i > 1 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == ':')
					&& matches!(&v[i - 2], TokenTree::Punct(p) if p.as_char() == ':'));
				let path = matches!((v.get(i + 1), v.get(i + 2)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
				if root && path && lookup(STUBS, &s).is_some() {
					out.extend(quote!(crate::stubs::));
				}
				out.extend([t.clone()]);
			},
			_ => out.extend([t.clone()]),
		}
	}
	out
}

fn cfg_off(attrs: &[syn::Attribute]) -> bool {
	attrs.iter().any(|a| {
		let s = a.to_token_stream().to_string().replace(' ', "");
		s == "#[cfg(feature=\"runtime-benchmarks\")]" || s == "#[cfg(test)]" || s == "#[cfg(feature=\"try-runtime\")]"
	})
}

fn names_of(i: &Item) -> Vec<String> {
	match i {
		Item::Const(x) => vec![x.ident.to_string()],
		Item::Static(x) => vec![x.ident.to_string()],
		Item::Struct(x) => vec![x.ident.to_string()],
		Item::Enum(x) => vec![x.ident.to_string()],
		Item::Type(x) => vec![x.ident.to_string()],
		Item::Fn(x) => vec![x.sig.ident.to_string()],
		Item::Trait(x) => vec![x.ident.to_string()],
		_ => vec![],
	}
}

/// What a module defines or imports by name.
fn defined(items: &[Item]) -> BTreeSet<String> {
	let mut out = BTreeSet::new();
	for i in items {
		out.extend(names_of(i));
		if let Item::Use(u) = i {
			let mut ls = vec![];
			leaves(&u.tree, &mut vec![], &mut ls);
			let own = ls.into_iter().filter(|(p, _)| p[0] != "super" && p[0] != "crate");
			out.extend(own.map(|(p, r)| r.unwrap_or_else(|| p.last().unwrap().clone())));
		}
	}
	out
}

/// Statements of a `parameter_types!` body and the names they define.
fn split_params(ts: TokenStream) -> Vec<(String, TokenStream)> {
	let mut out = vec![];
	let mut cur: Vec<TokenTree> = vec![];
	for t in ts {
		let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == ';');
		cur.push(t);
		if end {
			let s: TokenStream = cur.drain(..).collect();
			let ids: Vec<String> =
				s.clone().into_iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None }).collect();
			let name = ids.iter().find(|x| !["pub", "const", "static", "storage"].contains(&x.as_str())).cloned().unwrap_or_default();
			out.push((name, s));
		}
	}
	out
}

/// The entries of `construct_runtime!` with the paths and parts of the stand-ins.
fn compose(ts: TokenStream) -> TokenStream {
	let mut head = TokenStream::new();
	let mut body = TokenStream::new();
	for t in ts {
		match t {
			TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
				let mut entries: Vec<Vec<TokenTree>> = vec![vec![]];
				for t in g.stream() {
					if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
						entries.push(vec![])
					} else {
						entries.last_mut().unwrap().push(t)
					}
				}
				for e in entries.into_iter().filter(|e| !e.is_empty()) {
					let idents: Vec<String> = e.iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None }).collect();
					let (name, krate) = (&idents[0], &idents[1]);
					match lookup(PARTS, krate) {
						None => {
							let s: TokenStream = e.into_iter().collect();
							body.extend(quote!(#s,))
						},
						Some(parts) => {
							let index = e.last().unwrap().to_string();
							let inst = idents.get(2).map(|i| format!("<{i}>")).unwrap_or_default();
							let text = format!("{name}: {} = {index},", parts.replace("<I>", &inst));
							body.extend(text.parse::<TokenStream>().unwrap())
						},
					}
				}
			},
			t => head.extend([t]),
		}
	}
	quote!(#head { #body })
}

struct Out {
	text: TokenStream,
	dropped: Vec<String>,
	gone: BTreeSet<String>,
}

/// Modules of the runtime that are left out or handled by themselves.
const OTHER_MODS: &[&str] = &["weights", "xcm_config", "custom_migrations", "benchmark_helpers", "tests", "mock", "benches", "opaque"];

fn process(file: &str, inherited: &BTreeSet<String>) -> Out {
	let src = fs::read_to_string(Path::new(SRC).join(file)).expect("source of the runtime");
	let dir = Path::new(file).parent().unwrap().to_path_buf();
	let stem = Path::new(file).file_stem().unwrap().to_str().unwrap().to_string();
	let ast = syn::parse_file(&src).expect("the runtime parses");
	let base = if stem == "lib" || stem == "mod" { dir } else { dir.join(&stem) };
	// a module can name what its parent turns out not to have
	let first = parts(ast.items.clone(), &base, inherited, &BTreeSet::new());
	parts(ast.items, &base, inherited, &first.gone)
}

/// The items of a file or of an inline module. `above` is what the modules in it do not find in it.
fn parts(all: Vec<Item>, base: &Path, inherited: &BTreeSet<String>, above: &BTreeSet<String>) -> Out {
	let mut mods = TokenStream::new();
	let mut inner_mods: BTreeSet<String> = BTreeSet::new();
	let mut gone: BTreeSet<String> = ABSENT_NAMES.iter().filter(|n| !PROVIDED.contains(n)).map(|s| s.to_string()).collect();
	gone.extend(inherited.iter().cloned());
	let mut dropped = vec![];
	let mut uses = TokenStream::new();
	let mut items: Vec<Item> = vec![];
	for item in &all {
		if let Item::Mod(m) = item {
			let name = m.ident.to_string();
			if cfg_off(&m.attrs) || OTHER_MODS.contains(&name.as_str()) {
				continue;
			}
			let part = match &m.content {
				Some((_, items)) => {
					let own = defined(items);
					let inherited = inherited.iter().chain(above.iter().filter(|n| !own.contains(*n))).cloned().collect();
					let base = base.join(&name);
					let first = parts(items.clone(), &base, &inherited, &BTreeSet::new());
					parts(items.clone(), &base, &inherited, &first.gone)
				},
				None => {
					let at = [base.join(format!("{name}.rs")), base.join(&name).join("mod.rs")]
						.into_iter()
						.find(|p| Path::new(SRC).join(p).is_file());
					let Some(at) = at else { continue };
					let src = fs::read_to_string(Path::new(SRC).join(&at)).expect("source of the runtime");
					let own = defined(&syn::parse_file(&src).expect("the runtime parses").items);
					let inherited = inherited.iter().chain(above.iter().filter(|n| !own.contains(*n))).cloned().collect();
					process(at.to_str().unwrap(), &inherited)
				},
			};
			let (vis, id, text) = (&m.vis, &m.ident, part.text);
			mods.extend(quote!(#vis mod #id { #text }));
			dropped.extend(part.dropped.into_iter().map(|d| format!("{name}: {d}")));
			gone.extend(part.gone.into_iter().map(|n| format!("{name}::{n}")));
			inner_mods.insert(name);
		}
	}
	for item in all {
		let attrs = match &item {
			Item::Use(x) => &x.attrs, Item::Impl(x) => &x.attrs, Item::Mod(x) => &x.attrs, Item::Macro(x) => &x.attrs,
			Item::Struct(x) => &x.attrs, Item::Type(x) => &x.attrs, Item::Const(x) => &x.attrs, Item::Fn(x) => &x.attrs,
			_ => { items.push(item); continue },
		};
		if cfg_off(attrs) {
			continue;
		}
		match &item {
			Item::Use(u) => {
				let mut ls = vec![];
				leaves(&u.tree, &mut vec![], &mut ls);
				let (vis, attrs) = (&u.vis, &u.attrs);
				for (path, rename) in ls {
					let last = path.last().unwrap().clone();
					let mut local = rename.clone().unwrap_or(last.clone());
					if local == "self" {
						local = path[path.len() - 2].clone();
					}
					let root = path[0].as_str();
					let real = REAL.contains(&root) && !ABSENT_NAMES.contains(&last.as_str());
					let inner = (root == "super" || root == "crate" && path.len() == 2) && gone.contains(&last);
					let stub = !ABSENT_NAMES.contains(&last.as_str()) && lookup(STUBS, root).map_or(false, |a| a.contains(&"*") || a.contains(&last.as_str()));
					// the rest of a stand-in crate that is real in name only
					let missing = root == "parachains_common" && ["AssetsToBlockAuthor"].contains(&last.as_str());
					let own_mod = root == "xcm_config" || inner_mods.contains(root);
					if own_mod || path.len() == 1 && REAL.contains(&root) || real && !inner && !missing || stub || missing {
						let mut p = path.join("::").trim_end_matches("::self").to_string();
						if stub {
							p = format!("crate::stubs::{p}");
						}
						if missing {
							p = format!("crate::stubs::{last}");
						}
						let p: TokenStream = p.parse().unwrap();
						let r = rename.map(|r| { let r = Ident::new(&r, Span::call_site()); quote!(as #r) });
						if own_mod {
							// decided once that file is known
							if gone.contains(&format!("{root}::{last}")) {
								gone.insert(local);
								continue;
							}
						}
						uses.extend(quote!(#(#attrs)* #vis use #p #r;));
					} else {
						gone.insert(local);
					}
				}
			},
			Item::Mod(_) => {},
			_ => items.push(item),
		}
	}
	// names that are not to be had, to a fixpoint
	let mentions_item = |i: &Item, gone: &BTreeSet<String>| mentions(i.to_token_stream(), gone);
	loop {
		let before = gone.len();
		for i in &items {
			let ns = names_of(i);
			if ns.iter().any(|n| PROVIDED.contains(&n.as_str())) || !ns.is_empty() && mentions_item(i, &gone).is_some() {
				gone.extend(ns.into_iter().filter(|n| !PROVIDED.contains(&n.as_str())));
			}
			if let Item::Macro(m) = i {
				if m.mac.path.segments.last().unwrap().ident.to_string().ends_with("parameter_types") {
					for (n, s) in split_params(m.mac.tokens.clone()) {
						if mentions(s, &gone).is_some() {
							gone.insert(n);
						}
					}
				}
			}
		}
		if gone.len() == before {
			break;
		}
	}
	let mut text = quote!(#mods #uses);
	for i in items {
		let ns = names_of(&i);
		if ns.iter().any(|n| PROVIDED.contains(&n.as_str()) || gone.contains(n)) {
			dropped.push(ns.join(","));
			continue;
		}
		match i {
			Item::Macro(mut m) => {
				let name = m.mac.path.segments.last().unwrap().ident.to_string();
				if name == "include" || gone.contains(&name) || mentions(m.mac.path.to_token_stream(), &gone).is_some() {
					dropped.push(format!("{name}!"));
				} else if name.ends_with("parameter_types") {
					let mut body = TokenStream::new();
					for (n, s) in split_params(m.mac.tokens.clone()) {
						if gone.contains(&n) {
							dropped.push(n)
						} else {
							body.extend(s)
						}
					}
					m.mac.tokens = stubbed(body);
					text.extend(m.to_token_stream());
				} else if name == "construct_runtime" {
					m.mac.tokens = compose(m.mac.tokens.clone());
					text.extend(m.to_token_stream());
				} else if let Some(x) = mentions(m.mac.tokens.clone(), &gone) {
					dropped.push(format!("{name}! ({x})"));
				} else {
					text.extend(stubbed(m.to_token_stream()));
				}
			},
			Item::Impl(mut im) => {
				let path = im.trait_.as_ref().map(|t| t.1.clone());
				let of = path.as_ref().map(|p| p.segments.first().unwrap().ident.to_string()).unwrap_or_default();
				let config = path.as_ref().map_or(false, |p| p.segments.len() == 2 && p.segments.last().unwrap().ident == "Config");
				if config {
					let tap = lookup(TAP, &of).copied().unwrap_or(&[]);
					let mut aliases = TokenStream::new();
					let keep: Option<&[&str]> = lookup(KEEP, &of).copied().or(if lookup(STUBS, &of).is_some() { Some(&[]) } else { None });
					let mut kept = vec![];
					for it in im.items {
						let syn::ImplItem::Type(mut t) = it else { if keep.is_none() { kept.push(it) }; continue };
						if cfg_off(&t.attrs) {
							continue;
						}
						let n = t.ident.to_string();
						if tap.contains(&n.as_str()) {
							let (id, ty) = (&t.ident, stubbed(t.ty.to_token_stream()));
							aliases.extend(quote!(pub type #id = #ty;));
						}
						if keep.map_or(false, |k| !k.contains(&n.as_str())) {
							continue;
						}
						if let Some(r) = REPLACE.iter().find(|r| r.0 == of && r.1 == n) {
							t.ty = syn::parse_str(r.2).unwrap();
						}
						kept.push(syn::ImplItem::Type(t));
					}
					if !aliases.is_empty() {
						let m = Ident::new(&format!("cfg_{of}"), Span::call_site());
						text.extend(quote!(pub mod #m { #[allow(unused_imports)] use super::*; #aliases }));
					}
					if of == "xcm_executor" || of == "pallet_identity" && false {
						continue;
					}
					im.items = kept;
					text.extend(stubbed(im.to_token_stream()));
				} else if let Some(x) = mentions(im.to_token_stream(), &gone) {
					dropped.push(format!("impl {} ({x})", im.trait_.map(|t| t.1.to_token_stream().to_string()).unwrap_or_default()));
				} else if of == "pallet_xcm" || of == "cumulus_pallet_xcmp_queue" {
					dropped.push(format!("impl {of}"));
				} else {
					text.extend(stubbed(im.to_token_stream()));
				}
			},
			i => {
				if let Some(x) = mentions(i.to_token_stream(), &gone) {
					dropped.push(format!("{} ({x})", names_of(&i).join(",")));
				} else {
					text.extend(stubbed(i.to_token_stream()));
				}
			},
		}
	}
	let _: Punctuated<syn::Ident, syn::Token![,]> = Punctuated::new();
	Out { text, dropped, gone }
}

fn main() {
	println!("cargo:rerun-if-changed={SRC}");
	println!("cargo:rerun-if-changed=build.rs");
	let xcm = process("xcm_config.rs", &BTreeSet::new());
	let inherited: BTreeSet<String> = xcm.gone.iter().map(|n| format!("xcm_config::{n}")).collect();
	let lib = process("lib.rs", &inherited);
	let weights: TokenStream = WEIGHTS
		.iter()
		.map(|w| format!("#[path = \"{SRC}/weights/{w}.rs\"] pub mod {w};").parse::<TokenStream>().unwrap())
		.collect();
	let (lib_text, xcm_text) = (lib.text, xcm.text);
	let text = quote! {
		pub mod weights { #weights }
		pub mod xcm_config { #xcm_text }
		#lib_text
	};
	let out = env::var("OUT_DIR").unwrap();
	fs::write(Path::new(&out).join("runtime.rs"), text.to_string().replace(" ; ", " ;\n").replace(" } ", " }\n")).unwrap();
	fs::write(Path::new(&out).join("dropped.txt"), format!("lib.rs:\n{}\nxcm_config.rs:\n{}\n", lib.dropped.join("\n"), xcm.dropped.join("\n"))).unwrap();
}
