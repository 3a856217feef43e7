#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as the single editable source of the property texts)."""
import json, os
P = "programs/asset/program/src/processor/"
T = "programs/asset/types/src/"
ROWS = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=False):
    assert len(title) <= 80, (id, len(title))
    ROWS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [{"name": x} for x in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": ("in-process entry of the bridge and proxy programs (cfg nifty_dst)" if hook else None)},
    })

prop("C01", "Only the owner or a role-holding delegate can move or destroy an asset",
 "The recorded owner of an asset changes, and a live asset is destroyed, only in a transaction signed by its current owner, by its current delegate while that delegate holds the matching role (transfer or burn), or by the manager of a managed asset while the manager holds that role. When one of them signs a well-formed request on an unlocked, transferable asset, it takes effect: the new owner is exactly the recipient named in the request, or the asset is gone. No other request, by anybody, changes who owns any asset.",
 ["histories", "inputs", "schedules"],
 "every reachable asset state, every signer set, every order and duplication of submitted transactions, called directly or through another program",
 "Tests sample a few signer/role combinations on fresh assets; the guarantee is about every history of approvals, revocations, transfers and stale or replayed requests.",
 [P+"transfer.rs", P+"burn.rs", "programs/asset/program/src/utils.rs"],
 ["asset header owner", "asset header delegate", "manager extension"],
 [("transfer authority check", P+"transfer.rs"), ("burn authority check", P+"burn.rs"), ("delegate matching", "programs/asset/program/src/utils.rs assert_delegate")],
 ["owner field and existence of every asset account after every transaction"])

prop("C02", "A locked asset cannot be moved, burned or re-delegated until unlocked",
 "While an asset is locked, every request to transfer it, burn it, lock it again, or approve or revoke a delegate on it fails and leaves it unchanged. Locking and unlocking take effect for, and only for, the delegate holding the lock role, the manager of a managed asset holding the lock role, or the owner when no delegate is set. No other operation changes whether an asset is locked.",
 ["histories", "schedules", "inputs"],
 "every interleaving of lock, unlock, approve, revoke, transfer, burn, update and group operations by every party",
 "The lock is only useful if no order of operations by any party slips through; tests try single fixed orders.",
 [P+"mod.rs", P+"lock.rs", P+"unlock.rs"],
 ["asset header state", "delegate roles", "manager extension"],
 [("access gate", P+"mod.rs validate_access"), ("lock authority", P+"lock.rs"), ("unlock authority", P+"unlock.rs")],
 ["lock state of every asset after every transaction", "outcome of each transaction"])

prop("C03", "Delegates hold exactly the roles the owner granted and lose them on transfer",
 "Only the owner appoints a delegate; granting roles to the current delegate adds to the roles it has, appointing somebody else replaces it, and either the owner or the delegate may take roles away, the delegate disappearing with its last role. The delegate is cleared whenever the asset goes to a new owner and is kept when the recipient already owns it. At any time the delegate, and the manager of a managed asset independently of it, can do what its current roles allow and nothing more.",
 ["histories", "schedules"],
 "every sequence of approve, revoke, transfer, lock, unlock, burn and manager update, in every order and with stale requests",
 "Role bits accumulate over histories; a handful of scripted approve/revoke pairs cannot cover the reachable role states or their interaction with a manager.",
 [P+"approve.rs", P+"revoke.rs", P+"transfer.rs", "programs/asset/program/src/utils.rs", T+"state/delegate.rs"],
 ["asset header delegate address and role bits", "manager extension"],
 [("approve", P+"approve.rs"), ("revoke", P+"revoke.rs"), ("role bits", T+"state/delegate.rs")],
 ["delegate and role bits after every transaction", "outcome of delegate-signed requests"])

prop("C04", "Only the authority changes an asset's metadata, and never once immutable",
 "The name, mutability flag, extension contents, account size and authority of an asset change through update, remove, resize or handover only when its current authority signs, and handing the authority over also needs the new authority's signature. Once an asset is immutable none of these operations succeeds on it again, whoever signs, and it never becomes mutable. On a mutable asset a well-formed request signed by the authority takes effect exactly as asked.",
 ["histories", "inputs", "schedules"],
 "every history of updates, removals, resizes and handovers, every signer set, every extension set",
 "The guarantee quantifies over all histories including stale requests that were valid before a handover or before immutability.",
 [P+"update.rs", P+"remove.rs", P+"resize.rs", P+"handover.rs"],
 ["asset header name, mutable, authority", "extension list"],
 [("update checks", P+"update.rs"), ("remove checks", P+"remove.rs"), ("resize checks", P+"resize.rs"), ("handover checks", P+"handover.rs")],
 ["header fields and extension list after every transaction"])

prop("C05", "A group's recorded size always equals its number of live members",
 "At every moment, for every group, the recorded size equals the number of live assets whose group is that group. This holds through creating assets into the group, adding and removing assets, burning members, and any update of the group's own data, inline or from a buffer. An asset that is a group with members can be neither burned nor stripped of its group role.",
 ["histories", "schedules", "inputs"],
 "every history over any number of groups and members, including failed, replayed and reordered requests and address reuse after burning",
 "It is a relation between many accounts over a whole history; unit tests look at one group with one or two members.",
 [P+"group.rs", P+"ungroup.rs", P+"burn.rs", P+"create.rs", P+"update.rs", P+"remove.rs", T+"extensions/grouping.rs"],
 ["grouping extension size", "asset header group"],
 [("size bookkeeping", P+"group.rs, ungroup.rs, burn.rs"), ("size preserved on update", T+"extensions/grouping.rs")],
 ["grouping size against a recount over all accounts after every transaction"])

prop("C06", "Assets join and leave a group only with that group's approval and limits",
 "An asset enters or leaves a group only when the group's authority or the group's own delegate signs, and it can enter only if it is in no group, the group asset really is a group, and the asset has the same authority as the group. A group with a maximum size never admits a member beyond it, and the maximum can never be set below the current size. A request meeting these conditions is carried out.",
 ["histories", "inputs", "schedules"],
 "every order of create, group, ungroup, burn, handover and group updates by every signer",
 "Admission depends on the group's current authority, delegate, size and maximum, all of which change over histories and race with each other.",
 [P+"group.rs", P+"ungroup.rs", P+"create.rs", T+"extensions/grouping.rs"],
 ["grouping extension max size and delegate", "asset and group authority"],
 [("admission", P+"group.rs"), ("removal", P+"ungroup.rs"), ("creation into a group", P+"create.rs"), ("maximum on update", T+"extensions/grouping.rs on_update")],
 ["group field of every asset and outcome of each request"])

prop("C07", "A creator shows as verified only after signing for it, and shares total 100",
 "A creator listed on an asset is marked verified only if that creator signed a transaction on that asset that verified it or introduced it there, and has not unverified itself since. Updating the creator list never changes an existing creator's verified mark and can never drop a verified creator, and only a creator can verify or unverify itself. The shares of any stored creator list add up to exactly 100.",
 ["histories", "inputs"],
 "every history of create, update (inline or from a buffer), verify and unverify with arbitrary creator lists",
 "Verified marks are a claim about the whole signing history of the asset; tests check single steps with well-formed lists.",
 [T+"extensions/creators.rs", P+"verify.rs", P+"unverify.rs", P+"create.rs", P+"update.rs", P+"write.rs"],
 ["creators extension"],
 [("creation validation", T+"extensions/creators.rs on_create"), ("update validation", T+"extensions/creators.rs on_update"), ("verify", P+"verify.rs"), ("unverify", P+"unverify.rs")],
 ["creators list of every asset after every transaction, against the log of creator signatures"])

prop("C08", "Royalty rules are enforced on every transfer they apply to",
 "If an asset carries royalty rules, or has none of its own but belongs to a group that does, then any transfer to a new owner succeeds only when the rule expression holds for the asset, the signer and the recipient; the group must be supplied and be the asset's own group. The only exemption is a direct transfer between plain wallets, and a transfer made through another program is never exempt. Royalty rates above 100 percent are never stored, and a transfer satisfying its rules is not blocked by them.",
 ["inputs", "histories", "configurations"],
 "every nesting of and/or/not/owned-by/key-match rules, every kind of signer and recipient account, direct and nested calls, own or group rules",
 "The space of rule expressions, account kinds and call depths is unbounded and the tests use a few fixed rule shapes.",
 ["programs/asset/program/src/utils.rs", P+"transfer.rs", T+"constraints/mod.rs", T+"extensions/royalties.rs"],
 ["royalties extension", "group membership", "call depth", "account owners"],
 [("royalty check", "programs/asset/program/src/utils.rs process_royalties"), ("rule evaluation", T+"constraints/*.rs")],
 ["outcome of every transfer against an independent evaluation of the rules"])

prop("C09", "An asset keeps its standard: soulbound never moves, managed stays managed",
 "The standard chosen at creation never changes. A soulbound asset never changes owner by any route. An asset has a manager entry exactly when its standard is managed, and proxy data exactly when it is proxied with its address derived from that data, and no later operation adds or removes either or points the proxy data at another program or derivation (the authority of a mutable managed asset may name another manager).",
 ["histories", "inputs"],
 "every history of operations, including creation from pre-filled buffers and updates from buffers",
 "It is an invariant over all histories and all routes by which extensions enter an account.",
 [P+"create.rs", P+"transfer.rs", P+"update.rs", P+"remove.rs", T+"extensions/proxy.rs", T+"extensions/manager.rs"],
 ["asset header standard", "manager and proxy extensions"],
 [("creation checks", P+"create.rs"), ("extension gate", P+"update.rs validate"), ("removal gate", P+"remove.rs"), ("derivation data", T+"extensions/proxy.rs on_update")],
 ["standard and extension set of every asset after every transaction"])

prop("C10", "Changing one extension never damages the others or the account layout",
 "After any sequence of creations, extension additions, updates that grow or shrink, removals and resizes, an asset contains exactly the extensions that were added and not removed, in order, each with exactly the bytes last stored in it, and the account remains well-formed with aligned, contiguous extensions. Trimming yields the smallest account holding them and extending adds exactly the requested space without changing any content. An asset can always be updated, extended, trimmed and read afterwards.",
 ["histories", "inputs"],
 "every sequence of extension operations with every combination of types, lengths and alignments, including spare space at the end",
 "The bytes move in place with shifting boundaries; only long random sequences over lengths and orders reach the interesting layouts.",
 [P+"update.rs", P+"remove.rs", P+"resize.rs", P+"create.rs", P+"allocate.rs", T+"state/asset.rs"],
 ["extension headers (type, length, boundary)", "account data length"],
 [("in-place move", P+"update.rs"), ("removal move", P+"remove.rs"), ("resize", P+"mod.rs resize, resize.rs")],
 ["independently parsed extension list of every asset after every transaction"])

prop("C11", "A chunked upload ends with exactly the intended bytes or not at all",
 "Extension data of any length uploaded in any split over allocate and write requests, appended or restarted by overwriting, is stored byte for byte as sent, in the order the chain applied the chunks, never beyond the declared length and never with stale bytes. The instruction list produced by the client's mint helper, and the in-program allocate-and-write helper, produce an asset holding exactly the given extensions. An asset can be created only when every extension is complete, whatever chunks were lost, repeated, delayed or interrupted by a client restart.",
 ["fault_sequences", "schedules", "inputs", "crash_points"],
 "every data length and split, every loss, duplication, reordering and client crash during the upload",
 "Uploads span many transactions over an unreliable network; tests send every chunk once and in order.",
 [P+"allocate.rs", P+"write.rs", P+"create.rs", "clients/rust/asset/src/mint.rs", "clients/rust/asset/src/impls.rs"],
 ["buffer account data", "declared extension length"],
 [("allocate", P+"allocate.rs"), ("write", P+"write.rs"), ("client split", "clients/rust/asset/src/mint.rs mint"), ("CPI split", "clients/rust/asset/src/impls.rs allocate_and_write")],
 ["bytes in the buffer after every chunk", "extensions of the created asset"])

prop("C12", "Buffers obey only their own key and live assets are never treated as buffers",
 "An account under construction can be allocated, written, closed or turned into an asset only with that account's own signature, and an account that already is an asset can never again be created, allocated into, written, closed as a buffer or used as an update source. Updating an asset from a buffer has the same effect as the same update given inline, applies the same validation, and a buffer that is incomplete is refused. A buffer never holds the same extension type twice.",
 ["histories", "inputs", "schedules"],
 "every interleaving of buffer and asset operations over the same addresses, every signer set",
 "Address reuse and mixing of life-cycle stages across histories is not sampled by tests.",
 [P+"allocate.rs", P+"write.rs", P+"close.rs", P+"create.rs", P+"update.rs"],
 ["account discriminator", "buffer contents"],
 [("initialisation guards", P+"allocate.rs, write.rs, close.rs, create.rs"), ("buffer update", P+"update.rs")],
 ["outcome and effect of every buffer operation"])

prop("C13", "Rent is paid by whoever signed for it and refunded in full to the right account",
 "Every operation moves lamports only as documented: storage growth is paid by the named payer, who must have signed, and costs exactly what is missing for rent exemption; shrinking, closing and burning hand everything above what the account still needs to the named recipient. No other account's balance changes and nothing is created or lost. Every live account of the program holds at least its rent-exempt minimum after every transaction.",
 ["histories", "inputs", "fault_sequences"],
 "every operation over every account size and balance, including extra lamports sent to accounts and payers that cannot pay",
 "Balances depend on the whole history of sizes and donations; tests rarely look at lamports.",
 [P+"mod.rs", P+"create.rs", P+"allocate.rs", P+"write.rs", P+"remove.rs", P+"resize.rs", "programs/asset/program/src/utils.rs"],
 ["lamports of every account", "account data length"],
 [("resize funding and refund", P+"mod.rs resize"), ("close refund", "programs/asset/program/src/utils.rs close_program_account"), ("account creation", P+"create.rs, allocate.rs")],
 ["lamports of every account in every transaction"])

prop("C14", "A burned asset or closed buffer is gone for good and leaves nothing behind",
 "After burning an asset or closing a buffer the account no longer exists: it has no data and no lamports and no longer belongs to the program, and every operation naming it as an asset fails until a new account is created there with that address's own signature. An asset created again at that address starts clean: unlocked, without delegate, group or any extension it was not given. Burning a member requires its group and takes it off the group's count.",
 ["histories", "schedules"],
 "every history of burn, close and re-creation at the same address, with late and replayed requests, also within one transaction",
 "Residue only shows over re-creation histories and late messages that tests do not produce.",
 [P+"burn.rs", P+"close.rs", "programs/asset/program/src/utils.rs", P+"create.rs"],
 ["account data, owner and lamports"],
 [("close account", "programs/asset/program/src/utils.rs close_program_account"), ("burn", P+"burn.rs"), ("close", P+"close.rs")],
 ["account existence and contents after burn, close and re-creation"])

prop("C15", "A proxied asset acts only through its proxy program, with the usual consent",
 "No operation on a proxied asset succeeds unless the asset's own address signs, which only its proxy program can provide. Requests forwarded by the proxy need the same signatures of owner, delegate, creator or authority as for any other asset, so going through the proxy never lets somebody act without consent: transfers need the owner or a transfer delegate, metadata updates need the proxy authority, and nobody else can change its authority, extensions, size or group. Each transfer through the example proxy raises its transfer counter by one, records the time of transfer and moves the asset, or changes nothing.",
 ["histories", "inputs", "schedules"],
 "every instruction with every account list sent directly or through the proxy, by every signer, at any clock value",
 "The proxy forwards arbitrary account lists under the asset's own signature; tests only send the intended ones.",
 ["programs/proxy/src/processor/mod.rs", "programs/proxy/src/processor/transfer.rs", "programs/proxy/src/processor/update.rs", "programs/proxy/src/processor/create.rs", "programs/asset/interface/src/processor.rs", P+"mod.rs"],
 ["proxied asset account", "proxy extension"],
 [("proxied gate", P+"mod.rs validate_access"), ("forwarding", "programs/asset/interface/src/processor.rs process_instruction"), ("overrides", "programs/proxy/src/processor/*.rs")],
 ["proxied asset state after every transaction"], True)

prop("C16", "The bridge never releases one side of a pair without holding the other",
 "At every moment, for every bridged token, the side that the vault's recorded state names is in the bridge's custody, and neither side leaves custody unless the other comes in within the same transaction. Crossing to the asset hands the asset to whoever gave up the token, and crossing back returns the token to whoever signed as holder of the asset, each direction needing that holder's signature. A crossing that fails anywhere changes neither side.",
 ["histories", "fault_sequences", "schedules"],
 "every history of creations, crossings in both directions, token and asset trades in between, wrong or mixed account lists and failures of either inner transfer",
 "It is a conservation law over two ledgers and all histories; tests make one round trip.",
 ["programs/bridge/src/processor/bridge.rs", "programs/bridge/src/state/vault.rs"],
 ["vault account", "token accounts", "asset owner"],
 [("crossing", "programs/bridge/src/processor/bridge.rs"), ("custody signatures", "programs/bridge/src/processor/bridge.rs invoke_signed seeds")],
 ["vault state, token holder and asset owner after every transaction"], True)

prop("C17", "The bridge creates one faithful asset per token, only when authorised",
 "A bridged asset is created only for a real non-fungible token, at the address derived from its mint, at most once per mint, and only with the update authority's signature or, for a token of a verified collection, when that collection is already bridged. The asset starts owned by the vault, with the token's update authority as authority, the token's name, symbol, link and creators, the group role if it is a collection, and the token's royalty rate if it is a programmable collection. No vault exists without its asset.",
 ["inputs", "histories", "configurations"],
 "every token metadata (names, creators, collections, standards), every account list and signer set",
 "Token metadata varies freely; tests use a few fixed tokens.",
 ["programs/bridge/src/processor/create.rs", "programs/bridge/src/state/bridged_asset.rs"],
 ["vault account", "bridged asset account"],
 [("authorisation", "programs/bridge/src/processor/create.rs"), ("asset construction", "programs/bridge/src/processor/create.rs")],
 ["vault and asset accounts after every bridge creation"], True)

prop("C18", "Once faults stop, every party can finish what it is entitled to",
 "Whatever happened before, once messages are delivered and payers are funded, an interrupted upload completes within a bounded number of requests, every locked asset can be unlocked by its lock holder, and every live asset can be transferred when it is transferable, updated while mutable, and finally burned by its owner; groups can be emptied and then burned, and buffers closed. Retiring everything this way leaves no account and no lamports behind in the program. No reachable state makes a legitimate request fail or run forever.",
 ["histories", "fault_sequences", "crash_points"],
 "every state reachable under any schedule and fault sequence",
 "Stuck states arise from rare histories (spare space, odd lengths, half-finished uploads); tests never try to finish from arbitrary states.",
 ["programs/asset/program/src/processor", "clients/rust/asset/src/mint.rs"],
 ["all program accounts"],
 [("all instruction processors", "programs/asset/program/src/processor/mod.rs")],
 ["outcome of the wind-down phase of every simulated run"])

prop("C19", "Rust client-built requests say exactly what the program documents",
 "For every operation and every choice of accounts and arguments, the request produced by the Rust client or the on-chain interface library names the documented accounts in order, with the documented signer and writable marks and placeholders for omitted optional accounts, and carries exactly the given arguments; accounts appended by the caller follow, with the marks given. The program therefore gives the same result for it as for the same request encoded by hand. Requests issued from inside another program with the libraries behave identically.",
 ["inputs", "configurations"],
 "every operation, every subset of optional accounts, every argument value",
 "Builders have many optional setters and defaults; tests exercise one or two settings each.",
 ["clients/rust/asset/src/generated/instructions", "programs/asset/interface/src/generated/instructions", "clients/rust/bridge/src/generated/instructions", "clients/rust/asset/src/impls.rs"],
 ["instruction bytes and account lists"],
 [("client builders", "clients/rust/asset/src/generated/instructions/*.rs"), ("interface builders", "programs/asset/interface/src/generated/instructions/*.rs")],
 ["every request built during simulation, against an independent encoding, and its outcome"])

prop("C20", "Rust libraries read back exactly what is stored, for every reachable account",
 "For every asset state the program can reach, the reading functions of the types and client libraries return exactly the stored header fields and extensions: which are present, in which order, first and last, and every attribute, link, property, creator, limit, rate and byte in them, reporting absent ones, and values of another type than asked for, as absent. The extension builders, fresh or reused, produce bytes that store and read back as the values given to them, and a constraint read back turns into the same bytes again. Reading never changes the data, and reading through mutable views sees the same values.",
 ["histories", "inputs"],
 "every account state reached in any history, every extension value",
 "Readers are tested on freshly built values only, not on accounts produced by long histories of program operations.",
 [T+"state/asset.rs", T+"extensions/mod.rs", T+"extensions/attributes.rs", T+"extensions/links.rs", T+"extensions/properties.rs", "clients/rust/asset/src/generated/accounts/internal_asset.rs"],
 ["account bytes"],
 [("readers", T+"state/asset.rs"), ("builders", T+"extensions/*.rs")],
 ["library readings of every account after every transaction, against an independent parser"])

prop("C21", "An operation changes nothing beyond its documented effect, and failure nothing",
 "A successful operation changes only the fields it documents, on the accounts it documents; every other field, extension and account, including other assets named in the request, stays byte for byte the same. A refused or interrupted request changes nothing. Repeating a request whose conditions no longer hold is refused rather than applied twice.",
 ["histories", "inputs", "fault_sequences", "schedules"],
 "every operation in every reachable state, with accounts repeated or mixed up in the request, and every abort point",
 "Tests assert the intended change but not the absence of all others.",
 ["programs/asset/program/src/processor"],
 ["all accounts"],
 [("all instruction processors", "programs/asset/program/src/processor/mod.rs")],
 ["all accounts before and after every instruction"])

J = "clients/js/asset/src/"
prop("C22", "The JavaScript clients ask for exactly what was meant",
 "For every operation of the three JavaScript clients, every choice of accounts, defaults and arguments, and every extension written with the helpers (attributes, links, creators, royalties with any constraint tree, metadata, grouping, manager, properties, blob, bucket), the request produced names the documented accounts in order with the documented signer and writable marks and placeholders, carries exactly the given values, gathers exactly the needed signatures, and, where a proxy is named, is the same request sent to the proxy. The plans of several transactions (mint, initialize, write, updateWithBuffer) consist of transactions that fit the network's limit (the update itself aside, whose accounts the caller chooses), need nobody else's signature, and, run in order, end in exactly the asset that was meant, with no buffer and no lamports left behind; a plan that stops anywhere leaves no asset from unfinished data and no half-changed asset.",
 ["inputs", "configurations", "crash_points", "fault_sequences", "schedules"],
 "every operation, every subset of optional accounts, every extension value and size, every point at which the client dies, is delayed or has to send again",
 "The JavaScript tests need a validator, sample a few inputs each, and never interrupt a plan.",
 [J+"mint.ts", J+"initialize.ts", J+"write.ts", J+"updateWithBuffer.ts", J+"extensions", J+"constraints", J+"generated/instructions", "clients/js/bridge/src/generated/instructions", "clients/js/proxy/src/generated/instructions"],
 ["instruction bytes and account lists", "assets and buffers after every plan"],
 [("requests", J+"*.ts"), ("plans", J+"mint.ts"), ("extension helpers", J+"extensions/*.ts")],
 ["every request and plan made during simulation, against an independent encoding and its outcome on the ledger"])

prop("C23", "The JavaScript clients read back exactly what is stored",
 "For every asset and vault state the programs can reach, including layouts of earlier versions and accounts with spare space at the end, the JavaScript clients show exactly the stored header fields and extensions, in order, with every value in them; absent groups and delegates show as absent, extensions and properties are found by type and name, buffers are not taken for assets, fetching returns the accounts asked for, searching by any field returns exactly the accounts that have that value, derived addresses are the programs' own, and an error code or name gives the program's error.",
 ["histories", "inputs"],
 "every account state reached in any history, every extension value, every field searched by",
 "Readers are tried on freshly made accounts only, not on what long histories, resizes and earlier layouts leave.",
 [J+"hooked/internalAssetAccountData.ts", J+"hooked", J+"extensions", J+"index.ts", J+"generated/types", "clients/js/bridge/src/generated/accounts/vault.ts"],
 ["account bytes"],
 [("readers", J+"hooked/internalAssetAccountData.ts"), ("queries", J+"index.ts")],
 ["client readings of accounts after transactions, against an independent parser"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in ROWS: f.write(json.dumps(r) + "\n")
print(len(ROWS))
