#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "solana/programs/example-native-token-transfers/src/"
M = "solana/modules/ntt-messages/src/"
T = "solana/programs/ntt-transceiver/src/"
Q = "solana/programs/ntt-quoter/src/"
G = "solana/programs/wormhole-governance/src/"

UNIT = ("The tests that run are unit tests of arithmetic and encodings (and one sampled limiter check); the program-level tests are "
        "not part of the stable suite and sample a handful of fixed scenarios. ")


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=UNIT + why,
                anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe or ["account state and token balances after each instruction"], hook_needed=None))


PROPS = [
  p("C01", "Value is conserved across every transfer",
    "What leaves a sender's balance on an outbound transfer is exactly the amount the resulting message promises to the other chain, and it is either burned (supply falls by it) or locked (custody grows by it). What an inbound release pays out (recipient credit plus any fee the token itself withholds) is exactly the amount in the approved message, and it is either minted or taken from custody. No other operation changes supply, custody or any holder's balance.",
    ["inputs", "histories", "configurations"], "all interleavings of transfers, votes, releases, administration and time, for both modes, all token kinds (plain, 2022, transfer hook, transfer fee), all decimals and 64-bit amounts",
    "Conservation is a statement over whole histories and all token kinds; none is exercised by the suite.",
    [N+"instructions/transfer.rs", N+"instructions/release_inbound.rs", N+"instructions/redeem.rs"],
    [("lock: transfer into custody; burn: transfer then burn", N+"instructions/transfer.rs"), ("mint then transfer / unlock", N+"instructions/release_inbound.rs")]),
  p("C02", "Dust never leaves the sender and amounts are scaled exactly",
    "An outbound amount is expressed with min(8, local, remote) decimals and the sender pays exactly the part representable with them: the remainder below one unit stays in the sender's account. Inbound amounts are converted exactly to local decimals (rounding down when the local token has fewer), and an amount that does not fit 64 bits is refused rather than wrapped or truncated.",
    ["inputs", "configurations"], "all 64-bit amounts and all combinations of source, wire and destination decimals",
    "Unit tests cover a few decimal pairs; overflow and dust boundaries for every pair, and their use by the programs, are not.",
    [M+"trimmed_amount.rs", N+"instructions/transfer.rs", N+"instructions/redeem.rs", N+"peer.rs"],
    [("trimmed amounts", M+"trimmed_amount.rs"), ("dust removal before transfer", N+"instructions/transfer.rs")]),
  p("C03", "Each inbound transfer pays out at most once, when due, to its recipient",
    "For every inbound transfer the recipient named in the message, and nobody else, is paid at most once, no matter how many transceivers deliver it, how often instructions are repeated or in which order. Payment happens only after approval and after any rate-limit delay has passed; afterwards the transfer stays paid for ever.",
    ["histories", "schedules"], "all interleavings of deliveries, votes, releases, repeats and clock advances",
    "At-most-once is a property of histories with repeats and races between transceivers.",
    [N+"queue/inbox.rs", N+"instructions/release_inbound.rs", N+"instructions/redeem.rs"],
    [("release status state machine", N+"queue/inbox.rs"), ("vote bitmap", N+"bitmap.rs")]),
  p("C04", "Each outbound transfer is sent at most once per transceiver, unchanged",
    "An outbound transfer is emitted at most once by each enabled transceiver, never before its release time, and never by one that is not enabled. Every emission carries exactly the terms recorded when the transfer was made (amount, decimals, sender, recipient, destination chain and manager, identifier), and those recorded terms never change.",
    ["histories", "schedules"], "all interleavings of transfers, releases through several transceivers, repeats and clock advances",
    "Needs histories with several transceivers, delays and repeated releases.",
    [N+"queue/outbox.rs", N+"transceivers/wormhole/instructions/release_outbound.rs", N+"instructions/mark_outbox_item_as_released.rs", T],
    [("released bitmap", N+"queue/outbox.rs")], None, ["Wormhole messages posted", "outbox item"]),
  p("C05", "Outbound transfers never exceed the rate limit",
    "An outbound transfer leaves immediately only if it fits in the outbound capacity at that moment, which it then reduces by its amount; otherwise it is refused, or, if the sender allowed queueing, delayed for a full 24 hours without consuming capacity. Capacity refills linearly to the configured limit over 24 hours and never exceeds it.",
    ["histories", "inputs", "schedules"], "all sequences of transfers, limit changes, backflows and clock advances, all 64-bit limits and amounts",
    "One randomised unit test covers the arithmetic of the limiter alone.",
    [N+"queue/rate_limit.rs", N+"queue/outbox.rs", N+"instructions/transfer.rs"], [("token-bucket limiter", N+"queue/rate_limit.rs")]),
  p("C06", "Inbound transfers never exceed the source chain's rate limit",
    "An approved inbound transfer is due immediately only if it fits in the inbound capacity of its own source chain at the moment of approval, which it then reduces; otherwise it is delayed for a full 24 hours without consuming capacity. Each source chain has its own limit and traffic from one chain never consumes another's capacity.",
    ["histories", "inputs", "schedules"], "all sequences of approvals from several chains, limit changes, backflows and clock advances",
    "Separation between chains and the moment of consumption are not covered.",
    [N+"queue/inbox.rs", N+"instructions/redeem.rs", N+"queue/rate_limit.rs"], [("per-chain limiter account", N+"queue/inbox.rs")]),
  p("C07", "Traffic in one direction restores capacity in the other",
    "Whenever an outbound transfer consumes outbound capacity, the inbound capacity of the destination chain grows by the same amount (capped at its limit); whenever an inbound transfer consumes inbound capacity, the outbound capacity grows by the same amount (capped). Delayed transfers restore nothing, and only the two limiters concerned change.",
    ["histories", "inputs"], "all sequences of transfers and approvals for several chains",
    "Backflow is only visible across two program instructions.",
    [N+"instructions/transfer.rs", N+"instructions/redeem.rs", N+"queue/rate_limit.rs"], [("refill of the opposite limiter", N+"queue/rate_limit.rs")]),
  p("C08", "Changing a rate limit shifts the capacity by the same difference",
    "When the owner changes a limit, the capacity available at that moment changes by the same difference, never dropping below zero or rising above the new limit; what was already consumed stays consumed. Only the limiter addressed changes. (Registering a peer anew is a fresh start for that chain: its inbound limiter begins full.)",
    ["inputs", "histories"], "all old and new 64-bit limits, capacities and elapsed times",
    "Only a few values are tried by unit tests, none through the administrative instructions.",
    [N+"queue/rate_limit.rs", N+"instructions/admin.rs"], [("set_limit", N+"queue/rate_limit.rs")]),
  p("C09", "Approval needs the threshold of distinct enabled transceivers",
    "An inbound transfer is approved exactly when at least the configured threshold of distinct, currently enabled transceivers have each delivered a message identical in every field and from the same chain. Repeated deliveries by one transceiver, votes of disabled transceivers and messages that differ in any field do not add up, and approval never happens with a threshold of zero.",
    ["histories", "configurations", "inputs"], "all vote orders, registrations, threshold and enablement changes, and messages differing in any single field",
    "Vote counting needs several transceivers; the suite has none.",
    [N+"instructions/redeem.rs", N+"queue/inbox.rs", N+"bitmap.rs", M+"ntt_manager.rs"], [("vote bitmap and content-derived inbox item", N+"instructions/redeem.rs")]),
  p("C10", "Only messages of configured peers are accepted",
    "A transceiver accepts only messages whose emitter is the peer it has configured for the chain the message comes from and that are addressed to this chain. A transfer counts only if, in addition, its source manager is the peer configured for that chain and its recipient manager and destination chain are this deployment.",
    ["inputs", "configurations", "histories"], "all messages with any combination of foreign emitter, chain, manager or destination, and all peer configurations",
    "Adversarial messages against the programs are not exercised.",
    [N+"transceivers/wormhole/instructions/receive_message.rs", N+"transceivers/wormhole/accounts.rs", N+"instructions/redeem.rs", N+"peer.rs", T+"wormhole/"], [("peer account constraints", N+"instructions/redeem.rs")]),
  p("C11", "Only the owner administers; initialisation happens once",
    "Peers, limits, pausing, transceiver registration, transceiver peers and ownership change only in instructions signed by the current owner, and each such instruction changes only what it names. A deployment is initialised once, by the holder of the program's upgrade authority, and its mode, token and chain never change afterwards.",
    ["histories", "inputs", "configurations"], "every administrative instruction by every kind of signer in every reachable state",
    "Access control of the instructions is not exercised by the stable tests.",
    [N+"instructions/admin.rs", N+"instructions/initialize.rs", N+"transceivers/wormhole/instructions/admin.rs", N+"config.rs"], [("has_one owner constraints", N+"instructions/admin.rs")]),
  p("C12", "Ownership moves in two steps and the upgrade authority follows it",
    "After a two-step handover is started the old owner stays in charge until the new owner accepts; until then the old owner can take it back, and nobody else can claim. The program's upgrade authority is held by the owner, and by the program's own lock exactly while a handover is pending; a one-step handover moves both at once.",
    ["histories", "schedules"], "all sequences of starting, accepting, cancelling and repeating handovers by any signer",
    "Handover sequences need the loader and are absent from the stable tests.",
    [N+"instructions/admin.rs", N+"config.rs"], [("upgrade lock PDA and pending owner", N+"instructions/admin.rs")]),
  p("C13", "While paused, nothing moves",
    "While paused no outbound transfer can be made, no message can be emitted or received and no inbound transfer can be released, by any route. Administration, including unpausing, keeps working, and everything that was pending can be completed unchanged after unpausing.",
    ["histories", "schedules"], "all instructions in all reachable paused states",
    "No stable test pauses the program.",
    [N+"config.rs", N+"instructions/", N+"transceivers/wormhole/", T], [("not-paused config guard", N+"config.rs")]),
  p("C14", "Tokens are spent only on the exact terms their owner approved",
    "A transfer can spend a holder's tokens only if the holder approved exactly these terms (amount, destination chain, recipient, queueing choice), whoever submits it; changing any term makes the approval useless. It spends no more than the approved allowance and only from that holder, and the recorded transfer carries those terms and names the holder as sender.",
    ["inputs", "histories"], "all approvals and all submissions that differ from them in any term, by any submitter",
    "Binding of approval to terms needs adversarial submissions against the program.",
    [N+"instructions/transfer.rs"], [("session authority derived from the terms", N+"instructions/transfer.rs")]),
  p("C15", "Messages follow the shared wire format exactly",
    "Every emitted message is byte-for-byte the encoding all NTT deployments share, for all field values and payload lengths. Every well-formed message decodes to exactly the fields it encodes, and messages with a wrong type prefix or missing bytes are refused.",
    ["inputs"], "all field values, payload lengths, truncations and prefixes",
    "Unit tests decode two fixed samples.",
    [M+"ntt.rs", M+"ntt_manager.rs", M+"transceiver.rs", M+"transceivers/wormhole.rs", M+"trimmed_amount.rs", M+"chain_id.rs"], [("Readable/Writeable implementations", M)]),
  p("C16", "The mode alone decides between burn/mint and lock/unlock",
    "In burning mode outbound transfers only burn and releases only mint; in locking mode outbound transfers only lock into custody and releases only pay from custody; the instructions of the other mode are refused. Burning mode can be initialised only when the program controls the mint, so in locking mode supply never changes and in burning mode custody never retains transferred tokens.",
    ["histories", "configurations"], "all sequences in both modes, all token kinds",
    "Neither mode's instructions run in the stable tests.",
    [N+"instructions/transfer.rs", N+"instructions/release_inbound.rs", N+"instructions/initialize.rs"], [("mode constraints on accounts", N+"instructions/transfer.rs")]),
  p("C17", "Each transceiver has one identity for ever and acts only while enabled",
    "Registering a transceiver gives a program an identifier that is never shared, reused or changed, at most once per program and only to executable programs, up to the capacity of the registry. Only registered and enabled transceivers can send, or vote for, transfers, and no transfer is accepted while none is enabled.",
    ["histories", "configurations"], "all registration orders up to the registry's capacity and all enablement changes",
    "Registration is not exercised; capacity is 128.",
    [N+"registered_transceiver.rs", N+"instructions/admin.rs", N+"bitmap.rs", N+"config.rs"], [("next id counter and enabled bitmap", N+"instructions/admin.rs")]),
  p("C18", "Transfer fees cannot shortchange custody and transfer hooks always run",
    "An outbound transfer during which the token withholds a fee is refused, so a message never promises more than custody received or was burned. For tokens with a transfer hook, the hook is invoked on every outbound transfer and on every release, in both modes.",
    ["inputs", "configurations", "histories"], "all amounts, fee settings, token programs and modes",
    "No stable test uses Token-2022 extensions.",
    [N+"instructions/transfer.rs", N+"instructions/release_inbound.rs"], [("balance comparison around the transfer; transfer-checked with remaining accounts", N+"instructions/transfer.rs")]),
  p("C19", "A relay request charges the quoted fee, once, for a sent transfer",
    "A relay can be requested only for a transfer of a registered deployment that has actually been sent, to a registered and enabled chain, with a gas drop-off within that chain's maximum, and at most once per transfer while the request is open. The payer is charged exactly the price computed from the current prices and parameters (at least the rent of the request), never more than the maximum the payer stated, and the request records the drop-off asked for.",
    ["inputs", "histories", "configurations"], "all prices, parameters, drop-offs, maximum fees and histories of price changes and releases",
    "No stable test runs the quoter.",
    [Q+"processor/request_relay.rs", Q+"state.rs"], [("fee computation and request account", Q+"processor/request_relay.rs")]),
  p("C20", "Quoter settings change only by their owner or assistant",
    "The quoter is initialised once by its upgrade authority. The fee recipient and the assistant change only by the owner; registered deployments, chains, prices and parameters change only by the owner or the assistant; nobody can be locked into a zero price of the native token. Closing a relay request is reserved to them as well and pays its balance to the configured fee recipient.",
    ["histories", "inputs"], "every quoter instruction by every kind of signer in every reachable state",
    "No stable test runs the quoter.",
    [Q+"processor/", Q+"state.rs"], [("owner / authority constraints", Q+"processor/")]),
  p("C21", "A governance action runs exactly once and exactly as voted",
    "The governance program executes an instruction only for a message emitted by the Wormhole governance emitter, addressed to this chain and to this program, at most once per message. What is executed is exactly the instruction in the message, with the governance authority and the payer put in the places reserved for them and no other account, signer flag or byte changed.",
    ["inputs", "histories"], "all governance messages: emitters, modules, actions, chains, account lists, data, truncations and repeats",
    "Unit tests decode a single sample message; the instruction itself never runs.",
    [G+"instructions/governance.rs"], [("VAA checks, replay account, placeholder substitution", G+"instructions/governance.rs")]),
  p("C22", "No instruction accepts an account that is not what it claims to be",
    "Substituting any account an instruction relies on (configuration, peers, limiters, queue items, token accounts, mint, programs, messages) by a forged, foreign or wrongly derived one, or dropping a required signature, makes the instruction fail without effect.",
    ["inputs", "configurations", "histories"], "every instruction, every account slot, in every reachable state: forged copies, same-type siblings, other owners' accounts, missing signatures",
    "Account validation is invisible to unit tests.",
    [N+"instructions/", N+"transceivers/wormhole/", T], [("account constraints", N+"instructions/")]),
  p("C23", "Whatever is due can be completed",
    "Every accepted outbound transfer can be sent by every enabled transceiver within 24 hours, and every approved inbound transfer can be released within 24 hours, provided the deployment is not paused, the recipient's account exists and custody covers it. Valid requests are never refused for any amount, decimals, order of events or configuration reachable by administration.",
    ["histories", "schedules", "inputs"], "all reachable states and all valid requests in them",
    "Availability over histories is out of reach of unit tests.",
    [N+"instructions/", N+"queue/", N+"transceivers/wormhole/", T], [("queues and release times", N+"queue/")]),
  p("C24", "Broadcasts and the lookup table describe the deployment truthfully",
    "A broadcast of the deployment's identity states its manager, mode, token and decimals, and a peer broadcast states the peer configured for that chain; each is emitted by the transceiver's own emitter. The address lookup table built by the program contains exactly the deployment's own accounts, and rebuilding it replaces it.",
    ["histories", "configurations"], "all configurations and administration histories",
    "None of these instructions runs in the stable tests.",
    [N+"transceivers/wormhole/instructions/broadcast_id.rs", N+"transceivers/wormhole/instructions/broadcast_peer.rs", N+"instructions/luts.rs", T+"wormhole/instructions/"], [("message construction from config accounts", N+"transceivers/wormhole/instructions/broadcast_id.rs")]),
  p("C25", "The EVM deployment offers the same guarantees",
    "The EVM manager and transceivers conserve value, respect rate limits, count attestations and authenticate peers in the same way as the Solana deployment and use the same wire format.",
    ["histories", "inputs", "configurations"], "all histories of the EVM contracts", "The stable suite is Rust only.",
    ["evm/src/NttManager/NttManager.sol", "evm/src/NttManager/ManagerBase.sol", "evm/src/Transceiver/", "evm/src/libraries/RateLimiter.sol"], [("Solidity contracts", "evm/src/")]),
]

NA = {
  "C25": "needs the Solidity contracts to be compiled and executed; no Solidity compiler or EVM is installed in the sandbox, so the specification cannot be bound to that code (the wire format half is decided for Solana as C15)",
}
TODO = set(os.environ.get("META_TODO", "").split())

NOTE = ("Behaviours of the Quint specification (seeded simulation, all step properties checked as an invariant on every step) are replayed on the real "
        "programs, compiled from /repo, and every step is compared: acceptance or refusal, all program accounts, token balances, messages posted; "
        "each step is also varied account by account, signature by signature, argument by argument. Sampled, not exhaustive. "
        "Trusts the native runtime shim, the core-bridge stand-in and the SPL programs.")


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for x in PROPS:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    checks, na = [], []
    for x in PROPS:
        i = x["id"]
        if i in NA or i in TODO:
            na.append(dict(property=i, reason=NA.get(i, "check under construction")))
            continue
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough",
                           technique="Quint specification, simulated with its properties as invariants; behaviours replayed on the real programs with step-by-step comparison (model-based conformance)",
                           level="exploration", level_note=NOTE))
    json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
                   notes="Specification in Quint (spec/), harness in harness/. No hooks in /repo."),
              open(HERE + "/MANIFEST.json", "w"), indent=1)


main()
