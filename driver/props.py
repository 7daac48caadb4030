"""What each check is: seconds, method, assurance, assumptions."""

MINI = (
    "The fast workloads run the real program in-process on a model of the runtime (accounts, "
    "instructions sysvar, ed25519 precompile, system program, CPI, commit or roll back); that model is "
    "compared with the real Solana runtime by the bank workload."
)
REF = "The reference rules of conflicts, shred layout and report format are an independent implementation."
CRYPTO = "ed25519 and SHA-256 are assumed secure: an outsider only has signatures the leader made."

# id -> (technique, rule, level_note, assumptions)
FAST = {
    "C01": (
        "runtime monitoring: online no-framing monitor over attacks on honest blocks",
        "Honest leaders sign whole consistent blocks (all variants, sizes, chained and resigned); an attacker "
        "re-encodes and combines their shreds, forges verifications and re-orders instructions. Non-trivial: "
        "distinct shapes (workload, refusal reasons, relation of the two shreds, result).",
        [CRYPTO, MINI],
    ),
    "C02": (
        "runtime monitoring: every accepted report is re-verified from the transaction that made it",
        "34 instruction layouts (duplicate, missing, reordered, crossed, nested and partly verified signatures, "
        "other instructions' data, CPI wrappers) times kinds of forgery. The monitor re-verifies both recorded "
        "shreds with a separate ed25519 implementation and re-reads the preceding instruction. Non-trivial: "
        "distinct (layout, refusal reasons, result) shapes.",
        [CRYPTO, MINI],
    ),
    "C03": (
        "runtime monitoring: acceptance oracle over generated genuine duplicate blocks",
        "Pairs signed by one leader with exactly one kind of conflict, all variants and set sizes, both orders, "
        "random proof offset, slack, submitter and age within the window; the oracle is the reference rules. "
        "Non-trivial: distinct (conflict, variants, relation, order) shapes.",
        [REF, MINI],
    ),
    "C04": (
        "runtime monitoring: differential verdict oracle, both orders",
        "Random and exhaustive-grid pairs of signed shreds around every boundary of the rules (set, index, "
        "version, slot, flags, counts); the program's verdict is compared with the reference in both orders.",
        [REF, MINI],
    ),
    "C05": (
        "runtime monitoring: differential shred parser oracle",
        "All 256 variant bytes, proof sizes 0..15, truncated, padded and mutated shreds: what the program "
        "accepts is compared with a reference parser (validated against solana-ledger's own by the bank "
        "workload). Non-trivial: distinct (variant, length relation, result) shapes.",
        [REF, MINI],
    ),
    "C06": (
        "runtime monitoring: byte-exact comparison of every stored report",
        "Every successful report of every workload is compared byte by byte with what was submitted, read back "
        "through the library, and every failed one with the state before it.",
        [MINI],
    ),
    "C07": (
        "runtime monitoring: history monitor (at most one report per violation)",
        "Random multi-actor histories with evidence of the same violations, moving clocks, closes and re-reports; "
        "the monitor remembers every report ever made.",
        [MINI, "epoch length as on the network (432000 slots) wherever the no-second-report claim is checked"],
    ),
    "C08": (
        "runtime monitoring: immutability monitor over all accounts after every transaction",
        "Random histories of reports, closes, transfers, substitutions and malformed calls; after every "
        "transaction each live report is compared with its recorded bytes, owner and balance.",
        [MINI],
    ),
    "C09": (
        "runtime monitoring: window oracle around every boundary",
        "Slots and clocks around 0, the epoch length, 2^32, 2^64 and several epoch lengths, before, inside, on "
        "the edge of and after the window.",
        [MINI],
    ),
    "C10": (
        "runtime monitoring: close-window oracle around every boundary",
        "Creation epochs and clocks around 0, 3, 2^32 and 2^64, any slot number, any submitter.",
        [MINI],
    ),
    "C11": (
        "runtime monitoring: conservation and payee monitor",
        "Closes of reports holding any balance to the recorded and to other destinations, several closes and "
        "reports per transaction; all balances are compared before and after.",
        [MINI],
    ),
    "C12": (
        "runtime monitoring: substitution faults and address oracle",
        "Each account of each instruction replaced by a look-alike, reordered, dropped, aliased or made "
        "read-only; addresses are derived independently.",
        [MINI],
    ),
    "C13": (
        "runtime monitoring: rent and balance monitor",
        "Balances from 0 to beyond the minimum, one lamport around it, several rents and report sizes.",
        [MINI],
    ),
    "C14": (
        "runtime monitoring: panic and abort monitor under malformed-input fuzzing, arithmetic checks on",
        "Structured mutation of instruction data, accounts, proofs and preceding instructions, plus random "
        "bytes; run with overflow checks, debug assertions and without them.",
        [MINI],
    ),
    "C15": (
        "sanitizers (Miri, AddressSanitizer) and divergence monitor over hostile memory placements and builds",
        "Each call runs three times with different alignment, allocator padding and memory contents, in builds "
        "with and without arithmetic checks, and outcomes are compared; the same transactions run under "
        "AddressSanitizer and a recorded corpus under the Miri interpreter.",
        [MINI, "Miri runs without the aliasing model (solana's AccountInfo violates it by design)"],
    ),
    "C16": (
        "runtime monitoring: wire-format oracle over client-built instructions",
        "Every argument combination around boundaries: the built bytes, accounts and offsets are compared with "
        "the documented format and the transaction is executed.",
        [MINI],
    ),
    "C17": (
        "runtime monitoring: round-trip and delimiting oracle",
        "Pairs of byte strings of lengths 0..1400 packed, extended and unpacked; arbitrary and truncated "
        "buffers with boundary lengths unpacked.",
        [],
    ),
    "C18": (
        "runtime monitoring: allocation monitor (never-freeing heap emulation)",
        "Largest shreds, every verdict and log message, slack up to 10 MiB; the allocator hook counts what the "
        "on-chain bump allocator would have to serve.",
        [MINI, "allocation on the host is that on chain up to pointer width (both 64 bit)"],
    ),
    "C19": (
        "runtime monitoring: single-fault injection with an error oracle",
        "48 single faults injected into otherwise valid transactions (all conflict kinds and variants); the "
        "returned error is compared with the documented one.",
        [MINI],
    ),
}

FAST["C25"] = (
    "runtime monitoring: executed work counted by coverage instrumentation",
    "The program and what it uses on chain are compiled with a callback in every basic block. Largest shreds, "
    "every verdict and refusal, deepest Merkle proofs, slack up to megabytes, long account and instruction "
    "lists, malformed input. Non-trivial: distinct (workload, refusal reasons, relation of the shreds, result) "
    "shapes.",
    [MINI, "a basic block is three compute units on average; the on-chain compiler makes about the same blocks"],
)

NODE = (
    "The tool talks to a stand-in node: JSON-RPC over HTTP as the tool's client library uses it, executing "
    "transactions on a real bank with the program and spl-record as builtins. Confirmation is immediate."
)
LEDGER = "Ledgers are real blockstores; the duplicate evidence in them is generated by the harness."

CLI = {
    "C20": (
        "runtime monitoring: the real CLI on real ledgers, every transaction and account judged",
        "Ledgers with reportable, reported, expired, future, rootless, unprovable and leaderless duplicate slots, "
        "ranges, failing submissions of every kind, being cut off at any submission and attaching again, "
        "evidence that shows up while attached. Non-trivial: distinct shapes (kinds of slots and what each "
        "submission did).",
        [NODE, LEDGER],
    ),
    "C21": (
        "runtime monitoring: the real CLI closing reports on a real bank, balances and listing judged",
        "Chains of reports of any age, owner and destination, with zeroed accounts of any length, reports that "
        "cannot be paid out and failing submissions; all filters in all combinations and formats.",
        [NODE],
    ),
    "C22": (
        "runtime monitoring: output of the real CLI compared with the chain",
        "Chains of reports, holding whatever proofs the program accepts, and zeroed accounts of any length; all "
        "filters in all combinations; text, verbose, JSON and compact JSON.",
        [NODE],
    ),
    "C23": (
        "runtime monitoring: RPC traffic of the real CLI and chain state around dry runs",
        "The attach, close and display scenarios of C20 to C22 with the dry-run option anywhere on the command "
        "line; what is simulated is compared with what a real run has to submit.",
        [NODE, LEDGER],
    ),
    "C24": (
        "runtime monitoring: requests, payers and effects of the real CLI under every way to configure it",
        "Configuration file given, at home, missing or broken; identity, fee payer and URL given, by default, "
        "unusable, contradicting each other; a decoy endpoint and a funded stranger's key wherever the tool must "
        "not look; failing and dead nodes; nonsensical command lines. Non-trivial: distinct shapes (command, "
        "sources of each option, what was submitted).",
        [NODE, LEDGER],
    ),
}

QUICK = {"scale": 2.0, "seconds": 45, "bank_scale": 0.15, "bank_seconds": 15, "cli": 600, "cli_seconds": 50}
THOROUGH = {"scale": 60.0, "seconds": 420, "bank_scale": 3.0, "bank_seconds": 240, "cli": 20000, "cli_seconds": 420}

# buffers alone, and memory use: the real runtime has nothing to add
NO_BANK = ("C15", "C17", "C18", "C25")

NOTE = (
    "Holds on every execution observed, none of which is exhaustive of all inputs: generated workloads reach "
    "every rule, refusal and boundary listed in DESIGN.md many times over. Trusts the reference model, the "
    "monitors, and the runtime model as far as the bank workload compares it with the real runtime."
)
CLI_NOTE = (
    "Holds on every scenario run, none of which is exhaustive. Trusts the stand-in node, which answers as a "
    "validator would with one confirmed bank, and the harness's own account of what is due."
)
NOTES = {k: CLI_NOTE for k in CLI}
ALL = {**FAST, **CLI}
