BFS = "explicit-state model checking of the real programs (exhaustive bounded BFS, every transition compared with a reference model)"
SWEEP = "exhaustive enumeration of a bounded input product on the real programs against a reference model"
BOTH = "explicit-state model checking of the real programs plus exhaustive boundary-input products, against a reference model"
TB = " Assumes the mini-SVM and its stand-ins for chain built-ins are faithful."
EB = "explicit-state model checking of the contracts compiled from /repo (exhaustive bounded BFS plus boundary-input products, every transition compared with a reference model)"
ES = "exhaustive enumeration of a bounded input product on the contracts compiled from /repo against a reference model"
ETS = "exhaustive enumeration of bounded input products on the TypeScript sources bundled from /repo against a reference model"
ETX = "explicit-state exploration of the real programs; in every state every call of the TypeScript client bundled from /repo is enumerated, its transactions executed and compared with a reference client"
TT = " The npm packages (anchor, web3.js, spl-token, bn.js, the Wormhole SDK) are replaced by stand-ins in ts/stubs; assumes those and the mini-SVM are faithful."
TE = " The Solidity sources are compiled and run by the engine in /verif/evm (no solc or EVM here); assumes that engine and its stand-ins for OpenZeppelin and the Wormhole SDK are faithful; gas is not modelled."
NOTE = {
 "C07": (BOTH, "All sequences of transfers, clock steps, limit changes and an inbound refill up to the depth bound, both modes, plus the product of boundary limiter states and amounts." + TB),
 "C08": (BOTH, "All sequences over six messages from two chains, clock steps, limit changes and releases up to the depth bound, both modes, plus boundary limiter states." + TB),
 "C09": (BOTH, "All sequences of immediate and delayed transfers in both directions over two chains up to the depth bound, plus boundary limiter states." + TB),
 "C10": (SWEEP, "Full product of boundary limiter states, ages, amounts and new limits through the four instructions that use the limiter." + TB),
 "C01": (BFS, "Two connected deployments on two runtimes; all interleavings of sends both ways, publications, deliveries in any order and repetition, releases and clock steps up to the depth bound." + TB),
 "C02": (SWEEP, "Full product of decimals pairs, boundary amounts and balances, modes, token programs, recipients and queuing choices through the real transfer instructions." + TB),
 "C03": (BFS, "All orders and repetitions of redeem, release and clock steps over several messages and recipients up to the depth bound, both modes and token programs; decimals product for the payout amount." + TB),
 "C04": (SWEEP, "All single and pairwise deviations of message fields, registrations and accounts from an honest redemption." + TB),
 "C05": (BFS, "All delivery orders and repetitions over three transceivers, all thresholds, and two competing messages up to the depth bound." + TB),
 "C06": (BOTH, "All orders of publishing by two transceivers, delays and registrations up to the depth bound, plus the product of transfer contents compared byte by byte with the published message." + TB),
 "C11": (BFS, "Every user and relayer action tried in every reachable state of small histories, paused and unpaused, up to the depth bound." + TB),
 "C12": (BOTH, "Every administrative instruction with every candidate signer in every reachable ownership state, plus account substitutions." + TB),
 "C13": (BFS, "All hand-over sequences over three keys, to a fixed point of the reachable state space." + TB),
 "C14": (BOTH, "All pairs of approved and submitted terms over the enumerated domains, all submitters, and repeated submissions." + TB),
 "C17": (SWEEP, "All pairs from a family of messages differing in one or two fields or the source chain." + TB),
 "C18": (BOTH, "All registration sequences over several programs up to the depth bound and every registry size through the 128 limit." + TB),
 "C19": (BOTH, "Product of mode, mint authority, signer, token program and earlier initialization; both modes' instructions in every reachable state of a short history." + TB),
 "C20": (BOTH, "All single and pairwise deviations of a posted message and all orders of conflicting deliveries up to the depth bound, both transceivers." + TB),
 "C21": (BOTH, "All sequences of administrative actions over two chains interleaved with transfers up to the depth bound, plus boundary values." + TB),
 "C22": (BOTH, "Product of boundary values of all prices and request arguments plus all price-change histories up to the depth bound." + TB),
 "C23": (BOTH, "Every quoter instruction with every candidate signer in every configuration reachable up to the depth bound, plus account substitutions." + TB),
 "C25": (BOTH, "All modes, decimals and chains of the domain, all orders of broadcasts up to the depth bound, and account substitutions, both transceivers." + TB),
 "C26": (BOTH, "Product of hook-account shapes, hook policies, amounts, ages and modes, all histories with the repository's dummy hook and with a recording and rejecting stand-in hook up to the depth bound, and a product of fee schedules, amounts and custody balances." + TB),
 "C27": (BFS, "From every state reachable up to the depth bound, a completion run of every pending transfer is executed and must succeed within the delay." + TB),
 "C28": (SWEEP, "Every account slot of every user-facing instruction replaced by every account of the system (pairs in the thorough tier)." + TB),
 "C29": (BOTH, "All histories of table creation and initialization up to the depth bound and all account substitutions; one recorded finding (sequence entry)." + TB),
 "C32": (BOTH, "All IDL-built lifecycles of the enumerated configurations and every mixed operation in every one-step state with exactly the IDL's flags; account bytes, return data and error codes compared with the IDL." + TB),
 "C15": (SWEEP, "Products of boundary field values, all truncation points and all single-byte corruptions, decoded and encoded by the real library and compared with an encoder written from the documentation; exhaustive over the stated domains, not over all field values."),
 "C16": (SWEEP, "All 65,536 pairs of decimals with a complete set of boundary amounts, evaluated on the real library against exact arithmetic; not all 2^64 amounts."),
 "C24": (BOTH, "All execution histories of a set of genuine, conflicting and forged messages to the fixed point, all account lists up to the bound, all single header deviations; effects compared with direct execution of the encoded call." + TB + " The wormhole-sdk git dependency is replaced by a stand-in for its Chain type and governance emitter constant."),
 "C33": (EB, "All sequences of transfers, cancellations, completions, messages and clock steps up to the depth bound in both modes, two connected managers, decimals and amount products, fee-charging tokens, and every re-entry point with every inner call." + TE),
 "C34": (EB, "All orders of attestations, executions, removals and threshold changes over several messages and chains up to the depth bound, payload truncations and byte changes, and up to 64 transceivers." + TE),
 "C35": (EB, "Product of limits, uses, elapsed times and limit changes, and all sequences of transfers in both directions, completions and clock steps up to the depth bound, with and without rate limiting." + TE),
 "C36": (EB, "All sequences of administrative operations by every kind of caller up to the depth bound, every user operation in every pause state, and every external function for callers without a role." + TE),
 "C37": (EB, "All sequences of deliveries and configuration changes up to the depth bound, the product of routes, and every truncation, extension and byte change of an encoded message." + TE),
 "C38": (ES, "Boundary field values, every truncation, extension and single-bit change of sample encodings, all small instruction lists, and decimals x decimals x boundary amounts." + TE),
 "C39": (EB, "All registry histories over several transceivers up to the depth bound and every registry size up to the limit." + TE),
 "C40": (EB, "All instruction encodings over small alphabets in every registry state, payment products and all short histories with registry changes." + TE),
 "C41": (EB, "Full product of packet deviations and all sequences of packets up to the depth bound." + TE),
 "C42": (EB, "Product of deployments and upgrades with word-by-word storage comparison, and recorded storage of the deployed version continued by the current code." + TE),
 "C43": (EB, "The logs of every accepted call in the histories and products of the other EVM checks compared with the events the reference model expects." + TE),
 "C44": (ETS, "The repository's TypeScript is bundled from the current sources and every value of the stated products is encoded and decoded by it and compared with an independent definition of the wire format; all chain numbers, payload sizes up to the bound, truncations and bit changes. The npm packages sdk-base and sdk-definitions (layout interpreter, chain names, keccak) are replaced by stand-ins in ts/stubs."),
 "C45": (ETX, "Every transaction-building call of the Solana client with boundary arguments, in every state reached from several deployments by one operation of the mixed exploration (quoter variants and transfer-hook tokens included), executed on the real programs and compared, account by account, with the independently written request." + TT),
 "C46": (ETX, "Every getter and quote of the Solana client in every state reached by histories of up to two operations, compared with an independent decoding of the accounts and the quoter's price." + TT),
 "C47": (ETX, "The contracts are explored from several deployments by direct calls up to the depth bound; in every state every transaction-building call of the EVM client is executed on the contracts and compared (storage, balances, events, external calls) with the direct call, and every getter with what the contracts hold." + TE + " ethers and the Wormhole SDK are replaced by stand-ins in ts/stubs; the ABIs are the repository's."),
 "C48": ("explicit-state exploration of the life of a transfer with every call of the route classes bundled from /repo in every state, plus exhaustive products of configurations and requests", "Closure of the reachable states of one transfer (signature, delivery, queue, release by the route or others) for every pair of deployments, both routes and every outcome of a delivery; full products of requests; every answer and submitted call compared with an independent model. sdk-connect (amounts, addresses, base classes, signing) and the protocol clients are stand-ins; the clients are C45 to C47."),
}
NA = {
 "C31": "The CLI is one script around frameworks and subprocesses that are not installed (yargs, chalk, prompts, forge, anchor, the Wormhole SDK; no network), with its logic inside command handlers that end the process; run against stand-ins for all of them, a check would mostly decide properties of the stand-ins. The layers it calls, the message layouts, the Solana and EVM clients and the routes, are C44 to C48.",
}
