#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None,
                   **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

p("C01", "Replicas that execute the same blocks reach identical state and results",
  "Any two nodes that start from the same genesis and execute the same sequence of blocks produce, for every block, the same application hash and the same per-transaction results (code, data, gas used, events), so block execution is a function of genesis and blocks only. This holds whatever else each node did in between: queries, gas simulations, mempool checks, proposal building, rejected proposals, restarts, map iteration order, wall-clock time, local (non-consensus) configuration such as indexers and API subscribers.",
  ["schedules", "inputs", "histories", "configurations"],
  "for all block sequences of the message types the chain supports, all interleavings of off-consensus activity with block execution, all iteration orders and local times",
  "Unit tests run one app instance once; none executes the same blocks on two instances with different local histories, clocks, hash seeds or goroutine schedules.",
  ["x/evm/keeper/context.go", "x/evm/state/statedb.go", "x/evm/keeper/erc20.go", "x/evm/keeper/keeper.go", "x/evm/keeper/precompiles.go", "x/evm/abci.go", "app/app.go", "app/keepers/keepers.go", "app/ante/sigverify.go", "app/ante/sequence.go", "app/ibc-hooks/hooks.go"],
  [("EVM execution over store-backed state", "x/evm/keeper/context.go"), ("per-execution transient namespaces", "x/evm/state/statedb.go"), ("ante/post handlers", "app/ante/ante.go, app/posthandler/posthandler.go")],
  ["ResponseFinalizeBlock.AppHash", "ResponseFinalizeBlock.TxResults", "ResponseCommit"])

p("C02", "A node crashed at any point restarts and rejoins with no effect lost or redone",
  "After a crash at any point of its operation (between or inside storage writes of block execution, commit or start-up), with only durable data surviving, a restarted node comes up, replays the blocks it is missing, and ends with exactly the application hash, transaction results and chain-state query answers of a node that never stopped. Every block whose commit was acknowledged is still there, and no block is applied twice or in part.",
  ["crash_points", "fault_sequences", "histories"],
  "for all crash points (each individual storage write of commit, and any point of execution), for process crashes and power losses that drop any unsynced suffix of writes, repeated crashes included",
  "No unit test restarts the application from its database after an interrupted commit; the crash point quantifier is not sampled at all.",
  ["app/app.go", "app/keepers/keepers.go", "x/evm/keeper/keeper.go", "x/evm/abci.go", "app/upgrade.go"],
  [("single atomic multistore commit", "app/app.go NewMinitiaApp/MountKVStores/LoadLatestVersion"), ("all consensus state kept in mounted stores", "app/keepers/keys.go")],
  ["Info.LastBlockHeight/LastBlockAppHash after restart", "FinalizeBlock/Commit of replayed blocks", "store queries"])

p("C03", "The Ethereum index of a node matches its committed blocks, also across restarts",
  "For every committed block, a node's Ethereum index returns exactly the Ethereum transactions of that block, in block order at consecutive positions, each found by its hash, by block and position, and paired one-to-one with the hash of the transaction that carried it; a block's header is found by number and by hash, its parent hash is the previous block's hash, and its gas, time and transaction/receipt commitments agree with the block. These answers never change afterwards and are the same after any restart, and transactions of uncommitted or rejected blocks never become visible as durable data.",
  ["crash_points", "histories", "inputs"],
  "for all block contents mixing Ethereum, Cosmos and undecodable transactions, successful and failed, and all process crash points (each storage write of execution, index and commit included); excluded: power loss, against which the index writes are not synced, and a transaction hash that occurs in several blocks",
  "The repository has unit tests of the cache store and helpers only; the index is never compared with block contents, let alone across crashes.",
  ["indexer/abci.go", "indexer/indexer.go", "indexer/reader.go", "indexer/store.go", "indexer/utils.go", "indexer/keys.go"],
  [("index built and flushed at finalize", "indexer/abci.go ListenFinalizeBlock"), ("write-back cache store", "indexer/store.go")],
  ["TxByHash", "TxByBlockAndIndex", "IterateBlockTxs", "BlockHeaderByNumber/ByHash", "CosmosTxHashByTxHash/TxHashByCosmosTxHash"])

p("C04", "A failed transaction leaves no trace beyond its fee and its sequence number",
  "When an included transaction fails - because a message errors, the EVM reverts at top level, gas runs out, a dispatched inner message fails, or a panic is caught - the committed state after it differs from the state before it only by the fee moved from the fee payer to the fee collector, the signers' sequence numbers (and public keys on first use). In particular no contract storage, code, balance, allowance, token registration, parameter, IBC or module state written by any of its messages survives.",
  ["inputs", "programs", "histories", "fault_sequences"],
  "for all message sequences in one transaction and all failure causes and positions, within any block history",
  "Unit tests check specific error returns of single keeper calls, not the complete state difference of whole failing transactions inside blocks.",
  ["x/evm/keeper/msg_server.go", "x/evm/keeper/context.go", "x/evm/state/statedb.go", "app/ante/sigverify.go", "app/ante/sequence.go", "app/posthandler/gasrefund.go", "x/bank/keeper/msg_server.go"],
  [("EVM state committed only on success", "x/evm/keeper/context.go EVMCallWithTracer/EVMCreateWithTracer"), ("errors propagated to the message router", "x/evm/keeper/msg_server.go")],
  ["full store contents before/after each failing transaction", "ExecTxResult.Code"])

p("C05", "EVM execution agrees with a reference EVM, including nested reverts",
  "For every transaction, the result of contract execution - return data or revert data, success, storage, transient storage, code, nonces, native balances, self-destructs and ordered logs - is the one a standard Ethereum EVM of the same fork computes from the same starting state. In particular, when an inner call or creation reverts, exactly its own effects (and those of the calls it made) are undone, and the effects of its callers and of earlier completed calls stay.",
  ["programs", "inputs", "histories"],
  "for all call trees of calls, delegate calls, static calls, creations, reverts, invalid instructions, storage/transient-storage operations, logs, self-destructs and value transfers, over any history of such transactions",
  "Existing tests exercise a few fixed contracts one level deep; they sample none of the space of nested reverts.",
  ["x/evm/state/statedb.go", "x/evm/state/snapshot.go", "x/evm/state/keys.go", "x/evm/keeper/context.go", "x/evm/types/log.go"],
  [("snapshot stack of cache contexts", "x/evm/state/statedb.go Snapshot/RevertToSnapshot/Commit"), ("transient per-execution state", "x/evm/state/statedb.go")],
  ["MsgCallResponse/MsgCreateResponse", "contract storage and code queries", "account sequence numbers"])

p("C06", "Each signed transaction executes at most once, in nonce order, for its signer",
  "A transaction is included with effect only if it carries valid signatures of all its signers over exactly its content for this chain and each signature's sequence equals the signer's current one; inclusion - successful or failed - advances that sequence by at least one and never back, so the same signed bytes are never included a second time on any node, after any crash or restart, and transactions of one sender take effect in nonce order. A contract creation by an account uses the address derived from that account's nonce and never collides with an existing contract.",
  ["inputs", "histories", "schedules", "crash_points"],
  "for all Ethereum-signed (legacy, access-list, dynamic-fee) and Cosmos-signed transactions, valid, tampered, replayed, duplicated or reordered, mixed over any block history",
  "Unit tests verify single signatures; they neither replay included transactions nor follow sequences through failures, creations and mixed transactions.",
  ["app/ante/sigverify.go", "app/ante/verify.go", "app/ante/sequence.go", "x/evm/keeper/msg_server.go", "x/evm/keeper/txutils.go", "x/evm/state/statedb.go"],
  [("sequence check and increment", "app/ante/sigverify.go"), ("EVM-owned nonce increments", "x/evm/keeper/msg_server.go increaseNonce")],
  ["CheckTx and FinalizeBlock result codes", "account sequence after each transaction"])

p("C07", "Senders pay the stated fee and get back only the unused share; nothing leaks",
  "For every included transaction the fee payer (or granter) is charged the declared fee in full; a successful Ethereum-signed transaction returns the configured share of the price of its unused gas from the fee collector to the payer, all other transactions return nothing, and the fee collector gains exactly the difference. Gas reported as used never exceeds the gas limit of a successful transaction, fees below the node's required minimum price keep the transaction out of its mempool, fees beyond the payer's balance keep it out of effect, and no other account's balance changes because of fees.",
  ["inputs", "histories", "configurations"],
  "for all fee amounts, gas limits, gas prices, refund ratios, fee denominations, successful and failed transactions of all signature kinds",
  "The fee tests check the ante decorator's gas meter on single calls; no test follows fees and refunds through block execution or checks conservation.",
  ["app/ante/fee.go", "x/evm/ante/gas_prices.go", "app/posthandler/gasrefund.go", "x/evm/types/gas.go", "x/evm/keeper/txutils.go", "x/evm/types/decimals.go"],
  [("fee deduction", "app/ante/fee.go"), ("refund", "app/posthandler/gasrefund.go")],
  ["balances of payer and fee collector around each transaction", "ExecTxResult.GasUsed"])

p("C08", "Token supply is conserved and bank and ERC20 views always agree",
  "For every denomination, the total supply equals the sum of all holders' balances after every block; it changes only by mints and burns the protocol orders (bridge deposits and withdrawals, IBC minting and burning, genesis, and an ERC20 contract's own mint and burn), by exactly the ordered amount, and a transfer moves exactly its amount from sender to receiver whichever interface (bank message, ERC20 call, native value transfer, precompile) carried it. The bank view (balances, supply, denomination listing) and the ERC20 view (balanceOf, totalSupply, denomination-to-contract mapping) always report the same values, the mapping is one-to-one, and every non-zero holding is listed.",
  ["inputs", "histories"],
  "for all sequences of transfers, mints, burns, deposits, withdrawals, token creations and failing transactions over accounts, contracts and module accounts",
  "Tests check individual mint/burn/send calls; conservation over arbitrary histories and across the two views is not checked anywhere.",
  ["x/evm/keeper/erc20.go", "x/evm/keeper/erc20_stores.go", "x/evm/precompiles/erc20_registry/contract.go", "x/evm/types/denom.go", "x/bank/keeper/keeper.go", "x/bank/keeper/send.go", "x/bank/keeper/view.go", "x/bank/keeper/msg_server.go", "x/bank/keeper/grpc_query.go"],
  [("bank keeper over ERC20 contracts", "x/evm/keeper/erc20.go"), ("registry precompile", "x/evm/precompiles/erc20_registry/contract.go")],
  ["bank Balance/AllBalances/TotalSupply queries", "ERC20 balanceOf/totalSupply calls", "denom/contract queries"])

p("C09", "Accepted Ethereum transactions are executed and reported exactly as signed",
  "Every raw Ethereum transaction accepted through the JSON-RPC entry point is the one that is executed: sender, recipient, nonce, gas limit, value, input and access list are those signed, and the transaction later returned by the node (by hash and by block position once included, in the pool listing while queued or pending) has the submitted hash and the same signed fields, type and signature. Transactions that cannot be carried without loss (value below the token's precision, wrong chain, unsupported type, malformed) are rejected at the entry point or by admission and never executed.",
  ["inputs", "histories"],
  "for all legacy, access-list and dynamic-fee transactions with arbitrary fields and signatures, calls and creations, on chains whose fee token has any number of decimals",
  "The conversion tests cover three hand-written transactions and never run them through submission, mempool, block and index.",
  ["x/evm/keeper/txutils.go", "jsonrpc/backend/tx.go", "jsonrpc/types/tx.go", "indexer/abci.go", "x/evm/types/decimals.go", "app/ante/verify.go", "x/evm/types/chain_config.go"],
  [("Ethereum/Cosmos conversion both ways", "x/evm/keeper/txutils.go"), ("RPC transaction rendering", "jsonrpc/types/tx.go")],
  ["eth_sendRawTransaction", "eth_getTransactionByHash", "eth_getTransactionReceipt", "effects of execution"])

p("C10", "Messages a contract dispatches run exactly once, in order, or not at all",
  "When a transaction succeeds, the chain messages that its surviving contract calls asked to run are executed exactly once, in the order they were asked for, after the contract execution, with only the calling contract as signer; a request whose own call was reverted is not executed. If any dispatched message is invalid or fails, the whole transaction fails and neither contract effects nor any dispatched message's effects remain, requests made directly in static or delegated calls are refused, and those made in queries or simulations leave no effect.",
  ["programs", "inputs", "histories"],
  "for all call trees mixing dispatch requests, state changes, reverts, static calls and nested dispatches, and all outcomes of the dispatched messages",
  "Tests call the precompile directly with one message; ordering, reverts of enclosing calls and failing dispatched messages are not covered.",
  ["x/evm/precompiles/cosmos/contract.go", "x/evm/keeper/context.go", "x/evm/keeper/precompiles.go", "x/evm/precompiles/erc20_registry/contract.go", "x/evm/state/statedb.go"],
  [("dispatch queue per execution", "x/evm/keeper/context.go CreateEVM/dispatchMessages"), ("signer check", "x/evm/precompiles/cosmos/contract.go")],
  ["bank balances and contract storage after the transaction", "ExecTxResult code and event order"])

p("C11", "Queries, simulations and mempool checks never change chain state",
  "Queries (including state-changing contract calls run as queries, gas estimation and call tracing), transaction simulations, mempool checks, and the building or checking of proposals never alter committed state or the outcome of any later block, even when they run concurrently with block execution. A query at a past height that is still retained answers from exactly the state committed at that height, no matter what has been executed since, and a query at the latest height sees a fully committed block, never a part of one.",
  ["schedules", "histories", "inputs"],
  "for all interleavings of queries, simulations, mempool checks and proposals with block execution and commit, all retained heights",
  "Tests run queries alone on an idle instance; no test interleaves them with execution or compares historical answers.",
  ["x/evm/keeper/query_server.go", "x/evm/keeper/context.go", "jsonrpc/backend/eth.go", "jsonrpc/backend/gas.go", "app/app.go", "app/blocksdk.go", "x/evm/abci.go", "x/evm/keeper/keeper.go"],
  [("query contexts over cached multistores", "jsonrpc/backend/backend.go, app/app.go CreateQueryContext"), ("per-execution namespaces in transient stores", "x/evm/state/statedb.go")],
  ["gRPC query answers by height", "app hash with and without the extra load"])

p("C12", "Contracts see the block environment and recent block hashes they should",
  "During execution of any transaction, a contract sees the number, time and chain id of the block being executed, and for each of the most recent retained earlier blocks (the configured number, at most 256) exactly the block hash that consensus assigned to it, with zero for the current, future and no-longer-retained blocks. The same holds after restarts and when the retention setting is changed, and hashes older than the retention window are removed from state.",
  ["histories", "crash_points", "configurations"],
  "for all chain lengths, retention settings and changes of them, restarts, and block numbers asked for",
  "The unit test covers one keeper call; nothing runs the tracking hook through block production, changes of the retention setting or restarts.",
  ["x/evm/abci.go", "x/evm/keeper/keeper.go", "x/evm/keeper/context.go", "x/evm/types/chain_config.go", "app/app.go"],
  [("block hash tracking in the end-block hook", "x/evm/keeper/keeper.go TrackBlockHash, x/evm/abci.go EndBlock"), ("block context", "x/evm/keeper/context.go buildBlockContext")],
  ["BLOCKHASH/NUMBER/TIMESTAMP/CHAINID results stored by contracts", "stored hashes"])

p("C13", "A chain restarted from its exported genesis behaves like the original",
  "Exporting the state at any height and initialising a fresh node from it succeeds and preserves all user-visible state: contract code and storage, accounts and sequence numbers, balances and supplies, token registrations and denominations, NFT classes, cosmos-to-contract address mappings, allowed publishers and parameters, retained block hashes. The same transactions executed afterwards on the original and on the restarted chain then have the same outcomes, and exporting again yields the same state.",
  ["histories", "inputs"],
  "for all histories before the export and all transactions after it",
  "The genesis test round-trips one hand-made structure; no test exports a chain with a history and continues it.",
  ["x/evm/keeper/genesis.go", "x/evm/types/genesis.go", "app/export.go", "x/bank/keeper/genesis.go", "app/genesis.go"],
  [("export and import of the EVM module", "x/evm/keeper/genesis.go"), ("application export", "app/export.go")],
  ["ExportAppStateAndValidators", "InitChain", "results of identical later transactions"])

p("C14", "An IBC transfer and its contract hook succeed together or not at all",
  "When a token or NFT transfer packet that asks for a contract call arrives, either the tokens are credited and the call has its effects and the acknowledgement is a success, or neither the credit nor any call effect remains and the acknowledgement is an error, after which the sending side refunds exactly the amount sent. Every packet is handled at most once however often it is relayed; acknowledgement and timeout callbacks run at most once, only for the contract the sender named, with the id it gave and only if allowed, with callback failures never blocking the refund; a request that is allowed, correctly addressed and does not itself fail is carried out when the relayer brings enough gas. The vouchers in circulation always equal the amount held in escrow less transfers in flight, and with an honest relayer every packet is settled.",
  ["fault_sequences", "schedules", "inputs", "histories"],
  "for all packets and memos (valid, malformed, reverting, disallowed), and all orders of delivery, duplication, loss, delay, forgery, timeout and acknowledgement, on unordered channels; excluded: forwarding memos, rate limits and relayer fees of other middlewares",
  "Hook tests call the middleware functions directly once; no test relays packets, duplicates them, times them out, or checks conservation over many transfers.",
  ["app/ibc-hooks/hooks.go", "app/ibc-hooks/receive.go", "app/ibc-hooks/ack.go", "app/ibc-hooks/timeout.go", "app/ibc-hooks/util.go", "app/ibc-hooks/message.go", "app/keepers/keepers.go"],
  [("hook handlers around the transfer stack", "app/ibc-hooks/*.go"), ("middleware wiring", "app/keepers/keepers.go")],
  ["acknowledgements written", "escrow and voucher balances", "contract storage written by hooks"])

p("C15", "Each bridged NFT exists in exactly one place with one owner",
  "An NFT class registered on the chain keeps a one-to-one link between class id and contract; every minted token has exactly one owner, total counts equal the tokens listed, only its owner or an approved party can move it, and minting an existing id or moving or burning a non-existing one fails without effect. Transferring a token over IBC and back returns the same token to the named receiver, and at every moment each token is owned on exactly one side, held in escrow on the other.",
  ["histories", "fault_sequences", "inputs"],
  "for all sequences of class creation, mint, transfer, escrow, return and refund with relayer faults",
  "NFT keeper tests cover one class and one token without relaying or faults.",
  ["x/evm/keeper/erc721.go", "x/evm/types/denom.go", "app/ibc-hooks/receive.go", "app/keepers/keepers.go"],
  [("ERC721 keeper", "x/evm/keeper/erc721.go")],
  ["ownerOf/tokenURI of the class contract", "class-contract queries", "escrow ownership"])

p("C16", "Honest proposals are always accepted and valid transactions get in",
  "Every block proposal built by an honest node is accepted by every honest node at the same height, never exceeds the block's gas and size limits, and never contains a transaction twice, two of one sender out of nonce order, or one past its timeout height. A valid, sufficiently paid transaction admitted to the mempool, of a size that fits its lane's share of a block, is included within a bounded number of blocks once faults stop, an included or invalidated transaction leaves the mempool, no transaction runs on more gas than it has, and no sequence of transactions can halt block production.",
  ["schedules", "inputs", "fault_sequences"],
  "for all mempool contents, arrival orders, duplicate gossip, delays, proposer rotation and crashes",
  "No existing test drives mempool, proposal and execution together, or several nodes.",
  ["app/blocksdk.go", "app/app.go", "indexer/mempool.go", "app/ante/ante.go", "app/ante/sigverify.go"],
  [("block-sdk lanes, proposal and check handlers", "app/blocksdk.go"), ("mempool wrapper", "indexer/mempool.go")],
  ["ResponseProcessProposal.Status", "blocks until inclusion", "mempool size"])

p("C17", "Subscriptions and filters deliver every matching event once and never stall",
  "A client that polls its filter (blocks, logs or pending transactions) with eth_getFilterChanges within the expiry time, and a subscriber that reads, receive every matching event from the creation on, while the node stays up, exactly once and in order, and nothing that does not match or did not happen (a transaction the mempool refused is not pending); eth_getFilterLogs returns exactly the logs a search over the same blocks returns. A filter is dropped only after it was not polled for the full configured time or uninstalled, and idle, vanishing or many polling clients, and subscribers that stop reading, never stall block execution, the mempool or other clients.",
  ["schedules", "histories", "fault_sequences"],
  "for all interleavings of block production, transaction admission, filter creation, polling, uninstallation, expiry and slow consumers",
  "There are no tests of filters or subscriptions in the repository.",
  ["jsonrpc/backend/filters.go", "jsonrpc/backend/backend.go", "jsonrpc/namespaces/eth/filters/api.go", "jsonrpc/namespaces/eth/filters/subscriptions.go", "indexer/indexer.go", "indexer/abci.go", "indexer/mempool.go"],
  [("event loop and filter maps", "jsonrpc/namespaces/eth/filters/"), ("indexer event emission", "indexer/indexer.go blockEventsEmitter")],
  ["eth_newFilter/eth_getFilterChanges/eth_getFilterLogs/eth_uninstallFilter", "progress of FinalizeBlock/CheckTx"])

p("C18", "Concurrent transaction submission over JSON-RPC is safe and order-insensitive",
  "For any number of clients concurrently submitting transactions of any accounts in any order while blocks are produced, the node neither crashes nor deadlocks, and every valid transaction acknowledged by a node that stays up is eventually included once all lower nonces of its sender are included, or are acknowledged by running nodes, and faults stop; a transaction submitted ahead of its nonce is held and goes in, in order, when the gap closes, wherever it was closed (a crash of the node loses what it holds). The pending nonce, transaction-by-hash and transaction-pool answers are consistent with the acknowledged submissions, and a held transaction never makes the node submit another one's transaction twice or out of order.",
  ["schedules", "inputs", "fault_sequences"],
  "for all interleavings of concurrent submissions, nonce gaps, duplicates, replacements and block production",
  "No test submits transactions through the RPC backend at all, so no interleaving is covered.",
  ["jsonrpc/backend/tx.go", "jsonrpc/backend/backend.go", "jsonrpc/backend/txpool.go", "jsonrpc/namespaces/eth/api.go"],
  [("queued transaction cache and per-account locks", "jsonrpc/backend/tx.go, jsonrpc/backend/backend.go")],
  ["eth_sendRawTransaction results", "order of broadcasts", "eth_getTransactionCount(pending)", "txpool_content"])

p("C19", "Receipts, logs and blooms reported by a node match what was executed",
  "For every included Ethereum transaction the reported receipt has the status, gas used, cumulative gas, contract address and ordered logs of its actual execution; every log carries the block and transaction it belongs to and a position that is consistent within it; and the block's bloom filter covers the address and topics of every log. A log search over any block range and any address/topic filter returns exactly the matching logs of the included Ethereum transactions, in order, block queries by number, tag and hash list the same transactions as the receipts, and after any restart the answers are the same.",
  ["inputs", "histories"],
  "for all logs emitted by successful and failed transactions, all filters and block ranges, any mix of transactions per block",
  "There are no tests of receipts, log search or block queries in the repository.",
  ["indexer/abci.go", "indexer/utils.go", "jsonrpc/backend/tx.go", "jsonrpc/backend/block.go", "jsonrpc/backend/filters.go", "jsonrpc/namespaces/eth/filters/filter.go", "jsonrpc/namespaces/eth/filters/api.go", "x/evm/types/log.go", "jsonrpc/types/tx.go"],
  [("receipt construction", "indexer/abci.go, indexer/utils.go"), ("log search", "jsonrpc/namespaces/eth/filters/filter.go")],
  ["eth_getTransactionReceipt", "eth_getBlockByNumber/ByHash", "eth_getBlockReceipts", "eth_getLogs"])

p("C20", "Only the entitled party can perform a privileged action",
  "Parameters change only through the chain's authority; when a list of allowed publishers is set only they can deploy contracts by transaction; only the chain itself can mint, burn or move tokens of the denominations it manages without the holder's approval; only token contracts it created or accepted can register themselves, and only the calling contract's own authority is used for messages it dispatches. Blocked module accounts receive no user transfers, and the two contract-address namespaces never let one account act for another.",
  ["inputs", "histories", "configurations"],
  "for all callers, all privileged entry points (messages, contract functions, precompile methods) and all histories of parameter changes",
  "Tests assert individual denials; none explores callers times entry points over parameter-change histories.",
  ["x/evm/keeper/msg_server.go", "x/evm/keeper/address.go", "x/evm/keeper/erc20_stores.go", "x/evm/precompiles/cosmos/contract.go", "x/evm/precompiles/erc20_registry/contract.go", "x/bank/keeper/msg_server.go", "x/bank/keeper/custom_msg_server.go"],
  [("authority and publisher checks", "x/evm/keeper/msg_server.go"), ("precompile caller checks", "x/evm/precompiles/*"), ("shorthand address accounts", "x/evm/keeper/address.go")],
  ["result codes", "state after the attempt"])

p("C21", "Unit and memo conversions are exact",
  "Conversion between token units and 18-decimal units is exact in the direction that multiplies and truncates toward zero in the other for every decimals value, and parsing of hook memos accepts exactly well-formed hook requests. The results depend on the arguments alone.",
  ["inputs"],
  "for all amounts, decimals and memo strings",
  "Unit tests sample a few values.",
  ["x/evm/types/decimals.go", "app/ibc-hooks/util.go"],
  [("pure conversion functions", "x/evm/types/decimals.go, app/ibc-hooks/util.go")],
  ["return values"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
