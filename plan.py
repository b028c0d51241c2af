"""Which scenarios decide which property, and how far each tier searches."""
def q(n, cap=55): return dict(seeds=n, cap=cap, minimise=60)
def t(n, cap=720): return dict(seeds=n, cap=cap, minimise=90)

PLAN = {
 "C01": dict(quick=q(160), thorough=t(4000), rule="One run is a chain of ~16 blocks of generated transactions (tokens, scripts of nested EVM calls, creations, dispatches, bridge deposits, params, authz, fee grants, failures) executed by a quiet reference node and by replicas with other local configuration, local queries, simulations, mempool checks, proposals and crashes under a seeded schedule; results and app hashes are compared block by block and the full stores at the end."),
 "C02": dict(quick=q(160), thorough=t(4000), rule="As C01, with replicas crashed at chosen storage writes or instants, losing unsynced writes on power loss, meeting disk errors, and replaying the blocks they miss; every replayed block is compared with the reference node's result, and the full stores at the end."),
 "C11": dict(quick=q(160), thorough=t(4000), rule="As C01, with heavy concurrent queries on each replica; every answer at a past height is compared with the answer recorded when that height was committed, every latest answer must be one of the committed heights spanned by the query, and results and stores are compared with the quiet node's."),
 "C05": dict(quick=q(220), thorough=t(5000), rule="One run is a chain of 16 blocks of generated EVM transactions (single and multi-message, Ethereum- and Cosmos-signed, access lists, random gas limits) whose calldata are random trees of nested calls, delegate and static calls, creations, reverts, self-destructs, storage, transient storage, logs and environment reads. A reference EVM over a plain map with deep-copied snapshots executes the same transactions from the state before the block; success, return and revert data, created addresses and logs are compared per message, nonces, balances, code and storage after every block. In a third of the runs a replica under crashes replays the blocks."),
 "C04": dict(quick=q(160), thorough=t(4000), rule="One run is a chain of generated blocks in which about half of the transactions are made to fail in many ways (message errors, top-level reverts, out of gas, failing dispatched messages, caught panics, failing deposits and hooks after effects of earlier messages). A twin chain executes the same blocks with every failed transaction replaced by one with the same signers, sequences, fee and granter whose only message fails at once; application hashes must agree after every block and every other transaction must have the same result. Replicas replay the blocks under crashes in a share of the runs."),
 "C08": dict(quick=q(200), thorough=t(5000), rule="One run is a chain of generated blocks in which native coin messages, EVM transfers, mints, burns, approvals, dispatched Cosmos messages, bridge deposits and withdrawals, community-pool spends and new ERC20 contracts move tokens; an exact ledger model predicts the success of each operation and every balance and supply. After every block both views (bank module and ERC20 contract), all supplies, the listing of each account and of the total supply and the denom mapping are compared with it; replicas replay blocks under crashes in a share of the runs."),
 "C06": dict(quick=q(200), thorough=t(5000), rule="One run is a chain of blocks whose proposer also includes replays of earlier transactions, shifted and gapped sequences, altered bodies, foreign or missing signatures, wrong chains and re-wrapped Ethereum transactions. A ledger model decides for each transaction if it has authority; included transactions without it must leave no effect, valid ones must take effect once, and sequences, created addresses and all balances are compared after every block."),
 "C07": dict(quick=q(200), thorough=t(5000), rule="As C08 with paid transactions: a model of fee payment (payer, granter and its allowances, several denoms, the refund of Ethereum-signed transactions, failures at each stage) predicts the fee each transaction costs, who pays it and what the collector receives; transactions are also offered to the mempool check of replicas with a minimum gas price, which must refuse those below it."),
 "C10": dict(quick=q(200), thorough=t(5000), rule="One run is a chain of 14 blocks of transactions (calls, creations, several messages) whose scripts are random trees of nested calls, delegate, callcode and static calls, reverts and requests through the cosmos precompile: sends, contract calls that ask for further messages, creations, authz executions, failing, invalid, foreign-signer and malformed messages. A model with a queue per execution predicts success, an order-sensitive record of everything executed, all slots and balances; they are compared after every block, and after running such trees as queries."),
 "C12": dict(quick=q(200), thorough=t(5000), rule="One run is a chain of up to 560 blocks from a random first height, with a random number of retained hashes (0, 256, 257, 300, changed by parameter updates in mid-run). Contracts record the block number, time, chain id and the hashes of chosen heights from nested, delegated, dispatched, constructor, multi-message and Ethereum-signed executions; every recorded value is compared with the block that executed it, the stored hashes with the decided headers, and replicas that crash, lose writes and replay must answer alike."),
 "C03": dict(quick=q(150), thorough=t(4000), rule="One run is a chain of generated blocks that mix Ethereum transactions (all types, successful, failed and refused), Cosmos and undecodable transactions, executed by an indexing reference node and by replicas that are crashed at chosen instants and at chosen storage writes (index writes included) and replay the blocks. An oracle that sees only the decided blocks and their results predicts which transactions each block contributes, at which positions, with which carriers and header; every node's index is compared with it through the JSON-RPC server during and after the run and after every restart, with small index caches and shards so evictions occur.", real="application, indexer, JSON-RPC backend and the in-process go-ethereum RPC server", stub="CometBFT RPC client, consensus and mempool, disks"),
 "C19": dict(quick=q(180), thorough=t(5000), rule="One run is a chain of generated blocks of Ethereum transactions whose scripts emit random logs from nested, reverted, created and dispatched executions, next to Cosmos transactions; while blocks are made and after they are, a client asks the in-process JSON-RPC server for receipts, blocks by number, tag and hash, transactions by position, and log searches over random ranges, addresses and topics; every answer is compared with an oracle built from the decided blocks and their execution results.", real="application, indexer, JSON-RPC backend and the in-process go-ethereum RPC server", stub="CometBFT RPC client, consensus and mempool, disks"),
 "C09": dict(quick=q(260), thorough=t(8000), rule="One run is an indexing node with its mempool, application-side pool and JSON-RPC server, whose fee token has 18, 0 to 36 or custom decimals, to which a client submits raw Ethereum transactions: valid ones of all three types, calls, transfers and creations with random values, inputs, access lists and fees, short signature halves and nonces ahead of their turn, and ones that must not pass (other chain, unprotected, blob, below the token's precision, trailing or missing bytes, flipped bits, the twin signature, overflowing fields). A reference parser says which can be carried; the broadcast and the included carrier, the gas limit, the effects (a contract that logs caller, origin, value, size and hash of its input and its address; balances of fresh recipients; created addresses), the pool listings and every later answer about the transaction must agree with what was signed. Nodes crash and restart between blocks.",
   real="application, indexer, JSON-RPC backend and server", stub="CometBFT RPC client, consensus and mempool, disks"),
 "C18": dict(quick=q(220), thorough=t(8000), rule="One run is 1 to 3 nodes with mempools, gossip and JSON-RPC servers, and up to 5 clients that submit prepared runs of nonces of several senders in any order, at any node, some twice, some with two candidates for a nonce, some as Cosmos transactions, while blocks are produced, rechecks lag, mempools fill, links are cut and nodes crash; another client reads pools, pending nonces and transactions. At the end gaps that refusals or crashes left are closed, and within a bounded number of blocks every acknowledged transaction whose lower nonces are included must be included, nothing may be broadcast more often than submitted, and pools, pending nonces and lookups must agree with the chain.",
   real="application, indexer, JSON-RPC backend and server, of several nodes", stub="CometBFT RPC client, consensus, mempool and gossip, disks"),
 "C17": dict(quick=q(220), thorough=t(8000), rule="One run is a node with its indexer and JSON-RPC server, a producer of transactions (valid, logging, failing, refused) and blocks that crashes and restarts the node between and within blocks, up to 5 clients that create, poll, search, uninstall and abandon filters with delays around the expiry time, up to 3 reading subscribers, some slow, and in a third of the runs a subscriber that stops reading. What each filter and subscription delivered is compared with the sequence of admissions, blocks and logs that happened from its creation on (exactly once, in order, complete at each poll 100 ms after the event), filters must live as long as they are used, and no call, admission or block may take 3 s of simulated time.",
   real="application, indexer, mempool wrapper, JSON-RPC backend, filter API and server", stub="CometBFT RPC client, consensus and mempool, disks, websocket connections (in-process pipes)"),
 "C13": dict(quick=q(220), thorough=t(5000), rule="One run is a chain of 4 to 15 blocks of generated transactions (contracts created, destroyed and called, tokens, NFT, grants, allowances, bridge deposits and withdrawals, hooks, parameter changes, failures) from a random first height. After a random block the state is exported, by the running node and by one that just started on a copy of its disk, and a fresh node is initialised from the export. Both chains execute the same later blocks: results, gas and events of every transaction and the complete stores are compared after every block, while the new node is crashed, loses unsynced writes and restarts; at the end both export again and the exports are compared module by module.", real="application, its export and import of every module, EVM, storage library", stub="consensus engine and proposer, disks"),
 "C16": dict(quick=q(110), thorough=t(3000), rule="One run is a network of 2 to 4 full nodes with their own mempools, gossip over links that get cut and crashes, clients that submit streams of valid, failing, free-lane, large and small transactions, rotating proposers and roomy or full blocks; every proposal is judged by every caught-up node and against the limits, sender order and duplicates; after faults stop every admitted and still valid transaction must be included within a bounded number of blocks, pools must hold nothing included or invalid, and the nodes must have equal state. An eighth of the runs executes transactions made to wear a node out (recursive dispatch, endless loops, memory, tiny gas) after each of which an ordinary transfer must work."),
 "C14": dict(quick=q(150), thorough=t(5000), rule="One run is a chain whose two ends of 2 channels (plain or with the fee middleware) are both its own, on the loopback client: users and contracts (through the cosmos precompile, some undone afterwards) send native coins, ERC20 tokens, NFTs and vouchers of one or more hops with timeouts by height and time and memos that ask for contract calls (pulling the tokens, sending value, reverting, not allowed, misaddressed, malformed) and for callbacks, while relayers deliver, repeat, delay past the timeout, reorder, batch, starve of gas and forge packets and acknowledgements, allow-lists change, and in a third of the runs a replica crashes and loses writes. A model of every balance, escrow, supply, owner, packet, contract counter and callback decides each acknowledgement and is compared with the committed state after every block; after 5 rounds of an honest relayer every packet must be settled.",
   real="application: IBC core with the loopback light client, transfer and nft-transfer stacks with fee, hook, rate-limit and forward middlewares, EVM", stub="counterparty chain and its light client (both channel ends are on the chain itself), CometBFT, disks"),
 "C15": dict(quick=q(130), thorough=t(5000), rule="As C14 for NFTs of 2 collections and the classes that arrive over IBC: owners, approved parties and strangers mint (also existing ids), transfer, approve and burn tokens between and during their journeys over several hops, returns and refunds, with the same relayer faults. The model knows each token's owner on every side, its URI and origin id and the approvals; owners, counts, URIs, the one-to-one link of class, contract and trace and the packet commitments are compared after every block.",
   real="application: IBC core with the loopback light client, nft-transfer stack with fee and hook middlewares, EVM", stub="counterparty chain and its light client (both channel ends are on the chain itself), CometBFT, disks"),
 "C20": dict(quick=q(180), thorough=t(6000), rule="One run is a chain of generated blocks in which attackers (users, contracts that call, delegatecall and callcode the precompiles on behalf of others, authz grantees, forged signers, a former administrator) try privileged acts of every kind: authority messages of the EVM, bridge, bank, IBC, account, consensus, upgrade and hook modules directly, half-way, inside batches, through authz and through contracts; deployments by every route while the publishers' list changes; the chain-only functions, mints, burns, spending and NFT moves of others' tokens; registration with the token registry by contracts that are not, may not or no longer may be tokens; messages in others' names; payments to module accounts by message, value, token, self-destruct, registration and the long form of their addresses. Entitled acts are mixed in and must work. A model of parameters, permissions, registrations, owners, allowances, balances and sequences of those who never act is compared with the committed state after every block; in a share of the runs replicas replay under crashes."),
}
