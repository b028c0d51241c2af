From ed50942c5b1f2c571266e769cd9947c4995a0103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 01/38] fix: keep the sequence increment of a failed evm tx

The ante handler took the increment back for evm messages and the post
handler was to restore it on failure, but the state written by post
handlers is discarded when the messages fail, so a failed evm tx did
not advance the sequence and could be included again. The increment is
now kept by the ante handler and taken over by the first evm message of
the signer.
---
 app/ante/ante.go               |  4 +--
 app/ante/sequence.go           | 53 ++++++++++++++++++++++++++++++
 app/posthandler/posthandler.go |  1 -
 app/posthandler/sequence.go    | 59 ----------------------------------
 x/evm/keeper/msg_server.go     | 47 +++++++++++++++++++++++++--
 x/evm/types/keys.go            |  3 ++
 6 files changed, 103 insertions(+), 64 deletions(-)
 create mode 100644 app/ante/sequence.go
 delete mode 100644 app/posthandler/sequence.go

diff --git a/app/ante/ante.go b/app/ante/ante.go
index 027611b..eaaa81f 100644
--- a/app/ante/ante.go
+++ b/app/ante/ante.go
@@ -97,7 +97,7 @@ func NewAnteHandler(options HandlerOptions) (sdk.AnteHandler, error) {
 		ante.NewValidateSigCountDecorator(options.AccountKeeper),
 		ante.NewSigGasConsumeDecorator(options.AccountKeeper, sigGasConsumer),
 		NewSigVerificationDecorator(options.AccountKeeper, options.EVMKeeper, options.SignModeHandler),
-		NewIncrementSequenceDecorator(options.AccountKeeper),
+		NewSequenceDecorator(options.AccountKeeper),
 		ibcante.NewRedundantRelayDecorator(options.IBCkeeper),
 		auctionante.NewAuctionDecorator(options.AuctionKeeper, options.TxEncoder, options.MevLane),
 	}
@@ -111,6 +111,6 @@ func CreateAnteHandlerForOPinit(ak ante.AccountKeeper, ek *evmkeeper.Keeper, sig
 		ante.NewValidateSigCountDecorator(ak),
 		ante.NewSigGasConsumeDecorator(ak, ante.DefaultSigVerificationGasConsumer),
 		NewSigVerificationDecorator(ak, ek, signModeHandler),
-		NewIncrementSequenceDecorator(ak),
+		NewSequenceDecorator(ak),
 	)
 }
diff --git a/app/ante/sequence.go b/app/ante/sequence.go
new file mode 100644
index 0000000..52bda8c
--- /dev/null
+++ b/app/ante/sequence.go
@@ -0,0 +1,53 @@
+package ante
+
+import (
+	sdk "github.com/cosmos/cosmos-sdk/types"
+	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
+
+	evmtypes "github.com/initia-labs/minievm/x/evm/types"
+)
+
+// SequenceDecorator increments the sequences of all signers in every execution mode, so the
+// increment is kept even if the messages of the tx fail; otherwise a failed evm tx could be
+// included again.
+//
+// The evm messages also increment the sequence of their sender. To prevent double increments,
+// the decorator passes the signers which send evm messages to the message server with
+// CONTEXT_KEY_INCREMENTED_SEQUENCES, and the message server takes over the increment.
+type SequenceDecorator struct {
+	inner authante.IncrementSequenceDecorator
+	ak    authante.AccountKeeper
+}
+
+func NewSequenceDecorator(ak authante.AccountKeeper) SequenceDecorator {
+	return SequenceDecorator{
+		inner: authante.NewIncrementSequenceDecorator(ak),
+		ak:    ak,
+	}
+}
+
+func (sd SequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (sdk.Context, error) {
+	incremented := make(map[string]bool)
+	for _, msg := range tx.GetMsgs() {
+		var caller string
+		switch msg := msg.(type) {
+		case *evmtypes.MsgCreate:
+			caller = msg.Sender
+		case *evmtypes.MsgCreate2:
+			caller = msg.Sender
+		case *evmtypes.MsgCall:
+			caller = msg.Sender
+		default:
+			continue
+		}
+
+		callerAccAddr, err := sd.ak.AddressCodec().StringToBytes(caller)
+		if err != nil {
+			return ctx, err
+		}
+
+		incremented[string(callerAccAddr)] = true
+	}
+
+	return sd.inner.AnteHandle(ctx.WithValue(evmtypes.CONTEXT_KEY_INCREMENTED_SEQUENCES, incremented), tx, simulate, next)
+}
diff --git a/app/posthandler/posthandler.go b/app/posthandler/posthandler.go
index bd180e0..04132f8 100644
--- a/app/posthandler/posthandler.go
+++ b/app/posthandler/posthandler.go
@@ -16,7 +16,6 @@ func NewPostHandler(
 	ek EVMKeeper,
 ) sdk.PostHandler {
 	return sdk.ChainPostDecorators(
-		NewSequenceIncrementDecorator(ak),
 		NewGasRefundDecorator(ek),
 	)
 }
diff --git a/app/posthandler/sequence.go b/app/posthandler/sequence.go
deleted file mode 100644
index aa79d46..0000000
--- a/app/posthandler/sequence.go
+++ /dev/null
@@ -1,59 +0,0 @@
-package posthandler
-
-import (
-	sdk "github.com/cosmos/cosmos-sdk/types"
-	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
-)
-
-var _ sdk.PostDecorator = &SequenceIncrementDecorator{}
-
-type SequenceIncrementDecorator struct {
-	ak authante.AccountKeeper
-}
-
-func NewSequenceIncrementDecorator(ak authante.AccountKeeper) sdk.PostDecorator {
-	return &SequenceIncrementDecorator{
-		ak,
-	}
-}
-
-// If a transaction fails, we need to revert the sequence decrement for EVM messages that were executed in the ante handler.
-// This is necessary because the sequence increment in EVM was reverted due to the failure.
-func (sid *SequenceIncrementDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate, success bool, next sdk.PostHandler) (newCtx sdk.Context, err error) {
-	if !success && ctx.ExecMode() == sdk.ExecModeFinalize {
-		signerMap := make(map[string]bool)
-		for _, msg := range tx.GetMsgs() {
-			var caller string
-			switch msg := msg.(type) {
-			case *evmtypes.MsgCreate:
-				caller = msg.Sender
-			case *evmtypes.MsgCreate2:
-				caller = msg.Sender
-			case *evmtypes.MsgCall:
-				caller = msg.Sender
-			default:
-				continue
-			}
-
-			if _, ok := signerMap[caller]; ok {
-				continue
-			}
-			signerMap[caller] = true
-
-			callerAccAddr, err := sid.ak.AddressCodec().StringToBytes(caller)
-			if err != nil {
-				return ctx, err
-			}
-
-			acc := sid.ak.GetAccount(ctx, callerAccAddr)
-			if err := acc.SetSequence(acc.GetSequence() + 1); err != nil {
-				panic(err)
-			}
-
-			sid.ak.SetAccount(ctx, acc)
-		}
-	}
-
-	return next(ctx, tx, simulate, success)
-}
diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 26dffd4..22bc9a7 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -1,9 +1,11 @@
 package keeper
 
 import (
+	"bytes"
 	"context"
 	"errors"
 
+	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
 	"github.com/ethereum/go-ethereum/core/tracing"
 	"github.com/holiman/uint256"
@@ -70,6 +72,11 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 		}
 	}
 
+	// give the increment of the ante handler back, because evm increases the nonce at Create.
+	if err := ms.takeOverIncrementedSequence(ctx, sender, caller); err != nil {
+		return nil, err
+	}
+
 	// deploy a contract
 	retBz, contractAddr, logs, err := ms.EVMCreate(ctx, caller, codeBz, value, accessList)
 	if err != nil {
@@ -129,6 +136,11 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 		}
 	}
 
+	// give the increment of the ante handler back, because evm increases the nonce at Create.
+	if err := ms.takeOverIncrementedSequence(ctx, sender, caller); err != nil {
+		return nil, err
+	}
+
 	// deploy a contract
 	retBz, contractAddr, logs, err := ms.EVMCreate2(ctx, caller, codeBz, value, msg.Salt, accessList)
 	if err != nil {
@@ -142,6 +154,34 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	}, nil
 }
 
+// popIncrementedSequence reports whether the ante handler has incremented the sequence of the given
+// signer for the evm message being executed. It returns true only for the first message of the signer.
+func popIncrementedSequence(ctx context.Context, signer sdk.AccAddress) bool {
+	incremented, ok := ctx.Value(types.CONTEXT_KEY_INCREMENTED_SEQUENCES).(map[string]bool)
+	if !ok || !incremented[string(signer)] {
+		return false
+	}
+
+	delete(incremented, string(signer))
+	return true
+}
+
+// takeOverIncrementedSequence decrements the sequence of the given signer if it has been incremented by
+// the ante handler and the evm is going to increment it again.
+func (ms *msgServerImpl) takeOverIncrementedSequence(ctx context.Context, signer sdk.AccAddress, caller common.Address) error {
+	// evm increases the nonce of the shorthand account, not the nonce of the signer.
+	if !bytes.Equal(signer, caller.Bytes()) || !popIncrementedSequence(ctx, signer) {
+		return nil
+	}
+
+	signerAcc := ms.accountKeeper.GetAccount(ctx, signer)
+	if err := signerAcc.SetSequence(signerAcc.GetSequence() - 1); err != nil {
+		return err
+	}
+	ms.accountKeeper.SetAccount(ctx, signerAcc)
+	return nil
+}
+
 // increaseNonce increases the nonce of the given account.
 func (ms *msgServerImpl) increaseNonce(ctx context.Context, caller sdk.AccAddress) error {
 	senderAcc := ms.accountKeeper.GetAccount(ctx, caller)
@@ -165,8 +205,11 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 	// increase nonce before execution like evm does
 	//
 	// NOTE: evm only increases nonce at Call not Create, so we should do the same.
-	if err := ms.increaseNonce(ctx, sender); err != nil {
-		return nil, err
+	// Also the nonce has been already increased by the ante handler for the first message of a signer.
+	if !popIncrementedSequence(ctx, sender) {
+		if err := ms.increaseNonce(ctx, sender); err != nil {
+			return nil, err
+		}
 	}
 
 	contractAddr, err := types.ContractAddressFromString(ms.ac, msg.ContractAddr)
diff --git a/x/evm/types/keys.go b/x/evm/types/keys.go
index 8c6aa2b..ebcd4a5 100644
--- a/x/evm/types/keys.go
+++ b/x/evm/types/keys.go
@@ -51,4 +51,7 @@ type ContextKey int
 const (
 	// CONTEXT_KEY_COSMOS_MESSAGES is a context key for cosmos messages
 	CONTEXT_KEY_COSMOS_MESSAGES ContextKey = iota
+	// CONTEXT_KEY_INCREMENTED_SEQUENCES is a context key for the set of tx signers whose sequence
+	// has been incremented by the ante handler on behalf of their first evm message.
+	CONTEXT_KEY_INCREMENTED_SEQUENCES
 )
-- 
2.43.0


From ab4277c7f3964cb8afcb54697cadc935a2dbf4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 02/38] fix: keep the snapshot reverted to in the snapshot
 stack

---
 x/evm/state/statedb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 4eb7926..e7d224d 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -586,7 +586,7 @@ func (s *StateDB) RevertToSnapshot(i int) {
 	s.ctx = snap.ctx
 
 	// clear the snapshots after the given id
-	s.snaps = s.snaps[:i]
+	s.snaps = s.snaps[:i+1]
 }
 
 // Prepare handles the preparatory steps for executing a state transition with.
-- 
2.43.0


From 4ea1617cfab1c7ca9ff145f59f8afe7e33d8621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 03/38] fix: separate the transient storage of contracts

---
 x/evm/state/statedb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index e7d224d..36aa3c8 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -540,14 +540,14 @@ func (s *StateDB) SetTransientState(addr common.Address, key, value common.Hash)
 		return
 	}
 
-	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, key[:]), value[:]); err != nil {
+	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, append(addr.Bytes(), key[:]...)), value[:]); err != nil {
 		panic(err)
 	}
 }
 
 // GetTransientState gets transient storage for a given account.
 func (s *StateDB) GetTransientState(addr common.Address, key common.Hash) common.Hash {
-	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, key[:]))
+	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, append(addr.Bytes(), key[:]...)))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return common.Hash{}
 	} else if err != nil {
-- 
2.43.0


From bf50d738b6b7248f4abb4b79d9de89c8d45789a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 04/38] fix: report the empty code hash for a contract under
 construction

---
 x/evm/state/statedb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 36aa3c8..1e8807f 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -394,6 +394,11 @@ func (s *StateDB) GetCodeHash(addr common.Address) common.Hash {
 		return types.EmptyCodeHash
 	}
 
+	// a contract under construction has no code yet
+	if len(cacc.CodeHash) == 0 {
+		return types.EmptyCodeHash
+	}
+
 	return common.BytesToHash(cacc.CodeHash)
 }
 
-- 
2.43.0


From c692c866c468a17d0de80736c6867c8b1b1c516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 05/38] fix: fund the community pool only with the coin which
 cannot be burned

---
 x/evm/keeper/erc20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 813c143..7ef9ad7 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -66,7 +66,7 @@ func (k ERC20Keeper) BurnCoins(ctx context.Context, addr sdk.AccAddress, amount
 		// if a coin is not generated from 0x1, then send the coin to community pool
 		// because we don't have burn capability.
 		if types.IsERC20Denom(coin.Denom) {
-			if err := k.communityPoolKeeper.FundCommunityPool(ctx, amount, evmAddr.Bytes()); err != nil {
+			if err := k.communityPoolKeeper.FundCommunityPool(ctx, sdk.NewCoins(coin), evmAddr.Bytes()); err != nil {
 				return err
 			}
 
-- 
2.43.0


From 185d4044f3935ac8a7c0a77e961eb44dbc54e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 06/38] fix: apply the access list of a call message

---
 x/evm/keeper/msg_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 22bc9a7..039c30e 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -230,8 +230,9 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 	if overflow {
 		return nil, types.ErrInvalidValue.Wrap("value is out of range")
 	}
+	accessList := types.ConvertCosmosAccessListToEth(msg.AccessList)
 
-	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, nil)
+	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, accessList)
 	if err != nil {
 		return nil, types.ErrEVMCallFailed.Wrap(err.Error())
 	}
-- 
2.43.0


From 896987fe8f139ca5f79c79d92c1d2b84da13026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 07/38] fix: ignore only the not found error when deleting from
 the indexer cache

---
 indexer/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer/store.go b/indexer/store.go
index dee7636..45005d9 100644
--- a/indexer/store.go
+++ b/indexer/store.go
@@ -92,7 +92,7 @@ func (c CacheStore) Delete(key []byte) error {
 	storetypes.AssertValidKey(key)
 
 	err := c.cache.Delete(string(key))
-	if err != nil && errors.IsOf(err, bigcache.ErrEntryNotFound) {
+	if err != nil && !errors.IsOf(err, bigcache.ErrEntryNotFound) {
 		return errors.Wrap(err, "failed to delete cache")
 	}
 	c.store.Delete(key)
-- 
2.43.0


From 1b62f89dfe3516241fc0f1d0c67d633a4d898c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 08/38] fix: drop the cosmos messages requested by a reverted
 call

---
 x/evm/keeper/context.go |  5 +++--
 x/evm/state/snapshot.go | 19 +++++++++++++++++--
 x/evm/state/statedb.go  |  6 ++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index a010cd5..e411757 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -160,6 +160,9 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		return ctx, nil, err
 	}
 
+	// set cosmos messages to context
+	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
+
 	evm := &vm.EVM{}
 	blockContext, err := k.buildBlockContext(ctx, evm, fee)
 	if err != nil {
@@ -179,8 +182,6 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		ExtraEips: extraEIPs,
 	}
 
-	// set cosmos messages to context
-	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	*evm = *vm.NewEVMWithPrecompiles(
 		blockContext,
 		txContext,
diff --git a/x/evm/state/snapshot.go b/x/evm/state/snapshot.go
index de8f266..d50e1c4 100644
--- a/x/evm/state/snapshot.go
+++ b/x/evm/state/snapshot.go
@@ -4,22 +4,37 @@ import (
 	"context"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
+
+	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 type Snapshot struct {
 	ctx    sdk.Context
 	commit func()
+
+	// the number of cosmos messages queued before the snapshot
+	numMessages int
 }
 
 func NewSnapshot(ctx context.Context) *Snapshot {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	cacheCtx, commit := sdkCtx.CacheContext()
 	return &Snapshot{
-		ctx:    cacheCtx,
-		commit: commit,
+		ctx:         cacheCtx,
+		commit:      commit,
+		numMessages: len(*cosmosMessages(sdkCtx)),
 	}
 }
 
 func (s *Snapshot) Commit() {
 	s.commit()
 }
+
+// cosmosMessages returns the queue of the cosmos messages requested in the given context.
+func cosmosMessages(ctx sdk.Context) *[]sdk.Msg {
+	if messages, ok := ctx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg); ok {
+		return messages
+	}
+
+	return &[]sdk.Msg{}
+}
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 1e8807f..7c95379 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -580,6 +580,12 @@ func (s *StateDB) Snapshot() int {
 
 // RevertToSnapshot reverts the state to the snapshot with the given id
 func (s *StateDB) RevertToSnapshot(i int) {
+	// drop the cosmos messages queued after the given id
+	messages := cosmosMessages(s.initialCtx)
+	if i+1 < len(s.snaps) && s.snaps[i+1].numMessages < len(*messages) {
+		*messages = (*messages)[:s.snaps[i+1].numMessages]
+	}
+
 	if i == -1 {
 		s.ctx = s.initialCtx
 		s.snaps = s.snaps[:0]
-- 
2.43.0


From 9e713271634da1c9465a7be7f930da8080cc0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 09/38] fix: execute precompiles on the state of the calling
 snapshot

---
 x/evm/keeper/context.go |  2 +-
 x/evm/state/context.go  | 30 ++++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)
 create mode 100644 x/evm/state/context.go

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index e411757..5fd521e 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -188,7 +188,7 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		stateDB,
 		types.DefaultChainConfig(ctx),
 		vmConfig,
-		k.precompiles.toMap(ctx),
+		k.precompiles.toMap(stateDB.Context()),
 	)
 
 	if tracer != nil {
diff --git a/x/evm/state/context.go b/x/evm/state/context.go
new file mode 100644
index 0000000..aee4755
--- /dev/null
+++ b/x/evm/state/context.go
@@ -0,0 +1,30 @@
+package state
+
+import (
+	"context"
+
+	sdk "github.com/cosmos/cosmos-sdk/types"
+)
+
+var _ context.Context = snapshotContext{}
+
+// snapshotContext is a context which is always unwrapped to the current snapshot context of the stateDB.
+type snapshotContext struct {
+	context.Context
+	stateDB *StateDB
+}
+
+// Value implements context.Context.
+func (c snapshotContext) Value(key any) any {
+	if key == sdk.SdkContextKey {
+		return c.stateDB.ctx
+	}
+
+	return c.stateDB.ctx.Value(key)
+}
+
+// Context returns a context which follows the current snapshot of the stateDB, so everything read and
+// written with it belongs to the call being executed and is reverted together with it.
+func (s *StateDB) Context() context.Context {
+	return snapshotContext{Context: s.initialCtx, stateDB: s}
+}
-- 
2.43.0


From b8605e50e8a9e81f7e69287e15054ca168b63488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 10/38] fix: index ethereum transactions from position zero

---
 indexer/abci.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index c8b6ef0..0c2b5a0 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -77,7 +77,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		gasUsed := uint64(txResult.GasUsed)
 		cumulativeGasUsed += gasUsed
 
-		txIndex++
 		ethTxs = append(ethTxs, ethTx)
 
 		// extract logs and contract address from tx results
@@ -109,6 +108,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		receipts = append(receipts, &receipt)
+		txIndex++
 	}
 
 	chainId := types.ConvertCosmosChainIDToEthereumChainID(sdkCtx.ChainID())
-- 
2.43.0


From 210d6324c27b91c15a35432937e26cad9d98d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 11/38] fix: read the account mutexes only under their lock

---
 jsonrpc/backend/backend.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonrpc/backend/backend.go b/jsonrpc/backend/backend.go
index c5933dd..5d3cc74 100644
--- a/jsonrpc/backend/backend.go
+++ b/jsonrpc/backend/backend.go
@@ -92,11 +92,10 @@ func (b *JSONRPCBackend) acquireAccMut(senderHex string) {
 // and decrements the reference count. If the reference count reaches zero,
 // the mutex is deleted.
 func (b *JSONRPCBackend) releaseAccMut(senderHex string) {
-	accMut := b.accMuts[senderHex]
-	accMut.mut.Unlock()
-
 	// critical section for rc and delete
 	b.mut.Lock()
+	accMut := b.accMuts[senderHex]
+	accMut.mut.Unlock()
 	accMut.rc--
 	if accMut.rc == 0 {
 		delete(b.accMuts, senderHex)
-- 
2.43.0


From c590ff15b2142ccf6bc3a42d0083e4c17d4d9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 12/38] fix: start the idle time of block and pending
 transaction filters at creation

---
 jsonrpc/namespaces/eth/filters/api.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsonrpc/namespaces/eth/filters/api.go b/jsonrpc/namespaces/eth/filters/api.go
index 092c837..a01904a 100644
--- a/jsonrpc/namespaces/eth/filters/api.go
+++ b/jsonrpc/namespaces/eth/filters/api.go
@@ -188,9 +188,10 @@ func (api *FilterAPI) NewPendingTransactionFilter(fullTx *bool) (rpc.ID, error)
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
-		txs:    make([]*rpctypes.RPCTransaction, 0),
-		hashes: make([]common.Hash, 0),
-		s:      s,
+		txs:      make([]*rpctypes.RPCTransaction, 0),
+		hashes:   make([]common.Hash, 0),
+		lastUsed: time.Now(),
+		s:        s,
 	}
 	api.filtersMut.Unlock()
 
@@ -241,8 +242,9 @@ func (api *FilterAPI) NewBlockFilter() (rpc.ID, error) {
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
-		hashes: make([]common.Hash, 0),
-		s:      s,
+		hashes:   make([]common.Hash, 0),
+		lastUsed: time.Now(),
+		s:        s,
 	}
 	api.filtersMut.Unlock()
 
-- 
2.43.0


From 393ed1a39d3c1996581234bbfd7160c92a3bff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 13/38] fix: emit block events in block order

---
 indexer/abci.go    | 13 ++++++++++---
 indexer/indexer.go |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 0c2b5a0..84576c4 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -193,9 +193,16 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		return err
 	}
 
-	// emit block event in a goroutine
-	done := make(chan struct{})
-	go e.blockEventsEmitter(&blockEvents{header: &blockHeader, logs: blockLogs}, done)
+	// emit block event in a goroutine, after the events of the previous block
+	prev, done := e.lastEmitted, make(chan struct{})
+	e.lastEmitted = done
+	go func() {
+		if prev != nil {
+			<-prev
+		}
+
+		e.blockEventsEmitter(&blockEvents{header: &blockHeader, logs: blockLogs}, done)
+	}()
 	go func() {
 		select {
 		case <-done:
diff --git a/indexer/indexer.go b/indexer/indexer.go
index 9813f0f..e176a60 100644
--- a/indexer/indexer.go
+++ b/indexer/indexer.go
@@ -73,6 +73,9 @@ type EVMIndexerImpl struct {
 	blockChans   []chan *coretypes.Header
 	logsChans    []chan []*coretypes.Log
 	pendingChans []chan *rpctypes.RPCTransaction
+
+	// lastEmitted is closed when the events of the last indexed block are emitted
+	lastEmitted chan struct{}
 }
 
 func NewEVMIndexer(
-- 
2.43.0


From e3c2449845acec19f3fde9105e6ca9b3ef062521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 14/38] fix: track the hash of a block under its own height

---
 app/app.go      |  2 --
 app/modules.go  |  1 +
 indexer/abci.go |  2 +-
 x/evm/abci.go   | 12 ++++--------
 x/evm/module.go |  8 ++++----
 5 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/app/app.go b/app/app.go
index be76d43..17aec1e 100644
--- a/app/app.go
+++ b/app/app.go
@@ -67,7 +67,6 @@ import (
 	"github.com/initia-labs/minievm/app/posthandler"
 	evmindexer "github.com/initia-labs/minievm/indexer"
 	evmconfig "github.com/initia-labs/minievm/x/evm/config"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 
 	// kvindexer
 	kvindexermodule "github.com/initia-labs/kvindexer/x/kvindexer"
@@ -229,7 +228,6 @@ func NewMinitiaApp(
 	// NOTE: upgrade module is required to be prioritized
 	app.ModuleManager.SetOrderPreBlockers(
 		upgradetypes.ModuleName,
-		evmtypes.ModuleName,
 	)
 
 	// set order of module operations
diff --git a/app/modules.go b/app/modules.go
index 1f21ae2..f542d87 100644
--- a/app/modules.go
+++ b/app/modules.go
@@ -168,6 +168,7 @@ func orderEndBlockers() []string {
 	return []string{
 		crisistypes.ModuleName,
 		opchildtypes.ModuleName,
+		evmtypes.ModuleName,
 		authz.ModuleName,
 		feegrant.ModuleName,
 		group.ModuleName,
diff --git a/indexer/abci.go b/indexer/abci.go
index 84576c4..d1693d5 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -211,7 +211,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 	}()
 
-	// TODO - currently state changes are not supported in abci listener, so we track cosmos block hash at x/evm preblocker.
+	// TODO - currently state changes are not supported in abci listener, so we track cosmos block hash at x/evm endblocker.
 	// - https://github.com/cosmos/cosmos-sdk/issues/22246
 	//
 	// err = e.evmKeeper.TrackBlockHash(sdkCtx, uint64(blockHeight), blockHash)
diff --git a/x/evm/abci.go b/x/evm/abci.go
index 5a1b8db..a6897e1 100644
--- a/x/evm/abci.go
+++ b/x/evm/abci.go
@@ -10,14 +10,10 @@ import (
 	"github.com/initia-labs/minievm/x/evm/types"
 )
 
-// PreBlock track latest 256 block hashes
-func PreBlock(ctx sdk.Context, k *keeper.Keeper) (sdk.ResponsePreBlock, error) {
+// EndBlock track latest 256 block hashes
+func EndBlock(ctx sdk.Context, k *keeper.Keeper) error {
 	defer telemetry.ModuleMeasureSince(types.ModuleName, time.Now(), telemetry.MetricKeyEndBlocker)
-	height := uint64(ctx.BlockHeight())
-	if height <= 1 {
-		return sdk.ResponsePreBlock{}, nil
-	}
 
-	// current block header hash is created by the previous block, so we track it with height-1
-	return sdk.ResponsePreBlock{}, k.TrackBlockHash(ctx, height-1, common.BytesToHash(ctx.HeaderHash()))
+	// the header hash is the hash of the block being executed, so it must not be visible until the next block
+	return k.TrackBlockHash(ctx, uint64(ctx.BlockHeight()), common.BytesToHash(ctx.HeaderHash()))
 }
diff --git a/x/evm/module.go b/x/evm/module.go
index b3c17f3..ed6a8fa 100644
--- a/x/evm/module.go
+++ b/x/evm/module.go
@@ -30,7 +30,7 @@ var (
 	_ module.HasName             = AppModule{}
 
 	_ appmodule.AppModule     = AppModule{}
-	_ appmodule.HasPreBlocker = AppModule{}
+	_ appmodule.HasEndBlocker = AppModule{}
 )
 
 // ----------------------------------------------------------------------------
@@ -159,8 +159,8 @@ func (am AppModule) IsOnePerModuleType() {}
 
 // ___________________________________________________________________________
 
-// PreBlock returns the pre-blocker for the evm module.
-func (am AppModule) PreBlock(ctx context.Context) (appmodule.ResponsePreBlock, error) {
+// EndBlock returns the end-blocker for the evm module.
+func (am AppModule) EndBlock(ctx context.Context) error {
 	c := sdk.UnwrapSDKContext(ctx)
-	return PreBlock(c, am.keeper)
+	return EndBlock(c, am.keeper)
 }
-- 
2.43.0


From ef628f04e9bf0b1d6306faede22a3315a0f88fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 15/38] fix: remove all block hashes older than the retained
 ones

---
 x/evm/keeper/keeper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/keeper.go b/x/evm/keeper/keeper.go
index 07e12b6..dfdd5e4 100644
--- a/x/evm/keeper/keeper.go
+++ b/x/evm/keeper/keeper.go
@@ -279,7 +279,8 @@ func (k Keeper) TrackBlockHash(ctx context.Context, blockHeight uint64, hash com
 
 	// keep all block hashes if `NumRetainBlockHashes` is 0
 	if num != 0 && blockHeight > num {
-		err := k.EVMBlockHashes.Remove(ctx, blockHeight-num)
+		// the range contains more than one block hash only after `NumRetainBlockHashes` is decreased
+		err := k.EVMBlockHashes.Clear(ctx, new(collections.Range[uint64]).EndInclusive(blockHeight-num))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ec1b713f7fe097a1b85efc7f983595f4c2764b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 16/38] fix: run native token operations on their own EVM
 instance

BALANCE, SELFBALANCE and EXTCODEHASH read the fee token by a nested call on
the interpreter of the running call, which reset its return data buffer, so
RETURNDATASIZE and RETURNDATACOPY lost the data of the last call.
---
 x/evm/keeper/context.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 5fd521e..1cb0781 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -164,7 +164,11 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 
 	evm := &vm.EVM{}
-	blockContext, err := k.buildBlockContext(ctx, evm, fee)
+
+	// native token operations run on their own instance: a nested run on the
+	// interpreter of the running call would reset its return data buffer.
+	tokenEVM := &vm.EVM{}
+	blockContext, err := k.buildBlockContext(ctx, tokenEVM, fee)
 	if err != nil {
 		return ctx, nil, err
 	}
@@ -172,7 +176,7 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	if err != nil {
 		return ctx, nil, err
 	}
-	stateDB, err := k.NewStateDB(ctx, evm, fee)
+	stateDB, err := k.NewStateDB(ctx, tokenEVM, fee)
 	if err != nil {
 		return ctx, nil, err
 	}
@@ -182,14 +186,16 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		ExtraEips: extraEIPs,
 	}
 
-	*evm = *vm.NewEVMWithPrecompiles(
-		blockContext,
-		txContext,
-		stateDB,
-		types.DefaultChainConfig(ctx),
-		vmConfig,
-		k.precompiles.toMap(stateDB.Context()),
-	)
+	for _, e := range []*vm.EVM{evm, tokenEVM} {
+		*e = *vm.NewEVMWithPrecompiles(
+			blockContext,
+			txContext,
+			stateDB,
+			types.DefaultChainConfig(ctx),
+			vmConfig,
+			k.precompiles.toMap(stateDB.Context()),
+		)
+	}
 
 	if tracer != nil {
 		// register vm context to tracer
-- 
2.43.0


From b01c34f194b65b5ba08fcec6a7a91eba976d54a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 17/38] fix: refuse signed ethereum txs wrapped with another
 fee, payer or timeout

---
 x/evm/keeper/txutils.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 81d526a..eb2d25b 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -47,6 +47,16 @@ func computeGasFeeAmount(gasFeeCap *big.Int, gas uint64, decimals uint8) *big.In
 	return new(big.Int).Add(gasFeeAmount, big.NewInt(1))
 }
 
+// isExpectedFee checks if the fees are exactly the given amount of the fee denom.
+func isExpectedFee(fees sdk.Coins, feeDenom string, amount *big.Int) bool {
+	if amount.Sign() == 0 {
+		return len(fees) == 0
+	}
+
+	return len(fees) == 1 && fees[0].Denom == feeDenom &&
+		!fees[0].Amount.IsNil() && fees[0].Amount.BigInt().Cmp(amount) == 0
+}
+
 func (u *TxUtils) ConvertEthereumTxToCosmosTx(ctx context.Context, ethTx *coretypes.Transaction) (sdk.Tx, error) {
 	params, err := u.Params.Get(ctx)
 	if err != nil {
@@ -262,7 +272,7 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	}
 
 	gasFeeCap, ok := new(big.Int).SetString(md.GasFeeCap, 10)
-	if !ok {
+	if !ok || gasFeeCap.Sign() < 0 {
 		return nil, nil, err
 	}
 
@@ -271,6 +281,16 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		return nil, nil, err
 	}
 
+	// the fields below are not part of the ethereum tx, so the signature does not cover them. Accept
+	// only the values which are derived from the signed fields, as ConvertEthereumTxToCosmosTx does;
+	// otherwise anyone could wrap a signed ethereum tx with another fee.
+	if !isExpectedFee(fees, params.FeeDenom, computeGasFeeAmount(gasFeeCap, gas, decimals)) ||
+		!bytes.Equal(authTx.FeePayer(), cosmosSender) ||
+		len(authTx.FeeGranter()) != 0 ||
+		authTx.GetTimeoutHeight() != 0 {
+		return nil, nil, nil
+	}
+
 	var to *common.Address
 	var input []byte
 	var value *big.Int
@@ -319,6 +339,11 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	var txData coretypes.TxData
 	switch md.Type {
 	case coretypes.LegacyTxType:
+		// legacy tx has no access list
+		if len(accessList) != 0 {
+			return nil, nil, nil
+		}
+
 		txData = &coretypes.LegacyTx{
 			Nonce:    sig.Sequence,
 			Gas:      gas,
-- 
2.43.0


From 9d8691cf1b2a9a15273231ae5e71e6f48e5cbba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 18/38] fix: refuse ethereum signatures on messages an ethereum
 tx cannot carry

---
 x/evm/keeper/txutils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index eb2d25b..fecdf7e 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -328,8 +328,9 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		// Same as above (MsgCall)
 		value = types.ToEthersUint(decimals, createMsg.Value.BigInt())
 		accessList = types.ConvertCosmosAccessListToEth(createMsg.AccessList)
-	case "/minievm.evm.v1.MsgCreate2":
-		// create2 is not supported
+	default:
+		// an ethereum tx can only carry a call or a creation; create2 is not supported. The signature
+		// covers none of the fields of other messages.
 		return nil, nil, nil
 	}
 
-- 
2.43.0


From 2e580ed9e8e272d702f9e02a71ecc416c8061b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 19/38] fix: index values bigger than a cache shard

---
 indexer/store.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/indexer/store.go b/indexer/store.go
index 45005d9..06b4b42 100644
--- a/indexer/store.go
+++ b/indexer/store.go
@@ -78,10 +78,9 @@ func (c CacheStore) Set(key, value []byte) error {
 	storetypes.AssertValidKey(key)
 	storetypes.AssertValidValue(value)
 
-	err := c.cache.Set(string(key), value)
-	if err != nil {
-		return errors.Wrap(err, "failed to set cache")
-	}
+	// a value too big for the cache is kept in the store only, the cache drops
+	// the old value of the key in this case
+	_ = c.cache.Set(string(key), value)
 	c.store.Set(key, value)
 
 	return nil
-- 
2.43.0


From bc6c86eaaaf64685f1212c1e23650332fd9a06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 20/38] fix: flush the index of a block before the block is
 committed

---
 indexer/abci.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index d1693d5..36bf235 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -22,7 +22,6 @@ import (
 )
 
 func (e *EVMIndexerImpl) ListenCommit(ctx context.Context, res abci.ResponseCommit, changeSet []*storetypes.StoreKVPair) error {
-	e.store.Write()
 	return nil
 }
 
@@ -30,6 +29,11 @@ func (e *EVMIndexerImpl) ListenCommit(ctx context.Context, res abci.ResponseComm
 func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.RequestFinalizeBlock, res abci.ResponseFinalizeBlock) error {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	// flush the index before the block is committed. The block is indexed again
+	// if the process ends before the commit, but would never be if it ended between
+	// the commit and a later flush.
+	defer e.store.Write()
+
 	// load base fee from evm keeper
 	baseFee, err := e.evmKeeper.BaseFee(sdkCtx)
 	if err != nil {
-- 
2.43.0


From 167a625ea5fff3ab2c1985263d5e774a27a28ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 21/38] fix: report the last indexed block as the latest one

---
 jsonrpc/backend/block.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/jsonrpc/backend/block.go b/jsonrpc/backend/block.go
index c792df9..54ea40b 100644
--- a/jsonrpc/backend/block.go
+++ b/jsonrpc/backend/block.go
@@ -13,12 +13,9 @@ import (
 )
 
 func (b *JSONRPCBackend) BlockNumber() (hexutil.Uint64, error) {
-	res, err := b.clientCtx.Client.Status(b.ctx)
-	if err != nil {
-		return 0, err
-	}
-
-	return hexutil.Uint64(res.SyncInfo.LatestBlockHeight), nil
+	// the block store of the consensus engine is ahead of the app while a block is
+	// executed, and nothing is indexed for that block yet.
+	return hexutil.Uint64(b.app.LastBlockHeight()), nil
 }
 
 func (b *JSONRPCBackend) resolveBlockNrOrHash(blockNrOrHash rpc.BlockNumberOrHash) (uint64, error) {
-- 
2.43.0


From 0319c93b58d5559d5cf214c011be032605e67f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 22/38] fix: look up transactions by index in blocks named by
 tag

---
 jsonrpc/backend/tx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index e7d4bcc..14de112 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -253,7 +253,11 @@ func (b *JSONRPCBackend) GetTransactionByBlockNumberAndIndex(blockNum rpc.BlockN
 		return nil, err
 	}
 
-	number := uint64(blockNum.Int64())
+	number, err := b.resolveBlockNr(blockNum)
+	if err != nil {
+		return nil, err
+	}
+
 	rpcTx, err := b.app.EVMIndexer().TxByBlockAndIndex(queryCtx, number, uint64(idx))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return nil, nil
-- 
2.43.0


From 8ab7b1e3cb7710179958fae04c9c63288fd256b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 23/38] fix: list balances of accounts with longer addresses
 once

---
 x/bank/keeper/view.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/bank/keeper/view.go b/x/bank/keeper/view.go
index c7fdd6f..60f9bdb 100644
--- a/x/bank/keeper/view.go
+++ b/x/bank/keeper/view.go
@@ -12,6 +12,8 @@ import (
 	cosmoskeeper "github.com/cosmos/cosmos-sdk/x/bank/keeper"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
 
+	"github.com/ethereum/go-ethereum/common"
+
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -134,6 +136,13 @@ func (k EVMViewKeeper) IterateAccountBalances(ctx context.Context, addr sdk.AccA
 func (k EVMViewKeeper) IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) bool) {
 	k.ak.IterateAccounts(ctx, func(account sdk.AccountI) bool {
 		addr := account.GetAddress()
+
+		// the balances of an account with a longer address are those of its shorthand address,
+		// which has an account of its own.
+		if len(addr) != common.AddressLength {
+			return false
+		}
+
 		err := k.ek.IterateAccountBalances(ctx, addr, func(coin sdk.Coin) (bool, error) {
 			return cb(addr, coin), nil
 		})
-- 
2.43.0


From ae3ef953bff6bf042d9015884d1b676b7cc64aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 24/38] fix: keep acknowledged queued txs until the mempool
 took or refused them

---
 jsonrpc/backend/tx.go | 73 +++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index 14de112..798db45 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -65,7 +65,6 @@ func (b *JSONRPCBackend) SendTx(tx *coretypes.Transaction) error {
 
 	sig := sigs[0]
 	txSeq := sig.Sequence
-	accSeq := uint64(0)
 	sender := sdk.AccAddress(sig.PubKey.Address().Bytes())
 
 	senderHex := hexutil.Encode(sender.Bytes())
@@ -74,41 +73,69 @@ func (b *JSONRPCBackend) SendTx(tx *coretypes.Transaction) error {
 	b.acquireAccMut(senderHex)
 	defer b.releaseAccMut(senderHex)
 
-	checkCtx := b.app.GetContextForCheckTx(nil)
-	if acc := b.app.AccountKeeper.GetAccount(checkCtx, sender); acc != nil {
-		accSeq = acc.GetSequence()
-	}
-
+	accSeq := b.checkSequence(sender)
 	if accSeq > txSeq {
 		return fmt.Errorf("%w: next nonce %v, tx nonce %v", core.ErrNonceTooLow, accSeq, txSeq)
 	}
 
 	b.logger.Debug("enqueue tx", "sender", senderHex, "txSeq", txSeq, "accSeq", accSeq)
-	cacheKey := fmt.Sprintf("%s-%d", senderHex, txSeq)
+	cacheKey := queuedTxKey(senderHex, txSeq)
+	queued := b.queuedTxs.Contains(cacheKey)
 	_ = b.queuedTxs.Add(cacheKey, txBytes)
 
 	// check if there are queued txs which can be sent
-	for {
-		cacheKey := fmt.Sprintf("%s-%d", senderHex, accSeq)
-		if txBytes, ok := b.queuedTxs.Get(cacheKey); ok {
-			_ = b.queuedTxs.Remove(cacheKey)
+	err = b.flushQueuedTxs(senderHex, accSeq, txSeq)
+	if err != nil && !queued {
+		// the tx is refused, so nothing must be left of it
+		_ = b.queuedTxs.Remove(cacheKey)
+	}
+
+	return err
+}
+
+// checkSequence returns the next sequence of the account in the check state.
+func (b *JSONRPCBackend) checkSequence(sender sdk.AccAddress) uint64 {
+	if acc := b.app.AccountKeeper.GetAccount(b.app.GetContextForCheckTx(nil), sender); acc != nil {
+		return acc.GetSequence()
+	}
+
+	return 0
+}
+
+func queuedTxKey(senderHex string, seq uint64) string {
+	return fmt.Sprintf("%s-%d", senderHex, seq)
+}
+
+// flushQueuedTxs broadcasts the queued txs of the sender in nonce order, starting with accSeq. The
+// returned error is about the tx with the nonce txSeq only; other queued txs, which were already
+// acknowledged, stay in the queue when the mempool cannot take them now. The caller must hold the
+// mutex of the sender.
+func (b *JSONRPCBackend) flushQueuedTxs(senderHex string, accSeq, txSeq uint64) error {
+	for ; ; accSeq++ {
+		cacheKey := queuedTxKey(senderHex, accSeq)
+		txBytes, ok := b.queuedTxs.Get(cacheKey)
+		if !ok {
+			return nil
+		}
 
-			b.logger.Debug("broadcast queued tx", "sender", senderHex, "txSeq", accSeq)
-			res, err := b.clientCtx.BroadcastTxSync(txBytes)
-			if err != nil {
+		b.logger.Debug("broadcast queued tx", "sender", senderHex, "txSeq", accSeq)
+		res, err := b.clientCtx.BroadcastTxSync(txBytes)
+		retry := err != nil || (res.Codespace == sdkerrors.ErrMempoolIsFull.Codespace() && res.Code == sdkerrors.ErrMempoolIsFull.ABCICode())
+		if err == nil && res.Code != 0 {
+			err = sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
+		}
+		if !retry {
+			_ = b.queuedTxs.Remove(cacheKey)
+		}
+		if err != nil {
+			b.logger.Debug("failed to broadcast queued tx", "sender", senderHex, "txSeq", accSeq, "err", err)
+			if accSeq == txSeq {
 				return err
 			}
-			if res.Code != 0 {
-				return sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
-			}
-		} else {
-			break
-		}
 
-		accSeq++
+			return nil
+		}
 	}
-
-	return nil
 }
 
 func (b *JSONRPCBackend) getQueryCtx() (context.Context, error) {
-- 
2.43.0


From 03a8c0a74aa1b44476a086550068acbfa4578c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 25/38] fix: broadcast queued txs whose nonce gap was closed
 elsewhere

---
 jsonrpc/backend/backend.go | 10 ++++++++--
 jsonrpc/backend/tx.go      | 31 +++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/jsonrpc/backend/backend.go b/jsonrpc/backend/backend.go
index 5d3cc74..881cd81 100644
--- a/jsonrpc/backend/backend.go
+++ b/jsonrpc/backend/backend.go
@@ -15,6 +15,9 @@ import (
 	"github.com/initia-labs/minievm/jsonrpc/config"
 )
 
+// queuedTxsFlushInterval is the interval to check whether queued txs can be sent.
+const queuedTxsFlushInterval = time.Second
+
 type JSONRPCBackend struct {
 	app    *app.MinitiaApp
 	logger log.Logger
@@ -50,7 +53,7 @@ func NewJSONRPCBackend(
 	}
 
 	ctx := context.Background()
-	return &JSONRPCBackend{
+	b := &JSONRPCBackend{
 		app:    app,
 		logger: logger,
 
@@ -63,7 +66,10 @@ func NewJSONRPCBackend(
 		svrCtx:    svrCtx,
 		clientCtx: clientCtx,
 		cfg:       cfg,
-	}, nil
+	}
+	go b.flushQueuedTxsLoop()
+
+	return b, nil
 }
 
 type AccMut struct {
diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index 798db45..79efd98 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -4,6 +4,9 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"math"
+	"strings"
+	"time"
 
 	"cosmossdk.io/collections"
 	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
@@ -138,6 +141,34 @@ func (b *JSONRPCBackend) flushQueuedTxs(senderHex string, accSeq, txSeq uint64)
 	}
 }
 
+// flushQueuedTxsLoop periodically broadcasts the queued txs whose nonce gap was closed by other
+// means than a new tx of the sender at this backend.
+func (b *JSONRPCBackend) flushQueuedTxsLoop() {
+	ticker := time.NewTicker(queuedTxsFlushInterval)
+	defer ticker.Stop()
+
+	for {
+		select {
+		case <-b.ctx.Done():
+			return
+		case <-ticker.C:
+		}
+
+		senders := make(map[string]struct{})
+		for _, cacheKey := range b.queuedTxs.Keys() {
+			senderHex, _, _ := strings.Cut(cacheKey, "-")
+			senders[senderHex] = struct{}{}
+		}
+
+		for senderHex := range senders {
+			b.acquireAccMut(senderHex)
+			accSeq := b.checkSequence(sdk.AccAddress(common.HexToAddress(senderHex).Bytes()))
+			_ = b.flushQueuedTxs(senderHex, accSeq, math.MaxUint64)
+			b.releaseAccMut(senderHex)
+		}
+	}
+}
+
 func (b *JSONRPCBackend) getQueryCtx() (context.Context, error) {
 	return b.app.CreateQueryContext(0, false)
 }
-- 
2.43.0


From 2e9ee84e7103e0197d3ddc360e12537f791438fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 26/38] fix: refuse ethereum txs whose fee or value overflows

---
 x/evm/keeper/txutils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index fecdf7e..7d4fa32 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -81,6 +81,9 @@ func (u *TxUtils) ConvertEthereumTxToCosmosTx(ctx context.Context, ethTx *corety
 	// convert gas fee unit from wei to cosmos fee unit
 	gasLimit := ethTx.Gas()
 	gasFeeAmount := computeGasFeeAmount(gasFeeCap, gasLimit, decimals)
+	if gasFeeAmount.BitLen() > math.MaxBitLen {
+		return nil, sdkerrors.ErrInsufficientFee.Wrap("gas fee amount overflows")
+	}
 	feeAmount := sdk.NewCoins(sdk.NewCoin(params.FeeDenom, math.NewIntFromBigInt(gasFeeAmount)))
 
 	// convert value unit from wei to cosmos fee unit
@@ -90,6 +93,9 @@ func (u *TxUtils) ConvertEthereumTxToCosmosTx(ctx context.Context, ethTx *corety
 	if types.ToEthersUint(decimals, value).Cmp(ethTx.Value()) != 0 {
 		return nil, types.ErrInvalidValue.Wrap("failed to convert value to token unit without dropping precision")
 	}
+	if value.BitLen() > math.MaxBitLen {
+		return nil, types.ErrInvalidValue.Wrap("value overflows")
+	}
 
 	// signer
 	chainID := sdk.UnwrapSDKContext(ctx).ChainID()
-- 
2.43.0


From c3ccb97b6745e965e123f7f6ba9f7817c0dc8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 27/38] fix: drop queued txs whose nonce is used

---
 jsonrpc/backend/tx.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index 79efd98..d693b10 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"strconv"
 	"strings"
 	"time"
 
@@ -141,8 +142,21 @@ func (b *JSONRPCBackend) flushQueuedTxs(senderHex string, accSeq, txSeq uint64)
 	}
 }
 
+// dropUsedQueuedTx removes a queued tx whose nonce was used by a committed tx.
+func (b *JSONRPCBackend) dropUsedQueuedTx(senderHex string, seq uint64) {
+	queryCtx, err := b.getQueryCtx()
+	if err != nil {
+		return
+	}
+
+	acc := b.app.AccountKeeper.GetAccount(queryCtx, common.HexToAddress(senderHex).Bytes())
+	if acc != nil && seq < acc.GetSequence() {
+		_ = b.queuedTxs.Remove(queuedTxKey(senderHex, seq))
+	}
+}
+
 // flushQueuedTxsLoop periodically broadcasts the queued txs whose nonce gap was closed by other
-// means than a new tx of the sender at this backend.
+// means than a new tx of the sender at this backend, and drops those whose nonce was used meanwhile.
 func (b *JSONRPCBackend) flushQueuedTxsLoop() {
 	ticker := time.NewTicker(queuedTxsFlushInterval)
 	defer ticker.Stop()
@@ -156,8 +170,12 @@ func (b *JSONRPCBackend) flushQueuedTxsLoop() {
 
 		senders := make(map[string]struct{})
 		for _, cacheKey := range b.queuedTxs.Keys() {
-			senderHex, _, _ := strings.Cut(cacheKey, "-")
+			senderHex, seqStr, _ := strings.Cut(cacheKey, "-")
 			senders[senderHex] = struct{}{}
+
+			if seq, err := strconv.ParseUint(seqStr, 10, 64); err == nil {
+				b.dropUsedQueuedTx(senderHex, seq)
+			}
 		}
 
 		for senderHex := range senders {
-- 
2.43.0


From 9db2f401225e8aac24d83bc2193c454e0a700fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:40 +0000
Subject: [PATCH 28/38] fix: emit a pending transaction only when the mempool
 took it

Pending transaction subscribers were told of transactions whose insertion failed.
---
 indexer/mempool.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/indexer/mempool.go b/indexer/mempool.go
index 87a4848..c74401a 100644
--- a/indexer/mempool.go
+++ b/indexer/mempool.go
@@ -30,6 +30,7 @@ func (m *MempoolWrapper) CountTx() int {
 
 // Insert implements mempool.Mempool.
 func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
+	var rpcTx *rpctypes.RPCTransaction
 	if len(m.indexer.pendingChans) > 0 {
 		txUtils := evmkeeper.NewTxUtils(m.indexer.evmKeeper)
 		ethTx, _, err := txUtils.ConvertCosmosTxToEthereumTx(ctx, tx)
@@ -41,16 +42,22 @@ func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
 		if ethTx != nil {
 			sdkCtx := sdk.UnwrapSDKContext(ctx)
 			chainId := evmtypes.ConvertCosmosChainIDToEthereumChainID(sdkCtx.ChainID())
-			rpcTx := rpctypes.NewRPCTransaction(ethTx, common.Hash{}, 0, 0, chainId)
+			rpcTx = rpctypes.NewRPCTransaction(ethTx, common.Hash{}, 0, 0, chainId)
+		}
+	}
+
+	if err := m.mempool.Insert(ctx, tx); err != nil {
+		return err
+	}
 
-			// emit the transaction to all pending channels
-			for _, pendingChan := range m.indexer.pendingChans {
-				pendingChan <- rpcTx
-			}
+	// emit the transaction to all pending channels, only if the mempool took it
+	if rpcTx != nil {
+		for _, pendingChan := range m.indexer.pendingChans {
+			pendingChan <- rpcTx
 		}
 	}
 
-	return m.mempool.Insert(ctx, tx)
+	return nil
 }
 
 // Remove implements mempool.Mempool.
-- 
2.43.0


From 94ff80b4f4a9fbbc974b36434ab95b9285080027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:40 +0000
Subject: [PATCH 29/38] fix: a subscriber that does not read no longer holds up
 blocks, CheckTx and other clients

The event loop handed events to each subscription and waited for it, while the
subscription waited in Notify until the write timed out. Each subscription now
queues its events and sends them from a goroutine of its own.
---
 .../namespaces/eth/filters/subscriptions.go   | 91 +++++++++++--------
 1 file changed, 53 insertions(+), 38 deletions(-)

diff --git a/jsonrpc/namespaces/eth/filters/subscriptions.go b/jsonrpc/namespaces/eth/filters/subscriptions.go
index 39ff28c..e255a09 100644
--- a/jsonrpc/namespaces/eth/filters/subscriptions.go
+++ b/jsonrpc/namespaces/eth/filters/subscriptions.go
@@ -12,6 +12,9 @@ import (
 	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
 )
 
+// maxQueuedEvents is the number of events that can wait for the client of a subscription.
+const maxQueuedEvents = 20000
+
 type subscription struct {
 	id     rpc.ID
 	ty     ethfilters.Type
@@ -57,18 +60,7 @@ func (api *FilterAPI) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
 
 	api.installSubscription(s)
 
-	go func() {
-		defer api.uninstallSubscription(s)
-
-		for {
-			select {
-			case h := <-headerChan:
-				_ = notifier.Notify(rpcSub.ID, h)
-			case <-rpcSub.Err():
-				return
-			}
-		}
-	}()
+	go api.deliver(s, notifier, rpcSub)
 
 	return rpcSub, nil
 }
@@ -123,21 +115,7 @@ func (api *FilterAPI) Logs(ctx context.Context, crit ethfilters.FilterCriteria)
 
 	api.installSubscription(s)
 
-	go func() {
-		defer api.uninstallSubscription(s)
-		for {
-			select {
-			case logs := <-logsChan:
-				logs = filterLogs(logs, s.crit.FromBlock, s.crit.ToBlock, s.crit.Addresses, s.crit.Topics)
-				for _, log := range logs {
-					log := log
-					_ = notifier.Notify(rpcSub.ID, &log)
-				}
-			case <-rpcSub.Err(): // client send an unsubscribe request
-				return
-			}
-		}
-	}()
+	go api.deliver(s, notifier, rpcSub)
 
 	return rpcSub, nil
 }
@@ -174,22 +152,59 @@ func (api *FilterAPI) NewPendingTransactions(ctx context.Context, fullTx *bool)
 
 	api.installSubscription(s)
 
+	go api.deliver(s, notifier, rpcSub)
+
+	return rpcSub, nil
+}
+
+// deliver sends the events of a subscription to its client, until the client
+// unsubscribes. The events are queued for the client, because the event loop
+// waits for the subscription to take an event; and the block and the mempool
+// events, hence CheckTx, wait for the event loop. A client that does not read
+// must not hold up all of them.
+func (api *FilterAPI) deliver(s *subscription, notifier *rpc.Notifier, rpcSub *rpc.Subscription) {
+	defer api.uninstallSubscription(s)
+
+	out := make(chan interface{})
+	defer close(out)
 	go func() {
-		defer api.uninstallSubscription(s)
+		for event := range out {
+			_ = notifier.Notify(rpcSub.ID, event)
+		}
+	}()
 
-		for {
-			select {
-			case rpcTx := <-txChan:
-				_ = notifier.Notify(rpcSub.ID, rpcTx)
-			case hash := <-hashChan:
-				_ = notifier.Notify(rpcSub.ID, hash)
-			case <-rpcSub.Err():
-				return
+	var queue []interface{}
+	for {
+		var (
+			next interface{}
+			send chan<- interface{} // nil as long as there is nothing to send
+		)
+		if len(queue) > 0 {
+			next, send = queue[0], out
+		}
+
+		select {
+		case h := <-s.headerChan:
+			queue = append(queue, h)
+		case logs := <-s.logsChan:
+			for _, log := range filterLogs(logs, s.crit.FromBlock, s.crit.ToBlock, s.crit.Addresses, s.crit.Topics) {
+				queue = append(queue, log)
 			}
+		case rpcTx := <-s.txChan:
+			queue = append(queue, rpcTx)
+		case hash := <-s.hashChan:
+			queue = append(queue, hash)
+		case send <- next:
+			queue = queue[1:]
+		case <-rpcSub.Err(): // client send an unsubscribe request
+			return
 		}
-	}()
 
-	return rpcSub, nil
+		if len(queue) > maxQueuedEvents {
+			api.logger.Error("subscription is dropped, its client does not read", "id", rpcSub.ID)
+			return
+		}
+	}
 }
 
 func (api *FilterAPI) installSubscription(s *subscription) {
-- 
2.43.0


From 1a310996a1f320d31bc1bad5a00f037d81060faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 30/38] fix: keep the precision of callback ids in IBC memos

---
 app/ibc-hooks/util.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/app/ibc-hooks/util.go b/app/ibc-hooks/util.go
index c589804..8091c33 100644
--- a/app/ibc-hooks/util.go
+++ b/app/ibc-hooks/util.go
@@ -60,16 +60,8 @@ func validateAndParseMemo(memo string) (
 		return
 	}
 
-	evmHookRaw := metadata[evmHookMemoKey]
-
 	// parse evm raw bytes to execute message
-	bz, err := json.Marshal(evmHookRaw)
-	if err != nil {
-		err = errors.Wrap(channeltypes.ErrInvalidPacket, err.Error())
-		return
-	}
-
-	err = json.Unmarshal(bz, &hookData)
+	err = json.Unmarshal(metadata[evmHookMemoKey], &hookData)
 	if err != nil {
 		err = errors.Wrap(channeltypes.ErrInvalidPacket, err.Error())
 		return
@@ -87,8 +79,11 @@ func validateReceiver(msg *evmtypes.MsgCall, receiver string) error {
 }
 
 // jsonStringHasKey parses the memo as a json object and checks if it contains the key.
-func jsonStringHasKey(memo, key string) (found bool, jsonObject map[string]interface{}) {
-	jsonObject = make(map[string]interface{})
+//
+// The values are kept raw, because decoding them into interfaces loses the precision of large integers
+// (e.g. callback ids).
+func jsonStringHasKey(memo, key string) (found bool, jsonObject map[string]json.RawMessage) {
+	jsonObject = make(map[string]json.RawMessage)
 
 	// If there is no memo, the packet was either sent with an earlier version of IBC, or the memo was
 	// intentionally left blank. Nothing to do here. Ignore the packet and pass it down the stack.
-- 
2.43.0


From 391beed5f9fe676a84ab73fe265366fc1d0dd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 31/38] fix: approve the right contract in IBC hooks when it is
 given as a bech32 address

---
 app/ibc-hooks/receive.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index e4a9fd8..7b6160e 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -64,7 +64,11 @@ func (h EVMHooks) onRecvIcs20Packet(
 
 	msg.Sender = intermediateSender
 	localDenom := LocalDenom(packet, data.Denom)
-	_, err = h.approveERC20(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localDenom, data.Amount)
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
+	_, err = h.approveERC20(ctx, intermediateSender, contractAddr, localDenom, data.Amount)
 	if err != nil {
 		return newEmitErrorAcknowledgement(err)
 	}
@@ -149,8 +153,12 @@ func (h EVMHooks) onRecvIcs721Packet(
 	// approve the transfer of the NFT to the contract
 	msg.Sender = intermediateSender
 	localClassId := LocalClassId(packet, data.ClassId)
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
 	for _, tokenId := range data.TokenIds {
-		_, err = h.approveERC721(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localClassId, tokenId)
+		_, err = h.approveERC721(ctx, intermediateSender, contractAddr, localClassId, tokenId)
 		if err != nil {
 			return newEmitErrorAcknowledgement(err)
 		}
-- 
2.43.0


From c9183351fd5f378585a942680409ffb7b832cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 32/38] fix: run IBC hooks for native ERC20 and ERC721 tokens
 that return

---
 app/ibc-hooks/receive.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index 7b6160e..766c93b 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -92,7 +92,7 @@ func (h EVMHooks) approveERC20(ctx sdk.Context, intermediateSender string, contr
 		return nil, err
 	}
 
-	erc20Addr, err := h.evmKeeper.GetContractAddrByDenom(ctx, denom)
+	erc20Addr, err := evmtypes.DenomToContractAddr(ctx, h.evmKeeper, denom)
 	if err != nil {
 		return nil, err
 	}
@@ -188,7 +188,7 @@ func (h EVMHooks) approveERC721(ctx sdk.Context, intermediateSender string, cont
 		return nil, err
 	}
 
-	erc721Addr, err := h.evmKeeper.GetContractAddrByClassId(ctx, classId)
+	erc721Addr, err := evmtypes.ContractAddressFromClassId(ctx, h.evmKeeper, classId)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 052bacd458939f77e4209d53ee68dc712f254ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:40 +0000
Subject: [PATCH 33/38] fix: block the transfers to the long form of a blocked
 address

---
 x/bank/keeper/send.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/bank/keeper/send.go b/x/bank/keeper/send.go
index edb8944..4744249 100644
--- a/x/bank/keeper/send.go
+++ b/x/bank/keeper/send.go
@@ -13,6 +13,8 @@ import (
 	cosmosbank "github.com/cosmos/cosmos-sdk/x/bank/keeper"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
 
+	"github.com/ethereum/go-ethereum/common"
+
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -195,7 +197,17 @@ func (k EVMSendKeeper) IsSendEnabledCoin(ctx context.Context, coin sdk.Coin) boo
 // BlockedAddr checks if a given address is restricted from
 // receiving funds.
 func (k EVMSendKeeper) BlockedAddr(addr sdk.AccAddress) bool {
-	return k.blockedAddrs[addr.String()]
+	if k.blockedAddrs[addr.String()] {
+		return true
+	}
+
+	// balances are kept under the 20 bytes evm address, so an address of any
+	// other length shares the balance of its evm address.
+	if len(addr) == common.AddressLength {
+		return false
+	}
+
+	return k.blockedAddrs[sdk.AccAddress(common.BytesToAddress(addr).Bytes()).String()]
 }
 
 // GetBlockedAddresses returns the full list of addresses restricted from receiving funds.
-- 
2.43.0


From aba6f155c804e9db3d5bf11d6ada0e20fd3faddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:33 +0000
Subject: [PATCH 34/38] fix: keep a self destruct from paying a blocked address

---
 x/evm/keeper/context.go |  2 +-
 x/evm/state/statedb.go  | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 1cb0781..4ec77cf 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -31,7 +31,7 @@ func (k Keeper) NewStateDB(ctx context.Context, evm callableEVM, fee types.Fee)
 		k.accountKeeper, k.VMStore, k.TransientVMStore, k.TransientCreated,
 		k.TransientSelfDestruct, k.TransientLogs, k.TransientLogSize,
 		k.TransientAccessList, k.TransientRefund, k.execIndex,
-		evm, k.ERC20Keeper().GetERC20ABI(), fee.Contract(),
+		evm, k.ERC20Keeper().GetERC20ABI(), fee.Contract(), k.bankKeeper.BlockedAddr,
 	)
 }
 
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 7c95379..0c0f9b3 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -11,6 +11,7 @@ import (
 	"cosmossdk.io/collections"
 	"cosmossdk.io/log"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
 	"github.com/ethereum/go-ethereum/accounts/abi"
 	"github.com/ethereum/go-ethereum/common"
@@ -51,6 +52,7 @@ type StateDB struct {
 	evm             callableEVM
 	erc20ABI        *abi.ABI
 	feeContractAddr common.Address // feeDenom contract address
+	isBlockedAddr   func(sdk.AccAddress) bool
 
 	// Snapshot stack
 	snaps []*Snapshot
@@ -78,6 +80,8 @@ func NewStateDB(
 	evm callableEVM,
 	erc20ABI *abi.ABI,
 	feeContractAddr common.Address,
+	// restricted recipients
+	isBlockedAddr func(sdk.AccAddress) bool,
 ) (*StateDB, error) {
 	eidx := atomic.AddUint64(execIndex, 1)
 
@@ -113,17 +117,26 @@ func NewStateDB(
 		evm:             evm,
 		erc20ABI:        erc20ABI,
 		feeContractAddr: feeContractAddr,
+		isBlockedAddr:   isBlockedAddr,
 	}
 
 	return s, nil
 }
 
 // AddBalance mint coins to the recipient
-func (s *StateDB) AddBalance(addr common.Address, amount *uint256.Int, _ tracing.BalanceChangeReason) {
+func (s *StateDB) AddBalance(addr common.Address, amount *uint256.Int, reason tracing.BalanceChangeReason) {
 	if amount.IsZero() {
 		return
 	}
 
+	// sudoMint does not check the recipient, so the beneficiary of a self
+	// destruct has to be checked here as the recipient of a transfer is.
+	if reason == tracing.BalanceIncreaseSelfdestruct && s.isBlockedAddr(addr.Bytes()) {
+		err := sdkerrors.ErrUnauthorized.Wrapf("%s is not allowed to receive funds", addr)
+		s.logger.Warn("failed to self destruct", "error", err)
+		panic(err)
+	}
+
 	inputBz, err := s.erc20ABI.Pack("sudoMint", addr, amount.ToBig())
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 6ed468564a50f315e072c9b58b4cac6788df709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:12 +0000
Subject: [PATCH 35/38] fix: do not create a base account on a module address

---
 x/evm/keeper/erc20_stores.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/erc20_stores.go b/x/evm/keeper/erc20_stores.go
index 8eab512..3a7da1a 100644
--- a/x/evm/keeper/erc20_stores.go
+++ b/x/evm/keeper/erc20_stores.go
@@ -37,8 +37,9 @@ func (k ERC20StoresKeeper) RegisterStore(ctx context.Context, addr sdk.AccAddres
 		return nil
 	}
 
-	// create account if not exists
-	if !k.accountKeeper.HasAccount(ctx, addr) {
+	// create account if not exists, except for the blocked addresses; these are
+	// the module addresses and their module accounts are created on first use.
+	if !k.accountKeeper.HasAccount(ctx, addr) && !k.bankKeeper.BlockedAddr(addr) {
 		k.accountKeeper.SetAccount(ctx, k.accountKeeper.NewAccountWithAddress(ctx, addr))
 	}
 
-- 
2.43.0


From 78bc90f9fe0c12f170054c8734db2eee96212e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:16 +0000
Subject: [PATCH 36/38] fix: export only the modules the module manager has

---
 app/app.go     |  2 +-
 app/modules.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/app/app.go b/app/app.go
index 17aec1e..85adc98 100644
--- a/app/app.go
+++ b/app/app.go
@@ -235,7 +235,7 @@ func NewMinitiaApp(
 	app.ModuleManager.SetOrderEndBlockers(orderEndBlockers()...)
 	genesisModuleOrder := orderInitBlockers()
 	app.ModuleManager.SetOrderInitGenesis(genesisModuleOrder...)
-	app.ModuleManager.SetOrderExportGenesis(genesisModuleOrder...)
+	app.ModuleManager.SetOrderExportGenesis(orderExportBlockers(app.ModuleManager)...)
 
 	// register invariants for crisis module
 	app.ModuleManager.RegisterInvariants(app.CrisisKeeper)
diff --git a/app/modules.go b/app/modules.go
index f542d87..3e7fd42 100644
--- a/app/modules.go
+++ b/app/modules.go
@@ -196,3 +196,16 @@ func orderInitBlockers() []string {
 		packetforwardtypes.ModuleName, forwardingtypes.ModuleName, ibchookstypes.ModuleName,
 	}
 }
+
+// orderExportBlockers returns the modules of orderInitBlockers that the module manager has;
+// the export refuses modules it does not have, like genutil which is a basic module only.
+func orderExportBlockers(mm *module.Manager) []string {
+	order := []string{}
+	for _, name := range orderInitBlockers() {
+		if _, ok := mm.Modules[name]; ok {
+			order = append(order, name)
+		}
+	}
+
+	return order
+}
-- 
2.43.0


From 8ca7ce03439482c7ec3bca567d0f8b1d96ef5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:16 +0000
Subject: [PATCH 37/38] fix: mint only the genesis balances the evm state lacks

---
 x/bank/keeper/genesis.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/x/bank/keeper/genesis.go b/x/bank/keeper/genesis.go
index 46694df..26408fa 100644
--- a/x/bank/keeper/genesis.go
+++ b/x/bank/keeper/genesis.go
@@ -28,7 +28,16 @@ func (k BaseKeeper) InitGenesis(ctx context.Context, genState *types.GenesisStat
 			panic(err)
 		}
 
-		if err := k.initBalances(ctx, addr, balance.Coins); err != nil {
+		// the balances are a part of the evm state, so an exported genesis has
+		// them in there already; mint only what is missing.
+		missing := sdk.Coins{}
+		for _, coin := range balance.Coins {
+			if held := k.GetBalance(ctx, addr, coin.Denom); held.Amount.LT(coin.Amount) {
+				missing = missing.Add(coin.Sub(held))
+			}
+		}
+
+		if err := k.initBalances(ctx, addr, missing); err != nil {
 			panic(fmt.Errorf("error on setting balances %w", err))
 		}
 
-- 
2.43.0


From d9e9a054bb7dbd5fab91195f0d7313b104c6cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:16 +0000
Subject: [PATCH 38/38] fix: leave the zero coins out of the exported supply

---
 x/bank/keeper/genesis.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/bank/keeper/genesis.go b/x/bank/keeper/genesis.go
index 26408fa..1d69f81 100644
--- a/x/bank/keeper/genesis.go
+++ b/x/bank/keeper/genesis.go
@@ -63,7 +63,8 @@ func (k BaseKeeper) ExportGenesis(ctx context.Context) *types.GenesisState {
 	return types.NewGenesisState(
 		k.GetParams(ctx),
 		k.GetAccountsBalances(ctx),
-		totalSupply,
+		// without the zero coins, which no balance adds up to
+		sdk.NewCoins(totalSupply...),
 		k.GetAllDenomMetaData(ctx),
 		k.GetAllSendEnabledEntries(ctx),
 	)
-- 
2.43.0

