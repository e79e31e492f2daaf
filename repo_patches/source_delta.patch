From 3de2da8579c3517eb0ac5d3749a8cb1d26d0e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 01/44] fix: create the hash index of the memory storage

---
 cryptonote/storage_memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index d0cdd84..115212d 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -34,6 +34,7 @@ func NewMemoryStorage() Storage {
 	return &memoryStorage{
 		blockIndex:                            map[uint32]*Block{},
 		blockInfosIndex:                       map[uint32]*blockInfo{},
+		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
-- 
2.43.0


From 24de697c850a2af5a3a93449fd6f20220e79df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 02/44] fix: record the genesis hash and timestamp when
 initialising the memory storage

---
 cryptonote/storage_memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 115212d..2a57960 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -44,6 +44,8 @@ func NewMemoryStorage() Storage {
 func (s *memoryStorage) Init(genesisBlock *Block) error {
 	info := blockInfo{
 		Index:                0,
+		Hash:                 *genesisBlock.Hash(),
+		Timestamp:            genesisBlock.Timestamp,
 		CumulativeDifficulty: 1,
 		Size:                 genesisBlock.BaseTransaction.Size(),
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
-- 
2.43.0


From 5f090310e816c42b295664a47917c4b199d79a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 03/44] fix: release the read lock in memory storage TopIndex

---
 cryptonote/storage_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 2a57960..289495a 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -58,7 +58,7 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 func (s *memoryStorage) TopIndex() (uint32, error) {
 	s.RLock()
 	index := s.topBlock.Index()
-	s.Unlock()
+	s.RUnlock()
 	return index, nil
 }
 
-- 
2.43.0


From a29f205b268581f6a6b9984bc7756ad615574412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 04/44] fix: allow initialising over a populated memory storage
 of the same network

---
 cryptonote/storage_memory.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 289495a..85a10ba 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -42,6 +42,20 @@ func NewMemoryStorage() Storage {
 }
 
 func (s *memoryStorage) Init(genesisBlock *Block) error {
+	hash, err := s.HashAtIndex(0)
+	if err != nil {
+		return err
+	}
+
+	// Storage already initialized, verify that it belongs to the same network
+	if hash != nil {
+		if *hash != *genesisBlock.Hash() {
+			return ErrStorageNetworkMismatch
+		}
+
+		return nil
+	}
+
 	info := blockInfo{
 		Index:                0,
 		Hash:                 *genesisBlock.Hash(),
@@ -51,8 +65,7 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
 	}
 
-	err := s.PushBlock(genesisBlock, &info, TransactionsDetails{})
-	return err
+	return s.PushBlock(genesisBlock, &info, TransactionsDetails{})
 }
 
 func (s *memoryStorage) TopIndex() (uint32, error) {
-- 
2.43.0


From 0162c322fc74caa52e553cc043c4ae77e936a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 05/44] fix: report the real blockchain height and build the
 sparse chain from the same top block

---
 cryptonote/chain.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b156932..e59ba1d 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -80,9 +80,15 @@ func (bc *BlockChain) Init() error {
 }
 
 // Height returns current blockchain height
+//
+// This function is safe for concurrent access.
 func (bc *BlockChain) Height() uint32 {
-	// TODO: Implement
-	return 0
+	topBlock := bc.TopBlock()
+	if topBlock == nil {
+		return 0
+	}
+
+	return topBlock.Index() + 1
 }
 
 // TopBlock returns current best block
@@ -318,9 +324,9 @@ func (bc *BlockChain) BuildSparseChain() ([]crypto.Hash, error) {
 
 	list = append(list, *topHash)
 
-	height := bc.Height()
-	for i := uint32(1); i < height; i *= 2 {
-		hash, err := bc.storage.HashAtIndex(height - i)
+	topIndex := topBlock.Index()
+	for i := uint32(1); i < topIndex; i *= 2 {
+		hash, err := bc.storage.HashAtIndex(topIndex - i)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 516babac095749792627fa04c832a8af7123cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 06/44] fix: reject transactions with trailing or non canonical
 bytes

---
 cryptonote/chain.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index e59ba1d..fd561f5 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -566,6 +566,13 @@ func (bc *BlockChain) deserializeTransactions(blogger *log.Entry, rt [][]byte) (
 			return nil, 0, ErrAddBlockTransactionDeserialization
 		}
 
+		// Transaction hash does not cover the bytes that are lost by deserialization
+		if !bytes.Equal(transactions[i].Serialize(), rt[i]) {
+			err := ErrAddBlockTransactionDeserialization
+			tsLogger.Error(err)
+			return nil, 0, err
+		}
+
 		transactionsSize += tsSize
 	}
 
-- 
2.43.0


From ffc986707e2d841bd21e998a9fc127b951b9495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 07/44] fix: use the full reward window of block sizes

---
 cryptonote/chain.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index fd561f5..244bbd2 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -613,7 +613,6 @@ func (bc *BlockChain) lastBLockSizes(count uint32, index uint32) []uint64 {
 
 		sizes = append(sizes, tempInfo.Size)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(sizes)
-- 
2.43.0


From 5c2fe70eb4117a5948ae9c334ec435867a23b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 08/44] fix: use the full difficulty window of cumulative
 difficulties

---
 cryptonote/difficulty.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index d4d5355..ee1690c 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -36,7 +36,6 @@ func (bc *BlockChain) lastBlocksCumulativeDifficulties(count uint32, index uint3
 
 		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(difficulties)
-- 
2.43.0


From 55be686f68b86d93e44eef921caa19ebffe029ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 09/44] fix: compare the block timestamp with the median of the
 previous blocks only

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 244bbd2..0e5acd7 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -386,7 +386,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 	}
 
 	timestampCheckWindow := bc.Network.BlockTimestampCheckWindow(block.MajorVersion)
-	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, block, true)
+	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)
 	if uint32(len(lastTimestamps)) >= timestampCheckWindow {
 		if block.Timestamp < utils.MedianSlice(lastTimestamps) {
 			err := ErrBlockValidationTimestampTooFarInPast
-- 
2.43.0


From f132063d57526d51801d109133d8987f0fc80c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 10/44] fix: take timestamp and nonce of merge mined blocks
 from the parent block

---
 cryptonote/block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 032779d..7e74eb7 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -139,6 +139,10 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		}
 
 		b.Parent = parentBlock
+
+		// Merge mined blocks keep the timestamp and the nonce in the parent block
+		b.Timestamp = parentBlock.Timestamp
+		b.Nonce = parentBlock.Nonce
 	}
 
 	if err := b.BaseTransaction.Deserialize(r); err != nil {
-- 
2.43.0


From 1e3c73178f4c8c163f9295f1c80f85d4f0c6bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 11/44] fix: do not depend on map order when choosing the block
 major version

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index fd0825f..a050afd 100644
--- a/config/network.go
+++ b/config/network.go
@@ -148,7 +148,7 @@ func (n *Network) GetBlockMajorVersion(blockIndex uint32) byte {
 	version := BlockMajorVersion1
 
 	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
-		if blockIndex > upgradeHeight {
+		if blockIndex > upgradeHeight && majorVersion > version {
 			version = majorVersion
 		}
 	}
-- 
2.43.0


From 407b72de7e04398b515e3fcb9f6ef894239a6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 12/44] fix: count the mixin of key inputs

---
 cryptonote/transaction_validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f71626e..3e6d599 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -569,11 +569,12 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-		if _, ok := input.(InputKey); ok {
+		keyInput, ok := input.(InputKey)
+		if !ok {
 			continue
 		}
 
-		curMixin := len(input.(InputKey).OutputIndexes)
+		curMixin := len(keyInput.OutputIndexes)
 		if curMixin > mixin {
 			mixin = curMixin
 		}
-- 
2.43.0


From 07de1aab9882544ebbc028ed1d479b4269c634cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 13/44] fix: compare the full coinbase unlock height

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 0e5acd7..b9b26c9 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -414,7 +414,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 		return 0, err
 	}
 
-	if uint32(block.BaseTransaction.UnlockHeight) != prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow() {
+	if block.BaseTransaction.UnlockHeight != uint64(prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow()) {
 		err := ErrTransactionWrongUnlockTime
 		blogger.Error(err)
 		return 0, err
-- 
2.43.0


From 52a21c6a05124ae2be686d741e34834bcc32882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 14/44] fix: only relative output offsets must not be zero

---
 cryptonote/transaction_validator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 3e6d599..a7d4074 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
-	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
 )
@@ -155,10 +154,12 @@ func (validator *blockTransactionsValidator) validateInputs(transaction *Transac
 				}
 			}
 
-			if !utils.SliceIsUniqueUint32(&input.OutputIndexes) {
-				err := ErrTransactionInputIdenticalOutputIndexes
-				logger.Error(err)
-				return 0, err
+			for _, offset := range input.OutputIndexes[1:] {
+				if offset == 0 {
+					err := ErrTransactionInputIdenticalOutputIndexes
+					logger.Error(err)
+					return 0, err
+				}
 			}
 
 			if _, ok := validator.spentKeyImages[input.KeyImage]; ok {
-- 
2.43.0


From 1cab2667522a14499a6f987cedd0e44c18e8be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 15/44] fix: do not keep a half built genesis block

---
 cryptonote/chain.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b9b26c9..f96d310 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -520,7 +520,7 @@ func (bc *BlockChain) haveBlock(h *crypto.Hash) bool {
 // GenesisBlock returns first basic block of the blockchain
 func (bc *BlockChain) GenesisBlock() (*Block, error) {
 	if bc.genesisBlock == nil {
-		bc.genesisBlock = &Block{}
+		genesisBlock := &Block{}
 		genesisTransactionBytes, err := hex.DecodeString(bc.Network.GenesisCoinbaseTxHex)
 		reader := bytes.NewReader(genesisTransactionBytes)
 
@@ -528,14 +528,16 @@ func (bc *BlockChain) GenesisBlock() (*Block, error) {
 			return nil, err
 		}
 
-		if err := bc.genesisBlock.BaseTransaction.Deserialize(reader); err != nil {
+		if err := genesisBlock.BaseTransaction.Deserialize(reader); err != nil {
 			return nil, err
 		}
 
-		bc.genesisBlock.MajorVersion = config.BlockMajorVersion1
-		bc.genesisBlock.MinorVersion = config.BlockMinorVersion0
-		bc.genesisBlock.Timestamp = bc.Network.GenesisTimestamp
-		bc.genesisBlock.Nonce = bc.Network.GenesisNonce
+		genesisBlock.MajorVersion = config.BlockMajorVersion1
+		genesisBlock.MinorVersion = config.BlockMinorVersion0
+		genesisBlock.Timestamp = bc.Network.GenesisTimestamp
+		genesisBlock.Nonce = bc.Network.GenesisNonce
+
+		bc.genesisBlock = genesisBlock
 	}
 
 	return bc.genesisBlock, nil
-- 
2.43.0


From e33ef8a130286ce2dabfac570bdca10655dee61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 16/44] fix: do not lock the checkpoints twice in
 AlternativeBlockAllowed

---
 config/checkpoints.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/checkpoints.go b/config/checkpoints.go
index 5d336cd..9c0bd21 100644
--- a/config/checkpoints.go
+++ b/config/checkpoints.go
@@ -76,6 +76,13 @@ func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {
 	cp.Lock()
 	defer cp.Unlock()
 
+	return cp.isInCheckpointZone(index)
+}
+
+// isInCheckpointZone checks if index in checkpoints zone
+//
+// This function is NOT safe for concurrent access
+func (cp *checkpoints) isInCheckpointZone(index uint32) bool {
 	// No checkpoints added
 	if len(cp.pointsSorted) == 0 {
 		return false
@@ -120,7 +127,7 @@ func (cp *checkpoints) AlternativeBlockAllowed(bcSize uint32, index uint32) erro
 	}
 
 	uw := MinedMoneyUnlockWindow
-	if index < bcSize-uw && bcSize > uw && !cp.IsInCheckpointZone(index) {
+	if index < bcSize-uw && bcSize > uw && !cp.isInCheckpointZone(index) {
 		err := ErrCheckpointsTooDeepReorg
 		logger.Error(err)
 		return err
-- 
2.43.0


From 755c80890d3879b27d5eac339937d8406762027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 17/44] fix: keep signatures aligned with the inputs that have
 none

---
 cryptonote/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 8979ab7..f81ca5f 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -380,7 +380,7 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			return errors.New("unexpected signatures")
 		}
 
-		if sigSize == 0 {
+		if signaturesNotExpected {
 			continue
 		}
 
-- 
2.43.0


From c144f2a41b98d6f44deade1f9c8397a72319fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 18/44] fix: bound transaction counts by the bytes left before
 allocating

---
 cryptonote/transaction.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index f81ca5f..c6ab439 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -14,6 +14,9 @@ const (
 	TxTagMultisignature      = 0x3
 )
 
+// errTransactionTruncated is returned when the transaction announces more items than there are bytes left
+var errTransactionTruncated = errors.New("transaction is truncated")
+
 type TransactionSignatures [][]crypto.Signature
 
 type InputCoinbase struct {
@@ -231,11 +234,15 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Inputs
 	 */
 	inputsLen, err := binary.ReadUvarint(br)
-	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
 	}
 
+	if inputsLen > uint64(br.Len()) {
+		return errTransactionTruncated
+	}
+	tp.Inputs = make([]TransactionInput, inputsLen)
+
 	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {
 		var tag byte
 		if err := binary.Read(br, binary.LittleEndian, &tag); err != nil {
@@ -294,11 +301,15 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Output
 	 */
 	outputLen, err := binary.ReadUvarint(br)
-	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
 
+	if outputLen > uint64(br.Len()) {
+		return errTransactionTruncated
+	}
+	tp.Outputs = make([]TransactionOutput, outputLen)
+
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
 		amount, err := binary.ReadUvarint(br)
 		if err != nil {
@@ -337,6 +348,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 		return err
 	}
 
+	if extraLen > uint64(br.Len()) {
+		return errTransactionTruncated
+	}
+
 	tp.Extra = make([]byte, extraLen)
 	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
 		return err
@@ -384,6 +399,10 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			continue
 		}
 
+		if sigSize > br.Len() {
+			return errTransactionTruncated
+		}
+
 		sigs := make([]crypto.Signature, sigSize)
 		for i := 0; i < sigSize; i++ {
 			if err := binary.Read(br, binary.LittleEndian, &sigs[i]); err != nil {
-- 
2.43.0


From c946843ac09d6aff056a349a9f0ee7249cc7f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 19/44] fix: check the extra nonce size before converting it

---
 cryptonote/transaction_extra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 3892d72..4200949 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -86,7 +86,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err != nil {
 				return nil, err
 			}
-			if int(size) > TxExtraNonceMax {
+			if size > uint64(TxExtraNonceMax) {
 				return nil, ErrNonceMax
 			}
 
-- 
2.43.0


From 22f99e2580208f43637facc528bb9ea94fcbda5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 20/44] fix: report truncated block headers instead of
 accepting them

---
 cryptonote/block.go        | 4 ++--
 cryptonote/block_parent.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 7e74eb7..bc716f1 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -231,12 +231,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	switch uint8(majorVersion) {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 656e72b..e07a75c 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -68,17 +68,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	timestamp, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if err := prev.Read(r); err != nil {
-- 
2.43.0


From 0bf8434d3da4bfc861c75b1c1c9fcd1f33753c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 21/44] fix: weigh solve times by their position in the V3
 difficulty

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index a050afd..9cdb512 100644
--- a/config/network.go
+++ b/config/network.go
@@ -538,7 +538,7 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 		solveTime = int64(timestamps[i]) - int64(timestamps[i-1])
 		solveTime = utils.MinInt64(T*7, utils.MaxInt64(solveTime, -6*T))
 		difficulty = int64(cumulativeDifficulties[i]) - int64(cumulativeDifficulties[i-1])
-		LWMA += float64(solveTime*1) / k
+		LWMA += float64(solveTime*int64(i)) / k
 		sumInverseD += 1 / float64(difficulty)
 	}
 
-- 
2.43.0


From 838de46351b45861861f860bf416e904f69896c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 22/44] fix: divide by the weighted solve times in the V4
 difficulty

---
 config/network.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 9cdb512..6cd38e7 100644
--- a/config/network.go
+++ b/config/network.go
@@ -475,7 +475,12 @@ func (n *Network) nextDifficultyV4(height uint32, timestamps []uint64, cumulativ
 		}
 	}
 
-	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N * 1) / 2 * L
+	// Keep L sane, out-of-sequence timestamps can make it zero or negative
+	if L < 1 {
+		L = 1
+	}
+
+	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N + 1) / (2 * L)
 	nextD = (nextD * 99) / 100
 
 	prevD := int64(cumulativeDifficulties[N] - cumulativeDifficulties[N-1])
-- 
2.43.0


From be59a199e338b5fcb5579413c2d4e1819d5306ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 23/44] fix: a day has 24 hours

---
 config/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/params.go b/config/params.go
index 519af10..f8477d2 100644
--- a/config/params.go
+++ b/config/params.go
@@ -67,7 +67,7 @@ const (
 	MaxExtraSize = 1024
 
 	difficultyTarget             = 240
-	expectedNumberOfBlocksPerDay = (25 * 60 * 60) / difficultyTarget
+	expectedNumberOfBlocksPerDay = (24 * 60 * 60) / difficultyTarget
 
 	difficultyWindow  = expectedNumberOfBlocksPerDay
 	difficultyWindow2 = 17
-- 
2.43.0


From 3e3ae28aa6a39a1485569cc9f44159ced24622d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 24/44] fix: report truncated input when decoding binary data

---
 encoding/binary/binary.go |  3 ++-
 encoding/binary/decode.go | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/encoding/binary/binary.go b/encoding/binary/binary.go
index 101918b..e352901 100644
--- a/encoding/binary/binary.go
+++ b/encoding/binary/binary.go
@@ -3,6 +3,7 @@ package binary
 import (
 	"bytes"
 	"errors"
+	"io"
 	"reflect"
 )
 
@@ -30,7 +31,7 @@ func Unmarshal(b []byte, v interface{}) error {
 
 	var headBytes [headSize]byte
 	var headBlock storageBlockHeader
-	if _, err := reader.Read(headBytes[:]); err != nil {
+	if _, err := io.ReadFull(reader, headBytes[:]); err != nil {
 		return err
 	}
 
diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 04776f7..18fe079 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -26,8 +26,8 @@ func (d *Decoder) decode(v interface{}) error {
 	}
 
 	size, err := d.readVarInt()
-	if err == io.EOF {
-		return nil
+	if err != nil {
+		return err
 	}
 
 	metadata, err := getStructBinaryMetadata(reflect.ValueOf(v), false)
@@ -61,13 +61,13 @@ func (d *Decoder) decode(v interface{}) error {
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
-	if _, err := d.r.Read(sizeByte[:]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeByte[:]); err != nil {
 		return "", err
 	}
 
 	str := make([]byte, sizeByte[0])
 
-	if _, err := d.r.Read(str); err != nil {
+	if _, err := io.ReadFull(d.r, str); err != nil {
 		return "", err
 	}
 
@@ -193,7 +193,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
-	if _, err := d.r.Read(sizeBytes[0:1]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeBytes[0:1]); err != nil {
 		return 0, err
 	}
 
@@ -216,7 +216,7 @@ func (d *Decoder) readVarInt() (uint64, error) {
 	allBytes := make([]byte, 8)
 	allBytes[0] = sizeBytes[0]
 
-	if _, err := d.r.Read(allBytes[1:bytesLeft+1]); err != nil {
+	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 5fd83cb31e21d7c55d2cd94a2a7e02b8d8b01390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 25/44] fix: do not allocate the announced size of a binary
 value up front

---
 encoding/binary/decode.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 18fe079..4957172 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -6,6 +6,8 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
+	"math"
 	"reflect"
 )
 
@@ -130,11 +132,20 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return err
 		}
 
-		b := make([]byte, size)
-		if _, err := d.r.Read(b); err != nil {
+		// Size is limited by the length of the input, so read only what is really there
+		if size > math.MaxInt64 {
+			return io.ErrUnexpectedEOF
+		}
+
+		b, err := ioutil.ReadAll(io.LimitReader(d.r, int64(size)))
+		if err != nil {
 			return err
 		}
 
+		if uint64(len(b)) != size {
+			return io.ErrUnexpectedEOF
+		}
+
 		switch value.Kind() {
 		// For slice we don't know exact size of the data encoded.
 		// We read item by item with N size, where N defined by receiving slice element type.
-- 
2.43.0


From e431276a4d7e185631dfb146fb8660bf5e418209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 26/44] fix: report an object received for a field that is not
 a struct

---
 encoding/binary/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 4957172..4154cf4 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -189,6 +189,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return errors.New(fmt.Sprintf("not supported kind '%s' for binary received", value.Kind()))
 		}
 	case typeObject:
+		if value.Kind() != reflect.Struct {
+			return errors.New(fmt.Sprintf("not supported kind '%s' for object received", value.Kind()))
+		}
+
 		v := reflect.New(value.Type())
 		if err := d.decode(v.Interface()); err != nil {
 			return err
-- 
2.43.0


From 4b6f4dff956d5ed1e8e7a47871b7fab010775b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 27/44] fix: require the exact length for fixed size binary
 values

---
 encoding/binary/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 4154cf4..4cf627e 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -179,6 +179,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			value.Set(newSlice)
 		// For binary data only [N]byte array supported.
 		case reflect.Array:
+			if len(b) != value.Len() {
+				return errors.New(fmt.Sprintf("wrong binary size %d, expected %d", len(b), value.Len()))
+			}
+
 			newArray := reflect.New(value.Type()).Elem()
 			reflect.Copy(newArray, reflect.ValueOf(b))
 
-- 
2.43.0


From c3bab4b958db6cfeb7effa420f45327bc0120976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 28/44] fix: protect the peer store from concurrent use

---
 p2p/peerstore.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/p2p/peerstore.go b/p2p/peerstore.go
index 154e162..6d19d37 100644
--- a/p2p/peerstore.go
+++ b/p2p/peerstore.go
@@ -3,11 +3,14 @@ package p2p
 import (
 	"errors"
 	"fmt"
+	"sync"
 )
 
 type peerStore struct {
 	white *peerList
 	grey  *peerList
+
+	sync.RWMutex
 }
 
 type peerList struct {
@@ -22,6 +25,9 @@ func NewPeerStore() *peerStore {
 }
 
 func (ps *peerStore) toPeerEntries() []PeerEntry {
+	ps.RLock()
+	defer ps.RUnlock()
+
 	var peers []PeerEntry
 
 	for _, p := range ps.white.peers {
@@ -36,6 +42,9 @@ func (ps *peerStore) toPeerEntries() []PeerEntry {
 }
 
 func (ps *peerStore) toWhite(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.grey.Remove(p)
 
 	if err := ps.white.Add(p); err != nil {
@@ -46,6 +55,9 @@ func (ps *peerStore) toWhite(p *Peer) error {
 }
 
 func (ps *peerStore) toGrey(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.white.Remove(p)
 
 	if err := ps.grey.Add(p); err != nil {
-- 
2.43.0


From 1f5998b0592fb9ca53d7e9447165499a4e01d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 29/44] fix: keep listening after a failed accept

---
 p2p/node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index 049bae6..808fa89 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -109,6 +109,8 @@ func (n *Node) runListener() {
 					continue
 				}
 				n.logger.Errorf("failed to accept connection: %s", err)
+				time.Sleep(time.Second)
+				continue
 			}
 
 			go n.handleIncomingConnection(conn)
-- 
2.43.0


From 3b9852cd994d5f072ce6b6623c9d55770bbf4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 30/44] fix: close connections when they are not handled
 anymore and when the node stops

---
 p2p/node.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 808fa89..72b4362 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -113,6 +113,7 @@ func (n *Node) runListener() {
 				continue
 			}
 
+			n.wg.Add(1)
 			go n.handleIncomingConnection(conn)
 		}
 	}
@@ -122,12 +123,13 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 	// TODO: Enabling handling incoming connections
 	//return
 
+	defer n.wg.Done()
+	defer n.closeOnStop(conn)()
+
 	peer := NewPeerFromIncomingConnection(n, conn)
 
 	//// TODO: Add peer to peerstore. Make sure it is not exists.
 	//
-	n.wg.Add(1)
-	defer n.wg.Done()
 
 	n.connectionHandler(peer)
 
@@ -138,6 +140,22 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 	n.logger.Debugf("[%16x] sync closed", peer.ID)
 }
 
+// closeOnStop closes the connection when the node is stopped, so blocked reads and writes are released.
+// Returned function closes the connection immediately, it must be called when the connection is not used anymore.
+func (n *Node) closeOnStop(conn net.Conn) func() {
+	ctx, cancel := context.WithCancel(n.context)
+
+	go func() {
+		<-ctx.Done()
+		_ = conn.Close()
+	}()
+
+	return func() {
+		_ = conn.Close()
+		cancel()
+	}
+}
+
 func (n *Node) connectionHandler(p *Peer) {
 	for {
 		// Peer state changes asynchronously after handling some commands.
@@ -491,6 +509,9 @@ func (n *Node) defaults() {
 }
 
 func (n *Node) syncWithAddr(addr string) {
+	n.wg.Add(1)
+	defer n.wg.Done()
+
 	ctx, cancel := context.WithCancel(n.context)
 	defer cancel()
 
@@ -501,6 +522,8 @@ func (n *Node) syncWithAddr(addr string) {
 		return
 	}
 
+	defer n.closeOnStop(peer.protocol.Conn)()
+
 	//handshake, err := peer.handshake(n)
 	_, err = peer.handshake(n)
 	if err != nil {
@@ -517,9 +540,6 @@ func (n *Node) syncWithAddr(addr string) {
 		return
 	}
 
-	n.wg.Add(1)
-	defer n.wg.Done()
-
 	//for _, pe := range handshake.Peers {
 	//	go n.syncWithAddr(c, pe.Address.String())
 	//}
-- 
2.43.0


From a534d423b87760f804ffaa7284dcfae5682dd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 31/44] fix: stop handling a connection closed by the peer

---
 p2p/node.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 72b4362..31f76c3 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -8,7 +8,6 @@ import (
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
 	"go.uber.org/zap"
-	"io"
 	"math"
 	"math/rand"
 	"net"
@@ -187,11 +186,6 @@ func (n *Node) connectionHandler(p *Peer) {
 		// Read a next command from the connection
 		cmd, err := p.protocol.read()
 
-		// No command received continue to next loop cycle
-		if err == io.EOF {
-			continue
-		}
-
 		// On any error we move the peer to the grey list
 		if err != nil {
 			n.logger.Errorf("error on read command: %s", err)
-- 
2.43.0


From bdf15921eb1f8d9ade8ac0cb278888377c2a4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 32/44] fix: compare the peer version with the minimal version

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0bc6843..cf31084 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -149,7 +149,7 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("wrong network id received")
 	}
 
-	if n.Config.Network.P2PMinimumVersion < res.NodeData.Version {
+	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
 		return nil, errors.New("node data version not match minimal")
 	}
 
-- 
2.43.0


From cbb4b9a067ede1f17252cddf88d260e1a286c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 33/44] fix: refuse notifications from peers without handshake

---
 p2p/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index 31f76c3..b9e90f0 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -215,6 +215,11 @@ func (n *Node) connectionHandler(p *Peer) {
 func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 	p.logger.Debugf("handeling notification: %d", cmd.Command)
 
+	if p.state == PeerStateBeforeHandshake {
+		p.Shutdown()
+		return errors.New(fmt.Sprintf("[%s] notification %d before handshake", p, cmd.Command))
+	}
+
 	// TODO: This part of the code can be used for debug
 	//cwd, err := os.Getwd()
 	//if err != nil {
-- 
2.43.0


From 66dd8462a3f774f98023bb15e0d6cca94bb1de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 34/44] fix: do not write blocks received from peers to the
 working directory

---
 p2p/notification_response_get_objects.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 8e5f9fe..31867fb 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
-	"io/ioutil"
 )
 
 // NotificationResponseGetObjects == 2004
@@ -49,10 +48,8 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 		rawBlockReader := bytes.NewReader(rawBlock.Block)
 		if err := block.Deserialize(rawBlockReader); err != nil {
 			p.Shutdown()
-			// TODO: Remove this. It is debug only.
 			height := n.Blockchain.Height()
 			blockHeight := height + uint32(i)
-			_ = ioutil.WriteFile(fmt.Sprintf("./block_%d.dat", blockHeight), rawBlock.Block, 0644)
 			return errors.New(
 				fmt.Sprintf("[%s] (%d) failed to convert raw block (%d): %s", p, i, blockHeight, err),
 			)
-- 
2.43.0


From ba845716d95e684e0d515fd91652ed0efb522adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 35/44] fix: go on after known blocks and drop peers that send
 blocks we refuse

---
 p2p/node.go                              | 4 ++++
 p2p/notification_response_get_objects.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index b9e90f0..2bc189e 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -450,6 +450,10 @@ func (n *Node) processNewObjects(blocks []*cryptonote.Block, transactions map[cr
 		}
 
 		if err := n.Blockchain.AddBlock(block, transactions[*block.Hash()]); err != nil {
+			if err == cryptonote.ErrAddBlockAlreadyExists {
+				continue
+			}
+
 			return err
 			// TODO: Process proper error
 			//
diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 31867fb..4aa7e3d 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -82,6 +82,7 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 	}
 
 	if err := n.processNewObjects(orderedBlocks, transactions); err != nil {
+		p.Shutdown()
 		return err
 	}
 
-- 
2.43.0


From 84dc4c5e1b07e5d6b8cbb87ab16ee9317bd31c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 36/44] fix: introduce the node with its own peer ID

---
 p2p/node.go | 1 +
 p2p/peer.go | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/node.go b/p2p/node.go
index 2bc189e..ec3e728 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -352,6 +352,7 @@ func (n *Node) handleCommand(p *Peer, cmd *LevinCommand) error {
 		}
 
 		rsp := NewHandshakeResponse(n.Blockchain, n.ps.toPeerEntries())
+		rsp.NodeData.PeerID = n.Config.PeerID
 		if err := p.protocol.Reply(cmd.Command, rsp, 1); err != nil {
 			return err
 		}
diff --git a/p2p/peer.go b/p2p/peer.go
index cf31084..79d6b9a 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -140,8 +140,11 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("state is not before handshake")
 	}
 
+	req := NewHandshakeRequest(n.Blockchain)
+	req.NodeData.PeerID = n.Config.PeerID
+
 	var res HandshakeResponse
-	if err := p.protocol.Invoke(CommandHandshake, NewHandshakeRequest(n.Blockchain), &res); err != nil {
+	if err := p.protocol.Invoke(CommandHandshake, req, &res); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 06cfd08cadcd1f87992a82f04078b10649da4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 37/44] fix: continue synchronization when all the needed
 blocks are already known

---
 p2p/peer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 79d6b9a..d79d33f 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -223,7 +223,13 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 		}
 
 		p.neededBlocks = neededBlocks
-	} else if p.lastResponseHeight < (p.remoteHeight - 1) {
+
+		if len(requestBlocks) > 0 {
+			return nil
+		}
+	}
+
+	if p.lastResponseHeight < (p.remoteHeight - 1) {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
 		}
-- 
2.43.0


From 022968e63f0da5feb7e7e45dcc56f43fc8137979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 38/44] fix: refuse a second handshake also from peers without
 ID

---
 p2p/command_handshake.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/command_handshake.go b/p2p/command_handshake.go
index ac09d5f..17deab7 100644
--- a/p2p/command_handshake.go
+++ b/p2p/command_handshake.go
@@ -68,7 +68,7 @@ func (n *Node) HandleHandshake(p *Peer, req HandshakeRequest) error {
 		return err
 	}
 
-	if p.ID != 0 {
+	if p.ID != 0 || p.state != PeerStateBeforeHandshake {
 		err := ErrHandshakeHasID
 		p.logger.Error(err, zap.String("peerID", strconv.FormatUint(req.NodeData.PeerID, 10)))
 		p.Shutdown()
-- 
2.43.0


From 7099f45e2f7fbb410c094b82420cbc77f87ca4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 39/44] fix: take memory for a packet only as its bytes arrive

---
 p2p/levin.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/p2p/levin.go b/p2p/levin.go
index 12edd19..625e199 100644
--- a/p2p/levin.go
+++ b/p2p/levin.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	p2pbinary "github.com/r3volut1oner/go-karbo/encoding/binary"
 	"io"
+	"io/ioutil"
 	"net"
 )
 
@@ -129,12 +130,16 @@ func (p *LevinProtocol) read() (*LevinCommand, error) {
 		return nil, errors.New("levin packet size is too big")
 	}
 
-	payload := make([]byte, head.BodySize)
-
-	if _, err := io.ReadFull(p.Conn, payload); err != nil {
+	// Memory must be taken only for the bytes that really arrived
+	payload, err := ioutil.ReadAll(io.LimitReader(p.Conn, int64(head.BodySize)))
+	if err != nil {
 		return nil, err
 	}
 
+	if uint64(len(payload)) != head.BodySize {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	return &LevinCommand{
 		Command:    head.Command,
 		Payload:    payload,
-- 
2.43.0


From 335556adba88da854254aaa4585d717f37b527b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 40/44] fix: refuse binary data for lists of items without
 fixed size

---
 encoding/binary/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 4cf627e..dbc3c53 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -163,6 +163,11 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			itemType := value.Type().Elem()
 			reader := bytes.NewReader(b)
 
+			// Items without fixed size take no bytes from the reader and the end is never reached
+			if binary.Size(reflect.New(itemType).Interface()) <= 0 {
+				return errors.New(fmt.Sprintf("not supported items '%s' for binary received", itemType))
+			}
+
 			for {
 				item := reflect.New(itemType)
 				err := binary.Read(reader, binary.LittleEndian, item.Interface())
-- 
2.43.0


From 7a3338f0378570fb8e0cd858e779da65c28900eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 41/44] fix: disconnect a peer whose synchronization answer
 can't be decoded

---
 p2p/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index ec3e728..844c348 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -236,6 +236,11 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 
 	nt, err := parseNotification(cmd)
 	if err != nil {
+		// Synchronization with the peer can't be continued without the answer
+		if cmd.Command == NotificationResponseChainEntryID || cmd.Command == NotificationResponseGetObjectsID {
+			p.Shutdown()
+		}
+
 		return err
 	}
 
-- 
2.43.0


From c92bd987d146dab3254c44f953006bcb6b88f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 42/44] fix: take the version 5 average difficulty over the
 whole window

The division applied to the first cumulative difficulty only, so the average was
about N times the work of the window.
---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 6cd38e7..e3aea7b 100644
--- a/config/network.go
+++ b/config/network.go
@@ -395,7 +395,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	}
 
 	nextD := int64(0)
-	avgD := int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])/N
+	avgD := (int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])) / N
 
 	// Prevent round off error for small D and overflow for large D.
 	if avgD > 2000000*N*N*T {
-- 
2.43.0


From 8d4817ac1f5b13876ea4a863db24344fda425d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 43/44] fix: round the version 5 difficulty instead of halving
 it

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index e3aea7b..e9d0593 100644
--- a/config/network.go
+++ b/config/network.go
@@ -408,7 +408,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	i := int64(1000000000)
 	for i > 1 {
 		if nextD > i*100 {
-			nextD = (((nextD + i) / 2) / i) * i
+			nextD = ((nextD + i/2) / i) * i
 			break
 		}
 
-- 
2.43.0


From b0609fcd5e8317668f3b0d4d30d34db57ae7ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 44/44] fix: read and write headers of version 5 blocks

---
 cryptonote/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index bc716f1..58bd1a9 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -244,7 +244,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		if err := prev.Read(reader); err != nil {
 			return err
 		}
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		ts, err = binary.ReadUvarint(reader)
 		if err != nil {
 			return err
@@ -289,7 +289,7 @@ func (h *BlockHeader) serialize() []byte {
 	switch h.MajorVersion {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		serialized.Write(h.PreviousBlockHash[:])
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		written = binary.PutUvarint(buf, h.Timestamp)
 		serialized.Write(buf[:written])
 		serialized.Write(h.PreviousBlockHash[:])
-- 
2.43.0

