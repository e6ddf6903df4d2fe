From 022e29611a93be8a1dba9ce9e4c5067cbc7cb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 001/101] fix: do not share the combination buffer between
 concurrent coin selections

---
 pkg/explorer/coinselection.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/explorer/coinselection.go b/pkg/explorer/coinselection.go
index da9b4ca..310aa75 100644
--- a/pkg/explorer/coinselection.go
+++ b/pkg/explorer/coinselection.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 )
 
 // SelectUnspents performs a coin selection over the given list of Utxos and
@@ -107,6 +108,9 @@ func isIndexOccupied(i int, list []int) bool {
 
 var combination = []uint64{}
 
+// combinationLock serializes the selections that share the buffer above
+var combinationLock sync.Mutex
+
 //getCombination is calculating all combinations for 'size' the elements of src array
 // number of combination formula -> len(src)! / size! * (len(src) - size)!
 func getCombination(src []uint64, size int, offset int) [][]uint64 {
@@ -141,6 +145,9 @@ func sum(items []uint64) uint64 {
 //3. check each combination if meet the requirements from 0 -> i, if yes, return it (finish)
 //4. if none of combination matches, then size++ and go to Step 2.
 func getBestCombination(items []uint64, target uint64) []uint64 {
+	combinationLock.Lock()
+	defer combinationLock.Unlock()
+
 	result := [][]uint64{}
 	for i := 1; i < len(items)+1; i++ {
 		result = append(result, getCombination(items, i, 0)...)
-- 
2.43.0


From fc6150eecd42543428830cdca63d482b5c8aab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 002/101] fix: refuse trade steps that are not legal from a
 failed, expired or settled trade

---
 internal/core/domain/trade_service.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 4a488a0..bd33afe 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -104,6 +104,11 @@ type CompleteResult struct {
 // be called before the trade expires, otherwise it won't be possible to
 // actually complete an accepted trade.
 func (t *Trade) Complete(tx string) (*CompleteResult, error) {
+	// a trade expired before being completed can't be completed anymore.
+	if t.Status.Code == Expired && t.SwapComplete.IsZero() {
+		return nil, ErrTradeExpired
+	}
+
 	if t.Status.Code >= Completed {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
@@ -119,6 +124,11 @@ func (t *Trade) Complete(tx string) (*CompleteResult, error) {
 		return nil, ErrTradeExpired
 	}
 
+	// the unspents of a failed trade might already be in use by another one.
+	if t.IsRejected() {
+		return nil, ErrTradeMustBeAccepted
+	}
+
 	swapCompleteID, swapCompleteMsg, err := SwapParserManager.SerializeComplete(
 		t.SwapAccept.Message,
 		tx,
@@ -165,6 +175,11 @@ func (t *Trade) Settle(settlementTime uint64) (bool, error) {
 		return false, ErrTradeMustBeCompletedOrAccepted
 	}
 
+	// a rejected proposal has no transaction that can be settled.
+	if t.Status.Code < Accepted {
+		return false, ErrTradeMustBeCompletedOrAccepted
+	}
+
 	t.ExpiryTime = 0
 	t.SettlementTime = settlementTime
 	t.Status = SettledStatus
@@ -178,6 +193,11 @@ func (t *Trade) Fail(swapID string, errCode int, errMsg string) {
 		return
 	}
 
+	// a settled trade is final.
+	if t.IsSettled() {
+		return
+	}
+
 	swapFailID, swapFailMsg := SwapParserManager.SerializeFail(swapID, errCode, errMsg)
 	t.SwapFail.ID = swapFailID
 	t.SwapFail.Message = swapFailMsg
-- 
2.43.0


From fae7aa5c005f3f344976c1b70d7ac2abac9d61f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 003/101] fix: refuse amounts that overflow when pricing a
 trade

---
 internal/core/domain/pluggable_strategy.go    |  9 +++++++++
 pkg/marketmaking/formula/balanced_reserves.go | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/internal/core/domain/pluggable_strategy.go b/internal/core/domain/pluggable_strategy.go
index 9aba40b..05d4248 100644
--- a/internal/core/domain/pluggable_strategy.go
+++ b/internal/core/domain/pluggable_strategy.go
@@ -2,6 +2,7 @@ package domain
 
 import (
 	"errors"
+	"math"
 
 	"github.com/shopspring/decimal"
 	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
@@ -30,6 +31,10 @@ func (s PluggableStrategy) OutGivenIn(_opts interface{}, amountIn uint64) (uint6
 	if amountIn == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
 	}
+	if amountIn > math.MaxInt64 ||
+		!decimal.NewFromInt(int64(amountIn)).Mul(opts.Price).BigInt().IsInt64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
 
 	amountR := decimal.NewFromInt(int64(amountIn)).Mul(opts.Price).BigInt().Uint64()
 	amountR, _ = mathutil.LessFee(amountR, opts.Fee)
@@ -50,6 +55,10 @@ func (s PluggableStrategy) InGivenOut(_opts interface{}, amountOut uint64) (uint
 	if amountOut >= opts.BalanceOut {
 		return 0, ErrMarketPreviewAmountTooBig
 	}
+	if amountOut > math.MaxInt64 ||
+		!decimal.NewFromInt(int64(amountOut)).Mul(opts.Price).BigInt().IsInt64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
 
 	amountP := decimal.NewFromInt(int64(amountOut)).Mul(opts.Price).BigInt().Uint64()
 	amountP, _ = mathutil.PlusFee(amountP, opts.Fee)
diff --git a/pkg/marketmaking/formula/balanced_reserves.go b/pkg/marketmaking/formula/balanced_reserves.go
index 1bafafb..dec514a 100644
--- a/pkg/marketmaking/formula/balanced_reserves.go
+++ b/pkg/marketmaking/formula/balanced_reserves.go
@@ -3,6 +3,7 @@ package formula
 
 import (
 	"errors"
+	"math"
 
 	"github.com/shopspring/decimal"
 	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
@@ -74,6 +75,9 @@ func (BalancedReserves) OutGivenIn(_opts interface{}, amountIn uint64) (uint64,
 	if amountIn == 0 {
 		return 0, ErrAmountTooLow
 	}
+	if amountIn > math.MaxInt64 {
+		return 0, ErrAmountTooBig
+	}
 
 	amount := amountIn
 	if opts.ChargeFeeOnTheWayIn {
@@ -142,10 +146,17 @@ func (BalancedReserves) InGivenOut(_opts interface{}, amountOut uint64) (uint64,
 		).Sub(decimal.NewFromInt(1)),
 	)
 
+	if !amountInDecimal.BigInt().IsInt64() {
+		return 0, ErrAmountTooBig
+	}
+
 	amountIn := amountInDecimal.BigInt().Uint64()
 	if opts.ChargeFeeOnTheWayIn {
 		amountIn, _ = mathutil.PlusFee(amountIn, opts.Fee)
 	}
+	if amountIn > math.MaxInt64 {
+		return 0, ErrAmountTooBig
+	}
 	if amountIn == 0 {
 		return 0, ErrAmountTooLow
 	}
-- 
2.43.0


From 45b1ec47c0c1e33ea0d36d3dd5a7cb0d7face977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 004/101] fix: refuse swap proposals that do not exchange the
 assets of the market

---
 internal/core/application/trade_service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f912673..34ab5c7 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -894,6 +894,16 @@ func isValidTradePrice(
 	unspents []domain.Unspent,
 	slippage decimal.Decimal,
 ) bool {
+	// the swap must exchange the assets of the market in the right direction.
+	sendAsset, receiveAsset := market.QuoteAsset, market.BaseAsset
+	if tradeType == TradeSell {
+		sendAsset, receiveAsset = market.BaseAsset, market.QuoteAsset
+	}
+	if swapRequest.GetAssetP() != sendAsset ||
+		swapRequest.GetAssetR() != receiveAsset {
+		return false
+	}
+
 	// TODO: parallelize the 2 ways of calculating and validating the preview
 	// amount to speed up the process.
 	amount := swapRequest.GetAmountR()
-- 
2.43.0


From c672dddae9ad8c3159721d3e55011f8d7a8fc8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 005/101] fix: roll back the remaining parts of a unit of work
 when one rollback fails

---
 internal/infrastructure/storage/db/uow/unit_of_work.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/uow/unit_of_work.go b/internal/infrastructure/storage/db/uow/unit_of_work.go
index 559a726..1614c8a 100644
--- a/internal/infrastructure/storage/db/uow/unit_of_work.go
+++ b/internal/infrastructure/storage/db/uow/unit_of_work.go
@@ -62,8 +62,8 @@ func (u *UnitOfWork) Run(fn func(Contextual) error) (err error) {
 			if _err := tx.Rollback(); _err != nil {
 				// TODO: handle rollback failure
 				// - Shall we try to rollback again?
+				// In any case, the other transactions must be rolled back too.
 				err = _err
-				return
 			}
 		}
 	}()
-- 
2.43.0


From c16a58d165296d74b75300e0f311c06bdd39af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 006/101] fix: begin new transactions when a unit of work is
 run again

---
 internal/infrastructure/storage/db/uow/unit_of_work.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/infrastructure/storage/db/uow/unit_of_work.go b/internal/infrastructure/storage/db/uow/unit_of_work.go
index 1614c8a..788ca0b 100644
--- a/internal/infrastructure/storage/db/uow/unit_of_work.go
+++ b/internal/infrastructure/storage/db/uow/unit_of_work.go
@@ -53,6 +53,15 @@ func (u *UnitOfWork) Context(repository interface{}) context.Context {
 // back if any error occur
 func (u *UnitOfWork) Run(fn func(Contextual) error) (err error) {
 	txs := make([]Tx, 0, len(u.repositories))
+	keys := make([]interface{}, 0, len(u.repositories))
+
+	// the transactions begun here end with this run, the next one must begin
+	// its own.
+	defer func() {
+		for _, key := range keys {
+			delete(u.contexts, key)
+		}
+	}()
 
 	defer func() {
 		if err == nil {
@@ -104,6 +113,7 @@ func (u *UnitOfWork) Run(fn func(Contextual) error) (err error) {
 			return err
 		}
 		u.contexts[key] = tx
+		keys = append(keys, key)
 		txs = append(txs, tx)
 	}
 
-- 
2.43.0


From 73869c6637953c9af4eedec930166732db3da595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 007/101] fix: never share the stored vault of the in-memory
 storage with its callers

---
 .../inmemory/vault_memory_implementation.go   | 39 ++++++++++++++++---
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
index 1e31d32..aefbf69 100644
--- a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
+++ b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
@@ -63,7 +63,7 @@ func (r VaultRepositoryImpl) UpdateVault(
 		return err
 	}
 
-	r.store.vault = updatedVault
+	r.store.vault = copyVault(updatedVault)
 
 	return nil
 }
@@ -73,7 +73,7 @@ func (r VaultRepositoryImpl) GetAccountByIndex(ctx context.Context,
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	return r.store.vault.AccountByIndex(accountIndex)
+	return copyVault(r.store.vault).AccountByIndex(accountIndex)
 }
 
 func (r VaultRepositoryImpl) GetAccountByAddress(
@@ -83,7 +83,7 @@ func (r VaultRepositoryImpl) GetAccountByAddress(
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	return r.store.vault.AccountByAddress(addr)
+	return copyVault(r.store.vault).AccountByAddress(addr)
 }
 
 func (r VaultRepositoryImpl) GetAllDerivedAddressesInfoForAccount(
@@ -118,16 +118,43 @@ func (r VaultRepositoryImpl) getOrCreateVault(
 		if err != nil {
 			return nil, err
 		}
-		r.store.vault = v
+		r.store.vault = copyVault(v)
 	}
-	return r.store.vault, nil
+	return copyVault(r.store.vault), nil
 }
 
 func (r VaultRepositoryImpl) getVault(_ context.Context) *domain.Vault {
 	if r.store.vault.IsZero() {
 		return nil
 	}
-	return r.store.vault
+	return copyVault(r.store.vault)
+}
+
+// copyVault makes sure that the stored vault is never shared with the callers,
+// which can change it only with UpdateVault.
+func copyVault(v *domain.Vault) *domain.Vault {
+	vault := *v
+	if v.PassphraseHash != nil {
+		vault.PassphraseHash = append([]byte{}, v.PassphraseHash...)
+	}
+	if v.Accounts != nil {
+		vault.Accounts = make(map[int]*domain.Account, len(v.Accounts))
+		for i, a := range v.Accounts {
+			account := *a
+			account.DerivationPathByScript = make(map[string]string, len(a.DerivationPathByScript))
+			for script, path := range a.DerivationPathByScript {
+				account.DerivationPathByScript[script] = path
+			}
+			vault.Accounts[i] = &account
+		}
+	}
+	if v.AccountAndKeyByAddress != nil {
+		vault.AccountAndKeyByAddress = make(map[string]domain.AccountAndKey, len(v.AccountAndKeyByAddress))
+		for addr, info := range v.AccountAndKeyByAddress {
+			vault.AccountAndKeyByAddress[addr] = info
+		}
+	}
+	return &vault
 }
 
 func (r VaultRepositoryImpl) getDerivationPathByScript(
-- 
2.43.0


From 0a27a4b7c548994f7098b0f833ec7353817dfedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 008/101] fix: make the coin tables honour locks, address
 filters and repeated marks

---
 .../db/badger/unspent_repository_impl.go      |  4 +-
 .../unspent_memory_repository_impl.go         | 59 ++++++++++++-------
 2 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
index 7d418e1..edf8c57 100644
--- a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
@@ -224,7 +224,7 @@ func (u unspentRepositoryImpl) spendUnspent(
 		return false, err
 	}
 
-	if unspent == nil {
+	if unspent == nil || unspent.IsSpent() {
 		return false, nil
 	}
 
@@ -264,7 +264,7 @@ func (u unspentRepositoryImpl) confirmUnspent(
 		return false, err
 	}
 
-	if unspent == nil {
+	if unspent == nil || unspent.IsConfirmed() {
 		return false, nil
 	}
 
diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index 2871252..235bc6f 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -45,7 +45,13 @@ func (r UnspentRepositoryImpl) GetAvailableUnspents(_ context.Context) ([]domain
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	return r.getAvailableUnspents(nil), nil
+	unspents := make([]domain.Unspent, 0)
+	for _, u := range r.getAllUnspents(false) {
+		if u.IsConfirmed() && !u.IsLocked() {
+			unspents = append(unspents, u)
+		}
+	}
+	return unspents, nil
 }
 
 // GetAllUnspentsForAddresses ...
@@ -59,10 +65,10 @@ func (r UnspentRepositoryImpl) GetAllUnspentsForAddresses(
 	results := make([]domain.Unspent, 0)
 
 	for _, unspent := range r.store.unspents {
-		unspentAddress := unspent.Address
 		for _, addr := range addresses {
-			if unspentAddress == addr {
+			if unspent.Address == addr {
 				results = append(results, unspent)
+				break
 			}
 		}
 	}
@@ -118,7 +124,7 @@ func (r UnspentRepositoryImpl) GetBalance(
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	for _, address := range addresses {
+	for _, address := range uniqueAddresses(addresses) {
 		balance += r.getBalance(address, assetHash)
 	}
 
@@ -136,7 +142,7 @@ func (r UnspentRepositoryImpl) GetUnlockedBalance(
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	for _, address := range addresses {
+	for _, address := range uniqueAddresses(addresses) {
 		balance += r.getUnlockedBalance(address, assetHash)
 	}
 
@@ -179,7 +185,6 @@ func (r UnspentRepositoryImpl) ConfirmUnspents(
 		if unspent, ok := r.store.unspents[key]; ok {
 			if !unspent.IsConfirmed() {
 				unspent.Confirm()
-				unspent.Unlock()
 				r.store.unspents[key] = unspent
 				count++
 			}
@@ -291,14 +296,10 @@ func (r UnspentRepositoryImpl) getUnspents(addresses []string, isLocked bool) []
 	unspents := make([]domain.Unspent, 0)
 	for _, u := range r.store.unspents {
 		if !u.IsSpent() && u.IsLocked() == isLocked && u.IsConfirmed() {
-			if len(addresses) == 0 {
-				unspents = append(unspents, u)
-			} else {
-				for _, addr := range addresses {
-					if addr == u.Address {
-						unspents = append(unspents, u)
-						break
-					}
+			for _, addr := range addresses {
+				if addr == u.Address {
+					unspents = append(unspents, u)
+					break
 				}
 			}
 		}
@@ -313,9 +314,13 @@ func (r UnspentRepositoryImpl) lockUnspents(
 	count := 0
 	for _, key := range unspentKeys {
 		if unspent, ok := r.store.unspents[key]; ok {
-			unspent.Lock(&tradeID)
-			r.store.unspents[key] = unspent
-			count++
+			if !unspent.IsLocked() {
+				if err := unspent.Lock(&tradeID); err != nil {
+					return -1, err
+				}
+				r.store.unspents[key] = unspent
+				count++
+			}
 		}
 	}
 	return count, nil
@@ -327,10 +332,24 @@ func (r UnspentRepositoryImpl) unlockUnspents(
 	count := 0
 	for _, key := range unspentKeys {
 		if unspent, ok := r.store.unspents[key]; ok {
-			unspent.Unlock()
-			r.store.unspents[key] = unspent
-			count++
+			if unspent.IsLocked() {
+				unspent.Unlock()
+				r.store.unspents[key] = unspent
+				count++
+			}
 		}
 	}
 	return count, nil
 }
+
+func uniqueAddresses(addresses []string) []string {
+	unique := make([]string, 0, len(addresses))
+	seen := make(map[string]struct{})
+	for _, addr := range addresses {
+		if _, ok := seen[addr]; !ok {
+			seen[addr] = struct{}{}
+			unique = append(unique, addr)
+		}
+	}
+	return unique
+}
-- 
2.43.0


From 57c67a493c31324ce3da6953b0af523465231b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 009/101] fix: refuse updates of unknown trades and list every
 trade of the in-memory storage

---
 .../storage/db/badger/trade_repository_impl.go      |  8 ++++++++
 .../db/inmemory/trade_memory_repository_impl.go     | 13 +++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index 1230932..3ecd5fd 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -97,6 +97,10 @@ func (t tradeRepositoryImpl) UpdateTrade(
 	ID *uuid.UUID,
 	updateFn func(t *domain.Trade) (*domain.Trade, error),
 ) error {
+	if ID == nil {
+		return ErrTradeNotFound
+	}
+
 	txIsNotGiven := ctx.Value("tx") == nil
 
 	currentTrade, err := t.getTrade(ctx, *ID)
@@ -104,6 +108,10 @@ func (t tradeRepositoryImpl) UpdateTrade(
 		return err
 	}
 
+	if currentTrade == nil {
+		return ErrTradeNotFound
+	}
+
 	updatedTrade, err := updateFn(currentTrade)
 	if err != nil {
 		return err
diff --git a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
index 5f4fad2..b367f83 100644
--- a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
@@ -92,10 +92,14 @@ func (r tradeRepositoryImpl) UpdateTrade(
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	currentTrade, err := r.getOrCreateTrade(tradeID)
-	if err != nil {
-		return err
+	if tradeID == nil {
+		return ErrTradeNotFound
+	}
+	storedTrade, ok := r.store.trades[*tradeID]
+	if !ok {
+		return ErrTradeNotFound
 	}
+	currentTrade := &storedTrade
 
 	updatedTrade, err := updateFn(currentTrade)
 	if err != nil {
@@ -133,7 +137,8 @@ func (r tradeRepositoryImpl) getOrCreateTrade(tradeID *uuid.UUID) (*domain.Trade
 
 func (r tradeRepositoryImpl) getAllTrades() ([]*domain.Trade, error) {
 	allTrades := make([]*domain.Trade, 0)
-	for _, trade := range r.store.trades {
+	for i := range r.store.trades {
+		trade := r.store.trades[i]
 		allTrades = append(allTrades, &trade)
 	}
 	return allTrades, nil
-- 
2.43.0


From 49a45a3d9072c16f60cec6155675ec48d83f1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 010/101] fix: keep prices, missing and deleted markets
 consistent in the market tables

---
 .../db/badger/market_repository_impl.go       | 77 +++++++++++--------
 .../inmemory/market_memory_repository_impl.go | 20 +++++
 2 files changed, 67 insertions(+), 30 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index bdf23a9..764df79 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -107,11 +107,22 @@ func (m marketRepositoryImpl) UpdateMarket(
 		return ErrMarketNotFound
 	}
 
+	currentPrice := currentMarket.Price
+
 	updatedMarket, err := updateFn(currentMarket)
 	if err != nil {
 		return err
 	}
 
+	// the prices live in their own store, they're written only if changed
+	if !arePricesEqual(currentPrice, updatedMarket.Price) {
+		if err := m.updatePriceByAccountIndex(
+			ctx, accountIndex, updatedMarket.Price,
+		); err != nil {
+			return err
+		}
+	}
+
 	return m.updateMarket(ctx, accountIndex, *updatedMarket)
 }
 
@@ -125,24 +136,20 @@ func (m marketRepositoryImpl) OpenMarket(
 		return err
 	}
 
-	if len(markets) > 0 {
-		market := markets[0]
-		if market.IsTradable() {
-			return nil
-		}
+	if len(markets) <= 0 {
+		return ErrMarketNotFound
+	}
 
-		err = market.MakeTradable()
-		if err != nil {
-			return err
-		}
+	market := markets[0]
+	if market.IsTradable() {
+		return nil
+	}
 
-		err := m.updateMarket(ctx, market.AccountIndex, market)
-		if err != nil {
-			return err
-		}
+	if err := market.MakeTradable(); err != nil {
+		return err
 	}
 
-	return nil
+	return m.updateMarket(ctx, market.AccountIndex, market)
 }
 
 func (m marketRepositoryImpl) CloseMarket(
@@ -155,33 +162,39 @@ func (m marketRepositoryImpl) CloseMarket(
 		return err
 	}
 
-	if len(markets) > 0 {
-		market := markets[0]
-		if !market.IsTradable() {
-			return nil
-		}
+	if len(markets) <= 0 {
+		return ErrMarketNotFound
+	}
 
-		err = market.MakeNotTradable()
-		if err != nil {
-			return err
-		}
+	market := markets[0]
+	if !market.IsTradable() {
+		return nil
+	}
 
-		err := m.updateMarket(ctx, market.AccountIndex, market)
-		if err != nil {
-			return err
-		}
+	if err := market.MakeNotTradable(); err != nil {
+		return err
 	}
 
-	return nil
+	return m.updateMarket(ctx, market.AccountIndex, market)
 }
 
 func (m marketRepositoryImpl) UpdatePrices(ctx context.Context, accountIndex int, prices domain.Prices) error {
-	err := m.updatePriceByAccountIndex(ctx, accountIndex, prices)
+	market, err := m.getMarket(ctx, accountIndex)
 	if err != nil {
 		return err
 	}
+	if market == nil {
+		return ErrMarketNotFound
+	}
 
-	return nil
+	if err := market.ChangeBasePrice(prices.BasePrice); err != nil {
+		return err
+	}
+	if err := market.ChangeQuotePrice(prices.QuotePrice); err != nil {
+		return err
+	}
+
+	return m.updatePriceByAccountIndex(ctx, accountIndex, prices)
 }
 
 func (m marketRepositoryImpl) getOrCreateMarket(
@@ -369,6 +382,10 @@ func (m marketRepositoryImpl) updatePriceByAccountIndex(ctx context.Context, acc
 	return nil
 }
 
+func arePricesEqual(a, b domain.Prices) bool {
+	return a.BasePrice.Equal(b.BasePrice) && a.QuotePrice.Equal(b.QuotePrice)
+}
+
 func restoreStrategy(market *domain.Market) {
 	if !market.IsStrategyPluggable() {
 		switch market.Strategy.Type {
diff --git a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
index f390bcb..7a5ab2d 100644
--- a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
@@ -117,6 +117,10 @@ func (r MarketRepositoryImpl) OpenMarket(_ context.Context, quoteAsset string) e
 		return err
 	}
 
+	if currentMarket == nil {
+		return ErrMarketNotFound
+	}
+
 	// We update the market status only if the market is closed.
 	if currentMarket.IsTradable() {
 		return nil
@@ -142,6 +146,10 @@ func (r MarketRepositoryImpl) CloseMarket(_ context.Context, quoteAsset string)
 		return err
 	}
 
+	if currentMarket == nil {
+		return ErrMarketNotFound
+	}
+
 	// We update the market status only if the market is open.
 	if !currentMarket.IsTradable() {
 		return nil
@@ -166,6 +174,10 @@ func (r *MarketRepositoryImpl) UpdatePrices(_ context.Context, accountIndex int,
 		return err
 	}
 
+	if market == nil {
+		return ErrMarketNotFound
+	}
+
 	err = market.ChangeBasePrice(prices.BasePrice)
 	if err != nil {
 		return err
@@ -183,7 +195,15 @@ func (r *MarketRepositoryImpl) DeleteMarket(
 	_ context.Context,
 	accountIndex int,
 ) error {
+	r.store.locker.Lock()
+	defer r.store.locker.Unlock()
+
 	delete(r.store.markets, accountIndex)
+	for asset, index := range r.store.accountsByAsset {
+		if index == accountIndex {
+			delete(r.store.accountsByAsset, asset)
+		}
+	}
 
 	return nil
 }
-- 
2.43.0


From 0baa1b4e6ec3d8f1a31107ec6d33394d79c698f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 011/101] fix: open a pluggable market only when both prices
 are set

---
 internal/core/domain/market_service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/core/domain/market_service.go b/internal/core/domain/market_service.go
index 20604b5..b2cbab6 100644
--- a/internal/core/domain/market_service.go
+++ b/internal/core/domain/market_service.go
@@ -63,9 +63,9 @@ func (m *Market) IsStrategyPluggable() bool {
 	return m.Strategy.IsZero() || m.Strategy.Type == PluggableStrategyType
 }
 
-// IsStrategyPluggableInitialized returns true if the prices have been set.
+// IsStrategyPluggableInitialized returns true if both prices have been set.
 func (m *Market) IsStrategyPluggableInitialized() bool {
-	return !m.Price.AreZero()
+	return !m.Price.BasePrice.IsZero() && !m.Price.QuotePrice.IsZero()
 }
 
 // FundMarket adds the assets of market from the given array of outpoints.
-- 
2.43.0


From 8fbcb69ed8c3a07fc8dee50c3933c86d5310c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 012/101] fix: apply fee updates to the stored market instead
 of overwriting it

---
 internal/core/application/operator_service.go | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6e9192..695a699 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -371,7 +371,7 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	mkt, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
+	_, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
 	)
@@ -382,15 +382,16 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
-		return nil, err
-	}
-
+	var mkt *domain.Market
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
@@ -427,7 +428,7 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	mkt, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
+	_, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
 	)
@@ -438,15 +439,16 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
-		return nil, err
-	}
-
+	var mkt *domain.Market
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
-- 
2.43.0


From 1a67747f474f8a43e7665930d0dc792bf248de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 013/101] fix: never fund two markets with the same quote asset

---
 internal/core/application/errors.go           |  2 ++
 internal/core/application/operator_service.go | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/internal/core/application/errors.go b/internal/core/application/errors.go
index a6defee..445df0a 100644
--- a/internal/core/application/errors.go
+++ b/internal/core/application/errors.go
@@ -11,6 +11,8 @@ var (
 	ErrTxNotConfirmed = errors.New("transaction not confirmed")
 	// ErrMarketNotExist ...
 	ErrMarketNotExist = errors.New("market does not exists")
+	// ErrMarketAlreadyExist ...
+	ErrMarketAlreadyExist = errors.New("market already exists for the given assets")
 	// ErrMarketNotFunded ...
 	ErrMarketNotFunded = errors.New("market account not funded")
 	// ErrMissingNonFundedMarkets ...
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 695a699..66cd190 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1235,6 +1235,22 @@ func (o *operatorService) fundMarket(
 		})
 	}
 
+	// There can be only one market per quote asset.
+	for _, u := range unspents {
+		if u.AssetHash == o.marketBaseAsset {
+			continue
+		}
+		market, _, err := o.repoManager.MarketRepository().GetMarketByAsset(
+			context.Background(), u.AssetHash,
+		)
+		if err != nil {
+			return err
+		}
+		if market != nil && market.AccountIndex != accountIndex {
+			return ErrMarketAlreadyExist
+		}
+	}
+
 	// Update the market trying to funding attaching the newly found quote asset.
 	return o.repoManager.MarketRepository().UpdateMarket(
 		context.Background(),
-- 
2.43.0


From 9295240d4f122e105f2237b6d691119bfc4c9300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 014/101] fix: read and update records of the persistent
 storage in one transaction

---
 .../storage/db/badger/db_manager.go           |  28 +++++
 .../db/badger/market_repository_impl.go       | 110 +++++++++---------
 .../db/badger/trade_repository_impl.go        |  34 +++---
 .../db/badger/unspent_repository_impl.go      | 101 +++++++++-------
 .../db/badger/vault_repository_impl.go        |  26 +++--
 5 files changed, 171 insertions(+), 128 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 1bf012d..2578284 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -199,6 +199,34 @@ func (d *repoManager) runTransaction(
 	}
 }
 
+// atomically invokes the given handler within the transaction carried by the
+// context under the given key, if any. Otherwise, it makes a new one on the
+// given store and invokes the handler again in case of conflicts, so that
+// whatever the handler reads doesn't change until its writes are committed.
+func atomically(
+	ctx context.Context,
+	store *badgerhold.Store,
+	txKey string,
+	handler func(ctx context.Context) error,
+) error {
+	if ctx.Value(txKey) != nil {
+		return handler(ctx)
+	}
+
+	for {
+		tx := store.Badger().NewTransaction(true)
+		err := handler(context.WithValue(ctx, txKey, tx))
+		if err == nil {
+			err = tx.Commit()
+		}
+		tx.Discard()
+		if err != nil && isTransactionConflict(err) {
+			continue
+		}
+		return err
+	}
+}
+
 // isTransactionConflict returns wheter the error occured when commiting a
 // transacton is a conflict
 func isTransactionConflict(err error) bool {
diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index 764df79..bdcd1c9 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -99,83 +99,89 @@ func (m marketRepositoryImpl) UpdateMarket(
 	accountIndex int,
 	updateFn func(m *domain.Market) (*domain.Market, error),
 ) error {
-	currentMarket, err := m.getMarket(ctx, accountIndex)
-	if err != nil {
-		return err
-	}
-	if currentMarket == nil {
-		return ErrMarketNotFound
-	}
-
-	currentPrice := currentMarket.Price
+	return atomically(ctx, m.store, "tx", func(ctx context.Context) error {
+		currentMarket, err := m.getMarket(ctx, accountIndex)
+		if err != nil {
+			return err
+		}
+		if currentMarket == nil {
+			return ErrMarketNotFound
+		}
 
-	updatedMarket, err := updateFn(currentMarket)
-	if err != nil {
-		return err
-	}
+		currentPrice := currentMarket.Price
 
-	// the prices live in their own store, they're written only if changed
-	if !arePricesEqual(currentPrice, updatedMarket.Price) {
-		if err := m.updatePriceByAccountIndex(
-			ctx, accountIndex, updatedMarket.Price,
-		); err != nil {
+		updatedMarket, err := updateFn(currentMarket)
+		if err != nil {
 			return err
 		}
-	}
 
-	return m.updateMarket(ctx, accountIndex, *updatedMarket)
+		// the prices live in their own store, they're written only if changed
+		if !arePricesEqual(currentPrice, updatedMarket.Price) {
+			if err := m.updatePriceByAccountIndex(
+				ctx, accountIndex, updatedMarket.Price,
+			); err != nil {
+				return err
+			}
+		}
+
+		return m.updateMarket(ctx, accountIndex, *updatedMarket)
+	})
 }
 
 func (m marketRepositoryImpl) OpenMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
-	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
-	markets, err := m.findMarkets(ctx, query)
-	if err != nil {
-		return err
-	}
+	return atomically(ctx, m.store, "tx", func(ctx context.Context) error {
+		query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
+		markets, err := m.findMarkets(ctx, query)
+		if err != nil {
+			return err
+		}
 
-	if len(markets) <= 0 {
-		return ErrMarketNotFound
-	}
+		if len(markets) <= 0 {
+			return ErrMarketNotFound
+		}
 
-	market := markets[0]
-	if market.IsTradable() {
-		return nil
-	}
+		market := markets[0]
+		if market.IsTradable() {
+			return nil
+		}
 
-	if err := market.MakeTradable(); err != nil {
-		return err
-	}
+		if err := market.MakeTradable(); err != nil {
+			return err
+		}
 
-	return m.updateMarket(ctx, market.AccountIndex, market)
+		return m.updateMarket(ctx, market.AccountIndex, market)
+	})
 }
 
 func (m marketRepositoryImpl) CloseMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
-	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
-	markets, err := m.findMarkets(ctx, query)
-	if err != nil {
-		return err
-	}
+	return atomically(ctx, m.store, "tx", func(ctx context.Context) error {
+		query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
+		markets, err := m.findMarkets(ctx, query)
+		if err != nil {
+			return err
+		}
 
-	if len(markets) <= 0 {
-		return ErrMarketNotFound
-	}
+		if len(markets) <= 0 {
+			return ErrMarketNotFound
+		}
 
-	market := markets[0]
-	if !market.IsTradable() {
-		return nil
-	}
+		market := markets[0]
+		if !market.IsTradable() {
+			return nil
+		}
 
-	if err := market.MakeNotTradable(); err != nil {
-		return err
-	}
+		if err := market.MakeNotTradable(); err != nil {
+			return err
+		}
 
-	return m.updateMarket(ctx, market.AccountIndex, market)
+		return m.updateMarket(ctx, market.AccountIndex, market)
+	})
 }
 
 func (m marketRepositoryImpl) UpdatePrices(ctx context.Context, accountIndex int, prices domain.Prices) error {
diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index 3ecd5fd..e58bf45 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -101,31 +101,23 @@ func (t tradeRepositoryImpl) UpdateTrade(
 		return ErrTradeNotFound
 	}
 
-	txIsNotGiven := ctx.Value("tx") == nil
-
-	currentTrade, err := t.getTrade(ctx, *ID)
-	if err != nil {
-		return err
-	}
-
-	if currentTrade == nil {
-		return ErrTradeNotFound
-	}
+	return atomically(ctx, t.store, "tx", func(ctx context.Context) error {
+		currentTrade, err := t.getTrade(ctx, *ID)
+		if err != nil {
+			return err
+		}
 
-	updatedTrade, err := updateFn(currentTrade)
-	if err != nil {
-		return err
-	}
+		if currentTrade == nil {
+			return ErrTradeNotFound
+		}
 
-	for {
-		err := t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+		updatedTrade, err := updateFn(currentTrade)
 		if err != nil {
-			if txIsNotGiven && isTransactionConflict(err) {
-				continue
-			}
+			return err
 		}
-		return err
-	}
+
+		return t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+	})
 }
 
 func (t tradeRepositoryImpl) getOrCreateTrade(
diff --git a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
index edf8c57..4fb6467 100644
--- a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
@@ -218,24 +218,29 @@ func (u unspentRepositoryImpl) spendUnspents(
 func (u unspentRepositoryImpl) spendUnspent(
 	ctx context.Context,
 	key domain.UnspentKey,
-) (bool, error) {
-	unspent, err := u.getUnspent(ctx, key)
-	if err != nil {
-		return false, err
-	}
+) (done bool, err error) {
+	err = atomically(ctx, u.store, "utx", func(ctx context.Context) error {
+		done = false
+		unspent, err := u.getUnspent(ctx, key)
+		if err != nil {
+			return err
+		}
 
-	if unspent == nil || unspent.IsSpent() {
-		return false, nil
-	}
+		if unspent == nil || unspent.IsSpent() {
+			return nil
+		}
 
-	unspent.Spend()
-	unspent.Unlock() // prevent conflict, locks not stored under unspent prefix
+		unspent.Spend()
+		unspent.Unlock() // prevent conflict, locks not stored under unspent prefix
 
-	if err := u.updateUnspent(ctx, key, *unspent); err != nil {
-		return false, err
-	}
+		if err := u.updateUnspent(ctx, key, *unspent); err != nil {
+			return err
+		}
 
-	return true, nil
+		done = true
+		return nil
+	})
+	return done && err == nil, err
 }
 
 func (u unspentRepositoryImpl) confirmUnspents(
@@ -258,24 +263,29 @@ func (u unspentRepositoryImpl) confirmUnspents(
 func (u unspentRepositoryImpl) confirmUnspent(
 	ctx context.Context,
 	key domain.UnspentKey,
-) (bool, error) {
-	unspent, err := u.getUnspent(ctx, key)
-	if err != nil {
-		return false, err
-	}
+) (done bool, err error) {
+	err = atomically(ctx, u.store, "utx", func(ctx context.Context) error {
+		done = false
+		unspent, err := u.getUnspent(ctx, key)
+		if err != nil {
+			return err
+		}
 
-	if unspent == nil || unspent.IsConfirmed() {
-		return false, nil
-	}
+		if unspent == nil || unspent.IsConfirmed() {
+			return nil
+		}
 
-	unspent.Confirm()
-	unspent.Unlock() // prevent conflict, locks not stored under unspent prefix
+		unspent.Confirm()
+		unspent.Unlock() // prevent conflict, locks not stored under unspent prefix
 
-	if err := u.updateUnspent(ctx, key, *unspent); err != nil {
-		return false, err
-	}
+		if err := u.updateUnspent(ctx, key, *unspent); err != nil {
+			return err
+		}
 
-	return true, nil
+		done = true
+		return nil
+	})
+	return done && err == nil, err
 }
 
 func (u unspentRepositoryImpl) lockUnspents(
@@ -300,25 +310,30 @@ func (u unspentRepositoryImpl) lockUnspent(
 	ctx context.Context,
 	key domain.UnspentKey,
 	tradeID uuid.UUID,
-) (bool, error) {
-	unspent, err := u.getUnspent(ctx, key)
-	if err != nil {
-		return false, err
-	}
+) (done bool, err error) {
+	err = atomically(ctx, u.lockStore, "tx", func(ctx context.Context) error {
+		done = false
+		unspent, err := u.getUnspent(ctx, key)
+		if err != nil {
+			return err
+		}
 
-	if unspent == nil {
-		return false, nil
-	}
+		if unspent == nil {
+			return nil
+		}
 
-	if unspent.IsLocked() {
-		return false, nil
-	}
+		if unspent.IsLocked() {
+			return nil
+		}
 
-	if err := u.insertLock(ctx, key, tradeID); err != nil {
-		return false, err
-	}
+		if err := u.insertLock(ctx, key, tradeID); err != nil {
+			return err
+		}
 
-	return true, nil
+		done = true
+		return nil
+	})
+	return done && err == nil, err
 }
 
 func (u unspentRepositoryImpl) unlockUnspents(
diff --git a/internal/infrastructure/storage/db/badger/vault_repository_impl.go b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
index 39611a4..b3105ed 100644
--- a/internal/infrastructure/storage/db/badger/vault_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
@@ -37,20 +37,22 @@ func (v vaultRepositoryImpl) UpdateVault(
 	ctx context.Context,
 	updateFn func(v *domain.Vault) (*domain.Vault, error),
 ) error {
-	vault, err := v.getVault(ctx)
-	if err != nil {
-		return err
-	}
-	if vault == nil {
-		return ErrVaultNotFound
-	}
+	return atomically(ctx, v.store, "tx", func(ctx context.Context) error {
+		vault, err := v.getVault(ctx)
+		if err != nil {
+			return err
+		}
+		if vault == nil {
+			return ErrVaultNotFound
+		}
 
-	updatedVault, err := updateFn(vault)
-	if err != nil {
-		return err
-	}
+		updatedVault, err := updateFn(vault)
+		if err != nil {
+			return err
+		}
 
-	return v.updateVault(ctx, *updatedVault)
+		return v.updateVault(ctx, *updatedVault)
+	})
 }
 
 func (v vaultRepositoryImpl) GetAccountByIndex(
-- 
2.43.0


From a02e9983bec651f1f152d682c3b6dd12f27c56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 015/101] fix: let funded markets receive further deposits of
 any asset

---
 internal/core/application/operator_service.go | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 66cd190..90be160 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1235,19 +1235,28 @@ func (o *operatorService) fundMarket(
 		})
 	}
 
-	// There can be only one market per quote asset.
-	for _, u := range unspents {
-		if u.AssetHash == o.marketBaseAsset {
-			continue
-		}
-		market, _, err := o.repoManager.MarketRepository().GetMarketByAsset(
-			context.Background(), u.AssetHash,
-		)
-		if err != nil {
-			return err
-		}
-		if market != nil && market.AccountIndex != accountIndex {
-			return ErrMarketAlreadyExist
+	// There can be only one market per quote asset: a market that is not funded
+	// yet cannot take the quote asset of another one.
+	market, err := o.repoManager.MarketRepository().GetMarketByAccount(
+		context.Background(), accountIndex,
+	)
+	if err != nil {
+		return err
+	}
+	if market != nil && !market.IsFunded() {
+		for _, u := range unspents {
+			if u.AssetHash == o.marketBaseAsset {
+				continue
+			}
+			m, _, err := o.repoManager.MarketRepository().GetMarketByAsset(
+				context.Background(), u.AssetHash,
+			)
+			if err != nil {
+				return err
+			}
+			if m != nil {
+				return ErrMarketAlreadyExist
+			}
 		}
 	}
 
-- 
2.43.0


From 7c21508f3f55975f121bc6b3b3c48a5ad6a5d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 016/101] fix: unlock the stored wallet instead of overwriting
 it with the one read before

---
 internal/core/application/wallet_service.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 27e69d5..a598dba 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -299,14 +299,13 @@ func (w *walletService) UnlockWallet(
 		return nil
 	}
 
-	if err := vault.Unlock(passphrase); err != nil {
-		return err
-	}
-
 	if err := w.repoManager.VaultRepository().UpdateVault(
 		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
+		func(v *domain.Vault) (*domain.Vault, error) {
+			if err := v.Unlock(passphrase); err != nil {
+				return nil, err
+			}
+			return v, nil
 		},
 	); err != nil {
 		return err
-- 
2.43.0


From 8dc2432952751e71dd8e4087da611a74604f360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 017/101] fix: run one at a time the operations that choose
 coins or derive addresses and persist their changes before answering

---
 internal/core/application/locks.go            | 23 ++++++
 internal/core/application/operator_service.go | 77 ++++++++++---------
 internal/core/application/wallet_service.go   | 22 ++++--
 3 files changed, 81 insertions(+), 41 deletions(-)
 create mode 100644 internal/core/application/locks.go

diff --git a/internal/core/application/locks.go b/internal/core/application/locks.go
new file mode 100644
index 0000000..a32c856
--- /dev/null
+++ b/internal/core/application/locks.go
@@ -0,0 +1,23 @@
+package application
+
+import (
+	"sync"
+
+	"github.com/google/uuid"
+)
+
+// walletMtx must be held by the operations that choose the unspents to use
+// among the available ones or that change the vault, until these are
+// respectively reserved and persisted.
+var walletMtx sync.Mutex
+
+// tradeLocks holds a lock for every trade.
+var tradeLocks sync.Map
+
+// lockTrade must be used by the operations that decide the outcome of an
+// accepted trade. It returns the function that releases the lock.
+func lockTrade(id uuid.UUID) func() {
+	mtx, _ := tradeLocks.LoadOrStore(id, &sync.Mutex{})
+	mtx.(*sync.Mutex).Lock()
+	return mtx.(*sync.Mutex).Unlock
+}
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 90be160..e8e444e 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -137,6 +137,9 @@ func (o *operatorService) DepositMarket(
 	quoteAsset string,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
+	walletMtx.Lock()
+	defer walletMtx.Unlock()
+
 	var accountIndex int
 
 	// First case: the assets are given. If are valid and a market exist we need to derive a new address for that account.
@@ -198,33 +201,31 @@ func (o *operatorService) DepositMarket(
 		}
 	}
 
-	go func() {
-		if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
-			// this makes sure that the market is created if it needs to. Otherwise,
-			// this does not commit any change to the marekt repo.
-			if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
-				ctx,
-				&domain.Market{
-					AccountIndex: accountIndex,
-					Fee:          o.marketFee,
-				},
-			); err != nil {
-				return nil, err
-			}
-
-			if err := o.repoManager.VaultRepository().UpdateVault(
-				ctx,
-				func(_ *domain.Vault) (*domain.Vault, error) {
-					return vault, nil
-				}); err != nil {
-				return nil, err
-			}
+	if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
+		// this makes sure that the market is created if it needs to. Otherwise,
+		// this does not commit any change to the marekt repo.
+		if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
+			ctx,
+			&domain.Market{
+				AccountIndex: accountIndex,
+				Fee:          o.marketFee,
+			},
+		); err != nil {
+			return nil, err
+		}
 
-			return nil, nil
-		}); err != nil {
-			log.WithError(err).Warn("unable to persist changes")
+		if err := o.repoManager.VaultRepository().UpdateVault(
+			ctx,
+			func(_ *domain.Vault) (*domain.Vault, error) {
+				return vault, nil
+			}); err != nil {
+			return nil, err
 		}
-	}()
+
+		return nil, nil
+	}); err != nil {
+		return nil, err
+	}
 
 	return list, nil
 }
@@ -237,6 +238,9 @@ func (o *operatorService) DepositFeeAccount(
 		numOfAddresses = 1
 	}
 
+	walletMtx.Lock()
+	defer walletMtx.Unlock()
+
 	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		return nil, err
@@ -255,16 +259,14 @@ func (o *operatorService) DepositFeeAccount(
 		}
 	}
 
-	go func() {
-		if err := o.repoManager.VaultRepository().UpdateVault(
-			ctx,
-			func(_ *domain.Vault) (*domain.Vault, error) {
-				return vault, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to update vault")
-		}
-	}()
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(_ *domain.Vault) (*domain.Vault, error) {
+			return vault, nil
+		},
+	); err != nil {
+		return nil, err
+	}
 
 	return list, nil
 }
@@ -724,6 +726,9 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, ErrMarketNotExist
 	}
 
+	walletMtx.Lock()
+	defer walletMtx.Unlock()
+
 	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		return nil, err
@@ -855,7 +860,7 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
-	go extractUnspentsFromTxAndUpdateUtxoSet(
+	extractUnspentsFromTxAndUpdateUtxoSet(
 		o.repoManager.UnspentRepository(),
 		o.repoManager.VaultRepository(),
 		o.network,
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index a598dba..6bf3aad 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -299,7 +299,8 @@ func (w *walletService) UnlockWallet(
 		return nil
 	}
 
-	if err := w.repoManager.VaultRepository().UpdateVault(
+	walletMtx.Lock()
+	err = w.repoManager.VaultRepository().UpdateVault(
 		ctx,
 		func(v *domain.Vault) (*domain.Vault, error) {
 			if err := v.Unlock(passphrase); err != nil {
@@ -307,7 +308,9 @@ func (w *walletService) UnlockWallet(
 			}
 			return v, nil
 		},
-	); err != nil {
+	)
+	walletMtx.Unlock()
+	if err != nil {
 		return err
 	}
 
@@ -357,7 +360,8 @@ func (w *walletService) ChangePassword(
 		return ErrWalletNotInitialized
 	}
 
-	if err := w.repoManager.VaultRepository().UpdateVault(
+	walletMtx.Lock()
+	err := w.repoManager.VaultRepository().UpdateVault(
 		ctx,
 		func(v *domain.Vault) (*domain.Vault, error) {
 			err := v.ChangePassphrase(currentPassphrase, newPassphrase)
@@ -366,7 +370,9 @@ func (w *walletService) ChangePassword(
 			}
 			return v, nil
 		},
-	); err != nil {
+	)
+	walletMtx.Unlock()
+	if err != nil {
 		return err
 	}
 
@@ -405,6 +411,9 @@ func (w *walletService) GenerateAddressAndBlindingKey(
 		return "", "", ErrWalletNotInitialized
 	}
 
+	walletMtx.Lock()
+	defer walletMtx.Unlock()
+
 	err = w.repoManager.VaultRepository().UpdateVault(
 		ctx,
 		func(v *domain.Vault) (*domain.Vault, error) {
@@ -477,6 +486,9 @@ func (w *walletService) SendToMany(
 		return nil, err
 	}
 
+	walletMtx.Lock()
+	defer walletMtx.Unlock()
+
 	walletUnspents, err := w.getAllUnspentsForAccount(ctx, domain.WalletAccount, true)
 	if err != nil {
 		return nil, err
@@ -563,7 +575,7 @@ func (w *walletService) SendToMany(
 		return nil, err
 	}
 
-	go extractUnspentsFromTxAndUpdateUtxoSet(
+	extractUnspentsFromTxAndUpdateUtxoSet(
 		w.repoManager.UnspentRepository(),
 		w.repoManager.VaultRepository(),
 		w.network,
-- 
2.43.0


From 8904f4549c2b778635c971a8cadf1c3cf3f88b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 018/101] fix: never end a trade twice nor release coins of
 another or of a completed trade

---
 .../core/application/blockchain_listener.go   |   3 +
 internal/core/application/trade_service.go    | 220 ++++++++++++------
 2 files changed, 158 insertions(+), 65 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 3ab7652..05ab57a 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -268,6 +268,9 @@ func (b *blockchainListener) startPendingObservables() {
 }
 
 func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
+	unlock := lockTrade(*tradeID)
+	defer unlock()
+
 	if err := b.repoManager.TradeRepository().UpdateTrade(
 		context.Background(),
 		tradeID,
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 34ab5c7..675bd24 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"time"
 
+	"github.com/google/uuid"
 	"github.com/shopspring/decimal"
 	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
@@ -276,6 +277,9 @@ func (t *tradeService) TradePropose(
 		return nil, nil, 0, domain.ErrMarketInvalidQuoteAsset
 	}
 
+	walletMtx.Lock()
+	defer walletMtx.Unlock()
+
 	vault, err := t.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		log.Debugf("error while retrieving vault: %s", err)
@@ -404,15 +408,20 @@ end:
 	var selectedUnspentKeys []domain.UnspentKey
 
 	if swapAccept != nil {
-		log.Infof("trade with id %s accepted", trade.ID)
-
 		selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
-		lockedUnspents, _ := t.repoManager.UnspentRepository().LockUnspents(
-			ctx,
-			selectedUnspentKeys,
-			trade.ID,
-		)
-		log.Debugf("locked %d unspents", lockedUnspents)
+		if err := t.commitTrade(trade, vault, selectedUnspentKeys); err != nil {
+			log.WithError(err).Warnf("unable to accept trade with id %s", trade.ID)
+			trade.Fail(
+				swapRequest.GetId(),
+				int(pkgswap.ErrCodeRejectedSwapRequest),
+				err.Error(),
+			)
+			swapAccept, swapFail, swapExpiryTime = nil, trade.SwapFailMessage(), 0
+		}
+	}
+
+	if swapAccept != nil {
+		log.Infof("trade with id %s accepted", trade.ID)
 
 		// set timer for trade expiration
 		go func() {
@@ -420,43 +429,68 @@ end:
 			time.Sleep(t.expiryDuration + time.Minute)
 			t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
 		}()
+		go t.blockchainListener.StartObserveTx(trade.TxID)
 	} else {
 		log.WithField("reason", swapFail.GetFailureMessage()).Infof("trade with id %s rejected", trade.ID)
+
+		go func() {
+			if err := t.storeTrade(trade, nil); err != nil {
+				log.WithError(err).Warn("unable to persist changes after trade is rejected")
+			}
+		}()
 	}
 
-	go func() {
-		if _, err := t.repoManager.RunTransaction(
-			context.Background(),
-			false,
-			func(ctx context.Context) (interface{}, error) {
-				if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
-					return nil, err
-				}
-				if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
-					return trade, nil
-				}); err != nil {
-					return nil, err
-				}
+	return swapAccept, swapFail, swapExpiryTime, nil
+}
 
-				if swapAccept != nil {
-					if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
-						return vault, nil
-					}); err != nil {
-						return nil, err
-					}
-				}
-				return nil, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to persist changes after trade is accepted")
-		}
+// commitTrade persists an accepted trade along with the addresses derived for
+// it, and reserves all of its unspents.
+func (t *tradeService) commitTrade(
+	trade *domain.Trade,
+	vault *domain.Vault,
+	unspentKeys []domain.UnspentKey,
+) error {
+	if err := t.storeTrade(trade, vault); err != nil {
+		return err
+	}
 
-		if swapAccept != nil {
-			t.blockchainListener.StartObserveTx(trade.TxID)
-		}
-	}()
+	count, err := t.repoManager.UnspentRepository().LockUnspents(
+		context.Background(),
+		unspentKeys,
+		trade.ID,
+	)
+	if err != nil {
+		t.unlockUnspents(trade.ID, unspentKeys)
+		return err
+	}
+	log.Debugf("locked %d unspents", count)
+	return nil
+}
 
-	return swapAccept, swapFail, swapExpiryTime, nil
+// storeTrade persists the trade and, if given, the vault.
+func (t *tradeService) storeTrade(trade *domain.Trade, vault *domain.Vault) error {
+	_, err := t.repoManager.RunTransaction(
+		context.Background(),
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
+				return nil, err
+			}
+			if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
+				return trade, nil
+			}); err != nil {
+				return nil, err
+			}
+
+			if vault != nil {
+				return nil, t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
+					return vault, nil
+				})
+			}
+			return nil, nil
+		},
+	)
+	return err
 }
 
 // TradeComplete is the domain controller for the TradeComplete RPC
@@ -490,6 +524,15 @@ func (t *tradeService) tradeComplete(
 		return
 	}
 
+	// the outcome of the trade can't change while the tx is being broadcasted.
+	unlock := lockTrade(trade.ID)
+	defer unlock()
+
+	trade, err = t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID)
+	if err != nil {
+		return
+	}
+
 	tx := swapComplete.GetTransaction()
 
 	// here we manipulate the trade to reach the Complete status
@@ -515,19 +558,20 @@ func (t *tradeService) tradeComplete(
 	txID = res.TxID
 	log.Infof("trade with id %s broadcasted: %s", trade.ID, txID)
 
+	if err := t.repoManager.TradeRepository().UpdateTrade(
+		ctx,
+		&trade.ID,
+		func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
+	); err != nil {
+		log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
+	}
+
 	// we make sure that any problem happening at this point
 	// is not influencing the trade therefore we run as goroutine
 	// this method will take care to retry to handle potential
 	// datastore conflicts (if any) at repository level
 	go func() {
-		if err := t.repoManager.TradeRepository().UpdateTrade(
-			ctx,
-			&trade.ID,
-			func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
-		); err != nil {
-			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
-		}
-
+		ctx := context.Background()
 		_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(
 			ctx,
 			trade.MarketQuoteAsset,
@@ -554,24 +598,37 @@ func (t *tradeService) tradeFail(
 		return nil, err
 	}
 
-	tradeID := trade.ID
+	if trade == nil {
+		return nil, fmt.Errorf("trade with swap id %s not found", swapID)
+	}
+
+	unlock := lockTrade(trade.ID)
+	defer unlock()
+
+	// only a trade that is waiting to be completed can be aborted.
+	aborted := false
 	if err := t.repoManager.TradeRepository().UpdateTrade(
 		ctx,
-		&tradeID,
+		&trade.ID,
 		func(trade *domain.Trade) (*domain.Trade, error) {
-			trade.Fail(
-				swapID,
-				int(pkgswap.ErrCodeFailedToComplete),
-				"set failed by counter-party",
-			)
+			aborted = trade.IsAccepted() && !trade.IsRejected()
+			if aborted {
+				trade.Fail(
+					swapID,
+					int(pkgswap.ErrCodeFailedToComplete),
+					"set failed by counter-party",
+				)
+			}
 			return trade, nil
 		},
 	); err != nil {
 		return nil, err
 	}
 
-	go t.unlockUnspentsForTrade(trade)
-	go t.blockchainListener.StopObserveTx(trade.TxID)
+	if aborted {
+		t.unlockUnspentsForTrade(trade)
+		go t.blockchainListener.StopObserveTx(trade.TxID)
+	}
 
 	return swapFail, nil
 }
@@ -609,19 +666,39 @@ func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 		}
 	}
 
-	count, err := t.repoManager.UnspentRepository().UnlockUnspents(
-		context.Background(),
-		unspentKeys,
-	)
-	if err != nil {
+	if err := t.unlockUnspents(trade.ID, unspentKeys); err != nil {
 		log.Warnf(
 			"unable to unlock unspents for trade with id %s. You must run "+
 				"ReloadUtxo RPC as soon as possible to restore the utxo set of the "+
 				"internal wallet. Error: %v", trade.ID, err,
 		)
 	}
+}
+
+// unlockUnspents unlocks those of the given unspents that are locked by the
+// given trade.
+func (t *tradeService) unlockUnspents(
+	tradeID uuid.UUID,
+	unspentKeys []domain.UnspentKey,
+) error {
+	ctx := context.Background()
+	keys := make([]domain.UnspentKey, 0, len(unspentKeys))
+	for _, key := range unspentKeys {
+		unspent, err := t.repoManager.UnspentRepository().GetUnspentWithKey(ctx, key)
+		if err != nil {
+			return err
+		}
+		if unspent != nil && unspent.IsLocked() && *unspent.LockedBy == tradeID {
+			keys = append(keys, key)
+		}
+	}
 
+	count, err := t.repoManager.UnspentRepository().UnlockUnspents(ctx, keys)
+	if err != nil {
+		return err
+	}
 	log.Debugf("unlocked %d unspents", count)
+	return nil
 }
 
 func (t *tradeService) checkTradeExpiration(
@@ -632,13 +709,27 @@ func (t *tradeService) checkTradeExpiration(
 
 	// if the trade is expired it's required to unlock the unspents used as input
 	// and to bring the trade to failed status
-	trade, _ := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	trade, err := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	if err != nil || trade == nil {
+		log.WithError(err).Warnf("unable to find trade with tx id %s", tradeTxID)
+		return
+	}
 
-	if trade.IsExpired() {
+	unlock := lockTrade(trade.ID)
+	defer unlock()
+
+	trade, err = t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	if err != nil || trade == nil {
+		log.WithError(err).Warnf("unable to find trade with tx id %s", tradeTxID)
+		return
+	}
+
+	// the unspents of a completed trade are spent, while those of a failed one
+	// have been unlocked already.
+	if trade.IsAccepted() && !trade.IsRejected() && trade.IsExpired() {
 		t.blockchainListener.StopObserveTx(trade.TxID)
 
-		count, err := t.repoManager.UnspentRepository().UnlockUnspents(ctx, selectedUnspentKeys)
-		if err != nil {
+		if err := t.unlockUnspents(trade.ID, selectedUnspentKeys); err != nil {
 			log.WithError(err).Warnf(
 				"trade with id %s has expired but an error occured while "+
 					"unlocking its unspents. You must run ReloadUtxo RPC as soon as "+
@@ -647,7 +738,6 @@ func (t *tradeService) checkTradeExpiration(
 			)
 			return
 		}
-		log.Debugf("unlocked %d unspents", count)
 
 		if err := t.repoManager.TradeRepository().UpdateTrade(
 			ctx,
-- 
2.43.0


From 8e9850377eac8a3f1157a3f9c145b7d41407badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 019/101] fix: resume expiration timers and observation of open
 trades after a restart

---
 internal/core/application/trade_service.go | 72 +++++++++++++++++-----
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 675bd24..a27dea2 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -66,7 +66,7 @@ func NewTradeService(
 	priceSlippage decimal.Decimal,
 	net *network.Network,
 ) TradeService {
-	return newTradeService(
+	tradeSvc := newTradeService(
 		repoManager,
 		explorerSvc,
 		bcListener,
@@ -75,6 +75,8 @@ func NewTradeService(
 		priceSlippage,
 		net,
 	)
+	tradeSvc.resumeTrades()
+	return tradeSvc
 }
 
 func newTradeService(
@@ -424,11 +426,7 @@ end:
 		log.Infof("trade with id %s accepted", trade.ID)
 
 		// set timer for trade expiration
-		go func() {
-			// admit a tollerance of 1 minute past the expiration time.
-			time.Sleep(t.expiryDuration + time.Minute)
-			t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
-		}()
+		go t.waitTradeExpiration(trade.TxID, t.expiryDuration, selectedUnspentKeys)
 		go t.blockchainListener.StartObserveTx(trade.TxID)
 	} else {
 		log.WithField("reason", swapFail.GetFailureMessage()).Infof("trade with id %s rejected", trade.ID)
@@ -655,16 +653,7 @@ func (t *tradeService) getInfoAndUnspentsForAccount(
 }
 
 func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
-	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
-	keyLen := len(p.Inputs)
-	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)
-
-	for i, in := range p.UnsignedTx.Inputs {
-		unspentKeys[i] = domain.UnspentKey{
-			TxID: bufferutil.TxIDFromBytes(in.Hash),
-			VOut: in.Index,
-		}
-	}
+	unspentKeys := getUnspentKeysFromTrade(trade)
 
 	if err := t.unlockUnspents(trade.ID, unspentKeys); err != nil {
 		log.Warnf(
@@ -701,6 +690,41 @@ func (t *tradeService) unlockUnspents(
 	return nil
 }
 
+// resumeTrades restores the expiration timer of the trades that were waiting to
+// be completed when the daemon stopped, and the observation of those not settled
+// yet.
+func (t *tradeService) resumeTrades() {
+	trades, err := t.repoManager.TradeRepository().GetAllTrades(context.Background())
+	if err != nil {
+		log.WithError(err).Warn("unable to resume pending trades")
+		return
+	}
+
+	for _, trade := range trades {
+		if trade.IsRejected() || !(trade.IsAccepted() || trade.IsCompleted()) {
+			continue
+		}
+		t.blockchainListener.StartObserveTx(trade.TxID)
+		if trade.IsAccepted() {
+			timeLeft := time.Until(time.Unix(int64(trade.ExpiryTime), 0))
+			if timeLeft < 0 {
+				timeLeft = 0
+			}
+			go t.waitTradeExpiration(trade.TxID, timeLeft, getUnspentKeysFromTrade(trade))
+		}
+	}
+}
+
+func (t *tradeService) waitTradeExpiration(
+	tradeTxID string,
+	timeLeft time.Duration,
+	selectedUnspentKeys []domain.UnspentKey,
+) {
+	// admit a tollerance of 1 minute past the expiration time.
+	time.Sleep(timeLeft + time.Minute)
+	t.checkTradeExpiration(tradeTxID, selectedUnspentKeys)
+}
+
 func (t *tradeService) checkTradeExpiration(
 	tradeTxID string,
 	selectedUnspentKeys []domain.UnspentKey,
@@ -757,6 +781,22 @@ func (t *tradeService) checkTradeExpiration(
 	}
 }
 
+func getUnspentKeysFromTrade(trade *domain.Trade) []domain.UnspentKey {
+	p, err := pset.NewPsetFromBase64(trade.PsetBase64)
+	if err != nil {
+		return nil
+	}
+
+	unspentKeys := make([]domain.UnspentKey, 0, len(p.Inputs))
+	for _, in := range p.UnsignedTx.Inputs {
+		unspentKeys = append(unspentKeys, domain.UnspentKey{
+			TxID: bufferutil.TxIDFromBytes(in.Hash),
+			VOut: in.Index,
+		})
+	}
+	return unspentKeys
+}
+
 func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{
 		SigningMnemonic: opts.Mnemonic,
-- 
2.43.0


From d12d04ef76d68b8a134f2ebc069c9c781bd4e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 020/101] fix: update the utxo set of a completed or settled
 trade before another event of the same trade is handled

---
 .../core/application/blockchain_listener.go   | 35 +++++++++++--------
 internal/core/application/trade_service.go    | 32 ++++++++---------
 2 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 05ab57a..4812b9d 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -171,14 +171,10 @@ func (b *blockchainListener) listenToEventChannel() {
 				break
 			}
 
-			if err := b.settleTrade(&trade.ID, e); err != nil {
+			if err := b.settleTradeAndUpdateUtxoSet(trade, e); err != nil {
 				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
 				break
 			}
-			if err := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset); err != nil {
-				log.Warnf("trying to confirm or add unspents: %v", err)
-				break
-			}
 
 			// Publish message for topic TradeSettled to pubsub service.
 			if b.pubsubSvc != nil {
@@ -267,10 +263,21 @@ func (b *blockchainListener) startPendingObservables() {
 	b.pendingObservables = nil
 }
 
-func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
-	unlock := lockTrade(*tradeID)
+// settleTradeAndUpdateUtxoSet prevents the trade from being completed meanwhile.
+func (b *blockchainListener) settleTradeAndUpdateUtxoSet(
+	trade *domain.Trade,
+	event crawler.TransactionEvent,
+) error {
+	unlock := lockTrade(trade.ID)
 	defer unlock()
 
+	if err := b.settleTrade(&trade.ID, event); err != nil {
+		return err
+	}
+	return b.confirmOrAddUnspents(event.TxHex, event.TxID, trade.MarketQuoteAsset)
+}
+
+func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
 	if err := b.repoManager.TradeRepository().UpdateTrade(
 		context.Background(),
 		tradeID,
@@ -337,14 +344,12 @@ func (b *blockchainListener) confirmOrAddUnspents(
 		return nil
 	}
 
-	go func() {
-		// these unspents must be inserted already confirmed.
-		for i := range unspentsToAdd {
-			unspentsToAdd[i].Confirmed = true
-		}
-		addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
-		spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
-	}()
+	// these unspents must be inserted already confirmed.
+	for i := range unspentsToAdd {
+		unspentsToAdd[i].Confirmed = true
+	}
+	addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
+	spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
 
 	return nil
 }
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index a27dea2..fb7d374 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -564,24 +564,20 @@ func (t *tradeService) tradeComplete(
 		log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
 	}
 
-	// we make sure that any problem happening at this point
-	// is not influencing the trade therefore we run as goroutine
-	// this method will take care to retry to handle potential
-	// datastore conflicts (if any) at repository level
-	go func() {
-		ctx := context.Background()
-		_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(
-			ctx,
-			trade.MarketQuoteAsset,
-		)
-		extractUnspentsFromTxAndUpdateUtxoSet(
-			t.repoManager.UnspentRepository(),
-			t.repoManager.VaultRepository(),
-			t.network,
-			res.TxHex,
-			accountIndex,
-		)
-	}()
+	// any problem happening at this point must not influence the trade. The utxo
+	// set is updated before the trade's lock is released so that its settlement
+	// finds the outputs of the transaction to confirm.
+	_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(
+		ctx,
+		trade.MarketQuoteAsset,
+	)
+	extractUnspentsFromTxAndUpdateUtxoSet(
+		t.repoManager.UnspentRepository(),
+		t.repoManager.VaultRepository(),
+		t.network,
+		res.TxHex,
+		accountIndex,
+	)
 
 	return
 }
-- 
2.43.0


From 1485043fe92f5122d5aa82700c9aa2653a5e7d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 021/101] fix: refuse ciphertexts too short to be decrypted
 instead of panicking

---
 pkg/wallet/cypher.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/wallet/cypher.go b/pkg/wallet/cypher.go
index 4a21eb2..9c2ab8d 100644
--- a/pkg/wallet/cypher.go
+++ b/pkg/wallet/cypher.go
@@ -9,6 +9,13 @@ import (
 	"golang.org/x/crypto/scrypt"
 )
 
+const (
+	// saltSize is the size of the salt appended to a cyphertext
+	saltSize = 32
+	// nonceSize is the size of the nonce prepended to a cyphertext
+	nonceSize = 12
+)
+
 // EncryptOpts is the struct given to Encrypt method
 type EncryptOpts struct {
 	PlainText  string
@@ -65,7 +72,11 @@ func (o DecryptOpts) validate() error {
 	if len(o.CypherText) <= 0 {
 		return ErrNullCypherText
 	}
-	if _, err := base64.StdEncoding.DecodeString(o.CypherText); err != nil {
+	data, err := base64.StdEncoding.DecodeString(o.CypherText)
+	if err != nil {
+		return ErrInvalidCypherText
+	}
+	if len(data) < saltSize+nonceSize {
 		return ErrInvalidCypherText
 	}
 	if len(o.Passphrase) <= 0 {
@@ -81,7 +92,7 @@ func Decrypt(opts DecryptOpts) (string, error) {
 	}
 
 	data, _ := base64.StdEncoding.DecodeString(opts.CypherText)
-	salt, data := data[len(data)-32:], data[:len(data)-32]
+	salt, data := data[len(data)-saltSize:], data[:len(data)-saltSize]
 
 	key, _, err := DeriveKey([]byte(opts.Passphrase), salt)
 	if err != nil {
@@ -107,7 +118,7 @@ func Decrypt(opts DecryptOpts) (string, error) {
 // DeriveKey derives a 32 byte array key from a custom passhprase
 func DeriveKey(passphrase, salt []byte) ([]byte, []byte, error) {
 	if salt == nil {
-		salt = make([]byte, 32)
+		salt = make([]byte, saltSize)
 		if _, err := rand.Read(salt); err != nil {
 			return nil, nil, err
 		}
-- 
2.43.0


From 4cb9d26def47a1d77554545b326c13fb9132abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 022/101] fix: refuse to sign transactions with inputs that do
 not state what they spend

---
 pkg/wallet/sign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/wallet/sign.go b/pkg/wallet/sign.go
index 33d67f4..14fb5c5 100644
--- a/pkg/wallet/sign.go
+++ b/pkg/wallet/sign.go
@@ -42,6 +42,9 @@ func (o SignTransactionOpts) validate() error {
 	}
 
 	for i, in := range ptx.Inputs {
+		if in.WitnessUtxo == nil {
+			return ErrNullInputWitnessUtxo
+		}
 		script := in.WitnessUtxo.Script
 		_, ok := o.DerivationPathMap[hex.EncodeToString(script)]
 		if !ok {
-- 
2.43.0


From 7c49cee41c68b871a1cbbf51d3655f70dbe07e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 023/101] fix: refuse swap transactions with inputs that do not
 state what they spend instead of panicking

---
 pkg/swap/complete.go |  4 ++++
 pkg/swap/request.go  | 10 +++-------
 pkg/swap/swap.go     | 40 +++++++++++++++++++++++++++++++++++-----
 3 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 1888bcd..c9d4d45 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -76,6 +76,10 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 		return err
 	}
 
+	if err := setInputPrevouts(ptx); err != nil {
+		return err
+	}
+
 	swapRequest := opts.SwapRequest
 
 	totalP, err := countCumulativeAmount(ptx.Inputs, swapRequest.GetAssetP(), opts.InputBlindingKeys)
diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 9f40cd1..4d0f50b 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -7,7 +7,6 @@ import (
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
 	"github.com/vulpemventures/go-elements/pset"
-	"github.com/vulpemventures/go-elements/transaction"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -73,12 +72,9 @@ func checkTxAndBlindKeys(
 		if !in.IsSane() {
 			return fmt.Errorf("partial input %d is not sane", i)
 		}
-		var prevout *transaction.TxOutput
-		if in.WitnessUtxo != nil {
-			prevout = in.WitnessUtxo
-		} else {
-			txinIndex := ptx.UnsignedTx.Inputs[i].Index
-			prevout = in.NonWitnessUtxo.Outputs[txinIndex]
+		prevout, err := inputPrevout(ptx, i)
+		if err != nil {
+			return err
 		}
 		if checkInputKeys {
 			script := hex.EncodeToString(prevout.Script)
diff --git a/pkg/swap/swap.go b/pkg/swap/swap.go
index 7f94cb5..68a874c 100644
--- a/pkg/swap/swap.go
+++ b/pkg/swap/swap.go
@@ -3,6 +3,7 @@ package swap
 import (
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
@@ -17,11 +18,8 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 		return err
 	}
 
-	for index, input := range decodedFromRequest.Inputs {
-		if input.WitnessUtxo == nil && input.NonWitnessUtxo != nil {
-			inputVout := decodedFromRequest.UnsignedTx.Inputs[index].Index
-			decodedFromRequest.Inputs[index].WitnessUtxo = input.NonWitnessUtxo.Outputs[inputVout]
-		}
+	if err := setInputPrevouts(decodedFromRequest); err != nil {
+		return err
 	}
 
 	totalP, err := countCumulativeAmount(decodedFromRequest.Inputs, request.GetAssetP(), request.GetInputBlindingKey())
@@ -51,6 +49,10 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 			return err
 		}
 
+		if err := setInputPrevouts(decodedFromAccept); err != nil {
+			return err
+		}
+
 		if request.GetId() != accept.GetRequestId() {
 			return errors.New("id mismatch: SwapRequest.id and SwapAccept.request_id are not the same")
 		}
@@ -77,6 +79,34 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 	return nil
 }
 
+// inputPrevout returns the output spent by the input at the given index of the
+// partial transaction.
+func inputPrevout(ptx *pset.Pset, index int) (*transaction.TxOutput, error) {
+	in := ptx.Inputs[index]
+	if in.WitnessUtxo != nil {
+		return in.WitnessUtxo, nil
+	}
+
+	txinIndex := ptx.UnsignedTx.Inputs[index].Index
+	if in.NonWitnessUtxo == nil || int(txinIndex) >= len(in.NonWitnessUtxo.Outputs) {
+		return nil, fmt.Errorf("missing prevout for input %d", index)
+	}
+	return in.NonWitnessUtxo.Outputs[txinIndex], nil
+}
+
+// setInputPrevouts sets the witness utxo of every input of the partial
+// transaction defining the entire prevout transaction only.
+func setInputPrevouts(ptx *pset.Pset) error {
+	for i := range ptx.Inputs {
+		prevout, err := inputPrevout(ptx, i)
+		if err != nil {
+			return err
+		}
+		ptx.Inputs[i].WitnessUtxo = prevout
+	}
+	return nil
+}
+
 func outputFoundInTransaction(outputs []*transaction.TxOutput, value uint64, asset string, ouptutBlindKeys map[string][]byte) (bool, error) {
 	for _, output := range outputs {
 		// if confidential, unblind before check
-- 
2.43.0


From af72f403ec3a810c485aec032e33e5c229e00471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 024/101] fix: complete swaps only with the accepted
 transaction

---
 pkg/swap/complete.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index c9d4d45..6d44d91 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -26,6 +26,7 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		return "", nil, fmt.Errorf("unmarshal swap accept %w", err)
 	}
 
+	var tx *transaction.Transaction
 	if !isHex(complete.Transaction) {
 		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
 		if err != nil {
@@ -39,12 +40,22 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		if !ok {
 			return "", nil, fmt.Errorf("transaction contains invalid signatures")
 		}
+		tx = ptx.UnsignedTx
 	} else {
-		if _, err := transaction.NewTxFromHex(complete.Transaction); err != nil {
+		tx, err = transaction.NewTxFromHex(complete.Transaction)
+		if err != nil {
 			return "", nil, fmt.Errorf("transaction in hex format is invalid")
 		}
 	}
 
+	acceptedPtx, err := pset.NewPsetFromBase64(msgAccept.GetTransaction())
+	if err != nil {
+		return "", nil, fmt.Errorf("accepted transaction is invalid")
+	}
+	if unsignedTxHash(tx) != unsignedTxHash(acceptedPtx.UnsignedTx) {
+		return "", nil, fmt.Errorf("transaction does not match the accepted one")
+	}
+
 	randomID := randstr.Hex(8)
 	msgComplete := &pb.SwapComplete{
 		Id:          randomID,
@@ -123,6 +134,16 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 	return nil
 }
 
+// unsignedTxHash returns the hash of the transaction stripped of the signature
+// scripts of its inputs.
+func unsignedTxHash(tx *transaction.Transaction) string {
+	unsignedTx := tx.Copy()
+	for _, in := range unsignedTx.Inputs {
+		in.Script = nil
+	}
+	return unsignedTx.TxHash().String()
+}
+
 func isHex(s string) bool {
 	_, err := hex.DecodeString(s)
 	return err == nil
-- 
2.43.0


From 414df8c461727ab07ddf597da927bac420157a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 025/101] fix: keep observing addresses and transactions after
 an explorer error

---
 pkg/crawler/observable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 2add166..29aaf6a 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -51,6 +51,7 @@ func (a *AddressObservable) Observe(
 
 	observableStatus.Set(Waiting)
 	if err := rateLimiter.Wait(context.Background()); err != nil {
+		observableStatus.Set(Processed)
 		errChan <- err
 		return
 	}
@@ -59,6 +60,7 @@ func (a *AddressObservable) Observe(
 		return explorerSvc.GetUnspents(a.Address, [][]byte{a.BlindingKey})
 	})
 	if err != nil {
+		observableStatus.Set(Processed)
 		errChan <- err
 		return
 	}
@@ -112,6 +114,7 @@ func (t *TransactionObservable) Observe(
 
 	observableStatus.Set(Waiting)
 	if err := rateLimiter.Wait(context.Background()); err != nil {
+		observableStatus.Set(Processed)
 		errChan <- err
 		return
 	}
@@ -120,6 +123,7 @@ func (t *TransactionObservable) Observe(
 		return explorerSvc.GetTransactionStatus(t.TxID)
 	})
 	if err != nil {
+		observableStatus.Set(Processed)
 		errChan <- err
 		return
 	}
-- 
2.43.0


From b9f831943a80b0956035f18b7d1d59d781623c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 026/101] fix: stop the crawler and its observables without
 panics, deadlocks or leaks

---
 pkg/crawler/crawler.go    |  3 ++
 pkg/crawler/observable.go | 73 ++++++++++++++++++++++++++++++---------
 pkg/crawler/service.go    | 19 ++++++++--
 3 files changed, 75 insertions(+), 20 deletions(-)

diff --git a/pkg/crawler/crawler.go b/pkg/crawler/crawler.go
index ce7f4a2..a571b6d 100644
--- a/pkg/crawler/crawler.go
+++ b/pkg/crawler/crawler.go
@@ -1,6 +1,8 @@
 package crawler
 
 import (
+	"context"
+
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 	"golang.org/x/time/rate"
 )
@@ -13,6 +15,7 @@ type Event interface {
 // Observable represent object that can be observe on the blockchain.
 type Observable interface {
 	Observe(
+		ctx context.Context,
 		explorerSvc explorer.Service,
 		errChan chan error,
 		eventChan chan Event,
diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 29aaf6a..e998c6a 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -39,6 +39,7 @@ func NewAddressObservable(
 }
 
 func (a *AddressObservable) Observe(
+	ctx context.Context,
 	explorerSvc explorer.Service,
 	errChan chan error,
 	eventChan chan Event,
@@ -50,9 +51,13 @@ func (a *AddressObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
-	if err := rateLimiter.Wait(context.Background()); err != nil {
+	if err := rateLimiter.Wait(ctx); err != nil {
 		observableStatus.Set(Processed)
-		errChan <- err
+		sendError(ctx, errChan, err)
+		return
+	}
+
+	if ctx.Err() != nil {
 		return
 	}
 
@@ -61,7 +66,7 @@ func (a *AddressObservable) Observe(
 	})
 	if err != nil {
 		observableStatus.Set(Processed)
-		errChan <- err
+		sendError(ctx, errChan, err)
 		return
 	}
 	unspents := iUnspents.([]explorer.Utxo)
@@ -81,7 +86,7 @@ func (a *AddressObservable) Observe(
 		Address:      a.Address,
 		Utxos:        unspents,
 	}
-	eventChan <- event
+	sendEvent(ctx, eventChan, event)
 }
 
 func (a *AddressObservable) Key() string {
@@ -102,6 +107,7 @@ func NewTransactionObservable(txid string) Observable {
 }
 
 func (t *TransactionObservable) Observe(
+	ctx context.Context,
 	explorerSvc explorer.Service,
 	errChan chan error,
 	eventChan chan Event,
@@ -113,9 +119,13 @@ func (t *TransactionObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
-	if err := rateLimiter.Wait(context.Background()); err != nil {
+	if err := rateLimiter.Wait(ctx); err != nil {
 		observableStatus.Set(Processed)
-		errChan <- err
+		sendError(ctx, errChan, err)
+		return
+	}
+
+	if ctx.Err() != nil {
 		return
 	}
 
@@ -124,7 +134,7 @@ func (t *TransactionObservable) Observe(
 	})
 	if err != nil {
 		observableStatus.Set(Processed)
-		errChan <- err
+		sendError(ctx, errChan, err)
 		return
 	}
 	txStatus := iTxStatus.(map[string]interface{})
@@ -176,13 +186,35 @@ func (t *TransactionObservable) Observe(
 		BlockTime: blockTime,
 	}
 
-	eventChan <- event
+	sendEvent(ctx, eventChan, event)
 }
 
 func (t *TransactionObservable) Key() string {
 	return t.TxID
 }
 
+// sendEvent delivers the event unless the observation has been stopped.
+func sendEvent(ctx context.Context, eventChan chan Event, event Event) {
+	if ctx.Err() != nil {
+		return
+	}
+	select {
+	case eventChan <- event:
+	case <-ctx.Done():
+	}
+}
+
+// sendError delivers the error unless the observation has been stopped.
+func sendError(ctx context.Context, errChan chan error, err error) {
+	if ctx.Err() != nil {
+		return
+	}
+	select {
+	case errChan <- err:
+	case <-ctx.Done():
+	}
+}
+
 type Status string
 
 type observableStatus struct {
@@ -215,7 +247,8 @@ type observableHandler struct {
 	ticker           *time.Ticker
 	eventChan        chan Event
 	errChan          chan error
-	stopChan         chan int
+	ctx              context.Context
+	cancel           context.CancelFunc
 	observableStatus *observableStatus
 	rateLimiter      *rate.Limiter
 }
@@ -230,7 +263,7 @@ func newObservableHandler(
 	rateLimiter *rate.Limiter,
 ) *observableHandler {
 	ticker := time.NewTicker(interval)
-	stopChan := make(chan int, 1)
+	ctx, cancel := context.WithCancel(context.Background())
 
 	return &observableHandler{
 		observable,
@@ -239,20 +272,27 @@ func newObservableHandler(
 		ticker,
 		eventChan,
 		errChan,
-		stopChan,
+		ctx,
+		cancel,
 		newObservableStatus(),
 		rateLimiter,
 	}
 }
 
 func (oh *observableHandler) start() {
+	defer oh.wg.Done()
+	defer oh.ticker.Stop()
+
 	oh.logAction("start")
-	oh.wg.Add(1)
 	for {
 		select {
 		case <-oh.ticker.C:
+			if oh.ctx.Err() != nil {
+				return
+			}
 			if oh.observableStatus.Get() != Waiting {
 				oh.observable.Observe(
+					oh.ctx,
 					oh.explorerSvc,
 					oh.errChan,
 					oh.eventChan,
@@ -260,18 +300,17 @@ func (oh *observableHandler) start() {
 					oh.rateLimiter,
 				)
 			}
-		case <-oh.stopChan:
-			oh.ticker.Stop()
-			close(oh.stopChan)
+		case <-oh.ctx.Done():
 			return
 		}
 	}
 }
 
+// stop makes the handler end as soon as the ongoing request, if any, ends. It
+// can be safely called more than once.
 func (oh *observableHandler) stop() {
 	oh.logAction("stop")
-	oh.stopChan <- 1
-	oh.wg.Done()
+	oh.cancel()
 }
 
 func (oh *observableHandler) logAction(action string) {
diff --git a/pkg/crawler/service.go b/pkg/crawler/service.go
index fed4295..63ea51e 100644
--- a/pkg/crawler/service.go
+++ b/pkg/crawler/service.go
@@ -23,6 +23,7 @@ type blockchainCrawler struct {
 	mutex        *sync.RWMutex
 	wg           *sync.WaitGroup
 	rateLimiter  *rate.Limiter
+	stopped      bool
 }
 
 // Opts defines the parameters needed for creating a crawler service with NewService method
@@ -72,14 +73,21 @@ func (bc *blockchainCrawler) Start() {
 // Stop stops crawler
 func (bc *blockchainCrawler) Stop() {
 	bc.mutex.Lock()
-	defer bc.mutex.Unlock()
+	if bc.stopped {
+		bc.mutex.Unlock()
+		return
+	}
+	bc.stopped = true
 	for _, obsHandler := range bc.observables {
-		go obsHandler.stop()
+		obsHandler.stop()
 	}
+	// the lock must be released before waiting, whoever consumes the events
+	// might be about to add or remove an observable.
+	bc.mutex.Unlock()
+
 	bc.wg.Wait()
 	bc.eventChan <- CloseEvent{}
 	close(bc.errChan)
-	return
 }
 
 // GetEventChannel returns Event channel which can be used to "listen" to
@@ -96,6 +104,10 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 	bc.mutex.Lock()
 	defer bc.mutex.Unlock()
 
+	if bc.stopped {
+		return
+	}
+
 	if _, ok := bc.observables[observable.Key()]; !ok {
 		obsHandler := newObservableHandler(
 			observable,
@@ -108,6 +120,7 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 		)
 
 		bc.observables[observable.Key()] = obsHandler
+		bc.wg.Add(1)
 		go obsHandler.start()
 	}
 }
-- 
2.43.0


From 5acc632d48afcfde100f8ff44097b20f14e03540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 027/101] fix: do not panic on transactions with inputs other
 than native segwit ones

---
 internal/core/application/types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index e31cb5a..5fbe695 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -261,8 +261,11 @@ func (t transactionManager) ExtractUnspents(
 
 	for _, in := range tx.Inputs {
 		// our unspents are native-segiwt only
-		if len(in.Witness) > 0 {
-			pubkey, _ := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+		if len(in.Witness) == 2 {
+			pubkey, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+			if err != nil {
+				continue
+			}
 			p := payment.FromPublicKey(pubkey, network, nil)
 
 			script := hex.EncodeToString(p.WitnessScript)
-- 
2.43.0


From 928723c9bb8edbdc4e5058f69469c552e3cbfdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 028/101] fix: confirm the coins of transactions that are not
 trades instead of ignoring them or panicking

---
 .../core/application/blockchain_listener.go   | 32 +++++++++++++++++++
 .../db/badger/trade_repository_impl.go        |  2 +-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 4812b9d..b4e0286 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -170,6 +170,15 @@ func (b *blockchainListener) listenToEventChannel() {
 				log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
 				break
 			}
+			if trade == nil {
+				// the tx is not a trade, but it might have funded the wallet.
+				if err := b.confirmUnspents(e.TxID); err != nil {
+					log.Warnf("trying to confirm unspents of tx %s: %v", e.TxID, err)
+					break
+				}
+				b.StopObserveTx(e.TxID)
+				break
+			}
 
 			if err := b.settleTradeAndUpdateUtxoSet(trade, e); err != nil {
 				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
@@ -300,6 +309,29 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 	return nil
 }
 
+// confirmUnspents marks as confirmed all the unspents of the wallet created by
+// the given transaction.
+func (b *blockchainListener) confirmUnspents(txID string) error {
+	ctx := context.Background()
+
+	unspentKeys := make([]domain.UnspentKey, 0)
+	for _, u := range b.repoManager.UnspentRepository().GetAllUnspents(ctx) {
+		if u.TxID == txID && !u.IsConfirmed() {
+			unspentKeys = append(unspentKeys, u.Key())
+		}
+	}
+	if len(unspentKeys) <= 0 {
+		return nil
+	}
+
+	count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
+	if err != nil {
+		return err
+	}
+	log.Debugf("confirmed %d unspents", count)
+	return nil
+}
+
 func (b *blockchainListener) confirmOrAddUnspents(
 	txHex string,
 	txID string,
diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index e58bf45..ce8c884 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -86,7 +86,7 @@ func (t tradeRepositoryImpl) GetTradeByTxID(
 	}
 
 	if len(trades) <= 0 {
-		return nil, ErrTradeNotFound
+		return nil, nil
 	}
 
 	return trades[0], nil
-- 
2.43.0


From 18dfed09df020ab8441ba6cea5882c71a6818d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 029/101] fix: repeat the update of the coins of a settled
 trade until it succeeds

---
 .../core/application/blockchain_listener.go   | 41 ++++++++-----------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index b4e0286..7a22c66 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -291,7 +291,8 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 		context.Background(),
 		tradeID,
 		func(t *domain.Trade) (*domain.Trade, error) {
-			mustAddTxHex := t.IsAccepted()
+			// the tx might have been missing when the trade was first settled.
+			mustAddTxHex := t.IsAccepted() || len(t.TxHex) <= 0
 			if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
 				return nil, err
 			}
@@ -353,35 +354,29 @@ func (b *blockchainListener) confirmOrAddUnspents(
 		return err
 	}
 
-	uLen := len(unspentsToAdd)
-	unspentAddresses := make([]string, uLen, uLen)
+	// those of the unspents that are new must be inserted already confirmed, the
+	// others are just confirmed. In case of errors, everything is repeated the
+	// next time the transaction is notified.
+	unspentKeys := make([]domain.UnspentKey, len(unspentsToAdd))
 	for i, u := range unspentsToAdd {
-		unspentAddresses[i] = u.Address
+		unspentKeys[i] = u.Key()
+		unspentsToAdd[i].Confirmed = true
 	}
-
-	u, err := b.repoManager.UnspentRepository().GetAllUnspentsForAddresses(ctx, unspentAddresses)
-	if err != nil {
+	unspentRepo := b.repoManager.UnspentRepository()
+	if err := addUnspents(unspentRepo, unspentsToAdd); err != nil {
 		return err
 	}
-	if len(u) > 0 {
-		unspentKeys := make([]domain.UnspentKey, uLen, uLen)
-		for i, u := range unspentsToAdd {
-			unspentKeys[i] = u.Key()
-		}
-		count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
-		if err != nil {
-			return err
-		}
-		log.Debugf("confirmed %d unspents", count)
-		return nil
+	count, err := unspentRepo.ConfirmUnspents(ctx, unspentKeys)
+	if err != nil {
+		return err
 	}
+	log.Debugf("confirmed %d unspents", count)
 
-	// these unspents must be inserted already confirmed.
-	for i := range unspentsToAdd {
-		unspentsToAdd[i].Confirmed = true
+	count, err = spendUnspents(unspentRepo, unspentsToSpend)
+	if err != nil {
+		return err
 	}
-	addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
-	spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
+	log.Debugf("spent %d unspents", count)
 
 	return nil
 }
-- 
2.43.0


From 984aac4966650cf864836e6ef6482ed7d89a4f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 030/101] fix: watch the transactions of withdrawals so that
 their change can be used once confirmed

---
 internal/core/application/operator_service.go | 4 ++++
 internal/core/application/wallet_service.go   | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e8e444e..39a7cb4 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -867,6 +867,10 @@ func (o *operatorService) WithdrawMarketFunds(
 		txHex,
 		market.AccountIndex,
 	)
+	if req.Push {
+		// the change can be used again once the tx is confirmed.
+		go o.blockchainListener.StartObserveTx(txid)
+	}
 
 	// Publish message for topic AccountWithdraw to pubsub service.
 	if svc := o.blockchainListener.PubSubService(); svc != nil {
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 6bf3aad..e7a446d 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -507,7 +507,7 @@ func (w *walletService) SendToMany(
 		return nil, ErrFeeAccountNotFunded
 	}
 
-	var txHex string
+	var txHex, txid string
 
 	if err := w.repoManager.VaultRepository().UpdateVault(
 		ctx,
@@ -563,7 +563,7 @@ func (w *walletService) SendToMany(
 				return v, nil
 			}
 
-			txid, err := w.explorerService.BroadcastTransaction(txHex)
+			txid, err = w.explorerService.BroadcastTransaction(txHex)
 			if err != nil {
 				return nil, err
 			}
@@ -582,6 +582,10 @@ func (w *walletService) SendToMany(
 		txHex,
 		domain.FeeAccount,
 	)
+	if req.Push {
+		// the change can be used again once the tx is confirmed.
+		go w.blockchainListener.StartObserveTx(txid)
+	}
 
 	rawTx, _ := hex.DecodeString(txHex)
 	return rawTx, nil
-- 
2.43.0


From 99276f3e265e3e2c15a36a7828e66e9d30f008ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 031/101] fix: settle trades only once their coins have been
 updated

---
 internal/core/application/blockchain_listener.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 7a22c66..45ad962 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -280,10 +280,14 @@ func (b *blockchainListener) settleTradeAndUpdateUtxoSet(
 	unlock := lockTrade(trade.ID)
 	defer unlock()
 
-	if err := b.settleTrade(&trade.ID, event); err != nil {
+	// the trade must be settled last, as those settled are not watched anymore
+	// after a restart.
+	if err := b.confirmOrAddUnspents(
+		event.TxHex, event.TxID, trade.MarketQuoteAsset,
+	); err != nil {
 		return err
 	}
-	return b.confirmOrAddUnspents(event.TxHex, event.TxID, trade.MarketQuoteAsset)
+	return b.settleTrade(&trade.ID, event)
 }
 
 func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
@@ -291,8 +295,7 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 		context.Background(),
 		tradeID,
 		func(t *domain.Trade) (*domain.Trade, error) {
-			// the tx might have been missing when the trade was first settled.
-			mustAddTxHex := t.IsAccepted() || len(t.TxHex) <= 0
+			mustAddTxHex := t.IsAccepted()
 			if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 2c49f470b0534e1abe1fbea53a42c8f32fec5208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 032/101] fix: open the db after a crash has left an incomplete
 write in it

---
 internal/infrastructure/storage/db/badger/db_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 2578284..33e7766 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -282,6 +282,9 @@ func createDb(dbDir string, logger badger.Logger) (*badgerhold.Store, error) {
 	} else {
 		opts.ValueLogLoadingMode = options.FileIO
 		opts.Compression = options.ZSTD
+		// drop the incomplete write at the end of the value log left by a crash,
+		// instead of refusing to open the db.
+		opts.Truncate = true
 	}
 
 	db, err := badgerhold.Open(badgerhold.Options{
-- 
2.43.0


From d54f0d18320e4e348fba7a8f7429efa583e75be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 033/101] fix: read markets whose price is not stored yet

---
 .../storage/db/badger/market_repository_impl.go               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index bdcd1c9..309dddc 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -359,6 +359,10 @@ func (m marketRepositoryImpl) getPriceByAccountIndex(ctx context.Context, accoun
 		err = m.priceStore.Get(accountIndex, &prices)
 	}
 
+	if err == badgerhold.ErrNotFound {
+		// the price is stored after the market, which has no price until then.
+		return &domain.Prices{}, nil
+	}
 	if err != nil {
 		return nil, fmt.Errorf("trying to get price for market with account %v: %w", accountIndex, err)
 	}
-- 
2.43.0


From 8485d14c18a37aa1551b2ed4e09dddf77a76a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 034/101] fix: don't lose or remove wrong webhooks when they
 are updated concurrently

---
 .../infrastructure/pubsub/webhook/service.go  | 41 ++++++++++++++-----
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index c3f30d5..aee4f0f 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/dgrijalva/jwt-go"
 	"github.com/sony/gobreaker"
@@ -18,6 +19,9 @@ type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
 	cb         *gobreaker.CircuitBreaker
+
+	// lock serializes the operations reading and then updating the hooks.
+	lock sync.RWMutex
 }
 
 func NewWebhookPubSubService(
@@ -109,6 +113,9 @@ func (ws *webhookService) TopicsByLabel() map[string]ports.Topic {
 // NOTE: The generation of the hook ID can be assumed enough random to infer
 // that if 2 hooks have the same id, then they are the same.
 func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
+	ws.lock.Lock()
+	defer ws.lock.Unlock()
+
 	hookID := []byte(hook.ID)
 	hh, err := ws.store.db().GetFromBucket(hooksBucket, hookID)
 	if err != nil {
@@ -130,6 +137,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 // managed by the handler. Nothing is done in case the hook does not actually
 // exist in the handler's store.db().
 func (ws *webhookService) removeWebhook(hookID string) error {
+	ws.lock.Lock()
+	defer ws.lock.Unlock()
+
 	buf, err := ws.store.db().GetFromBucket(hooksBucket, []byte(hookID))
 	if err != nil {
 		return err
@@ -148,11 +158,7 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
-	hooks := ws.getHooksByAction(actionType)
-	if actionType != AllActions {
-		hooksForAllActions := ws.getHooksByAction(AllActions)
-		hooks = append(hooks, hooksForAllActions...)
-	}
+	hooks := ws.getHooksForAction(actionType)
 	subs := make([]ports.Subscription, len(hooks))
 	for i, h := range hooks {
 		subs[i] = h
@@ -165,11 +171,7 @@ func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []port
 // This method adopts a circuit breaker approach in order to maximize the
 // chances that every webhook gets invoked without errors.
 func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, message string) error {
-	hooks := ws.getHooksByAction(actionType)
-	if actionType != AllActions {
-		hooksForAllActions := ws.getHooksByAction(AllActions)
-		hooks = append(hooks, hooksForAllActions...)
-	}
+	hooks := ws.getHooksForAction(actionType)
 
 	eg := &errgroup.Group{}
 	for i := range hooks {
@@ -190,7 +192,7 @@ func (ws *webhookService) addHookByAction(hook *Webhook) {
 func (ws *webhookService) removeHookByAction(hook *Webhook) {
 	rawHooks := ws.getSerializedHooks(hook.ActionType)
 
-	var index int
+	index := -1
 	for i, buf := range rawHooks {
 		hh, _ := NewWebhookFromBytes(buf)
 		if hh.ID == hook.ID {
@@ -198,6 +200,9 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) {
 			break
 		}
 	}
+	if index < 0 {
+		return
+	}
 
 	key := []byte{byte(hook.ActionType)}
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
@@ -211,6 +216,20 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) {
 	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
+// getHooksForAction returns the hooks registered for the given action and
+// those registered for all actions.
+func (ws *webhookService) getHooksForAction(actionType WebhookAction) []*Webhook {
+	ws.lock.RLock()
+	defer ws.lock.RUnlock()
+
+	hooks := ws.getHooksByAction(actionType)
+	if actionType != AllActions {
+		hooksForAllActions := ws.getHooksByAction(AllActions)
+		hooks = append(hooks, hooksForAllActions...)
+	}
+	return hooks
+}
+
 func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
 	rawHooks := ws.getSerializedHooks(actionType)
 	hooks := make([]*Webhook, 0, len(rawHooks))
-- 
2.43.0


From 9a858e92270a981836fd2dadfb14a828460babd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 035/101] fix: return the store errors when adding or removing
 webhooks

---
 .../infrastructure/pubsub/webhook/service.go  | 54 ++++++++++++-------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index aee4f0f..3d5245c 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -129,7 +129,10 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 	if err := ws.store.db().AddToBucket(hooksBucket, hookID, hook.Serialize()); err != nil {
 		return "", err
 	}
-	ws.addHookByAction(hook)
+	if err := ws.addHookByAction(hook); err != nil {
+		ws.store.db().RemoveFromBucket(hooksBucket, hookID)
+		return "", err
+	}
 	return hook.ID, nil
 }
 
@@ -148,13 +151,16 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 		return nil
 	}
 
-	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+	hook, err := NewWebhookFromBytes(buf)
+	if err != nil {
 		return err
 	}
-
-	hook, _ := NewWebhookFromBytes(buf)
-	ws.removeHookByAction(hook)
-	return nil
+	// The entry of the hook is removed last, so that the whole removal can be
+	// repeated in case of errors.
+	if err := ws.removeHookByAction(hook); err != nil {
+		return err
+	}
+	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
@@ -181,16 +187,22 @@ func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, mess
 	return eg.Wait()
 }
 
-func (ws *webhookService) addHookByAction(hook *Webhook) {
+func (ws *webhookService) addHookByAction(hook *Webhook) error {
 	key := []byte{byte(hook.ActionType)}
-	hooks := ws.getSerializedHooks(hook.ActionType)
+	hooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 	hooks = append(hooks, hook.Serialize())
 	updatedHooks := bytes.Join(hooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
-func (ws *webhookService) removeHookByAction(hook *Webhook) {
-	rawHooks := ws.getSerializedHooks(hook.ActionType)
+func (ws *webhookService) removeHookByAction(hook *Webhook) error {
+	rawHooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 
 	index := -1
 	for i, buf := range rawHooks {
@@ -201,19 +213,18 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) {
 		}
 	}
 	if index < 0 {
-		return
+		return nil
 	}
 
 	key := []byte{byte(hook.ActionType)}
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
 
 	if len(rawHooks) <= 0 {
-		ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
-		return
+		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
 	}
 
 	updatedHooks := bytes.Join(rawHooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
 // getHooksForAction returns the hooks registered for the given action and
@@ -231,7 +242,7 @@ func (ws *webhookService) getHooksForAction(actionType WebhookAction) []*Webhook
 }
 
 func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
-	rawHooks := ws.getSerializedHooks(actionType)
+	rawHooks, _ := ws.getSerializedHooks(actionType)
 	hooks := make([]*Webhook, 0, len(rawHooks))
 	for _, buf := range rawHooks {
 		hook, _ := NewWebhookFromBytes(buf)
@@ -240,13 +251,16 @@ func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook
 	return hooks
 }
 
-func (ws *webhookService) getSerializedHooks(actionType WebhookAction) [][]byte {
+func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte, error) {
 	key := []byte{byte(actionType)}
-	hooks, _ := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	hooks, err := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	if err != nil {
+		return nil, err
+	}
 	if len(hooks) <= 0 {
-		return nil
+		return nil, nil
 	}
-	return bytes.Split(hooks, separator)
+	return bytes.Split(hooks, separator), nil
 }
 
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-- 
2.43.0


From defd54a1cefd6e06247a00e686238e54597ac8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 036/101] fix: use a circuit breaker for each webhook

---
 .../infrastructure/pubsub/webhook/service.go  | 39 ++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index 3d5245c..28a7028 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -2,6 +2,7 @@ package webhookpubsub
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"net/http"
 	"sync"
@@ -18,10 +19,14 @@ import (
 type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
-	cb         *gobreaker.CircuitBreaker
 
 	// lock serializes the operations reading and then updating the hooks.
 	lock sync.RWMutex
+
+	// cbByHook holds a circuit breaker for each webhook, so that those
+	// failing don't prevent the others from being invoked.
+	cbByHook map[string]*gobreaker.CircuitBreaker
+	cbLock   sync.Mutex
 }
 
 func NewWebhookPubSubService(
@@ -38,7 +43,7 @@ func NewWebhookPubSubService(
 	return &webhookService{
 		store:      webhookStore{store},
 		httpClient: httpClient,
-		cb:         circuitbreaker.NewCircuitBreaker(),
+		cbByHook:   make(map[string]*gobreaker.CircuitBreaker),
 	}, nil
 }
 
@@ -160,7 +165,11 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 	if err := ws.removeHookByAction(hook); err != nil {
 		return err
 	}
-	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
+	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+		return err
+	}
+	ws.removeCircuitBreaker(hook)
+	return nil
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
@@ -264,7 +273,7 @@ func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte
 }
 
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-	_, err := ws.cb.Execute(func() (interface{}, error) {
+	_, err := ws.circuitBreaker(hook).Execute(func() (interface{}, error) {
 		headers := map[string]string{
 			"Content-Type": "application/json",
 		}
@@ -280,10 +289,30 @@ func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
 			return nil, err
 		}
 		if status != http.StatusOK {
-			return nil, fmt.Errorf(resp)
+			return nil, errors.New(resp)
 		}
 		return nil, nil
 	})
 
 	return err
 }
+
+// circuitBreaker returns the circuit breaker of the given webhook.
+func (ws *webhookService) circuitBreaker(hook *Webhook) *gobreaker.CircuitBreaker {
+	ws.cbLock.Lock()
+	defer ws.cbLock.Unlock()
+
+	cb, ok := ws.cbByHook[hook.ID]
+	if !ok {
+		cb = circuitbreaker.NewCircuitBreaker()
+		ws.cbByHook[hook.ID] = cb
+	}
+	return cb
+}
+
+func (ws *webhookService) removeCircuitBreaker(hook *Webhook) {
+	ws.cbLock.Lock()
+	defer ws.cbLock.Unlock()
+
+	delete(ws.cbByHook, hook.ID)
+}
-- 
2.43.0


From b03a446be48e4acddee325d88c0f21bd447fdbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 037/101] fix: change the password of the secure store in a
 single transaction

---
 pkg/securestore/bolt/store.go | 151 ++++++++++++----------------------
 1 file changed, 54 insertions(+), 97 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 6a85c2a..1544974 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -2,10 +2,8 @@ package boltsecurestore
 
 import (
 	"bytes"
-	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 	"sync"
 
 	"github.com/btcsuite/btcwallet/snacl"
@@ -152,9 +150,11 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 		return err
 	}
 
-	// Check that old password is correct.
-	if err := kvdb.View(s.db, func(tx kvdb.RTx) error {
-		bucket := tx.ReadBucket(RootKeyBucketName)
+	// The whole content of the DB and the encryption key are updated within the
+	// same transaction, so that the entries are always encrypted with the stored
+	// key.
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
 		}
@@ -165,37 +165,30 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 			return ErrEncKeyNotFound
 		}
 
+		// Check that old password is correct.
 		encKeyOld := &snacl.SecretKey{}
 		if err := encKeyOld.Unmarshal(dbKey); err != nil {
 			return err
 		}
-
-		return encKeyOld.DeriveKey(&oldPw)
-	}, func() {}); err != nil {
-		return err
-	}
-
-	// Efficiently decrypt DB with old password and encrypt is again with the
-	// new one.
-	if err := s.updateEncryptedDb(encKeyNew); err != nil {
-		return err
-	}
-
-	// Finally, store the new encryption key parameters in the DB
-	// as well.
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
-		bucket := tx.ReadWriteBucket(RootKeyBucketName)
-		if bucket == nil {
-			return ErrRootKeyBucketNotFound
+		if err := encKeyOld.DeriveKey(&oldPw); err != nil {
+			return err
 		}
 
-		if err := bucket.Put(encryptionKeyID, encKeyNew.Marshal()); err != nil {
+		// Decrypt the entries with the old key and encrypt them again with the
+		// new one.
+		if err := updateEncryptedBucket(bucket, encKeyOld, encKeyNew); err != nil {
 			return err
 		}
 
-		s.encKey = encKeyNew
-		return nil
-	}, func() {})
+		// Finally, store the new encryption key parameters in the DB
+		// as well.
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
+	}, func() {}); err != nil {
+		return err
+	}
+
+	s.encKey = encKeyNew
+	return nil
 }
 
 // CreateBucket creates a nested bucket into the root one.
@@ -440,84 +433,48 @@ func (s *boltSecureStorage) RemoveBucket(key []byte) error {
 	}, func() {})
 }
 
-type bucketData struct {
-	bucketKey []byte
-	data      map[string][]byte
-	err       error
-}
+// updateEncryptedBucket encrypts with the new key all the entries of the given
+// bucket, and of those nested into it.
+func updateEncryptedBucket(
+	bucket kvdb.RwBucket, oldKey, newKey *snacl.SecretKey,
+) error {
+	data := make(map[string][]byte)
+	var nestedBuckets [][]byte
+
+	if err := bucket.ForEach(func(k, v []byte) error {
+		if v == nil {
+			nestedBuckets = append(nestedBuckets, append([]byte{}, k...))
+			return nil
+		}
+		if bytes.Equal(k, encryptionKeyID) {
+			return nil
+		}
 
-func (s *boltSecureStorage) updateEncryptedDb(newKey *snacl.SecretKey) error {
-	buckets, err := s.ListBuckets()
-	if err != nil {
+		value, err := oldKey.Decrypt(v)
+		if err != nil {
+			return err
+		}
+		encryptedValue, err := newKey.Encrypt(value)
+		if err != nil {
+			return err
+		}
+		data[string(k)] = encryptedValue
+		return nil
+	}); err != nil {
 		return err
 	}
-	// nil key is used for the top level bucket
-	buckets = append(buckets, nil)
-
-	wg := &sync.WaitGroup{}
-	wg.Add(len(buckets))
-	chData := make(chan bucketData)
 
-	go func() {
-		wg.Wait()
-		close(chData)
-	}()
-
-	for _, bucketKey := range buckets {
-		go s.getAllFromBucket(bucketKey, wg, chData)
-	}
-
-	allBucketData := make(map[string][]byte)
-	for d := range chData {
-		if d.err != nil {
+	for k, v := range data {
+		if err := bucket.Put([]byte(k), v); err != nil {
 			return err
 		}
-
-		for k, v := range d.data {
-			key := fmt.Sprintf("%s_%s", string(d.bucketKey), k)
-			allBucketData[key] = v
-		}
 	}
 
-	wg = &sync.WaitGroup{}
-	wg.Add(len(allBucketData))
-
-	for k := range allBucketData {
-		k := k
-		v := allBucketData[k]
-		go func() {
-			defer wg.Done()
-			kk := strings.Split(k, "_")
-			bucketKey := []byte(kk[0])
-			key := []byte(kk[1])
-
-			kvdb.Batch(s.db, func(tx kvdb.RwTx) error {
-				bucket := tx.ReadWriteBucket(RootKeyBucketName)
-				if len(bucketKey) > 0 {
-					bucket = bucket.NestedReadWriteBucket(bucketKey)
-				}
-
-				encryptedValue, _ := newKey.Encrypt(v)
-				bucket.Put(key, encryptedValue)
-				return nil
-			})
-		}()
+	for _, k := range nestedBuckets {
+		nestedBucket := bucket.NestedReadWriteBucket(k)
+		if err := updateEncryptedBucket(nestedBucket, oldKey, newKey); err != nil {
+			return err
+		}
 	}
-
-	wg.Wait()
-
 	return nil
 }
-
-func (s *boltSecureStorage) getAllFromBucket(
-	key []byte, wg *sync.WaitGroup, chData chan bucketData,
-) {
-	defer wg.Done()
-
-	data, err := s.GetAllFromBucket(key)
-	if err != nil {
-		chData <- bucketData{err: err}
-		return
-	}
-	chData <- bucketData{bucketKey: key, data: data}
-}
-- 
2.43.0


From 6fb47191278369186570f531a009619971bcdeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 038/101] fix: guard the encryption key of the secure store
 from concurrent accesses

---
 pkg/securestore/bolt/store.go | 66 +++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 1544974..5d822fa 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -65,12 +65,26 @@ func NewSecureStorage(datadir, filename string) (securestore.SecureStorage, erro
 // IsLocked returns whether the store is locked by checking if the encryption
 // key is stored in-memory.
 func (s *boltSecureStorage) IsLocked() bool {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	return s.isLocked()
+}
+
+func (s *boltSecureStorage) isLocked() bool {
 	return s.encKey == nil
 }
 
 // Lock eventually locks the store by flushing the in-memory encryption key.
 func (s *boltSecureStorage) Lock() {
-	if !s.IsLocked() {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
+	s.lock()
+}
+
+func (s *boltSecureStorage) lock() {
+	if !s.isLocked() {
 		s.encKey.Zero()
 		s.encKey = nil
 	}
@@ -79,8 +93,11 @@ func (s *boltSecureStorage) Lock() {
 // CreateUnlock sets an encryption key if one is not already set, otherwise it
 // checks if the password is correct for the stored encryption key.
 func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// Is the store is already unlocked there's nothing to do here.
-	if !s.IsLocked() {
+	if !s.isLocked() {
 		return nil
 	}
 
@@ -88,9 +105,6 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	s.encKeyMtx.Lock()
-	defer s.encKeyMtx.Unlock()
-
 	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
@@ -133,9 +147,12 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 // ChangePassword decrypts the store (included the root key) with the old
 // password and then encrypts it again with the new password.
 func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// The store must be already unlocked. This ensures that there already is a
 	// key in the DB.
-	if s.IsLocked() {
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -193,7 +210,10 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 
 // CreateBucket creates a nested bucket into the root one.
 func (s *boltSecureStorage) CreateBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -217,7 +237,10 @@ func (s *boltSecureStorage) CreateBucket(key []byte) error {
 // AddToBucket stores the provided data encrypted into the given bucket.
 // If the bucket key is nil, the key/value entry is added to the root one.
 func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -258,7 +281,10 @@ func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
 // GetFromBucket retrieves data for the given key and bucket. If the bucket key
 // is nil, data is retrieved from the root bucket.
 func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -306,7 +332,10 @@ func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error)
 // GetAllFromBucket returns all data stored in the given bucket.
 // If the bucket key is nil
 func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -343,7 +372,10 @@ func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byt
 }
 
 func (s *boltSecureStorage) ListBuckets() ([][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -375,7 +407,7 @@ func (s *boltSecureStorage) Close() error {
 	s.encKeyMtx.Lock()
 	defer s.encKeyMtx.Unlock()
 
-	s.Lock()
+	s.lock()
 
 	return s.db.Close()
 }
@@ -383,7 +415,10 @@ func (s *boltSecureStorage) Close() error {
 // RemoveFromBucket removes the entry identified by the given key for the given
 // bucket. If bucket key is nil, the entry is removed from the root bucket.
 func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -412,7 +447,10 @@ func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
 }
 
 func (s *boltSecureStorage) RemoveBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
-- 
2.43.0


From 681a07d115cb8da5fcdd5349f09f348b3cc0d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 039/101] fix: don't unlock the secure store with a key that
 could not be stored

---
 pkg/securestore/bolt/store.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 5d822fa..09f3c42 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -105,7 +105,8 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+	encKey := &snacl.SecretKey{}
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -114,7 +115,6 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 		dbKey := bucket.Get(encryptionKeyID)
 		if len(dbKey) > 0 {
 			// A key is already stored, so try to unlock with the password.
-			encKey := &snacl.SecretKey{}
 			if err := encKey.Unmarshal(dbKey); err != nil {
 				return err
 			}
@@ -123,25 +123,26 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 				return ErrInvalidPassword
 			}
 
-			s.encKey = encKey
 			return nil
 		}
 
 		// The encryption key is not yet stored, so create a new one.
-		encKey, err := snacl.NewSecretKey(
+		var err error
+		encKey, err = snacl.NewSecretKey(
 			password, snacl.DefaultN, snacl.DefaultR, snacl.DefaultP,
 		)
 		if err != nil {
 			return err
 		}
 
-		if err := bucket.Put(encryptionKeyID, encKey.Marshal()); err != nil {
-			return err
-		}
+		return bucket.Put(encryptionKeyID, encKey.Marshal())
+	}, func() {}); err != nil {
+		return err
+	}
 
-		s.encKey = encKey
-		return nil
-	}, func() {})
+	// The key is set only once it's been stored.
+	s.encKey = encKey
+	return nil
 }
 
 // ChangePassword decrypts the store (included the root key) with the old
-- 
2.43.0


From b03ba6f989f50593758c634c2dac6053ce069810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 040/101] fix: let the admin and the readonly macaroons report
 the market fees

---
 internal/interfaces/grpc/permissions/permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/interfaces/grpc/permissions/permissions.go b/internal/interfaces/grpc/permissions/permissions.go
index ac9b9fa..d924d19 100644
--- a/internal/interfaces/grpc/permissions/permissions.go
+++ b/internal/interfaces/grpc/permissions/permissions.go
@@ -267,6 +267,10 @@ func AllPermissionsByMethod() map[string][]bakery.Op {
 			Entity: EntityOperator,
 			Action: "read",
 		}},
+		"/Operator/ReportMarketFee": {{
+			Entity: EntityOperator,
+			Action: "read",
+		}},
 		"/Operator/ListUtxos": {{
 			Entity: EntityOperator,
 			Action: "read",
-- 
2.43.0


From 0a00341d59f49c95d50db020a37f98d88d3fc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 041/101] fix: don't serve without authentication if the
 macaroon service can't be created

---
 internal/interfaces/grpc/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 24e7206..d4c52af 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -179,9 +179,13 @@ func NewService(opts ServiceOpts) (interfaces.Service, error) {
 
 	var macaroonSvc *macaroons.Service
 	if !opts.NoMacaroons {
-		macaroonSvc, _ = macaroons.NewService(
+		var err error
+		macaroonSvc, err = macaroons.NewService(
 			opts.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker,
 		)
+		if err != nil {
+			return nil, fmt.Errorf("failed to create macaroon service: %s", err)
+		}
 		if err := generateOperatorTLSKeyCert(
 			opts.tlsDatadir(), opts.OperatorExtraIPs, opts.OperatorExtraDomains,
 		); err != nil {
-- 
2.43.0


From 0087773a3b815dc1e023cbf1bba19d7065f027e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 042/101] fix: keep all the macaroon root keys readable after
 changing the password

---
 pkg/macaroons/store.go | 102 +++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 44 deletions(-)

diff --git a/pkg/macaroons/store.go b/pkg/macaroons/store.go
index 64b55dc..9e9828f 100644
--- a/pkg/macaroons/store.go
+++ b/pkg/macaroons/store.go
@@ -96,7 +96,8 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(r, func(tx kvdb.RwTx) error {
+	encKey := &snacl.SecretKey{}
+	err := kvdb.Update(r, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(rootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -105,42 +106,40 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 		if len(dbKey) > 0 {
 			// We've already stored a key, so try to unlock with
 			// the password.
-			encKey := &snacl.SecretKey{}
 			err := encKey.Unmarshal(dbKey)
 			if err != nil {
 				return err
 			}
 
-			err = encKey.DeriveKey(password)
-			if err != nil {
-				return err
-			}
-
-			r.encKey = encKey
-			return nil
+			return encKey.DeriveKey(password)
 		}
 
 		// We haven't yet stored a key, so create a new one.
-		encKey, err := snacl.NewSecretKey(
+		var err error
+		encKey, err = snacl.NewSecretKey(
 			password, scryptN, scryptR, scryptP,
 		)
 		if err != nil {
 			return err
 		}
 
-		err = bucket.Put(encryptionKeyID, encKey.Marshal())
-		if err != nil {
-			return err
-		}
-
-		r.encKey = encKey
-		return nil
+		return bucket.Put(encryptionKeyID, encKey.Marshal())
 	}, func() {})
+	if err != nil {
+		return err
+	}
+
+	// The key is set only once it's been stored.
+	r.encKey = encKey
+	return nil
 }
 
-// ChangePassword decrypts the macaroon root key with the old password and then
-// encrypts it again with the new password.
+// ChangePassword decrypts the macaroon root keys with the old password and then
+// encrypts them again with the new password.
 func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
+	r.encKeyMtx.Lock()
+	defer r.encKeyMtx.Unlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB.
 	if r.encKey == nil {
@@ -152,17 +151,17 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(r, func(tx kvdb.RwTx) error {
+	var encKeyNew *snacl.SecretKey
+	err := kvdb.Update(r, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(rootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
 		}
 		encKeyDb := bucket.Get(encryptionKeyID)
-		rootKeyDb := bucket.Get(DefaultRootKeyID)
 
-		// Both the encryption key and the root key must be present
-		// otherwise we are in the wrong state to change the password.
-		if len(encKeyDb) == 0 || len(rootKeyDb) == 0 {
+		// The encryption key must be present otherwise we are in the
+		// wrong state to change the password.
+		if len(encKeyDb) == 0 {
 			return ErrEncKeyNotFound
 		}
 
@@ -179,40 +178,52 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 		}
 
 		// Create a new encryption key from the new password.
-		encKeyNew, err := snacl.NewSecretKey(
+		encKeyNew, err = snacl.NewSecretKey(
 			&newPw, scryptN, scryptR, scryptP,
 		)
 		if err != nil {
 			return err
 		}
 
-		// Now try to decrypt the root key with the old encryption key,
-		// encrypt it with the new one and then store it in the DB.
-		decryptedKey, err := encKeyOld.Decrypt(rootKeyDb)
-		if err != nil {
-			return err
-		}
-		rootKey := make([]byte, len(decryptedKey))
-		copy(rootKey, decryptedKey)
-		encryptedKey, err := encKeyNew.Encrypt(rootKey)
+		// Now try to decrypt all the root keys with the old encryption
+		// key, encrypt them with the new one and then store them in the
+		// DB.
+		encryptedKeys := make(map[string][]byte)
+		err = bucket.ForEach(func(k, v []byte) error {
+			if bytes.Equal(k, encryptionKeyID) {
+				return nil
+			}
+			rootKey, err := encKeyOld.Decrypt(v)
+			if err != nil {
+				return err
+			}
+			encryptedKey, err := encKeyNew.Encrypt(rootKey)
+			if err != nil {
+				return err
+			}
+			encryptedKeys[string(k)] = encryptedKey
+			return nil
+		})
 		if err != nil {
 			return err
 		}
-		err = bucket.Put(DefaultRootKeyID, encryptedKey)
-		if err != nil {
-			return err
+		for id, encryptedKey := range encryptedKeys {
+			err = bucket.Put([]byte(id), encryptedKey)
+			if err != nil {
+				return err
+			}
 		}
 
 		// Finally, store the new encryption key parameters in the DB
 		// as well.
-		err = bucket.Put(encryptionKeyID, encKeyNew.Marshal())
-		if err != nil {
-			return err
-		}
-
-		r.encKey = encKeyNew
-		return nil
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
 	}, func() {})
+	if err != nil {
+		return err
+	}
+
+	r.encKey = encKeyNew
+	return nil
 }
 
 // Get implements the Get method for the bakery.RootKeyStorage interface.
@@ -313,6 +324,9 @@ func (r *RootKeyStorage) RootKey(ctx context.Context) ([]byte, []byte, error) {
 // GenerateNewRootKey generates a new macaroon root key, replacing the previous
 // root key if it existed.
 func (r *RootKeyStorage) GenerateNewRootKey() error {
+	r.encKeyMtx.RLock()
+	defer r.encKeyMtx.RUnlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB that can be replaced.
 	if r.encKey == nil {
-- 
2.43.0


From ee25dde49f5b49592ee8a22bb19ae7d736f88eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 043/101] fix: change the password of the macaroon service also
 when it's locked

---
 internal/interfaces/grpc/service.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index d4c52af..f0a3358 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -300,6 +300,15 @@ func (s *service) startListeningToPassphraseChan() {
 			case application.ChangePassphrase:
 				currentPwd := []byte(msg.CurrentPwd)
 				newPwd := []byte(msg.NewPwd)
+				// The password is changed while the wallet is locked, hence also the
+				// macaroon service might need to be unlocked.
+				if err := s.macaroonSvc.CreateUnlock(&currentPwd); err != nil {
+					if err != macaroons.ErrAlreadyUnlocked {
+						log.WithError(err).Warn(
+							"an error occured while unlocking macaroon service",
+						)
+					}
+				}
 				if err := s.macaroonSvc.ChangePassword(currentPwd, newPwd); err != nil {
 					log.WithError(err).Warn(
 						"an error occured while changing password of macaroon service",
-- 
2.43.0


From b701187feff3373f7ef3d26408fd91ac2ba6103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 044/101] fix: change the password of the pubsub store also
 when it's locked

---
 internal/infrastructure/pubsub/webhook/store.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/infrastructure/pubsub/webhook/store.go b/internal/infrastructure/pubsub/webhook/store.go
index 7d00245..e595504 100644
--- a/internal/infrastructure/pubsub/webhook/store.go
+++ b/internal/infrastructure/pubsub/webhook/store.go
@@ -47,6 +47,13 @@ func (ws webhookStore) Unlock(password string) error {
 }
 
 func (ws webhookStore) ChangePassword(oldPwd, newPwd string) error {
+	// The store must be unlocked to have its password changed.
+	if ws.IsLocked() {
+		if err := ws.Unlock(oldPwd); err != nil {
+			return err
+		}
+		defer ws.Lock()
+	}
 	return ws.store.ChangePassword([]byte(oldPwd), []byte(newPwd))
 }
 
-- 
2.43.0


From 3333d91818c0a3f70bb969745fa806085e38f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 045/101] fix: init and unlock the pubsub store before telling
 the wallet is ready

---
 internal/core/application/wallet_service.go | 88 ++++++++++-----------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index e7a446d..0864260 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -256,16 +256,14 @@ func (w *walletService) InitWallet(
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().Init(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while initializing pubsub service. " +
-						"Pubsub not available for the current session.",
-				)
-			}
-		}()
+		if err := w.blockchainListener.PubSubService().Store().Init(
+			passphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while initializing pubsub service. " +
+					"Pubsub not available for the current session.",
+			)
+		}
 	}
 
 	w.pwChan <- PassphraseMsg{
@@ -309,36 +307,15 @@ func (w *walletService) UnlockWallet(
 			return v, nil
 		},
 	)
-	walletMtx.Unlock()
 	if err != nil {
+		walletMtx.Unlock()
 		return err
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			// For backward compatibility, check if the pubsub store has been
-			// initialized by wallet.Init, otherwise it is initialized before being
-			// unlocked here.
-			if w.blockchainListener.PubSubService().Store().IsLocked() {
-				if err := w.blockchainListener.PubSubService().Store().Init(
-					passphrase,
-				); err != nil {
-					log.WithError(err).Warn(
-						"an error occured while initializing pubsub service. " +
-							"Pubsub not available for the current session.",
-					)
-					return
-				}
-			}
-			if err := w.blockchainListener.PubSubService().Store().Unlock(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while unlocking pubsub internal store",
-				)
-			}
-		}()
+		w.unlockPubSubStore(passphrase)
 	}
+	walletMtx.Unlock()
 
 	w.pwChan <- PassphraseMsg{
 		Method:     UnlockWallet,
@@ -371,22 +348,21 @@ func (w *walletService) ChangePassword(
 			return v, nil
 		},
 	)
-	walletMtx.Unlock()
 	if err != nil {
+		walletMtx.Unlock()
 		return err
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().ChangePassword(
-				currentPassphrase, newPassphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while updating pubsub service password",
-				)
-			}
-		}()
+		if err := w.blockchainListener.PubSubService().Store().ChangePassword(
+			currentPassphrase, newPassphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while updating pubsub service password",
+			)
+		}
 	}
+	walletMtx.Unlock()
 
 	w.pwChan <- PassphraseMsg{
 		Method:     ChangePassphrase,
@@ -397,6 +373,30 @@ func (w *walletService) ChangePassword(
 	return nil
 }
 
+func (w *walletService) unlockPubSubStore(passphrase string) {
+	// For backward compatibility, check if the pubsub store has been
+	// initialized by wallet.Init, otherwise it is initialized before being
+	// unlocked here.
+	if w.blockchainListener.PubSubService().Store().IsLocked() {
+		if err := w.blockchainListener.PubSubService().Store().Init(
+			passphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while initializing pubsub service. " +
+					"Pubsub not available for the current session.",
+			)
+			return
+		}
+	}
+	if err := w.blockchainListener.PubSubService().Store().Unlock(
+		passphrase,
+	); err != nil {
+		log.WithError(err).Warn(
+			"an error occured while unlocking pubsub internal store",
+		)
+	}
+}
+
 func (w *walletService) PassphraseChan() chan PassphraseMsg {
 	return w.pwChan
 }
-- 
2.43.0


From 68cbbf14afb3c3dfb271798cac79016580f2edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 046/101] fix: serialize concurrent initializations of the
 wallet

---
 internal/core/application/wallet_service.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 0864260..b747f9c 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -76,8 +76,9 @@ type walletService struct {
 	marketFee          int64
 	marketBaseAsset    string
 
-	lock   *sync.RWMutex
-	pwChan chan PassphraseMsg
+	lock     *sync.RWMutex
+	initLock sync.Mutex
+	pwChan   chan PassphraseMsg
 }
 
 func NewWalletService(
@@ -176,6 +177,13 @@ func (w *walletService) InitWallet(
 	if w.isSyncing() {
 		return
 	}
+	// and this prevents concurrent calls from initializing the wallet and the
+	// stores protected by its password with different ones.
+	w.initLock.Lock()
+	defer w.initLock.Unlock()
+	if w.isInitialized() {
+		return
+	}
 
 	if restore {
 		w.setSyncing(true)
-- 
2.43.0


From 9614acfc19cce4fffce4726a898b0d5f54197f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 047/101] fix: return an error for malformed transactions
 received from the explorer

---
 pkg/explorer/esplora/types.go    | 13 ++++++++++++-
 pkg/explorer/esplora/unspents.go | 12 +++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/explorer/esplora/types.go b/pkg/explorer/esplora/types.go
index 5dd87ff..47322e1 100644
--- a/pkg/explorer/esplora/types.go
+++ b/pkg/explorer/esplora/types.go
@@ -35,7 +35,7 @@ func NewTxFromJSON(txJSON string) (explorer.Transaction, error) {
 }
 
 func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
-	t, err := transaction.NewTxFromHex(txhex)
+	t, err := parseTxHex(txhex)
 	if err != nil {
 		return nil, err
 	}
@@ -52,6 +52,17 @@ func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
 	}, nil
 }
 
+// parseTxHex decodes the given tx hex. The decoder trusts the lengths found in
+// the encoding, hence a malformed one can make it panic.
+func parseTxHex(txHex string) (t *transaction.Transaction, err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			t, err = nil, fmt.Errorf("invalid tx hex: %v", rec)
+		}
+	}()
+	return transaction.NewTxFromHex(txHex)
+}
+
 func (t *tx) Hash() string {
 	return t.TxHash
 }
diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index f8a5082..aadc91d 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -161,7 +161,17 @@ func (e *esplora) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
-	trx, _ := transaction.NewTxFromHex(prevoutTxHex)
+	trx, err := parseTxHex(prevoutTxHex)
+	if err != nil {
+		chRes <- utxoResult{err: err}
+		return
+	}
+	if utxo.Index() >= uint32(len(trx.Outputs)) {
+		chRes <- utxoResult{err: fmt.Errorf(
+			"output index %d out of range for tx %s", utxo.Index(), utxo.Hash(),
+		)}
+		return
+	}
 	prevout := trx.Outputs[utxo.Index()]
 
 	if utxo.IsConfidential() {
-- 
2.43.0


From bbeab17cf45b5f69996a996d66866e1487d710f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 048/101] fix: don't leak the goroutines of failed requests to
 the explorer

---
 pkg/explorer/esplora/transaction.go | 2 +-
 pkg/explorer/esplora/unspents.go    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index 22fc37c..b4fb073 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -185,7 +185,7 @@ func parseTransactions(txList string) ([]explorer.Transaction, error) {
 	}
 
 	txs := make([]explorer.Transaction, 0, len(txInterfaces))
-	chRes := make(chan txResult)
+	chRes := make(chan txResult, len(txInterfaces))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(txInterfaces))
 
diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index aadc91d..2d0ec09 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -26,7 +26,7 @@ func (e *esplora) GetUnspentsForAddresses(
 	addresses []string,
 	blindingKeys [][]byte,
 ) ([]explorer.Utxo, error) {
-	chRes := make(chan utxosResult)
+	chRes := make(chan utxosResult, len(addresses))
 	utxos := make([]explorer.Utxo, 0)
 	wg := &sync.WaitGroup{}
 	wg.Add(len(addresses))
@@ -78,7 +78,7 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	}
 
 	utxos := make([]explorer.Utxo, 0, len(witnessOuts))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(witnessOuts))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(witnessOuts))
 
@@ -106,7 +106,7 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	}
 
 	if len(utxosToUnblind) > 0 {
-		chRes := make(chan utxoResult)
+		chRes := make(chan utxoResult, len(utxosToUnblind))
 		wg.Add(len(utxosToUnblind))
 
 		go func() {
-- 
2.43.0


From 1f7efc48ab5c6127ae58a4971ee01ccb5d4f57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 049/101] fix: reject malformed confidential outputs instead of
 crashing when unblinding them

---
 pkg/transactionutil/transactionutil.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/transactionutil/transactionutil.go b/pkg/transactionutil/transactionutil.go
index 0b3dddc..173963e 100644
--- a/pkg/transactionutil/transactionutil.go
+++ b/pkg/transactionutil/transactionutil.go
@@ -2,6 +2,7 @@ package transactionutil
 
 import (
 	"encoding/hex"
+	"fmt"
 
 	"github.com/vulpemventures/go-elements/network"
 	"github.com/vulpemventures/go-elements/pset"
@@ -24,7 +25,7 @@ func UnblindOutput(
 	blindKey []byte,
 ) (*UnblindedResult, bool) {
 	if utxo.IsConfidential() {
-		revealed, err := confidential.UnblindOutputWithKey(utxo, blindKey)
+		revealed, err := unblindOutputWithKey(utxo, blindKey)
 		if err != nil {
 			return nil, false
 		}
@@ -44,6 +45,26 @@ func UnblindOutput(
 	}, true
 }
 
+// unblindOutputWithKey prevents malformed commitments and proofs from reaching
+// the native library, and recovers if a proof does not carry the expected
+// message.
+func unblindOutputWithKey(
+	out *transaction.TxOutput,
+	blindKey []byte,
+) (res *confidential.UnblindOutputResult, err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			res, err = nil, fmt.Errorf("invalid confidential output: %v", rec)
+		}
+	}()
+
+	if len(out.Asset) != 33 || len(out.Value) != 33 || len(out.RangeProof) <= 0 {
+		return nil, fmt.Errorf("invalid confidential output")
+	}
+
+	return confidential.UnblindOutputWithKey(out, blindKey)
+}
+
 func NewFeeOutput(feeAmount uint64, net *network.Network) []*transaction.TxOutput {
 	feeAsset, _ := bufferutil.AssetHashToBytes(net.AssetID)
 	feeValue, _ := bufferutil.ValueToBytes(feeAmount)
-- 
2.43.0


From a7a322ffa73336e9e0bd0853636d4ac9b31870fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 050/101] fix: reject confidential utxos whose transaction has
 an unconfidential output

---
 pkg/explorer/esplora/unspents.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index 2d0ec09..7f55049 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -174,6 +174,13 @@ func (e *esplora) getUtxoDetails(
 	}
 	prevout := trx.Outputs[utxo.Index()]
 
+	if utxo.IsConfidential() && !prevout.IsConfidential() {
+		chRes <- utxoResult{err: fmt.Errorf(
+			"output %d of tx %s is not confidential", utxo.Index(), utxo.Hash(),
+		)}
+		return
+	}
+
 	if utxo.IsConfidential() {
 		utxo.UNonce = prevout.Nonce
 		utxo.URangeProof = prevout.RangeProof
-- 
2.43.0


From 3b5a208fad5b5979e1cc4b3e65d1e512a2e86317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 051/101] fix: parse the transactions listed by the explorer
 for an address

---
 pkg/explorer/esplora/transaction.go |   2 +-
 pkg/explorer/esplora/types.go       | 145 ++++++++++++++++++++--------
 2 files changed, 104 insertions(+), 43 deletions(-)

diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index b4fb073..cfd5707 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -179,7 +179,7 @@ type txResult struct {
 }
 
 func parseTransactions(txList string) ([]explorer.Transaction, error) {
-	txInterfaces := make([]interface{}, 0)
+	txInterfaces := make([]json.RawMessage, 0)
 	if err := json.Unmarshal([]byte(txList), &txInterfaces); err != nil {
 		return nil, err
 	}
diff --git a/pkg/explorer/esplora/types.go b/pkg/explorer/esplora/types.go
index 47322e1..893640f 100644
--- a/pkg/explorer/esplora/types.go
+++ b/pkg/explorer/esplora/types.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
-	"github.com/vulpemventures/go-elements/elementsutil"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -95,63 +94,125 @@ func (t *tx) Confirmed() bool {
 	return t.TxConfirmed
 }
 
-func parseInput(i interface{}) *transaction.TxInput {
-	m := i.(map[string]interface{})
+// UnmarshalJSON parses a transaction in the format of the explorer.
+func (t *tx) UnmarshalJSON(data []byte) error {
+	var m struct {
+		Txid     string       `json:"txid"`
+		Version  int          `json:"version"`
+		Locktime int          `json:"locktime"`
+		Vin      []jsonInput  `json:"vin"`
+		Vout     []jsonOutput `json:"vout"`
+		Size     int          `json:"size"`
+		Weight   int          `json:"weight"`
+		Status   status       `json:"status"`
+	}
+	if err := json.Unmarshal(data, &m); err != nil {
+		return err
+	}
+	if len(m.Txid) <= 0 {
+		return fmt.Errorf("missing txid")
+	}
+
+	ins := make([]*transaction.TxInput, 0, len(m.Vin))
+	for _, i := range m.Vin {
+		in, err := i.parse()
+		if err != nil {
+			return err
+		}
+		ins = append(ins, in)
+	}
+	outs := make([]*transaction.TxOutput, 0, len(m.Vout))
+	for _, o := range m.Vout {
+		out, err := o.parse()
+		if err != nil {
+			return err
+		}
+		outs = append(outs, out)
+	}
 
-	txid := interfaceToBytes(m["txid"])
-	vout := uint32(m["vout"].(float64))
-	in := transaction.NewTxInput(elementsutil.ReverseBytes(txid), vout)
+	*t = tx{
+		TxHash:      m.Txid,
+		TxVersion:   m.Version,
+		TxLocktime:  m.Locktime,
+		TxInputs:    ins,
+		TxOutputs:   outs,
+		TxSize:      m.Size,
+		TxWeight:    m.Weight,
+		TxConfirmed: m.Status.Confirmed,
+	}
+	return nil
+}
 
-	in.Script = interfaceToBytes(m["scriptsig"])
+type jsonInput struct {
+	Txid      string   `json:"txid"`
+	Vout      uint32   `json:"vout"`
+	ScriptSig string   `json:"scriptsig"`
+	Witness   []string `json:"witness"`
+	Sequence  uint32   `json:"sequence"`
+	IsPegin   bool     `json:"is_pegin"`
+}
 
-	if m["witness"] != nil {
-		in.Witness = parseWitness(m["witness"])
+func (i jsonInput) parse() (*transaction.TxInput, error) {
+	txid, err := bufferutil.TxIDToBytes(i.Txid)
+	if err != nil {
+		return nil, err
 	}
+	in := transaction.NewTxInput(txid, i.Vout)
 
-	in.Sequence = uint32(m["sequence"].(float64))
-	in.IsPegin = m["is_pegin"].(bool)
+	if in.Script, err = hex.DecodeString(i.ScriptSig); err != nil {
+		return nil, err
+	}
+	for _, w := range i.Witness {
+		buf, err := hex.DecodeString(w)
+		if err != nil {
+			return nil, err
+		}
+		in.Witness = append(in.Witness, buf)
+	}
+	in.Sequence = i.Sequence
+	in.IsPegin = i.IsPegin
 
 	// TODO: parse issuance
-	return in
+	return in, nil
 }
 
-func parseOutput(i interface{}) *transaction.TxOutput {
-	m := i.(map[string]interface{})
+type jsonOutput struct {
+	Script          string  `json:"scriptpubkey"`
+	Asset           *string `json:"asset"`
+	AssetCommitment string  `json:"assetcommitment"`
+	Value           *uint64 `json:"value"`
+	ValueCommitment string  `json:"valuecommitment"`
+}
 
-	asset := make([]byte, 33)
-	if m["asset"] != nil {
-		asset, _ = bufferutil.AssetHashToBytes(m["asset"].(string))
-	} else {
-		asset = interfaceToBytes(m["assetcommitment"])
+func (o jsonOutput) parse() (*transaction.TxOutput, error) {
+	asset, err := bufferutil.CommitmentToBytes(o.AssetCommitment)
+	if err != nil {
+		return nil, err
+	}
+	if o.Asset != nil {
+		if asset, err = bufferutil.AssetHashToBytes(*o.Asset); err != nil {
+			return nil, err
+		}
 	}
 
-	value := make([]byte, 0)
-	if m["value"] != nil {
-		value, _ = bufferutil.ValueToBytes(uint64(m["value"].(float64)))
-	} else {
-		value = interfaceToBytes(m["valuecommitment"])
+	value, err := bufferutil.CommitmentToBytes(o.ValueCommitment)
+	if err != nil {
+		return nil, err
+	}
+	if o.Value != nil {
+		if value, err = bufferutil.ValueToBytes(*o.Value); err != nil {
+			return nil, err
+		}
+	}
+
+	script, err := hex.DecodeString(o.Script)
+	if err != nil {
+		return nil, err
 	}
-	script := interfaceToBytes(m["scriptpubkey"])
 
 	// TODO: parse nonce and proof; these values must be retrieved by parsing the
 	// hex of the transaction like done in getUtxoDetails
-	return transaction.NewTxOutput(asset, value, script)
-}
-
-func interfaceToBytes(i interface{}) []byte {
-	s := i.(string)
-	buf, _ := hex.DecodeString(s)
-	return buf
-}
-
-func parseWitness(i interface{}) transaction.TxWitness {
-	witnesses := i.([]interface{})
-	buf := make(transaction.TxWitness, 0, len(witnesses))
-	for _, wit := range witnesses {
-		b := interfaceToBytes(wit)
-		buf = append(buf, b)
-	}
-	return buf
+	return transaction.NewTxOutput(asset, value, script), nil
 }
 
 /**** UTXO *****/
-- 
2.43.0


From e6485a8d3525d68943cb0cd5a90e1a0022af48a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 052/101] fix: return an error for malformed swap transactions
 instead of crashing

---
 internal/core/application/types.go     |  2 +-
 pkg/swap/complete.go                   | 24 +++++++++++++++++++-----
 pkg/swap/request.go                    |  4 ++--
 pkg/swap/swap.go                       |  4 ++--
 pkg/transactionutil/transactionutil.go | 26 +++++++++++++++++++++++++-
 5 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index 5fbe695..5f6387e 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -251,7 +251,7 @@ func (t transactionManager) ExtractUnspents(
 	infoByScript map[string]domain.AddressInfo,
 	network *network.Network,
 ) ([]domain.Unspent, []domain.UnspentKey, error) {
-	tx, err := transaction.NewTxFromHex(txHex)
+	tx, err := transactionutil.ParseTxHex(txHex)
 	if err != nil {
 		return nil, nil, err
 	}
diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 6d44d91..7520ff7 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"fmt"
 
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
 	"github.com/vulpemventures/go-elements/pset"
@@ -28,12 +29,12 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 
 	var tx *transaction.Transaction
 	if !isHex(complete.Transaction) {
-		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
+		ptx, err := transactionutil.ParsePset(complete.Transaction)
 		if err != nil {
 			return "", nil, fmt.Errorf("transaction in base64 format is invalid")
 		}
 
-		ok, err := ptx.ValidateAllSignatures()
+		ok, err := validateSignatures(ptx)
 		if err != nil {
 			return "", nil, err
 		}
@@ -42,13 +43,13 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		}
 		tx = ptx.UnsignedTx
 	} else {
-		tx, err = transaction.NewTxFromHex(complete.Transaction)
+		tx, err = transactionutil.ParseTxHex(complete.Transaction)
 		if err != nil {
 			return "", nil, fmt.Errorf("transaction in hex format is invalid")
 		}
 	}
 
-	acceptedPtx, err := pset.NewPsetFromBase64(msgAccept.GetTransaction())
+	acceptedPtx, err := transactionutil.ParsePset(msgAccept.GetTransaction())
 	if err != nil {
 		return "", nil, fmt.Errorf("accepted transaction is invalid")
 	}
@@ -82,7 +83,7 @@ type ValidateCompletePsetOpts struct {
 // ValidateCompletePset takes a VerifyCompeltePsetOpts and returns whether the
 // final signed pset matches the original SwapRequest message
 func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
-	ptx, err := pset.NewPsetFromBase64(opts.PsetBase64)
+	ptx, err := transactionutil.ParsePset(opts.PsetBase64)
 	if err != nil {
 		return err
 	}
@@ -134,6 +135,19 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 	return nil
 }
 
+// validateSignatures returns whether the signatures of the partial transaction
+// are all valid. The validator panics on some malformed inputs, for which an
+// error is returned here.
+func validateSignatures(ptx *pset.Pset) (ok bool, err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			ok, err = false, fmt.Errorf("invalid signatures: %v", rec)
+		}
+	}()
+
+	return ptx.ValidateAllSignatures()
+}
+
 // unsignedTxHash returns the hash of the transaction stripped of the signature
 // scripts of its inputs.
 func unsignedTxHash(tx *transaction.Transaction) string {
diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 4d0f50b..87c67e1 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -4,9 +4,9 @@ import (
 	"encoding/hex"
 	"fmt"
 
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
-	"github.com/vulpemventures/go-elements/pset"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -62,7 +62,7 @@ func checkTxAndBlindKeys(
 	psetBase64 string,
 	inBlindKeys, outBlindKeys map[string][]byte,
 ) error {
-	ptx, err := pset.NewPsetFromBase64(psetBase64)
+	ptx, err := transactionutil.ParsePset(psetBase64)
 	if err != nil {
 		return fmt.Errorf("pset is not in a valid base64 format")
 	}
diff --git a/pkg/swap/swap.go b/pkg/swap/swap.go
index 68a874c..263f03e 100644
--- a/pkg/swap/swap.go
+++ b/pkg/swap/swap.go
@@ -13,7 +13,7 @@ import (
 )
 
 func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccept) error {
-	decodedFromRequest, err := pset.NewPsetFromBase64(request.GetTransaction())
+	decodedFromRequest, err := transactionutil.ParsePset(request.GetTransaction())
 	if err != nil {
 		return err
 	}
@@ -44,7 +44,7 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 	}
 
 	if accept != nil {
-		decodedFromAccept, err := pset.NewPsetFromBase64(accept.GetTransaction())
+		decodedFromAccept, err := transactionutil.ParsePset(accept.GetTransaction())
 		if err != nil {
 			return err
 		}
diff --git a/pkg/transactionutil/transactionutil.go b/pkg/transactionutil/transactionutil.go
index 173963e..c2ab0d3 100644
--- a/pkg/transactionutil/transactionutil.go
+++ b/pkg/transactionutil/transactionutil.go
@@ -74,8 +74,32 @@ func NewFeeOutput(feeAmount uint64, net *network.Network) []*transaction.TxOutpu
 	}
 }
 
+// ParsePset decodes the partial transaction in base64 format. The decoder
+// panics on some malformed transactions, for which an error is returned here.
+func ParsePset(psetBase64 string) (ptx *pset.Pset, err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			ptx, err = nil, fmt.Errorf("invalid pset: %v", rec)
+		}
+	}()
+
+	return pset.NewPsetFromBase64(psetBase64)
+}
+
+// ParseTxHex decodes the transaction in hex format. The decoder panics on some
+// malformed transactions, for which an error is returned here.
+func ParseTxHex(txHex string) (tx *transaction.Transaction, err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			tx, err = nil, fmt.Errorf("invalid transaction: %v", rec)
+		}
+	}()
+
+	return transaction.NewTxFromHex(txHex)
+}
+
 func GetTxIdFromPset(psetBase64 string) (string, error) {
-	p, err := pset.NewPsetFromBase64(psetBase64)
+	p, err := ParsePset(psetBase64)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 13cf5487e0fce2ea55aa245647e1a16af197a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 053/101] fix: select enough coins to cover the network fees of
 a transaction

---
 pkg/wallet/transaction.go | 49 +++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 328bca4..3d9e7ab 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -396,20 +396,20 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount - feeAmount)
 				} else {
 					unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-					selectedUnspents, change, err := explorer.SelectUnspents(
+					selectedUnspents, change, fee, err := selectUnspentsForFees(
 						unspents,
-						DummyFeeAmount,
 						opts.Network.AssetID,
+						changeAmount,
+						func(nInputs int) uint64 {
+							return calcFeeAmount(ptx, len(inputsToAdd)+nInputs, len(outputsToAdd), opts.MilliSatsPerBytes)
+						},
 					)
 					if err != nil {
 						return nil, err
 					}
 					inputsToAdd = append(inputsToAdd, selectedUnspents...)
-
-					feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes)
-					change += DummyFeeAmount - feeAmount
-					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount + change)
-
+					feeAmount = fee
+					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(change)
 				}
 			} else {
 				// In case there's no LBTC change, it's necessary to choose some other
@@ -417,18 +417,19 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				// inputs to add to the tx and add another output for the eventual change
 				// returned by the coin selection
 				unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-				selectedUnspents, change, err := explorer.SelectUnspents(
+				selectedUnspents, change, fee, err := selectUnspentsForFees(
 					unspents,
-					DummyFeeAmount,
 					opts.Network.AssetID,
+					0,
+					func(nInputs int) uint64 {
+						return calcFeeAmount(ptx, len(inputsToAdd)+nInputs, len(outputsToAdd)+1, opts.MilliSatsPerBytes)
+					},
 				)
 				if err != nil {
 					return nil, err
 				}
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
-
-				feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes)
-				change += DummyFeeAmount - feeAmount
+				feeAmount = fee
 
 				lbtcChangeOutput, _ := newTxOutput(
 					opts.Network.AssetID,
@@ -467,6 +468,30 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 	}, nil
 }
 
+// selectUnspentsForFees selects the unspents that cover, along with the given
+// already available amount, the fee amount of the tx that includes them as
+// inputs. The change returned is the amount left, always greater than zero.
+func selectUnspentsForFees(
+	unspents []explorer.Utxo,
+	asset string,
+	availableAmount uint64,
+	getFeeAmount func(nInputs int) uint64,
+) ([]explorer.Utxo, uint64, uint64, error) {
+	target := DummyFeeAmount
+	for {
+		coins, change, err := explorer.SelectUnspents(unspents, target, asset)
+		if err != nil {
+			return nil, 0, 0, err
+		}
+		feeAmount := getFeeAmount(len(coins))
+		total := availableAmount + target + change
+		if total > feeAmount {
+			return coins, total - feeAmount, feeAmount, nil
+		}
+		target = feeAmount - availableAmount + 1
+	}
+}
+
 // FinalizeAndExtractTransactionOpts is the struct given to FinalizeAndExtractTransaction method
 type FinalizeAndExtractTransactionOpts struct {
 	PsetBase64 string
-- 
2.43.0


From 1ffb33a3c19ec15b41aaf1268a6218f1229d02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 054/101] fix: estimate the size of transactions with empty
 scripts instead of panicking

---
 pkg/wallet/util.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/wallet/util.go b/pkg/wallet/util.go
index 61a0086..922cfed 100644
--- a/pkg/wallet/util.go
+++ b/pkg/wallet/util.go
@@ -161,6 +161,14 @@ func addInsAndOutsToPset(
 	return ptx.ToBase64()
 }
 
+// scriptType returns the type of the given script, or -1 if it's too short.
+func scriptType(script []byte) int {
+	if len(script) < 2 {
+		return -1
+	}
+	return address.GetScriptType(script)
+}
+
 func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []int) {
 	inScriptTypes := make([]int, len(ptx.Inputs), len(ptx.Inputs))
 	inAuxiliaryRedeemScriptSize := make([]int, 0)
@@ -174,7 +182,7 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 			prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
 		}
 
-		sType := address.GetScriptType(prevout.Script)
+		sType := scriptType(prevout.Script)
 		switch sType {
 		case address.P2ShScript:
 			if in.WitnessScript != nil {
@@ -214,7 +222,7 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 	outScriptTypes := make([]int, len(ptx.Outputs), len(ptx.Outputs))
 	outAuxiliaryRedeemScriptSize := make([]int, 0)
 	for i, out := range ptx.UnsignedTx.Outputs {
-		sType := address.GetScriptType(out.Script)
+		sType := scriptType(out.Script)
 		switch sType {
 		case address.P2PkhScript:
 			outScriptTypes[i] = P2PKH
-- 
2.43.0


From da0b06058812bfbd8b8231b3a4dd0573c921254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 055/101] fix: use zero blinders for unconfidential coins of
 accepted swaps instead of crashing

---
 internal/core/application/trade_service.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index fb7d374..6f7698d 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -850,12 +850,7 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	inputsToSign := len(selectedUnspents)
 
 	for i, u := range selectedUnspents {
-		inputBlindingData[existingInputs+i] = wallet.BlindingData{
-			Asset:         u.Asset(),
-			Amount:        u.Value(),
-			AssetBlinder:  u.AssetBlinder(),
-			AmountBlinder: u.ValueBlinder(),
-		}
+		inputBlindingData[existingInputs+i] = getBlindingData(u)
 	}
 
 	outputBlindingKeys := opts.SwapRequest.GetOutputBlindingKey()
@@ -916,6 +911,21 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}, nil
 }
 
+// getBlindingData returns the blinding data of the given utxo. The blinders of
+// an unconfidential one are zero.
+func getBlindingData(u explorer.Utxo) wallet.BlindingData {
+	assetBlinder, valueBlinder := u.AssetBlinder(), u.ValueBlinder()
+	if !u.IsConfidential() || !u.IsRevealed() {
+		assetBlinder, valueBlinder = make([]byte, 32), make([]byte, 32)
+	}
+	return wallet.BlindingData{
+		Asset:         u.Asset(),
+		Amount:        u.Value(),
+		AssetBlinder:  assetBlinder,
+		AmountBlinder: valueBlinder,
+	}
+}
+
 func getSelectedInfo(allInfo domain.AddressesInfo, utxos []explorer.Utxo) domain.AddressesInfo {
 	contains := func(script string) *domain.AddressInfo {
 		for _, info := range allInfo {
-- 
2.43.0


From 7173b86885d0b7998f6fab1a556159723676c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 056/101] fix: blind payouts with the data of their coins and
 each change with its own key

---
 internal/core/application/wallet_service.go | 66 +++++++++++++++++----
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index b747f9c..4dfa15c 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -1051,12 +1051,6 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// update the list of output blinding keys with those of the eventual changes
-	outputsBlindingKeys := opts.outputsBlindingKeys
-	for _, v := range updateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
-	}
-
 	// add inputs for paying network fees
 	feeUpdateResult, err := w.UpdateTx(wallet.UpdateTxOpts{
 		PsetBase64:         updateResult.PsetBase64,
@@ -1070,14 +1064,25 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// again, add changes' blinding keys to the list of those of the outputs
-	for _, v := range feeUpdateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	// update the list of output blinding keys with those of the eventual
+	// changes, in the same order they have been added to the transaction
+	outputsBlindingKeys, err := appendChangeBlindingKeys(
+		opts.outputsBlindingKeys,
+		feeUpdateResult.PsetBase64,
+		updateResult.ChangeOutputsBlindingKeys,
+		feeUpdateResult.ChangeOutputsBlindingKeys,
+	)
+	if err != nil {
+		return "", err
 	}
 
-	// blind the transaction
-	blindedPset, err := w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{
-		PsetBase64:         feeUpdateResult.PsetBase64,
+	// blind the transaction. The range proofs of the utxos are not persisted,
+	// therefore the blinders revealed when they've been added must be used.
+	blindedPset, err := w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{
+		PsetBase64: feeUpdateResult.PsetBase64,
+		InputBlindingData: getInputBlindingData(
+			updateResult.SelectedUnspents, feeUpdateResult.SelectedUnspents,
+		),
 		OutputBlindingKeys: outputsBlindingKeys,
 	})
 	if err != nil {
@@ -1117,6 +1122,43 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	return txHex, nil
 }
 
+// appendChangeBlindingKeys appends to the list of blinding keys of the
+// requested outputs those of the changes that follow them in the transaction.
+func appendChangeBlindingKeys(
+	keys [][]byte,
+	psetBase64 string,
+	changeKeysByScript ...map[string][]byte,
+) ([][]byte, error) {
+	ptx, err := transactionutil.ParsePset(psetBase64)
+	if err != nil {
+		return nil, err
+	}
+
+	outputKeys := append([][]byte{}, keys...)
+	for _, out := range ptx.UnsignedTx.Outputs[len(keys):] {
+		script := hex.EncodeToString(out.Script)
+		for _, keyByScript := range changeKeysByScript {
+			if key, ok := keyByScript[script]; ok {
+				outputKeys = append(outputKeys, key)
+				break
+			}
+		}
+	}
+	return outputKeys, nil
+}
+
+// getInputBlindingData returns the blinding data of the given lists of inputs,
+// by their index in the transaction.
+func getInputBlindingData(unspents ...[]explorer.Utxo) map[int]wallet.BlindingData {
+	data := make(map[int]wallet.BlindingData)
+	for _, list := range unspents {
+		for _, u := range list {
+			data[len(data)] = getBlindingData(u)
+		}
+	}
+	return data
+}
+
 func getDerivationPathsForUnspents(
 	account *domain.Account,
 	unspents []explorer.Utxo,
-- 
2.43.0


From 5015ab0181e128a80ced582deeb86d127fb4a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 057/101] fix: persist the change addresses of payouts before
 broadcasting them once

---
 internal/core/application/operator_service.go | 17 +++++++++--------
 internal/core/application/wallet_service.go   | 19 +++++++++----------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 39a7cb4..8cd0034 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -843,14 +843,7 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
-	var txid string
-	if req.Push {
-		txid, err = o.explorerSvc.BroadcastTransaction(txHex)
-		if err != nil {
-			return nil, err
-		}
-	}
-
+	// the change addresses must be persisted before the tx is broadcasted.
 	if err := o.repoManager.VaultRepository().UpdateVault(
 		ctx,
 		func(_ *domain.Vault) (*domain.Vault, error) {
@@ -860,6 +853,14 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
+	var txid string
+	if req.Push {
+		txid, err = o.explorerSvc.BroadcastTransaction(txHex)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	extractUnspentsFromTxAndUpdateUtxoSet(
 		o.repoManager.UnspentRepository(),
 		o.repoManager.VaultRepository(),
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 4dfa15c..e7eb573 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -567,22 +567,21 @@ func (w *walletService) SendToMany(
 
 			txHex = _txHex
 
-			if !req.Push {
-				return v, nil
-			}
-
-			txid, err = w.explorerService.BroadcastTransaction(txHex)
-			if err != nil {
-				return nil, err
-			}
-			log.Debugf("wallet account tx broadcasted with id: %s", txid)
-
 			return v, nil
 		},
 	); err != nil {
 		return nil, err
 	}
 
+	// the tx is broadcasted once and after the change addresses are persisted.
+	if req.Push {
+		txid, err = w.explorerService.BroadcastTransaction(txHex)
+		if err != nil {
+			return nil, err
+		}
+		log.Debugf("wallet account tx broadcasted with id: %s", txid)
+	}
+
 	extractUnspentsFromTxAndUpdateUtxoSet(
 		w.repoManager.UnspentRepository(),
 		w.repoManager.VaultRepository(),
-- 
2.43.0


From 1a19cfb4569cc64d3489e75113b8e4b0b10ccb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 058/101] fix: refuse withdrawals from markets if the fee
 account is not funded

---
 internal/core/application/operator_service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 8cd0034..dfe158d 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -792,6 +792,9 @@ func (o *operatorService) WithdrawMarketFunds(
 	if err != nil {
 		return nil, err
 	}
+	if len(feeUnspents) <= 0 {
+		return nil, ErrFeeAccountNotFunded
+	}
 
 	mnemonic, err := vault.GetMnemonicSafe()
 	if err != nil {
-- 
2.43.0


From 9fb7db2144027c85f4e4f2a84824bf87a64501bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 059/101] fix: fail the restore of a wallet if the explorer
 does not tell whether an address is used

---
 internal/core/application/wallet_service.go | 50 ++++++++++++++-------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index e7eb573..71f92d9 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -635,12 +635,18 @@ func (w *walletService) restoreVault(
 		SigningMnemonic: mnemonic,
 	})
 
-	var feeRestoreInfo, walletRestoreInfo *accountLastDerivedIndex
-	var marketsRestoreInfo []*accountLastDerivedIndex
-
-	feeRestoreInfo = w.restoreAccount(ww, domain.FeeAccount)
-	walletRestoreInfo = w.restoreAccount(ww, domain.WalletAccount)
-	marketsRestoreInfo = w.restoreMarketAccounts(ww)
+	feeRestoreInfo, err := w.restoreAccount(ww, domain.FeeAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	walletRestoreInfo, err := w.restoreAccount(ww, domain.WalletAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	marketsRestoreInfo, err := w.restoreMarketAccounts(ww)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	// restore vault accounts
 	feeInfo, err := initVaultAccount(vault, domain.FeeAccount, feeRestoreInfo)
@@ -668,7 +674,7 @@ func (w *walletService) restoreVault(
 func (w *walletService) restoreAccount(
 	ww *wallet.Wallet,
 	accountIndex int,
-) *accountLastDerivedIndex {
+) (*accountLastDerivedIndex, error) {
 	lastDerivedIndex := &accountLastDerivedIndex{}
 	for chainIndex := 0; chainIndex <= 1; chainIndex++ {
 		firstUnusedAddress := -1
@@ -683,7 +689,13 @@ func (w *walletService) restoreAccount(
 				Script: script,
 			})
 
-			if !isAddressFunded(ctAddress, blindKey.Serialize(), w.explorerService) {
+			isFunded, err := isAddressFunded(
+				ctAddress, blindKey.Serialize(), w.explorerService,
+			)
+			if err != nil {
+				return nil, err
+			}
+			if !isFunded {
 				if firstUnusedAddress < 0 {
 					firstUnusedAddress = i
 				}
@@ -705,33 +717,36 @@ func (w *walletService) restoreAccount(
 
 	if lastDerivedIndex.external < 0 && lastDerivedIndex.internal < 0 {
 		log.Debugf("account %d empty", accountIndex)
-		return nil
+		return nil, nil
 	}
 	log.Debugf(
 		"account %d total fetched addresses: %d",
 		accountIndex, lastDerivedIndex.total(),
 	)
-	return lastDerivedIndex
+	return lastDerivedIndex, nil
 }
 
 func (w *walletService) restoreMarketAccounts(
 	ww *wallet.Wallet,
-) []*accountLastDerivedIndex {
+) ([]*accountLastDerivedIndex, error) {
 	marketsLastIndex := make([]*accountLastDerivedIndex, 0)
 	i := 0
 	for {
 		marketIndex := domain.MarketAccountStart + i
-		lastDerivedIndex := w.restoreAccount(
+		lastDerivedIndex, err := w.restoreAccount(
 			ww,
 			marketIndex,
 		)
+		if err != nil {
+			return nil, err
+		}
 		if lastDerivedIndex == nil {
 			break
 		}
 		marketsLastIndex = append(marketsLastIndex, lastDerivedIndex)
 		i++
 	}
-	return marketsLastIndex
+	return marketsLastIndex, nil
 }
 
 func (w *walletService) restoreMarket(
@@ -1210,13 +1225,14 @@ func initVaultAccount(
 	return addresses, nil
 }
 
-func isAddressFunded(addr string, blindKey []byte, explorerSvc explorer.Service) bool {
+func isAddressFunded(
+	addr string, blindKey []byte, explorerSvc explorer.Service,
+) (bool, error) {
 	txs, err := explorerSvc.GetTransactionsForAddress(addr, blindKey)
 	if err != nil {
-		// should we retry?
-		return false
+		return false, err
 	}
-	return len(txs) > 0
+	return len(txs) > 0, nil
 }
 
 func getBalancesByAsset(unspents []explorer.Utxo) map[string]BalanceInfo {
-- 
2.43.0


From 6ed792918213486532ec76806db1937cc96e0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 060/101] fix: leave nothing behind of a failed restore so that
 it can be attempted again

---
 internal/core/application/wallet_service.go | 54 ++++++++++++---------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 71f92d9..673772c 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -187,6 +187,7 @@ func (w *walletService) InitWallet(
 
 	if restore {
 		w.setSyncing(true)
+		defer w.setSyncing(false)
 		log.Debug("restoring wallet")
 		start := time.Now()
 		defer func() {
@@ -197,7 +198,17 @@ func (w *walletService) InitWallet(
 		log.Debug("creating wallet")
 	}
 
-	vault, err := w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
+	var vault *domain.Vault
+	var err error
+	if restore {
+		// the vault is persisted only once everything is restored, so that a
+		// failure leaves nothing behind and the restore can be attempted again.
+		vault, err = domain.NewVault(mnemonic, passphrase, w.network)
+	} else {
+		vault, err = w.repoManager.VaultRepository().GetOrCreateVault(
+			ctx, mnemonic, passphrase, w.network,
+		)
+	}
 	if err != nil {
 		chErr <- fmt.Errorf("unable to retrieve vault: %v", err)
 		return
@@ -241,21 +252,11 @@ func (w *walletService) InitWallet(
 			unspentsByAddress[u.Address] = append(unspentsByAddress[u.Address], u)
 		}
 
-		// restore markets
-		mLen := len(marketInfoByAccount)
-		markets := make([]*domain.Market, mLen, mLen)
-		i := 0
-		for accountIndex, info := range marketInfoByAccount {
-			market, err := w.restoreMarket(ctx, accountIndex, info, unspentsByAddress)
-			if err != nil {
-				chErr <- fmt.Errorf("unable to restore market: %v", err)
-				return
-			}
-			markets[i] = market
-			i++
-		}
-
-		if err := w.persistRestoredState(ctx, vault, unspents, markets); err != nil {
+		// restore markets and persist everything
+		if err := w.persistRestoredState(
+			ctx, mnemonic, passphrase, vault, unspents,
+			marketInfoByAccount, unspentsByAddress,
+		); err != nil {
 			chErr <- fmt.Errorf("unable to persist restored state: %v", err)
 			return
 		}
@@ -279,9 +280,6 @@ func (w *walletService) InitWallet(
 		CurrentPwd: passphrase,
 	}
 	w.setInitialized(true)
-	if w.isSyncing() {
-		w.setSyncing(false)
-	}
 	log.Debug("done")
 }
 
@@ -782,15 +780,23 @@ func (w *walletService) restoreMarket(
 
 func (w *walletService) persistRestoredState(
 	ctx context.Context,
+	mnemonic []string,
+	passphrase string,
 	vault *domain.Vault,
 	unspents []domain.Unspent,
-	markets []*domain.Market,
+	marketInfoByAccount map[int]domain.AddressesInfo,
+	unspentsByAddress map[string][]domain.Unspent,
 ) error {
 	if _, err := w.repoManager.RunTransaction(
 		ctx,
 		false,
 		func(ctx context.Context) (interface{}, error) {
-			// update changes to vault
+			// create the vault and update its changes
+			if _, err := w.repoManager.VaultRepository().GetOrCreateVault(
+				ctx, mnemonic, passphrase, w.network,
+			); err != nil {
+				return nil, fmt.Errorf("unable to create the vault: %s", err)
+			}
 			if err := w.repoManager.VaultRepository().UpdateVault(
 				ctx,
 				func(v *domain.Vault) (*domain.Vault, error) {
@@ -801,7 +807,11 @@ func (w *walletService) persistRestoredState(
 			}
 
 			// update changes to markets
-			for _, m := range markets {
+			for accountIndex, info := range marketInfoByAccount {
+				m, err := w.restoreMarket(ctx, accountIndex, info, unspentsByAddress)
+				if err != nil {
+					return nil, fmt.Errorf("unable to restore market: %s", err)
+				}
 				if err := w.repoManager.MarketRepository().UpdateMarket(
 					ctx,
 					m.AccountIndex,
-- 
2.43.0


From bcb97bd3ad5886be8aee986aa732eef84c94984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 061/101] fix: restore wallets with markets whose coins do not
 tell both assets

---
 internal/core/application/wallet_service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 673772c..19c3e23 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -770,8 +770,12 @@ func (w *walletService) restoreMarket(
 			}
 		}
 
+		// the unspents left to a market do not always tell its assets. In this
+		// case it can be funded later by claiming its deposits.
 		if err := market.FundMarket(outpoints, w.marketBaseAsset); err != nil {
-			return nil, err
+			log.WithError(err).Warnf(
+				"market with account %d is restored without assets", accountIndex,
+			)
 		}
 	}
 
-- 
2.43.0


From 7026f26631b9792a97cc4ffcb9beee68e2d5bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 062/101] fix: report every failed restore and complete those
 whose client is gone

---
 internal/interfaces/grpc/handler/wallet.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/handler/wallet.go b/internal/interfaces/grpc/handler/wallet.go
index 51b3e73..a6ec0c1 100644
--- a/internal/interfaces/grpc/handler/wallet.go
+++ b/internal/interfaces/grpc/handler/wallet.go
@@ -121,7 +121,8 @@ func (w walletHandler) initWallet(
 			return err
 		case reply, ok := <-chReplies:
 			if !ok {
-				return nil
+				// the error, if any, is sent before the channels are closed.
+				return <-chErr
 			}
 			if err := stream.Send(&pb.InitWalletReply{
 				Account: uint64(reply.AccountIndex),
@@ -129,6 +130,11 @@ func (w walletHandler) initWallet(
 				Status:  pb.InitWalletReply_Status(reply.Status),
 				Data:    reply.Data,
 			}); err != nil {
+				// the service must not wait forever for a client that is gone.
+				go func() {
+					for range chReplies {
+					}
+				}()
 				return err
 			}
 		}
-- 
2.43.0


From bb7d514353bf7b6d76edafd6e9d48fd38e7790e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 063/101] fix: list trades with the fixed fees they were made
 with

---
 internal/core/application/operator_service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index dfe158d..3724a40 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1404,7 +1404,9 @@ func tradeToTradeInfo(
 				QuoteAsset: trade.MarketQuoteAsset,
 			},
 			Fee{
-				BasisPoint: trade.MarketFee,
+				BasisPoint:    trade.MarketFee,
+				FixedBaseFee:  trade.MarketFixedBaseFee,
+				FixedQuoteFee: trade.MarketFixedQuoteFee,
 			},
 		},
 		Price:            Price(trade.MarketPrice),
-- 
2.43.0


From 2e0c4af52acd1c84c3d73da110777cdceb138a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 064/101] fix: do not split small market deposits into
 fragments of zero

---
 cmd/tdex/fragmentmarket.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index bcc322a..c1238b1 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -285,15 +285,20 @@ func fragmentUnspents(pair AssetValuePair, fragmentationMap map[int]int) ([]uint
 	for numOfUtxo, percentage := range fragmentationMap {
 		for ; numOfUtxo > 0; numOfUtxo-- {
 			if pair.BaseValue > 0 {
-				baseAssetPart := percent(int(pair.BaseValue), percentage)
-				baseSum += uint64(baseAssetPart)
-				baseAssetFragments = append(baseAssetFragments, uint64(baseAssetPart))
+				baseAssetPart := uint64(percent(int(pair.BaseValue), percentage))
+				// small amounts can't be split into all fragments
+				if baseAssetPart > 0 {
+					baseSum += baseAssetPart
+					baseAssetFragments = append(baseAssetFragments, baseAssetPart)
+				}
 			}
 
 			if pair.QuoteValue > 0 {
-				quoteAssetPart := percent(int(pair.QuoteValue), percentage)
-				quoteSum += uint64(quoteAssetPart)
-				quoteAssetFragments = append(quoteAssetFragments, uint64(quoteAssetPart))
+				quoteAssetPart := uint64(percent(int(pair.QuoteValue), percentage))
+				if quoteAssetPart > 0 {
+					quoteSum += quoteAssetPart
+					quoteAssetFragments = append(quoteAssetFragments, quoteAssetPart)
+				}
 			}
 		}
 	}
@@ -310,9 +315,11 @@ func fragmentUnspents(pair AssetValuePair, fragmentationMap map[int]int) ([]uint
 	//add it to last fragment
 	if baseSum != pair.BaseValue {
 		baseRest := pair.BaseValue - baseSum
-		if baseRest > 0 {
+		if len(baseAssetFragments) > 0 {
 			baseAssetFragments[len(baseAssetFragments)-1] =
 				baseAssetFragments[len(baseAssetFragments)-1] + baseRest
+		} else {
+			baseAssetFragments = append(baseAssetFragments, baseRest)
 		}
 	}
 
@@ -320,9 +327,11 @@ func fragmentUnspents(pair AssetValuePair, fragmentationMap map[int]int) ([]uint
 	//add it to last fragment
 	if quoteSum != pair.QuoteValue {
 		quoteRest := pair.QuoteValue - quoteSum
-		if quoteRest > 0 {
+		if len(quoteAssetFragments) > 0 {
 			quoteAssetFragments[len(quoteAssetFragments)-1] =
 				quoteAssetFragments[len(quoteAssetFragments)-1] + quoteRest
+		} else {
+			quoteAssetFragments = append(quoteAssetFragments, quoteRest)
 		}
 	}
 
-- 
2.43.0


From 33c6a95df770134b1fe9276965b6afe301d7be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:09 +0000
Subject: [PATCH 065/101] fix: do not take the funds of a transaction twice
 when fragmenting deposits

---
 cmd/tdex/fragmentfee.go    | 16 +++++++++++++++-
 cmd/tdex/fragmentmarket.go |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index 2742ae2..767b1c4 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -229,7 +229,7 @@ func findBaseAssetsUnspents(
 	unspents := make([]explorer.Utxo, 0)
 	valuePerAsset := make(map[string]uint64, 0)
 
-	for _, txid := range txids {
+	for _, txid := range uniqueTxids(txids) {
 		u, err := getUnspents(explorerSvc, randomWallet, txid)
 		if err != nil {
 			return 0, nil, err
@@ -371,3 +371,17 @@ func waitForOperatorFunds() []string {
 	}
 	return strings.Split(trimmedIn, " ")
 }
+
+// uniqueTxids removes the duplicates from the given list so that the funds of
+// a transaction entered more than once are not taken twice.
+func uniqueTxids(txids []string) []string {
+	unique := make([]string, 0, len(txids))
+	seen := make(map[string]bool, len(txids))
+	for _, txid := range txids {
+		if !seen[txid] {
+			seen[txid] = true
+			unique = append(unique, txid)
+		}
+	}
+	return unique
+}
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index c1238b1..f12d119 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -352,7 +352,7 @@ func findAssetsUnspents(
 	var unspents []explorer.Utxo
 	valuePerAsset := make(map[string]uint64, 0)
 
-	for _, txid := range txids {
+	for _, txid := range uniqueTxids(txids) {
 		u, err := getUnspents(explorerSvc, randomWallet, txid)
 		if err != nil {
 			return assetValuePair, nil, err
-- 
2.43.0


From 0271ddfbdc09a024480d32a54b0a8cc3aef0322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 066/101] fix: do not unlock the wallet by failed or concurrent
 wrong attempts

UnlockWallet reported success for any password if another call unlocked the
wallet meanwhile, or left it unlocked, without notifying it, if the storage
failed. Calls are now executed and notified one at a time.
---
 internal/core/application/wallet_service.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 19c3e23..2700b63 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -76,7 +76,10 @@ type walletService struct {
 	marketFee          int64
 	marketBaseAsset    string
 
-	lock     *sync.RWMutex
+	lock *sync.RWMutex
+	// initLock is held by the operations that create, unlock or change the
+	// password of the wallet, so that they're executed, and notified through
+	// pwChan, one at a time.
 	initLock sync.Mutex
 	pwChan   chan PassphraseMsg
 }
@@ -294,6 +297,9 @@ func (w *walletService) UnlockWallet(
 		return ErrWalletNotInitialized
 	}
 
+	w.initLock.Lock()
+	defer w.initLock.Unlock()
+
 	vault, err := w.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		return err
@@ -314,6 +320,8 @@ func (w *walletService) UnlockWallet(
 		},
 	)
 	if err != nil {
+		// a failed attempt must not leave the vault unlocked.
+		vault.Lock()
 		walletMtx.Unlock()
 		return err
 	}
@@ -343,6 +351,9 @@ func (w *walletService) ChangePassword(
 		return ErrWalletNotInitialized
 	}
 
+	w.initLock.Lock()
+	defer w.initLock.Unlock()
+
 	walletMtx.Lock()
 	err := w.repoManager.VaultRepository().UpdateVault(
 		ctx,
-- 
2.43.0


From c592de2f7839a1890439ef36d4a303896358854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 067/101] fix: do not serve requests of a wallet that is still
 being initialized

---
 internal/core/application/wallet_service.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 2700b63..4073866 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -208,9 +208,15 @@ func (w *walletService) InitWallet(
 		// failure leaves nothing behind and the restore can be attempted again.
 		vault, err = domain.NewVault(mnemonic, passphrase, w.network)
 	} else {
+		// no operation must find the new vault before it's locked.
+		walletMtx.Lock()
 		vault, err = w.repoManager.VaultRepository().GetOrCreateVault(
 			ctx, mnemonic, passphrase, w.network,
 		)
+		if err == nil {
+			vault.Lock()
+		}
+		walletMtx.Unlock()
 	}
 	if err != nil {
 		chErr <- fmt.Errorf("unable to retrieve vault: %v", err)
@@ -802,6 +808,10 @@ func (w *walletService) persistRestoredState(
 	marketInfoByAccount map[int]domain.AddressesInfo,
 	unspentsByAddress map[string][]domain.Unspent,
 ) error {
+	// no operation must find the restored vault before it's locked.
+	walletMtx.Lock()
+	defer walletMtx.Unlock()
+
 	if _, err := w.repoManager.RunTransaction(
 		ctx,
 		false,
@@ -812,6 +822,7 @@ func (w *walletService) persistRestoredState(
 			); err != nil {
 				return nil, fmt.Errorf("unable to create the vault: %s", err)
 			}
+			vault.Lock()
 			if err := w.repoManager.VaultRepository().UpdateVault(
 				ctx,
 				func(v *domain.Vault) (*domain.Vault, error) {
-- 
2.43.0


From 0a9238ae8eec99cb1570bfbd763c9156a830a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 068/101] fix: report that the wallet is initialized already or
 syncing to who initializes it

---
 internal/core/application/wallet_service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 4073866..e77319e 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -33,6 +33,8 @@ var (
 	)
 	// ErrWalletNotInitialized ...
 	ErrWalletNotInitialized = fmt.Errorf("wallet not initialized")
+	// ErrWalletAlreadyInitialized ...
+	ErrWalletAlreadyInitialized = fmt.Errorf("wallet already initialized")
 )
 
 type WalletService interface {
@@ -173,11 +175,13 @@ func (w *walletService) InitWallet(
 		close(chRes)
 	}()
 	if w.isInitialized() {
+		chErr <- ErrWalletAlreadyInitialized
 		return
 	}
 	// this prevents strange behaviors by making consecutive calls to InitWallet
 	// while it's still syncing
 	if w.isSyncing() {
+		chErr <- ErrWalletIsSyncing
 		return
 	}
 	// and this prevents concurrent calls from initializing the wallet and the
@@ -185,6 +189,7 @@ func (w *walletService) InitWallet(
 	w.initLock.Lock()
 	defer w.initLock.Unlock()
 	if w.isInitialized() {
+		chErr <- ErrWalletAlreadyInitialized
 		return
 	}
 
-- 
2.43.0


From c5fc27710c6b7333f5d7a0b6cb1ed9ede0abd5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 069/101] fix: do not try all combinations of coins when
 selecting them

---
 pkg/explorer/coinselection.go | 75 ++++++++++-------------------------
 1 file changed, 20 insertions(+), 55 deletions(-)

diff --git a/pkg/explorer/coinselection.go b/pkg/explorer/coinselection.go
index 310aa75..bfa045f 100644
--- a/pkg/explorer/coinselection.go
+++ b/pkg/explorer/coinselection.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"sort"
-	"sync"
 )
 
 // SelectUnspents performs a coin selection over the given list of Utxos and
@@ -106,63 +105,29 @@ func isIndexOccupied(i int, list []int) bool {
 	return false
 }
 
-var combination = []uint64{}
-
-// combinationLock serializes the selections that share the buffer above
-var combinationLock sync.Mutex
-
-//getCombination is calculating all combinations for 'size' the elements of src array
-// number of combination formula -> len(src)! / size! * (len(src) - size)!
-func getCombination(src []uint64, size int, offset int) [][]uint64 {
-	result := [][]uint64{}
-	if size == 0 {
-		temp := make([]uint64, len(combination))
-		copy(temp, combination)
-		return append(result, temp)
-	}
-	for i := offset; i <= len(src)-size; i++ {
-		combination = append(combination, src[i])
-		temp := getCombination(src, size-1, i+1)
-		result = append(result, temp...)
-		combination = combination[:len(combination)-1]
-	}
-	return result[:]
-}
-func sum(items []uint64) uint64 {
-	var total uint64
-	for _, v := range items {
-		total += v
-	}
-	return total
-}
-
 //getBestCombination method implement strategy of selecting as less as possible
-//elements from items slice so that sum of elements is equal or greater than
-//target, with 10x ratio
-//It uses bellow logic:
-//1. set size = 1
-//2. uses Recursion (getCombination) to get all combinations for size elements in the input Array.
-//3. check each combination if meet the requirements from 0 -> i, if yes, return it (finish)
-//4. if none of combination matches, then size++ and go to Step 2.
+//elements from items slice, that must be in descending order, so that sum of
+//elements is equal or greater than target, with 10x ratio. Between those of the
+//same size, the combination with the biggest elements is preferred.
+//Elements exceeding the ratio can't be part of a good combination. If no other
+//element covers the target by itself, they're all smaller than it and the least
+//number of them is obtained by picking the biggest ones until they cover the
+//target, being the sum always lower than its double.
 func getBestCombination(items []uint64, target uint64) []uint64 {
-	combinationLock.Lock()
-	defer combinationLock.Unlock()
-
-	result := [][]uint64{}
-	for i := 1; i < len(items)+1; i++ {
-		result = append(result, getCombination(items, i, 0)...)
-		for j := 0; j < len(result); j++ {
-			total := sum(result[j])
-			if total < target {
-				continue
-			}
-			if total == target {
-				return result[j]
-			}
-			if total <= target*10 {
-				return result[j]
-			}
+	result := []uint64{}
+	missing := target
+	for _, v := range items {
+		if v > target && (v-1)/10 >= target {
+			continue
+		}
+		if v >= target {
+			return []uint64{v}
+		}
+		result = append(result, v)
+		if v >= missing {
+			return result
 		}
+		missing -= v
 	}
 
 	//if there is no good combination just return first which is greater
-- 
2.43.0


From f276abb1054f805a5b5f5fb43f5d76c59e42b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:11 +0000
Subject: [PATCH 070/101] fix: refuse to complete a trade if nothing is given
 to complete it

---
 internal/interfaces/grpc/handler/trade.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/interfaces/grpc/handler/trade.go b/internal/interfaces/grpc/handler/trade.go
index e39ed13..3c7fc50 100644
--- a/internal/interfaces/grpc/handler/trade.go
+++ b/internal/interfaces/grpc/handler/trade.go
@@ -273,6 +273,12 @@ func (t traderHandler) tradeComplete(
 	req *pb.TradeCompleteRequest,
 	stream pb.Trade_TradeCompleteServer,
 ) error {
+	if req.SwapComplete == nil && req.SwapFail == nil {
+		return status.Error(
+			codes.InvalidArgument, "either swap complete or swap fail is required",
+		)
+	}
+
 	var swapCompletePtr *domain.SwapComplete
 	var swapComplete domain.SwapComplete
 	if s := req.SwapComplete; s != nil {
-- 
2.43.0


From 8ae34299c3123922f521caa9dbea152b32c506e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:40 +0000
Subject: [PATCH 071/101] fix: refuse a price of a market that is not a finite
 number

---
 internal/interfaces/grpc/handler/operator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/interfaces/grpc/handler/operator.go b/internal/interfaces/grpc/handler/operator.go
index 5a4e361..4c10c2d 100644
--- a/internal/interfaces/grpc/handler/operator.go
+++ b/internal/interfaces/grpc/handler/operator.go
@@ -3,6 +3,7 @@ package grpchandler
 import (
 	"context"
 	"errors"
+	"math"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -847,6 +848,13 @@ func validatePrice(price *pbtypes.Price) error {
 	if price == nil {
 		return errors.New("price is null")
 	}
+	for _, p := range []float64{
+		float64(price.GetBasePrice()), float64(price.GetQuotePrice()),
+	} {
+		if math.IsNaN(p) || math.IsInf(p, 0) {
+			return errors.New("base or quote price are not finite numbers")
+		}
+	}
 	if price.GetBasePrice() <= 0 || price.GetQuotePrice() <= 0 {
 		return errors.New("base or quote price are too low")
 	}
-- 
2.43.0


From 1b6256b617546906bb529e68523ec70a25adcd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:49 +0000
Subject: [PATCH 072/101] fix: refuse to derive a negative or endless number of
 addresses

---
 internal/core/application/errors.go           |  3 +++
 internal/core/application/operator_service.go | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/core/application/errors.go b/internal/core/application/errors.go
index 445df0a..da74fe4 100644
--- a/internal/core/application/errors.go
+++ b/internal/core/application/errors.go
@@ -17,6 +17,9 @@ var (
 	ErrMarketNotFunded = errors.New("market account not funded")
 	// ErrMissingNonFundedMarkets ...
 	ErrMissingNonFundedMarkets = errors.New("no non-funded markets found")
+	// ErrInvalidNumOfAddresses is returned if attempting to derive a negative or
+	// too big number of addresses at once.
+	ErrInvalidNumOfAddresses = errors.New("number of addresses is out of range")
 	// ErrInvalidOutpoint ...
 	ErrInvalidOutpoint = errors.New("outpoint refers to inexistent tx output")
 	// ErrInvalidOutpoints ...
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 3724a40..a00311d 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -26,6 +26,10 @@ const (
 	feeDeposit
 )
 
+// maxNumOfAddresses is the max number of addresses that can be derived with a
+// single request.
+const maxNumOfAddresses = 10000
+
 // OperatorService defines the methods of the application layer for the operator service.
 type OperatorService interface {
 	DepositMarket(
@@ -137,6 +141,10 @@ func (o *operatorService) DepositMarket(
 	quoteAsset string,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
+	if numOfAddresses < 0 || numOfAddresses > maxNumOfAddresses {
+		return nil, ErrInvalidNumOfAddresses
+	}
+
 	walletMtx.Lock()
 	defer walletMtx.Unlock()
 
@@ -234,6 +242,9 @@ func (o *operatorService) DepositFeeAccount(
 	ctx context.Context,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
+	if numOfAddresses < 0 || numOfAddresses > maxNumOfAddresses {
+		return nil, ErrInvalidNumOfAddresses
+	}
 	if numOfAddresses == 0 {
 		numOfAddresses = 1
 	}
-- 
2.43.0


From 028b45082def165bdfd1281f5cccf2df12a7cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:49 +0000
Subject: [PATCH 073/101] fix: refuse to claim an output of a negative index

---
 internal/core/application/operator_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index a00311d..cf721e7 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1183,7 +1183,7 @@ func (o *operatorService) claimDeposit(
 			return err
 		}
 
-		if len(tx.Outputs()) <= v.Index {
+		if v.Index < 0 || v.Index >= len(tx.Outputs()) {
 			return ErrInvalidOutpoint
 		}
 
-- 
2.43.0


From 420c8e7a9a40cf393c160835a4948ffe483914a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:46 +0000
Subject: [PATCH 074/101] fix: do not spend coins of other assets when
 fragmenting the deposit of a market

---
 cmd/tdex/fragmentmarket.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index f12d119..f34d0f6 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -124,6 +124,7 @@ func fragmentMarketAction(ctx *cli.Context) error {
 			ephWallet,
 			explorerSvc,
 			baseAssetOpt,
+			quoteAssetOpt,
 			funds,
 		)
 		if err != nil {
@@ -346,6 +347,7 @@ func findAssetsUnspents(
 	randomWallet *trade.Wallet,
 	explorerSvc explorer.Service,
 	baseAssetKey string,
+	quoteAssetKey string,
 	txids []string,
 ) (AssetValuePair, []explorer.Utxo, error) {
 	var assetValuePair AssetValuePair
@@ -371,7 +373,8 @@ func findAssetsUnspents(
 			assetValuePair.BaseAsset = k
 			assetValuePair.BaseValue = v
 		} else {
-			if assetValuePair.QuoteAsset == "" {
+			isQuote := quoteAssetKey == "" || k == quoteAssetKey
+			if isQuote && assetValuePair.QuoteAsset == "" {
 				assetValuePair.QuoteAsset = k
 				assetValuePair.QuoteValue = v
 			} else {
@@ -382,6 +385,15 @@ func findAssetsUnspents(
 		}
 	}
 
+	// coins of any other asset must not be spent, the transaction would not be
+	// balanced otherwise.
+	selectedUnspents := make([]explorer.Utxo, 0, len(unspents))
+	for _, u := range unspents {
+		if a := u.Asset(); a == baseAssetKey || a == assetValuePair.QuoteAsset {
+			selectedUnspents = append(selectedUnspents, u)
+		}
+	}
+
 	if assetValuePair.BaseValue == 0 {
 		log.Warnf("base asset not funded, you'll need to make another depositmarket operation")
 	} else if assetValuePair.BaseValue < MinBaseDeposit {
@@ -399,7 +411,7 @@ func findAssetsUnspents(
 		)
 	}
 
-	return assetValuePair, unspents, nil
+	return assetValuePair, selectedUnspents, nil
 }
 
 func craftTransaction(
-- 
2.43.0


From dfc31f8beefbb29fc225d7ad6c4cfc96ece9dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 075/101] fix: do not take confidential outputs for another
 asset than they commit to

---
 pkg/transactionutil/transactionutil.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/transactionutil/transactionutil.go b/pkg/transactionutil/transactionutil.go
index c2ab0d3..30029a3 100644
--- a/pkg/transactionutil/transactionutil.go
+++ b/pkg/transactionutil/transactionutil.go
@@ -1,6 +1,7 @@
 package transactionutil
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -62,7 +63,22 @@ func unblindOutputWithKey(
 		return nil, fmt.Errorf("invalid confidential output")
 	}
 
-	return confidential.UnblindOutputWithKey(out, blindKey)
+	res, err = confidential.UnblindOutputWithKey(out, blindKey)
+	if err != nil {
+		return nil, err
+	}
+	// the asset is told by the blinder of the output: it's the right one only if
+	// the output commits to it.
+	commitment, err := confidential.AssetCommitment(
+		res.Asset, res.AssetBlindingFactor,
+	)
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(commitment, out.Asset) {
+		return nil, fmt.Errorf("asset does not match its commitment")
+	}
+	return res, nil
 }
 
 func NewFeeOutput(feeAmount uint64, net *network.Network) []*transaction.TxOutput {
-- 
2.43.0


From 1b210e7107d77f8f8edf5ddfc3ccc066ce06e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 076/101] fix: refuse previews without a price or of an asset
 not of the market in the trade client

---
 pkg/trade/preview.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/trade/preview.go b/pkg/trade/preview.go
index c2d7d18..43c1445 100644
--- a/pkg/trade/preview.go
+++ b/pkg/trade/preview.go
@@ -18,6 +18,10 @@ var (
 	ErrInvalidTradeType = errors.New("trade type must be either BUY or SELL")
 	// ErrInvalidAmount ...
 	ErrInvalidAmount = errors.New("amount must be a positive satoshi amount")
+	// ErrInvalidPreview ...
+	ErrInvalidPreview = errors.New(
+		"provider must preview a positive amount of the other asset of the market",
+	)
 )
 
 // PreviewOpts is the struct given to Preview method
@@ -69,7 +73,14 @@ func (t *Trade) Preview(opts PreviewOpts) (*PreviewResult, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(reply.GetPrices()) <= 0 {
+		return nil, ErrInvalidPreview
+	}
 	preview := reply.GetPrices()[0]
+	if preview.GetAmount() <= 0 ||
+		!isMarketPair(opts.Market, opts.Asset, preview.GetAsset()) {
+		return nil, ErrInvalidPreview
+	}
 
 	assetToSend := preview.GetAsset()
 	amountToSend := preview.GetAmount()
@@ -95,3 +106,8 @@ func (t *Trade) Preview(opts PreviewOpts) (*PreviewResult, error) {
 		AmountToReceive: amountToReceive,
 	}, nil
 }
+
+func isMarketPair(market trademarket.Market, asset, otherAsset string) bool {
+	return (asset == market.BaseAsset && otherAsset == market.QuoteAsset) ||
+		(asset == market.QuoteAsset && otherAsset == market.BaseAsset)
+}
-- 
2.43.0


From a9e3e96e6c67f90bbc2bad50725f99caec70c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 077/101] fix: report failed or unanswered trade proposals in
 the trade client

---
 pkg/trade/buy.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 75f6891..5e47783 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -193,11 +193,18 @@ func (t *Trade) marketOrderRequest(
 		SwapRequest: swapRequestMsg,
 		TradeType:   tradeType,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	if fail := reply.GetSwapFail(); fail != nil {
 		return nil, fmt.Errorf("trade proposal has been rejected for reason: %s", fail.GetFailureMessage())
 	}
 
+	if reply.GetSwapAccept() == nil {
+		return nil, errors.New("trade proposal has been neither accepted nor rejected")
+	}
+
 	return proto.Marshal(reply.GetSwapAccept())
 }
 
-- 
2.43.0


From f778bbe2fbe43bee5a25ba6e520f8e53e41c0b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 078/101] fix: do not crash on malformed transactions when
 signing in the trade client

---
 pkg/trade/wallet.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/trade/wallet.go b/pkg/trade/wallet.go
index ffcb7a7..774871d 100644
--- a/pkg/trade/wallet.go
+++ b/pkg/trade/wallet.go
@@ -8,6 +8,7 @@ import (
 	"github.com/btcsuite/btcd/txscript"
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	"github.com/vulpemventures/go-elements/network"
 	"github.com/vulpemventures/go-elements/payment"
 	"github.com/vulpemventures/go-elements/pset"
@@ -102,7 +103,7 @@ func (w *Wallet) Script() ([]byte, []byte) {
 }
 
 func (w *Wallet) Sign(psetBase64 string) (string, error) {
-	ptx, err := pset.NewPsetFromBase64(psetBase64)
+	ptx, err := transactionutil.ParsePset(psetBase64)
 	if err != nil {
 		return "", err
 	}
@@ -113,7 +114,8 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 
 	for i, in := range ptx.Inputs {
 		script, witnessScript := w.Script()
-		if bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
+		if in.WitnessUtxo != nil &&
+			bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
 			hashForSignature := ptx.UnsignedTx.HashForWitnessV0(
 				i,
 				script,
@@ -134,13 +136,15 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 			}
 
 			sigWithSigHashType := append(signature.Serialize(), byte(txscript.SigHashAll))
-			_, err = updater.Sign(
+			if _, err := updater.Sign(
 				i,
 				sigWithSigHashType,
 				w.privateKey.PubKey().SerializeCompressed(),
 				nil,
 				nil,
-			)
+			); err != nil {
+				return "", err
+			}
 		}
 	}
 
-- 
2.43.0


From e0f5d0e3cda754c987d12bbcec791b11405ff6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 079/101] fix: check that the accepted transaction is the
 proposed one before signing it in the trade client

---
 pkg/trade/buy.go    | 41 +++++++++++++++---------
 pkg/trade/sell.go   |  7 +++--
 pkg/trade/wallet.go | 76 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 107 insertions(+), 17 deletions(-)

diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 5e47783..8e09545 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -67,7 +67,7 @@ func (t *Trade) Buy(opts BuyOrSellOpts) ([]byte, error) {
 		return nil, err
 	}
 
-	return t.marketOrderRequest(
+	_, swapAcceptMsg, err := t.marketOrderRequest(
 		opts.Market,
 		tradetype.Buy,
 		opts.Amount,
@@ -75,6 +75,7 @@ func (t *Trade) Buy(opts BuyOrSellOpts) ([]byte, error) {
 		opts.Address,
 		opts.BlindingKey,
 	)
+	return swapAcceptMsg, err
 }
 
 // BuyOrSellAndCompleteOpts is the struct given to Buy method
@@ -115,7 +116,7 @@ func (t *Trade) BuyAndComplete(opts BuyOrSellAndCompleteOpts) (string, error) {
 	}
 
 	w := NewWalletFromKey(opts.PrivateKey, opts.BlindingKey, t.network)
-	swapAcceptMsg, err := t.marketOrderRequest(
+	swapRequestMsg, swapAcceptMsg, err := t.marketOrderRequest(
 		opts.Market,
 		tradetype.Buy,
 		opts.Amount,
@@ -127,7 +128,7 @@ func (t *Trade) BuyAndComplete(opts BuyOrSellAndCompleteOpts) (string, error) {
 		return "", err
 	}
 
-	return t.marketOrderComplete(swapAcceptMsg, w)
+	return t.marketOrderComplete(swapRequestMsg, swapAcceptMsg, w)
 }
 
 func (t *Trade) marketOrderRequest(
@@ -137,13 +138,13 @@ func (t *Trade) marketOrderRequest(
 	asset string,
 	addr string,
 	blindingKey []byte,
-) ([]byte, error) {
+) ([]byte, []byte, error) {
 	unspents, err := t.explorer.GetUnspents(addr, [][]byte{blindingKey})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	if len(unspents) <= 0 {
-		return nil, fmt.Errorf("address '%s' is not funded", addr)
+		return nil, nil, fmt.Errorf("address '%s' is not funded", addr)
 	}
 
 	preview, err := t.Preview(PreviewOpts{
@@ -153,7 +154,7 @@ func (t *Trade) marketOrderRequest(
 		Asset:     asset,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	outputScript, _ := address.ToOutputScript(addr)
@@ -168,7 +169,7 @@ func (t *Trade) marketOrderRequest(
 		outputScript,
 	)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	blindingKeyMap := map[string][]byte{
@@ -185,7 +186,7 @@ func (t *Trade) marketOrderRequest(
 		OutputBlindingKeys: blindingKeyMap,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	reply, err := t.client.TradePropose(tradeclient.TradeProposeOpts{
@@ -194,25 +195,37 @@ func (t *Trade) marketOrderRequest(
 		TradeType:   tradeType,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	if fail := reply.GetSwapFail(); fail != nil {
-		return nil, fmt.Errorf("trade proposal has been rejected for reason: %s", fail.GetFailureMessage())
+		return nil, nil, fmt.Errorf("trade proposal has been rejected for reason: %s", fail.GetFailureMessage())
 	}
 
 	if reply.GetSwapAccept() == nil {
-		return nil, errors.New("trade proposal has been neither accepted nor rejected")
+		return nil, nil, errors.New("trade proposal has been neither accepted nor rejected")
 	}
 
-	return proto.Marshal(reply.GetSwapAccept())
+	swapAcceptMsg, err := proto.Marshal(reply.GetSwapAccept())
+	if err != nil {
+		return nil, nil, err
+	}
+	return swapRequestMsg, swapAcceptMsg, nil
 }
 
-func (t *Trade) marketOrderComplete(swapAcceptMsg []byte, w *Wallet) (string, error) {
+func (t *Trade) marketOrderComplete(
+	swapRequestMsg, swapAcceptMsg []byte, w *Wallet,
+) (string, error) {
+	swapRequest := &pb.SwapRequest{}
+	proto.Unmarshal(swapRequestMsg, swapRequest)
 	swapAccept := &pb.SwapAccept{}
 	proto.Unmarshal(swapAcceptMsg, swapAccept)
 
 	psetBase64 := swapAccept.GetTransaction()
+	// the provider could have changed what was agreed on.
+	if err := w.checkSwapTx(swapRequest.GetTransaction(), psetBase64); err != nil {
+		return "", err
+	}
 	signedPset, err := w.Sign(psetBase64)
 	if err != nil {
 		return "", err
diff --git a/pkg/trade/sell.go b/pkg/trade/sell.go
index c536d53..76b5111 100644
--- a/pkg/trade/sell.go
+++ b/pkg/trade/sell.go
@@ -14,7 +14,7 @@ func (t *Trade) Sell(opts BuyOrSellOpts) ([]byte, error) {
 		return nil, err
 	}
 
-	return t.marketOrderRequest(
+	_, swapAcceptMsg, err := t.marketOrderRequest(
 		opts.Market,
 		tradetype.Sell,
 		opts.Amount,
@@ -22,6 +22,7 @@ func (t *Trade) Sell(opts BuyOrSellOpts) ([]byte, error) {
 		opts.Address,
 		opts.BlindingKey,
 	)
+	return swapAcceptMsg, err
 }
 
 // SellAndComplete creates a new trade proposal with the given arguments for
@@ -35,7 +36,7 @@ func (t *Trade) SellAndComplete(opts BuyOrSellAndCompleteOpts) (string, error) {
 	}
 
 	w := NewWalletFromKey(opts.PrivateKey, opts.BlindingKey, t.network)
-	swapAcceptMsg, err := t.marketOrderRequest(
+	swapRequestMsg, swapAcceptMsg, err := t.marketOrderRequest(
 		opts.Market,
 		tradetype.Sell,
 		opts.Amount,
@@ -47,5 +48,5 @@ func (t *Trade) SellAndComplete(opts BuyOrSellAndCompleteOpts) (string, error) {
 		return "", err
 	}
 
-	return t.marketOrderComplete(swapAcceptMsg, w)
+	return t.marketOrderComplete(swapRequestMsg, swapAcceptMsg, w)
 }
diff --git a/pkg/trade/wallet.go b/pkg/trade/wallet.go
index 774871d..82f5f63 100644
--- a/pkg/trade/wallet.go
+++ b/pkg/trade/wallet.go
@@ -2,6 +2,7 @@ package trade
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/btcsuite/btcd/btcec"
@@ -15,6 +16,10 @@ import (
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
+// ErrInvalidSwapTx is returned if the transaction accepted by the provider is not
+// the one that was proposed.
+var ErrInvalidSwapTx = errors.New("accepted transaction does not match the proposed one")
+
 func NewSwapTx(
 	unspents []explorer.Utxo,
 	inAsset string,
@@ -151,6 +156,77 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 	return ptx.ToBase64()
 }
 
+// checkSwapTx returns an error if the accepted transaction spends other coins of
+// the wallet than the requested one, or if any output of the latter is missing.
+func (w *Wallet) checkSwapTx(requestedPset, acceptedPset string) error {
+	requested, err := transactionutil.ParsePset(requestedPset)
+	if err != nil {
+		return err
+	}
+	accepted, err := transactionutil.ParsePset(acceptedPset)
+	if err != nil {
+		return err
+	}
+
+	requestedInputs := make(map[string]bool)
+	for _, in := range requested.UnsignedTx.Inputs {
+		requestedInputs[outpoint(in)] = true
+	}
+	acceptedInputs := make(map[string]bool)
+	_, script := w.Script()
+	for i, in := range accepted.UnsignedTx.Inputs {
+		acceptedInputs[outpoint(in)] = true
+		prevout := accepted.Inputs[i].WitnessUtxo
+		if prevout != nil && bytes.Equal(prevout.Script, script) &&
+			!requestedInputs[outpoint(in)] {
+			return ErrInvalidSwapTx
+		}
+	}
+	for in := range requestedInputs {
+		if !acceptedInputs[in] {
+			return ErrInvalidSwapTx
+		}
+	}
+
+	found := make(map[int]bool)
+	for _, out := range requested.UnsignedTx.Outputs {
+		i := w.findOutput(accepted.UnsignedTx.Outputs, out, found)
+		if i < 0 {
+			return ErrInvalidSwapTx
+		}
+		found[i] = true
+	}
+	return nil
+}
+
+// findOutput returns the index of the first output, among those not to be
+// skipped, with the same script, asset and value of the given one.
+func (w *Wallet) findOutput(
+	outputs []*transaction.TxOutput,
+	output *transaction.TxOutput,
+	skip map[int]bool,
+) int {
+	expected, ok := transactionutil.UnblindOutput(output, w.BlindingKey())
+	if !ok {
+		return -1
+	}
+	for i, out := range outputs {
+		if skip[i] || !bytes.Equal(out.Script, output.Script) {
+			continue
+		}
+		unblinded, ok := transactionutil.UnblindOutput(out, w.BlindingKey())
+		if ok && unblinded.AssetHash == expected.AssetHash &&
+			unblinded.Value == expected.Value {
+			return i
+		}
+	}
+	return -1
+}
+
+func outpoint(in *transaction.TxInput) string {
+	return fmt.Sprintf("%x:%d", in.Hash, in.Index)
+}
+
 func (w *Wallet) PrivateKey() []byte {
 	return w.privateKey.Serialize()
 }
-- 
2.43.0


From 5f4736e9fc96159e3ad3611847bdc47a741fd468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 080/101] fix: report unanswered trade completions in the trade
 client

---
 pkg/trade/buy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 8e09545..36ed049 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -248,6 +248,9 @@ func (t *Trade) marketOrderComplete(
 	if swapFail := reply.GetSwapFail(); swapFail != nil {
 		return "", errors.New(swapFail.GetFailureMessage())
 	}
+	if reply.GetTxid() == "" {
+		return "", errors.New("trade has been neither completed nor rejected")
+	}
 
 	return reply.GetTxid(), nil
 }
-- 
2.43.0


From 5292682e3bca5d88fb645b126784e6c62eca713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:51 +0000
Subject: [PATCH 081/101] fix: refuse negative account indexes in the CLI's
 dropmarket

The flag was parsed as an int but read as an uint64, so that any value that
is not an uint64 was silently replaced by 0.
---
 cmd/tdex/dropmarket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tdex/dropmarket.go b/cmd/tdex/dropmarket.go
index a557f5b..964055d 100644
--- a/cmd/tdex/dropmarket.go
+++ b/cmd/tdex/dropmarket.go
@@ -13,7 +13,7 @@ var dropmarket = cli.Command{
 	Name:  "dropmarket",
 	Usage: "drop a market",
 	Flags: []cli.Flag{
-		&cli.IntFlag{
+		&cli.Uint64Flag{
 			Name:  "account_index",
 			Usage: "the account index of the market to drop",
 		},
-- 
2.43.0


From 3a1a761571cd6c6af5460d1bafe9e2b2c22eed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:51 +0000
Subject: [PATCH 082/101] fix: do not lose the CLI's state on failed writes or
 corrupted files

The state, which may contain the keys of the ephemeral wallets, was truncated
before being rewritten, and an unreadable one was taken for an empty one, thus
overwritten.
---
 cmd/tdex/main.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/cmd/tdex/main.go b/cmd/tdex/main.go
index 799761f..c3628e2 100644
--- a/cmd/tdex/main.go
+++ b/cmd/tdex/main.go
@@ -93,7 +93,12 @@ func getState() (map[string]string, error) {
 	if err != nil {
 		return nil, errors.New("get config state error: try 'config init'")
 	}
-	json.Unmarshal(file, &data)
+	// The file is empty if it has just been created.
+	if len(file) > 0 {
+		if err := json.Unmarshal(file, &data); err != nil {
+			return nil, fmt.Errorf("config state %s is corrupted: %w", statePath, err)
+		}
+	}
 
 	return data, nil
 }
@@ -124,14 +129,42 @@ func setState(data map[string]string) error {
 	if err != nil {
 		return err
 	}
-	err = ioutil.WriteFile(statePath, jsonString, 0755)
-	if err != nil {
+	if err := replaceFile(statePath, jsonString); err != nil {
 		return fmt.Errorf("writing to file: %w", err)
 	}
 
 	return nil
 }
 
+// replaceFile writes the given content to a temporary file and then renames
+// it, so that a write that fails halfway leaves the existing file as it was.
+// The state can contain the keys of the ephemeral wallets, these would be lost
+// otherwise.
+func replaceFile(path string, content []byte) (err error) {
+	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".*.tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(file.Name())
+		}
+	}()
+
+	_, err = file.Write(content)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(file.Name(), path)
+}
+
 func merge(maps ...map[string]string) map[string]string {
 	merge := make(map[string]string, 0)
 	for _, m := range maps {
-- 
2.43.0


From 65abd293c039116f044ff487308f91b17745f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 083/101] fix: a daemon that cannot listen at a port ends
 without a crash

---
 internal/interfaces/grpc/service.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index f0a3358..9d76076 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -226,6 +226,11 @@ func (s *service) Start(
 	pboperator.RegisterOperatorServer(operatorServer, operatorHandler)
 	pbwallet.RegisterWalletServer(operatorServer, walletHandler)
 
+	// Set these before serving so that whatever has been started can be stopped
+	// even if an error occurs in the meantime.
+	s.operatorServer = operatorServer
+	s.tradeServer = tradeServer
+
 	// Serve grpc and grpc-web multiplexed on the same port
 	if err := serveMux(
 		operatorAddress, s.operatorTLSKey(), s.operatorTLSCert(), operatorServer,
@@ -240,9 +245,6 @@ func (s *service) Start(
 
 	go s.startListeningToPassphraseChan()
 
-	s.operatorServer = operatorServer
-	s.tradeServer = tradeServer
-
 	return nil
 }
 
-- 
2.43.0


From 2163a6207800aaa4a413fe654733d97ff80c9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 084/101] fix: a connection without requests does not prevent
 the daemon from stopping

---
 internal/interfaces/grpc/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 9d76076..0306ec1 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -42,6 +42,10 @@ import (
 )
 
 const (
+	// connReadTimeout is the time given to a new connection for making its first
+	// request. Without, one that never makes any would prevent the interfaces,
+	// hence the daemon, from being stopped.
+	connReadTimeout = 10 * time.Second
 	// OperatorTLSKeyFile is the name of the TLS key file for the Operator
 	// interface.
 	OperatorTLSKeyFile = "key.pem"
@@ -493,6 +497,7 @@ func serveMux(address, tlsKey, tlsCert string, grpcServer *grpc.Server) error {
 	}
 
 	mux := cmux.New(lis)
+	mux.SetReadTimeout(connReadTimeout)
 	grpcL := mux.MatchWithWriters(cmux.HTTP2MatchHeaderFieldPrefixSendSettings("content-type", "application/grpc"))
 	httpL := mux.Match(cmux.HTTP1Fast())
 
-- 
2.43.0


From 672c1ff5ecad69659907f59c660fdf7f317f2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 085/101] fix: stopping the daemon does not crash it while a
 grpc-web request is being served

---
 internal/interfaces/grpc/service.go | 53 ++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 0306ec1..b9b6adc 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -46,6 +46,9 @@ const (
 	// request. Without, one that never makes any would prevent the interfaces,
 	// hence the daemon, from being stopped.
 	connReadTimeout = 10 * time.Second
+	// webStopTimeout is the time given to the ongoing grpc-web requests to
+	// complete when stopping the interfaces.
+	webStopTimeout = 60 * time.Second
 	// OperatorTLSKeyFile is the name of the TLS key file for the Operator
 	// interface.
 	OperatorTLSKeyFile = "key.pem"
@@ -93,7 +96,9 @@ type service struct {
 	opts           ServiceOpts
 	macaroonSvc    *macaroons.Service
 	operatorServer *grpc.Server
+	operatorWeb    *http.Server
 	tradeServer    *grpc.Server
+	tradeWeb       *http.Server
 	passphraseChan chan application.PassphraseMsg
 }
 
@@ -236,12 +241,13 @@ func (s *service) Start(
 	s.tradeServer = tradeServer
 
 	// Serve grpc and grpc-web multiplexed on the same port
-	if err := serveMux(
+	var err error
+	if s.operatorWeb, err = serveMux(
 		operatorAddress, s.operatorTLSKey(), s.operatorTLSCert(), operatorServer,
 	); err != nil {
 		return err
 	}
-	if err := serveMux(
+	if s.tradeWeb, err = serveMux(
 		tradeAddress, tradeTLSKey, tradeTLSCert, tradeServer,
 	); err != nil {
 		return err
@@ -258,13 +264,31 @@ func (s *service) Stop() {
 		log.Debug("stopped macaroon service")
 	}
 
-	s.operatorServer.GracefulStop()
+	gracefulStop(s.operatorServer, s.operatorWeb)
 	log.Debug("disabled operator interface")
 
-	s.tradeServer.GracefulStop()
+	gracefulStop(s.tradeServer, s.tradeWeb)
 	log.Debug("disabled trader interface")
 }
 
+// gracefulStop waits for the ongoing requests to be served. The grpc-web ones
+// must be completed before stopping the gRPC server because this can't
+// gracefully terminate those that it doesn't serve on its own.
+func gracefulStop(server *grpc.Server, web *http.Server) {
+	if web != nil {
+		ctx, cancel := context.WithTimeout(context.Background(), webStopTimeout)
+		defer cancel()
+
+		if err := web.Shutdown(ctx); err != nil {
+			log.WithError(err).Warn("an error occured while stopping grpc-web")
+			web.Close()
+			server.Stop()
+			return
+		}
+	}
+	server.GracefulStop()
+}
+
 func (s *service) operatorTLSKey() string {
 	if s.opts.NoMacaroons {
 		return ""
@@ -473,16 +497,16 @@ func generateOperatorTLSKeyCert(
 	return nil
 }
 
-func serveMux(address, tlsKey, tlsCert string, grpcServer *grpc.Server) error {
+func serveMux(address, tlsKey, tlsCert string, grpcServer *grpc.Server) (*http.Server, error) {
 	lis, err := net.Listen("tcp", address)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	if tlsKey != "" {
 		certificate, err := tls.LoadX509KeyPair(tlsCert, tlsKey)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		const requiredCipher = tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256
@@ -508,14 +532,17 @@ func serveMux(address, tlsKey, tlsCert string, grpcServer *grpc.Server) error {
 	)
 
 	go grpcServer.Serve(grpcL)
-	go http.Serve(httpL, http.HandlerFunc(func(resp http.ResponseWriter, req *http.Request) {
-		if isValidRequest(req) {
-			grpcWebServer.ServeHTTP(resp, req)
-		}
-	}))
+	webServer := &http.Server{
+		Handler: http.HandlerFunc(func(resp http.ResponseWriter, req *http.Request) {
+			if isValidRequest(req) {
+				grpcWebServer.ServeHTTP(resp, req)
+			}
+		}),
+	}
+	go webServer.Serve(httpL)
 
 	go mux.Serve()
-	return nil
+	return webServer, nil
 }
 
 func isValidRequest(req *http.Request) bool {
-- 
2.43.0


From 13691d085e4c54e68d3ce31f3cf1c98deb59cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 086/101] fix: the default fee of markets is not one basis
 point less than configured

---
 cmd/tdexd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tdexd/main.go b/cmd/tdexd/main.go
index 396a3c0..29c7791 100644
--- a/cmd/tdexd/main.go
+++ b/cmd/tdexd/main.go
@@ -44,7 +44,7 @@ var (
 	operatorTLSExtraIPs     = config.GetStringSlice(config.OperatorExtraIPKey)
 	operatorTLSExtraDomains = config.GetStringSlice(config.OperatorExtraDomainKey)
 	// App services config
-	marketsFee                    = int64(config.GetFloat(config.DefaultFeeKey) * 100)
+	marketsFee                    = decimal.NewFromFloat(config.GetFloat(config.DefaultFeeKey)).Mul(decimal.NewFromInt(100)).IntPart()
 	marketsBaseAsset              = config.GetString(config.BaseAssetKey)
 	tradesExpiryDurationInSeconds = config.GetDuration(config.TradeExpiryTimeKey) * time.Second
 	pricesSlippagePercentage      = decimal.NewFromFloat(config.GetFloat(config.PriceSlippageKey))
-- 
2.43.0


From ae24a1471bf2cd11b9b38610c9283aa6b41c8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:05 +0000
Subject: [PATCH 087/101] fix: the timeout of webhook requests is in
 milliseconds as configured

---
 cmd/tdexd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tdexd/main.go b/cmd/tdexd/main.go
index 29c7791..096eacc 100644
--- a/cmd/tdexd/main.go
+++ b/cmd/tdexd/main.go
@@ -234,6 +234,6 @@ func newWebhookPubSubService(
 	if err != nil {
 		return nil, err
 	}
-	httpClient := esplora.NewHTTPClient(time.Duration(reqTimeout) * time.Second)
+	httpClient := esplora.NewHTTPClient(reqTimeout * time.Millisecond)
 	return webhookpubsub.NewWebhookPubSubService(secureStore, httpClient)
 }
-- 
2.43.0


From 27c6207d24f91229afdce56dfeffef80b15b3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:45 +0000
Subject: [PATCH 088/101] fix: wait for the events being handled before closing
 the db at shutdown

---
 .../core/application/blockchain_listener.go   | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 45ad962..3e827ce 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -42,6 +42,8 @@ type blockchainListener struct {
 	network            *network.Network
 
 	mutex *sync.RWMutex
+	// wg is used to wait for the events to be handled when stopping.
+	wg *sync.WaitGroup
 }
 
 // NewBlockchainListener returns a BlockchainListener with all the needed services
@@ -73,6 +75,7 @@ func newBlockchainListener(
 		repoManager:        repoManager,
 		pubsubSvc:          pubsubSvc,
 		mutex:              &sync.RWMutex{},
+		wg:                 &sync.WaitGroup{},
 		pendingObservables: make([]crawler.Observable, 0),
 		marketBaseAsset:    marketBaseAsset,
 		network:            net,
@@ -87,21 +90,28 @@ func (b *blockchainListener) StartObservation() {
 		log.Debug("start crawler")
 		go b.crawlerSvc.Start()
 		log.Debug("start listening on event channel")
+		b.wg.Add(1)
 		go b.listenToEventChannel()
 		go b.startPendingObservables()
 		b.started = true
 	}
 }
 
+// StopObservation returns once the events already notified by the crawler have
+// been handled, so that the repositories can be safely closed afterwards.
 func (b *blockchainListener) StopObservation() {
 	b.mutex.Lock()
-	defer b.mutex.Unlock()
-
-	if b.started {
+	started := b.started
+	if started {
 		log.Debug("stop crawler")
 		b.crawlerSvc.Stop()
 		b.started = false
 	}
+	b.mutex.Unlock()
+
+	if started {
+		b.wg.Wait()
+	}
 }
 
 func (b *blockchainListener) StartObserveAddress(
@@ -149,6 +159,8 @@ func (b *blockchainListener) PubSubService() ports.SecurePubSub {
 }
 
 func (b *blockchainListener) listenToEventChannel() {
+	defer b.wg.Done()
+
 	for {
 		event := <-b.crawlerSvc.GetEventChannel()
 
@@ -187,7 +199,10 @@ func (b *blockchainListener) listenToEventChannel() {
 
 			// Publish message for topic TradeSettled to pubsub service.
 			if b.pubsubSvc != nil {
+				b.wg.Add(1)
 				go func() {
+					defer b.wg.Done()
+
 					ctx := context.Background()
 					mkt, mktAccount, err := b.repoManager.MarketRepository().GetMarketByAsset(
 						ctx, trade.MarketQuoteAsset,
-- 
2.43.0


From 9472895b7a97f0cccdeed5a1180b665951f4ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:45 +0000
Subject: [PATCH 089/101] fix: refuse or tolerate settings that crash the
 daemon at startup

---
 config/config.go   | 17 +++++++++++++++--
 pkg/stats/stats.go |  9 ++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/config/config.go b/config/config.go
index 69f3756..5e71f2c 100644
--- a/config/config.go
+++ b/config/config.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"math"
 	"net/url"
 	"os"
 	"path/filepath"
@@ -206,14 +207,26 @@ func validate() error {
 	}
 
 	percentageFee := GetFloat(DefaultFeeKey)
-	if percentageFee < MinDefaultPercentageFee ||
-		percentageFee > MaxDefaultPercentageFee {
+	if !(percentageFee >= MinDefaultPercentageFee &&
+		percentageFee <= MaxDefaultPercentageFee) {
 		return fmt.Errorf(
 			"percentage of the fee on each swap must be in range [%.2f, %.2f]",
 			MinDefaultPercentageFee, MaxDefaultPercentageFee,
 		)
 	}
 
+	slippage := GetFloat(PriceSlippageKey)
+	if math.IsNaN(slippage) || math.IsInf(slippage, 0) {
+		return fmt.Errorf("%s must be a valid number", PriceSlippageKey)
+	}
+
+	if GetInt(CrawlIntervalKey) <= 0 {
+		return fmt.Errorf("%s must be a positive number", CrawlIntervalKey)
+	}
+	if GetInt(CrawlLimitKey) == 0 {
+		return fmt.Errorf("%s must be a valid number other than 0", CrawlLimitKey)
+	}
+
 	networkName := GetString(NetworkKey)
 	if networkName != network.Liquid.Name &&
 		networkName != network.Regtest.Name {
diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index dc9aaca..52e1db6 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -27,13 +27,16 @@ func EnableMemoryStatistics(
 	interval time.Duration,
 	path string,
 ) {
-
-	ticker := time.NewTicker(interval)
+	// without a valid interval nothing is printed periodically.
+	var tick <-chan time.Time
+	if interval > 0 {
+		tick = time.NewTicker(interval).C
+	}
 
 	go func() {
 		for {
 			select {
-			case <-ticker.C:
+			case <-tick:
 				PrintMemoryStatistics()
 				PrintNumOfRoutines()
 			case <-ctx.Done():
-- 
2.43.0


From 92148c892d447bb423c07e54d83a0474c3359e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:21 +0000
Subject: [PATCH 090/101] fix: starting after being killed while creating TLS
 key pair or macaroons

The certificate was written before its key, and the macaroons one by one in
their definitive place: if killed meanwhile, the daemon refused to start again,
or never created those that were missing.
---
 internal/interfaces/grpc/macaroon_utils.go | 62 ++++++++++++++++++++--
 internal/interfaces/grpc/service.go        | 23 +++++---
 2 files changed, 72 insertions(+), 13 deletions(-)

diff --git a/internal/interfaces/grpc/macaroon_utils.go b/internal/interfaces/grpc/macaroon_utils.go
index d528493..4e9858c 100644
--- a/internal/interfaces/grpc/macaroon_utils.go
+++ b/internal/interfaces/grpc/macaroon_utils.go
@@ -11,6 +11,14 @@ import (
 	"gopkg.in/macaroon-bakery.v2/bakery"
 )
 
+const (
+	// tmpMacaroonsDir is where the macaroons are being generated.
+	tmpMacaroonsDir = ".tmp"
+	// newMacaroonsDir is where the macaroons, once all generated, are moved to
+	// the datadir from.
+	newMacaroonsDir = ".new"
+)
+
 // bakeMacaroon creates a new macaroon with newest version and the given
 // permissions then returns it binary serialized.
 func bakeMacaroon(
@@ -42,8 +50,14 @@ func genMacaroons(
 		return nil
 	}
 
-	// Let's create the datadir if it doesn't exist.
-	if err := makeDirectoryIfNotExists(datadir); err != nil {
+	// Let's create the datadir if it doesn't exist. The macaroons are all written
+	// in a temporary directory first, so that either all or none of them exist no
+	// matter when the daemon gets killed.
+	tmpDir := filepath.Join(datadir, tmpMacaroonsDir)
+	if err := os.RemoveAll(tmpDir); err != nil {
+		return err
+	}
+	if err := makeDirectoryIfNotExists(tmpDir); err != nil {
 		return err
 	}
 
@@ -52,18 +66,56 @@ func genMacaroons(
 		if err != nil {
 			return err
 		}
-		macFile := filepath.Join(datadir, macFilename)
+		macFile := filepath.Join(tmpDir, macFilename)
 		perms := fs.FileMode(0644)
 		if macFilename == AdminMacaroonFile {
 			perms = 0600
 		}
 		if err := ioutil.WriteFile(macFile, mktMacBytes, perms); err != nil {
-			os.Remove(macFile)
+			os.RemoveAll(tmpDir)
 			return err
 		}
 	}
 
-	return nil
+	if err := os.Rename(
+		tmpDir, filepath.Join(datadir, newMacaroonsDir),
+	); err != nil {
+		return err
+	}
+	return installMacaroons(datadir)
+}
+
+// installMacaroons moves the macaroons that have been completely generated, if
+// any, to the given datadir. It can be repeated if interrupted.
+func installMacaroons(datadir string) error {
+	newDir := filepath.Join(datadir, newMacaroonsDir)
+	if !pathExists(newDir) {
+		return nil
+	}
+
+	files, err := ioutil.ReadDir(newDir)
+	if err != nil {
+		return err
+	}
+	for _, file := range files {
+		if err := os.Rename(
+			filepath.Join(newDir, file.Name()), filepath.Join(datadir, file.Name()),
+		); err != nil {
+			return err
+		}
+	}
+	return os.Remove(newDir)
+}
+
+// writeFile either writes the whole file or leaves it as it was.
+func writeFile(path string, data []byte, perms fs.FileMode) error {
+	tmpPath := path + ".tmp"
+	os.Remove(tmpPath)
+	if err := ioutil.WriteFile(tmpPath, data, perms); err != nil {
+		os.Remove(tmpPath)
+		return err
+	}
+	return os.Rename(tmpPath, path)
 }
 
 func makeDirectoryIfNotExists(path string) error {
diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index b9b6adc..fcd8f01 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -182,6 +182,12 @@ func (o ServiceOpts) tlsDatadir() string {
 }
 
 func NewService(opts ServiceOpts) (interfaces.Service, error) {
+	if !opts.NoMacaroons {
+		// Complete the creation of macaroons if the daemon has been killed meanwhile.
+		if err := installMacaroons(opts.macaroonsDatadir()); err != nil {
+			return nil, fmt.Errorf("failed to install macaroons: %s", err)
+		}
+	}
 	if err := opts.validate(); err != nil {
 		return nil, fmt.Errorf("invalid opts: %s", err)
 	}
@@ -486,15 +492,12 @@ func generateOperatorTLSKeyCert(
 		return fmt.Errorf("failed to encode private key: %v", err)
 	}
 
-	if err := ioutil.WriteFile(certPath, certBuf.Bytes(), 0644); err != nil {
-		return err
-	}
-	if err := ioutil.WriteFile(keyPath, keyBuf.Bytes(), 0600); err != nil {
-		os.Remove(certPath)
+	// The certificate can be created again out of the key, not the other way
+	// round.
+	if err := writeFile(keyPath, keyBuf.Bytes(), 0600); err != nil {
 		return err
 	}
-
-	return nil
+	return writeFile(certPath, certBuf.Bytes(), 0644)
 }
 
 func serveMux(address, tlsKey, tlsCert string, grpcServer *grpc.Server) (*http.Server, error) {
@@ -579,7 +582,11 @@ func createOrLoadTLSKey(keyPath string) (*ecdsa.PrivateKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	return key.(*ecdsa.PrivateKey), nil
+	ecdsaKey, ok := key.(*ecdsa.PrivateKey)
+	if !ok {
+		return nil, fmt.Errorf("%s: TLS key must be an ECDSA private key", keyPath)
+	}
+	return ecdsaKey, nil
 }
 
 func privateKeyFromPEM(pemBlock []byte) (crypto.PrivateKey, error) {
-- 
2.43.0


From 15b55ce0e0cd9df4a663e90ee9699bd1c1b42959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:19 +0000
Subject: [PATCH 091/101] fix: the coins of the wallet account spent by a
 payment are not listed as available

Those of the fee account were updated, while those of the wallet account, added
by ReloadUtxos or at startup, weren't until the next restart.
---
 internal/core/application/wallet_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index e77319e..203e765 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -607,7 +607,7 @@ func (w *walletService) SendToMany(
 		w.repoManager.VaultRepository(),
 		w.network,
 		txHex,
-		domain.FeeAccount,
+		domain.WalletAccount,
 	)
 	if req.Push {
 		// the change can be used again once the tx is confirmed.
-- 
2.43.0


From f9d361ac64356f810e4785b5528096d21efb623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:37 +0000
Subject: [PATCH 092/101] fix: unblinding many utxos at once cannot crash the
 daemon

The shared context of the native library is created at its first use and stored
in a map without any lock: if this happened in two goroutines at the same time,
like when restoring the utxo set at startup, the process was ended by a
concurrent map write.
---
 pkg/transactionutil/transactionutil.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/transactionutil/transactionutil.go b/pkg/transactionutil/transactionutil.go
index 30029a3..e7c3682 100644
--- a/pkg/transactionutil/transactionutil.go
+++ b/pkg/transactionutil/transactionutil.go
@@ -14,6 +14,12 @@ import (
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
+// The native library creates its shared context at first use, in a way that is
+// not safe for concurrent use (ie. the unblinding of many utxos).
+func init() {
+	confidential.AssetCommitment(make([]byte, 32), make([]byte, 32))
+}
+
 type UnblindedResult struct {
 	AssetHash    string
 	Value        uint64
-- 
2.43.0


From 4ee288c8166fa6c04d498ae62cd594b8833d80c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 093/101] fix: amounts of coins listed by an Elements node are
 exact

---
 pkg/explorer/elements/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/explorer/elements/types.go b/pkg/explorer/elements/types.go
index f8df24c..d428c44 100644
--- a/pkg/explorer/elements/types.go
+++ b/pkg/explorer/elements/types.go
@@ -117,7 +117,7 @@ func (eu elementsUnspent) Index() uint32 {
 }
 
 func (eu elementsUnspent) Value() uint64 {
-	return uint64(eu.UAmount * math.Pow10(8))
+	return uint64(math.Round(eu.UAmount * math.Pow10(8)))
 }
 
 func (eu elementsUnspent) Asset() string {
-- 
2.43.0


From ad8b84401072e0c2ef6f641502359f0523cd26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 094/101] fix: transactions got from an Elements node have
 inputs, outputs and confirmation

---
 pkg/explorer/elements/types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/explorer/elements/types.go b/pkg/explorer/elements/types.go
index d428c44..7c8d68c 100644
--- a/pkg/explorer/elements/types.go
+++ b/pkg/explorer/elements/types.go
@@ -41,11 +41,14 @@ func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
 }
 
 func NewTxFromJSON(txJSON string) (explorer.Transaction, error) {
-	var t tx
+	var t struct {
+		Hex           string `json:"hex"`
+		Confirmations int64  `json:"confirmations"`
+	}
 	if err := json.Unmarshal([]byte(txJSON), &t); err != nil {
 		return nil, ErrInvalidTxJSON
 	}
-	return &t, nil
+	return NewTxFromHex(t.Hex, t.Confirmations > 0)
 }
 
 func (t *tx) Hash() string {
-- 
2.43.0


From d4b623bb151effa19c2eb511071c9db2eec67014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 095/101] fix: addresses known to the Elements node are not
 imported again to list their transactions

---
 pkg/explorer/elements/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index 935a1c4..aa06c15 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -99,7 +99,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 	if err != nil {
 		return nil, fmt.Errorf("label: %w", err)
 	}
-	isImportedAddress, err := e.isAddressImported(addr)
+	isImportedAddress, err := e.isAddressImported(addrLabel)
 	if err != nil {
 		return nil, fmt.Errorf("check import: %w", err)
 	}
-- 
2.43.0


From ec27b48c38250c6180cefc2f4ad3c88d732229ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 096/101] fix: no address, no coins from an Elements node

---
 pkg/explorer/elements/unspents.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/explorer/elements/unspents.go b/pkg/explorer/elements/unspents.go
index d68ce9b..c91e9ee 100644
--- a/pkg/explorer/elements/unspents.go
+++ b/pkg/explorer/elements/unspents.go
@@ -52,6 +52,11 @@ func (e *elements) GetUnspentsForAddresses(
 	addresses []string,
 	blindingKeys [][]byte,
 ) ([]explorer.Utxo, error) {
+	// An empty list would be no filter at all for the node.
+	if len(addresses) <= 0 {
+		return nil, nil
+	}
+
 	sortedBlindingKeys := make([][]byte, len(addresses), len(addresses))
 	for i, addr := range addresses {
 		blindKey, err := findBlindKeyForAddress(addr, blindingKeys)
-- 
2.43.0


From 678e69094213f5167d5969662e205b7ad3d0bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 097/101] fix: minting with an Elements node returns the asset
 and the transaction

---
 pkg/explorer/elements/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index aa06c15..5ccda1d 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -225,7 +225,7 @@ func (e *elements) Mint(address string, amount float64) (string, string, error)
 		return "", "", fmt.Errorf("mine: %w", err)
 	}
 
-	return "", "", nil
+	return txid, asset, nil
 }
 
 func (e *elements) getTransaction(txid string) (map[string]interface{}, error) {
-- 
2.43.0


From 39ffb4894a8ed1bef5ef17f877948eb7fb325423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 098/101] fix: an Elements node stuck in an answer cannot hang
 the explorer

---
 pkg/explorer/elements/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/explorer/elements/client.go b/pkg/explorer/elements/client.go
index 70fbdc2..e91e4c4 100644
--- a/pkg/explorer/elements/client.go
+++ b/pkg/explorer/elements/client.go
@@ -69,10 +69,13 @@ func NewClient(host string, port int, user, passwd string, useSSL bool, timeout
 		t := &http.Transport{
 			TLSClientConfig: &tls.Config{InsecureSkipVerify: true},
 		}
-		httpClient = &http.Client{Transport: t}
+		httpClient = &http.Client{
+			Transport: t,
+			Timeout:   time.Duration(timeout) * time.Second,
+		}
 	} else {
 		serverAddr = "http://"
-		httpClient = &http.Client{}
+		httpClient = &http.Client{Timeout: time.Duration(timeout) * time.Second}
 	}
 	c = &RPCClient{serverAddr: fmt.Sprintf("%s%s:%d", serverAddr, host, port), user: user, passwd: passwd, httpClient: httpClient, timeout: timeout}
 	return
-- 
2.43.0


From df9eb03da2adfb0fa6c871e26f3cd159c0274b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 099/101] fix: no goroutine is left behind when an Elements
 node fails

---
 pkg/explorer/elements/transaction.go | 2 +-
 pkg/explorer/elements/unspents.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index 5ccda1d..7406eda 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -123,7 +123,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 		txids := info["txids"].([]interface{})
 
 		txs := make([]explorer.Transaction, 0, len(txids))
-		chRes := make(chan txResult)
+		chRes := make(chan txResult, len(txids))
 		wg := &sync.WaitGroup{}
 		wg.Add(len(txids))
 
diff --git a/pkg/explorer/elements/unspents.go b/pkg/explorer/elements/unspents.go
index c91e9ee..4b1271f 100644
--- a/pkg/explorer/elements/unspents.go
+++ b/pkg/explorer/elements/unspents.go
@@ -108,7 +108,7 @@ func (e *elements) toUtxos(unspents []elementsUnspent) ([]explorer.Utxo, error)
 	}
 
 	utxos := make([]explorer.Utxo, 0, len(unspents))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(unspents))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(unspents))
 
-- 
2.43.0


From 9088eef4872dc67a447a247ee0cbcbd10b3c67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 100/101] fix: unexpected answers of an Elements node cannot
 crash the daemon

---
 pkg/explorer/elements/service.go     |  7 +++++--
 pkg/explorer/elements/transaction.go | 18 +++++++++++-------
 pkg/explorer/elements/unspents.go    |  6 ++++++
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/pkg/explorer/elements/service.go b/pkg/explorer/elements/service.go
index 81a039c..7ef2c5d 100644
--- a/pkg/explorer/elements/service.go
+++ b/pkg/explorer/elements/service.go
@@ -84,13 +84,13 @@ func (e *elements) isAddressImported(targetLabel string) (bool, error) {
 		return false, err
 	}
 
-	var labels []interface{}
+	var labels []string
 	if err := json.Unmarshal(r.Result, &labels); err != nil {
 		return false, fmt.Errorf("unmarshal: %w", err)
 	}
 
 	for _, label := range labels {
-		if label.(string) == targetLabel {
+		if label == targetLabel {
 			return true, nil
 		}
 	}
@@ -122,6 +122,9 @@ func (e *elements) mine() (string, error) {
 	if err := json.Unmarshal(r.Result, &blockHash); err != nil {
 		return "", fmt.Errorf("unmarshal: %w", err)
 	}
+	if len(blockHash) <= 0 {
+		return "", fmt.Errorf("no block mined")
+	}
 	return blockHash[0], nil
 }
 
diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index 7406eda..927bfe1 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -59,8 +59,8 @@ func (e *elements) GetTransactionStatus(txid string) (map[string]interface{}, er
 		return nil, err
 	}
 
-	isConfirmed := data["confirmations"].(float64) > 0
-	if isConfirmed {
+	confirmations, _ := data["confirmations"].(float64)
+	if confirmations > 0 {
 		r, err := e.client.call("getblock", []interface{}{data["blockhash"]})
 		if err = handleError(err, &r); err != nil {
 			return nil, fmt.Errorf("block: %w", err)
@@ -113,14 +113,15 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 	if err = handleError(err, &r); err != nil {
 		return nil, fmt.Errorf("list: %w", err)
 	}
-	var data []interface{}
+	var data []struct {
+		Txids []string `json:"txids"`
+	}
 	if err := json.Unmarshal(r.Result, &data); err != nil {
 		return nil, fmt.Errorf("unmarshal: %w", err)
 	}
 
 	if len(data) > 0 {
-		info := data[0].(map[string]interface{})
-		txids := info["txids"].([]interface{})
+		txids := data[0].Txids
 
 		txs := make([]explorer.Transaction, 0, len(txids))
 		chRes := make(chan txResult, len(txids))
@@ -134,7 +135,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 
 		for i := range txids {
 			txid := txids[i]
-			go e.getTxDetails(txid.(string), chRes, wg)
+			go e.getTxDetails(txid, chRes, wg)
 		}
 
 		for r := range chRes {
@@ -210,7 +211,10 @@ func (e *elements) Mint(address string, amount float64) (string, string, error)
 	if err := json.Unmarshal(r.Result, &data); err != nil {
 		return "", "", fmt.Errorf("asset unmarshal: %w", err)
 	}
-	asset := data["asset"].(string)
+	asset, ok := data["asset"].(string)
+	if !ok {
+		return "", "", fmt.Errorf("asset: missing in response")
+	}
 
 	r, err = e.client.call("sendtoaddress", []interface{}{address, amount, "", "", false, false, 1, "UNSET", asset})
 	if err = handleError(err, &r); err != nil {
diff --git a/pkg/explorer/elements/unspents.go b/pkg/explorer/elements/unspents.go
index 4b1271f..46d1bff 100644
--- a/pkg/explorer/elements/unspents.go
+++ b/pkg/explorer/elements/unspents.go
@@ -152,6 +152,12 @@ func (e *elements) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
+	if int(utxo.Index()) >= len(tx.Outputs) {
+		chRes <- utxoResult{
+			err: fmt.Errorf("output %d not found in tx %s", utxo.Index(), utxo.Hash()),
+		}
+		return
+	}
 	utxo.UNonce = tx.Outputs[utxo.Index()].Nonce
 	utxo.URangeProof = tx.Outputs[utxo.Index()].RangeProof
 	utxo.USurjectionProof = tx.Outputs[utxo.Index()].SurjectionProof
-- 
2.43.0


From 12d47d9f0e7333ef559e0c675060be7237bb7b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:29 +0000
Subject: [PATCH 101/101] fix: an address rejected by an Elements node is not
 taken for imported

---
 pkg/explorer/elements/errors.go  |  2 ++
 pkg/explorer/elements/service.go | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pkg/explorer/elements/errors.go b/pkg/explorer/elements/errors.go
index 52ae566..7114bb0 100644
--- a/pkg/explorer/elements/errors.go
+++ b/pkg/explorer/elements/errors.go
@@ -17,6 +17,8 @@ var (
 	ErrInvalidAddress = fmt.Errorf("invalid address")
 	// ErrBlindKeyNotFound ...
 	ErrBlindKeyNotFound = fmt.Errorf("blindkey not found for address")
+	// ErrAddressNotImported ...
+	ErrAddressNotImported = fmt.Errorf("address not imported by the node")
 	// ErrInvalidTxJSON ...
 	ErrInvalidTxJSON = fmt.Errorf("invalid tx JSON")
 )
diff --git a/pkg/explorer/elements/service.go b/pkg/explorer/elements/service.go
index 7ef2c5d..6bc2b39 100644
--- a/pkg/explorer/elements/service.go
+++ b/pkg/explorer/elements/service.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/url"
 	"strconv"
+	"strings"
 
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 )
@@ -75,6 +76,27 @@ func (e *elements) importAddress(addr, label string, blindKey []byte, rescan boo
 	if err = handleError(err, &r); err != nil {
 		return err
 	}
+
+	// The node may accept the request and reject the address.
+	var results []struct {
+		Success bool      `json:"success"`
+		Err     *RPCError `json:"error"`
+	}
+	if err := json.Unmarshal(r.Result, &results); err != nil {
+		return fmt.Errorf("unmarshal: %w", err)
+	}
+	if len(results) != 1 {
+		return ErrAddressNotImported
+	}
+	if res := results[0]; !res.Success {
+		if res.Err == nil {
+			return ErrAddressNotImported
+		}
+		// Its coins are listed anyway if the node owns the address.
+		if !strings.Contains(res.Err.Message, "already contains the private key") {
+			return res.Err
+		}
+	}
 	return nil
 }
 
-- 
2.43.0

