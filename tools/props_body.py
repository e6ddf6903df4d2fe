APP="internal/core/application/"; DOM="internal/core/domain/"; MEM="internal/infrastructure/storage/db/inmemory/"; BAD="internal/infrastructure/storage/db/badger/"

prop("C01","Concurrent swaps never commit the same wallet coin",
"""Whatever the interleaving of swap proposals that are served at the same time, two swaps that the daemon has accepted and that are both still live never
rely on the same wallet coin: a proposal that cannot get all of its coins exclusively is refused and commits none. Every accepted swap has each of the
wallet coins it uses marked as locked for that swap before the acceptance is returned.""",
["schedules"],"Every interleaving (up to a preemption bound) of two or three concurrent proposals over one or two markets sharing the fee coins, on both storage back ends.",
"The service tests run one proposal at a time on in-memory storage; the overlap between choosing coins and locking them is never exercised.",
[APP+"trade_service.go",MEM+"unspent_memory_repository_impl.go",BAD+"unspent_repository_impl.go",DOM+"unspent_service.go"],
[("coins are selected among the unlocked ones, then locked by trade id","trade_service.go TradePropose"),("lock table","UnspentRepository.LockUnspents")],
["result of TradePropose","UnspentRepository lock state"])

prop("C02","A swap's coins stay locked exactly as long as the swap is live",
"""The coins committed to an accepted swap stay unavailable to any other swap until that swap is rejected by its trader, expires uncompleted, or is
settled; when it is rejected or expires, all of its coins become available again. Ending, repeating or mis-addressing a message about one swap never releases a coin that is held by another live swap.""",
["histories","fault_sequences"],"Every sequence up to a depth of propose / complete / fail / expire / confirm events on two or three swaps, with explorer faults at any call.",
"Tests check single happy-path lifecycles with mocks; they do not follow a coin across expiry, late failures, duplicated messages and re-use by a second swap.",
[APP+"trade_service.go",APP+"blockchain_listener.go",MEM+"unspent_memory_repository_impl.go",BAD+"unspent_repository_impl.go"],
[("expiry timer that unlocks","trade_service.go checkTradeExpiration"),("unlock on swap fail","trade_service.go tradeFail"),("spent marking on confirmation","blockchain_listener.go")],
["UnspentRepository.GetUnlockedUnspents*","operator ListUtxos"])

prop("C03","A trade only moves along its legal life cycle",
"""A trade moves from empty to proposed to accepted to completed to settled, or from a live step to failed or expired, and in no other way: a step requested out of order, with a
malformed message, or after the trade is failed, expired or settled never reaches a later step and leaves the recorded trade data unchanged; the only exception is the settlement itself, a fact of the chain, which may still be recorded for a trade that was accepted and later failed or expired, but never for a rejected proposal. A settled trade is final. Repeating a step already passed reports success without altering the trade, and each passed step keeps its own message and timestamp.""",
["histories"],"Every sequence of life-cycle operations (propose, accept, complete, settle, fail, expire; valid, invalid and late variants) up to a depth, from every reachable trade state.",
"The table tests visit one transition at a time from hand-built states; long mixed sequences are not reached.",
[DOM+"trade_service.go",DOM+"trade_model.go"],[("status guards of the trade methods","trade_service.go")],["Trade fields and predicates after every operation"])

prop("C04","Simultaneous events on one trade leave one consistent outcome",
"""When the trader's completion, the trader's rejection, the expiry timer and the chain confirmation of the same swap race, the stored trade ends in a state that some one-at-a-time order of
the same events would also produce, a transaction that was broadcast is never recorded as merely failed or expired with its coins released, and no call panics or blocks forever.""",
["schedules"],"Every interleaving (up to a preemption bound) of two or three racing life-cycle events of one accepted swap, on both storage back ends.",
"Tests call the services sequentially; the read-modify-write of a stored trade is never interleaved.",
[APP+"trade_service.go",APP+"blockchain_listener.go",BAD+"trade_repository_impl.go",MEM+"trade_memory_repository_impl.go"],
[("update functions applied to the stored trade","TradeRepository.UpdateTrade")],["stored trade","lock state","calls to the explorer"])

prop("C05","Every quoted and accepted price honours the market's terms",
"""For every market, balance, amount, asset and direction, the amount the daemon quotes is the one its pricing strategy and current fees prescribe, with the percentage and the fixed fee always charged in the market's favour and never below zero. A
proposal is accepted only if it exchanges exactly that market's two assets in the requested direction at a rate no worse for the market than the quote (computed from either side) minus the configured slippage; anything else is refused with nothing locked. A proposal at exactly the quoted amounts, within the market's funds, is accepted.""",
["inputs"],"All combinations of strategy, trade direction, asset, amounts, prices, fees and slippage in a grid that includes boundary and degenerate values.",
"Tests use a handful of realistic amounts; boundary amounts, swapped or foreign assets and rounding at the slippage edge are not covered.",
[APP+"trade_service.go",DOM+"market_service.go","pkg/marketmaking/formula/balanced_reserves.go","pkg/mathutil/fee.go"],
[("preview","domain Market.Preview"),("price check on proposals","trade_service.go isValidTradePrice")],["GetMarketPrice result","TradePropose accept or fail"])

prop("C06","The market-making formula never gives away liquidity",
"""For every pair of reserves and every amount, the balanced-reserves strategy returns a strictly positive amount bounded by the opposite reserve or an explicit error, is monotone in the traded amount, and quoting a trade from the opposite side and back never profits the trader beyond the rounding of one unit and of the reserve ratio to its documented decimals. It never panics, and the spot price equals the reserve ratio up to that rounding.""",
["inputs"],"Exhaustive grid of reserves, weights, amounts and fees including 0, 1, tiny, huge and unbalanced values.",
"Unit tests compare a few fixed examples.",
["pkg/marketmaking/formula/balanced_reserves.go","pkg/marketmaking/market_making.go","pkg/mathutil/math.go","pkg/mathutil/fee.go"],
[("constant product with fees","balanced_reserves.go")],["SpotPrice, OutGivenIn, InGivenOut results"])

prop("C07","An accepted swap transaction conserves the provider's funds",
"""For every accepted proposal, the transaction handed to the trader spends only free confirmed coins of that market plus fee coins, each once, pays exactly the proposed amount to the market's own address, returns every remaining satoshi of the spent coins to change addresses of the same account, in a form the wallet can open, and pays the network fee, at the daemon's rate, from the fee account only. The trader's inputs and outputs are left as proposed, all of the provider's inputs are signed, and exactly that transaction, signed by the trader, completes the swap. A well-formed proposal at a fair price that the free coins cover is accepted; a refused one changes no coin; a malformed one never crashes the daemon.""",
["inputs"],"All small sets of market and fee coins (blinded or not, locked, unconfirmed) against small trade amounts in both directions and shapes of the trader's transaction, with real transactions; and sequences of proposals.",
"Tests check that a proposal succeeds, not where every satoshi of the resulting transaction goes, for all coin combinations.",
[APP+"trade_service.go","pkg/wallet/transaction.go","pkg/wallet/blind.go","pkg/wallet/sign.go"],
[("FillProposal / UpdateSwapTx / UpdateTx","trade_service.go, wallet/transaction.go")],["transaction carried by the swap accept message"])

prop("C08","Swap messages are made, validated and completed only if they match the transaction",
"""A final swap transaction is validated only if its inputs cover the offered and the requested amount of the stated assets and its outputs pay both, whether they are blinded or not; amounts that cannot be unblinded with the given keys are refused. Request and accept messages are made only for transactions whose every input states what it spends and has its blinding key where keys are given; an accept and a completion name the message they answer, and only the accepted transaction, with valid signatures, completes a swap. What is serialised is exactly what was given: identifiers, assets, amounts, transaction and both sets of blinding keys survive a round trip; failures always carry the code and the id of the message they refer to; malformed input is answered with an error, never a crash.""",
["inputs"],"All single-field mutations and small value variations of the three messages and of the transaction they carry.",
"Tests have one or two valid fixtures and a few error cases.",
["pkg/swap/swap.go","pkg/swap/request.go","pkg/swap/accept.go","pkg/swap/complete.go","pkg/swap/fail.go"],
[("compareMessagesAndTransaction","swap.go")],["serialized messages"])

prop("C09","A market trades only when funded and priced; terms change only when closed",
"""A market can be opened only when both of its assets are set and, for a pluggable strategy, both of its prices are set; while it is open neither its fees, its strategy nor its assets can change. Fees always stay within their allowed range, a refused operation changes nothing, no two markets ever trade the same pair, and a market shows up as tradable to traders if and only if it is open. Operator calls made at the same time act as if one came after the other.""",
["histories"],"Every sequence up to a depth of fund, open, close, fee, strategy and price operations, with valid and invalid arguments, at domain and operator-service level on both back ends.",
"Tests try single operations on prepared markets.",
[DOM+"market_service.go",DOM+"market_model.go",APP+"operator_service.go"],[("tradable guard","market_service.go")],["Market getters, ListMarket, GetTradableMarkets"])

prop("C10","Payout transactions conserve value and never overspend",
"""Every withdrawal from a market or from the wallet either is refused, changing no coin and broadcasting nothing, or yields a signed transaction that pays each requested output exactly, returns the whole remainder to addresses of the accounts it came from, in a form the wallet can spend again, pays a network fee that matches the requested rate and is taken only from the fee account, and spends each coin at most once; it is broadcast once if that was asked for. Locked and unconfirmed coins of markets and of the fee account are never spent, and coins spent by a broadcast payout are no longer available. A valid payout that the spendable coins cover, its fee included, is made.""",
["inputs","fault_sequences"],"All small coin sets (blinded or not, locked, unconfirmed), output lists and fee rates; a failure of each explorer and storage call; and sequences of payouts.",
"Tests build one transaction per case; change, fee and boundary combinations are not enumerated.",
[APP+"operator_service.go",APP+"wallet_service.go","pkg/wallet/transaction.go"],[("UpdateTx","wallet/transaction.go")],["raw transaction returned","available unspents afterwards"])

prop("C11","Reported balances and collected fees equal the recorded facts",
"""At any time the balance reported for the fee account and for a market is exactly the sum of its recorded coins that are confirmed and not yet spent, locked or not, of the asset asked for; that of the wallet is the sum of the coins the explorer shows at its addresses, per asset, confirmed, unconfirmed and in total; no account's figures are affected by another account. Every recorded coin is listed once, under its account, as spent, locked or free. The fee report of a market lists each completed or settled trade of that market once, with the fee its recorded terms imply (the percentage in force when it was made, of the amount the trader sent, rounded down), and its totals are the sums of its lines; the list of trades shows every proposed trade once, with its recorded terms and status.""",
["histories"],"Every small population of coins (confirmed, unconfirmed, locked, spent, several accounts and assets) and trades, on both back ends.",
"Tests use one fixed population.",
[APP+"operator_service.go",APP+"wallet_service.go",APP+"trade_service.go",DOM+"unspent_service.go"],[("balance queries","UnspentRepository.GetBalance")],["FeeAccountBalance, GetMarketBalance, GetWalletBalance, ListUtxos, GetCollectedMarketFee, ListTrades"])

prop("C12","The wallet secret is available only while unlocked with the right passphrase",
"""The mnemonic can be read only between a successful unlock and the next lock; a wrong passphrase never unlocks the wallet nor changes anything. Changing the passphrase succeeds only with the current one while the wallet is locked, after which only the new one works and still yields the same mnemonic. Calls made at the same time act as if one came after the other.""",
["histories"],"Every sequence up to a depth of create, lock, unlock and change-passphrase operations with right and wrong passphrases, directly and through the wallet service, on both back ends.",
"Tests check each operation once from a fixed state.",
[DOM+"vault_service.go",DOM+"vault_model.go",APP+"wallet_service.go"],[("encrypted mnemonic and passphrase hash","vault_service.go")],["Vault operations, wallet service operations"])

prop("C13","Every address handed out is new, owned and remembered",
"""No sequence or interleaving of requests for deposit, change and receiving addresses ever returns the same address twice, returns an address of another account, or forgets an address that was returned: every returned address remains listed with its derivation path and blinding key and belongs to exactly one account. Accounts and markets created at the same time get distinct account indexes.""",
["schedules","histories"],"Every sequence of derivations up to a depth, and every interleaving (up to a preemption bound) of two or three operations that derive addresses, on both back ends.",
"Tests derive from a single goroutine; the wallet is read, modified and written back by several services concurrently.",
[DOM+"vault_service.go",APP+"operator_service.go",APP+"wallet_service.go",APP+"trade_service.go",BAD+"vault_repository_impl.go",MEM+"vault_memory_implementation.go"],
[("UpdateVault with an update function","VaultRepository")],["addresses returned by the services","stored vault"])

prop("C14","Restoring a wallet recovers every funded account, address and coin",
"""Restoring from the mnemonic finds every account and address that holds or ever received funds within the documented gap limit, re-creates the markets with the assets their coins show, and loads every coin; derivation continues after the last used address. If the explorer fails during the restore, the restore reports an error and the wallet is not left initialised with funds missing, nor stuck.""",
["inputs","fault_sequences"],"All small usage patterns of fee, wallet and market accounts (which indexes are funded, on which branch) times an explorer fault at each call.",
"Tests restore one fixed pattern with a mock that never fails.",
[APP+"wallet_service.go",DOM+"vault_service.go"],[("restore walk with gap limit","wallet_service.go")],["InitWallet replies, stored vault, markets and unspents"])

prop("C15","Nothing is served from a wallet that is locked, syncing or uninitialised",
"""While the wallet is uninitialised, locked, or still being initialised or restored, every request that needs its keys, its balances or its tradable markets is refused with no effect on stored data: deriving and listing addresses, wallet, fee and market balances, opening markets, claiming deposits, withdrawing and sending, and the traders' markets, balances, prices and proposals. (Requests over the operator's configuration and records alone need no secrets.) A failed initialisation, unlock or password change leaves the daemon locked and able to try again; a wallet is unlocked only by its password. Initialisation succeeds at most once per wallet, even when requested concurrently, and whoever asks again is told so. Concurrent initialisations, unlocks and password changes behave as in some order, and the daemon's credentials service is told their passwords in that order.""",
["histories","schedules"],"All requests in every wallet state, and every sequence and interleaving of init, unlock and change-password requests up to a bound.",
"Tests exercise the services only on initialised, unlocked wallets.",
[APP+"wallet_service.go",APP+"trade_service.go",APP+"operator_service.go",DOM+"vault_service.go"],[("wallet flags and vault lock","wallet_service.go")],["errors returned by the services; stored data"])

prop("C16","Keys, derivation paths and encryption are exact and reversible",
"""Parsing and printing derivation paths are inverse on every valid path and reject every malformed one; the keys, scripts and addresses derived from a mnemonic are the ones of the stated standard path and differ for different paths. Encryption is undone only by the same passphrase, any altered or truncated ciphertext is rejected with an error (never a crash), and a signed transaction verifies for exactly the inputs that were signed.""",
["inputs"],"All derivation-path strings over a small alphabet up to a length, all single-byte truncations and alterations of a ciphertext, and all small input sets.",
"Tests use a few valid examples.",
["pkg/wallet/derivation_path.go","pkg/wallet/cypher.go","pkg/wallet/keys.go","pkg/wallet/sign.go","pkg/wallet/wallet.go","pkg/wallet/mnemonic.go"],[("path parser, AES-GCM with scrypt, HD keys","pkg/wallet")],["exported wallet functions"])

prop("C17","Both storage back ends behave like the same simple tables",
"""For every sequence of operations on coins, trades, markets and the vault, each back end returns what a plain table with the same contents would return: what was added is found again, by every documented key and filter, exactly once and unchanged; updates and deletions affect only the addressed record; a failing operation changes nothing.""",
["histories"],"Every operation sequence up to a depth over a small universe of keys and records, on the in-memory and the persistent back end, against one reference model.",
"Tests check each repository method on a fixed fixture.",
[MEM+"unspent_memory_repository_impl.go",MEM+"trade_memory_repository_impl.go",MEM+"market_memory_repository_impl.go",MEM+"vault_memory_implementation.go",BAD+"unspent_repository_impl.go",BAD+"trade_repository_impl.go",BAD+"market_repository_impl.go",BAD+"vault_repository_impl.go"],
[("repository interfaces","internal/core/domain/*_repository.go")],["repository results"])

prop("C18","Storage transactions are all-or-nothing and survive a crash",
"""A transaction on the persistent store whose handler fails leaves no trace; one that succeeds takes effect completely, concurrent read-modify-write transactions never lose an update, and after a crash at any point the reopened store contains every acknowledged change and no part of an unacknowledged transaction.""",
["crash_points","schedules","histories"],"Every step of short transactional histories as a failure point, every on-disk state between two acknowledged operations as a crash point, and every interleaving of two transactions.",
"Tests commit or roll back single transactions and never reopen the files.",
[BAD+"db_manager.go",BAD+"market_repository_impl.go",BAD+"trade_repository_impl.go",BAD+"vault_repository_impl.go",BAD+"unspent_repository_impl.go"],
[("badger transactions with conflict retry","db_manager.go")],["reopened store"])

prop("C19","A unit of work commits every part or rolls every part back",
"""Running a unit of work either commits each participating transaction once, after the work succeeded, or — if beginning any part, the work itself or any commit fails — rolls back every part that was begun and not yet committed, and returns the error. Work inside an already running unit joins it instead of opening a second one.""",
["fault_sequences"],"Every combination of failing steps for one to three participants, nested and not.",
"Tests cover one failure per case.",
["internal/infrastructure/storage/db/uow/unit_of_work.go"],[("UnitOfWork.Run","unit_of_work.go")],["calls received by the participating transactions"])

prop("C20","The chain watcher reports every watched event and can always be stopped",
"""For every watched address and transaction the watcher keeps asking the explorer until it is told to stop, whatever sequence of explorer errors occurs, and delivers an event for every confirmation or coin found; a removed item produces no more requests. Adding, removing and stopping in any order and concurrently never panics, deadlocks or leaves something running.""",
["schedules","fault_sequences"],"Every interleaving (bounded) of add, remove, stop and polling, and every sequence of explorer answers (error, pending, confirmed) up to a depth.",
"Tests sleep for a while with one schedule and an explorer that always answers.",
["pkg/crawler/service.go","pkg/crawler/observable.go","pkg/crawler/event.go","pkg/crawler/crawler.go"],[("observable handlers with tickers","observable.go")],["event channel, explorer calls, goroutines left"])

prop("C21","Confirmed transactions settle trades and update coins, whatever the faults",
"""Once a swap's or a withdrawal's transaction is confirmed, the matching trade becomes settled, the coins it spent are marked spent and those paid back to the wallet become confirmed and available, even if earlier attempts met explorer or storage errors or the notification is repeated. Events about transactions or addresses that are unknown are ignored without stopping the processing of later events.""",
["fault_sequences","histories"],"Every sequence of crawler events up to a depth with a storage or explorer fault at any call, on both back ends.",
"The listener has no unit tests.",
[APP+"blockchain_listener.go"],[("event loop","blockchain_listener.go")],["stored trade, coins and published events"])

prop("C22","Each webhook is stored once and called exactly for its events",
"""After any sequence or interleaving of subscriptions and removals, the registry holds exactly the hooks added and not removed, each listed under its own action; removing an unknown hook changes nothing. Publishing an event calls every hook subscribed to that event or to all events, once, with the published message and, if the hook has a secret, a token that verifies with that secret, and one failing endpoint never prevents the others from being called (one that kept failing may itself be spared for a while). A failure of the store while adding a hook is reported and leaves no hook; one while removing it is reported or leaves the removal done. Whenever the wallet is unlocked, after any history or interleaving of initialisations, unlocks, password changes and restarts of the daemon, the hooks are all there and can be listed, called and added to.""",
["schedules","histories","fault_sequences"],"Every sequence up to a depth and every interleaving of two operations over a small set of hooks, with every endpoint failing or not.",
"Tests subscribe a few hooks one after the other and count invocations once.",
["internal/core/application/wallet_service.go","internal/infrastructure/pubsub/webhook/service.go","internal/infrastructure/pubsub/webhook/store.go","internal/infrastructure/pubsub/webhook/webhook.go","pkg/circuitbreaker/circuitbreaker.go"],
[("hooks by action lists in the secure store","webhook/service.go")],["list of hooks, HTTP requests received"])

prop("C23","The secure store keeps its data under the current password, across crashes",
"""Data put in the secure store is returned unchanged while it is unlocked, is never readable while locked and never stored in clear; only the current password unlocks it. Changing the password keeps every entry, and a crash at any point of it leaves a store whose every entry opens with one password, the old or the new.""",
["histories","crash_points"],"Every operation sequence up to a depth over small bucket, key and value sets, and every on-disk state during a password change.",
"Tests change the password once and never interrupt it.",
["pkg/securestore/bolt/store.go","pkg/securestore/kvdb/backend.go"],[("snacl secret key and bolt buckets","bolt/store.go")],["SecureStorage results, reopened file"])

prop("C24","Every protected request needs a valid credential with the right permission",
"""With authentication enabled, a request outside the public list is served only with an unaltered credential baked by this daemon that carries the permission of that request, and is refused in every other case, including when authentication could not be set up; every protected request is available to the admin credential, and each narrower credential opens exactly the requests of its own permissions and never those that move funds outside them. Credentials issued before a password change stay valid and a wrong password never unlocks the credential store.""",
["configurations","inputs","histories"],"All request methods times all issued credentials, altered or missing credentials and store states.",
"Tests cover the macaroon library on one method; the map from requests to permissions and the start-up path are untested.",
["internal/interfaces/grpc/interceptor/auth.go","internal/interfaces/grpc/permissions/permissions.go","internal/interfaces/grpc/service.go","internal/interfaces/grpc/macaroon_utils.go","pkg/macaroons/service.go","pkg/macaroons/store.go"],
[("interceptor and permission tables","interceptor/auth.go")],["gRPC replies"])

prop("C25","Coin selection covers the target with available coins of the asset only",
"""For every set of coins and positive target, coin selection returns distinct coins of the requested asset taken from the given set whose total minus the returned change is exactly the target, and fails only if the total of that asset is below the target. It answers promptly however many coins there are. Concurrent selections do not influence each other.""",
["inputs","schedules"],"All coin sets up to a size with values and assets from a small domain, all targets, and every interleaving (bounded) of two selections.",
"Tests run three examples from one goroutine.",
["pkg/explorer/coinselection.go"],[("SelectUnspents","coinselection.go")],["selected coins and change"])

prop("C26","Operator fund fragmentation never loses or over-allocates funds",
"""For every deposited amount, the operator tool splits it into fragments that are positive, do not exceed the configured number, and together with the network fee equal the deposited amount, for fee and for market deposits alike. Coins of assets that are not the market's stay untouched.""",
["inputs"],"All amounts in dense ranges around every threshold for both tools.",
"Tests check a few amounts.",
["cmd/tdex/fragmentfee.go","cmd/tdex/fragmentmarket.go"],[("fragment functions","fragmentfee.go, fragmentmarket.go")],["fragments returned"])

prop("C27","Explorer answers are reported faithfully and bad ones never crash the daemon",
"""For every answer of the explorer service — correct, failing, truncated or inconsistent, at any request of a call — the client either returns exactly the coins, transactions and confirmation states the answers contain or an error; it never panics, hangs or silently drops a coin, nor reports one as of an asset that its output does not commit to.""",
["fault_sequences"],"One fault of every kind at every request of every client call, and small populations of coins.",
"Tests need a live regtest explorer and are not run.",
["pkg/explorer/esplora/client.go","pkg/explorer/esplora/unspents.go","pkg/explorer/esplora/transaction.go","pkg/explorer/esplora/types.go","pkg/transactionutil/transactionutil.go"],[("HTTP client and parsers","pkg/explorer/esplora")],["results of explorer.Service"])

prop("C28","Requests and replies of the RPC interface mean what they say",
"""For every request of the operator, wallet and trade interfaces, the daemon either refuses it, with no effect, or carries out exactly what its fields ask for; malformed ones (an unknown type, a missing or reversed market, an amount or price that is not positive, a missing swap) are always refused. The reply reports the outcome unchanged: assets, amounts, fees, prices, statuses, times, identifiers and failures. No request, whatever its fields, crashes or blocks the daemon, whether its wallet is locked or not.""",
["inputs"],"Every request over boundary values of all of its fields, against services giving every kind of answer and against a whole daemon.",
"The handlers have no tests.",
["internal/interfaces/grpc/handler/operator.go","internal/interfaces/grpc/handler/wallet.go","internal/interfaces/grpc/handler/trade.go","internal/core/application/operator_service.go","internal/core/application/trade_service.go"],
[("handlers of requests","internal/interfaces/grpc/handler")],["gRPC replies and errors","calls of the application services","state of the daemon"])

prop("C29","The trading client library never gives away more than was agreed",
"""For every market order placed through the client library and everything the provider answers, at every step, the library either carries the order out or returns an error: a provider that fails, rejects or does not answer is never reported as a success, and no answer crashes the library. It proposes a transaction that takes exactly the previewed amount from the trader's own coins, with all change, and receives the previewed amount at the trader's address. It signs a transaction only if that takes no more of any asset from the trader, and gives no less, than what was proposed, whatever the provider changed in it.""",
["fault_sequences","inputs"],"Every order over a few purses with one deviation of every kind at each step of the provider, and accepted transactions cut or altered at every byte.",
"The orders have no tests.",
["pkg/trade/buy.go","pkg/trade/sell.go","pkg/trade/preview.go","pkg/trade/wallet.go","pkg/trade/client/trade_propose.go","pkg/trade/client/trade_complete.go","pkg/transactionutil/transactionutil.go"],
[("market orders","buy.go, sell.go"),("signing","wallet.go")],["results of the orders","requests received by the provider","signatures in them"])

prop("C30","The operator's command line does exactly what it is told and reports the true outcome",
"""For every command of the operator's tool and all values of its flags, the tool either asks the daemon once for exactly what it was told, or refuses, saying why and asking nothing; flags that do not parse and commands about a market not configured are always refused. It exits with success and says so only if the daemon carried the order out, whatever the daemon answers, at any message of a restore, and shows the reply unchanged, whatever its size. Unless the operator switched security off, nothing reaches a daemon that does not prove to own the configured certificate, and every request to the operator interface carries the configured macaroon, which is never sent unencrypted. Configuration commands change exactly the keys told; wherever writing ends, through a full disk or a kill, the configuration, with the keys of deposits in it, is the old or the new one, and a damaged one is neither used nor overwritten.""",
["fault_sequences","crash_points","inputs","histories"],"Every command with boundary values of every flag, every answer of the daemon, every connection; configurations reached by every sequence of commands, and every byte and file operation at which writing one ends.",
"The tests of the tool need a running daemon.",
["cmd/tdex/main.go","cmd/tdex/config.go","cmd/tdex/initwallet.go","cmd/tdex/dropmarket.go","cmd/tdex/updateprice.go","cmd/tdex/claimmarket.go","pkg/macaroons/auth.go"],
[("commands","cmd/tdex"),("configuration","main.go, config.go")],["requests received by the daemon and their metadata","exit code and output of the tool","state.json"])

prop("C31","The daemon process starts only on a sound configuration, honours it, and resumes where it was after any stop or kill",
"""The daemon process refuses to start, saying why and without a crash, when a setting is unsound: a default fee out of the range of fees or not a number, an unknown network or one that is not the explorer's, half a TLS key pair or one that does not match, an extra IP that is none, a port in use or out of range, an explorer that cannot be reached, an unusable data directory, a TLS key that cannot be used; nothing is damaged by that. Every sound value is honoured: each market gets the configured default fee, addresses and assets are those of the network, interfaces are served, over TLS and with macaroons, as configured, and the certificate covers the configured names; no value of any setting crashes it. When told to stop it ends, with success, whatever its clients and itself are doing, within seconds. After a stop, or a kill at any time, even in the middle of an order or of writing its certificate and macaroons, a restarted daemon works with the same password and shows the same markets, prices, fees, addresses, trades, coins, balances and webhooks as if the interrupted order had been carried out, not at all, or up to one of its steps; it never hands out an address twice. A second daemon on the same data directory does not start.""",
["histories","crash_points","inputs","schedules"],"Every listed value of every setting, every state of clients when stopped, every sequence of orders up to the depth with a kill or stop after each, a kill at each request of an order to the explorer, and after each file operation on the certificate and macaroons.",
"The tests never run the process.",
["cmd/tdexd/main.go","config/config.go","internal/interfaces/grpc/service.go","internal/interfaces/grpc/macaroon_utils.go","internal/core/application/blockchain_listener.go","internal/core/application/wallet_service.go"],
[("startup and shutdown","cmd/tdexd/main.go"),("settings","config/config.go"),("TLS, macaroons, multiplexing","internal/interfaces/grpc")],["exit code and output of the process","replies of all interfaces before and after a restart","files of the data directory"])

prop("C32","An Elements node serves as explorer faithfully, whatever it answers",
"""With an Elements node, reached by JSON-RPC, as explorer, the coins reported for one or many addresses are exactly the node's unspent outputs of those addresses, each once, with the transaction, index, asset, commitments, script, nonce, proofs and confirmation that the node has, and its amount exact to the satoshi over the whole range of amounts; no address, no coins. Each address the node does not watch yet is imported first, once, watch-only, with its own blinding key and its script as label, and one it watches already is not imported again. A transaction is reported with the inputs, outputs, version, locktime, weight and confirmation it has; its confirmation and its block are those of the node, unconfirmed or replaced being not confirmed; the transactions of an address are all those that pay it, each once. A published transaction is handed over once, as it is, and its id returned; on regtest, faucet and mint send what was asked to whom was asked, mine one block and return the transaction and the asset. An unsound endpoint or rescan time is refused. When any request fails, in whatever way, the call fails: never a partial result, a crash, a hang, or a goroutine left behind; an answer of another form crashes nothing.""",
["inputs","faults"],"Every listed population of coins, set of addresses watched and asked for, and call; a failure of every kind at every request; every listed amount.",
"The tests need a live node.",
["pkg/explorer/elements/service.go","pkg/explorer/elements/unspents.go","pkg/explorer/elements/transaction.go","pkg/explorer/elements/types.go","pkg/explorer/elements/client.go"],
[("explorer over JSON-RPC","pkg/explorer/elements")],["what each call returns","requests received by the node"])
