From 0653b488fbd60f190255c76523ae806ef0640c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 01/41] fix: do not divide by zero when a posting with a price,
 or its price, is zero

---
 accounting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounting.go b/accounting.go
index 002612c..853856e 100644
--- a/accounting.go
+++ b/accounting.go
@@ -777,6 +777,9 @@ func (l *Ledger) Fill() error {
 
 	// Adding prices from splits
 	for s, v := range l.SplitPrices {
+		if v.Amount == 0 || s.Value.Amount == 0 {
+			continue // no rate can be deduced from these
+		}
 		price := new(Price)
 		price.Time = *s.Time
 		price.Currency = s.Value.Currency
-- 
2.43.0


From b416d6f7da55ca2d9ef893db20c8c6e1ed4e7b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 02/41] fix: balance assertions on currencies the account does
 not hold

---
 accounting.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/accounting.go b/accounting.go
index 853856e..5eb17fd 100644
--- a/accounting.go
+++ b/accounting.go
@@ -741,31 +741,20 @@ func (l *Ledger) Fill() error {
 				b.Add(s.Value)
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
-					if a.Amount == 0 && len(b) == 0 {
-						a = Value{}
-					} else if s.Value == (Value{}) && len(b) == 0 {
-						s.Value = a
-						s.Value.Amount = a.Amount
-						b.Add(s.Value)
-						s.Balance.Add(s.Value)
-						a = Value{}
-					}
+					// a currency which is not in the account counts as zero
+					current := Value{Currency: a.Currency}
 					for _, v := range b {
 						if v.Currency == a.Currency {
-							if s.Value == (Value{}) {
-								s.Value = a
-								s.Value.Amount = a.Amount - v.Amount
-								b.Add(s.Value)
-								s.Balance.Add(s.Value)
-							} else if v.Amount != a.Amount {
-								return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
-							}
-							a = Value{}
-							break
+							current = v
 						}
 					}
-					if a != (Value{}) {
-						return fmt.Errorf("%s: wrong assertion: %s", s.ID, a)
+					if s.Value == (Value{}) {
+						s.Value = a
+						s.Value.Amount = a.Amount - current.Amount
+						b.Add(s.Value)
+						s.Balance = b.Dup()
+					} else if current.Amount != a.Amount {
+						return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, current, a)
 					}
 				}
 			}
-- 
2.43.0


From b55f730cc830bc436786cb5d1b08537822101bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 03/41] fix: add the prices implied by postings in the order of
 the postings

---
 accounting.go | 53 +++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/accounting.go b/accounting.go
index 5eb17fd..50aa755 100644
--- a/accounting.go
+++ b/accounting.go
@@ -765,31 +765,34 @@ func (l *Ledger) Fill() error {
 	}
 
 	// Adding prices from splits
-	for s, v := range l.SplitPrices {
-		if v.Amount == 0 || s.Value.Amount == 0 {
-			continue // no rate can be deduced from these
-		}
-		price := new(Price)
-		price.Time = *s.Time
-		price.Currency = s.Value.Currency
-		i := big.NewInt(U)
-		i.Mul(i, big.NewInt(v.Amount))
-		i.Quo(i, big.NewInt(s.Value.Amount))
-		price.Value.Amount = i.Int64()
-		price.Value.Currency = v.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
-
-		price = new(Price)
-		price.Time = *s.Time
-		price.Currency = v.Currency
-		i = big.NewInt(U)
-		i.Mul(i, big.NewInt(s.Value.Amount))
-		i.Quo(i, big.NewInt(v.Amount))
-		price.Value.Amount = i.Int64()
-		price.Value.Currency = s.Value.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+	for _, t := range l.Transactions {
+		for _, s := range t.Splits {
+			v, ok := l.SplitPrices[s]
+			if !ok || v.Amount == 0 || s.Value.Amount == 0 {
+				continue // no price, or no rate can be deduced from it
+			}
+			price := new(Price)
+			price.Time = *s.Time
+			price.Currency = s.Value.Currency
+			i := big.NewInt(U)
+			i.Mul(i, big.NewInt(v.Amount))
+			i.Quo(i, big.NewInt(s.Value.Amount))
+			price.Value.Amount = i.Int64()
+			price.Value.Currency = v.Currency
+			l.Prices = append(l.Prices, price)
+			l.Comments[price] = append(l.Comments[price], "automatic")
+
+			price = new(Price)
+			price.Time = *s.Time
+			price.Currency = v.Currency
+			i = big.NewInt(U)
+			i.Mul(i, big.NewInt(s.Value.Amount))
+			i.Quo(i, big.NewInt(v.Amount))
+			price.Value.Amount = i.Int64()
+			price.Value.Currency = s.Value.Currency
+			l.Prices = append(l.Prices, price)
+			l.Comments[price] = append(l.Comments[price], "automatic")
+		}
 	}
 
 	// This must be executed after all the balances
-- 
2.43.0


From e8127b512e38b01cf8bda2982b2252d5d663c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 04/41] fix: compute the level of accounts listed before their
 parents

---
 accounting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 50aa755..e55e9b9 100644
--- a/accounting.go
+++ b/accounting.go
@@ -512,6 +512,10 @@ func (b Balance) Dup() Balance {
 
 func insertAccount(where *[]*Account, account *Account) {
 	*where = append(*where, account)
+	account.Level = 0
+	if account.Parent != nil {
+		account.Level = account.Parent.Level + 1
+	}
 	for _, a := range account.Children {
 		insertAccount(where, a)
 	}
@@ -599,7 +603,6 @@ func (l *Ledger) Fill() error {
 	}
 	for _, a := range l.Accounts {
 		if a.Parent != nil {
-			a.Level = a.Parent.Level + 1
 			a.Parent.Children = append(a.Parent.Children, a)
 		}
 	}
-- 
2.43.0


From 8baef39924852eada8d304e762f183a23e186d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 05/41] fix: balance of an account before its first posting

---
 accounting.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/accounting.go b/accounting.go
index e55e9b9..8ff92d4 100644
--- a/accounting.go
+++ b/accounting.go
@@ -318,18 +318,14 @@ func (a Account) FullName() string {
 // GetBalance gets an account balance at a given time.
 // If passed the zero value, it gets the current balance.
 func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
-	if len(account.Splits) == 0 {
-		return nil
-	}
-	if (when == time.Time{}) {
-		return account.Splits[len(account.Splits)-1].Balance
-	}
-	for i := 1; i < len(account.Splits); i++ {
-		if account.Splits[i].Time.After(when) {
-			return account.Splits[i-1].Balance
+	balance := account.StartBalance
+	for _, s := range account.Splits {
+		if (when != time.Time{}) && s.Time.After(when) {
+			break
 		}
+		balance = s.Balance
 	}
-	return account.Splits[len(account.Splits)-1].Balance
+	return balance
 }
 
 // TransactionsInAccount gets the list of all the transactions
-- 
2.43.0


From 42abfddeb0369bd5337a03d523504d532f3e10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 06/41] fix: clone the currencies which are not in the list of
 currencies

---
 accounting.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/accounting.go b/accounting.go
index 8ff92d4..4326077 100644
--- a/accounting.go
+++ b/accounting.go
@@ -191,6 +191,17 @@ func (l *Ledger) Clone() *Ledger {
 	for _, p := range l.Prices {
 		mapPrices[p] = new(Price)
 	}
+	cloneCurrency := func(c *Currency) *Currency {
+		if c == nil {
+			return nil
+		}
+		if mapCurrencies[c] == nil {
+			// currencies without a name are not in l.Currencies
+			mapCurrencies[c] = new(Currency)
+			*mapCurrencies[c] = *c
+		}
+		return mapCurrencies[c]
+	}
 
 	res := new(Ledger)
 	res.connection = l.connection
@@ -214,7 +225,7 @@ func (l *Ledger) Clone() *Ledger {
 		na.StartBalance = make([]Value, len(a.StartBalance))
 		for k, v := range a.StartBalance {
 			na.StartBalance[k].Amount = v.Amount
-			na.StartBalance[k].Currency = mapCurrencies[v.Currency]
+			na.StartBalance[k].Currency = cloneCurrency(v.Currency)
 		}
 	}
 	res.Transactions = make([]*Transaction, len(l.Transactions))
@@ -241,11 +252,11 @@ func (l *Ledger) Clone() *Ledger {
 				*ns.Time = *s.Time
 			}
 			ns.Value.Amount = s.Value.Amount
-			ns.Value.Currency = mapCurrencies[s.Value.Currency]
+			ns.Value.Currency = cloneCurrency(s.Value.Currency)
 			ns.Balance = make([]Value, len(s.Balance))
 			for k, v := range s.Balance {
 				ns.Balance[k].Amount = v.Amount
-				ns.Balance[k].Currency = mapCurrencies[v.Currency]
+				ns.Balance[k].Currency = cloneCurrency(v.Currency)
 			}
 		}
 	}
@@ -268,23 +279,23 @@ func (l *Ledger) Clone() *Ledger {
 		res.Prices[i] = np
 		np.ID = p.ID
 		np.Time = p.Time
-		np.Currency = mapCurrencies[p.Currency]
+		np.Currency = cloneCurrency(p.Currency)
 		np.Value.Amount = p.Value.Amount
-		np.Value.Currency = mapCurrencies[p.Value.Currency]
+		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
 	// TODO: Comments are not deep-copied (I have to deal with interface{})
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.Assertions[mapSplits[s]] = v
 	}
 	res.SplitPrices = make(map[*Split]Value)
 	for s, v := range l.SplitPrices {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.SplitPrices[mapSplits[s]] = v
 	}
-	res.DefaultCurrency = mapCurrencies[l.DefaultCurrency]
+	res.DefaultCurrency = cloneCurrency(l.DefaultCurrency)
 
 	return res
 }
-- 
2.43.0


From e324d81682b8071b93fe7cc4c057d5c2f85d52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 07/41] fix: clone the comments

---
 accounting.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 4326077..dd4aefb 100644
--- a/accounting.go
+++ b/accounting.go
@@ -284,7 +284,22 @@ func (l *Ledger) Clone() *Ledger {
 		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
-	// TODO: Comments are not deep-copied (I have to deal with interface{})
+	for k, v := range l.Comments {
+		v = append([]string(nil), v...)
+		switch x := k.(type) {
+		case *Account:
+			k = mapAccounts[x]
+		case *Transaction:
+			k = mapTransactions[x]
+		case *Split:
+			k = mapSplits[x]
+		case *Currency:
+			k = cloneCurrency(x)
+		case *Price:
+			k = mapPrices[x]
+		}
+		res.Comments[k] = v
+	}
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
 		v.Currency = cloneCurrency(v.Currency)
-- 
2.43.0


From c91c56f23c446cd9048cb0f5f41c5335cacf65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 08/41] fix: a transaction waiting for a balance assertion does
 not block the following ones

---
 accounting.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/accounting.go b/accounting.go
index dd4aefb..02106e2 100644
--- a/accounting.go
+++ b/accounting.go
@@ -671,20 +671,23 @@ func (l *Ledger) Fill() error {
 
 	finished := false
 	deadlock := false
-	iTransactions := 0
+	balanced := make(map[*Transaction]bool)
 	iAccounts := make(map[int]int)
 	for !finished && !deadlock {
 		finished = true
 		deadlock = true
-		for ; iTransactions < len(l.Transactions); iTransactions++ {
+	transactions:
+		for _, transaction := range l.Transactions {
+			if balanced[transaction] {
+				continue
+			}
 			finished = false
 			// Check for the correctness of a transaction, and fill all the calculated fields
-			transaction := l.Transactions[iTransactions]
 			var unbalancedSplit *Split
 			var balance Balance
 			for i, s := range transaction.Splits {
 				if s.Value.Currency == nil && l.Assertions[s] != (Value{}) {
-					goto endTransaction
+					continue transactions
 				}
 				if s.Value.Currency == nil {
 					if unbalancedSplit != nil {
@@ -704,12 +707,14 @@ func (l *Ledger) Fill() error {
 				if unbalancedSplit != nil {
 					unbalancedSplit.Value.Currency = new(Currency)
 				}
+				balanced[transaction] = true
 				deadlock = false
 				continue
 			}
 			if unbalancedSplit != nil && len(balance) == 1 {
 				unbalancedSplit.Value = balance[0]
 				unbalancedSplit.Value.Amount = -unbalancedSplit.Value.Amount
+				balanced[transaction] = true
 				deadlock = false
 				continue
 			}
@@ -742,6 +747,7 @@ func (l *Ledger) Fill() error {
 				price.Value.Currency = balance[0].Currency
 				l.Prices = append(l.Prices, price)
 				l.Comments[price] = append(l.Comments[price], "automatic")
+				balanced[transaction] = true
 				deadlock = false
 				continue
 			}
@@ -750,7 +756,6 @@ func (l *Ledger) Fill() error {
 			}
 			panic("balancing transaction: unreachable code")
 		}
-	endTransaction:
 		for i := 0; i < len(l.Accounts); i++ {
 			var b Balance
 			if iAccounts[i] > 0 {
@@ -785,8 +790,10 @@ func (l *Ledger) Fill() error {
 			}
 		}
 	}
-	if !finished && deadlock {
-		return fmt.Errorf("%s: deadlock (cannot balance transaction)", l.Transactions[iTransactions].ID)
+	for _, t := range l.Transactions {
+		if !balanced[t] {
+			return fmt.Errorf("%s: deadlock (cannot balance transaction)", t.ID)
+		}
 	}
 
 	// Adding prices from splits
-- 
2.43.0


From 3696046a41a678cac02f1c59660304dd7d8d873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 09/41] fix: endless recursion converting amounts when prices
 go round in circles

---
 accounting.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/accounting.go b/accounting.go
index 02106e2..de5d4f1 100644
--- a/accounting.go
+++ b/accounting.go
@@ -545,10 +545,19 @@ func insertAccount(where *[]*Account, account *Account) {
 
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
+	return l.convert(v, when, currency, make(map[*Currency]bool))
+}
+
+// convert does the work of Convert, without going through the currencies in "visited".
+func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited map[*Currency]bool) (Value, error) {
 	if v.Currency == currency {
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
 	}
+	if currency == nil {
+		return v, fmt.Errorf("could not convert %q: no currency to convert to", v)
+	}
+	visited[v.Currency] = true
 	var prevTime, nextTime time.Time
 	var prevValue, nextValue Value
 	prevValue = v
@@ -574,7 +583,7 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 	}
 	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
 		for _, p := range l.Prices {
-			if p.Currency != v.Currency {
+			if p.Currency != v.Currency || visited[p.Value.Currency] {
 				continue
 			}
 			if p.Time.Before(when) {
@@ -596,7 +605,7 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 		if err != nil {
 			return nv, err
 		}
-		return l.Convert(nv, when, currency)
+		return l.convert(nv, when, currency, visited)
 	}
 	if nextTime == (time.Time{}) {
 		prevValue.Mul(v)
-- 
2.43.0


From 3cdf8bade9950d938a2a7b4775d9e0019603120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 10/41] fix: every ledger has its own transfer account

---
 accounting.go | 49 +++++++++++++++++++++++++++----------------------
 types.go      |  2 +-
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/accounting.go b/accounting.go
index de5d4f1..ea2bf41 100644
--- a/accounting.go
+++ b/accounting.go
@@ -532,6 +532,11 @@ func (b Balance) Dup() Balance {
 	return res
 }
 
+// IsTransfer returns whether this is the special transfer account of a ledger (see TransferAccount).
+func (a *Account) IsTransfer() bool {
+	return a.Parent == nil && a.Name == TransferAccount.Name
+}
+
 func insertAccount(where *[]*Account, account *Account) {
 	*where = append(*where, account)
 	account.Level = 0
@@ -646,18 +651,15 @@ func (l *Ledger) Fill() error {
 	l.Accounts = newAccounts
 
 	// Remove splits with transferAccount, if any:
-	for i := range l.Transactions {
-		// TODO: this may be buggy!
-		for j := range l.Transactions[i].Splits {
-			if j >= len(l.Transactions[i].Splits) {
-				break
-			}
-			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == &TransferAccount {
-				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
-				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
+	for _, t := range l.Transactions {
+		var splits []*Split
+		for _, s := range t.Splits {
+			s.Balance = nil
+			if !s.Account.IsTransfer() {
+				splits = append(splits, s)
 			}
 		}
+		t.Splits = splits
 	}
 	sort.SliceStable(l.Transactions, func(i, j int) bool {
 		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
@@ -842,18 +844,21 @@ func (l *Ledger) Fill() error {
 	})
 
 	// Create fake splits in transactions with different times.
-	for i := range l.Accounts {
-		if l.Accounts[i] == &TransferAccount {
-			goto transferAlreadyInAccounts
+	var transferAccount *Account
+	for _, a := range l.Accounts {
+		if a.IsTransfer() {
+			transferAccount = a
 		}
 	}
-	l.Accounts = append(l.Accounts, &TransferAccount)
-transferAlreadyInAccounts:
+	if transferAccount == nil {
+		transferAccount = &Account{Name: TransferAccount.Name}
+		l.Accounts = append(l.Accounts, transferAccount)
+	}
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
 			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
 				split1 := &Split{
-					Account:     &TransferAccount,
+					Account:     transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        l.Transactions[i].Splits[j].Time,
 					Value: Value{
@@ -862,7 +867,7 @@ transferAlreadyInAccounts:
 					},
 				}
 				split2 := &Split{
-					Account:     &TransferAccount,
+					Account:     transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        &l.Transactions[i].Time,
 					Value: Value{
@@ -872,17 +877,17 @@ transferAlreadyInAccounts:
 				}
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)
-				TransferAccount.Splits = append(TransferAccount.Splits, split1)
-				TransferAccount.Splits = append(TransferAccount.Splits, split2)
+				transferAccount.Splits = append(transferAccount.Splits, split1)
+				transferAccount.Splits = append(transferAccount.Splits, split2)
 			}
 		}
 	}
-	sort.SliceStable(TransferAccount.Splits, func(i, j int) bool {
-		return TransferAccount.Splits[i].Time.Before(*TransferAccount.Splits[j].Time)
+	sort.SliceStable(transferAccount.Splits, func(i, j int) bool {
+		return transferAccount.Splits[i].Time.Before(*transferAccount.Splits[j].Time)
 	})
 
 	var b Balance
-	for _, s := range TransferAccount.Splits {
+	for _, s := range transferAccount.Splits {
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
diff --git a/types.go b/types.go
index f306178..850f997 100644
--- a/types.go
+++ b/types.go
@@ -62,7 +62,7 @@ type Account struct {
 }
 
 // TransferAccount is a special account used when a transaction has two or more splits with different times.
-// Ledger.Fill() automatically generates splits with this account.
+// Ledger.Fill() automatically generates splits with an account like this one in each ledger.
 var TransferAccount Account = Account{
 	Name: "Assets:Transfer account",
 }
-- 
2.43.0


From b02b650b285039702b2d1a8262f03b595945c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 11/41] fix: do not add the automatic prices again when filling
 a ledger again

---
 accounting.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/accounting.go b/accounting.go
index ea2bf41..c3c6592 100644
--- a/accounting.go
+++ b/accounting.go
@@ -661,6 +661,16 @@ func (l *Ledger) Fill() error {
 		}
 		t.Splits = splits
 	}
+	// Remove automatic prices, if any:
+	var prices []*Price
+	for _, p := range l.Prices {
+		if c := l.Comments[p]; p.ID == nil && len(c) == 1 && c[0] == "automatic" {
+			delete(l.Comments, p)
+			continue
+		}
+		prices = append(prices, p)
+	}
+	l.Prices = prices
 	sort.SliceStable(l.Transactions, func(i, j int) bool {
 		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
 	})
-- 
2.43.0


From ae08551ade21b883a6aa73cc9545469475c6139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 12/41] fix: running balances when restricting transactions
 with -pivot

---
 cmd/ledger/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5b59108..12797bc 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -421,6 +421,11 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 				j--
 			}
 		}
+		var b accounting.Balance
+		for _, s := range L.Accounts[i].Splits {
+			b.Add(s.Value)
+			s.Balance = b.Dup()
+		}
 	}
 }
 
-- 
2.43.0


From ae8f6c20d5235ce94fae1e0881d423ece910c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 13/41] fix: delta counts each account once

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 12797bc..28ac123 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -319,6 +319,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		for _, b := range args {
 			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
 				accounts = append(accounts, a)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 6ff877efc8a63186a6ef5ae06c362042dcc29567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 14/41] fix: balance shows the accounts with movements only
 before the begin date

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 28ac123..8e970cc 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -139,7 +139,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	if !flags.total {
 		for _, a := range accounts {
-			if len(a.Account.Splits) > 0 {
+			if len(a.Account.Splits) > 0 || len(a.Balance) > 0 {
 				for i, v := range a.Balance {
 					fmt.Printf("%*.*s", maxLength, maxLength, v.String())
 					if i == len(a.Balance)-1 {
-- 
2.43.0


From dc8991f01c06048dfe7d29710b51c821e45591c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 15/41] fix: accept thousand signs after one or two digits when
 the sign is known

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1973619..220aa63 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -544,7 +544,7 @@ done2:
 		}
 		if value.Currency.Thousand == string(c) || (value.Currency.Thousand == "" && value.Currency.Decimal != "" && value.Currency.Decimal != string(c)) {
 			value.Currency.Thousand = string(c)
-			if (thousandPos == -1 && i > 3) || i-thousandPos != 4 || decimalPos > -1 {
+			if (thousandPos == -1 && i > 3) || (thousandPos > -1 && i-thousandPos != 4) || decimalPos > -1 {
 				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
 			}
 			thousandPos = i
-- 
2.43.0


From 5b2502ae2eca72eca519a042a8a0b459850c8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 16/41] fix: refuse amounts with less than three digits after
 the last thousand sign

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 220aa63..fd1a87f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -588,6 +588,9 @@ done2:
 	if punct != "" {
 		return value, fmt.Errorf("syntax error: punctuation '%s' can be a thousand or a decimal", punct), newCurrency
 	}
+	if thousandPos > -1 && decimalPos == -1 && len(sAmount)-thousandPos != 4 {
+		return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
+	}
 	shift := 0
 	if decimalPos == -1 {
 		shift = 8
-- 
2.43.0


From d7d3ef5efc6e43d8100063116f7c2c479f85c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 17/41] fix: amounts after the currency can have ' as a
 punctuation mark

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index fd1a87f..526fca1 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -473,7 +473,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		// first currency, then amount
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
-			if !strings.ContainsRune("-+0123456789.,_", rune(s[i])) {
+			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
 				if !unicode.IsSpace(rune(s[i])) {
 					value.Currency.WithoutSpace = true
 				}
-- 
2.43.0


From 6fe6b8dc501efad9279312249d9f96c740dc27e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 18/41] fix: currencies with a precision of more than 8
 decimals

---
 backend/ledger/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 526fca1..1969962 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -596,14 +596,14 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
+		if shift > 8 {
+			return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
+		}
 		if newCurrency {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
 	}
-	if shift < 0 || shift > 8 {
-		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
-	}
 	for i := 0; i < shift; i++ {
 		value.Amount *= 10
 	}
-- 
2.43.0


From f62ef87c65d4b8d1107f737e8e86b9c628668c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 19/41] fix: refuse amounts which do not fit in 64 bits

---
 backend/ledger/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1969962..016150f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"os"
 	"path"
@@ -405,6 +406,10 @@ func (l *ledgerConnection) readJournal() error {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
+					if !k.IsInt64() {
+						log.Printf("%s:%d: syntax error: price too big\n", line.Filename, line.LineNum)
+						continue
+					}
 					value.Amount = k.Int64()
 				}
 				l.ledger.SplitPrices[s] = value
@@ -526,6 +531,9 @@ done2:
 	}
 	for i, c := range sAmount {
 		if c >= '0' && c <= '9' {
+			if value.Amount > (math.MaxInt64-int64(c-'0'))/10 {
+				return value, errors.New("syntax error: amount too big"), newCurrency
+			}
 			value.Amount *= 10
 			value.Amount += int64(c - '0')
 			continue
@@ -605,6 +613,9 @@ done2:
 		shift = 8 - shift
 	}
 	for i := 0; i < shift; i++ {
+		if value.Amount > math.MaxInt64/10 {
+			return value, errors.New("syntax error: amount too big"), newCurrency
+		}
 		value.Amount *= 10
 	}
 	value.Amount *= sign
-- 
2.43.0


From 9be76b1c0f0d3fc73abcf4957629c18d586ec8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 20/41] fix: comments after a commodity line belong to that
 commodity

---
 backend/ledger/parser.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 016150f..6e93def 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -192,6 +192,7 @@ func (l *ledgerConnection) readJournal() error {
 	s.NewFile(l.file)
 
 	lastLine := lineNone
+	var lastCurrency *accounting.Currency // currency in the last "commodity" line
 	for {
 		line := s.Line()
 		if line.Err != nil {
@@ -222,8 +223,7 @@ func (l *ledgerConnection) readJournal() error {
 					var account *accounting.Account = l.ledger.Accounts[len(l.ledger.Accounts)-1]
 					l.addComment(account, comment)
 				case lineCommodity:
-					var currency *accounting.Currency = l.ledger.Currencies[len(l.ledger.Currencies)-1]
-					l.addComment(currency, comment)
+					l.addComment(lastCurrency, comment)
 				case linePrice:
 					var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
 					l.addComment(price, comment)
@@ -300,12 +300,17 @@ func (l *ledgerConnection) readJournal() error {
 			continue
 		}
 		if !indented && word == "commodity" {
-			lastLine = lineCommodity
-			_, err, _ := l.getValue(rest)
+			lastLine = lineNone
+			value, err, _ := l.getValue(rest)
+			if err == nil && value.Currency == nil {
+				err = errors.New("commodity without amount")
+			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			lastLine = lineCommodity
+			lastCurrency = value.Currency
 			continue
 		}
 		if !indented && word == "account" {
-- 
2.43.0


From 3e02bb6cf3465b416050bdfa17753f4118716e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 21/41] fix: keep the comments of accounts and commodities

---
 backend/ledger/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 6e93def..c8f0497 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -171,8 +171,8 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
+			return
 		}
-		return
 	}
 	// Unknown tag:
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
@@ -311,14 +311,20 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			lastLine = lineCommodity
 			lastCurrency = value.Currency
+			if comment != "" {
+				l.addComment(lastCurrency, comment)
+			}
 			continue
 		}
 		if !indented && word == "account" {
 			lastLine = lineAccount
-			_, new := l.getAccount(line.Filename, line.LineNum, rest)
+			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
+			if comment != "" {
+				l.addComment(account, comment)
+			}
 			continue
 		}
 		if !indented {
-- 
2.43.0


From d2f72c3575a3af7ca7bc6b1fbde47484e8f843e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 22/41] fix: refuse prices without an amount

---
 backend/ledger/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index c8f0497..0cee0f2 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -275,13 +275,16 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, price.Currency.Name)
 			}
 			price.Value, err, newCurrency = l.getValue(rest)
-			if comment != "" {
-				l.addComment(&price, comment)
+			if err == nil && price.Value.Currency == nil {
+				err = errors.New("price without amount")
 			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			if comment != "" {
+				l.addComment(&price, comment)
+			}
 			if newCurrency {
 				log.Printf("%s:%d undefined currency %s", line.Filename, line.LineNum, price.Value.Currency.Name)
 			}
-- 
2.43.0


From 9e7e6c6fa77f28a7844c1007df825ce6ff158fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 23/41] fix: refuse postings with an empty price or assertion

---
 backend/ledger/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 0cee0f2..6227ad3 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -409,6 +409,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasPriceRel || hasPriceAbs {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
+				if err == nil && value.Currency == nil {
+					err = errors.New("syntax error: price without amount")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
@@ -430,7 +433,11 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasAssertion {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[assertionStart:assertionEnd]))
+				if err == nil && value.Currency == nil {
+					err = errors.New("syntax error: assertion without amount")
+				}
 				if err != nil {
+					delete(l.ledger.SplitPrices, s)
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
 				}
-- 
2.43.0


From 8cc0a5e0949111f931bad6b9bf49e4e4c622e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 24/41] fix: report the errors reading a journal

---
 backend/ledger/ledger.go | 4 +++-
 backend/ledger/parser.go | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9c27f33..c6369d7 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -30,7 +30,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.file = url.Path
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	conn.readJournal()
+	if err = conn.readJournal(); err != nil {
+		return nil, err
+	}
 	return conn, nil
 }
 
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 6227ad3..a704b4b 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -189,7 +189,9 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
-	s.NewFile(l.file)
+	if err := s.NewFile(l.file); err != nil {
+		return err
+	}
 
 	lastLine := lineNone
 	var lastCurrency *accounting.Currency // currency in the last "commodity" line
@@ -197,7 +199,7 @@ func (l *ledgerConnection) readJournal() error {
 		line := s.Line()
 		if line.Err != nil {
 			if line.Err != io.EOF {
-				return line.Err
+				return fmt.Errorf("%s:%d: %s", line.Filename, line.LineNum, line.Err.Error())
 			}
 			break
 		}
@@ -250,7 +252,7 @@ func (l *ledgerConnection) readJournal() error {
 			newFile := rest
 			err := s.NewFile(newFile)
 			if err != nil {
-				log.Printf("%s:%d: couldn't include file: %s\n", line.Filename, line.LineNum, err.Error())
+				return fmt.Errorf("%s:%d: couldn't include file: %s", line.Filename, line.LineNum, err.Error())
 			}
 			continue
 		}
-- 
2.43.0


From de2d989c2b4b9527efe606344a3b4335e9de46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 25/41] fix: endless loop when a journal includes itself

---
 backend/ledger/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index a704b4b..16032a0 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -96,6 +96,11 @@ func (s *Scanner) NewFile(filename string) error {
 	if len(filename) > 0 && filename[0] != '/' && len(s.files) > 0 {
 		filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)
 	}
+	for i := range s.files {
+		if s.files[i].filename == filename {
+			return fmt.Errorf("%s: file includes itself", filename)
+		}
+	}
 	f, err := os.Open(filename)
 	if err != nil {
 		return err
-- 
2.43.0


From 47e4d3454b05b504c686b48798ede9ec0a654190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 26/41] fix: report the errors reading a text database

---
 backend/txtdb/txtdb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 4c02b90..a34f926 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -96,12 +96,18 @@ func (c *conn) read() error {
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	if err = sc.Err(); err != nil {
+		return err
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
 	f, err = os.Open(filepath.Join(c.dir, "transactions"))
-	if err != nil {
+	if os.IsNotExist(err) {
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 	sc = bufio.NewScanner(f)
 	nextID := 1
 	var balance int64
@@ -209,6 +215,9 @@ func (c *conn) read() error {
 			nextID++
 		}
 	}
+	if err = sc.Err(); err != nil {
+		return err
+	}
 	if balance != 0 {
 		log.Printf("transactions: balance is %d, not zero", balance)
 	}
-- 
2.43.0


From 028ffadd0ae923068c8949aea8f368d3e88d6c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 27/41] fix: export of the second and following comments of an
 account

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index c6369d7..269270e 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -55,7 +55,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		fmt.Fprint(out, "\n")
 		if len(ledger.Comments[a]) > 1 {
 			for _, c := range ledger.Comments[a][1:] {
-				fmt.Fprintf(out, "\t: %s\n", c)
+				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
-- 
2.43.0


From 7da75212ca058700f6f92f39cdc9215734437257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 28/41] fix: do not export the automatic transfers, they would
 be added again when reading them

---
 backend/ledger/ledger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 269270e..146c2e2 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -48,6 +48,9 @@ func (conn *ledgerConnection) Refresh() {
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
+		if a.IsTransfer() {
+			continue // it is generated automatically
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		if len(ledger.Comments[a]) > 0 {
 			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
@@ -105,6 +108,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 			}
 			for _, s := range t.Splits {
+				if s.Account.IsTransfer() {
+					continue
+				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
-- 
2.43.0


From 04bc37f05aa55445179c8e6b7be70d3e1f914dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 29/41] fix: export the seconds of the dates

---
 backend/ledger/ledger.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 146c2e2..be431e8 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -44,6 +44,14 @@ func (conn *ledgerConnection) Refresh() {
 	// TODO FIXME XXX: notifier
 }
 
+// formatTime returns a time as written in a journal, with its seconds only if there are any.
+func formatTime(t time.Time) string {
+	if t.Second() != 0 {
+		return t.Format("2006-01-02/15:04:05")
+	}
+	return t.Format("2006-01-02/15:04")
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -97,7 +105,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		// fmt.Fprintf(out, "DEBUG: i=%d j=%d tt=%v tp=%v\n", i, j, tt, tp)
 		if p == nil || (t != nil && !tt.After(tp)) {
 			i++
-			fmt.Fprintf(out, "%s %s", t.Time.Format("2006-01-02/15:04"), t.Description)
+			fmt.Fprintf(out, "%s %s", formatTime(t.Time), t.Description)
 			if len(ledger.Comments[t]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
 			}
@@ -120,7 +128,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 				var comments []string
 				if *s.Time != t.Time {
-					comments = append(comments, "date:"+s.Time.Format("2006-01-02/15:04"))
+					comments = append(comments, "date:"+formatTime(*s.Time))
 				}
 				if len(ledger.Comments[s]) > 0 {
 					comments = append(comments, ledger.Comments[s]...)
@@ -137,7 +145,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
-			fmt.Fprintf(out, "P %s %s %s", p.Time.Format("2006-01-02/15:04"), p.Currency.Name, p.Value.FullString())
+			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
 			}
-- 
2.43.0


From cea379efeb23c8013338e37163a96f3f634695b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 30/41] fix: export the automatic prices as comments, they
 would be added twice when reading them

---
 backend/ledger/ledger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index be431e8..9946782 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -145,6 +145,10 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
+			if c := ledger.Comments[p]; p.ID == nil && len(c) == 1 && c[0] == "automatic" {
+				// automatic price: it will be deduced again from its transaction
+				fmt.Fprint(out, "; ")
+			}
 			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
-- 
2.43.0


From efa9d9d47de5f9b273d332dc061c912c0c2bcb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 31/41] fix: export the default currency

---
 backend/ledger/ledger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9946782..a4dbd81 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -87,6 +87,12 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		}
 	}
+	if ledger.DefaultCurrency != nil {
+		var v accounting.Value
+		v.Amount = 1_000_000 * accounting.U
+		v.Currency = ledger.DefaultCurrency
+		fmt.Fprintf(out, "D %s\n", v.String())
+	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Transactions and prices:")
 	var i, j int
-- 
2.43.0


From dea2e95f12f816a2ae5a0135028998e7169f1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 32/41] fix: blank space after the account name of a posting

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 16032a0..8d07f25 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -379,7 +379,7 @@ func (l *ledgerConnection) readJournal() error {
 				accountEnd = len(text)
 			}
 			var newAccount bool
-			s.Account, newAccount = l.getAccount(line.Filename, line.LineNum, text[:accountEnd])
+			s.Account, newAccount = l.getAccount(line.Filename, line.LineNum, strings.TrimSpace(text[:accountEnd]))
 			if newAccount == true {
 				log.Printf("%s:%d undefined account %s", line.Filename, line.LineNum, s.Account.FullName())
 			}
-- 
2.43.0


From 81b44a05d26b44b7160c7ec9f32b356e391e6466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 33/41] fix: display of the lowest 64-bit amount

---
 accounting.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index c3c6592..da7bff7 100644
--- a/accounting.go
+++ b/accounting.go
@@ -81,12 +81,13 @@ func (value Value) GetString(full bool, units bool) string {
 			result += " "
 		}
 	}
+	amount := uint64(value.Amount)
 	if value.Amount < 0 {
 		result += "-"
-		value.Amount = -value.Amount
+		amount = -amount
 	}
-	i := value.Amount / U
-	d := value.Amount % U
+	i := amount / U
+	d := amount % U
 	if c.Decimal == "" { // shouldn't happen
 		c.Decimal = "."
 	}
-- 
2.43.0


From 8b35f6cfd9f54d806e4a48c24bfa6a5967cce49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 34/41] fix: refused amounts do not change their currency

---
 backend/ledger/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 8d07f25..167d7d6 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -525,9 +525,7 @@ done:
 	}
 	newCurrency := true
 	if value.Currency.Name == "" {
-		if l.ledger.DefaultCurrency == nil {
-			l.ledger.DefaultCurrency = value.Currency
-		} else {
+		if l.ledger.DefaultCurrency != nil {
 			value.Currency = l.ledger.DefaultCurrency
 			newCurrency = false
 		}
@@ -539,9 +537,12 @@ done:
 				goto done2
 			}
 		}
-		l.ledger.Currencies = append(l.ledger.Currencies, value.Currency)
 	}
 done2:
+	// work on a copy: an amount which is refused must not change its currency
+	currency := value.Currency
+	value.Currency = new(accounting.Currency)
+	*value.Currency = *currency
 	var sign int64 = 1
 	if sAmount[0] == '-' {
 		sign = -1
@@ -654,6 +655,15 @@ done2:
 			value.Currency.Decimal = ","
 		}
 	}
+	*currency = *value.Currency
+	value.Currency = currency
+	if newCurrency {
+		if currency.Name == "" {
+			l.ledger.DefaultCurrency = currency
+		} else {
+			l.ledger.Currencies = append(l.ledger.Currencies, currency)
+		}
+	}
 	return value, nil, newCurrency
 }
 
-- 
2.43.0


From e452d294a32f7dce098cd0c15866aa01454c0d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 35/41] fix: precision of the currencies which first appear in
 a price line

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 167d7d6..579e55d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -636,7 +636,7 @@ done2:
 		if shift > 8 {
 			return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
 		}
-		if newCurrency {
+		if newCurrency || currency.Decimal == "" { // first amount in this currency
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
-- 
2.43.0


From 4ae3f3c06ca4fb46b8ab2fb7645bfa6ab7dc35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 36/41] fix: default currency lines with only a currency

---
 backend/ledger/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 579e55d..b9ba9af 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -301,6 +301,11 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "D" {
 			lastLine = lineDefaultCurrency
+			if rest != "" && !strings.ContainsAny(rest, "0123456789") {
+				// only a currency, without amount
+				l.ledger.DefaultCurrency, _ = l.ledger.GetCurrency(rest)
+				continue
+			}
 			price, err, _ := l.getValue(rest)
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
-- 
2.43.0


From 3bce38760d972894afa5fb498c2ce6ed63e7032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 37/41] fix: text database: wrong lines do not give their date
 and description to transactions

---
 backend/txtdb/txtdb.go | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index a34f926..1b1e0a7 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -134,17 +134,6 @@ func (c *conn) read() error {
 		if oldTime.After(thisTime) {
 			log.Printf("transactions line %d: datetime not sorted\n", i)
 		}
-		if tr.ID == nil { // Fill tr only if it is not already filled
-			// First field (used to be "id") is ignored
-			tr.ID = ID(nextID)
-			tr.Time = thisTime
-			tr.Description = fields[2]
-		} else {
-			if oldTime != thisTime {
-				log.Printf("NOTICE: transactions line %d: same transaction, different datetime\n", i)
-			}
-		}
-		oldTime = thisTime
 		accountID, err := strconv.Atoi(fields[4])
 		if err != nil {
 			log.Printf("transactions line %d: invalid account (%s)", i, fields[4])
@@ -156,16 +145,12 @@ func (c *conn) read() error {
 			log.Printf("transactions line %d: invalid account (%s)", i, fields[4])
 			continue
 		}
-		if thisTime != tr.Time {
-			sp.Time = new(time.Time)
-			*sp.Time = thisTime
-		}
 		if len(fields[5]) == 0 {
-			if balance != 0 {
-				log.Printf("transactions line %d: no value inside transaction (balance=%d)", i, balance)
-				balance = 0
-			}
 			if len(fields[6]) == 0 {
+				if balance != 0 {
+					log.Printf("transactions line %d: no value inside transaction (balance=%d)", i, balance)
+					balance = 0
+				}
 				tr = nil
 				continue
 			}
@@ -183,6 +168,10 @@ func (c *conn) read() error {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
 			}
+			if balance != 0 {
+				log.Printf("transactions line %d: no value inside transaction (balance=%d)", i, balance)
+				balance = 0
+			}
 			var v accounting.Value
 			v.Currency = &c.currency
 			v.Amount = sign * int64(math.Round(100*f)) * 1000_000
@@ -207,6 +196,21 @@ func (c *conn) read() error {
 			sp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000
 			balance += sp.Value.Amount
 		}
+		if tr.ID == nil { // Fill tr only if it is not already filled
+			// First field (used to be "id") is ignored
+			tr.ID = ID(nextID)
+			tr.Time = thisTime
+			tr.Description = fields[2]
+		} else {
+			if oldTime != thisTime {
+				log.Printf("NOTICE: transactions line %d: same transaction, different datetime\n", i)
+			}
+		}
+		oldTime = thisTime
+		if thisTime != tr.Time {
+			sp.Time = new(time.Time)
+			*sp.Time = thisTime
+		}
 		tr.Splits = append(tr.Splits, sp)
 		sp.Account.Splits = append(sp.Account.Splits, sp)
 		if balance == 0 {
-- 
2.43.0


From e3a49ec389a0908afcef777f87aa3981e2bda0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 38/41] fix: text database: refuse numbers out of range

---
 backend/txtdb/txtdb.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 1b1e0a7..bb512b3 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -66,6 +66,19 @@ func (c *conn) Flush() error {
 	return errors.New("unimplemented")
 }
 
+// parseAmount returns the amount written in s, rounded to two decimals.
+func parseAmount(s string) (int64, error) {
+	f, err := strconv.ParseFloat(s, 64)
+	if err != nil {
+		return 0, err
+	}
+	f = math.Round(100 * f)
+	if !(math.Abs(f) <= math.MaxInt64/1000_000) { // too big, infinite or NaN
+		return 0, errors.New("value out of range")
+	}
+	return int64(f) * 1000_000, nil
+}
+
 func (c *conn) read() error {
 	f, err := os.Open(filepath.Join(c.dir, "accounts"))
 	if err != nil {
@@ -163,7 +176,7 @@ func (c *conn) read() error {
 				sign = -1
 				offset = 1
 			}
-			f, err := strconv.ParseFloat(fields[6][offset:], 64)
+			amount, err := parseAmount(fields[6][offset:])
 			if err != nil {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
@@ -174,7 +187,7 @@ func (c *conn) read() error {
 			}
 			var v accounting.Value
 			v.Currency = &c.currency
-			v.Amount = sign * int64(math.Round(100*f)) * 1000_000
+			v.Amount = sign * amount
 			c.ledger.Assertions[sp] = v
 		}
 		if len(fields[5]) > 0 {
@@ -187,13 +200,13 @@ func (c *conn) read() error {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
-			f, err := strconv.ParseFloat(fields[5][1:], 64)
+			amount, err := parseAmount(fields[5][1:])
 			if err != nil {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
 			sp.Value.Currency = &c.currency
-			sp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000
+			sp.Value.Amount = sign * amount
 			balance += sp.Value.Amount
 		}
 		if tr.ID == nil { // Fill tr only if it is not already filled
-- 
2.43.0


From 36e71b9e9c30eefb83573274a6810d3129f3612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 39/41] fix: balance: count amounts once when a currency is
 given twice

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 8e970cc..bad948d 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -107,6 +107,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 				for _, c := range flags.currency {
 					if v.Currency.Name == c {
 						bal.Add(v)
+						break
 					}
 				}
 			}
-- 
2.43.0


From fdafcb660e568ee01f188d4bcad63783611f22e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 40/41] fix: ledger: refuse a price in a posting without an
 amount

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index b9ba9af..2ffc301 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -424,6 +424,9 @@ func (l *ledgerConnection) readJournal() error {
 				if err == nil && value.Currency == nil {
 					err = errors.New("syntax error: price without amount")
 				}
+				if err == nil && s.Value.Currency == nil {
+					err = errors.New("syntax error: price without an amount before it")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
-- 
2.43.0


From d6fac50543c404d9e5d06faf6c554de6bdf1c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:29 +0000
Subject: [PATCH 41/41] fix: ledger accounts -tree: show short account names

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index bad948d..544aa27 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -47,7 +47,7 @@ func runAccounts(L *accounting.Ledger, flags flags, args []string) error {
 
 	for _, a := range L.Accounts {
 		if treeFlag {
-			fmt.Printf("%*.0s%s\n", 2*a.Level, " ", a.FullName())
+			fmt.Printf("%*.0s%s\n", 2*a.Level, " ", a.Name)
 		} else {
 			fmt.Println(a.FullName())
 		}
-- 
2.43.0

