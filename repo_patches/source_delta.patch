From cb60b8c42e022b6f6908c4e5e707b089ab87ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 01/28] fix: wide division with a dividend shorter than the
 divisor

Udivrem indexed past its normalised dividend when the dividend had at least
two words fewer than the divisor; the dividend is then the remainder.
---
 uint256/uint256.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uint256/uint256.go b/uint256/uint256.go
index 5f010f0..1ede51e 100644
--- a/uint256/uint256.go
+++ b/uint256/uint256.go
@@ -508,6 +508,12 @@ func Udivrem(quot, u []uint64, d *Int) (rem Int) {
 		}
 	}
 
+	// A dividend with fewer words than the divisor is the remainder itself.
+	if uLen < dLen {
+		copy(rem[:], u[:uLen])
+		return rem
+	}
+
 	var unStorage [9]uint64
 	un := unStorage[:uLen+1]
 	un[uLen] = u[uLen-1] >> (64 - shift)
-- 
2.43.0


From 29ac28059d780c02a297dc1779f8a495a26ee297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 02/28] fix: tick search rounds negative ticks towards negative
 infinity

NextInitializedTickWithinOneWord truncated towards zero, so for negative
ticks off the spacing it searched the wrong word; a swap could loop forever
at a word boundary.
---
 lib/tickdata/tickdata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 1bda414..c51c22a 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -166,6 +166,10 @@ func (t *TickData) GetFeeGrowthInside(tickLower, tickUpper, tickCurrent int, fee
 
 func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bool) {
 	compressed := tick / t.tickSpacing
+	// Round towards negative infinity
+	if tick < 0 && tick%t.tickSpacing != 0 {
+		compressed--
+	}
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-- 
2.43.0


From 1e72347d11dfb5c02d4e6cf68eec45a3a97333f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 03/28] fix: swapping in a pool without any ticks

The tick search panicked on an empty tick table instead of returning the
word boundary, so a swap in a pool without liquidity crashed.
---
 lib/tickdata/tickdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index c51c22a..2687c2c 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -173,7 +173,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-		if t.isBelowSmallest(tick) {
+		if len(t.ticks) == 0 || t.isBelowSmallest(tick) {
 			return minimum, false
 		}
 
@@ -183,7 +183,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	} else {
 		wordPos := (compressed + 1) >> 8
 		maximum := (((wordPos + 1) << 8) - 1) * t.tickSpacing
-		if t.isAtOrAboveLargest(tick) {
+		if len(t.ticks) == 0 || t.isAtOrAboveLargest(tick) {
 			return maximum, false
 		}
 		index := t.nextInitializedTick(tick, lte).Index
-- 
2.43.0


From 14eccbaf7e3128cd732b9930f270b442d58204f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 04/28] fix: cloned tick tables share no numbers with the
 original

TickData.Clone copied the ticks' pointers, so a mint, burn or crossing in one
pool changed the ticks of every clone.
---
 lib/tickdata/tickdata.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 2687c2c..6b272a8 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -25,7 +25,15 @@ func (t *TickData) Clone() *TickData {
 		ticks:       make([]Tick, len(t.ticks)),
 		tickSpacing: t.tickSpacing,
 	}
-	copy(newTickData.ticks, t.ticks)
+	for i, tick := range t.ticks {
+		newTickData.ticks[i] = Tick{
+			Index:                 tick.Index,
+			LiquidityNet:          tick.LiquidityNet.Clone(),
+			LiquidityGross:        tick.LiquidityGross.Clone(),
+			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
+			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
+		}
+	}
 	return newTickData
 }
 
-- 
2.43.0


From 9ab896184e491b62fde6ddd62ba9565570096c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 05/28] fix: cloning a position keeps the first token's owed
 amount

---
 lib/position/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/position/position.go b/lib/position/position.go
index 1589dda..bf88719 100644
--- a/lib/position/position.go
+++ b/lib/position/position.go
@@ -11,7 +11,7 @@ func (i *Info) Clone() *Info {
 		Liquidity:                i.Liquidity.Clone(),
 		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
 		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
-		TokensOwed0:              i.TokensOwed1.Clone(),
+		TokensOwed0:              i.TokensOwed0.Clone(),
 		TokensOwed1:              i.TokensOwed1.Clone(),
 	}
 }
-- 
2.43.0


From 5e941c4ca2e9157ad31a57e4c2395b2298e48739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 06/28] fix: positions on different ranges have different keys

string(int) is the UTF-8 encoding of a rune, so all ranges of negative (and
some positive) ticks shared the key U+FFFD-U+FFFD and mixed their liquidity
and fees.
---
 lib/pool/pool.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index ba41b29..caf972e 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -1,6 +1,7 @@
 package pool
 
 import (
+	"strconv"
 	cons "uniswap-simulator/lib/constants"
 	"uniswap-simulator/lib/fullmath"
 	"uniswap-simulator/lib/invariant"
@@ -97,7 +98,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "/" + strconv.Itoa(tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -167,7 +168,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "/" + strconv.Itoa(tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From 509216d9ff668c21614fde43be7a6f68593f2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 07/28] fix: multiply-divide rejects results over 256 bits

The quotient was truncated to its low 256 bits.
---
 lib/fullmath/fullmath.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/fullmath/fullmath.go b/lib/fullmath/fullmath.go
index 86ff199..802fd24 100644
--- a/lib/fullmath/fullmath.go
+++ b/lib/fullmath/fullmath.go
@@ -2,6 +2,7 @@ package fullmath
 
 import (
 	cons "uniswap-simulator/lib/constants"
+	"uniswap-simulator/lib/invariant"
 	ui "uniswap-simulator/uint256"
 )
 
@@ -10,12 +11,14 @@ func MulDivRoundingUp(a, b, denominator *ui.Int) *ui.Int {
 		return ui.NewInt(0)
 	}
 	product := ui.Umul(a, b)
-	var q [5]uint64
+	var q [8]uint64
 	quotient := q[:]
 	rem := ui.Udivrem(quotient, product[:], denominator)
+	invariant.Invariant(q[4]|q[5]|q[6]|q[7] == 0, "mulDiv result must fit in 256 bits")
 	result := (*ui.Int)(quotient[0:4])
 	if !rem.IsZero() {
 		result.Add(result, cons.One)
+		invariant.Invariant(!result.IsZero(), "mulDiv result must fit in 256 bits")
 	}
 	return result
 }
@@ -25,9 +28,10 @@ func MulDiv(a, b, denominator *ui.Int) *ui.Int {
 		return ui.NewInt(0)
 	}
 	product := ui.Umul(a, b)
-	var q [5]uint64
+	var q [8]uint64
 	quotient := q[:]
 	ui.Udivrem(quotient, product[:], denominator)
+	invariant.Invariant(q[4]|q[5]|q[6]|q[7] == 0, "mulDiv result must fit in 256 bits")
 	result := (*ui.Int)(quotient[0:4])
 	return result
 }
-- 
2.43.0


From f6a0e24b4db018687d3edcb29e761296013fa928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 08/28] fix: swap step deducts the fee from large inputs
 without overflow

amountRemaining * (1e6 - fee) wrapped modulo 2^256 for inputs above 2^236.
---
 lib/swapmath/swapmath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/swapmath/swapmath.go b/lib/swapmath/swapmath.go
index d2c177c..828e83b 100644
--- a/lib/swapmath/swapmath.go
+++ b/lib/swapmath/swapmath.go
@@ -15,7 +15,7 @@ func ComputeSwapStep(sqrtRatioCurrentX96, sqrtRatioTargetX96, liquidity, amountR
 	amountRemainingINeg := new(ui.Int).Neg(amountRemainingI)
 
 	if exactIn {
-		amountRemainingLessFee := new(ui.Int).Div(new(ui.Int).Mul(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips)))), MaxFee)
+		amountRemainingLessFee := fm.MulDiv(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips))), MaxFee)
 		if zeroForOne {
 			amountIn = sqrtmath.GetAmount0Delta(sqrtRatioTargetX96, sqrtRatioCurrentX96, liquidity, true)
 		} else {
-- 
2.43.0


From 01b770a5e5f7b990a4332032c52c5de74534b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 09/28] fix: next-price computations reject what overflows or
 exceeds the reserves

Amounts above 2^160 wrapped when shifted, outputs beyond the reserves wrapped
around zero and prices over 160 bits were returned; the contract refuses all
of them (and computes large inputs exactly).
---
 lib/sqrtprice_math/sqrtprice_math.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/sqrtprice_math/sqrtprice_math.go b/lib/sqrtprice_math/sqrtprice_math.go
index abce49d..f80d9ba 100644
--- a/lib/sqrtprice_math/sqrtprice_math.go
+++ b/lib/sqrtprice_math/sqrtprice_math.go
@@ -84,26 +84,29 @@ func getNextSqrtPriceFromAmount0RoundingUp(sqrtPX96, liquidity, amount *ui.Int,
 				return ans
 			}
 		}
-		return fm.MulDivRoundingUp(numerator1, cons.One, new(ui.Int).Add(new(ui.Int).Div(numerator1, sqrtPX96), amount))
+		denominator, overflow := new(ui.Int).AddOverflow(new(ui.Int).Div(numerator1, sqrtPX96), amount)
+		invariant.Invariant(!overflow, "amount is too large")
+		return fm.MulDivRoundingUp(numerator1, cons.One, denominator)
 	} else {
-		product := multiplyIn256(amount, sqrtPX96)
+		product, overflow := new(ui.Int).MulOverflow(amount, sqrtPX96)
+		invariant.Invariant(!overflow && numerator1.Cmp(product) > 0, "output must be less than the reserves")
 		denominator := new(ui.Int).Sub(numerator1, product)
-		return fm.MulDivRoundingUp(numerator1, sqrtPX96, denominator)
+		ans := fm.MulDivRoundingUp(numerator1, sqrtPX96, denominator)
+		invariant.Invariant(ans.Cmp(MaxUint160) <= 0, "price must fit in 160 bits")
+		return ans
 	}
 }
 
 func getNextSqrtPriceFromAmount1RoundingDown(sqrtPX96, liquidity, amount *ui.Int, add bool) *ui.Int {
 	if add {
-		var quotient *ui.Int
-		if amount.Cmp(MaxUint160) <= 0 {
-			quotient = new(ui.Int).Div(new(ui.Int).Lsh(amount, 96), liquidity)
-		} else {
-			quotient = new(ui.Int).Div(new(ui.Int).Mul(amount, cons.Q96), liquidity)
-		}
-		return new(ui.Int).Add(sqrtPX96, quotient)
+		quotient := fm.MulDiv(amount, cons.Q96, liquidity)
+		ans, overflow := new(ui.Int).AddOverflow(sqrtPX96, quotient)
+		invariant.Invariant(!overflow && ans.Cmp(MaxUint160) <= 0, "price must fit in 160 bits")
+		return ans
 	}
 
 	quotient := fm.MulDivRoundingUp(amount, cons.Q96, liquidity)
+	invariant.Invariant(sqrtPX96.Cmp(quotient) > 0, "output must be less than the reserves")
 
 	return new(ui.Int).Sub(sqrtPX96, quotient)
 }
-- 
2.43.0


From 6959b2f6511c604730f81723c8db4c1a501a599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 10/28] fix: decoding hex text does not depend on the
 receiver's old value

fromHex shifted the digits into whatever the receiver held.
---
 uint256/conversion.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uint256/conversion.go b/uint256/conversion.go
index c0e6655..1b2606d 100644
--- a/uint256/conversion.go
+++ b/uint256/conversion.go
@@ -79,6 +79,7 @@ func (z *Int) fromHex(hex string) error {
 	if len(hex) > 66 {
 		return ErrBig256Range
 	}
+	z.Clear()
 	end := len(hex)
 	for i := 0; i < 4; i++ {
 		start := end - 16
-- 
2.43.0


From bf11752e649e375d4af81c61f163416a17640754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 11/28] fix: the first token's delta rejects a zero price as
 the contract does

---
 lib/sqrtprice_math/sqrtprice_math.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sqrtprice_math/sqrtprice_math.go b/lib/sqrtprice_math/sqrtprice_math.go
index f80d9ba..ef3ba7e 100644
--- a/lib/sqrtprice_math/sqrtprice_math.go
+++ b/lib/sqrtprice_math/sqrtprice_math.go
@@ -23,6 +23,7 @@ func GetAmount0Delta(sqrtRatioAX96, sqrtRatioBX96, liquidity *ui.Int, roundUp bo
 	if sqrtRatioAX96.Cmp(sqrtRatioBX96) > 0 {
 		sqrtRatioAX96, sqrtRatioBX96 = sqrtRatioBX96, sqrtRatioAX96
 	}
+	invariant.Invariant(!sqrtRatioAX96.IsZero(), "sqrtRatioAX96 must be positive")
 
 	numerator1 := new(ui.Int).Lsh(liquidity, 96)
 	numerator2 := new(ui.Int).Sub(sqrtRatioBX96, sqrtRatioAX96)
-- 
2.43.0


From 4bf7da23ad38a2ea2bb17f527de0a500fe69f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 12/28] fix: burning more than a position holds is refused

BurnStrategy of a missing position, or of more liquidity than the position
holds, wrapped the position's and the ticks' liquidity below zero and credited
tokens that were never deposited.
---
 lib/pool/pool.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index caf972e..bff94cb 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -89,6 +89,11 @@ func (p *Pool) Clone() *Pool {
 		Positions:            positions,
 	}
 }
+
+func positionKey(tickLower, tickUpper int) string {
+	return strconv.Itoa(tickLower) + "/" + strconv.Itoa(tickUpper)
+}
+
 func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *position.Info) {
 	var clearLower, clearUpper bool
 
@@ -98,7 +103,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := strconv.Itoa(tickLower) + "/" + strconv.Itoa(tickUpper)
+	searchString := positionKey(tickLower, tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -155,6 +160,9 @@ func (p *Pool) MintStrategy(tickLower int, tickUpper int, amount *ui.Int) (amoun
 
 // BurnStrategy doesn't actually pay out. It just updates the position.
 func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.Int, *ui.Int) {
+	p.checkTicks(tickLower, tickUpper)
+	held := p.Positions[positionKey(tickLower, tickUpper)]
+	invariant.Invariant(held != nil && !held.Liquidity.IsZero() && held.Liquidity.Cmp(amount) >= 0, "position must hold the amount")
 
 	amountMinus := new(ui.Int)
 	amountMinus.Neg(amount)
@@ -168,7 +176,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := strconv.Itoa(tickLower) + "/" + strconv.Itoa(tickUpper)
+	searchString := positionKey(tickLower, tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From b321ee7bd7df93fdfa7713868d15fe5351de5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 13/28] fix: burning liquidity that is not there is refused

Burn of more than a tick's gross liquidity wrapped it below zero, and a burn
of zero on a range without liquidity created ticks holding nothing.
---
 lib/pool/pool.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index bff94cb..0f1e02f 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -195,6 +195,13 @@ func (p *Pool) Mint(tickLower int, tickUpper int, amount *ui.Int) {
 }
 
 func (p *Pool) Burn(tickLower int, tickUpper int, amount *ui.Int) {
+	p.checkTicks(tickLower, tickUpper)
+	// A burn of nothing only updates the (unknown) position.
+	if amount.IsZero() {
+		return
+	}
+	invariant.Invariant(p.TickData.GetTick(tickLower).LiquidityGross.Cmp(amount) >= 0 &&
+		p.TickData.GetTick(tickUpper).LiquidityGross.Cmp(amount) >= 0, "ticks must hold the amount")
 	amountMinus := new(ui.Int)
 	amountMinus.Neg(amount)
 	p.modifyPosition(tickLower, tickUpper, amountMinus)
-- 
2.43.0


From da05ae0191d676b9e4870079a4593c61973bb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 14/28] fix: an execution may start after the last transaction

CreateExecution panicked on the negative capacity.
---
 lib/executor/executor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index e2999f5..c3308ee 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -24,6 +24,9 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 	maxTime := transactions[len(transactions)-1].Timestamp
 	length := (maxTime - startTime) / updateInterval
+	if length < 0 {
+		length = 0
+	}
 	snapshots := make([]*ui.Int, 0, length)
 
 	return &Execution{
-- 
2.43.0


From 1d241a40fe5b5696320b950774b7beab0bc5d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 15/28] fix: price snapshots follow their interval from the
 first transaction on

The first due time was 0 (1970), so until the due time had caught up every
single transaction took a snapshot and the price window covered a hundred
transactions instead of its duration.
---
 lib/executor/executor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index c3308ee..8384fd4 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -52,7 +52,7 @@ func (e *Execution) Run() {
 	nextUpdate := math.MaxInt64
 	nextSnapshot := math.MaxInt64
 	// We need some Snapshots for Init(), the easiest way is to get Snapshots from the first transaction
-	nextPriceSnapshot := 0
+	nextPriceSnapshot := transactions[0].Timestamp
 	//limitRebalance := false
 	for _, trans := range transactions {
 
@@ -86,7 +86,7 @@ func (e *Execution) Run() {
 		//	limitRebalance = false
 		//}
 		//Price Snapshot
-		if trans.Timestamp > nextPriceSnapshot {
+		if trans.Timestamp >= nextPriceSnapshot {
 			e.Strategy.MakeSnapshot()
 			nextPriceSnapshot += e.PricesSnapshotsInterval
 		}
-- 
2.43.0


From 97464369426fcb0a2aaa2d20b298e0ce2e371108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 16/28] fix: valuations at square-root prices of 2^128 and more

The squared price wrapped modulo 2^256, so the second token was converted at
a meaningless rate.
---
 lib/executor/executor.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index 8384fd4..9a4304b 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -42,6 +42,17 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 }
 
+// convert1to0 is the value of amount1 in token0 at the price, rounded down.
+func convert1to0(amount1, sqrtPriceX96 *ui.Int) *ui.Int {
+	priceSquareX192, overflow := new(ui.Int).MulOverflow(sqrtPriceX96, sqrtPriceX96)
+	if overflow {
+		// Dividing twice by the root gives the same floor.
+		amount := fullmath.MulDiv(amount1, cons.Q192, sqrtPriceX96)
+		return amount.Div(amount, sqrtPriceX96)
+	}
+	return fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
+}
+
 func (e *Execution) Run() {
 	//
 	strategy := e.Strategy
@@ -65,9 +76,7 @@ func (e *Execution) Run() {
 
 			amount0, amount1 := strategy.Init()
 			// Not Precise
-			x96 := strategy.GetPool().SqrtRatioX96
-			priceSquareX192 := new(ui.Int).Mul(x96, x96)
-			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
+			amount1to0 := convert1to0(amount1, strategy.GetPool().SqrtRatioX96)
 			amountUSD := new(ui.Int).Add(amount1to0, amount0)
 			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 
@@ -94,9 +103,7 @@ func (e *Execution) Run() {
 		// Snapshot
 		if trans.Timestamp >= nextSnapshot {
 			amount0, amount1 := strategy.GetAmounts()
-			x96 := strategy.GetPool().SqrtRatioX96
-			priceSquareX192 := new(ui.Int).Mul(x96, x96)
-			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
+			amount1to0 := convert1to0(amount1, strategy.GetPool().SqrtRatioX96)
 			amountUSD := new(ui.Int).Add(amount1to0, amount0)
 			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 			nextSnapshot += e.SnapShotInterval
@@ -124,9 +131,7 @@ func (e *Execution) Run() {
 	}
 
 	amount0, amount1 := strategy.BurnAll()
-	x96 := strategy.GetPool().SqrtRatioX96
-	priceSquareX192 := new(ui.Int).Mul(x96, x96)
-	amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
+	amount1to0 := convert1to0(amount1, strategy.GetPool().SqrtRatioX96)
 	amountUSD := new(ui.Int).Add(amount1to0, amount0)
 	e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 
-- 
2.43.0


From 3f488a61a410357e43c9885f525d6b8ab0b07157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 17/28] fix: the price window also refuses prices whose square
 wraps

The guard only looked at the low 256 bits of the square.
---
 lib/prices/prices.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prices/prices.go b/lib/prices/prices.go
index 5c4b512..8055466 100644
--- a/lib/prices/prices.go
+++ b/lib/prices/prices.go
@@ -24,10 +24,10 @@ func (p *Prices) Add(price *ui.Int) {
 	//Square the price
 	// For USDC - ETH Pool this never overflows. Absolutely not guaranteed otherwise.
 	// Todo Fix this so it never overflows
-	priceSquareX192 := new(ui.Int).Mul(price, price)
+	priceSquareX192, overflow := new(ui.Int).MulOverflow(price, price)
 
 	shifted := new(ui.Int).Rsh(priceSquareX192, 230)
-	invariant.Invariant(shifted.IsZero(), "Price square should not overflow")
+	invariant.Invariant(!overflow && shifted.IsZero(), "Price square should not overflow")
 
 	p.prices[p.index] = priceSquareX192
 	p.index = (p.index + 1) % p.length
-- 
2.43.0


From 8106c5549b162140c1408cc5ca08ebc8898a9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 18/28] fix: liquidated strategies no longer list their burnt
 positions

ConstantInterval, IntervalAroundPrice and TwoIntervalAroundPrice kept their
positions after BurnAll: valuations counted the principal twice and a second
liquidation or a rebalance burnt liquidity that was gone.
---
 lib/strategy/2_interval_around_price.go       | 1 +
 lib/strategy/constant_intervall_strategy.go   | 1 +
 lib/strategy/interval_around_current_price.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index e05669e..a48413a 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -63,6 +63,7 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index e313339..861c97d 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -59,6 +59,7 @@ func (s *ConstantIntervalStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0a500ac..0c08b57 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -59,6 +59,7 @@ func (s *IntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
-- 
2.43.0


From 6bd0bb72710a327d8f8ff36702d19595867fde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 19/28] fix: limit orders are one tick spacing wide in every
 fee tier

The width was fixed to the 0.05% tier's spacing, so other tiers' orders ended
on ticks the pool does not allow.
---
 lib/strategy/limit_order.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/strategy/limit_order.go b/lib/strategy/limit_order.go
index d3de10b..7a3085d 100644
--- a/lib/strategy/limit_order.go
+++ b/lib/strategy/limit_order.go
@@ -118,7 +118,7 @@ func (s *LimitOrderStrategy) setPositions() {
 	// Secondary position
 	if !s.Amount0.IsZero() {
 		tickLower = tickmath.Ceil(s.Pool.TickCurrent, tickSpacing)
-		tickUpper = tickLower + 10
+		tickUpper = tickLower + tickSpacing
 		s.mintHalf(tickLower, tickUpper)
 		s.CurrentLimitTick = tickUpper
 		s.Direction = true
@@ -126,7 +126,7 @@ func (s *LimitOrderStrategy) setPositions() {
 
 	if !s.Amount1.IsZero() {
 		tickUpper = tickmath.Floor(s.Pool.TickCurrent, tickSpacing)
-		tickLower = tickUpper - 10
+		tickLower = tickUpper - tickSpacing
 		s.mintHalf(tickLower, tickUpper)
 		s.CurrentLimitTick = tickLower
 		s.Direction = false
-- 
2.43.0


From e9cfd41b263bb828754915b578f73af4374b2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 20/28] fix: the full range ends on usable ticks in every fee
 tier

The ends were those of the 0.05% tier's spacing.
---
 lib/strategy/v2_strategy.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/strategy/v2_strategy.go b/lib/strategy/v2_strategy.go
index 678f65a..f6a4a57 100644
--- a/lib/strategy/v2_strategy.go
+++ b/lib/strategy/v2_strategy.go
@@ -1,6 +1,7 @@
 package strategy
 
 import (
+	cons "uniswap-simulator/lib/constants"
 	la "uniswap-simulator/lib/liquidity_amounts"
 	"uniswap-simulator/lib/pool"
 	"uniswap-simulator/lib/tickmath"
@@ -19,8 +20,9 @@ func (s *V2Strategy) Rebalance() (currAmount0, currAmount1 *ui.Int) {
 	currAmount0, currAmount1 = s.BurnAll()
 
 	// New Positions
-	tickLower := -887270
-	tickUpper := -tickLower
+	tickSpacing := cons.TickSpaces[s.Pool.Fee]
+	tickLower := tickmath.Ceil(tickmath.MinTick, tickSpacing)
+	tickUpper := tickmath.Floor(tickmath.MaxTick, tickSpacing)
 	s.mintPosition(tickLower, tickUpper)
 	return
 }
@@ -91,8 +93,9 @@ func (s *V2Strategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	currAmount0, currAmount1 = s.Amount0.Clone(), s.Amount1.Clone()
 
 	// New Positions
-	tickLower := -887270
-	tickUpper := -tickLower
+	tickSpacing := cons.TickSpaces[s.Pool.Fee]
+	tickLower := tickmath.Ceil(tickmath.MinTick, tickSpacing)
+	tickUpper := tickmath.Floor(tickmath.MaxTick, tickSpacing)
 	s.mintPosition(tickLower, tickUpper)
 	return
 }
-- 
2.43.0


From 807636ca01383e6bc1870d683fd91bcc098611fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 21/28] fix: strategies keep their balances when a range cannot
 be opened

Bands narrower than a tick, widths that round to nothing and ranges beyond
the extreme ticks crashed the run (division by zero, mint invariant or table
index out of range).
---
 lib/strategy/2_interval_around_price.go                   | 3 +++
 lib/strategy/bollinger_bands.go                           | 3 +++
 lib/strategy/bollinger_fill_up.go                         | 3 +++
 lib/strategy/constant_intervall_strategy.go               | 6 ++++++
 lib/strategy/fill_up.go                                   | 3 +++
 lib/strategy/interval_around_average.go                   | 3 +++
 lib/strategy/interval_around_current_price.go             | 6 ++++++
 lib/strategy/limit_order.go                               | 6 ++++++
 lib/strategy/strategy.go                                  | 6 ++++++
 lib/strategy/swap_half_constant_interval_current_price.go | 3 +++
 lib/strategy/volatility_sized_intervals.go                | 3 +++
 11 files changed, 45 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index a48413a..83e6f84 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -68,6 +68,9 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 }
 
 func (s *TwoIntervalAroundPriceStrategy) mintPosition(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index efb4516..4def870 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -98,6 +98,9 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsStrategy) mintPosition(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index 434172d..3dc56ca 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -99,6 +99,9 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsFillUpStrategy) mintPosition(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 861c97d..baf99c6 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -71,6 +71,9 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	tickLower := tickmath.Round(s.Pool.TickCurrent-s.IntervalWidth, tickSpacing)
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
 	s.tickLower, s.tickUpper = tickLower, tickUpper
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
@@ -100,6 +103,9 @@ func (s *ConstantIntervalStrategy) Rebalance() (currAmount0, currAmount1 *ui.Int
 	// New Positions
 	tickLower := s.tickLower
 	tickUpper := s.tickUpper
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
diff --git a/lib/strategy/fill_up.go b/lib/strategy/fill_up.go
index 62fd952..5b7c4ab 100644
--- a/lib/strategy/fill_up.go
+++ b/lib/strategy/fill_up.go
@@ -60,6 +60,9 @@ func (s *FillUpStrategy) BurnAll() (retAmount0, retAmount1 *ui.Int) {
 }
 
 func (s *FillUpStrategy) mintPosition(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/interval_around_average.go b/lib/strategy/interval_around_average.go
index 561091e..7b38d21 100644
--- a/lib/strategy/interval_around_average.go
+++ b/lib/strategy/interval_around_average.go
@@ -80,6 +80,9 @@ func (s *IntervalAroundAverageStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *IntervalAroundAverageStrategy) mintPosition(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0c08b57..825a5e3 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -71,6 +71,9 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	tickLower := tickmath.Round(s.Pool.TickCurrent-s.IntervalWidth, tickSpacing)
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
 
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
@@ -105,6 +108,9 @@ func (s *IntervalAroundPriceStrategy) Rebalance() (currAmount0, currAmount1 *ui.
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
 
 	// New Positions
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/limit_order.go b/lib/strategy/limit_order.go
index 7a3085d..dcd548c 100644
--- a/lib/strategy/limit_order.go
+++ b/lib/strategy/limit_order.go
@@ -63,6 +63,9 @@ func (s *LimitOrderStrategy) GetDirection() bool {
 }
 
 func (s *LimitOrderStrategy) mintPosition(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
@@ -86,6 +89,9 @@ func (s *LimitOrderStrategy) mintAmount(tickLower, tickUpper int, amount *ui.Int
 }
 
 func (s *LimitOrderStrategy) mintHalf(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/strategy.go b/lib/strategy/strategy.go
index 8736267..af0c9fd 100644
--- a/lib/strategy/strategy.go
+++ b/lib/strategy/strategy.go
@@ -2,6 +2,7 @@ package strategy
 
 import (
 	"uniswap-simulator/lib/pool"
+	"uniswap-simulator/lib/tickmath"
 	ui "uniswap-simulator/uint256"
 )
 
@@ -11,6 +12,11 @@ type Position struct {
 	tickUpper int
 }
 
+// canMint tells whether [tickLower, tickUpper] is a range of a pool
+func canMint(tickLower, tickUpper int) bool {
+	return tickLower < tickUpper && tickLower >= tickmath.MinTick && tickUpper <= tickmath.MaxTick
+}
+
 type Strategy interface {
 	Init() (*ui.Int, *ui.Int)
 	Rebalance() (*ui.Int, *ui.Int)
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index bd2b717..021c014 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -64,6 +64,9 @@ func (s *IntervalAroundPriceAndSwapStrategy) BurnAll() (retamount0, retamount1 *
 }
 
 func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index 288a35a..7c007c4 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -96,6 +96,9 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 }
 
 func (s *VolatilitySizedIntervalStrategy) mintPosition(tickLower, tickUpper int) {
+	if !canMint(tickLower, tickUpper) {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
-- 
2.43.0


From c7c3d3190c03c9ac7f3ae456bf06fbfcd4bb62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 22/28] fix: starting without enough balance for any liquidity
 does not crash

ConstantInterval and IntervalAroundPrice at the start, and
IntervalAroundPriceAndSwap always, minted zero liquidity and panicked.
---
 lib/strategy/constant_intervall_strategy.go               | 3 +++
 lib/strategy/interval_around_current_price.go             | 3 +++
 lib/strategy/swap_half_constant_interval_current_price.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index baf99c6..adb80d4 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -77,6 +77,9 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 825a5e3..12d6b77 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -78,6 +78,9 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index 021c014..3e533d4 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -97,6 +97,9 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 		}
 	}
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
-- 
2.43.0


From 61beb8b94841f5752b2de67e8e0c1cdc566cab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 23/28] fix: bands outside the price range and empty price
 histories do not crash

The band ends were looked up without checking both bounds, and a strategy
started before its first price snapshot looked up the tick of price zero.
---
 lib/strategy/bollinger_bands.go            | 4 +++-
 lib/strategy/bollinger_fill_up.go          | 4 +++-
 lib/strategy/interval_around_average.go    | 4 ++++
 lib/strategy/volatility_sized_intervals.go | 4 +++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index 4def870..9edeb0d 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -88,8 +88,10 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
+	} else if sqrtRatioBX96.Cmp(tickmath.MinSqrtRatio) < 0 {
+		tickUpper = tickmath.MinTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
 	}
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index 3dc56ca..edd6bec 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -89,8 +89,10 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
+	} else if sqrtRatioBX96.Cmp(tickmath.MinSqrtRatio) < 0 {
+		tickUpper = tickmath.MinTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
 	}
diff --git a/lib/strategy/interval_around_average.go b/lib/strategy/interval_around_average.go
index 7b38d21..d8ea3d3 100644
--- a/lib/strategy/interval_around_average.go
+++ b/lib/strategy/interval_around_average.go
@@ -72,6 +72,10 @@ func (s *IntervalAroundAverageStrategy) BurnAll() (retamount0, retamount1 *ui.In
 func (s *IntervalAroundAverageStrategy) getTicks() (tickLower, tickUpper int) {
 	priceX192 := s.PriceHistory.Average()
 	sqrtPriceX96 := new(ui.Int).Sqrt(priceX192)
+	// Without a price history there is no interval
+	if sqrtPriceX96.Cmp(tickmath.MinSqrtRatio) < 0 {
+		return
+	}
 	tick := tickmath.TM.GetTickAtSqrtRatio(sqrtPriceX96)
 	tickSpacing := cons.TickSpaces[s.Pool.Fee]
 	tickLower = tickmath.Round(tick-s.IntervalWidth, tickSpacing)
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index 7c007c4..e818218 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -86,8 +86,10 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
+	} else if sqrtRatioBX96.Cmp(tickmath.MinSqrtRatio) < 0 {
+		tickUpper = tickmath.MinTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
 	}
-- 
2.43.0


From 4734412313e27c07e5ec9601f416c324597de1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 24/28] fix: balancing swaps are skipped when the price is
 already at its end

IntervalAroundPriceAndSwap panicked on the swap's price limit there.
---
 lib/strategy/swap_half_constant_interval_current_price.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index 3e533d4..6c8addf 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -82,7 +82,8 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 	if amount0Cmp.Cmp(amount1Diff) > 0 {
 		// amount0 is more than amount1
 		amount0DiffHalf := new(ui.Int).Div(amount0Diff, ui.NewInt(2))
-		if amount0DiffHalf.Sign() == 1 {
+		// At the end of the price range there is nothing to swap against
+		if amount0DiffHalf.Sign() == 1 && s.Pool.SqrtRatioX96.Cmp(new(ui.Int).Add(tickmath.MinSqrtRatio, cons.One)) > 0 {
 			amount0Swap, amount1Swap := s.Pool.ExactInputSwap(amount0DiffHalf, s.Pool.Token0, cons.Zero)
 			s.Amount0.Sub(s.Amount0, amount0Swap)
 			s.Amount1.Sub(s.Amount1, amount1Swap)
@@ -90,7 +91,7 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 	} else {
 		// amount1 is more than amount0
 		amount1DiffHalf := new(ui.Int).Div(amount1Diff, ui.NewInt(2))
-		if amount1DiffHalf.Sign() == 1 {
+		if amount1DiffHalf.Sign() == 1 && s.Pool.SqrtRatioX96.Cmp(new(ui.Int).Sub(tickmath.MaxSqrtRatio, cons.One)) < 0 {
 			amount0Swap, amount1Swap := s.Pool.ExactInputSwap(amount1DiffHalf, s.Pool.Token1, cons.Zero)
 			s.Amount0.Sub(s.Amount0, amount0Swap)
 			s.Amount1.Sub(s.Amount1, amount1Swap)
-- 
2.43.0


From 138b69961b27445e3e94f8d1207edfdad33adf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 25/28] fix: a report that cannot be written is a failure

The encoder's error was dropped: the run printed Done and left an empty or
partial report.
---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index de5b2ab..92acf74 100644
--- a/main.go
+++ b/main.go
@@ -278,7 +278,7 @@ func saveFile(results []result.RunResult, filename string, startTime, endTime in
 	}
 	err = encoder.Encode(toSave)
 	if err != nil {
-		return
+		panic(err)
 	}
 
 }
-- 
2.43.0


From 6aaa7880bf20ba65a9e76df2c345c0255070686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 26/28] fix: standard deviation of (almost) equal returns is
 not NaN

The rounding of sum1 - sum2 could be negative; its root is NaN, which JSON
cannot represent, so the whole report was lost.
---
 main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 92acf74..d5480d6 100644
--- a/main.go
+++ b/main.go
@@ -175,7 +175,8 @@ func calculateStd(prices []*ui.Int) float64 {
 	quotient := n * (n - 1)
 	sum2 = sum2 / float64(quotient)
 
-	variance := sum1 - sum2
+	// Rounding can make the difference slightly negative
+	variance := math.Max(sum1-sum2, 0)
 	standardDeviation := math.Sqrt(variance)
 
 	return standardDeviation
-- 
2.43.0


From b95ce43545299405f99d6de09f2e0c2400cfa99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 27/28] fix: balancing swaps do not need an end-of-range test

Reverts 4734412: a range that may be minted never has the price at the end of
the price range in its middle, so the case it guarded cannot occur.
---
 lib/strategy/swap_half_constant_interval_current_price.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index 6c8addf..3e533d4 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -82,8 +82,7 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 	if amount0Cmp.Cmp(amount1Diff) > 0 {
 		// amount0 is more than amount1
 		amount0DiffHalf := new(ui.Int).Div(amount0Diff, ui.NewInt(2))
-		// At the end of the price range there is nothing to swap against
-		if amount0DiffHalf.Sign() == 1 && s.Pool.SqrtRatioX96.Cmp(new(ui.Int).Add(tickmath.MinSqrtRatio, cons.One)) > 0 {
+		if amount0DiffHalf.Sign() == 1 {
 			amount0Swap, amount1Swap := s.Pool.ExactInputSwap(amount0DiffHalf, s.Pool.Token0, cons.Zero)
 			s.Amount0.Sub(s.Amount0, amount0Swap)
 			s.Amount1.Sub(s.Amount1, amount1Swap)
@@ -91,7 +90,7 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 	} else {
 		// amount1 is more than amount0
 		amount1DiffHalf := new(ui.Int).Div(amount1Diff, ui.NewInt(2))
-		if amount1DiffHalf.Sign() == 1 && s.Pool.SqrtRatioX96.Cmp(new(ui.Int).Sub(tickmath.MaxSqrtRatio, cons.One)) < 0 {
+		if amount1DiffHalf.Sign() == 1 {
 			amount0Swap, amount1Swap := s.Pool.ExactInputSwap(amount1DiffHalf, s.Pool.Token1, cons.Zero)
 			s.Amount0.Sub(s.Amount0, amount0Swap)
 			s.Amount1.Sub(s.Amount1, amount1Swap)
-- 
2.43.0


From c73302eeed497a4de364cfd9abe1f765ef5c73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 28/28] fix: reject malformed numbers in the transaction file
 instead of reading them as zero

---
 main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index d5480d6..df498cb 100644
--- a/main.go
+++ b/main.go
@@ -316,9 +316,18 @@ func getTransactions() []ent.Transaction {
 }
 
 func stringToUint256(amount string) *ui.Int {
-	bigint := new(big.Int)
-	bigint.SetString(amount, 10)
-	uint256, _ := ui.FromBig(bigint)
+	// Fields that do not apply to a transaction are absent
+	if amount == "" {
+		return new(ui.Int)
+	}
+	bigint, ok := new(big.Int).SetString(amount, 10)
+	if !ok {
+		panic(fmt.Sprintf("not a decimal integer: %q", amount))
+	}
+	uint256, overflow := ui.FromBig(bigint)
+	if overflow || bigint.Sign() < 0 && uint256.SToBig().Cmp(bigint) != 0 {
+		panic(fmt.Sprintf("does not fit into 256 bits: %q", amount))
+	}
 	return uint256
 }
 
-- 
2.43.0

