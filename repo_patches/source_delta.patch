From 0ecbe0068c7756c10d2de380adc9ddd51136f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 01/12] fix: position clone keeps the tokens owed in token0

Info.Clone filled TokensOwed0 from TokensOwed1, so a cloned position
owed the token1 amount in token0.
---
 lib/position/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/position/position.go b/lib/position/position.go
index 1589dda..bf88719 100644
--- a/lib/position/position.go
+++ b/lib/position/position.go
@@ -11,7 +11,7 @@ func (i *Info) Clone() *Info {
 		Liquidity:                i.Liquidity.Clone(),
 		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
 		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
-		TokensOwed0:              i.TokensOwed1.Clone(),
+		TokensOwed0:              i.TokensOwed0.Clone(),
 		TokensOwed1:              i.TokensOwed1.Clone(),
 	}
 }
-- 
2.43.0


From 140b727eb8bff68f1ebedcff8a571dbd1e8e4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 02/12] fix: cloned tick data shares no mutable state with the
 original

TickData.Clone copied the Tick structs but not the integers they point
to, which UpdateTick and Cross change in place: a swap or mint in one
clone of a pool changed the ticks of every other clone.
---
 lib/tickdata/tickdata.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 1bda414..fbe7489 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -25,7 +25,15 @@ func (t *TickData) Clone() *TickData {
 		ticks:       make([]Tick, len(t.ticks)),
 		tickSpacing: t.tickSpacing,
 	}
-	copy(newTickData.ticks, t.ticks)
+	for i, tick := range t.ticks {
+		newTickData.ticks[i] = Tick{
+			Index:                 tick.Index,
+			LiquidityNet:          tick.LiquidityNet.Clone(),
+			LiquidityGross:        tick.LiquidityGross.Clone(),
+			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
+			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
+		}
+	}
 	return newTickData
 }
 
-- 
2.43.0


From 83bd0bd80c8bcbf76484ae501e990c577ccda100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 03/12] fix: every tick range has its own position

string(tick) converts the tick to a rune: all negative ticks and all
ticks in the surrogate range become U+FFFD, so that different ranges
shared one position and collected each other's fees.
---
 lib/pool/pool.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index ba41b29..e3bd25e 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -1,6 +1,7 @@
 package pool
 
 import (
+	"strconv"
 	cons "uniswap-simulator/lib/constants"
 	"uniswap-simulator/lib/fullmath"
 	"uniswap-simulator/lib/invariant"
@@ -88,6 +89,12 @@ func (p *Pool) Clone() *Pool {
 		Positions:            positions,
 	}
 }
+
+// positionKey is the key of the position on [tickLower, tickUpper] in Pool.Positions.
+func positionKey(tickLower, tickUpper int) string {
+	return strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
+}
+
 func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *position.Info) {
 	var clearLower, clearUpper bool
 
@@ -97,7 +104,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := positionKey(tickLower, tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -167,7 +174,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := positionKey(tickLower, tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From 41e7c63a39de435770e19e9c3832cde269f54216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 04/12] fix: search the right word of ticks below a negative
 tick

Integer division truncates towards zero; Uniswap rounds the compressed
tick down. For a negative tick which is not a multiple of the spacing
the search started one tick spacing too high, and could return a next
tick above the current tick when searching downwards.
---
 lib/tickdata/tickdata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index fbe7489..d926cba 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -174,6 +174,9 @@ func (t *TickData) GetFeeGrowthInside(tickLower, tickUpper, tickCurrent int, fee
 
 func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bool) {
 	compressed := tick / t.tickSpacing
+	if tick < 0 && tick%t.tickSpacing != 0 {
+		compressed-- // round towards negative infinity
+	}
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-- 
2.43.0


From ebb8df3b99f764172a365aa881ee8edac8c1b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 05/12] fix: Udivrem accepts a numerator with fewer words than
 the divisor

It indexed out of range when the numerator was shorter than the divisor
by two words or more, for example in MulDiv(1, 1, 2^128).
---
 uint256/uint256.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uint256/uint256.go b/uint256/uint256.go
index 5f010f0..23bed09 100644
--- a/uint256/uint256.go
+++ b/uint256/uint256.go
@@ -508,6 +508,11 @@ func Udivrem(quot, u []uint64, d *Int) (rem Int) {
 		}
 	}
 
+	if uLen < dLen {
+		copy(rem[:], u[:uLen])
+		return rem
+	}
+
 	var unStorage [9]uint64
 	un := unStorage[:uLen+1]
 	un[uLen] = u[uLen-1] >> (64 - shift)
-- 
2.43.0


From 35182d89e131af3c976293bd788db9addfc768fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 06/12] fix: BurnAll leaves no open positions behind

Three strategies kept the burned positions in their list, so that
GetAmounts counted them a second time and a Rebalance burned them again.
---
 lib/strategy/2_interval_around_price.go       | 1 +
 lib/strategy/constant_intervall_strategy.go   | 1 +
 lib/strategy/interval_around_current_price.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index e05669e..a48413a 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -63,6 +63,7 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index e313339..861c97d 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -59,6 +59,7 @@ func (s *ConstantIntervalStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0a500ac..0c08b57 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -59,6 +59,7 @@ func (s *IntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
-- 
2.43.0


From cab6067326d89566532a681615b4ee31f207fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/12] fix: report a failure to write the results

Encode fails without writing anything when a metric is NaN or infinite;
the error was dropped and the program ended with an empty file and Done.
---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index de5b2ab..92acf74 100644
--- a/main.go
+++ b/main.go
@@ -278,7 +278,7 @@ func saveFile(results []result.RunResult, filename string, startTime, endTime in
 	}
 	err = encoder.Encode(toSave)
 	if err != nil {
-		return
+		panic(err)
 	}
 
 }
-- 
2.43.0


From 80237a21683dae762944188ac8122adb7dea3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 08/12] fix: no position is minted for zero liquidity

MintStrategy panics when asked to mint nothing. The other strategies and
code paths already skip the mint when the balances give no liquidity.
---
 lib/strategy/constant_intervall_strategy.go               | 3 +++
 lib/strategy/interval_around_current_price.go             | 3 +++
 lib/strategy/swap_half_constant_interval_current_price.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 861c97d..352900b 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -74,6 +74,9 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0c08b57..12b1fea 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -75,6 +75,9 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index bd2b717..c223bbe 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -94,6 +94,9 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 		}
 	}
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
-- 
2.43.0


From e3371787e2121e2d83edb7c7d7b6f465c6e2e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 09/12] fix: detect the overflow of a squared price

The check looked at the product after it had wrapped around, and so
accepted most square root prices of 2^128 and more.
---
 lib/prices/prices.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/prices/prices.go b/lib/prices/prices.go
index 5c4b512..cc390e2 100644
--- a/lib/prices/prices.go
+++ b/lib/prices/prices.go
@@ -24,7 +24,8 @@ func (p *Prices) Add(price *ui.Int) {
 	//Square the price
 	// For USDC - ETH Pool this never overflows. Absolutely not guaranteed otherwise.
 	// Todo Fix this so it never overflows
-	priceSquareX192 := new(ui.Int).Mul(price, price)
+	priceSquareX192, overflow := new(ui.Int).MulOverflow(price, price)
+	invariant.Invariant(!overflow, "Price square should not overflow")
 
 	shifted := new(ui.Int).Rsh(priceSquareX192, 230)
 	invariant.Invariant(shifted.IsZero(), "Price square should not overflow")
-- 
2.43.0


From e590128ed14a115487d18c40711289b4877d07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 10/12] fix: the upper band may lie exactly on the maximum
 price

GetTickAtSqrtRatio takes ratios below MaxSqrtRatio only.
---
 lib/strategy/bollinger_bands.go            | 2 +-
 lib/strategy/bollinger_fill_up.go          | 2 +-
 lib/strategy/volatility_sized_intervals.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index efb4516..9605fc4 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -88,7 +88,7 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index 434172d..410514c 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -89,7 +89,7 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index 288a35a..6736f1b 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -86,7 +86,7 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
-- 
2.43.0


From 8ab16d5b715844864c0896a4372f613c14b266d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 11/12] fix: the deviation of constant returns is zero, not NaN

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 92acf74..f53e139 100644
--- a/main.go
+++ b/main.go
@@ -176,6 +176,10 @@ func calculateStd(prices []*ui.Int) float64 {
 	sum2 = sum2 / float64(quotient)
 
 	variance := sum1 - sum2
+	if variance < 0 {
+		// rounding errors of returns that are all the same
+		variance = 0
+	}
 	standardDeviation := math.Sqrt(variance)
 
 	return standardDeviation
-- 
2.43.0


From 45b128c8a065427c7d9add4499dbfd6f6ce7baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 12/12] fix: parsing hexadecimal text into a number kept bits
 of its old value

---
 uint256/conversion.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uint256/conversion.go b/uint256/conversion.go
index c0e6655..1b2606d 100644
--- a/uint256/conversion.go
+++ b/uint256/conversion.go
@@ -79,6 +79,7 @@ func (z *Int) fromHex(hex string) error {
 	if len(hex) > 66 {
 		return ErrBig256Range
 	}
+	z.Clear()
 	end := len(hex)
 	for i := 0; i < 4; i++ {
 		start := end - 16
-- 
2.43.0

