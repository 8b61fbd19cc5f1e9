# Behaviour-preserving edits of main.go, the strategies, the replay and uint256.
M, EX, TR = 'main.go', 'lib/executor/executor.go', 'lib/transaction/transaction.go'
U, CV, MO = 'uint256/uint256.go', 'uint256/conversion.go', 'uint256/mod.go'
ST = 'lib/strategy/'
R = []
def r(id, props, *edits):
    R.append((id, props, list(edits)))

LOOP = '''	var wg sync.WaitGroup
	start := time.Now()

	amountHistorySnapshots := 100
	mulUpperBound := IntPow(2, 16)
	results := make([]result.RunResult, mulUpperBound-1)
	duration := 24 * 60 * 60
	mul := 1
	for mul < mulUpperBound {
		for j := 0; j < 5000 && mul < mulUpperBound; j, mul = j+1, mul+1 {
			i := mul - 1
			priceHistoryInterval := duration / amountHistorySnapshots
			strategy := strat.NewBollingerBandsFillUpStrategy(startAmount0, startAmount1, pool, amountHistorySnapshots, mul)
			execution := executor.CreateExecution(strategy, startTime, 90000000000000, updateInterval, snapshotInterval, priceHistoryInterval, transactions)
			wg.Add(1)
			go runAndAppend(&wg, execution, i, mul, duration, updateInterval, results)
		}
		wg.Wait()
	}
'''
r('m3-sweep-func', 'C27', (M, LOOP, '''	start := time.Now()
	results := sweep(startAmount0, startAmount1, pool, startTime, updateInterval, snapshotInterval, transactions)
'''), (M, '''func getReturns(''', '''func sweep(startAmount0, startAmount1 *ui.Int, pool *ppool.Pool, startTime, updateInterval, snapshotInterval int, transactions []ent.Transaction) []result.RunResult {
	const (
		amountHistorySnapshots = 100
		batchSize              = 5000
		duration               = 24 * 60 * 60
	)
	mulUpperBound := IntPow(2, 16)
	results := make([]result.RunResult, mulUpperBound-1)
	for first := 1; first < mulUpperBound; first += batchSize {
		last := first + batchSize
		if last > mulUpperBound {
			last = mulUpperBound
		}
		var wg sync.WaitGroup
		wg.Add(last - first)
		for mul := first; mul < last; mul++ {
			strategy := strat.NewBollingerBandsFillUpStrategy(startAmount0, startAmount1, pool, amountHistorySnapshots, mul)
			execution := executor.CreateExecution(strategy, startTime, 90000000000000, updateInterval, snapshotInterval, duration/amountHistorySnapshots, transactions)
			go runAndAppend(&wg, execution, mul-1, mul, duration, updateInterval, results)
		}
		wg.Wait()
	}
	return results
}

func getReturns('''))
r('m3-closure', 'C27', (M, '''			go runAndAppend(&wg, execution, i, mul, duration, updateInterval, results)''', '''			go func(execution *executor.Execution, i, mul int) {
				defer wg.Done()
				results[i] = evaluate(execution, mul, duration, updateInterval)
			}(execution, i, mul)'''),
 (M, '''func runAndAppend(wg *sync.WaitGroup, execution *executor.Execution, i, mul, duration, updateInterval int, results []result.RunResult) {
	defer wg.Done()
	execution.Run()
''', '''func evaluate(execution *executor.Execution, mul, duration, updateInterval int) result.RunResult {
	execution.Run()
'''), (M, '''	res := createResult(execution, mul, duration, updateInterval, std''', '''	return createResult(execution, mul, duration, updateInterval, std'''), (M, '''	results[i] = res
}''', '''}'''))
r('m3-run-in-goroutine', 'C27', (M, '''			strategy := strat.NewBollingerBandsFillUpStrategy(startAmount0, startAmount1, pool, amountHistorySnapshots, mul)
			execution := executor.CreateExecution(strategy, startTime, 90000000000000, updateInterval, snapshotInterval, priceHistoryInterval, transactions)
			wg.Add(1)
			go runAndAppend(&wg, execution, i, mul, duration, updateInterval, results)''', '''			mul := mul
			wg.Add(1)
			go func() {
				strategy := strat.NewBollingerBandsFillUpStrategy(startAmount0, startAmount1, pool, amountHistorySnapshots, mul)
				execution := executor.CreateExecution(strategy, startTime, 90000000000000, updateInterval, snapshotInterval, priceHistoryInterval, transactions)
				runAndAppend(&wg, execution, i, mul, duration, updateInterval, results)
			}()'''))
r('m3-workers', 'C27', (M, '''	mul := 1
	for mul < mulUpperBound {
		for j := 0; j < 5000 && mul < mulUpperBound; j, mul = j+1, mul+1 {
			i := mul - 1
			priceHistoryInterval''', '''	slots := make(chan struct{}, 5000)
	{
		for mul := 1; mul < mulUpperBound; mul++ {
			i := mul - 1
			priceHistoryInterval'''), (M, '''			wg.Add(1)
			go runAndAppend(&wg, execution, i, mul, duration, updateInterval, results)''', '''			wg.Add(1)
			slots <- struct{}{}
			go func(mul int) {
				defer func() { <-slots }()
				runAndAppend(&wg, execution, i, mul, duration, updateInterval, results)
			}(mul)'''))
r('m3-shift', 'C27', (M, 'mulUpperBound := IntPow(2, 16)', 'const mulUpperBound = 1 << 16'), (M, '''// IntPow calculates n to the mth power. Since the result is an int, it is assumed that m is a positive power
func IntPow(n, m int) int {
	// IDK why go doesn't have it...
	if m == 0 {
		return 1
	}
	result := n
	for i := 2; i <= m; i++ {
		result *= n
	}
	return result
}

''', ''))
r('m3-results-append-order', 'C27', (M, '''			i := mul - 1
			priceHistory''', '''			index := mul - 1
			priceHistory'''), (M, 'execution, i, mul, duration, updateInterval, results)\n\t\t}', 'execution, index, mul, duration, updateInterval, results[:])\n\t\t}'))
r('m3-write-json', 'C25', (M, '''	encoder := json.NewEncoder(file)
	encoder.SetIndent("", "  ")

	toSave := result.Save{
		StartAmount: startAmount,
		StartTime:   startTime,
		EndTime:     endTime,
		Results:     results,
	}
	err = encoder.Encode(toSave)
	if err != nil {
		panic(err)
	}

}
''', '''	check(writeJSON(file, result.Save{
		StartAmount: startAmount,
		StartTime:   startTime,
		EndTime:     endTime,
		Results:     results,
	}))
}

func writeJSON(w io.Writer, value interface{}) error {
	encoder := json.NewEncoder(w)
	encoder.SetIndent("", "  ")
	return encoder.Encode(value)
}
'''), (M, '''	"fmt"
	"io/ioutil"''', '''	"fmt"
	"io"
	"io/ioutil"'''))
r('m3-close-explicit', 'C25', (M, '''	defer func(file *os.File) {
		err := file.Close()
		if err != nil {
			panic(err)
		}
	}(file)
''', ''), (M, '''	err = encoder.Encode(toSave)
	if err != nil {
		panic(err)
	}
''', '''	if err = encoder.Encode(toSave); err != nil {
		file.Close()
		panic(err)
	}
	check(file.Close())
'''))
r('m3-buffered', 'C25', (M, '''	encoder := json.NewEncoder(file)
''', '''	writer := bufio.NewWriter(file)
	encoder := json.NewEncoder(writer)
'''), (M, '''	err = encoder.Encode(toSave)
	if err != nil {
		panic(err)
	}
''', '''	err = encoder.Encode(toSave)
	if err == nil {
		err = writer.Flush()
	}
	if err != nil {
		panic(err)
	}
'''), (M, '''import (
''', '''import (
	"bufio"
'''))
r('m3-marshal-write', 'C25', (M, '''	filepath := path.Join("results", filename)
	err := os.Mkdir("results", os.ModePerm)
	if err != nil {
		fmt.Println("Error creating directory: ", err)
	}
	fmt.Println("Saving to: ", filepath)
	file, err := os.Create(filepath)
	if err != nil {
		panic(err)
	}
	defer func(file *os.File) {
		err := file.Close()
		if err != nil {
			panic(err)
		}
	}(file)
	encoder := json.NewEncoder(file)
	encoder.SetIndent("", "  ")
''', '''	filepath := path.Join("results", filename)
	if err := os.Mkdir("results", os.ModePerm); err != nil {
		fmt.Println("Error creating directory: ", err)
	}
	fmt.Println("Saving to: ", filepath)
'''), (M, '''	err = encoder.Encode(toSave)
	if err != nil {
		panic(err)
	}
''', '''	content, err := json.MarshalIndent(toSave, "", "  ")
	check(err)
	check(os.WriteFile(filepath, append(content, '\\n'), 0o666))
'''))
r('m3-mkdirall', 'C25', (M, '''	err := os.Mkdir("results", os.ModePerm)
	if err != nil {
		fmt.Println("Error creating directory: ", err)
	}''', '''	err := os.MkdirAll("results", os.ModePerm)
	if err != nil {
		fmt.Println("Error creating directory: ", err)
	}'''))
r('m3-mkdir-exists', 'C25', (M, '''	if err != nil {
		fmt.Println("Error creating directory: ", err)
	}''', '''	if err != nil && !os.IsExist(err) {
		fmt.Println("Error creating directory: ", err)
	}'''))
r('m3-log-fatal', 'C25', (M, '''	if e != nil {
		panic(e)
	}''', '''	if e != nil {
		log.Fatal(e)
	}'''), (M, '''	"io/ioutil"
''', '''	"io/ioutil"
	"log"
'''))
r('m3-wrap-error', 'C25', (M, '''	if e != nil {
		panic(e)
	}''', '''	if e != nil {
		panic(fmt.Errorf("simulation: %w", e))
	}'''))
r('m3-load-returns-error', 'C25', (M, '''	transactions := getTransactions()
	fmt''', '''	transactions, err := getTransactions()
	check(err)
	fmt'''), (M, '''func getTransactions() []ent.Transaction {
	filename := "transactions_insample.json"
	filepath := path.Join("data", filename)
	file, err := os.Open(filepath)
	check(err)
	value, err := ioutil.ReadAll(file)
	check(err)
	var transactionsInput []ent.TransactionInput
	err = json.Unmarshal([]byte(value), &transactionsInput)
	check(err)
''', '''func getTransactions() ([]ent.Transaction, error) {
	filename := "transactions_insample.json"
	filepath := path.Join("data", filename)
	file, err := os.Open(filepath)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	value, err := ioutil.ReadAll(file)
	if err != nil {
		return nil, err
	}
	var transactionsInput []ent.TransactionInput
	if err := json.Unmarshal(value, &transactionsInput); err != nil {
		return nil, err
	}
'''), (M, '''		transactions = append(transactions, trans)
	}
	return transactions
''', '''		transactions = append(transactions, trans)
	}
	return transactions, nil
'''))
r('m3-readfile', 'C26', (M, '''	file, err := os.Open(filepath)
	check(err)
	value, err := ioutil.ReadAll(file)
	check(err)
''', '''	value, err := os.ReadFile(filepath)
	check(err)
'''), (M, '	"io/ioutil"\n', ''), )
r('m3-transaction-helper', 'C26', (M, '''	var transactions []ent.Transaction
	for _, transIn := range transactionsInput {
		useX96, _ := strconv.ParseBool(transIn.UseX96)
		trans := ent.Transaction{
			transIn.Type,
			stringToUint256(transIn.Amount),
			stringToUint256(transIn.Amount0),
			stringToUint256(transIn.Amount1),
			transIn.ID,
			stringToUint256(transIn.SqrtPriceX96),
			transIn.Tick,
			transIn.TickLower,
			transIn.TickUpper,
			transIn.Timestamp,
			useX96,
		}
		transactions = append(transactions, trans)
	}
	return transactions
}
''', '''	transactions := make([]ent.Transaction, len(transactionsInput))
	for i := range transactionsInput {
		transactions[i] = decode(&transactionsInput[i])
	}
	return transactions
}

func decode(in *ent.TransactionInput) (t ent.Transaction) {
	t.Type, t.ID, t.Timestamp = in.Type, in.ID, in.Timestamp
	t.Amount = stringToUint256(in.Amount)
	t.Amount0, t.Amount1 = stringToUint256(in.Amount0), stringToUint256(in.Amount1)
	t.SqrtPriceX96 = stringToUint256(in.SqrtPriceX96)
	t.Tick, t.TickLower, t.TickUpper = in.Tick, in.TickLower, in.TickUpper
	t.UseX96, _ = strconv.ParseBool(in.UseX96)
	return t
}
'''))
r('m3-std-helper', 'C23', (M, '''	n := len(returns)
	sum1 := 0.0
	for _, r := range returns {
		sum1 += r * r
	}
	sum1 = sum1 / float64(n-1)
	sum2 := 0.0
	for _, r := range returns {
		sum2 += r
	}
''', '''	n := len(returns)
	sum1, sum2 := 0.0, 0.0
	for _, r := range returns {
		sum1 += r * r
		sum2 += r
	}
	sum1 = sum1 / float64(n-1)
'''))
r('m3-returns-float', 'C23', (M, '''	returns := make([]float64, 0, len(prices))
	for i := 1; i < len(prices); i++ {
		sIMinus1 := prices[i-1].ToBig()
		sI := prices[i].ToBig()
		sIMinus1F, _ := new(big.Float).SetInt(sIMinus1).Float64()
		sIF, _ := new(big.Float).SetInt(sI).Float64()
		ret := math.Log(sIF / sIMinus1F)
		returns = append(returns, ret)
	}
	return returns
}
''', '''	var returns []float64
	for i, price := range prices {
		if i > 0 {
			returns = append(returns, math.Log(toFloat(price)/toFloat(prices[i-1])))
		}
	}
	return returns
}

func toFloat(x *ui.Int) float64 {
	f, _ := new(big.Float).SetInt(x.ToBig()).Float64()
	return f
}
'''))
r('m3-drawdown-one-loop', 'C23', (M, '''	pricesFloat := make([]float64, 0, len(prices))
	for _, price := range prices {
		floatNumber, _ := new(big.Float).SetInt(price.ToBig()).Float64()
		pricesFloat = append(pricesFloat, floatNumber)
	}
	maxPrice := pricesFloat[0]
	maxDrawdown := 0.0
	for _, price := range pricesFloat {
		maxPrice = math.Max(maxPrice, price)
		drawdown := (price - maxPrice) / maxPrice
		maxDrawdown = math.Min(maxDrawdown, drawdown)
	}
	return maxDrawdown
''', '''	maxPrice, maxDrawdown := 0.0, 0.0
	for i, p := range prices {
		price, _ := new(big.Float).SetInt(p.ToBig()).Float64()
		if i == 0 || price > maxPrice {
			maxPrice = price
		}
		if drawdown := (price - maxPrice) / maxPrice; drawdown < maxDrawdown {
			maxDrawdown = drawdown
		}
	}
	return maxDrawdown
'''))
r('m3-every', 'C24', (M, '''	pricesHourly := make([]*ui.Int, 0, len(execution.AmountUSDSnapshots))
	pricesDaily := make([]*ui.Int, 0, len(execution.AmountUSDSnapshots)/24)
	pricesWeekly := make([]*ui.Int, 0, len(execution.AmountUSDSnapshots)/24/7)
	for i := 0; i < len(execution.AmountUSDSnapshots); i++ {
		pricesHourly = append(pricesHourly, execution.AmountUSDSnapshots[i].Clone())
		if i%24 == 0 {
			pricesDaily = append(pricesDaily, execution.AmountUSDSnapshots[i].Clone())
		}
		if i%(24*7) == 0 {
			pricesWeekly = append(pricesWeekly, execution.AmountUSDSnapshots[i].Clone())
		}
	}
''', '''	pricesHourly := every(execution.AmountUSDSnapshots, 1)
	pricesDaily := every(execution.AmountUSDSnapshots, 24)
	pricesWeekly := every(execution.AmountUSDSnapshots, 24*7)
'''), (M, '''func createResult(''', '''// every returns each n-th snapshot.
func every(snapshots []*ui.Int, n int) []*ui.Int {
	picked := make([]*ui.Int, 0, len(snapshots)/n+1)
	for i := 0; i < len(snapshots); i += n {
		picked = append(picked, snapshots[i].Clone())
	}
	return picked
}

func createResult('''))
r('m3-no-clone', 'C24', (M, '''execution.AmountUSDSnapshots[i].Clone()''', '''execution.AmountUSDSnapshots[i]'''))
r('m3-fields-later', 'C24', (M, '''	r := result.RunResult{
		EndAmount:     amountEnd,
		MultiplierX10: mul,
		//ParameterA: a,
		HistoryWindow:           duration,
		UpdateInterval:          updateInterval,
		Return:                  roi,
''', '''	r := result.RunResult{
'''), (M, '''		VaR95Weekly:             var95Weekly,
	}

	return r
''', '''		VaR95Weekly:             var95Weekly,
	}
	r.EndAmount = amountEnd
	r.MultiplierX10, r.HistoryWindow, r.UpdateInterval = mul, duration, updateInterval
	r.Return = roi
	return r
'''))

# ---- replay
r('e3-value-func', 'C21,C22', (EX, '''			amount0, amount1 := strategy.Init()
			// Not Precise
			x96 := strategy.GetPool().SqrtRatioX96
			priceSquareX192 := new(ui.Int).Mul(x96, x96)
			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
			amountUSD := new(ui.Int).Add(amount1to0, amount0)
			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
''', '''			e.record(strategy.Init())
'''), (EX, '''			amount0, amount1 := strategy.GetAmounts()
			x96 := strategy.GetPool().SqrtRatioX96
			priceSquareX192 := new(ui.Int).Mul(x96, x96)
			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
			amountUSD := new(ui.Int).Add(amount1to0, amount0)
			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
''', '''			e.record(strategy.GetAmounts())
'''), (EX, '''	amount0, amount1 := strategy.BurnAll()
	x96 := strategy.GetPool().SqrtRatioX96
	priceSquareX192 := new(ui.Int).Mul(x96, x96)
	amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
	amountUSD := new(ui.Int).Add(amount1to0, amount0)
	e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)

}
''', '''	e.record(strategy.BurnAll())
}

// record appends the value of the amounts at the current price.
func (e *Execution) record(amount0, amount1 *ui.Int) {
	price := e.Strategy.GetPool().SqrtRatioX96
	value := fullmath.MulDiv(amount1, cons.Q192, new(ui.Int).Mul(price, price))
	e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, value.Add(value, amount0))
}
'''))
r('e3-apply', 'C21,C22', (EX, '''		switch trans.Type {
		case "Mint":
			pool.Mint(trans.TickLower, trans.TickUpper, trans.Amount)
		case "Burn":
			pool.Burn(trans.TickLower, trans.TickUpper, trans.Amount)
		case "Swap":
			if trans.Amount0.Sign() > 0 {
				pool.ExactInputSwap(trans.Amount0, pool.Token0, cons.Zero)
			} else if trans.Amount1.Sign() > 0 {
				pool.ExactInputSwap(trans.Amount1, pool.Token1, cons.Zero)
			}
		case "Flash":
			pool.Flash(trans.Amount0, trans.Amount1)
		}
	}
''', '''		apply(pool, &trans)
	}
'''), (EX, '''func (e *Execution) Run() {''', '''func apply(p *ppool.Pool, t *ent.Transaction) {
	if t.Type == "Swap" {
		switch {
		case t.Amount0.Sign() > 0:
			p.ExactInputSwap(t.Amount0, p.Token0, cons.Zero)
		case t.Amount1.Sign() > 0:
			p.ExactInputSwap(t.Amount1, p.Token1, cons.Zero)
		}
	} else if t.Type == "Mint" {
		p.Mint(t.TickLower, t.TickUpper, t.Amount)
	} else if t.Type == "Burn" {
		p.Burn(t.TickLower, t.TickUpper, t.Amount)
	} else if t.Type == "Flash" {
		p.Flash(t.Amount0, t.Amount1)
	}
}

func (e *Execution) Run() {'''), (EX, '''	strat "uniswap''', '''	ppool "uniswap-simulator/lib/pool"
	strat "uniswap'''))
r('e3-index-loop', 'C21,C22', (EX, '''	for _, trans := range transactions {

		if trans.Timestamp > e.EndTime {
			break
		}
''', '''	for i := 0; i < len(transactions) && transactions[i].Timestamp <= e.EndTime; i++ {
		trans := &transactions[i]
'''))
r('e3-schedule-struct', 'C21,C22', (EX, '''	started := false
	nextUpdate := math.MaxInt64
	nextSnapshot := math.MaxInt64
''', '''	started := false
	var nextUpdate, nextSnapshot int
'''), (EX, '''		if trans.Timestamp >= nextSnapshot {''', '''		if started && trans.Timestamp >= nextSnapshot {'''), (EX, '''		if trans.Timestamp >= nextUpdate {''', '''		if started && trans.Timestamp >= nextUpdate {'''), (EX, '	"math"\n', ''))
r('e3-no-pool-var', 'C21', (EX, '''			pool.Flash(trans.Amount0, trans.Amount1)''', '''			strategy.GetPool().Flash(trans.Amount0, trans.Amount1)'''))
r('tr3-base', 'C26', (TR, '''	switch t.Type {
	case "Swap":
		return json.Marshal(&TransactionInput{
			Type:         t.Type,
			Amount0:      t.Amount0.SToBig().String(),
			Amount1:      t.Amount1.SToBig().String(),
			ID:           t.ID,
			SqrtPriceX96: t.SqrtPriceX96.SToBig().String(),
			Tick:         t.Tick,
			Timestamp:    t.Timestamp,
			UseX96:       strconv.FormatBool(t.UseX96),
		})
	case "Mint", "Burn":
		return json.Marshal(&TransactionInput{
			Type:      t.Type,
			Amount:    t.Amount.SToBig().String(),
			Amount1:   t.Amount1.SToBig().String(),
			Amount0:   t.Amount0.SToBig().String(),
			TickLower: t.TickLower,
			TickUpper: t.TickUpper,
			ID:        t.ID,
			Timestamp: t.Timestamp,
		})
	case "Flash":
		return json.Marshal(&TransactionInput{
			Type:      t.Type,
			Amount0:   t.Amount0.SToBig().String(),
			Amount1:   t.Amount1.SToBig().String(),
			ID:        t.ID,
			Timestamp: t.Timestamp,
		})
	}
	panic("unreachable")

}
''', '''	if t.Type != "Swap" && t.Type != "Mint" && t.Type != "Burn" && t.Type != "Flash" {
		panic("unreachable")
	}
	out := TransactionInput{
		Type:      t.Type,
		Amount0:   decimal(t.Amount0),
		Amount1:   decimal(t.Amount1),
		ID:        t.ID,
		Timestamp: t.Timestamp,
	}
	switch t.Type {
	case "Swap":
		out.SqrtPriceX96 = decimal(t.SqrtPriceX96)
		out.Tick = t.Tick
		out.UseX96 = strconv.FormatBool(t.UseX96)
	case "Mint", "Burn":
		out.Amount = decimal(t.Amount)
		out.TickLower, out.TickUpper = t.TickLower, t.TickUpper
	}
	return json.Marshal(out)
}

func decimal(x *ui.Int) string { return x.SToBig().String() }
'''))

# ---- strategies
for f, recv in (('fill_up', 'FillUpStrategy'), ('limit_order', 'LimitOrderStrategy'), ('bollinger_fill_up', 'BollingerBandsFillUpStrategy')):
    pass
BODY = '''	for _, position := range s.Positions {
		s.Pool.BurnStrategy(position.tickLower, position.tickUpper, position.amount)
		amount0, amount1 := s.Pool.CollectStrategy(position.tickLower, position.tickUpper)
		s.Amount0.Add(s.Amount0, amount0)
		s.Amount1.Add(s.Amount1, amount1)
	}
'''
VAL = '''	amount0, amount1 := new(ui.Int), new(ui.Int)
	for _, position := range s.Positions {
		sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(position.tickLower)
		sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(position.tickUpper)
		liquidityAmount0, liquidityAmount1 := la.GetAmountsForLiquidity(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, position.amount)
		amount0.Add(amount0, liquidityAmount0)
		amount1.Add(amount1, liquidityAmount1)
	}
	amount0.Add(amount0, s.Amount0)
	amount1.Add(amount1, s.Amount1)
	return amount0, amount1
'''
MINT = '''	s.Positions = append(s.Positions, Position{
		amount:    amount,
		tickLower: tickLower,
		tickUpper: tickUpper,
	})

	amount0, amount1 := s.Pool.MintStrategy(tickLower, tickUpper, amount)
	s.Amount0.Sub(s.Amount0, amount0)
	s.Amount1.Sub(s.Amount1, amount1)
'''
CLOSEF = '''
func closePositions(p *pool.Pool, positions []Position, amount0, amount1 *ui.Int) {
	for _, position := range positions {
		p.BurnStrategy(position.tickLower, position.tickUpper, position.amount)
		collected0, collected1 := p.CollectStrategy(position.tickLower, position.tickUpper)
		amount0.Add(amount0, collected0)
		amount1.Add(amount1, collected1)
	}
}
'''
VALF = '''
// value is what the positions are worth at the current price, plus the balances.
func value(p *pool.Pool, positions []Position, balance0, balance1 *ui.Int) (*ui.Int, *ui.Int) {
	amount0, amount1 := balance0.Clone(), balance1.Clone()
	for i := range positions {
		a, b := la.GetAmountsForLiquidity(p.SqrtRatioX96, tickmath.TM.GetSqrtRatioAtTick(positions[i].tickLower),
			tickmath.TM.GetSqrtRatioAtTick(positions[i].tickUpper), positions[i].amount)
		amount0.Add(amount0, a)
		amount1.Add(amount1, b)
	}
	return amount0, amount1
}
'''
SG = ST + 'strategy.go'
ALLS = ['2_interval_around_price', 'bollinger_bands', 'bollinger_fill_up', 'constant_intervall_strategy', 'fill_up', 'interval_around_average', 'interval_around_current_price', 'limit_order', 'swap_half_constant_interval_current_price', 'v2_strategy', 'volatility_sized_intervals']
def have(f, t):
    try: return t in open('/repo/lib/strategy/' + f + '.go').read()
    except OSError: return False
APP = '''type Position struct {'''
r('s3-close-helper', 'C15,C16', *([(ST + f + '.go', BODY, '	closePositions(s.Pool, s.Positions, s.Amount0, s.Amount1)\n') for f in ALLS if have(f, BODY)] + [(SG, APP, CLOSEF + '\n' + APP)]))
r('s3-value-helper', 'C18', *([(ST + f + '.go', VAL, '	return value(s.Pool, s.Positions, s.Amount0, s.Amount1)\n') for f in ALLS if have(f, VAL)] + [(ST + f + '.go', '	la "uniswap-simulator/lib/liquidity_amounts"\n', '	la "uniswap-simulator/lib/liquidity_amounts"\n') for f in ()] + [(SG, APP, VALF + '\n' + APP), (SG, '	"uniswap-simulator/lib/pool"\n', '	la "uniswap-simulator/lib/liquidity_amounts"\n	"uniswap-simulator/lib/pool"\n	"uniswap-simulator/lib/tickmath"\n')]))
r('s3-mint-first', 'C15', *[(ST + f + '.go', MINT, '''	amount0, amount1 := s.Pool.MintStrategy(tickLower, tickUpper, amount)
	s.Amount0.Sub(s.Amount0, amount0)
	s.Amount1.Sub(s.Amount1, amount1)
	s.Positions = append(s.Positions, Position{amount, tickLower, tickUpper})
''') for f in ALLS if have(f, MINT)])
r('s3-burn-sums', 'C15,C16', *[(ST + f + '.go', BODY, '''	sum0, sum1 := new(ui.Int), new(ui.Int)
	for i := 0; i < len(s.Positions); i++ {
		position := &s.Positions[i]
		s.Pool.BurnStrategy(position.tickLower, position.tickUpper, position.amount)
		collected0, collected1 := s.Pool.CollectStrategy(position.tickLower, position.tickUpper)
		sum0.Add(sum0, collected0)
		sum1.Add(sum1, collected1)
	}
	s.Amount0.Add(s.Amount0, sum0)
	s.Amount1.Add(s.Amount1, sum1)
''') for f in ('fill_up', 'v2_strategy')])
r('s3-burn-nil', 'C16', *[(ST + f + '.go', '	s.Positions = make([]Position, 0)\n', '	s.Positions = nil\n') for f in ('fill_up', 'limit_order')])
r('s3-burn-reslice', 'C16', *[(ST + f + '.go', '	s.Positions = make([]Position, 0)\n', '	s.Positions = s.Positions[:0]\n') for f in ('fill_up', 'limit_order')])
r('s3-fill-switch', 'C17', (ST + 'fill_up.go', '''	if !s.Amount0.IsZero() {
		tickLower = tickmath.Ceil(s.Pool.TickCurrent, tickSpacing)
		if tickLower < tickUpper {
			s.mintPosition(tickLower, tickUpper)
		}
	} else if !s.Amount1.IsZero() {
		tickUpper = tickmath.Floor(s.Pool.TickCurrent, tickSpacing)
		if tickLower < tickUpper {
			s.mintPosition(tickLower, tickUpper)
		}
	}
''', '''	switch {
	case !s.Amount0.IsZero():
		tickLower = tickmath.Ceil(s.Pool.TickCurrent, tickSpacing)
	case !s.Amount1.IsZero():
		tickUpper = tickmath.Floor(s.Pool.TickCurrent, tickSpacing)
	default:
		return
	}
	if tickLower < tickUpper {
		s.mintPosition(tickLower, tickUpper)
	}
'''))
r('s3-spacing-field', 'C17', (ST + 'fill_up.go', 'tickSpacing := cons.TickSpaces[s.Pool.Fee]', 'tickSpacing := s.Pool.TickSpacing'), (ST + 'fill_up.go', '	cons "uniswap-simulator/lib/constants"\n', ''))
r('s3-v2-const', 'C17', (ST + 'v2_strategy.go', '''	tickLower := -887270
	tickUpper := -tickLower
	s.mintPosition(tickLower, tickUpper)''', '''	s.mintPosition(-fullRange, fullRange)'''), (ST + 'v2_strategy.go', '''type V2Strategy struct''', '''type V2Strategy struct'''), (ST + 'v2_strategy.go', '// V2Strategy [', '''const fullRange = 887270

// V2Strategy ['''))
r('s3-vol-helper', 'C17', (ST + 'volatility_sized_intervals.go', '''	if overflow0 || sqrtRatioAX96.Cmp(tickmath.MinSqrtRatio) == -1 {
		tickLower = tickmath.MinTick
	} else {
		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
	}

	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
		tickUpper = tickmath.MaxTick
	} else {
		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
	}

	return
''', '''	tickLower, tickUpper = tickmath.MinTick, tickmath.MaxTick
	if !overflow0 && !sqrtRatioAX96.Lt(tickmath.MinSqrtRatio) {
		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
	}
	if !overflow1 && sqrtRatioBX96.Lt(tickmath.MaxSqrtRatio) {
		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
	}
	return tickLower, tickUpper
'''))
r('s3-embed', 'C15,C16,C17,C18', (ST + 'fill_up.go', '''type FillUpStrategy struct {
	Amount0       *ui.Int
	Amount1       *ui.Int
	Pool          *pool.Pool
	IntervalWidth int // a in ticks
	Positions     []Position
}
''', '''type FillUpStrategy struct {
	holdings
	IntervalWidth int // a in ticks
}

type holdings struct {
	Amount0   *ui.Int
	Amount1   *ui.Int
	Pool      *pool.Pool
	Positions []Position
}
'''), (ST + 'fill_up.go', '''	return &FillUpStrategy{
		Amount0:       amount0.Clone(),
		Amount1:       amount1.Clone(),
		Pool:          pool.Clone(),
		IntervalWidth: intervalWidth,
		Positions:     make([]Position, 0),
	}''', '''	return &FillUpStrategy{
		holdings:      holdings{amount0.Clone(), amount1.Clone(), pool.Clone(), nil},
		IntervalWidth: intervalWidth,
	}'''))
r('s3-init-from-rebalance', 'C16,C17', (ST + 'limit_order.go', '''	currAmount0, currAmount1 = s.BurnAll()
	s.setPositions()
	return
''', '''	currAmount0, currAmount1 = s.BurnAll()
	s.Init()
	return
'''))

# ---- uint256
r('u3-add-loop', 'C29', (U, '''func (z *Int) Add(x, y *Int) *Int {
	var carry uint64
	z[0], carry = bits.Add64(x[0], y[0], 0)
	z[1], carry = bits.Add64(x[1], y[1], carry)
	z[2], carry = bits.Add64(x[2], y[2], carry)
	z[3], _ = bits.Add64(x[3], y[3], carry)
	return z
}''', '''func (z *Int) Add(x, y *Int) *Int {
	var carry uint64
	for i := range z {
		z[i], carry = bits.Add64(x[i], y[i], carry)
	}
	return z
}'''))
r('u3-add-via-overflow', 'C29', (U, '''func (z *Int) Sub(x, y *Int) *Int {
	var carry uint64
	z[0], carry = bits.Sub64(x[0], y[0], 0)
	z[1], carry = bits.Sub64(x[1], y[1], carry)
	z[2], carry = bits.Sub64(x[2], y[2], carry)
	z[3], _ = bits.Sub64(x[3], y[3], carry)
	return z
}''', '''func (z *Int) Sub(x, y *Int) *Int {
	z.SubOverflow(x, y)
	return z
}'''))
r('u3-cmp-top', 'C29', (U, '''	// z < x <=> z - x < 0 i.e. when subtraction overflows.
	d0, carry := bits.Sub64(z[0], x[0], 0)
	d1, carry := bits.Sub64(z[1], x[1], carry)
	d2, carry := bits.Sub64(z[2], x[2], carry)
	d3, carry := bits.Sub64(z[3], x[3], carry)
	if carry == 1 {
		return -1
	}
	if d0|d1|d2|d3 == 0 {
		return 0
	}
	return 1
''', '''	for i := 3; i >= 0; i-- {
		if z[i] < x[i] {
			return -1
		}
		if z[i] > x[i] {
			return 1
		}
	}
	return 0
'''))
r('u3-cmp-lt', 'C29', (U, '''	d0, carry := bits.Sub64(z[0], x[0], 0)
	d1, carry := bits.Sub64(z[1], x[1], carry)
	d2, carry := bits.Sub64(z[2], x[2], carry)
	d3, carry := bits.Sub64(z[3], x[3], carry)
	if carry == 1 {
		return -1
	}
	if d0|d1|d2|d3 == 0 {
		return 0
	}
	return 1
''', '''	switch {
	case z.Lt(x):
		return -1
	case z.Eq(x):
		return 0
	}
	return 1
'''))
r('u3-eq-array', 'C29', (U, '	return (z[0] == x[0]) && (z[1] == x[1]) && (z[2] == x[2]) && (z[3] == x[3])', '	return *z == *x'))
r('u3-zero-array', 'C29', (U, '''func (z *Int) IsZero() bool {
	return (z[0] | z[1] | z[2] | z[3]) == 0
}''', '''func (z *Int) IsZero() bool {
	return *z == Int{}
}'''))
r('u3-neg-not', 'C29', (U, '''func (z *Int) Neg(x *Int) *Int {
	return z.Sub(new(Int), x)
}''', '''func (z *Int) Neg(x *Int) *Int {
	return z.AddUint64(z.Not(x), 1)
}'''))
r('u3-sgt', 'C29', (U, '''func (z *Int) Sgt(x *Int) bool {
	zSign := z.Sign()
	xSign := x.Sign()

	switch {
	case zSign >= 0 && xSign < 0:
		return true
	case zSign < 0 && xSign >= 0:
		return false
	default:
		return z.Gt(x)
	}
}''', '''func (z *Int) Sgt(x *Int) bool {
	return x.Slt(z)
}'''))
r('u3-sign-bit', 'C29', (U, '''	if z.IsZero() {
		return 0
	}
	if z[3] < 0x8000000000000000 {
		return 1
	}
	return -1
''', '''	if z.isBitSet(255) {
		return -1
	}
	if z.IsZero() {
		return 0
	}
	return 1
'''))
r('u3-bitlen-loop', 'C29', (U, '''	switch {
	case z[3] != 0:
		return 192 + bits.Len64(z[3])
	case z[2] != 0:
		return 128 + bits.Len64(z[2])
	case z[1] != 0:
		return 64 + bits.Len64(z[1])
	default:
		return bits.Len64(z[0])
	}
''', '''	for i := len(z) - 1; i > 0; i-- {
		if z[i] != 0 {
			return 64*i + bits.Len64(z[i])
		}
	}
	return bits.Len64(z[0])
'''))
r('u3-clone-deref', 'C29', (U, '	return &Int{z[0], z[1], z[2], z[3]}\n', '	c := *z\n	return &c\n'))
r('u3-lsh-words', 'C29', (U, '''func (z *Int) Lsh(x *Int, n uint) *Int {
''', '''func (z *Int) Lsh(x *Int, n uint) *Int {
	if n < 256 {
		words, b := int(n/64), n%64
		var res Int
		for i := 3; i >= words; i-- {
			res[i] = x[i-words] << b
			if b > 0 && i > words {
				res[i] |= x[i-words-1] >> (64 - b)
			}
		}
		*z = res
		return z
	}
'''))
r('u3-rsh-small', 'C29', (U, '''	// remaining shifts
	a = z[3] << (64 - n)
	z[3] = z[3] >> n

sh64:''', '''	// remaining shifts
	z[3], a = z[3]>>n, z[3]<<(64-n)

sh64:'''))
r('u3-byte-shift', 'C29', (U, '''			number := z[4-1-number/8]
			offset := (n[0] & 0x7) << 3 // 8*(n.d % 8)
			z[0] = (number & (0xff00000000000000 >> offset)) >> (56 - offset)
			z[3], z[2], z[1] = 0, 0, 0
			return z
''', '''			word := z[3-number/8]
			return z.SetUint64(word >> (56 - 8*(number%8)) & 0xff)
'''))
r('u3-extend-shifts', 'C29', (U, '''	mask := new(Int).SetOne()
	mask.Lsh(mask, bit)
	mask.SubUint64(mask, 1)
	if x.isBitSet(bit) {
		z.Or(x, mask.Not(mask))
	} else {
		z.And(x, mask)
	}
	return z
''', '''	z.Lsh(x, 255-bit)
	return z.SRsh(z, 255-bit)
'''))
r('u3-not-xor', 'C29', (U, '	z[3], z[2], z[1], z[0] = ^x[3], ^x[2], ^x[1], ^x[0]\n	return z\n}\n\n// Gt', '	for i := range x {\n		z[i] = x[i] ^ math.MaxUint64\n	}\n	return z\n}\n\n// Gt'))
r('u3-div-no-shortcut', 'C30', (U, '''	// Shortcut some cases
	if x.IsUint64() {
		return z.SetUint64(x.Uint64() / y.Uint64())
	}

	// At this point, we know
	// x/y ; x > y > 0
''', ''))
r('u3-mod-lt', 'C30', (U, '''	switch x.Cmp(y) {
	case -1:
		// x < y
		copy(z[:], x[:])
		return z
	case 0:
		// x == y
		return z.Clear() // They are equal
	}
''', '''	if x.Lt(y) {
		return z.Set(x)
	}
	if x.Eq(y) {
		return z.Clear()
	}
'''))
r('u3-exp-words', 'C30', (U, '''	curBit := 0
	word := exponent[0]
	for ; curBit < expBitLen && curBit < 64; curBit++ {
		if word&1 == 1 {
			res.Mul(&res, &multiplier)
		}
		multiplier.squared()
		word >>= 1
	}

	word = exponent[1]
	for ; curBit < expBitLen && curBit < 128; curBit++ {
		if word&1 == 1 {
			res.Mul(&res, &multiplier)
		}
		multiplier.squared()
		word >>= 1
	}

	word = exponent[2]
	for ; curBit < expBitLen && curBit < 192; curBit++ {
		if word&1 == 1 {
			res.Mul(&res, &multiplier)
		}
		multiplier.squared()
		word >>= 1
	}

	word = exponent[3]
	for ; curBit < expBitLen && curBit < 256; curBit++ {
		if word&1 == 1 {
			res.Mul(&res, &multiplier)
		}
		multiplier.squared()
		word >>= 1
	}
	return z.Set(&res)''', '''	for bit := 0; bit < expBitLen; bit++ {
		if exponent.isBitSet(uint(bit)) {
			res.Mul(&res, &multiplier)
		}
		multiplier.squared()
	}
	return z.Set(&res)'''))
r('u3-squared-mul', 'C30', (U, '''		multiplier.squared()
''', '''		multiplier.Mul(&multiplier, &multiplier)
'''))
r('u3-sdiv-signs', 'C30', (U, '''	if n.Sign() > 0 {
		if d.Sign() > 0 {
			// pos / pos
			z.Div(n, d)
			return z
		} else {
			// pos / neg
			z.Div(n, new(Int).Neg(d))
			return z.Neg(z)
		}
	}

	if d.Sign() < 0 {
		// neg / neg
		z.Div(new(Int).Neg(n), new(Int).Neg(d))
		return z
	}
	// neg / pos
	z.Div(new(Int).Neg(n), d)
	return z.Neg(z)
''', '''	negative := (n.Sign() < 0) != (d.Sign() < 0)
	z.Div(new(Int).Abs(n), new(Int).Abs(d))
	if negative {
		z.Neg(z)
	}
	return z
'''))
r('u3-mulmod-shared', 'C30', (U, '''func (z *Int) MulMod(x, y, m *Int) *Int {
	if x.IsZero() || y.IsZero() || m.IsZero() {
		return z.Clear()
	}
	p := Umul(x, y)

	if m[3] != 0 {
		mu := Reciprocal(m)
		r := reduce4(p, m, mu)
		return z.Set(&r)
	}

	var (
		pl Int
		ph Int
	)
	copy(pl[:], p[:4])
	copy(ph[:], p[4:])

	// If the multiplication is within 256 bits use Mod().
	if ph.IsZero() {
		return z.Mod(&pl, m)
	}

	var quot [8]uint64
	rem := Udivrem(quot[:], p[:], m)
	return z.Set(&rem)
}''', '''func (z *Int) MulMod(x, y, m *Int) *Int {
	mu := Reciprocal(m)
	return z.MulModWithReciprocal(x, y, m, &mu)
}'''))
r('u3-addmod-slow', 'C30', (U, '''		t = s
		if _, overflow = s.SubOverflow(&s, m); overflow {
			s = t
		}

		*z = s
		return z
''', '''		if !s.Lt(m) {
			s.Sub(&s, m)
		}
		return z.Set(&s)
'''))
r('u3-mulover-loop', 'C30', (U, '''	copy(z[:], p[:4])
	return z, (p[4] | p[5] | p[6] | p[7]) != 0
''', '''	z[0], z[1], z[2], z[3] = p[0], p[1], p[2], p[3]
	overflow := false
	for _, w := range p[4:] {
		overflow = overflow || w != 0
	}
	return z, overflow
'''))
r('u3-sqrt-rsh', 'C30', (U, '''		{ //z2 = z2.Rsh(z2, 1) -- the code below does a 1-bit rsh faster
			a := z2[3] << 63
			z2[3] = z2[3] >> 1
			b := z2[2] << 63
			z2[2] = (z2[2] >> 1) | a
			a = z2[1] << 63
			z2[1] = (z2[1] >> 1) | b
			z2[0] = (z2[0] >> 1) | a
		}
		// end of inlined bitshift
''', '''		z2 = z2.Rsh(z2, 1)
'''))
r('u3-knuth-helper', 'C30', (U, '''		var qhat, rhat uint64
		if u2 >= dh { // Division overflows.
			qhat = ^uint64(0)
			// TODO: Add "qhat one to big" adjustment (not needed for correctness, but helps avoiding "add back" case).
		} else {
			qhat, rhat = udivrem2by1(u2, u1, dh, reciprocal)
			ph, pl := bits.Mul64(qhat, dl)
			if ph > rhat || (ph == rhat && pl > u0) {
				qhat--
				// TODO: Add "qhat one to big" adjustment (not needed for correctness, but helps avoiding "add back" case).
			}
		}
''', '''		qhat := guess(u2, u1, u0, dh, dl, reciprocal)
'''), (U, '''// Udivrem divides u by d and''', '''func guess(u2, u1, u0, dh, dl, reciprocal uint64) uint64 {
	if u2 >= dh { // Division overflows.
		return ^uint64(0)
	}
	qhat, rhat := udivrem2by1(u2, u1, dh, reciprocal)
	if ph, pl := bits.Mul64(qhat, dl); ph > rhat || ph == rhat && pl > u0 {
		qhat--
	}
	return qhat
}

// Udivrem divides u by d and'''))
r('u3-udivrem-words', 'C30', (U, '''	var dLen int
	for i := len(d) - 1; i >= 0; i-- {
		if d[i] != 0 {
			dLen = i + 1
			break
		}
	}
''', '''	dLen := significant(d[:])
'''), (U, '''	var uLen int
	for i := len(u) - 1; i >= 0; i-- {
		if u[i] != 0 {
			uLen = i + 1
			break
		}
	}
''', '''	uLen := significant(u)
'''), (U, '''// Udivrem divides u by d and''', '''// significant is the number of words without leading zero words.
func significant(words []uint64) int {
	n := len(words)
	for n > 0 && words[n-1] == 0 {
		n--
	}
	return n
}

// Udivrem divides u by d and'''))
r('u3-setbytes-loop', 'C31', (U, '''func (z *Int) SetBytes(buf []byte) *Int {
	switch l := len(buf); l {''', '''func (z *Int) SetBytes(buf []byte) *Int {
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
	}
	z.Clear()
	for i := 0; i < len(buf); i++ {
		z[i/8] |= uint64(buf[len(buf)-1-i]) << (8 * uint(i%8))
	}
	return z
}

func (z *Int) setBytesOld(buf []byte) *Int {
	switch l := len(buf); l {'''))
r('u3-bytes20', 'C31', (U, '''	var b [20]byte
	// The PutUint*()s are inlined and we get 3x (load, bswap, store) instructions.
	binary.BigEndian.PutUint32(b[0:4], uint32(z[2]))
	binary.BigEndian.PutUint64(b[4:12], z[1])
	binary.BigEndian.PutUint64(b[12:20], z[0])
	return b
''', '''	var b [20]byte
	full := z.Bytes32()
	copy(b[:], full[12:])
	return b
'''))
r('u3-array32', 'C31', (U, '''	for i := 0; i < 32; i++ {
		dest[31-i] = byte(z[i/8] >> uint64(8*(i%8)))
	}
''', '''	*dest = z.Bytes32()
'''))
r('u3-padded-write', 'C31', (U, '''	b := make([]byte, n)

	for i := 0; i < 32 && i < n; i++ {
		b[n-1-i] = byte(z[i/8] >> uint64(8*(i%8)))
	}
	return b
''', '''	b := make([]byte, n)
	full := z.Bytes32()
	if n >= 32 {
		copy(b[n-32:], full[:])
	} else {
		copy(b, full[32-n:])
	}
	return b
'''))
r('u3-write-slice', 'C31', (U, '''	end := len(dest) - 1
	if end > 31 {
		end = 31
	}
	for i := 0; i <= end; i++ {
		dest[end-i] = byte(z[i/8] >> uint64(8*(i%8)))
	}
''', '''	n := len(dest)
	if n > 32 {
		n = 32
	}
	full := z.Bytes32()
	copy(dest, full[32-n:])
'''))
r('u3-stobig-neg', 'C31', (CV, '''	b := z.ToBig()
	if z.Sign() < 0 {
		bitMap := &Int{
			0xffffffffffffffff,
			0xffffffffffffffff,
			0xffffffffffffffff,
			0xffffffffffffffff,
		}
		a := new(Int)
		a.Xor(bitMap, z)
		a = a.Add(a, NewInt(1))
		b = a.ToBig()
		b = b.Mul(b, big.NewInt(-1))
	}
	return b
''', '''	if z.Sign() >= 0 {
		return z.ToBig()
	}
	b := new(Int).Neg(z).ToBig()
	return b.Neg(b)
'''))
r('u3-setfrombig-loop', 'C31', (CV, '''		if len(words) > 0 {
			z[0] = uint64(words[0])
			if len(words) > 1 {
				z[1] = uint64(words[1])
				if len(words) > 2 {
					z[2] = uint64(words[2])
					if len(words) > 3 {
						z[3] = uint64(words[3])
					}
				}
			}
		}
''', '''		for i := 0; i < len(words) && i < 4; i++ {
			z[i] = uint64(words[i])
		}
'''))
r('u3-hex-loop', 'C31', (CV, '''	// Start with the most significant
	zWord := (nibbles - 1) / 16
	for i := zWord; i >= 0; i-- {''', '''	for i := 0; i <= (nibbles-1)/16; i++ {'''))
r('u3-hex-nibbles', 'C31', (CV, '''	output := make([]byte, 66)
	nibbles := (z.BitLen() + 3) / 4 // nibbles [0,64]
	if nibbles == 0 {
		nibbles = 1
	}
''', '''	nibbles := (z.BitLen() + 3) / 4 // nibbles [0,64]
	if nibbles == 0 {
		return "0x0"
	}
	output := make([]byte, 66)
'''))
r('u3-checknumber', 'C31', (CV, '''	l := len(input)
	if l == 0 {
		return ErrEmptyString
	}
	if l < 2 || input[0] != '0' ||
		(input[1] != 'x' && input[1] != 'X') {
		return ErrMissingPrefix
	}
	if l == 2 {
		return ErrEmptyNumber
	}
	if len(input) > 3 && input[2] == '0' {
		return ErrLeadingZero
	}
	return nil
''', '''	switch {
	case input == "":
		return ErrEmptyString
	case len(input) < 2 || input[0] != '0' || input[1]|0x20 != 'x':
		return ErrMissingPrefix
	case len(input) == 2:
		return ErrEmptyNumber
	case len(input) > 3 && input[2] == '0':
		return ErrLeadingZero
	default:
		return nil
	}
'''))
r('u3-rlp-bytes', 'C31', (CV, '''	nBytes := byte((nBits + 7) / 8)
	var b [33]byte
	binary.BigEndian.PutUint64(b[1:9], z[3])
	binary.BigEndian.PutUint64(b[9:17], z[2])
	binary.BigEndian.PutUint64(b[17:25], z[1])
	binary.BigEndian.PutUint64(b[25:33], z[0])
	b[32-nBytes] = 0x80 + nBytes
	_, err := w.Write(b[32-nBytes:])
	return err
''', '''	content := z.Bytes()
	b := append([]byte{0x80 + byte(len(content))}, content...)
	_, err := w.Write(b)
	return err
'''))
r('u3-parse-digit', 'C31', (CV, '''			z[i] = z[i] << 4
			z[i] += uint64(nib)
''', '''			z[i] = z[i]<<4 | uint64(nib)
'''))
r('u3-unmarshal-trim', 'C31', (CV, '''	if len(input) < 2 || input[0] != '"' || input[len(input)-1] != '"' {
		return ErrNonString
	}
	return z.UnmarshalText(input[1 : len(input)-1])
''', '''	last := len(input) - 1
	if last >= 1 && input[0] == '"' && input[last] == '"' {
		return z.UnmarshalText(input[1:last])
	}
	return ErrNonString
'''))
