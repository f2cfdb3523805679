package main

import (
	"fmt"
	cons "uniswap-simulator/lib/constants"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

// constants prints the shared constants.
func constants() string {
	s := ""
	for i, u := range []*ui.Int{cons.Zero, cons.One, cons.NegativeOne, cons.MaxUint256, cons.Q96, cons.Q128, cons.Q192, cons.E6, cons.E18, tickmath.MinSqrtRatio, tickmath.MaxSqrtRatio} {
		s += fmt.Sprintf("constant %d: %v\n", i, fromUI(u))
	}
	for _, t := range []int{ref.MinTick, -1, 0, 1, 77777, ref.MaxTick} {
		s += fmt.Sprintf("ratio at %d: %v\n", t, fromUI(tickmath.TM.GetSqrtRatioAtTick(t)))
	}
	for _, f := range []int{500, 3000, 10000} {
		s += fmt.Sprintf("spacing of %d: %d\n", f, cons.TickSpaces[f])
	}
	return s
}
