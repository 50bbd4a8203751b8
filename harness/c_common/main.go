package main

import (
	"fmt"
	"gkr-mimc/common"
	"math/big"
	"verifharness/hx"
)

func logs(t *hx.T, a int) {
	t.Case(fmt.Sprintf("Log2Floor/Log2Ceil(%d)", a), func() string {
		fl, ce := 0, 0
		b := big.NewInt(int64(a))
		for new(big.Int).Lsh(big.NewInt(1), uint(fl+1)).Cmp(b) <= 0 {
			fl++
		}
		for new(big.Int).Lsh(big.NewInt(1), uint(ce)).Cmp(b) < 0 {
			ce++
		}
		if g := common.Log2Floor(a); g != fl {
			return fmt.Sprintf("Log2Floor(%d) = %d, want %d", a, g, fl)
		}
		if g := common.Log2Ceil(a); g != ce {
			return fmt.Sprintf("Log2Ceil(%d) = %d, want %d", a, g, ce)
		}
		return ""
	})
}

func minmax(t *hx.T, a, b int) {
	t.Case(fmt.Sprintf("Min/Max(%d,%d)", a, b), func() string {
		lo, hi := a, b
		if b < a {
			lo, hi = b, a
		}
		if common.Min(a, b) != lo || common.Max(a, b) != hi {
			return fmt.Sprintf("Min(%d,%d) = %d, Max = %d", a, b, common.Min(a, b), common.Max(a, b))
		}
		return ""
	})
}

func c24(t *hx.T) {
	for a := 1; a <= 5000; a++ {
		logs(t, a)
	}
	for k := uint(12); k < 63; k++ {
		for d := -3; d <= 3; d++ {
			logs(t, 1<<k+d)
		}
	}
	logs(t, 1<<62+12345)
	logs(t, int(^uint(0)>>1))
	big := []int{int(^uint(0) >> 1), -int(^uint(0)>>1) - 1, -int(^uint(0) >> 1), 1 << 32, -1 << 32, 1 << 31, -1 << 31, 4096, 4095, 4097}
	for a := -12; a <= 12; a++ {
		big = append(big, a)
	}
	for _, a := range big {
		for _, b := range big {
			minmax(t, a, b)
		}
	}
	for i := 0; i < 2000; i++ {
		minmax(t, t.Rnd.Int()-t.Rnd.Int(), t.Rnd.Int()-t.Rnd.Int())
		logs(t, 1+t.Rnd.Int()>>uint(t.Rnd.Intn(62)))
	}
}

func main() { hx.Main(map[string]func(*hx.T){"C24": c24}) }
