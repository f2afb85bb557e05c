// Package qref is the reference for quantile-sketch queries: everything is recomputed from a
// plain list of (value, weight) pairs.
package qref

import (
	"math"
	"math/big"
	"sort"
)

type View[C comparable] struct {
	Q    []C
	Cum  []int64
	N    int64
	Less func(a, b C) bool
}

func New[C comparable](q []C, w []int64, less func(a, b C) bool) *View[C] {
	idx := make([]int, len(q))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return less(q[idx[a]], q[idx[b]]) })
	v := &View[C]{Less: less}
	for _, i := range idx {
		v.N += w[i]
		v.Q = append(v.Q, q[i])
		v.Cum = append(v.Cum, v.N)
	}
	return v
}

// Mass is the weight of values <= x (inclusive) or < x.
func (v *View[C]) Mass(x C, inclusive bool) int64 {
	i := sort.Search(len(v.Q), func(i int) bool {
		if inclusive {
			return v.Less(x, v.Q[i])
		}
		return !v.Less(v.Q[i], x)
	})
	if i == 0 {
		return 0
	}
	return v.Cum[i-1]
}

func (v *View[C]) Rank(x C, inclusive bool) float64 {
	return float64(v.Mass(x, inclusive)) / float64(v.N)
}

// At is the value at a natural rank.
func (v *View[C]) At(nat int64, inclusive bool) C {
	i := sort.Search(len(v.Cum), func(i int) bool {
		if inclusive {
			return v.Cum[i] >= nat
		}
		return v.Cum[i] > nat
	})
	if i == len(v.Cum) {
		i--
	}
	return v.Q[i]
}

// Nat lists the natural ranks that a normalized rank may stand for: exactly one unless rank*N is
// so near an integer that rounding decides, when the neighbours are admitted too.
func Nat(rank float64, n int64, inclusive bool) []int64 {
	r := new(big.Float).SetPrec(200).SetFloat64(rank)
	r.Mul(r, new(big.Float).SetInt64(n))
	f, _ := r.Float64()
	near := math.Round(f)
	tol := 2e-7
	if n > 10_000_000 {
		tol = 1e-15 * float64(n)
	}
	if d := math.Abs(f - near); d <= tol {
		k := int64(near)
		if r.IsInt() || (n <= 10_000_000 && (d <= 4e-16*math.Abs(near) || d < 0.4e-7)) {
			// the exact product is this integer, up to the rounding that shorter streams get
			return []int64{k}
		}
		if inclusive {
			return []int64{k, k + 1}
		}
		return []int64{k - 1, k}
	}
	if inclusive {
		return []int64{int64(math.Ceil(f))}
	}
	return []int64{int64(math.Floor(f))}
}

// QuantileOK tells whether got is a right answer for the rank.
func (v *View[C]) QuantileOK(rank float64, inclusive bool, got C) bool {
	for _, n := range Nat(rank, v.N, inclusive) {
		if v.Same(v.At(n, inclusive), got) {
			return true
		}
	}
	return false
}

// Same says whether the order does not tell two values apart.
func (v *View[C]) Same(a, b C) bool { return !v.Less(a, b) && !v.Less(b, a) }

func (v *View[C]) CDF(splits []C, inclusive bool) []float64 {
	r := make([]float64, 0, len(splits)+1)
	for _, s := range splits {
		r = append(r, v.Rank(s, inclusive))
	}
	return append(r, 1)
}

func (v *View[C]) PMF(splits []C, inclusive bool) []float64 {
	r := make([]float64, 0, len(splits)+1)
	var p int64
	for _, s := range splits {
		m := v.Mass(s, inclusive)
		r = append(r, float64(m-p)/float64(v.N))
		p = m
	}
	return append(r, float64(v.N-p)/float64(v.N))
}
