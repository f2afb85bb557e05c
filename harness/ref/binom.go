package ref

import "math"

// IncBeta is the regularized incomplete beta function I_x(a,b) (continued fraction).
func IncBeta(a, b, x float64) float64 {
	if x <= 0 {
		return 0
	}
	if x >= 1 {
		return 1
	}
	la, _ := math.Lgamma(a)
	lb, _ := math.Lgamma(b)
	lab, _ := math.Lgamma(a + b)
	front := math.Exp(lab - la - lb + a*math.Log(x) + b*math.Log1p(-x))
	if x < (a+1)/(a+b+2) {
		return front * betacf(a, b, x) / a
	}
	return 1 - front*betacf(b, a, 1-x)/b
}

func betacf(a, b, x float64) float64 {
	const tiny = 1e-300
	c, d := 1.0, 1-(a+b)*x/(a+1)
	if math.Abs(d) < tiny {
		d = tiny
	}
	d = 1 / d
	h := d
	for m := 1.0; m < 20000; m++ {
		aa := m * (b - m) * x / ((a + 2*m - 1) * (a + 2*m))
		d = 1 + aa*d
		c = 1 + aa/c
		if math.Abs(d) < tiny {
			d = tiny
		}
		if math.Abs(c) < tiny {
			c = tiny
		}
		d = 1 / d
		h *= d * c
		aa = -(a + m) * (a + b + m) * x / ((a + 2*m) * (a + 2*m + 1))
		d = 1 + aa*d
		c = 1 + aa/c
		if math.Abs(d) < tiny {
			d = tiny
		}
		if math.Abs(c) < tiny {
			c = tiny
		}
		d = 1 / d
		del := d * c
		h *= del
		if math.Abs(del-1) < 1e-14 {
			break
		}
	}
	return h
}

// BinomGE is P(Binomial(N,p) >= n) for real N >= n.
func BinomGE(N float64, p float64, n float64) float64 {
	if n <= 0 {
		return 1
	}
	return IncBeta(n, N-n+1, p)
}

// BinomLE is P(Binomial(N,p) <= n).
func BinomLE(N float64, p float64, n float64) float64 {
	if n >= N {
		return 1
	}
	return 1 - IncBeta(n+1, N-n, p)
}

// NormTail is P(Z > k).
func NormTail(k float64) float64 { return 0.5 * math.Erfc(k/math.Sqrt2) }
