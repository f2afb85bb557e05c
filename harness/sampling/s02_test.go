package sampling_test

import (
	"fmt"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/sampling"
	"pgregory.net/rapid"

	"verif/vk"
)

// ru is a reservoir union with what its result must satisfy.
type ru[T comparable] struct {
	u      *sampling.ReservoirItemsUnion[T]
	maxK   int
	n      int64
	counts map[int]int // how often each id was offered
	ks     map[int]bool
	exact  bool // every input was in exact mode
}

func newRU[T comparable](t *rapid.T, maxK int) *ru[T] {
	u, err := sampling.NewReservoirItemsUnion[T](maxK)
	if err != nil {
		t.Fatalf("maxK=%d: %v", maxK, err)
	}
	return &ru[T]{u: u, maxK: maxK, counts: map[int]int{}, ks: map[int]bool{maxK: true}, exact: true}
}

func (x *ru[T]) offer(k *kind[T], sm []T, kk int, n int64) {
	for _, it := range sm {
		x.counts[k.id(it)]++
	}
	x.n += n
	if n > int64(kk) {
		x.exact = false
		x.ks[min(kk, x.maxK)] = true
	}
	if n > int64(x.maxK) {
		x.exact = false
	}
}

// check verifies the result and returns it.
func (x *ru[T]) check(k *kind[T]) (*sampling.ReservoirItemsSketch[T], error) {
	if x.u.MaxK() != x.maxK {
		return nil, fmt.Errorf("MaxK()=%d, configured %d", x.u.MaxK(), x.maxK)
	}
	r, err := x.u.Result()
	if err != nil {
		return nil, fmt.Errorf("Result: %v", err)
	}
	if r == nil {
		if x.n != 0 {
			return nil, fmt.Errorf("no result after %d items", x.n)
		}
		return nil, nil
	}
	if r.N() != x.n {
		return r, fmt.Errorf("result N()=%d, inputs saw %d", r.N(), x.n)
	}
	if !x.ks[r.K()] || r.K() > x.maxK {
		return r, fmt.Errorf("result K()=%d, maximum %d, possible %v", r.K(), x.maxK, x.ks)
	}
	if x.exact && r.K() != x.maxK {
		return r, fmt.Errorf("result K()=%d of exact inputs, maximum %d", r.K(), x.maxK)
	}
	sm := r.Samples()
	if want := int(min(x.n, int64(r.K()))); len(sm) != want || r.NumSamples() != want {
		return r, fmt.Errorf("n=%d k=%d but %d samples", x.n, r.K(), len(sm))
	}
	got := map[int]int{}
	for _, it := range sm {
		id := k.id(it)
		got[id]++
		if k.item(id) != it || got[id] > x.counts[id] {
			return r, fmt.Errorf("result holds %v %d times, inputs offered it %d times", it, got[id], x.counts[id])
		}
	}
	if x.n <= int64(r.K()) { // nothing may be lost
		for id, m := range x.counts {
			if got[id] != m {
				return r, fmt.Errorf("exact result lost item %v", k.item(id))
			}
		}
	}
	return r, nil
}

func s02[T comparable](k *kind[T]) func(t *rapid.T, c *vk.Case) {
	return func(t *rapid.T, c *vk.Case) {
		next := 0
		large := 40
		if vk.Chance(t, "lg", 1, 8) {
			large = 600
		}
		x := newRU[T](t, vk.Int(t, "maxK", 2, large))
		hist := fmt.Sprintf("%s maxK=%d", k.name, x.maxK)
		type watched struct {
			s    *sampling.ReservoirItemsSketch[T]
			want string
		}
		var inputs []watched
		type raw struct{ live, keep []T }
		var raws []raw
		sampIn, merges := 0, 0
		steps := vk.Int(t, "steps", 1, 9)
		for st := 0; st < steps; st++ {
			switch vk.Int(t, "op", 0, 9) {
			case 0, 1, 2, 3, 4: // sketch
				var s *sampling.ReservoirItemsSketch[T]
				if len(inputs) > 0 && vk.Chance(t, "again", 1, 5) {
					s = inputs[vk.Int(t, "which", 0, len(inputs)-1)].s
				} else {
					y := newRS(t, k, 2, large, 2*large)
					if err := y.feed(k, &next, runLen(t, y.k)); err != nil {
						t.Fatalf("%s: %v", hist, err)
					}
					s = y.s
				}
				hist += fmt.Sprintf(" <-(k=%d,n=%d)", s.K(), s.N())
				inputs = append(inputs, watched{s, rState(s)})
				if err := x.u.UpdateSketch(s); err != nil {
					t.Fatalf("%s: UpdateSketch: %v", hist, err)
				}
				x.offer(k, s.Samples(), s.K(), s.N())
				merges++
				if s.N() > int64(s.K()) {
					sampIn++
				}
			case 5: // single items
				m := vk.Int(t, "m", 1, 2*x.maxK)
				hist += fmt.Sprintf(" +%d", m)
				for i := 0; i < m; i++ {
					it := k.item(next)
					next++
					if err := x.u.Update(it); err != nil {
						t.Fatalf("%s: Update: %v", hist, err)
					}
					x.offer(k, []T{it}, x.maxK, 1)
				}
			case 6: // raw
				rk := vk.Int(t, "rk", 2, 2*large)
				n := int64(runLen(t, rk))
				items := make([]T, min(n, int64(rk)), min(n, int64(rk))+int64(vk.Int(t, "cap", 0, 3)))
				for i := range items {
					items[i] = k.item(next)
					next++
				}
				hist += fmt.Sprintf(" raw(k=%d,n=%d)", rk, n)
				rw := raw{items, slices.Clone(items)}
				raws = append(raws, rw)
				if err := x.u.UpdateFromRaw(n, rk, items); err != nil {
					t.Fatalf("%s: UpdateFromRaw: %v", hist, err)
				}
				x.offer(k, items, rk, n)
				merges++
				if n > int64(rk) {
					sampIn++
				}
			case 7: // image
				b, err := x.u.ToSlice(k.serde)
				if err != nil {
					t.Fatalf("%s: ToSlice: %v", hist, err)
				}
				hist += " trip"
				if x.u, err = sampling.NewReservoirItemsUnionFromSlice[T](b, k.serde); err != nil {
					t.Fatalf("%s: decode: %v", hist, err)
				}
			case 8:
				if vk.Chance(t, "rst", 1, 3) {
					hist += " reset"
					x.u.Reset()
					*x = ru[T]{u: x.u, maxK: x.maxK, counts: map[int]int{}, ks: map[int]bool{x.maxK: true}, exact: true}
				} else {
					hist += " nil"
					if err := x.u.UpdateSketch(nil); err != nil {
						t.Fatalf("%s: nil sketch: %v", hist, err)
					}
				}
			default: // use the result: it must be independent of the union
				r, err := x.check(k)
				if err != nil {
					t.Fatalf("%s: %v", hist, err)
				}
				if r == nil {
					continue
				}
				y := &rs[T]{s: r, k: r.K(), n: r.N(), may: map[int]bool{}}
				dup := false
				for id, m := range x.counts {
					y.may[id] = true
					dup = dup || m > 1
				}
				for _, it := range r.Samples() {
					y.hist = append(y.hist, k.id(it))
				}
				if !dup {
					hist += " use-result"
					if err := y.feed(k, &next, vk.Int(t, "m", 0, 2*r.K())); err != nil {
						t.Fatalf("%s: %v", hist, err)
					}
					if err := y.check(k); err != nil {
						t.Fatalf("%s: result used further: %v", hist, err)
					}
				}
			}
			if _, err := x.check(k); err != nil {
				t.Fatalf("%s: %v", hist, err)
			}
			for i, w := range inputs {
				if got := rState(w.s); got != w.want {
					t.Fatalf("%s: input %d changed:\nwas %s\nnow %s", hist, i, w.want, got)
				}
			}
			for i, r := range raws {
				if !slices.Equal(r.live, r.keep) {
					t.Fatalf("%s: the slice passed to UpdateFromRaw (#%d) was modified: %v -> %v", hist, i, r.keep, r.live)
				}
			}
		}
		// the caller may reuse its inputs and slices
		before, _ := x.u.Result()
		for _, r := range raws {
			var zero T
			for i := range r.live {
				r.live[i] = zero
			}
		}
		for _, w := range inputs {
			for i := 0; i < 3*w.s.K(); i++ {
				w.s.Update(k.item(next + i))
			}
		}
		after, _ := x.u.Result()
		if before != nil && rState(before) != rState(after) {
			t.Fatalf("%s: reusing the inputs changed the union:\nwas %s\nnow %s", hist, rState(before), rState(after))
		}
		if merges > 0 && x.n > 0 {
			c.NT(hist)
			c.Class(fmt.Sprintf("%d sampling inputs", min(sampIn, 3)))
			if c.WantSample() {
				c.Sample("%s", hist)
			}
		}
	}
}

// s02Stat repeats one merge history and compares how often each original item survives.
func s02Stat(t *rapid.T, c *vk.Case) {
	type input struct {
		form int // 0 sketch, 1 single items, 2 raw, 3 sketch through nested union
		k, n int
	}
	maxK := vk.Int(t, "maxK", 2, 20)
	var ins []input
	N := 0
	desc := fmt.Sprintf("maxK=%d", maxK)
	for i, m := 0, vk.Int(t, "inputs", 1, 4); i < m; i++ {
		in := input{form: vk.Int(t, "form", 0, 4) % 4, k: vk.Int(t, "k", 2, 25)}
		switch vk.Int(t, "size", 0, 3) {
		case 0:
			in.n = vk.Int(t, "n", 1, in.k)
		case 1:
			in.n = in.k + vk.Int(t, "d", 0, 1)
		default:
			in.n = vk.Int(t, "n", in.k, 6*in.k)
		}
		ins = append(ins, in)
		N += in.n
		desc += fmt.Sprintf(" %s(k=%d,n=%d)", [...]string{"sketch", "items", "raw", "nested"}[in.form], in.k, in.n)
	}
	trip := vk.Int(t, "trip", -1, len(ins)) // serialize the union before this input
	desc += fmt.Sprintf(" trip=%d", trip)
	trials := 3000
	if vk.Tier() == "thorough" {
		trials = 20000
	}
	inc := make([]int, N)
	var srcMeans, posMeans []*mean
	K := -1
	feed := func(s *sampling.ReservoirItemsSketch[int64], base, n int) {
		for i := 0; i < n; i++ {
			if err := s.Update(int64(base + i)); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
	}
	mk := func(k int) *sampling.ReservoirItemsSketch[int64] {
		s, err := sampling.NewReservoirItemsSketch[int64](k)
		if err != nil {
			t.Fatal(err)
		}
		return s
	}
	must := func(err error) {
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
	}
	for tr := 0; tr < trials; tr++ {
		u, err := sampling.NewReservoirItemsUnion[int64](maxK)
		must(err)
		base := 0
		for i, in := range ins {
			if i == trip {
				b, err := u.ToSlice(kLong.serde)
				must(err)
				u, err = sampling.NewReservoirItemsUnionFromSlice[int64](b, kLong.serde)
				must(err)
			}
			switch in.form {
			case 1:
				for j := 0; j < in.n; j++ {
					must(u.Update(int64(base + j)))
				}
			case 0, 2:
				s := mk(in.k)
				feed(s, base, in.n)
				if in.form == 0 {
					must(u.UpdateSketch(s))
				} else {
					must(u.UpdateFromRaw(s.N(), s.K(), s.Samples()))
				}
			case 3:
				v, err := sampling.NewReservoirItemsUnion[int64](in.k)
				must(err)
				s := mk(in.k + 3)
				feed(s, base, in.n/2)
				must(v.UpdateSketch(s))
				for j := in.n / 2; j < in.n; j++ {
					must(v.Update(int64(base + j)))
				}
				r, err := v.Result()
				must(err)
				must(u.UpdateSketch(r))
			}
			base += in.n
		}
		r, err := u.Result()
		must(err)
		if K < 0 {
			K = r.K()
			p := float64(min(K, N)) / float64(N)
			for i, in := range ins {
				srcMeans = append(srcMeans, &mean{name: fmt.Sprintf("survivors of input %d", i), want: p * float64(in.n), maxValue: float64(K)})
				posMeans = append(posMeans, &mean{name: fmt.Sprintf("sum of positions within input %d", i), want: p * float64(in.n) * float64(in.n-1) / 2, maxValue: float64(K * in.n)})
			}
		}
		if r.K() != K || r.N() != int64(N) {
			t.Fatalf("%s: K=%d N=%d, other trials K=%d, inputs hold %d", desc, r.K(), r.N(), K, N)
		}
		seen := map[int64]bool{}
		cnt, ps := make([]int, len(ins)), make([]int, len(ins))
		for _, v := range r.Samples() {
			if v < 0 || int(v) >= N || seen[v] {
				t.Fatalf("%s: sample %d foreign or repeated", desc, v)
			}
			seen[v] = true
			inc[v]++
			i, off := 0, int(v)
			for off >= ins[i].n {
				off -= ins[i].n
				i++
			}
			cnt[i]++
			ps[i] += off
		}
		for i := range ins {
			srcMeans[i].add(float64(cnt[i]))
			posMeans[i].add(float64(ps[i]))
		}
	}
	p := float64(min(K, N)) / float64(N)
	for i, x := range inc {
		if d := kl(x, trials, p); d > klLimit {
			t.Fatalf("%s: item %d of %d survived in %d of %d trials, expected probability %.4f", desc, i, N, x, trials, p)
		}
	}
	for _, m := range append(srcMeans, posMeans...) {
		if err := m.err(); err != nil {
			t.Fatalf("%s: result k=%d: %v", desc, K, err)
		}
	}
	if len(ins) > 1 && N > K {
		c.NT(desc)
		c.Class(fmt.Sprintf("%d inputs", len(ins)))
		if c.WantSample() {
			c.Sample("%s -> K=%d, %d trials", desc, K, trials)
		}
	}
}

func s02Config(t *rapid.T, c *vk.Case) {
	k := vk.Int(t, "maxK", -2, 5)
	u, err := sampling.NewReservoirItemsUnion[int64](k)
	if (err == nil) != (k >= 2) {
		t.Fatalf("maxK=%d: error %v", k, err)
	}
	if err != nil {
		return
	}
	u.Reset()
	bad := []struct {
		n     int64
		k, ln int
	}{{10, 1, 1}, {10, 5, 4}, {3, 5, 2}, {3, 5, 6}}
	b := bad[vk.Int(t, "bad", 0, len(bad)-1)]
	if err := u.UpdateFromRaw(b.n, b.k, make([]int64, b.ln)); err == nil {
		t.Fatalf("UpdateFromRaw(n=%d,k=%d,%d items) accepted", b.n, b.k, b.ln)
	}
	if r, err := u.Result(); err != nil || r != nil && r.N() != 0 {
		t.Fatalf("rejected raw input changed the union")
	}
	c.NT(k, b)
}

func TestS02(t *testing.T) {
	vk.Property(t, "S02", "at least one non-empty sketch or raw merge (statistics: two or more inputs and more items than the result holds)",
		vk.Sub{Name: "model-long", Quick: 2500, Thorough: 40000, Fn: s02(kLong)},
		vk.Sub{Name: "model-string", Quick: 1000, Thorough: 15000, Fn: s02(kString)},
		vk.Sub{Name: "giant", Quick: 6000, Thorough: 100000, Fn: s02Giant},
		vk.Sub{Name: "giant-survival", Quick: 80, Thorough: 300, Fn: s02GiantStat},
		vk.Sub{Name: "survival", Quick: 160, Thorough: 600, Fn: s02Stat},
		vk.Sub{Name: "config", Quick: 60, Thorough: 200, Fn: s02Config},
	)
}
