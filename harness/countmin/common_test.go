package countmin_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"

	"github.com/apache/datasketches-go/count"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// cm is a sketch with an independently kept counter table and exact weights.
type cm struct {
	s        *count.CountMinSketch
	h        int
	b        int
	seed     int64
	seeds    []int64
	tab      [][]int64
	total    int64
	truth    map[string]int64
	negative bool
}

func newCm(t *rapid.T) *cm {
	return newCmOf(t, vk.Pick(t, "h", 1, 2, 3, 4, 5, 8, 16, 127), vk.Pick(t, "b", 3, 4, 5, 8, 13, 64, 272, 1000))
}

func newCmOf(t *rapid.T, h, b int) *cm {
	x := &cm{h: h, b: b}
	if vk.Chance(t, "anyseed", 1, 3) {
		x.seed = rapid.Int64().Draw(t, "seed")
	} else {
		x.seed = int64(vk.Pick(t, "seedp", 0, 1, -1, 9001, 42))
	}
	if ref.SeedHash16(uint64(x.seed)) == 0 {
		x.seed = 9001 // such a seed cannot be serialized
	}
	if err := x.open(); err != nil {
		t.Fatalf("h=%d b=%d seed=%d: %v", x.h, x.b, x.seed, err)
	}
	return x
}

func (x *cm) open() (err error) {
	x.s, err = count.NewCountMinSketch(int8(x.h), int32(x.b), x.seed)
	rng := rand.New(rand.NewSource(x.seed))
	x.seeds = nil
	for i := 0; i < x.h; i++ {
		x.seeds = append(x.seeds, int64(rng.Int())+x.seed)
	}
	x.tab = make([][]int64, x.h)
	for i := range x.tab {
		x.tab[i] = make([]int64, x.b)
	}
	x.truth = map[string]int64{}
	return
}

// twin is a second sketch of the same shape and seed.
func (x *cm) twin() *cm {
	y := &cm{h: x.h, b: x.b, seed: x.seed}
	if err := y.open(); err != nil {
		panic(err)
	}
	return y
}

func (x *cm) col(i int, item []byte) int {
	h, _ := ref.Murmur128(item, uint64(x.seeds[i]))
	return int(h % uint64(x.b))
}

func (x *cm) model(item []byte, w int64) {
	if len(item) == 0 {
		return
	}
	for i := range x.tab {
		x.tab[i][x.col(i, item)] += w
	}
	if w < 0 {
		x.total -= w
		x.negative = true
	} else {
		x.total += w
	}
	x.truth[string(item)] += w
}

func (x *cm) want(item []byte) int64 {
	if len(item) == 0 {
		return 0
	}
	r := int64(math.MaxInt64)
	for i := range x.tab {
		r = min(r, x.tab[i][x.col(i, item)])
	}
	return r
}

// update goes through one of the typed methods.
func (x *cm) update(item []byte, w int64, how int) error {
	x.model(item, w)
	switch {
	case how == 0 && len(item) == 8:
		return x.s.UpdateUint64(binary.LittleEndian.Uint64(item), w)
	case how == 1:
		return x.s.UpdateString(string(item), w)
	}
	b := bytes.Clone(item)
	err := x.s.Update(b, w)
	for i := range b {
		b[i] ^= 0xff
	}
	return err
}

func (x *cm) check(item []byte) error {
	w := x.want(item)
	add := int64(math.Exp(1) / float64(x.b) * float64(x.total))
	tr := x.truth[string(item)]
	if len(item) == 8 {
		u := binary.LittleEndian.Uint64(item)
		if e, l, h := x.s.GetEstimateUint64(u), x.s.GetLowerBoundUint64(u), x.s.GetUpperBoundUint64(u); e != w || l != w || h != w+add {
			return fmt.Errorf("uint64 item %d: estimate %d bounds [%d,%d], want %d [%d,%d]", u, e, l, h, w, w, w+add)
		}
	}
	if e := x.s.GetEstimateString(string(item)); e != w {
		return fmt.Errorf("string item %q: estimate %d, want %d", item, e, w)
	}
	e, l, h := x.s.GetEstimate(item), x.s.GetLowerBound(item), x.s.GetUpperBound(item)
	if e != w {
		return fmt.Errorf("item %x: estimate %d, want %d", item, e, w)
	}
	if len(item) > 0 && (l != w || h != w+add) || l > e || h < e {
		return fmt.Errorf("item %x: bounds [%d,%d], want [%d,%d]", item, l, h, w, w+add)
	}
	if !x.negative && e < tr {
		return fmt.Errorf("item %x: estimate %d below the true weight %d", item, e, tr)
	}
	return nil
}

func (x *cm) checkAll(pr *vk.PRNG) error {
	if x.s.GetTotalWeight() != x.total || int(x.s.GetNumHashes()) != x.h || int(x.s.GetNumBuckets()) != x.b || x.s.GetSeed() != x.seed {
		return fmt.Errorf("total weight %d hashes %d buckets %d seed %d, want %d %d %d %d", x.s.GetTotalWeight(), x.s.GetNumHashes(), x.s.GetNumBuckets(), x.s.GetSeed(), x.total, x.h, x.b, x.seed)
	}
	if re := x.s.GetRelativeError(); math.Abs(re*float64(x.b)/math.E-1) > 1e-12 {
		return fmt.Errorf("relative error %v with %d buckets", re, x.b)
	}
	n := 0
	for it := range x.truth {
		if n++; n > 400 {
			break
		}
		if err := x.check([]byte(it)); err != nil {
			return err
		}
	}
	for i := 0; i < 20; i++ {
		if err := x.check(item(pr, pr.Intn(3), 1<<40)); err != nil {
			return err
		}
	}
	return x.check(nil)
}

func (x *cm) bytes() []byte {
	var b bytes.Buffer
	if err := x.s.Serialize(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func item(pr *vk.PRNG, kind, dom int) []byte {
	v := uint64(pr.Intn(dom))
	switch kind {
	case 0:
		return binary.LittleEndian.AppendUint64(nil, v)
	case 1:
		return []byte(fmt.Sprintf("item-%d", v))
	case 2:
		b := make([]byte, v%41)
		q := vk.NewPRNG(v)
		for i := range b {
			b[i] = byte(q.U64())
		}
		return b
	}
	return nil
}

func (x *cm) stream(t *rapid.T) (string, error) {
	n, kind, dom := vk.Size(t, "n", 0, 400), vk.Int(t, "kind", 0, 3), vk.Size(t, "dom", 1, 500)
	seed, wm := rapid.Uint32().Draw(t, "sseed"), vk.Int(t, "wm", 0, 5)
	pr := vk.NewPRNG(uint64(seed))
	for i := 0; i < n; i++ {
		k := kind
		if kind == 3 {
			k = pr.Intn(4)
		}
		w := int64(1)
		switch wm {
		case 1:
			w = int64(pr.Intn(5))
		case 2:
			w = int64(pr.Intn(1 << 30))
		case 3:
			w = int64(1) << pr.Intn(45)
		case 4:
			w = int64(pr.Intn(21)) - 10
		}
		if err := x.update(item(pr, k, dom), w, pr.Intn(3)); err != nil {
			return "", err
		}
	}
	return fmt.Sprintf("stream(n=%d kind=%d dom=%d seed=%d w=%d)", n, kind, dom, seed, wm), nil
}
