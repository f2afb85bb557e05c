// Package tgen generates Theta hash universes and operand sketches shared by the theta,
// tuple and cross-cutting checks.
package tgen

import (
	"bytes"
	"fmt"
	"math"
	"slices"

	"github.com/apache/datasketches-go/theta"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/vk"
)

// Universe maps an index to a 63-bit non-zero hash; styles stress different parts.
type Universe struct {
	Style int
	Salt  uint64
}

const NumStyles = 7

func DrawUniverse(t *rapid.T, label string) Universe {
	return Universe{vk.Int(t, label+".style", 0, NumStyles-1), uint64(rapid.Uint32().Draw(t, label+".salt"))}
}

func (u Universe) Hash(i int) uint64 {
	x := vk.Mix(uint64(i)*0x9e3779b97f4a7c15 ^ vk.Mix(u.Salt))
	var h uint64
	switch u.Style {
	case 0, 1: // uniform
		h = x >> 1
	case 2: // dense small values (sequential)
		h = uint64(i)*3 + 1 + u.Salt%1000
	case 3: // same low bits: probe collisions
		h = (x>>1)&^0xffff | uint64(i&3)
	case 4: // clustered near the maximum
		h = ref.MaxTheta - 1 - uint64(i)*(1+u.Salt%97)
	case 5: // same low 20 bits -> same index and (mostly) same stride
		h = uint64(i+1) << 32
	case 6: // ascending uniform-ish
		h = uint64(i)*(1<<44) + (x >> 24)
	}
	h &= ref.MaxTheta
	if h == 0 {
		h = 1
	}
	if h == ref.MaxTheta {
		h--
	}
	return h
}

// Bytes returns an input for UpdateBytes that hashes to h under seed.
func Bytes(h uint64, seed uint64) []byte {
	return ref.Preimage16(h<<1|vk.Mix(h)&1, vk.Mix(h), seed)
}

// SketchI is what every theta sketch offers.
type SketchI = theta.Sketch

// Operand is a generated sketch with its abstract value.
type Operand struct {
	S    theta.Sketch
	V    ref.KMV
	Desc string
	// Upd is set when the operand is an update sketch.
	Upd *theta.QuickSelectUpdateSketch
	// Img is set when the operand wraps these bytes.
	Img []byte
}

// OpSpec is the drawn description of an operand.
type OpSpec struct {
	Kind   int // 0 update, 1 compact ordered, 2 compact unordered, 3 decoded, 4 decoded v4, 5 wrapped v3, 6 wrapped v4, 7 crafted arbitrary (theta,set)
	From   int
	N      int
	Stride int
	LgK    uint8
	P      float32
	RF     int
	Trim   bool
	Cut    int // crafted: theta position 0..100 percent of entries; >100 none
	Order  int
}

var Ps = []float32{1, 1, 1, 1, 0.9, 0.5, 0.1, 0.01}

func DrawOp(t *rapid.T, label string, maxN int, maxLgK int) OpSpec {
	n := 0
	fromMax := maxN
	if vk.Int(t, label+".near", 0, 2) > 0 {
		fromMax = 30
	}
	switch vk.Int(t, label+".nclass", 0, 11) {
	case 0:
	case 1:
		n = 1
	case 2, 3, 4:
		n = vk.Size(t, label+".n", 2, 40)
	default:
		n = vk.Size(t, label+".n", 0, maxN)
	}
	return OpSpec{
		Kind:   vk.Int(t, label+".kind", 0, 7),
		From:   vk.Size(t, label+".from", 0, fromMax),
		N:      n,
		Stride: vk.Int(t, label+".stride", 1, 3),
		LgK:    uint8(vk.Int(t, label+".lgk", 5, maxLgK)),
		P:      Ps[vk.Int(t, label+".p", 0, len(Ps)-1)],
		RF:     vk.Int(t, label+".rf", 0, 3),
		Trim:   rapid.Bool().Draw(t, label+".trim"),
		Cut:    vk.Int(t, label+".cut", 0, 140),
		Order:  vk.Int(t, label+".order", 0, 2),
	}
}

func (s OpSpec) Hashes(u Universe) []uint64 {
	hs := make([]uint64, 0, s.N)
	for i := 0; i < s.N; i++ {
		hs = append(hs, u.Hash(s.From+i*s.Stride))
	}
	switch s.Order {
	case 1:
		slices.Sort(hs)
	case 2:
		slices.Sort(hs)
		slices.Reverse(hs)
	}
	return hs
}

type fataler interface {
	Fatalf(string, ...any)
	Helper()
}

// Build makes the operand.
func (s OpSpec) Build(t fataler, u Universe, seed uint64) Operand {
	t.Helper()
	hs := s.Hashes(u)
	o := Operand{Desc: fmt.Sprintf("%+v", s)}
	sh := ref.SeedHash16(seed)
	if s.Kind == 7 {
		// arbitrary (theta, set): the smallest cut% of the set below theta
		slices.Sort(hs)
		hs = slices.Compact(hs)
		v := ref.KMV{Theta: ref.MaxTheta, SeedH: sh}
		if s.Cut <= 100 && len(hs) > 0 {
			i := len(hs) * s.Cut / 101
			v.Theta = hs[i]
			if v.Theta > 1 {
				hs = hs[:i]
			} else {
				v.Theta = ref.MaxTheta
			}
		} else if len(hs) == 0 && s.Cut <= 70 {
			v.Theta = u.Hash(s.From)>>1 + 1 // no entries, but theta < 1
		}
		v.H = hs
		v.Empty = v.Theta == ref.MaxTheta && len(hs) == 0
		v.Ordered = s.Order != 2 || len(hs) <= 1 || v.Empty
		ent := slices.Clone(hs)
		if !v.Ordered {
			slices.Reverse(ent)
		}
		v.Raw = ent
		img := ref.EncodeThetaV3(v, ent, v.Ordered)
		sk, err := theta.Decode(img, seed)
		if err != nil {
			t.Fatalf("decoding a valid uncompressed image (theta=%d entries=%d ordered=%v) failed: %v", v.Theta, len(ent), v.Ordered, err)
		}
		o.S, o.V = sk, v
		return o
	}
	m := ref.NewThetaModel(s.LgK, s.P, seed)
	us, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(s.LgK), theta.WithUpdateSketchP(s.P),
		theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(s.RF)), theta.WithUpdateSketchSeed(seed))
	if err != nil {
		t.Fatalf("NewQuickSelectUpdateSketch: %v", err)
	}
	for _, h := range hs {
		_ = us.UpdateBytes(Bytes(h, seed))
		m.Offer(h)
	}
	if s.Trim {
		us.Trim()
		m.Trim()
	}
	v := ref.KMV{Theta: m.Theta64(), H: m.Sorted(), Empty: m.Empty, SeedH: sh}
	o.V = v
	var sk theta.Sketch = us
	switch s.Kind {
	case 0:
		o.Upd = us
	case 1:
		sk = us.Compact(true)
	case 2:
		sk = us.Compact(false)
	case 3, 4, 5, 6:
		var buf bytes.Buffer
		c := us.Compact(s.Order != 1 || s.Kind == 4 || s.Kind == 6)
		e := theta.NewEncoder(&buf, s.Kind == 4 || s.Kind == 6)
		if err := e.Encode(c); err != nil {
			t.Fatalf("Encode: %v", err)
		}
		img := buf.Bytes()
		if s.Kind <= 4 {
			d, err := theta.Decode(img, seed)
			if err != nil {
				t.Fatalf("Decode of own image: %v", err)
			}
			sk = d
		} else {
			w, err := theta.WrapCompactSketch(img, seed)
			if err != nil {
				t.Fatalf("WrapCompactSketch of own image: %v", err)
			}
			sk = w
			o.Img = img
		}
	}
	o.S = sk
	o.V.Ordered = sk.IsOrdered()
	return o
}

// Snapshot is the observable content of a sketch.
type Snapshot struct {
	Theta   uint64
	Empty   bool
	Ordered bool
	Est     bool
	N       uint32
	H       []uint64 // iteration order
	SeedH   uint16
}

func Snap(s theta.Sketch) Snapshot {
	sn := Snapshot{Theta: s.Theta64(), Empty: s.IsEmpty(), Ordered: s.IsOrdered(), Est: s.IsEstimationMode(), N: s.NumRetained()}
	for h := range s.All() {
		sn.H = append(sn.H, h)
	}
	sn.SeedH, _ = s.SeedHash()
	return sn
}

func (a Snapshot) Equal(b Snapshot) bool {
	return a.Theta == b.Theta && a.Empty == b.Empty && a.Ordered == b.Ordered && a.Est == b.Est && a.N == b.N && a.SeedH == b.SeedH && slices.Equal(a.H, b.H)
}

func (a Snapshot) String() string {
	return fmt.Sprintf("{theta=%d empty=%v ordered=%v est=%v n=%d seedhash=%d hashes=%s}", a.Theta, a.Empty, a.Ordered, a.Est, a.N, a.SeedH, Short(a.H))
}

func Short(h []uint64) string {
	if len(h) <= 12 {
		return fmt.Sprint(h)
	}
	return fmt.Sprintf("%v...%v(%d)", h[:6], h[len(h)-3:], len(h))
}

// Check compares a sketch with an abstract value.
func Check(s theta.Sketch, v ref.KMV) error {
	sn := Snap(s)
	if sn.Theta != v.Theta {
		return fmt.Errorf("theta %d, want %d (retained %d, want %d)", sn.Theta, v.Theta, sn.N, len(v.H))
	}
	if sn.Empty != v.Empty {
		return fmt.Errorf("IsEmpty %v, want %v", sn.Empty, v.Empty)
	}
	if int(sn.N) != len(v.H) || len(sn.H) != len(v.H) {
		return fmt.Errorf("NumRetained %d, iterated %d, want %d", sn.N, len(sn.H), len(v.H))
	}
	hs := slices.Clone(sn.H)
	if sn.Ordered && !slices.IsSorted(hs) {
		return fmt.Errorf("sketch claims to be ordered but iterates %s", Short(hs))
	}
	slices.Sort(hs)
	if !slices.Equal(hs, v.H) {
		return fmt.Errorf("retained hashes %s, want %s", Short(hs), Short(v.H))
	}
	if sn.Est != (v.Theta < ref.MaxTheta && !v.Empty) {
		return fmt.Errorf("IsEstimationMode %v with theta %d empty %v", sn.Est, v.Theta, v.Empty)
	}
	if sn.SeedH != v.SeedH {
		return fmt.Errorf("seed hash %d, want %d", sn.SeedH, v.SeedH)
	}
	want := float64(len(v.H)) / (float64(v.Theta) / float64(ref.MaxTheta))
	if e := s.Estimate(); math.Abs(e-want) > 1e-12*want || (v.Theta == ref.MaxTheta && e != float64(len(v.H))) {
		return fmt.Errorf("Estimate %v, want retained/theta = %v", e, want)
	}
	if th := s.Theta(); math.Abs(th-float64(v.Theta)/float64(ref.MaxTheta)) > 1e-15 {
		return fmt.Errorf("Theta() %v for %d", th, v.Theta)
	}
	return nil
}
