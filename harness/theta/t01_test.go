package theta_test

import (
	"fmt"
	"math"
	"slices"
	"testing"

	"github.com/apache/datasketches-go/theta"
	"pgregory.net/rapid"

	"verif/ref"
	"verif/tgen"
	"verif/vk"
)

type typed struct {
	desc string
	hash uint64 // expected hash; ok==false: rejected input
	ok   bool
	do   func(s *theta.QuickSelectUpdateSketch) error
}

func h1(a, _ uint64) uint64 { return a >> 1 }

func i64hash(v int64, seed uint64) uint64 {
	return h1(ref.Murmur128(ref.LE64(uint64(v)), seed))
}

var specialF = []float64{0, math.Copysign(0, -1), math.NaN(), math.Float64frombits(0xfff8000000000001), math.Float64frombits(0xfff8000000000000), math.Float64frombits(0x7ff0000000000001), math.Inf(1), math.Inf(-1), 1, -1, math.MaxFloat64, 5e-324}

func drawTyped(t *rapid.T, seed uint64) typed {
	switch vk.Int(t, "type", 0, 12) {
	case 0:
		v := rapid.Int64().Draw(t, "i64")
		return typed{fmt.Sprint("int64 ", v), i64hash(v, seed), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt64(v) }}
	case 1:
		v := rapid.Uint64().Draw(t, "u64")
		return typed{fmt.Sprint("uint64 ", v), i64hash(int64(v), seed), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint64(v) }}
	case 2:
		v := rapid.Uint32().Draw(t, "u32")
		return typed{fmt.Sprint("uint32 ", v), i64hash(int64(v), seed), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint32(v) }}
	case 3:
		v := rapid.Int32().Draw(t, "i32")
		return typed{fmt.Sprint("int32 ", v), h1(ref.MurmurInt32(v, seed)), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt32(v) }}
	case 4:
		v := rapid.Int16().Draw(t, "i16")
		return typed{fmt.Sprint("int16 ", v), h1(ref.MurmurInt32(int32(v), seed)), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt16(v) }}
	case 5:
		v := rapid.Uint16().Draw(t, "u16")
		return typed{fmt.Sprint("uint16 ", v), h1(ref.MurmurInt32(int32(v), seed)), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint16(v) }}
	case 6:
		v := rapid.Int8().Draw(t, "i8")
		return typed{fmt.Sprint("int8 ", v), h1(ref.MurmurInt32(int32(v), seed)), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt8(v) }}
	case 7:
		v := rapid.Uint8().Draw(t, "u8")
		return typed{fmt.Sprint("uint8 ", v), h1(ref.MurmurInt32(int32(v), seed)), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint8(v) }}
	case 8:
		v := rapid.OneOf(rapid.Float64(), rapid.SampledFrom(specialF)).Draw(t, "f64")
		return typed{fmt.Sprint("float64 ", v), i64hash(int64(ref.CanonDouble(v)), seed), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateFloat64(v) }}
	case 9:
		v := rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0, float32(math.Copysign(0, -1)), float32(math.NaN()), math.Float32frombits(0xffc00000), math.Float32frombits(0x7f800001), float32(math.Inf(1))})).Draw(t, "f32")
		return typed{fmt.Sprint("float32 ", v), i64hash(int64(ref.CanonDouble(float64(v))), seed), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateFloat32(v) }}
	case 10, 11:
		n := vk.Int(t, "slen", 0, 40)
		v := string(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "str"))
		return typed{fmt.Sprintf("string %q", v), h1(ref.MurmurChars(v, seed)), v != "", func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateString(v) }}
	default:
		n := vk.Int(t, "blen", 0, 40)
		v := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes")
		return typed{fmt.Sprintf("bytes %x", v), h1(ref.Murmur128(v, seed)), true, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateBytes(v) }}
	}
}

func checkUpd(t *rapid.T, us *theta.QuickSelectUpdateSketch, m *ref.ThetaModel, hist string) {
	v := ref.KMV{Theta: m.Theta64(), H: m.Sorted(), Empty: m.Empty, SeedH: ref.SeedHash16(m.Seed)}
	if err := tgen.Check(us, v); err != nil {
		t.Fatalf("update sketch after %s: %v", hist, err)
	}
	for _, ord := range []bool{true, false} {
		c := us.Compact(ord)
		if err := tgen.Check(c, v); err != nil {
			t.Fatalf("Compact(%v) after %s: %v", ord, hist, err)
		}
		if ord && !c.IsOrdered() {
			t.Fatalf("Compact(true) is not flagged ordered after %s", hist)
		}
		c2 := theta.NewCompactSketch(us, ord)
		if !tgen.Snap(c).Equal(tgen.Snap(c2)) {
			t.Fatalf("NewCompactSketch and Compact differ: %v %v", tgen.Snap(c), tgen.Snap(c2))
		}
	}
	if c := us.CompactOrdered(); !c.IsOrdered() {
		t.Fatalf("CompactOrdered not ordered")
	}
}

func TestT01(t *testing.T) {
	vk.Property(t, "T01", "the sketch's table was rebuilt at least once (theta reduced by overflow or trim), or p<1 screened some input, or typed inputs of several kinds were mixed",
		vk.Sub{Name: "history", Quick: 16000, Thorough: 250000, Fn: func(t *rapid.T, c *vk.Case) {
			seed := rapid.OneOf(rapid.Just(uint64(9001)), rapid.Uint64()).Draw(t, "seed")
			if ref.SeedHash16(seed) == 0 {
				seed = 9001
			}
			lgk := uint8(vk.Int(t, "lgk", 5, 12))
			p := tgen.Ps[vk.Int(t, "p", 0, len(tgen.Ps)-1)]
			rf := vk.Int(t, "rf", 0, 3)
			us, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgk), theta.WithUpdateSketchP(p), theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)), theta.WithUpdateSketchSeed(seed))
			if err != nil {
				t.Fatal(err)
			}
			m := ref.NewThetaModel(lgk, p, seed)
			u := tgen.DrawUniverse(t, "u")
			checkUpd(t, us, m, "construction")
			nops := vk.Int(t, "nops", 1, 8)
			hist := ""
			rebuilt, screened, kinds := false, 0, map[string]bool{}
			k := 1 << lgk
			for o := 0; o < nops; o++ {
				switch op := vk.Int(t, "op", 0, 11); {
				case op <= 4: // range of the universe
					n := vk.Size(t, "n", 1, 3*k)
					from := vk.Size(t, "from", 0, 2*k)
					hs := tgen.OpSpec{From: from, N: n, Stride: 1, Order: vk.Int(t, "order", 0, 2)}.Hashes(u)
					hist += fmt.Sprintf(" range(%d,+%d)", from, n)
					for _, h := range hs {
						before := us.NumRetained()
						err := us.UpdateBytes(tgen.Bytes(h, seed))
						_, had := m.Set[h]
						th := m.Theta
						if m.Offer(h) {
							if err != nil {
								t.Fatalf("new key %d rejected: %v", h, err)
							}
						} else {
							if h >= th {
								screened++
							}
							if us.NumRetained() != before {
								t.Fatalf("key %d (dup %v, theta %d) changed the retained count", h, had, th)
							}
						}
					}
				case op <= 6: // consecutive integers
					n := vk.Size(t, "n", 1, 2*k)
					from := rapid.Int64Range(-1000, 1000).Draw(t, "ifrom")
					hist += fmt.Sprintf(" ints(%d,+%d)", from, n)
					for i := int64(0); i < int64(n); i++ {
						_ = us.UpdateInt64(from + i)
						m.Offer(i64hash(from+i, seed))
					}
				case op <= 8:
					n := vk.Int(t, "nt", 1, 12)
					for i := 0; i < n; i++ {
						ty := drawTyped(t, seed)
						err := ty.do(us)
						hist += " " + ty.desc
						kinds[ty.desc[:4]] = true
						if !ty.ok {
							if err == nil {
								t.Fatalf("%s accepted", ty.desc)
							}
							continue
						}
						m.Offer(ty.hash)
					}
				case op == 9: // boundary hashes around the current theta
					for d := -2; d <= 2; d++ {
						h := m.Theta + uint64(d)
						if h > ref.MaxTheta {
							continue
						}
						_ = us.UpdateBytes(tgen.Bytes(h, seed))
						m.Offer(h)
					}
					for _, h := range []uint64{0, 1, ref.MaxTheta, ref.MaxTheta - 1} {
						_ = us.UpdateBytes(tgen.Bytes(h, seed))
						m.Offer(h)
					}
					hist += " boundary"
				case op == 10:
					us.Trim()
					m.Trim()
					hist += " trim"
				default:
					us.Reset()
					m.Reset()
					hist += " reset"
				}
				if m.Rebuilds > 0 {
					rebuilt = true
				}
				checkUpd(t, us, m, hist)
			}
			if us.LgK() != lgk || us.ResizeFactor() != theta.ResizeFactor(rf) {
				t.Fatalf("configuration changed")
			}
			if rebuilt {
				c.Class("rebuilt")
			}
			if rebuilt || screened > 0 && p < 1 || len(kinds) > 1 {
				c.NT(lgk, p, rf, seed, hist)
			}
			if c.WantSample() {
				c.Sample("lgk=%d p=%v rf=%d style=%d:%s -> %d retained theta=%d rebuilds=%d", lgk, p, rf, u.Style, hist, us.NumRetained(), us.Theta64(), m.Rebuilds)
			}
		}},
		vk.Sub{Name: "large", Quick: 200, Thorough: 3000, Fn: func(t *rapid.T, c *vk.Case) {
			lgk := uint8(vk.Int(t, "lgk", 13, 17))
			rf := vk.Int(t, "rf", 0, 3)
			p := tgen.Ps[vk.Int(t, "p", 0, len(tgen.Ps)-1)]
			seed := uint64(9001)
			n := vk.Size(t, "n", 1, 5<<lgk)
			from := rapid.Int64().Draw(t, "from")
			us, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgk), theta.WithUpdateSketchP(p), theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)))
			if err != nil {
				t.Fatal(err)
			}
			m := ref.NewThetaModel(lgk, p, seed)
			for i := 0; i < n; i++ {
				_ = us.UpdateInt64(from + int64(i))
				m.Offer(i64hash(from+int64(i), seed))
			}
			checkUpd(t, us, m, fmt.Sprintf("%d ints from %d", n, from))
			if m.Rebuilds > 0 || p < 1 {
				c.NT(lgk, p, rf, n, from)
			}
			c.Sample("lgk=%d p=%v rf=%d n=%d -> %d retained", lgk, p, rf, n, us.NumRetained())
		}},
		vk.Sub{Name: "order", Quick: 6000, Thorough: 60000, Fn: func(t *rapid.T, c *vk.Case) {
			// the trimmed sketch depends only on the set of inputs
			lgk := uint8(vk.Int(t, "lgk", 5, 9))
			u := tgen.DrawUniverse(t, "u")
			n := vk.Size(t, "n", 0, 5<<lgk)
			perm := vk.NewPRNG(uint64(rapid.Uint32().Draw(t, "perm")))
			idx := make([]int, n)
			for i := range idx {
				idx[i] = i
			}
			mk := func(rf int, dup bool) *theta.CompactSketch {
				us, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgk), theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)))
				for _, i := range idx {
					_ = us.UpdateBytes(tgen.Bytes(u.Hash(i), 9001))
					if dup {
						_ = us.UpdateBytes(tgen.Bytes(u.Hash(i/2), 9001))
					}
				}
				us.Trim()
				return us.Compact(true)
			}
			a := mk(vk.Int(t, "rf1", 0, 3), false)
			for i := n - 1; i > 0; i-- {
				j := perm.Intn(i + 1)
				idx[i], idx[j] = idx[j], idx[i]
			}
			b := mk(vk.Int(t, "rf2", 0, 3), true)
			if a.NumRetained() < 1<<lgk && n > 1<<lgk {
				t.Fatalf("only %d retained of %d distinct", a.NumRetained(), n)
			}
			// both hold k smallest if more than k distinct were seen
			hs := tgen.OpSpec{N: n, Stride: 1, Order: 1}.Hashes(u)
			hs = slices.Compact(hs)
			if len(hs) > 1<<lgk {
				if !slices.Equal(tgen.Snap(a).H, hs[:1<<lgk]) || !slices.Equal(tgen.Snap(b).H, hs[:1<<lgk]) {
					t.Fatalf("trimmed sketches do not hold the k smallest hashes")
				}
				c.NT(lgk, u, n)
			} else if !slices.Equal(tgen.Snap(a).H, hs) || !slices.Equal(tgen.Snap(b).H, hs) {
				t.Fatalf("exact sketches differ from the set")
			}
			c.Sample("lgk=%d style=%d n=%d permuted", lgk, u.Style, n)
		}},
		vk.Sub{Name: "config", Quick: 400, Thorough: 4000, Fn: func(t *rapid.T, c *vk.Case) {
			lgk := rapid.Uint8Range(0, 60).Draw(t, "lgk")
			if lgk > 20 && lgk <= 26 {
				lgk += 6 // avoid gigabyte tables
			}
			p := rapid.Float32Range(-1, 2).Draw(t, "p")
			_, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgk), theta.WithUpdateSketchP(p))
			valid := lgk >= theta.MinLgK && lgk <= theta.MaxLgK && p > 0 && p <= 1
			if (err == nil) != valid {
				t.Fatalf("lgK=%d p=%v: err=%v", lgk, p, err)
			}
			c.NT(lgk, p)
			c.Sample("lgk=%d p=%v valid=%v", lgk, p, valid)
		}},
	)
}
